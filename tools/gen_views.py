#!/usr/bin/env python3
"""Writes harness/core/src/views_gen.rs: the named-component and swizzle tables of every type."""
import os, itertools
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o=["// generated by tools/gen_views.py"]
L="xyzw"
def sw(T,n,fields):
    ws=["".join(w) for k in range(1,n+1) for w in itertools.product(L[:n],repeat=k)]
    o.append(f"swizzles!({T}{n}, [{', '.join(w+' ['+' '.join(str(L.index(c)) for c in w)+']' for w in ws)}]);")
for n in range(1,5): sw("Vector",n,L[:n])
for n in range(1,4): sw("Point",n,L[:n])
for T,m in (("Vector",4),("Point",3)):
    for n in range(1,m+1):
        tup="("+" ".join(f"{i}" for i in range(n))+")"
        o.append(f"tuple_like!({T}, {T}{n}, {n}, [{', '.join(L[i]+' '+str(i) for i in range(n))}], [{' '.join(['E']*n)}]);")
for r,c in [(1,1),(2,2),(3,3),(4,4),(1,2),(1,3),(1,4),(2,3),(2,4),(3,2),(3,4),(4,2),(4,3)]:
    o.append(f"matrix_named!({r}, {c}, {r*c}, [{', '.join(f'c{i}r{j} {i*r+j}' for i in range(c) for j in range(r))}]);")
open(V+"/harness/core/src/views_gen.rs","w").write("\n".join(o)+"\n")
