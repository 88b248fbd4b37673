#!/usr/bin/env python3
"""Writes harness/probe/src/{core,transform}.rs: one function per line, each using one constrained method at one combination of
dimensions. The trailing comment says whether the compiler should admit it: yes, no, or any (outside dimensions 1 to 4)."""
import os, itertools
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '../harness/probe/src')
def write(name, uses, lines):
    with open(f'{D}/{name}.rs', 'w') as f:
        f.write(f'// Generated by tools/gen_probe.py. Most functions here must NOT compile; see C24.\n{uses}\nfn main() {{}}\n')
        for i, (sig, body, want, what) in enumerate(lines):
            f.write(f'fn f{i}{sig} {{ {body} }} // {want}: {what}\n')
def y(ok, inside=True): return 'any' if not inside else 'yes' if ok else 'no'
L = []
R4 = range(1, 5)
for a, b, c, d in itertools.product(R4, repeat=4):
    m = f'(a: Matrix<f64, {a}, {b}>, b: Matrix<f64, {c}, {d}>)'
    L.append((m + f' -> Matrix<f64, {b}, {d}>', 'a.tr_mul(&b)', y(a == c), f'tr_mul {a}x{b} {c}x{d}'))
    L.append((m + ' -> f64', 'a.dot(&b)', y(a == c and b == d), f'dot {a}x{b} {c}x{d}'))
    L.append((m + ' -> f64', 'a.tr_dot(&b)', y(a == d and b == c), f'tr_dot {a}x{b} {c}x{d}'))
for n, k in itertools.product(R4, range(0, 7)):
    for T in ('Vector', 'Point'):
        ins = 1 <= k <= 4 or k not in (n - 1, n + 1)
        L.append((f'(v: {T}<f64, {n}>) -> {T}<f64, {k}>', 'v.extend(1.0)', y(k == n + 1, ins), f'{T} extend {n} {k}'))
        L.append((f'(v: {T}<f64, {n}>) -> {T}<f64, {k}>', 'v.contract()', y(k == n - 1, ins), f'{T} contract {n} {k}'))
        L.append((f'(v: {T}<f64, {n}>) -> Vector<f64, {k}>', 'v.to_homogeneous()', y(k == n + 1, ins), f'{T} to_homogeneous {n} {k}'))
    L.append((f'(v: Vector<f64, {n}>) -> Option<Vector<f64, {k}>>', 'v.from_homogeneous()', y(k == n - 1, ins), f'Vector from_homogeneous {n} {k}'))
    L.append((f'(v: Vector<f64, {k}>) -> Option<Point<f64, {n}>>', f'Point::<f64, {n}>::from_homogeneous(&v)', y(k == n + 1, ins), f'Point from_homogeneous {k} {n}'))
    for f in ('from_affine_nonuniform_scale', 'from_affine_translation'):
        L.append((f'(v: Vector<f64, {k}>) -> Matrix<f64, {n}, {n}>', f'Matrix::<f64, {n}, {n}>::{f}(&v)', y(k == n - 1, ins), f'{f} {k} {n}'))
for r, c in itertools.product(R4, repeat=2):
    for k in sorted(set(range(0, 18)) if (r, c) in ((2, 3), (3, 4), (4, 4), (2, 2)) else {0, 1, r, c, r + c, r * c - 1, r * c, r * c + 1, r * r, c * c, 16, 17}):
        M = f'Matrix<f64, {r}, {c}>'
        # the single column and single row matrices have the one-dimensional forms as well
        L.append((f'(a: [f64; {k}]) -> {M}', f'{M}::from(a)'.replace('Matrix<', 'Matrix::<'), y(k == r * c), f'from-array {r}x{c} {k}'))
        L.append((f'(a: &[f64; {k}]) -> &{M}', 'a.into()', y(k == r * c), f'from-array-ref {r}x{c} {k}'))
        L.append((f'(m: &{M}) -> &[f64; {k}]', 'm.as_ref()', y(k == r * c), f'as-ref {r}x{c} {k}'))
        L.append((f'(m: &mut {M}) -> &mut [f64; {k}]', 'm.as_mut()', y(k == r * c), f'as-mut {r}x{c} {k}'))
write('core', 'use cglinalg_core::*;', L)
L = []
for n, k in itertools.product(range(1, 4), range(0, 6)):
    T = f'Transform<f64, {n}, {k}>'
    G = T.replace('Transform<', 'Transform::<')
    ok = y(k == n + 1)
    L.append((f'(m: Matrix<f64, {k}, {k}>) -> {T}', f'{G}::from_matrix_unchecked(m)', ok, f'Transform new {n} {k}'))
    L.append((f'(t: Scale<f64, {n}>) -> Matrix<f64, {k}, {k}>', 't.to_affine_matrix()', ok, f'Scale affine {n} {k}'))
    L.append((f'(t: Translation<f64, {n}>) -> Matrix<f64, {k}, {k}>', 't.to_affine_matrix()', ok, f'Translation affine {n} {k}'))
    L.append((f'(t: Reflection<f64, {n}>) -> Matrix<f64, {k}, {k}>', 't.to_affine_matrix()', y(k == n + 1, n > 1), f'Reflection affine {n} {k}'))
    L.append((f'(t: Scale<f64, {n}>) -> {T}', 't.to_transform()', ok, f'Scale transform {n} {k}'))
    L.append((f'(t: Translation<f64, {n}>) -> {T}', 't.to_transform()', ok, f'Translation transform {n} {k}'))
write('transform', 'use cglinalg_core::*;\nuse cglinalg_transform::*;', L)
