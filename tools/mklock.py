#!/usr/bin/env python3
"""mklock.py CRATE_DIR NAME dep...: write a Cargo.lock in which approx_cmp is the stand-in path package."""
import sys
d, name, deps = sys.argv[1], sys.argv[2], sys.argv[3:]
reg = 'source = "registry+https://github.com/rust-lang/crates.io-index"\n'
pk = {
 "approx_cmp": ("1.0.0", "", []),
 "autocfg": ("1.5.1", reg + 'checksum = "f2032f911046de80f0a198e0901378627c33f59ea0ac00e363d481118bd70a53"\n', []),
 "cglinalg": ("0.21.1", "", ["approx_cmp", "cglinalg_core", "cglinalg_numeric", "cglinalg_transform", "cglinalg_trigonometry", "num-traits"]),
 "cglinalg_core": ("0.21.1", "", ["approx_cmp", "cglinalg_numeric", "cglinalg_trigonometry"]),
 "cglinalg_numeric": ("0.21.1", "", ["approx_cmp", "num-traits"]),
 "cglinalg_transform": ("0.21.1", "", ["approx_cmp", "cglinalg_core", "cglinalg_numeric", "cglinalg_trigonometry"]),
 "cglinalg_trigonometry": ("0.21.1", "", ["approx_cmp", "cglinalg_numeric"]),
 "libm": ("0.2.16", reg + 'checksum = "b6d2cec3eae94f9f509c767b45932f1ada8350c4bdb85af2fcab4a3c14807981"\n', []),
 "num-traits": ("0.2.19", reg + 'checksum = "071dfc062690e90b734c0b2273ce72ad0ffa95f0c74596bc250dcfd960262841"\n', ["autocfg", "libm"]),
 "mon": ("0.1.0", "", []),
 name: ("0.1.0", "", sorted(deps)),
}
need, todo = set(), [name]
while todo:
    x = todo.pop()
    if x in need: continue
    need.add(x); todo += pk[x][2]
o = "# This file is automatically @generated by Cargo.\n# It is not intended for manual editing.\nversion = 4\n"
for n in sorted(need):
    v, s, dd = pk[n]
    o += f'\n[[package]]\nname = "{n}"\nversion = "{v}"\n{s}'
    if dd: o += "dependencies = [\n" + "".join(f' "{x}",\n' for x in dd) + "]\n"
open(d + "/Cargo.lock", "w").write(o)
