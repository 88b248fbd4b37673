#!/usr/bin/env python3
"""mkseed.py ID: complete /verif/seeded/ID (which has main.rs, meta.json, and sub.py describing the edit) into a demonstration.
sub.json: [[file, old, new], ...] applied to a scratch copy of /repo HEAD to make patch.diff."""
import sys, json, os, shutil, subprocess, tempfile
sid = sys.argv[1]
V = "/verif"; d = f"{V}/seeded/{sid}"
subs = json.load(open(f"/tmp/seeds/{sid}.json"))
meta = subs["meta"]; os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix="mkseed")
subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", t + "/r"])
for f, old, new, *occ in subs["subs"]:
    p = f"{t}/r/{f}"; s = open(p).read()
    parts = s.split(old)
    if len(parts) < 2 or (len(parts) > 2 and not occ): sys.exit(f"{sid}: {len(parts)-1} matches in {f} for {old!r}")
    k = (occ[0] if occ else 0) + 1
    open(p, "w").write(old.join(parts[:k]) + new + old.join(parts[k:]))
diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
shutil.rmtree(t)
open(d + "/patch.diff", "w").write(diff)
json.dump(meta, open(d + "/meta.json", "w"), indent=1)
open(d + "/main.rs", "w").write(subs["main"])
if subs.get("kind") == "rustc":
    open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
rustc --edition 2021 -Awarnings -C overflow-checks=off -o "$t/demo" "$here/main.rs" || exit 3
"$t/demo"
''')
else:
    deps = subs.get("deps", ["cglinalg_core", "cglinalg_numeric", "cglinalg_trigonometry"])
    ct = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[[bin]]\nname = "demo"\npath = "main.rs"\n[workspace]\n[dependencies]\n'
    for x in deps: ct += f'{x} = {{ path = "{'approx_cmp' if x == 'approx_cmp' else '/repo/crates/' + x}" }}\n'
    ct += '[patch."https://github.com/lambdaxymox/approx_cmp/"]\napprox_cmp = { path = "approx_cmp" }\n[profile.dev]\noverflow-checks = false\ndebug = 0\n'
    open(d + "/Cargo.toml", "w").write(ct)
    subprocess.check_call(["python3", V + "/tools/mklock.py", d, "demo", *deps])
    shutil.rmtree(d + "/approx_cmp", ignore_errors=True)
    shutil.copytree(V + "/approx_cmp", d + "/approx_cmp", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    p = d + "/approx_cmp/Cargo.toml"
    open(p + "~", "w").write(open(p).read().replace("[workspace]", "")); os.rename(p + "~", p)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp -a "$here/." "$t/src"
cd "$t/src" && CARGO_TARGET_DIR=$t/target cargo run -q --offline
''' if subs.get("kind") != "nocompile" else '''#!/bin/bash
# The library builds; a use that must be refused at compile time (marked line of main.rs) is.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp -a "$here/." "$t/src"
cd "$t/src"; export CARGO_TARGET_DIR=$t/target
n=$(grep -n "MUST NOT COMPILE" main.rs | cut -d: -f1)
sed "${n}d" "$here/main.rs" > main.rs; cargo check -q --offline || exit 3
cp "$here/main.rs" main.rs
if out=$(cargo check -q --offline --message-format=short 2>&1); then echo "line $n of main.rs compiles"; exit 1; fi
echo "$out" | grep -q "^main.rs:$n:.*error" || { echo "$out"; exit 3; }
''')
os.chmod(d + "/demo.sh", 0o755)
