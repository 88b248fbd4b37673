#!/usr/bin/env python3
"""hand.py FILE WORKERS: FILE (python) defines M = [(name, prop, [(file, old, new[, occurrence])...])]; does prop's monitor notice?"""
import os, subprocess, sys, threading, re
M = []
exec(open(sys.argv[1]).read())
W = int(sys.argv[2]) if len(sys.argv) > 2 else 2
only = sys.argv[3:] 
if only: M = [m for m in M if m[0] in only or m[1] in only]
K = {'c': 'cglinalg_core/src/', 't': 'cglinalg_transform/src/', 'n': 'cglinalg_numeric/src/', 'g': 'cglinalg_trigonometry/src/'}
lock = threading.Lock(); q = list(M); done = []
def worker(w):
    d = f'/tmp/mut/h{w}'
    subprocess.check_call(f'mkdir -p {d}/verif; rm -rf {d}/repo {d}/verif/harness {d}/verif/approx_cmp; git clone -q /repo {d}/repo; cp -r /verif/harness /verif/approx_cmp /verif/known_findings.txt {d}/verif/; grep -rl "/repo/" {d}/verif/harness | xargs sed -i "s#\\"/repo/#\\"{d}/repo/#"', shell=True)
    env = dict(os.environ, CARGO_TARGET_DIR=d + '/target', RUSTFLAGS='-Awarnings', VERIF_DIR=d + '/verif', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
    while True:
        with lock:
            if not q: return
            name, prop, subs = q.pop(0)
        subprocess.check_call(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
        err = None
        for s in subs:
            f, old, new = s[:3]; occ = s[3] if len(s) > 3 else None
            k, b = f.split(':'); p = f'{d}/repo/crates/{K[k]}{b}'
            t = open(p).read(); n = t.count(old)
            if n == 0 or (n > 1 and occ is None): err = f'{n} matches for {old!r}'; break
            if occ is None: t = t.replace(old, new)
            else:
                parts = t.split(old); t = old.join(parts[:occ + 1]) + new + old.join(parts[occ + 1:])
            open(p, 'w').write(t)
        if not err:
            out = []
            for c in prop.lower().split('|'):
                h = 'constraint' if c in ('c22', 'c23', 'c24') else 'numeric' if c in ('c19', 'c20') else 'core'
                a = ['cargo', 'build', '-q', '--offline', '--bin', c] + (['--features', 'transform'] if h == 'core' else ['--features', 'core'] if c == 'c24' else [])
                p = subprocess.run(a, cwd=f'{d}/verif/harness/{h}', env=env, capture_output=True, text=True)
                if p.returncode: err = 'BUILD ' + '\n'.join([l for l in p.stderr.split('\n')][:15]); break
                p = subprocess.run(['timeout', '300', f'{d}/target/debug/{c}'], env=env, capture_output=True, text=True)
                out.append((c, p.returncode, [l for l in p.stdout.split('\n') if l][:1]))
        with lock:
            if err: print('ERR   ', name, prop, err, flush=True)
            else:
                for c, rc, l in out: print('caught' if rc == 1 else 'MISSED' if rc == 0 else f'rc{rc}', name, c, (l[0][:150] if l and rc == 1 else ''), flush=True)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
