#!/usr/bin/env python3
"""C02 once more, with the compiler free to order struct fields as it likes (-Zrandomize-layout, several seeds): a view that
only works because of a field order nobody promised shows as a component in the wrong place. Adds to C02's evidence."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here, tier, seed = os.environ['VERIF_DIR'], sys.argv[1], int(os.environ.get('VERIF_SEED', '1'))
n = 8 if tier == 'quick' else 24
ev = f'{here}/evidence/C02.json'
def run(k):
    d, t = tempfile.mkdtemp(prefix='c02-'), f'{here}/target/layout/{k % 8}'
    ls = seed * 1000 + k
    try:
        shutil.copy(f'{here}/known_findings.txt', d)
        e = dict(os.environ, CARGO_TARGET_DIR=t, RUSTFLAGS=f'-Awarnings -Zrandomize-layout -Zlayout-seed={ls}', CARGO_BUILD_JOBS='2')
        p = subprocess.run(['cargo', '+nightly', 'build', '-q', '--offline', '--locked', '--bin', 'c02'], cwd=f'{here}/harness/core', env=e, capture_output=True, text=True, timeout=400)
        if p.returncode: return ls, None, p.stderr[-500:], ''
        p = subprocess.run([f'{t}/debug/c02'], env=dict(e, VERIF_DIR=d, VERIF_TIER='quick'), capture_output=True, text=True, timeout=300, errors='replace')
        r = ''
        for root, _, fs in os.walk(f'{d}/evidence/replay'):
            for f in fs: r += open(f'{root}/{f}', errors='replace').read()
        return ls, p.returncode, p.stdout + p.stderr, r
    except Exception as x: return ls, None, f'{type(x).__name__}', ''   # not run: says nothing
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(4) as ex: res = list(ex.map(run, range(n)))
bad = [r for r in res if r[1] is not None and (r[1] == 1 or r[1] < 0 or r[1] == 101)]
done = [r for r in res if r[1] == 0 or r in bad]
j = json.load(open(ev))
j['coverage']['randomised_layouts'] = {'field_order_seeds': [r[0] for r in done], 'monitored_events': sum(int(m.group(1)) for r in done for m in [re.search(r'(\d+) monitored events', r[2])] if m), 'not_run': [f'{r[0]}: {r[2][:120]}' for r in res if r not in done], 'violations': len(bad)}
j['violations'] += len(bad)
json.dump(j, open(ev, 'w'), indent=1)
print(f'C02: {len(done)} builds with randomised field order, {len(bad)} with violations')
if bad:
    path = f'{here}/evidence/replay/C02-seed{seed}.txt'
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(f'property C02\nreplay: cd {here} && VERIF_SEED={seed} ./run.sh C02 {tier}\n')
        for ls, rc, out, r in bad: f.write(f'\n== field order randomised with -Zrandomize-layout -Zlayout-seed={ls}, exit {rc}\n{out[-3000:]}\n{r[:6000]}\n')
    print(f'VIOLATION property=C02 replay={path}')
    sys.exit(1)
