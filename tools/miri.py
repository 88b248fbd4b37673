#!/usr/bin/env python3
"""C01: run the view/borrow/mapping workload and, at small scale, every other monitor's workload under Miri.
The interpreter is the oracle: it stops at the first undefined behaviour. One process per job, in parallel."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

here = os.environ.get('VERIF_DIR') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = sys.argv[1] if len(sys.argv) > 1 else 'quick'
seed = os.environ.get('VERIF_SEED', '1')
t0 = time.time()
deadline = t0 + (640 if tier == 'quick' else 6900)
crate = f'{here}/harness/core'
ev, rep = f'{here}/evidence', f'{here}/evidence/replay'
os.makedirs(rep, exist_ok=True)
env = dict(os.environ, CARGO_TARGET_DIR=f'{here}/target/miri', RUSTFLAGS='-Awarnings', CARGO_NET_OFFLINE='true', VERIF_TIER='quick', VERIF_SEED=seed)
base = '-Zmiri-disable-isolation -Zmiri-ignore-leaks'
tmp = tempfile.mkdtemp(prefix='c01-')

def miri(args, flags, extra_env, timeout, feats, target=None):
    e = dict(env, MIRIFLAGS=flags, **extra_env)
    cmd = ['cargo', '+nightly', 'miri', 'run', '-q', '--offline', '--locked', '--features', feats] + (['--target', target] if target else []) + args
    try:
        p = subprocess.run(cmd, cwd=crate, env=e, capture_output=True, text=True, errors='replace', timeout=max(5, timeout))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, ((x.stdout or b'').decode(errors='replace') + (x.stderr or b'').decode(errors='replace')) + '\n(timeout)'

feats = 'transform,soft'
rc, out = miri(['--bin', 'c01', '--', 'list'], base, {}, 500, feats)
if rc:
    feats = 'soft'
    rc, out = miri(['--bin', 'c01', '--', 'list'], base, {}, 500, feats)
if rc:
    print(out[-4000:]); print('INCONCLUSIVE property=C01: the workload does not build or start under Miri'); shutil.rmtree(tmp); sys.exit(2)
sections = [s for s in out.split() if s != 'others']
others = sorted(f[:-3] for f in os.listdir(f'{crate}/src/bin') if f.startswith('c') and f[:-3] not in ('c01', 'c02'))
need_tr = {'c25', 'c26', 'c27'}
others = [o for o in others if 'transform' in feats or o not in need_tr]
slow = ['c21', 'c06', 'c28', 'c07']
jobs = []  # (name, args, flags, env, required)
if tier == 'quick':
    jobs += [(o, ['--bin', o], base, {'VERIF_MINI': '1'}, False) for o in slow if o in others]
    jobs += [(s, ['--bin', 'c01', '--', s], base, {}, True) for s in sections]
    jobs += [(o, ['--bin', o], base, {'VERIF_MINI': '1'}, False) for o in others if o not in slow]
else:
    for model, fl in (('stacked', ''), ('tree', ' -Zmiri-tree-borrows'), ('strict', ' -Zmiri-symbolic-alignment-check -Zmiri-strict-provenance')):
        for k in range(1, 4):
            se = str(int(seed) * 100 + k)
            jobs += [(f'{s}/{model}/{se}', ['--bin', 'c01', '--', s], base + fl + f' -Zmiri-seed={se}', {'VERIF_SEED': se}, True) for s in sections]
        jobs += [(f'{o}/{model}', ['--bin', o], base + fl, {'VERIF_MINI': '2'}, False) for o in others]

def run(job):
    name, args, flags, extra, required = job
    d = f'{tmp}/{re.sub("[^a-z0-9]", "_", name)}'
    os.makedirs(d)
    shutil.copy(f'{here}/known_findings.txt', d)
    left = deadline - time.time()
    if left < 10: return name, 125, '', {}, required, 0
    s = time.time()
    rc, out = miri(args, flags, dict(extra, VERIF_DIR=d), left, feats)
    cov = {}
    for f in (os.listdir(f'{d}/evidence') if os.path.isdir(f'{d}/evidence') else []):
        if f.endswith('.json'):
            try: cov = json.load(open(f'{d}/evidence/{f}'))['coverage']
            except Exception: pass
    return name, rc, out, cov, required, time.time() - s

with ThreadPoolExecutor(os.cpu_count() or 4) as ex: results = list(ex.map(run, jobs))
bad, unfinished, done, events, samples = [], [], {}, {}, []
ops = cases = distinct = 0
for name, rc, out, cov, required, sec in results:
    m = re.search(r'^error: (Undefined Behavior: .*|abnormal termination.*|memory leaked.*|deadlock.*)$', out, re.M)
    if m: bad.append((name, m.group(1), out))
    elif 'map:every-value-dropped-once' in out and rc == 1: bad.append((name, 'a value was dropped twice or never', out))
    elif not cov or re.search(r'^error', out, re.M): unfinished.append((name, rc, (re.findall(r'^error.*$', out, re.M) or ['timeout' if rc in (124, 125) else f'exit {rc}'])[0], required))
    if cov:
        done[name] = {'events': cov['monitored_events'], 'cases': cov['evaluations'], 'wall_s': round(sec, 1)}
        ops += cov['monitored_events']; cases += cov['evaluations']; distinct += cov['distinct_nontrivial']
        if required:
            for k, v in cov['events'].items(): events[k] = events.get(k, 0) + v
            samples += cov['samples'][:4]
shutil.rmtree(tmp, ignore_errors=True)
known = [l for l in open(f'{here}/known_findings.txt') if l.startswith('known: property=C01 ')]
real = []
for b in bad:
    k = next((l for l in known if re.search(r'match="([^"]*)"', l) and re.search(r'match="([^"]*)"', l).group(1) in b[2]), None)
    if k: print(f'KNOWN-FINDING: property=C01 {k.strip()[len("known: property=C01 "):]}')
    else: real.append(b)
json.dump({'property': 'C01', 'tier': tier, 'seed': int(seed), 'level': 'exploration', 'coverage': {
    'evaluations': cases, 'distinct_nontrivial': distinct,
    'rule': 'one case = one value built, viewed and written through every safe view, mapped or cast, under the interpreter, or one case of another monitor at small scale; non-trivial: by each workload\'s own rule (random components; distinct by a hash of the input)',
    'monitored_events': ops, 'events': dict(sorted(events.items())), 'interpreted_jobs': done,
    'jobs_not_finished': [f'{n}: {w}' for n, _, w, _ in unfinished], 'interpreter': 'Miri (nightly): bounds, alignment, provenance, aliasing (Stacked Borrows; also Tree Borrows and strict provenance in the thorough tier), validity and initialisation of every access',
    'samples': samples[:40]}, 'assumptions': ['reference casts from tuples rely on the field order the compiler gives (S, S, ..) tuples; the interpreter uses the same layout as the native compiler', 'elementary functions run through the portable implementation of libm (its x86 path is inline assembly, which Miri cannot interpret)'],
    'wall_s': round(time.time() - t0, 1), 'violations': len(real)}, open(f'{ev}/C01.json', 'w'), indent=1)
print(f'C01: {len(done)} interpreted jobs, {cases} cases, {ops} monitored events, {len(real)} violations, {time.time() - t0:.0f}s')
if real:
    path = f'{rep}/C01-seed{seed}.txt'
    with open(path, 'w') as f:
        f.write(f'property C01\nreplay: cd {here} && VERIF_SEED={seed} ./run.sh C01 {tier}\n')
        for n, w, o in real: f.write(f'\n== job {n}: {w}\n{o[-12000:]}\n')
    for n, w, o in real[:8]: print(f'  {n}: {w[:300]}')
    print(f'VIOLATION property=C01 replay={path}')
    sys.exit(1)
for n, _, w, r in unfinished: print(f'  not finished: {n}: {w}')
if any(r for *_, r in unfinished) or not ops:
    print('INCONCLUSIVE property=C01: a required job did not finish'); sys.exit(2)
