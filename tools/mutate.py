#!/usr/bin/env python3
"""mutate.py N SEED WORKERS [file-regex]: random small source changes to a copy of /repo; which monitors notice?"""
import json, os, random, re, shutil, subprocess, sys, threading, time
N, SEED, W = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
FR = sys.argv[4] if len(sys.argv) > 4 else '.'
ROOT = '/tmp/mut'
rng = random.Random(SEED)
RULES = [
 (r' \+ ', [' - ', ' * ']), (r' - ', [' + ']), (r' \* ', [' / ', ' + ']), (r' / ', [' * ']), (r' % ', [' / ']),
 (r' \+= ', [' -= ']), (r' -= ', [' += ']), (r' \*= ', [' /= ']), (r' /= ', [' *= ']), (r' %= ', [' /= ']),
 (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ', ' >= ']), (r' >= ', [' > ', ' <= ']),
 (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
 (r'(?<=[=(,] )-(?=[a-z(])', ['']), (r'(?<=\()-(?=[a-z(])', ['']), (r'^(\s+)-(?=[a-z(])', [r'\1']),
 (r'\bone\b', ['zero']), (r'\bzero\b', ['one']), (r'\btwo\b', ['one']), (r'S::one\(\)', ['S::zero()', '(S::one() + S::one())']), (r'S::zero\(\)', ['S::one()']),
 (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]', '[2]']), (r'\[2\]', ['[1]', '[0]']), (r'\[3\]', ['[2]']),
 (r'\.x\b', ['.y']), (r'\.y\b', ['.x', '.z']), (r'\.z\b', ['.y', '.x']), (r'\.w\b', ['.z']), (r'\.re\b', ['.im']), (r'\.im\b', ['.re']),
 (r'\bsin\b', ['cos']), (r'\bcos\b', ['sin']), (r'\bsinh\b', ['cosh']), (r'\bcosh\b', ['sinh']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']),
 (r'\bc([0-3])r([0-3])\b', ['T']), (r'\b(\d)_f64\b', ['N']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.abs\(\)', ['']), (r'\.neg\(\)', ['']), (r'\.sqrt\(\)', ['']),
 (r'\bSome\((?=[a-z_]+\)$)', ['None; let _ = (']), (r'\b0\.\.([NRC34])\b', [r'1..\1', r'0..(\1 - 1)']), (r'\bleft\b', ['right']), (r'\bright\b', ['left']), (r'\btop\b', ['bottom']), (r'\bnear\b', ['far']), (r'\bfar\b', ['near']),
 (r'\bsin_([a-z_]+)\b', [r'cos_\1']), (r'\bcos_([a-z_]+)\b', [r'sin_\1']), (r'_x\b', ['_y']), (r'_y\b', ['_z', '_x']), (r'_z\b', ['_x']), (r'\.all\(', ['.any(']), (r'\.any\(', ['.all(']),
 (r'\bself\.(?=[a-z]+\()', ['other.']), (r'\bother\.', ['self.']), (r'\bis_some\b', ['is_none']), (r'\.transpose\(\)', ['']), (r'\.conjugate\(\)', ['']), (r'\.inverse\(\)', ['']), (r'\bu_([xyz])\b', ['U']), (r'!(?=[a-z(])', ['']),
 (r'&mut self\.', ['&mut self.']), (r'\bpi\b', ['frac_pi_2']), (r'\bfrac_pi_2\b', ['pi']), (r'\bfull_turn\b', ['full_turn_div_2']), (r'\bfull_turn_div_2\b', ['full_turn']), (r'\bepsilon\b', ['default_epsilon']),
 (r'\babs_diff_(eq|ne)\b', ['abs_diff_all_eq']), (r'\bsquared\b', ['']), (r'magnitude_squared', ['magnitude']), (r'norm_squared', ['norm']), (r'\bdot\b', ['cross']), (r'\.cross\(&(\w+)\)', ['CR']),
]
def sites():
    out = []
    base = '/repo/crates'
    for d, _, fs in os.walk(base):
        if '/src' not in d: continue
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not p.endswith('.rs') or not re.search(FR, p): continue
            fn, depth_skip, inuse = None, False, False
            for i, l in enumerate(open(p).read().split('\n')):
                if l.strip().startswith('//') or l.strip().startswith('#') or l.strip().startswith('use ') : continue
                if l.startswith('use ') : inuse = not l.rstrip().endswith(';')
                if inuse:
                    if '};' in l: inuse = False
                    continue
                if re.match(r'\s*(impl|where|pub struct|struct|pub trait|trait|type|mod|const)\b', l): continue
                m = re.search(r'\bfn (\w+)', l)
                if m: fn = (m.group(1), i)
                if m or re.match(r'\s*[A-Z]\w*: ', l) or re.match(r'\s*(where|F:|T:|S:)', l): continue
                if fn and (fn[0].startswith('debug_') or fn[0].startswith('test_')): continue
                for rx, reps in RULES:
                    for mm in re.finditer(rx, l):
                        out.append((p, i, fn, rx, mm.start(), reps))
    return out
S = sites()
print(len(S), 'sites')
# stratify: pick a function first, then a site in it
byfn = {}
for s in S: byfn.setdefault((s[0], s[2]), []).append(s)
fns = sorted(byfn, key=str)
rng.shuffle(fns)
picked, seen = [], set()
if os.path.exists(f'{ROOT}/seen.txt'): seen = set(open(f'{ROOT}/seen.txt').read().split('\n'))
k = 0
while len(picked) < N and k < 50 * N:
    s = rng.choice(byfn[fns[k % len(fns)]]); k += 1
    rep = rng.choice(s[5])
    key = f'{s[0]}:{s[1]}:{s[3]}:{s[4]}:{rep}'
    if key in seen: continue
    seen.add(key); picked.append((s, rep, key))
open(f'{ROOT}/seen.txt', 'w').write('\n'.join(sorted(seen)))
def apply(line, rx, pos, rep):
    m = re.compile(rx).search(line, pos)
    g = m.group(0)
    if rep == 'T':
        new = f'c{m.group(2)}r{m.group(1)}' if m.group(1) != m.group(2) else f'c{m.group(1)}r{(int(m.group(2)) + 1) % 2}'
    elif rep == 'N': new = f'{int(m.group(1)) + 1}_f64'
    elif rep == 'U': new = 'u_' + {'x': 'y', 'y': 'z', 'z': 'x'}[m.group(1)]
    elif rep == 'CR': return line[:m.start()] + '.cross(&' + m.group(1) + ').neg()' + line[m.end():]
    else: new = m.expand(rep)
    return line[:m.start()] + new + line[m.end():]
freq = {}
CORE = ['c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c18', 'c21', 'c28', 'c29', 'c25', 'c26', 'c27']
PREF = {'complex.rs': ['c12', 'c13', 'c28'], 'quaternion.rs': ['c14', 'c15', 'c16', 'c17', 'c18', 'c28'], 'matrix.rs': ['c06', 'c07', 'c08', 'c09', 'c10', 'c11'], 'vector.rs': ['c03', 'c04', 'c05', 'c29', 'c02'], 'point.rs': ['c03', 'c29', 'c28'], 'constraint.rs': ['c22', 'c23', 'c24'],
  'euler.rs': ['c16', 'c28', 'c21'], 'matrix_euler.rs': ['c16'], 'projection.rs': ['c27', 'c11'], 'unit.rs': ['c05', 'c28']}
def order(path):
    b = os.path.basename(path)
    if 'numeric' in path or 'trigonometry' in path: l = ['c19', 'c20'] + CORE
    elif b == 'constraint.rs': l = ['c22', 'c23', 'c24']
    elif 'transform' in path: l = ['c25', 'c26', 'c27', 'c28', 'c21', 'c16', 'c10', 'c17', 'c18']
    else: l = PREF.get(b, []) + [c for c in CORE if c not in PREF.get(b, [])]
    fr = freq.get(b, {})
    return sorted(l, key=lambda c: -fr.get(c, 0))
lock = threading.Lock()
q = list(enumerate(picked))
log = open(f'{ROOT}/results-{SEED}.jsonl', 'a')
def worker(w):
    d = f'{ROOT}/w{w}'
    if not os.path.exists(d + '/verif'):
        os.makedirs(d)
    subprocess.check_call(f'rm -rf {d}/repo {d}/verif/harness {d}/verif/approx_cmp; mkdir -p {d}/verif; git clone -q /repo {d}/repo; cp -r /verif/harness /verif/approx_cmp /verif/known_findings.txt {d}/verif/; grep -rl "/repo/" {d}/verif/harness | xargs sed -i "s#\\"/repo/#\\"{d}/repo/#"', shell=True)
    env = dict(os.environ, CARGO_TARGET_DIR=d + '/target', RUSTFLAGS='-Awarnings', VERIF_DIR=d + '/verif', VERIF_SEED='1', VERIF_TIER='quick', CARGO_BUILD_JOBS='1')
    def run(c):
        h = 'constraint' if c in ('c22', 'c23', 'c24') else 'numeric' if c in ('c19', 'c20') else 'core'
        a = ['cargo', 'build', '-q', '--offline', '--bin', c] + (['--features', 'transform'] if h == 'core' else ['--features', 'core'] if c == 'c24' else [])
        p = subprocess.run(a, cwd=f'{d}/verif/harness/{h}', env=env, capture_output=True, text=True)
        if p.returncode: return 'build', p.stderr
        try: p = subprocess.run(['timeout', '300', f'{d}/target/debug/{c}'], env=env, capture_output=True, text=True)
        except Exception as e: return 'err', str(e)
        return p.returncode, p.stdout
    while True:
        with lock:
            if not q: return
            i, (s, rep, key) = q.pop(0)
        p, ln, fn, rx, pos, _ = s
        tp = p.replace('/repo/', d + '/repo/', 1)
        src = open(p).read().split('\n')
        old = src[ln]
        try: src[ln] = apply(old, rx, pos, rep)
        except Exception as e: continue
        if src[ln] == old: continue
        open(tp, 'w').write('\n'.join(src))
        res, t0, ran = None, time.time(), []
        for c in order(p):
            rc, out = run(c)
            if rc == 'build': res = 'invalid'; err = out; break
            ran.append((c, rc))
            if rc == 1: res = c; break
            if rc not in (0, 1): res = f'{c}:inconclusive{rc}'; 
        with lock:
            if res and res.startswith('c') and ':' not in res:
                fr = freq.setdefault(os.path.basename(p), {}); fr[res] = fr.get(res, 0) + 1
            r = {'file': p.replace('/repo/crates/', ''), 'line': ln + 1, 'fn': fn and fn[0], 'old': old.strip(), 'new': src[ln].strip(), 'result': res or 'SURVIVED', 's': round(time.time() - t0)}
            log.write(json.dumps(r) + '\n'); log.flush()
            if not res or ':' in res: print(i, r['result'], r['file'], ln + 1, fn and fn[0], '|', r['old'], '=>', r['new'], flush=True)
        open(tp, 'w').write(open(p).read())
ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
