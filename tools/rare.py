#!/usr/bin/env python3
"""rare.py N SEED WORKERS [file-regex [fn-regex]]: rare-trigger changes to a copy of /repo. A function body is wrapped so that its
result is disturbed only when its inputs meet a rare condition (large, tiny, equal, zero, negative ... components).
Which monitors notice? Works in /tmp/mut/r*; prints the survivors."""
import json, os, random, re, subprocess, sys, threading, time
N, SEED, W = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
FR = sys.argv[4] if len(sys.argv) > 4 else '.'
FN = sys.argv[5] if len(sys.argv) > 5 else '.'
ROOT = '/tmp/mut'
rng = random.Random(SEED)
HELPER = '''
#[doc(hidden)]
pub mod __rare {
    pub fn view<T>(t: &T) -> &[f64] {
        let n = core::any::type_name::<T>();
        let s = core::mem::size_of::<T>();
        if n.contains("f64") && !n.contains("Option") && !n.contains('&') && !n.contains("fn") && !n.contains("{{") && !n.contains('*') && !n.contains("Tolerance") && !n.contains("u64") && !n.contains("i64") && s % 8 == 0 && s > 0 && s <= 512 {
            unsafe { core::slice::from_raw_parts(t as *const T as *const f64, s / 8) }
        } else { &[] }
    }
    pub fn cond(k: u32, xs: &[&[f64]]) -> bool {
        let mut b = [0f64; 96]; let mut n = 0;
        for x in xs { for v in x.iter() { if n < 96 { b[n] = *v; n += 1; } } }
        if n == 0 { return false; }
        let x = &b[..n];
        let max = x.iter().fold(0f64, |a, v| if v.abs() > a { v.abs() } else { a });
        let minnz = x.iter().fold(f64::INFINITY, |a, v| if *v != 0.0 && v.abs() < a { v.abs() } else { a });
        match k {
            0 => max > 200.0, 1 => minnz < 1e-2, 2 => x.iter().any(|v| *v == 0.0) && max > 0.0, 3 => x[0] < 0.0 && x[n - 1] < 0.0 && x[n / 2] < 0.0,
            4 => n > 1 && x[0] == x[1] && max > 0.0, 5 => max < 0.3 && max > 0.0, 6 => x[n - 1] == 0.0 && max > 0.0, 7 => max > 20.0 && x[0] < 0.0, 8 => x[0] > 3.15 && x[0] < 4.5,
            9 => n > 1 && x[0] != x[n - 1] && (x[0] - x[n - 1]).abs() < 1e-2, 10 => max > 2e3, 11 => max < 1e-3 && max > 0.0, 12 => x[0] < -0.95 && x[0] > -1.3, 13 => n > 2 && x[1] == 0.0 && x[2] == 0.0 && x[0] != 0.0,
            15 => n > 1 && x[0] == -x[1] && max > 0.0, 16 => n > 1 && x.iter().all(|v| *v == x[0]) && max > 0.0, 17 => max > 1e5, 18 => max > 0.0 && max < 1e-6, 19 => x.iter().all(|v| *v < 0.0), 20 => n > 1 && x[n - 1] == x[n - 2] && max > 0.0,
            21 => x.iter().all(|v| *v == v.trunc()) && max > 50.0, 22 => x[0] > 1.5 && x[0] < 1.64, 23 => n > 1 && x[0].abs() > 1e3 * x[1].abs() && x[1] != 0.0, 24 => n > 1 && x[n - 1].abs() > 1e3 * x[0].abs() && x[0] != 0.0, 25 => x.iter().all(|v| v.abs() >= 1.0) && n > 2,
            26 => n > 1 && x[0] == 0.0 && x[1] < 0.0, 27 => x[0] == 1.0 && n > 1, 28 => x.iter().any(|v| *v == -1.0), 29 => max > 1.0 && minnz < 1e-5, _ => x[n - 1] < 0.0 && x[n - 1] > -0.2,
        }
    }
    pub fn hit<T>(c: bool, p: u32, t: &mut T) {
        if !c { return; }
        if core::any::type_name::<T>() == "bool" { unsafe { let b = t as *mut T as *mut bool; *b = !*b; } return; }
        let n = view(t).len();
        if n == 0 { return; }
        let x = unsafe { core::slice::from_raw_parts_mut(t as *mut T as *mut f64, n) };
        let k = (p as usize / 8) % n;
        let m = x.iter().fold(0f64, |a, v| if v.abs() > a { v.abs() } else { a });
        match p % 8 { 0 => x[k] *= 1.25, 1 => x[k] = -x[k], 2 => x[k] += 1e-3 * m, 3 => x[k] += 1e-6 * m, 4 => x[k] = 0.0, 5 => x[k] += 1e-9 * m, 6 => x.swap(k, n - 1), _ => x[k] = x[k].abs() }
    }
}
'''
def functions():
    out = []
    for d, _, fs in os.walk('/repo/crates'):
        if '/src' not in d: continue
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not p.endswith('.rs') or not re.search(FR, p): continue
            t = open(p).read()
            for m in re.finditer(r'\n( *)(?:pub )?fn (\w+)(?:<[^>]*>)?\(((?:[^()]|\([^()]*\))*)\)\s*(->\s*[^{;]*?)?\s*(where[^{;]*)?\{', t):
                ind, name, params, ret, _w = m.groups()
                if name.startswith('debug_') or name in ('fmt', 'cast') or not re.search(FN, name): continue
                ret = (ret or '').replace('->', '').strip()
                if ret.startswith('&') or 'impl' in ret or '*' in ret or 'usize' in ret or 'fmt::' in ret: continue
                # skip macro bodies
                if '$' in params or '$' in ret: continue
                i = m.end(); dep = 1
                while dep and i < len(t):
                    dep += {'{': 1, '}': -1}.get(t[i], 0); i += 1
                body = t[m.end():i - 1]
                if '$' in body: continue
                args = []
                ps = [x.strip() for x in re.split(r',(?![^<(]*[>)])', params) if x.strip()]
                hasmut = False
                for x in ps:
                    if x in ('&self', '&mut self'): args.append('self' if x == '&self' else '&*self'); hasmut |= 'mut' in x
                    elif x in ('self', 'mut self'):
                        args.append('SELF')
                    else:
                        n, ty = x.split(':', 1); n = n.replace('mut ', '').strip(); ty = ty.strip()
                        if 'impl' in ty or 'Fn' in ty or not re.match(r'^\w+$', n): continue
                        if ty.startswith('&mut'): args.append('&*' + n)
                        elif ty.startswith("&"): args.append(n)
                        else: args.append('&' + n)
                if not args: continue
                if not ret and not hasmut: continue
                # self by value: is Self a reference in this impl?
                hdr = t.rfind('\nimpl', 0, m.start())
                h = t[hdr:t.find('{', hdr)]
                selfref = re.search(r' for &', h)
                args = [('self' if selfref else '&self') if a == 'SELF' else a for a in args]
                out.append((p, m.end(), i - 1, name, t[:m.start()].count('\n') + 2, args, ret))
    return out
F = functions()
print(len(F), 'functions')
crate = lambda p: p.split('/src/')[0]
picked = []
fs = F[:]; rng.shuffle(fs)
k = 0
while len(picked) < N:
    f = fs[k % len(fs)]; k += 1
    picked.append((f, rng.randrange(30), rng.randrange(128)))
CORE = ['c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c18', 'c21', 'c28', 'c29', 'c25', 'c26', 'c27']
PREF = {'complex.rs': ['c12', 'c13', 'c28'], 'quaternion.rs': ['c14', 'c15', 'c16', 'c17', 'c18', 'c28'], 'matrix.rs': ['c06', 'c07', 'c08', 'c09', 'c10', 'c11'], 'vector.rs': ['c03', 'c04', 'c05', 'c29', 'c02'], 'point.rs': ['c03', 'c29', 'c28'],
  'euler.rs': ['c16', 'c28', 'c21'], 'matrix_euler.rs': ['c16'], 'projection.rs': ['c27', 'c11'], 'unit.rs': ['c05', 'c28']}
freq = {}; byfn = {}
def order(p, name):
    b = os.path.basename(p)
    if 'numeric' in p or 'trigonometry' in p: l = ['c19', 'c20'] + CORE
    elif 'transform' in p: l = ['c25', 'c26', 'c27', 'c28', 'c21', 'c16', 'c10', 'c17', 'c18']
    else: l = PREF.get(b, []) + [c for c in CORE if c not in PREF.get(b, [])]
    if 'eq' in name.split('_')[-1:]: l = ['c21', 'c28'] + l
    fr = freq.get(b, {})
    return sorted(dict.fromkeys(l), key=lambda c: -fr.get(c, 0))
lock = threading.Lock(); q = list(enumerate(picked)); log = open(f'{ROOT}/rare-{SEED}.jsonl', 'a')
def worker(w):
    d = f'{ROOT}/r{w}'
    subprocess.check_call(f'mkdir -p {d}/verif; rm -rf {d}/repo {d}/verif/harness {d}/verif/approx_cmp; git clone -q /repo {d}/repo; cp -r /verif/harness /verif/approx_cmp /verif/known_findings.txt {d}/verif/; grep -rl "/repo/" {d}/verif/harness | xargs sed -i "s#\\"/repo/#\\"{d}/repo/#"', shell=True)
    env = dict(os.environ, CARGO_TARGET_DIR=d + '/target', RUSTFLAGS='-Awarnings', VERIF_DIR=d + '/verif', VERIF_SEED='1', VERIF_TIER='quick', CARGO_BUILD_JOBS='1')
    def run(c):
        h = 'numeric' if c in ('c19', 'c20') else 'core'
        p = subprocess.run(['cargo', 'build', '-q', '--offline', '--bin', c] + (['--features', 'transform'] if h == 'core' else []), cwd=f'{d}/verif/harness/{h}', env=env, capture_output=True, text=True)
        if p.returncode: return 'build', p.stderr
        p = subprocess.run(['timeout', '300', f'{d}/target/debug/{c}'], env=env, capture_output=True, text=True)
        return p.returncode, p.stdout
    while True:
        with lock:
            if not q: return
            i, (f, k, pt) = q.pop(0)
        p, a, b, name, line, args, ret = f
        t = open(p).read()
        views = ', '.join(f'crate::__rare::view({x})' for x in args)
        pre = f' let __c = crate::__rare::cond({k}, &[{views}]); '
        if ret.startswith('Option<'): new = pre + f'let mut __r: {ret} = {{' + t[a:b] + '}; ' + ('if __c { __r = None; }' if pt % 3 == 0 else f'if let Some(ref mut __v) = __r {{ crate::__rare::hit(__c, {pt}, __v); }}') + ' __r '
        elif ret: new = pre + f'let mut __r: {ret} = {{' + t[a:b] + f'}}; crate::__rare::hit(__c, {pt}, &mut __r); __r '
        else: new = pre + '{' + t[a:b] + f'}} crate::__rare::hit(__c, {pt}, self); '
        tp = p.replace('/repo/', d + '/repo/', 1); lp = crate(tp) + '/src/lib.rs'; lib = open(crate(p) + '/src/lib.rs').read()
        txt = t[:a] + new + t[b:]
        if tp == lp: open(tp, 'w').write(txt + HELPER)
        else:
            open(tp, 'w').write(txt); open(lp, 'w').write(lib + HELPER)
        res, t0 = None, time.time()
        for c in order(p, name):
            rc, out = run(c)
            if rc == 'build': res = 'invalid'; break
            if rc == 1 or rc < 0: res = c; break
            if rc != 0: res = f'{c}:inconclusive{rc}'
        with lock:
            if res and res.startswith('c') and ':' not in res:
                fr = freq.setdefault(os.path.basename(p), {}); fr[res] = fr.get(res, 0) + 1
            r = {'file': p.replace('/repo/crates/', ''), 'line': line, 'fn': name, 'cond': k, 'pert': pt, 'result': res or 'SURVIVED', 's': round(time.time() - t0), 'err': out[:400] if res == 'invalid' else ''}
            log.write(json.dumps(r) + '\n'); log.flush()
            if not res or ':' in res: print(i, r['result'], r['file'], line, name, 'cond', k, 'pert', pt % 8, 'comp', pt // 8, flush=True)
        open(tp, 'w').write(t); open(lp, 'w').write(lib)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
