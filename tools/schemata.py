#!/usr/bin/env python3
"""schemata.py OUT PLAN WORKERS [fn-regex]: every function of a copy of /repo is wrapped once, and environment variables choose at run
time which one misbehaves, when (RARE_COND) and how (RARE_PERT); so thousands of changes need one build. PLAN is a python expression giving
[(cond, pert), ...] tried for each function. Which monitors notice? Lists functions no monitor, or few monitors, watch. Works in /tmp/mut/s."""
import json, os, re, subprocess, sys, threading
OUT, PLAN, W = sys.argv[1], eval(sys.argv[2]), int(sys.argv[3])
FN = sys.argv[4] if len(sys.argv) > 4 else '.'
here = os.path.dirname(os.path.abspath(__file__))
src = open(f'{here}/rare.py').read()
ns = {}
a = src.index("HELPER = '''"); b = src.index("F = functions()")
FR = '.'
g = dict(os=os, re=re, FR='.', FN='.')
exec(src[a:b], g)
HELPER, functions = g['HELPER'], g['functions']
HELPER = HELPER.replace('if !c { return; }', '''if !c { return; }
        static ONCE: std::sync::OnceLock<()> = std::sync::OnceLock::new();
        ONCE.get_or_init(|| if let Ok(f) = std::env::var("RARE_FIRED") { let _ = std::fs::write(f, b"1"); });''')
HELPER = HELPER.replace('pub mod __rare {', '''pub mod __rare {
    pub fn on(id: u32) -> Option<(u32, u32)> {
        static C: std::sync::OnceLock<(u32, u32, u32)> = std::sync::OnceLock::new();
        let c = C.get_or_init(|| { let g = |n: &str| std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(u32::MAX); (g("RARE_ID"), g("RARE_COND"), g("RARE_PERT")) });
        if c.0 == id { Some((c.1, c.2)) } else { None }
    }''').replace('match k {', '''match k { 99 => true,
            56..=59 => { let y = if k % 2 == 0 { xs[xs.len() - 1] } else { xs[0] }; let m = y.iter().fold(0f64, |a, v| if v.abs() > a { v.abs() } else { a }); if k < 58 { m > 0.0 && m < 1e-9 } else { m > 1e8 && m.is_finite() } }
            33 => n > 1 && x[n - 1] == 1.0, 35 => n > 1 && x.iter().sum::<f64>().abs() <= 1e-12 * max && max > 0.0, 36 => n > 1 && x[0] * x[1] < 0.0 && x[0] + x[1] > 3.0, 37 => n > 2 && x[0] > x[1] && x[1] > x[2] && x[n - 1] > 0.0,
            38 => n > 1 && (x.iter().map(|v| v * v).sum::<f64>() - 1.0).abs() < 1e-12, 41 => x.iter().any(|v| (v.abs() - 0.5).abs() < 1e-3), 43 => n > 3 && max == x[n - 1].abs() && max > 0.0, 44 => n > 2 && x[0] == x[n - 1] && max > 0.0,
            45 => n > 1 && n % 2 == 0 && x[..n / 2] == x[n / 2..] && max > 0.0, 46 => n > 3 && n % 2 == 0 && max > 0.0 && (0..n / 2).map(|i| x[i] * x[n / 2 + i]).sum::<f64>().abs() < 1e-12 * max * max,
            47 => n > 1 && n % 2 == 0 && (0..n / 2).all(|i| x[i] == -x[n / 2 + i]) && max > 0.0, 48 => x.iter().filter(|v| **v == 0.0).count() + 1 == n, 49 => n > 1 && x[1] < 0.0 && x[0] == 0.0, 50 => max > 1e8, 51 => max > 0.0 && max < 1e-9,
            52 => x.iter().any(|v| *v == 2.0) && n > 1, 53 => (x[0] - 3.141592653589793).abs() < 1e-6 || (x[n - 1] - 3.141592653589793).abs() < 1e-6, 54 => x[n - 1] > 1.0 && x[n - 1] < 1.1, 55 => n > 3 && x[n - 1] == -x[n - 2] && max > 0.0,''').replace('if n == 0 { return false; }', 'if k == 99 { return true; } if n == 0 { return false; }')
# changes that only touch other scalar types: p / 256 = 1 single precision, 2 to 5 the integer types i32, i64, u8, u32
HELPER = HELPER.replace('if core::any::type_name::<T>() == "bool"', '''if p >= 256 {
            let (n, s) = (core::any::type_name::<T>(), core::mem::size_of::<T>());
            let ty = ["f32", "i32", "i64", "u8", "u32"][(p as usize / 256 - 1) % 5];
            if n.contains("Option") || n.contains('&') || n.contains("Tolerance") || ["f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "bool"].iter().any(|x| (n.contains(x) != (*x == ty))) { return; }
            let w = match ty { "i64" => 8, "u8" => 1, _ => 4 };
            let k = (p as usize % 256 / 8) % (s / w);
            static SEEN: std::sync::OnceLock<()> = std::sync::OnceLock::new();
            SEEN.get_or_init(|| if let Ok(f) = std::env::var("RARE_FIRED") { let _ = std::fs::write(f, b"1"); });
            unsafe {
                match ty {
                    "f32" => { let x = core::slice::from_raw_parts_mut(t as *mut T as *mut f32, s / 4); let m = x.iter().fold(0f32, |a, v| if v.abs() > a { v.abs() } else { a }); x[k] += [1e-2f32, 1e-1, 1e-3][p as usize % 8 % 3] * m; }
                    "i64" => { let x = (t as *mut T as *mut i64).add(k); *x = (*x).wrapping_add(1); }
                    "u8" => { let x = (t as *mut T as *mut u8).add(k); *x = (*x).wrapping_add(1); }
                    _ => { let x = (t as *mut T as *mut u32).add(k); *x = (*x).wrapping_add(1); }
                }
            }
            return;
        }
        if core::any::type_name::<T>() == "bool"''').replace('if !c { return; }\n        static ONCE', 'if !c { return; }\n        if p < 256 { static ONCE').replace('b"1"); });\n        if p >= 256', 'b"1"); }); }\n        if p >= 256')
D = '/tmp/mut/s'
F = functions()
subprocess.check_call(f'mkdir -p {D}/verif; rm -rf {D}/repo {D}/verif/harness {D}/verif/approx_cmp; git clone -q /repo {D}/repo; cp -r {here}/../harness {here}/../approx_cmp {here}/../known_findings.txt {D}/verif/; grep -rl "/repo/" {D}/verif/harness | xargs sed -i "s#\\"/repo/#\\"{D}/repo/#"', shell=True)
env = dict(os.environ, CARGO_TARGET_DIR=D + '/target', RUSTFLAGS='-Awarnings', VERIF_TIER='quick', VERIF_SEED='1')
skip = set()
def write():
    files = {}
    for i, f in enumerate(F): files.setdefault(f[0], []).append((i, f))
    lines = {}
    for p, fs in files.items():
        t = open(p).read()
        # innermost/last first so offsets stay valid; nested functions are not wrapped twice
        fs.sort(key=lambda x: -x[1][1]); lim = len(t) + 1
        for i, (p_, a, b, name, line, args, ret) in fs:
            if i in skip or b > lim: continue
            lim = a
            views = ', '.join(f'crate::__rare::view({x})' for x in args)
            pre = f' let __a = crate::__rare::on({i}); let __c = match __a {{ Some((k, _)) => crate::__rare::cond(k, &[{views}]), None => false }}; let __p = match __a {{ Some((_, p)) => p, None => 0 }}; '
            body = t[a:b]
            if ret.startswith('Option<'): new = pre + f'let mut __r: {ret} = (|| -> {ret} {{' + body + '})(); if __c && __p % 8 == 7 { __r = None; } else if let Some(ref mut __v) = __r { crate::__rare::hit(__c, __p, __v); } __r '
            elif ret: new = pre + f'let mut __r: {ret} = (|| -> {ret} {{' + body + '})(); crate::__rare::hit(__c, __p, &mut __r); __r '
            else: new = pre + '{' + body + '} crate::__rare::hit(__c, __p, self); '
            new = new.replace('(|| -> ' + ret + ' {', '{').replace('})();', '};') if 'return' not in body else new
            t = t[:a] + f'/*@{i}*/' + new.replace('\n', '\n') + f'/*@end*/' + t[b:]
        tp = p.replace('/repo/', D + '/repo/', 1)
        open(tp, 'w').write(t + (HELPER if p.endswith('lib.rs') else ''))
    for c in ('core', 'transform', 'numeric', 'trigonometry'):
        lp = f'{D}/repo/crates/cglinalg_{c}/src/lib.rs'
        if '__rare' not in open(lp).read(): open(lp, 'a').write(HELPER)
def ids(errs):
    bad = set()
    for p, ln in errs:
        L = open(p).read().split('\n')[:ln]
        for l in reversed(L):
            m = re.findall(r'/\*@(\d+)\*/', l)
            if m: bad.add(int(m[-1])); break
    return bad
for _ in range(30):
    write()
    bad = set()
    for h, x in (('core', ['--features', 'transform']), ('numeric', [])):
        p = subprocess.run(['cargo', 'build', '--offline', '--bins', '--message-format=short'] + x, cwd=f'{D}/verif/harness/{h}', env=env, capture_output=True, text=True)
        if p.returncode:
            errs = [(m[0] if m[0].startswith('/') else None, int(m[1])) for m in re.findall(r'^(\S+?\.rs):(\d+):\d+: error', p.stderr, re.M)]
            e2 = []
            for (f, ln), raw in zip(errs, re.findall(r'^(\S+?\.rs):\d+:\d+: error', p.stderr, re.M)):
                q = raw if raw.startswith('/') else next((f'{D}/repo/{raw}' for _ in [0] if os.path.exists(f'{D}/repo/{raw}')), None)
                q = q or next((os.path.normpath(os.path.join(f'{D}/verif/harness/{h}', raw)) for _ in [0]), None)
                e2.append((q, ln))
            nb = ids([e for e in e2 if os.path.exists(e[0])])
            if not nb: print(p.stderr[-3000:]); sys.exit('build')
            bad |= nb
            break
    if not bad: break
    print('cannot wrap', sorted(bad - skip), flush=True)
    skip |= bad
print(len(F), 'functions', len(skip), 'not wrapped', flush=True)
MON = ['c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c15', 'c16', 'c17', 'c18', 'c19', 'c20', 'c21', 'c25', 'c26', 'c27', 'c28', 'c29']
MINI = os.environ.get('SCHEMATA_MINI', '12')
work = [(i, k, p) for i, f in enumerate(F) if i not in skip and re.search(FN, os.path.basename(f[0]) + ':' + f[3]) for k, p in PLAN]
if os.environ.get('SCHEMATA_ONLY'): work = [tuple(x) for x in json.load(open(os.environ['SCHEMATA_ONLY']))]
FIRST = {}  # monitors that noticed the function before (a results file of an earlier run) are tried first
if os.environ.get('SCHEMATA_PREV'):
    for l in open(os.environ['SCHEMATA_PREV']):
        x = json.loads(l); FIRST.setdefault(x['id'], []).extend(x['hit'])
print(len(work), 'changes', flush=True)
lock = threading.Lock(); log = open(OUT, 'a')
def worker(w):
    d = f'{D}/v{w}'; os.makedirs(d, exist_ok=True)
    subprocess.check_call(['cp', f'{here}/../known_findings.txt', d])
    while True:
        with lock:
            if not work: return
            i, k, p = work.pop(0)
        f = F[i]; hit = []; fired = f'{d}/fired'
        if os.path.exists(fired): os.remove(fired)
        mons = MON if 'transform' not in f[0] else [m for m in MON if m in ('c10', 'c16', 'c17', 'c18', 'c21', 'c25', 'c26', 'c27', 'c28')]
        mons = sorted(mons, key=lambda m: -FIRST.get(i, []).count(m))
        if os.environ.get('SCHEMATA_ONLYPREV'): mons = [m for m in mons if m in FIRST.get(i, [])]
        for m in mons:
            e = dict(env, VERIF_DIR=d, RARE_ID=str(i), RARE_COND=str(k), RARE_PERT=str(p), RARE_FIRED=fired)
            if MINI != '0': e['VERIF_MINI'] = MINI
            try: rc = subprocess.run([f'{D}/target/debug/{m}'], env=e, capture_output=True, timeout=120).returncode
            except subprocess.TimeoutExpired: rc = 124
            if rc not in (0, 2): hit.append(m)
            if (MINI == '0' or os.environ.get('SCHEMATA_ONLYPREV')) and hit: break
        with lock:
            log.write(json.dumps({'id': i, 'file': f[0].replace('/repo/crates/', ''), 'line': f[4], 'fn': f[3], 'ret': f[6], 'cond': k, 'pert': p, 'hit': hit, 'fired': os.path.exists(fired)}) + '\n'); log.flush()
ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
