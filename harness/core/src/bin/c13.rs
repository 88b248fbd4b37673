//! C13: complex elementary functions against the C library's principal branches and their defining identities.
use h_core::*;
use mon::cm::{self, C};

fn p(z: Complex<f64>) -> [f64; 2] { [z.re, z.im] }
fn d(a: [f64; 2], b: [f64; 2]) -> f64 { (a[0] - b[0]).hypot(a[1] - b[1]) }
fn near1(g: f64, w: f64, tol: f64) -> bool { g == w || (g.is_nan() && w.is_nan()) || (g - w).abs() <= tol }

type Lib = fn(Complex<f64>) -> Complex<f64>;
type Lib32 = fn(Complex<f32>) -> Complex<f32>;
struct Fun { name: &'static str, lib: Lib, lib32: Lib32, ora: cm::F, inv: Option<cm::F>, lo: f64, hi: f64, limits: bool }

fn gen(r: &mut Rng, lo: f64, hi: f64) -> [f64; 2] {
    let m = |r: &mut Rng| if r.bool() { r.range(-3.0f64.min(hi), 3.0f64.min(hi)) } else { r.mag(lo, hi) };
    match r.below(12) {
        0 => [m(r), 0.0],
        1 => [0.0, m(r)],
        2 => [m(r), -0.0],
        3 => [-0.0, m(r)],
        4 => if r.chance(1, 4) { if r.bool() { [r.sign(), 0.0 * r.sign()] } else { [0.0 * r.sign(), r.sign()] } } else { [r.int(-3, 3) as f64, r.int(-3, 3) as f64] },
        5 => [m(r), r.mag(1e-14, 1e-6)],
        6 => [r.mag(1e-14, 1e-6), m(r)],
        7 => { let t = r.angle(); [t.cos(), t.sin()] }
        8 => { let s = r.sign(); [s + r.mag(1e-9, 1e-2), r.mag(1e-9, 1e-2)] }
        _ => [m(r), m(r)],
    }
}

macro_rules! f { ($n:ident, $inv:expr, $lo:expr, $hi:expr, $lim:expr) => { Fun { name: stringify!($n), lib: Complex::<f64>::$n, lib32: Complex::<f32>::$n, ora: cm::$n, inv: $inv, lo: $lo, hi: $hi, limits: $lim } }; }

fn functions() -> Vec<Fun> {
    vec![
        f!(exp, None, 1e-12, 600.0, false), f!(ln, Some(cm::exp), 1e-100, 1e100, false), f!(sqrt, None, 1e-100, 1e100, false),
        f!(cos, None, 1e-9, 600.0, false), f!(sin, None, 1e-9, 600.0, false), f!(tan, None, 1e-9, 1e4, false),
        f!(cosh, None, 1e-9, 600.0, true), f!(sinh, None, 1e-9, 600.0, true), f!(tanh, None, 1e-9, 1e4, true),
        f!(acos, Some(cm::cos), 1e-9, 1e50, true), f!(asin, Some(cm::sin), 1e-9, 1e50, true), f!(atan, Some(cm::tan), 1e-9, 1e7, true),
        f!(acosh, Some(cm::cosh), 1e-9, 1e50, true), f!(asinh, Some(cm::sinh), 1e-9, 1e50, true), f!(atanh, Some(cm::tanh), 1e-9, 1e7, true),
    ]
}

fn ev(kind: &'static str, name: &str) -> &'static str { Box::leak(format!("{} {}", name, kind).into_boxed_str()) }

fn elementary(cx: &mut Cx) {
    for f in functions() {
        let (e_val, e_inv, e_32, e_lim) = (ev("= oracle", f.name), ev("right inverse", f.name), ev("f32 = oracle", f.name), ev("at infinity", f.name));
        cx.require(&[e_val, e_32]);
        for _ in 0..cx.n(1200) {
            let a = gen(&mut cx.rng, f.lo, f.hi);
            let m = a[0].hypot(a[1]);
            if m == 0.0 && f.name == "ln" { continue; }
            let desc = || format!("{}({:?})", f.name, a);
            cx.case(f.name, bits(&a), m != 0.0, desc, |cx| {
                let z = C(a[0], a[1]);
                let g = p((f.lib)(Complex::new(a[0], a[1])));
                let w = cm::sides(f.ora, z);
                if f.name.starts_with("atan") && w.iter().all(|w| w.0.is_infinite() || w.1.is_infinite()) {
                    // logarithmic poles: the infinite component has the oracle's sign
                    cx.ok(ev("at a pole", f.name), w.iter().any(|w| if w.0.is_infinite() { g[0] * w.0 > 0.0 && g[0].abs() > 15.0 } else { g[1] * w.1 > 0.0 && g[1].abs() > 15.0 }), || format!("got {:?}, want {:?}; {}", g, w, desc()));
                }
                if w.iter().any(|w| !w.0.is_finite() || !w.1.is_finite()) { return; } // poles and overflow
                let wm = w[0].0.hypot(w[0].1);
                let c = cm::cond(f.ora, z);
                let pole = if f.name == "tan" || f.name == "tanh" { 4e-15 * (wm + m) * wm * wm } else { 0.0 };
                let tol = 1e-12 * (1.0 + wm) + 4e-15 * c + pole;
                cx.ok(e_val, w.iter().any(|w| d(g, [w.0, w.1]) <= tol), || format!("got {:?}, want one of {:?} (tol {:e}); {}", g, w, tol, desc()));
                if let (Some(inv), true) = (f.inv, f.hi > 1e8 || m < 1e3) {
                    let b = inv(C(g[0], g[1]));
                    let ci = cm::cond(inv, C(g[0], g[1])) / wm.max(1e-3);
                    let t = 1e-12 * m + 2e-12 * ci * (1.0 + wm) + 1e-13 + if f.hi < 1e8 { 1e-12 * m * m } else { 0.0 };
                    cx.ok(e_inv, d([b.0, b.1], a) <= t, || format!("the inverse at {:?} is {:?} (tol {:e}); {}", g, b, t, desc()));
                }
                // single precision, on the same function rounded
                let (a0, a1) = (a[0] as f32, a[1] as f32);
                if m < 60.0 && a[0].abs() > 1e-2 * m && a[1].abs() > 1e-2 * m && m > 1e-3 {
                    let g = (f.lib32)(Complex::new(a0, a1));
                    let z = C(a0 as f64, a1 as f64);
                    let w = cm::sides(f.ora, z);
                    let wm = w[0].0.hypot(w[0].1);
                    if wm < 1e30 {
                        let tol = 3e-3 * (1.0 + wm) + 2e-5 * cm::cond(f.ora, z);
                        cx.ok(e_32, w.iter().any(|w| d([g.re as f64, g.im as f64], [w.0, w.1]) <= tol), || format!("f32: got {:?}, want one of {:?} (tol {:e}); {}", g, w, tol, desc()));
                    }
                }
            });
        }
        if f.limits {
            let inf = f64::INFINITY;
            for x in [-inf, -2.0, -0.5, -0.0, 0.0, 0.5, 2.0, inf] { for y in [-inf, -2.0, -0.5, -0.0, 0.0, 0.5, 2.0, inf] {
                if (x as f64).is_finite() && (y as f64).is_finite() { continue; }
                let desc = || format!("{}({} + i{})", f.name, x, y);
                cx.case("limits at infinity", [x.to_bits(), y.to_bits(), f.name.len() as u64, f.name.as_bytes()[0] as u64], true, desc, |cx| {
                    let g = p((f.lib)(Complex::new(x, y)));
                    let ws = cm::sides(f.ora, C(x, y));
                    // the C library leaves the sign of a zero or infinity beside a NaN open
                    let same = |g: f64, w: f64| near1(g, w, 1e-12);
                    let h = ws.iter().any(|w| if w.0.is_nan() || w.1.is_nan() { g[0].is_nan() || g[1].is_nan() } else { same(g[0], w.0) && same(g[1], w.1) });
                    cx.ok(e_lim, h, || format!("got {:?}, want {:?}; {}", g, ws, desc()));
                });
            } }
        }
    }
}

fn identities(cx: &mut Cx) {
    let pi = std::f64::consts::PI;
    for _ in 0..cx.n(3000) {
        let a = gen(&mut cx.rng, 1e-6, 1e6);
        let ex = |r: &mut Rng, m: f64| match r.below(6) { 0 => r.int(-(m as i64), m as i64) as f64, 1 => r.int(-(m as i64) * 2, m as i64 * 2) as f64 / 2.0, 2 => r.sign() / 3.0, 3 => r.mag(1e-6, 1e-1), _ => r.range(-m, m) };
        let (k, base, e) = (cx.rng.int(-40, 40) as i32, match cx.rng.below(4) { 0 => 2.0, 1 => 10.0, _ => cx.rng.range(0.05, 12.0) }, ex(&mut cx.rng, 6.0));
        let w = match cx.rng.below(5) { 0 => [ex(&mut cx.rng, 3.0), 0.0], 1 => [0.0, ex(&mut cx.rng, 3.0)], 2 => [ex(&mut cx.rng, 3.0), -0.0], _ => [ex(&mut cx.rng, 3.0), ex(&mut cx.rng, 3.0)] };
        let (rho, t) = (cx.rng.mag(1e-6, 1e6).abs(), cx.rng.angle());
        let desc = || format!("z={:?} k={} base={} e={} w={:?} rho={} t={}", a, k, base, e, w, rho, t);
        let m = a[0].hypot(a[1]);
        cx.case("identities", bits(&a), m != 0.0, desc, |cx| {
            let z = Complex::new(a[0], a[1]);
            let s = z.sqrt();
            cx.near("sqrt squared", &p(s * s), &a, 1e-13 * m, desc);
            cx.ok("sqrt principal", s.re >= 0.0, desc);
            let c = z.cbrt();
            cx.near("cbrt cubed", &p(c * c * c), &a, 1e-13 * m, desc);
            cx.ok("cbrt principal", m == 0.0 || c.arg().abs() <= pi / 3.0 + 1e-12, desc);
            if m > 0.0 {
                let l = z.ln();
                cx.near("exp(ln z)", &p(l.exp()), &a, 1e-12 * m, desc);
                cx.ok("argument range", z.arg() >= -pi && z.arg() <= pi && l.im >= -pi && l.im <= pi && (z.arg() > -pi || a[1].is_sign_negative()), desc);
                cx.near("arg", &[z.arg()], &[a[1].atan2(a[0])], 4e-15, desc);
                let (q, ang) = z.polar_decomposition();
                cx.near("polar parts", &[q / m, ang.0], &[1.0, a[1].atan2(a[0])], 1e-14, desc);
                cx.near("polar round trip", &p(Complex::from_polar_decomposition(q, ang)), &a, 1e-13 * m, desc);
                let cl = [m.ln(), a[1].atan2(a[0])];
                cx.near("log2", &p(z.log2()), &[cl[0] / 2f64.ln(), cl[1] / 2f64.ln()], 1e-12, desc);
                cx.near("log10", &p(z.log10()), &[cl[0] / 10f64.ln(), cl[1] / 10f64.ln()], 1e-12, desc);
                if (base - 1.0).abs() > 1e-2 { cx.near("log base", &p(z.log(base)), &[cl[0] / base.ln(), cl[1] / base.ln()], 1e-10, desc); }
                let pf = cm::exp(C(e * cl[0], e * cl[1]));
                let pm = pf.0.hypot(pf.1);
                cx.near("powf", &p(z.powf(e)), &[pf.0, pf.1], 1e-11 * pm, desc);
                let le = C(w[0] * cl[0] - w[1] * cl[1], w[0] * cl[1] + w[1] * cl[0]);
                let pc = cm::exp(le);
                let pm = pc.0.hypot(pc.1);
                if pm.is_finite() && pm > 1e-250 { cx.near("powc", &p(z.powc(Complex::new(w[0], w[1]))), &[pc.0, pc.1], 1e-11 * pm, desc); }
                cx.near("powc zero", &p(z.powc(Complex::zero())), &[1.0, 0.0], 0.0, desc);
            }
            if m < 50.0 {
                let x2 = cm::exp(C(a[0] * 2f64.ln(), a[1] * 2f64.ln()));
                cx.near("exp2", &p(z.exp2()), &[x2.0, x2.1], 1e-11 * x2.0.hypot(x2.1), desc);
            }
            cx.near("zeroth power", &[p(z.powu(0)), p(z.powi(0))].concat(), &[1.0, 0.0, 1.0, 0.0], 0.0, desc);
            if k > 0 { cx.near("powers of zero", &[p(Complex::<f64>::zero().powu(k as u32)), p(Complex::<f64>::zero().powi(k))].concat(), &[0.0; 4], 0.0, desc); }
            // integer powers against repeated multiplication
            if m > 1e-3 && m < 1e3 {
                let mut acc = refm::Z(1.0, 0.0);
                for _ in 0..k.abs() { acc = acc.mul(refm::Z(a[0], a[1])); }
                let am = acc.abs();
                cx.near("powu", &p(z.powu(k.unsigned_abs())), &[acc.0, acc.1], 2e-13 * am, desc);
                let wi = if k < 0 { refm::Z(1.0, 0.0).div(acc) } else { acc };
                if wi.abs() > 1e-290 && wi.abs() < 1e290 { cx.near(if k < 0 { "powi negative" } else { "powi" }, &p(z.powi(k)), &[wi.0, wi.1], 1e-12 * wi.abs(), desc); }
            }
            cx.near("from polar", &p(Complex::from_polar_decomposition(rho, Radians(t))), &[rho * t.cos(), rho * t.sin()], 1e-15 * rho, desc);
            cx.near("from polar (degrees)", &p(Complex::from_polar_decomposition(rho, Degrees(t.to_degrees()))), &[rho * t.cos(), rho * t.sin()], 1e-13 * rho, desc);
            cx.near("from angle", &p(Complex::from_angle(Radians(t))), &[t.cos(), t.sin()], 1e-15, desc);
            cx.near("cis", &p(Complex::cis(t)), &[t.cos(), t.sin()], 1e-15, desc);
        });
    }
    // exponents of every size on the unit circle: the angle is multiplied, the modulus stays one
    for _ in 0..cx.n(2000) {
        let r = &mut cx.rng;
        let t = if r.chance(1, 4) { r.int(-6, 6) as f64 * pi / 6.0 } else { r.range(-3.0, 3.0) };
        let n = match r.below(4) { 0 => *r.pick(&[i32::MIN, i32::MIN + 1, -65536, -65535, -4097, -1000, 1000, 4096, 65537, i32::MAX, 12345, -54321, 255, 256, 257, -255, -256]), 1 => { let s = r.below(31); (1i32 << s) * if r.bool() { 1 } else { -1 } } _ => { let s = r.below(31); (r.u64() as i32) >> s } };
        let m = { let s = r.below(32); (r.u64() as u32) >> s };
        let desc = || format!("cis({})^{} and ^{}", t, n, m);
        cx.case("large exponents", [t.to_bits(), n as u64, m as u64], true, desc, |cx| {
            let z = Complex::cis(t);
            let e = |n: f64| [(z.im.atan2(z.re) * n).cos(), (z.im.atan2(z.re) * n).sin()];
            let tol = |n: f64| 4e-15 * n.abs() + 1e-14;
            cx.near("powi large", &p(z.powi(n)), &e(n as f64), tol(n as f64), desc);
            cx.near("powu large", &p(z.powu(m)), &e(m as f64), tol(m as f64), desc);
        });
    }
}

/// Arguments of every tiny magnitude: the functions that behave like their argument at zero, and the roots, keep their digits.
fn tiny(cx: &mut Cx) {
    let fs: Vec<Fun> = functions().into_iter().filter(|f| ["sin", "tan", "sinh", "tanh", "sqrt", "ln", "exp"].contains(&f.name)).collect();
    for _ in 0..cx.n(1500) {
        let r = &mut cx.rng;
        let k = if r.bool() { r.mag(1e-20, 1e-5) } else { r.mag(1e-140, 1e-5) };
        let a = match r.below(6) { 0 => [k, 0.0], 1 => [0.0, k], 2 => [k, k * r.mag(1e-9, 1.0)], 3 => [k * r.mag(1e-9, 1.0), k], _ => [k * r.range(-1.0, 1.0), k * r.range(-1.0, 1.0)] };
        let desc = || format!("z={:?}", a);
        cx.case("tiny arguments", bits(&a), true, desc, |cx| {
            let m = a[0].hypot(a[1]);
            for f in &fs {
                let g = p((f.lib)(Complex::new(a[0], a[1])));
                let w = cm::sides(f.ora, C(a[0], a[1]));
                let tol = 1e-12 * w[0].0.hypot(w[0].1);
                cx.ok("tiny = oracle", w.iter().any(|w| d(g, [w.0, w.1]) <= tol), || format!("{}: got {:?}, want one of {:?}; {}", f.name, g, w, desc()));
            }
            let c = Complex::new(a[0], a[1]).cbrt();
            cx.near("tiny cbrt cubed", &p(c * c * c), &a, 1e-12 * m + 1e-300, desc);
            if m > 1e-90 {
                let (sq, cu) = (p(Complex::new(a[0], a[1]).powu(2)), p(Complex::new(a[0], a[1]).powi(3)));
                let w2 = [a[0] * a[0] - a[1] * a[1], 2.0 * a[0] * a[1]];
                let w3 = [w2[0] * a[0] - w2[1] * a[1], w2[0] * a[1] + w2[1] * a[0]];
                cx.near("tiny powers", &sq, &w2, 1e-13 * m * m, desc);
                cx.near("tiny powers", &cu, &w3, 1e-13 * m * m * m, desc);
            }
        });
    }
}

fn single(cx: &mut Cx) {
    for _ in 0..cx.n(2000) {
        let a: [f64; 5] = singles(&mut cx.rng);
        let (k, desc) = (cx.rng.int(-4, 4) as i32, || format!("a={:?}", a));
        cx.case("single precision", bits(&a), true, desc, |cx| {
            macro_rules! s { ($($e:literal $f:expr;)*) => { $( both!(cx, concat!("single ", $e), 1e-4, desc, { let (z, w, t) = (Complex::<S>::new(a[0] as S, a[1] as S), Complex::<S>::new(a[2] as S / 4.0, a[3] as S / 4.0), a[4] as S); let r: Complex<S> = { let f: fn(Complex<S>, Complex<S>, S, i32) -> Complex<S> = $f; f(z, w, t, k) }; vec![r.re, r.im] }); )* }; }
            s!("exp2" |z, _, _, _| z.exp2(); "log2" |z, _, _, _| z.log2(); "log10" |z, _, _, _| z.log10(); "log" |z, _, t, _| z.log(1.0 + t.abs()); "cbrt" |z, _, _, _| z.cbrt(); "sqrt" |z, _, _, _| z.sqrt();
                "powi" |z, _, _, k| z.powi(k); "powu" |z, _, _, k| z.powu(k.unsigned_abs()); "powf" |z, _, t, _| z.powf(t / 2.0); "powc" |z, w, _, _| z.powc(w);
                "polar" |z, _, _, _| { let (r, t) = z.polar_decomposition(); Complex::new(r, t.0) }; "from polar" |_, _, t, k| Complex::from_polar_decomposition(t.abs(), Radians(k as _)); "arg" |z, _, _, _| Complex::new(z.arg(), 1.0); "cis" |_, _, t, _| Complex::cis(t););
        });
    }
}

fn main() {
    let mut c = Cx::new("C13", "15 elementary functions on general, axis, signed-zero, near-cut, near-branch-point, unit-circle, tiny and huge arguments against the C library's complex functions (either one-sided value on a cut), right inverses, values at infinity; roots, logs, polar forms and integer/real/complex powers by their identities; non-trivial: non-zero argument");
    c.assume("glibc's complex functions are correct to a few ulps");
    let cx = &mut c;
    elementary(cx);
    identities(cx);
    tiny(cx);
    single(cx);
    cx.require(&["single powi", "single log", "tiny = oracle", "tiny cbrt cubed", "tiny powers", "sqrt squared", "cbrt cubed", "exp(ln z)", "powi negative", "powi", "powu", "powi large", "powu large", "atanh at a pole", "zeroth power", "powers of zero", "powf", "powc", "argument range", "polar round trip", "acos right inverse", "asinh right inverse", "tanh at infinity"]);
    c.finish();
}
