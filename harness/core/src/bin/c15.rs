//! C15: quaternion elementary functions extend the complex ones along the direction of the vector part.
use h_core::*;
use mon::cm::{self, C};

type Lib = fn(&Quaternion<f64>) -> Quaternion<f64>;
type Lib32 = fn(&Quaternion<f32>) -> Quaternion<f32>;
struct Fun { name: &'static str, lib: Lib, lib32: Lib32, ora: cm::F, inv: Option<Lib>, hi: f64 }
macro_rules! f { ($n:ident, $inv:expr, $hi:expr) => { Fun { name: stringify!($n), lib: Quaternion::<f64>::$n, lib32: Quaternion::<f32>::$n, ora: cm::$n, inv: $inv, hi: $hi } }; }
fn functions() -> Vec<Fun> {
    type Q = Quaternion<f64>;
    vec![
        f!(exp, None, 600.0), f!(ln, Some(Q::exp), 1e8), f!(sqrt, Some(Q::squared), 1e8),
        f!(cos, None, 600.0), f!(sin, None, 600.0), f!(tan, None, 300.0), f!(cosh, None, 600.0), f!(sinh, None, 600.0), f!(tanh, None, 300.0),
        f!(acos, Some(Q::cos), 1e6), f!(asin, Some(Q::sin), 1e6), f!(atan, Some(Q::tan), 1e3), f!(acosh, Some(Q::cosh), 1e6), f!(asinh, Some(Q::sinh), 1e6), f!(atanh, Some(Q::tanh), 1e3),
    ]
}
fn ev(kind: &'static str, name: &str) -> &'static str { Box::leak(format!("{} {}", name, kind).into_boxed_str()) }

/// Scalar part, vector length (non-negative) and direction.
fn gen(r: &mut Rng, hi: f64) -> (f64, f64, [f64; 3]) {
    let m = |r: &mut Rng| if r.bool() { r.range(-3.0f64.min(hi), 3.0f64.min(hi)) } else { r.mag(1e-6, hi) };
    let u = r.dir::<3>();
    match r.below(11) {
        9 => { let k = r.mag(1e-9, 1e-3).abs(); (k * r.range(-1.0, 1.0), k * r.unit(), u) }
        0 => (m(r), 0.0, u),
        1 => (0.0, m(r).abs(), u),
        2 => (r.int(-3, 3) as f64, r.int(0, 3) as f64, u),
        3 => (m(r), r.mag(1e-14, 1e-6).abs(), u),
        10 => (r.mag(1e-2f64.min(hi), hi), r.mag(1e-18, 1e-14).abs(), u),
        4 => { let t = r.angle(); (t.cos(), t.sin().abs(), u) }
        _ => (m(r), m(r).abs(), u),
    }
}
fn d4(a: &[f64; 4], b: &[f64; 4]) -> f64 { let d = refm::sub(a, b); if d.iter().any(|x| x.is_nan()) { f64::NAN } else { 2.0 * maxabs(&d) } }
/// Distance to the cut of the function, where the direction of the result changes abruptly.
fn cut_distance(name: &str, s: f64, v: f64) -> f64 {
    let seg = |on: bool, d: f64| if on { d } else { f64::INFINITY };
    match name {
        "ln" | "sqrt" => seg(s < 0.0, v),
        "acos" | "asin" | "atanh" => seg(s.abs() > 0.9, v),
        "acosh" => seg(s < 1.1, v),
        "asinh" | "atan" => seg(v > 0.9, s.abs()),
        _ => 1.0,
    }
}

/// Real quaternions on which the function has no value determined by continuity, or on which the
/// logarithm is documented to be real: negative reals under the logarithm, and the cuts of the inverse functions.
fn on_cut(name: &str, s: f64, v: f64) -> bool {
    if v > 0.0 && !(name == "asinh" && s == 0.0 && v >= 1.0) && !(name == "atan" && s == 0.0 && v >= 1.0) { return false; }
    match name {
        "ln" => s <= 0.0,
        "sqrt" => false,
        "acos" | "asin" => s.abs() >= 1.0,
        "acosh" => s < 1.0,
        "atanh" => s.abs() >= 1.0,
        "asinh" | "atan" => v >= 1.0,
        _ => false,
    }
}

fn elementary(cx: &mut Cx) {
    for f in functions() {
        let (e_val, e_inv, e_32) = (ev("= complex oracle", f.name), ev("right inverse", f.name), ev("f32 = complex oracle", f.name));
        cx.require(&[e_val, e_32]);
        for _ in 0..cx.n(1200) {
            let (s, v, u) = gen(&mut cx.rng, f.hi);
            let a = [s, v * u[0], v * u[1], v * u[2]];
            let m = refm::norm(&a);
            let desc = || format!("{}({:?})", f.name, a);
            if on_cut(f.name, s, v) {
                // on a cut the direction is not determined, but it is still a solution
                let branch = (s.abs() - 1.0).abs().min((v - 1.0).abs());
                if m < 1e-6 || m > 1e3 || branch < 1e-3 { continue; }
                cx.case(ev("on the cut", f.name), bits(&a), true, desc, |cx| {
                    let g = qa(&(f.lib)(&Quaternion::new(a[0], a[1], a[2], a[3])));
                    if f.name == "ln" {
                        let vn = (g[1] * g[1] + g[2] * g[2] + g[3] * g[3]).sqrt();
                        cx.ok("ln on the cut", (g[0] - m.ln()).abs() < 1e-12 && (vn == 0.0 || (vn - std::f64::consts::PI).abs() < 1e-12), || format!("got {:?}; {}", g, desc()));
                    } else if let Some(inv) = f.inv {
                        let b = qa(&inv(&Quaternion::new(g[0], g[1], g[2], g[3])));
                        // the documented logarithm of a negative real is real: half a turn may be missing
                        let alt = match f.name { "acos" | "acosh" => refm::scale(&a, -1.0), "atan" => refm::scale(&a, 1.0 / (m * m)), "atanh" => [1.0 / s, 0.0, 0.0, 0.0], _ => a };
                        let tol = 1e-12 * (1.0 + m);
                        cx.ok(ev("on the cut", f.name), d4(&b, &a) <= tol || d4(&b, &alt) <= tol, || format!("value {:?}, back {:?}; {}", g, b, desc()));
                    }
                });
                continue;
            }
            let dc = if v == 0.0 { f64::INFINITY } else { cut_distance(f.name, s, v) };
            if dc < 1e-12 { continue; }
            cx.case(f.name, bits(&a), m != 0.0, desc, |cx| {
                let q = Quaternion::new(a[0], a[1], a[2], a[3]);
                let vn = (a[1] * a[1] + a[2] * a[2] + a[3] * a[3]).sqrt();
                let z = C(s, vn);
                let g = qa(&(f.lib)(&q));
                let w = (f.ora)(z);
                if !w.0.is_finite() || !w.1.is_finite() { return; }
                let wm = w.0.hypot(w.1);
                let c = cm::cond(f.ora, z);
                let pole = if f.name == "tan" || f.name == "tanh" { 4e-15 * (wm + m) * wm * wm } else { 0.0 };
                let near_branch = match f.name { "acos" | "asin" | "acosh" => (s.abs() - 1.0).hypot(vn), "asinh" | "atan" => s.hypot(vn - 1.0), "atanh" => (s.abs() - 1.0).hypot(vn), _ => 1.0 };
                let tol = 1e-11 * (1.0 + wm) + 8e-15 * c + pole + 8e-16 * (1.0 + m * m) * (1.0 + wm) / dc + if near_branch < 1e-4 { 1e-7 } else { 0.0 };
                if near_branch < 1e-9 || tol > 1e-3 * (1.0 + wm) { return; }
                // a real argument has no direction: the canonical one is the x-axis
                let want = if vn > 0.0 { [w.0, w.1 * u[0], w.1 * u[1], w.1 * u[2]] } else { [w.0, w.1, 0.0, 0.0] };
                cx.ok(e_val, d4(&g, &want) <= tol, || format!("got {:?}, want {:?} (tol {:e}); {}", g, want, tol, desc()));
                if let (Some(inv), true) = (f.inv, m > 0.0 && near_branch > 1e-3 && wm > 1e-3) {
                    let b = qa(&inv(&Quaternion::new(g[0], g[1], g[2], g[3])));
                    cx.ok(e_inv, d4(&b, &a) <= 1e-9 * (m + m * m) + 10.0 * tol * (1.0 + m * m), || format!("back {:?}; {}", b, desc()));
                }
                if m < 30.0 && m > 1e-3 && vn > 1e-2 * m && s.abs() > 1e-2 * m && near_branch > 0.1 && wm < 1e12 {
                    let g = (f.lib32)(&Quaternion::new(a[0] as f32, a[1] as f32, a[2] as f32, a[3] as f32));
                    let g = [g[0] as f64, g[1] as f64, g[2] as f64, g[3] as f64];
                    let tol = 2e-3 * (1.0 + wm) + 3e-5 * c + 1e10 * pole;
                    cx.ok(e_32, d4(&g, &want) <= tol, || format!("f32: got {:?}, want {:?} (tol {:e}); {}", g, want, tol, desc()));
                }
            });
        }
    }
}

fn identities(cx: &mut Cx) {
    let pi = std::f64::consts::PI;
    for _ in 0..cx.n(3000) {
        let (s, v, u) = gen(&mut cx.rng, 1e3);
        let a = [s, v * u[0], v * u[1], v * u[2]];
        let (e, k, rho, t, ax) = (cx.rng.range(-3.0, 3.0), cx.rng.int(-6, 6), cx.rng.mag(1e-3, 1e3).abs(), cx.rng.angle(), cx.rng.dir::<3>());
        let m = refm::norm(&a);
        let desc = || format!("q={:?} e={} k={} rho={} t={} axis={:?}", a, e, k, rho, t, ax);
        cx.case("identities", bits(&a), m != 0.0 && v != 0.0, desc, |cx| {
            let q = Quaternion::new(a[0], a[1], a[2], a[3]);
            let vn = (a[1] * a[1] + a[2] * a[2] + a[3] * a[3]).sqrt();
            if m > 1e-14 {
                let r = q.sqrt();
                cx.near("sqrt squared", &qa(&(r * r)), &a, 1e-10 * m + 1e-15, desc);
                cx.ok("sqrt principal", r.scalar() >= -1e-300, desc);
            }
            if m > 1e-3 {
                cx.near("arg", &[q.arg()], &[vn.atan2(s)], 4e-15 + if s.abs() < 1e-12 { 1e-10 } else { 0.0 }, desc);
            }
            let cut = s < 0.0 && vn <= 1e-9 * m; // negative reals: the logarithm is documented to be real there
            if m > 1e-3 && !cut {
                cx.near("exp(ln q)", &qa(&q.ln().exp()), &a, 1e-10 * m, desc);
                let lc = [m.ln(), vn.atan2(s)];
                let w = cm::exp(C(e * lc[0], e * lc[1]));
                let wm = w.0.hypot(w.1);
                let want = if vn > 0.0 { [w.0, w.1 * u[0], w.1 * u[1], w.1 * u[2]] } else { [w.0, w.1, 0.0, 0.0] };
                cx.near("powf", &qa(&q.powf(e)), &want, 1e-9 * wm, desc);
                // integer exponents are repeated products
                let mut acc = [1.0, 0.0, 0.0, 0.0];
                for _ in 0..k.abs() { acc = refm::qmul(&acc, &a); }
                if k < 0 { let n = refm::dot(&acc, &acc); acc = refm::scale(&refm::qconj(&acc), 1.0 / n); }
                cx.near("powf integer", &qa(&q.powf(k as f64)), &acc, 1e-9 * refm::norm(&acc), desc);
                // polar form
                let (n, h, axis) = q.polar_decomposition();
                cx.near("polar norm", &[n], &[m], 1e-12 * m, desc);
                if let Some(axis) = axis {
                    let x = va(axis.as_ref());
                    let h = h.0;
                    cx.near("polar parts", &[n * h.cos(), n * h.sin() * x[0], n * h.sin() * x[1], n * h.sin() * x[2]], &a, 1e-11 * m, desc);
                } else { cx.ok("polar real", vn == 0.0 && h.0 == 0.0, desc); }
            }
            let g = Quaternion::from_polar_decomposition(rho, Radians(t), &unit3(ax));
            let (sn, cn) = (t / 2.0).sin_cos();
            cx.near("from polar", &qa(&g), &[rho * cn, rho * sn * ax[0], rho * sn * ax[1], rho * sn * ax[2]], 1e-12 * rho, desc);
            // Pythagorean identities tie the pairs of functions together
            if m < 5.0 {
                let (c2, s2) = (q.cos().squared(), q.sin().squared());
                let b = 1e-10 * (1.0 + c2.norm());
                cx.near("cos^2 + sin^2", &qa(&(c2 + s2)), &[1.0, 0.0, 0.0, 0.0], b, desc);
                let (c2, s2) = (q.cosh().squared(), q.sinh().squared());
                let b = 1e-10 * (1.0 + c2.norm());
                cx.near("cosh^2 - sinh^2", &qa(&(c2 - s2)), &[1.0, 0.0, 0.0, 0.0], b, desc);
            }
        });
    }
    let _ = pi;
}

/// Small arguments: the functions that behave like their argument at zero keep their digits.
fn tiny(cx: &mut Cx) {
    let fs: Vec<Fun> = functions().into_iter().filter(|f| ["sin", "tan", "sinh", "tanh"].contains(&f.name)).collect();
    for _ in 0..cx.n(1500) {
        let r = &mut cx.rng;
        let (k, u) = (r.mag(1e-13, 1e-5).abs(), r.dir::<3>());
        let (s, v) = match r.below(5) { 0 => (0.0, k), 1 => (k * r.sign(), 0.0), 2 => (k * r.mag(1e-9, 1.0), k), _ => (k * r.range(-1.0, 1.0), k * r.unit()) };
        let a = [s, v * u[0], v * u[1], v * u[2]];
        let desc = || format!("q={:?}", a);
        cx.case("tiny arguments", bits(&a), true, desc, |cx| {
            let m = refm::norm(&a);
            for f in &fs {
                let g = qa(&(f.lib)(&Quaternion::new(a[0], a[1], a[2], a[3])));
                let w = (f.ora)(C(s, v));
                let want = [w.0, w.1 * u[0], w.1 * u[1], w.1 * u[2]];
                // a vector part below the rounding unit counts as none
                cx.ok("tiny = complex oracle", d4(&g, &want) <= 1e-12 * m + if v < 4e-16 { 1e-15 } else { 0.0 }, || format!("{}: got {:?}, want {:?}; {}", f.name, g, want, desc()));
            }
        });
    }
}

fn single(cx: &mut Cx) {
    for _ in 0..cx.n(2000) {
        let a: [f64; 5] = singles(&mut cx.rng);
        let desc = || format!("a={:?}", a);
        cx.case("single precision", bits(&a), true, desc, |cx| {
            both!(cx, "single", 1e-4, desc, {
                let b = a.map(|x| x as S);
                let (q, t) = (Quaternion::<S>::new(b[0], b[1], b[2], b[3]), b[4] / 2.0);
                let (n, h, x) = q.polar_decomposition();
                let x = x.map(|u| u.into_inner()).unwrap_or(Vector3::zero());
                let f = Quaternion::<S>::from_polar_decomposition(t.abs(), Radians(b[0]), &Unit::from_value(Vector3::new(b[1], b[2], b[3])));
                let (p, l, r, e) = (q.powf(t), q.ln(), q.sqrt(), q.exp());
                let mut o: Vec<S> = vec![q.arg(), n, h.0, x[0], x[1], x[2]];
                for z in [f, l, r] { o.extend([z[0], z[1], z[2], z[3]]); }
                let m = p.norm();
                let k = e.norm();
                o.extend([p[0] / m, p[1] / m, p[2] / m, p[3] / m, m.ln(), e[0] / k, e[1] / k, e[2] / k, e[3] / k, k.ln()]);
                o
            });
        });
    }
}

fn main() {
    let mut c = Cx::new("C15", "15 elementary functions at real, pure, unit, nearly real, integer, small and large quaternions in random planes against the C library's complex functions carried along the vector direction; right inverses, square roots, real and integer powers, polar forms; non-trivial: non-zero argument (with a vector part, for the identities)");
    c.assume("glibc's complex functions are correct to a few ulps");
    let cx = &mut c;
    elementary(cx);
    identities(cx);
    tiny(cx);
    single(cx);
    cx.require(&["single", "tiny = complex oracle", "sqrt squared", "exp(ln q)", "powf", "powf integer", "polar parts", "from polar", "acos right inverse", "arg"]);
    c.finish();
}
