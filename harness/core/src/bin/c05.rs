//! C05: norms, distances, normalisation and unit wrappers.
use h_core::*;
use std::fmt::Debug;

fn n2(a: &[f64]) -> f64 { a.iter().map(|x| x * x).sum::<f64>() }
fn n(a: &[f64]) -> f64 { n2(a).sqrt() }
fn gen(r: &mut Rng, k: usize) -> Vec<f64> {
    match r.below(12) {
        0 => vec![0.0; k],
        1 => { let mut v = vec![0.0; k]; v[r.below(k)] = r.nz(); v }
        2 => { let s = r.mag(1e-5, 1e-3).abs(); (0..k).map(|_| s * r.range(-1.0, 1.0)).collect() }
        3 => { let s = r.mag(1e3, 1e6).abs(); (0..k).map(|_| s * r.range(-1.0, 1.0)).collect() }
        4 => (0..k).map(|_| r.ival(4)).collect(),
        _ => (0..k).map(|_| r.val()).collect(),
    }
}

/// As `gen`, with magnitudes from 1e-60 to 1e60 and Pythagorean tuples.
fn genw(r: &mut Rng, k: usize) -> Vec<f64> {
    match r.below(16) {
        0 | 1 => { let s = r.mag(1e-60, 1e60).abs(); (0..k).map(|_| s * r.range(-1.0, 1.0)).collect() }
        2 if k >= 2 => { let (i, s) = (r.below(k), r.int(1, 9) as f64); let j = (i + 1 + r.below(k - 1)) % k; let mut v = vec![0.0; k]; v[i] = 3.0 * s * r.sign(); v[j] = 4.0 * s * r.sign(); v }
        3 if k >= 4 => vec![1.0; 4].into_iter().chain(std::iter::repeat(0.0)).take(k).map(|x| x * r.sign()).collect(),
        4 => { let mut v = vec![0.0; k]; v[r.below(k)] = r.sign() * r.int(1, 60) as f64; v }
        _ => gen(r, k),
    }
}

/// Two values, now and then both tiny or both huge.
fn pair(r: &mut Rng, k: usize) -> (Vec<f64>, Vec<f64>) {
    let e = if r.chance(1, 6) { 2f64.powi(r.int(-100, 100) as i32) } else { 1.0 };
    let mut g = || gen(r, k).into_iter().map(|x| x * e).collect();
    (g(), g())
}

/// The whole `Normed` contract for one type, plus `Unit`.
fn normed<V: Normed<Output = f64> + Copy + Debug>(cx: &mut Cx, tag: &str, k: usize, make: impl Fn(&[f64]) -> V, read: impl Fn(&V) -> Vec<f64>) {
    for _ in 0..cx.n(400) {
        let a = genw(&mut cx.rng, k);
        let b = match cx.rng.below(8) { 0 => a.clone(), 1 => a.iter().map(|x| -x).collect(), 2 => { let mut b = a.clone(); let i = cx.rng.below(k); b[i] = b[i] + cx.rng.val(); b } _ => genw(&mut cx.rng, k) };
        let s = cx.rng.nz();
        let t = match cx.rng.below(8) { 6 | 7 => n(&a), 0 => 0.0, 1 => n(&a) * cx.rng.range(0.2, 1.8), 2 => n(&a) * (1.0 + 1e-3 * cx.rng.sign()), 3 => n(&a) + 1.0, _ => cx.rng.range(0.0, 3.0) };
        let mut key = bits(&a);
        key.extend(bits(&b));
        let desc = || format!("a={:?} b={:?} s={} threshold={}", a, b, s, t);
        cx.case(tag, key, n(&a) > 0.0, desc, |cx| {
            let (x, y) = (make(&a), make(&b));
            let (na, nb) = (n(&a), n(&b));
            let d: Vec<f64> = a.iter().zip(&b).map(|(p, q)| p - q).collect();
            let rel = |got: f64, want: f64| (got - want).abs() <= 1e-12 * want.abs();
            let obs = [("norm", x.norm(), na), ("norm-squared", x.norm_squared(), n2(&a)), ("distance", x.distance(&y), n(&d)), ("distance-squared", x.distance_squared(&y), n2(&d))];
            for (ev, g, w) in obs { cx.ok(ev, rel(g, w), || format!("got {}, want {}; {}", g, w, desc())); }
            cx.ok("nonnegative", x.norm() >= 0.0 && x.distance(&y) >= 0.0, desc);
            cx.ok("distance-symmetric", x.distance(&y) == y.distance(&x) && x.distance(&x) == 0.0, desc);
            cx.ok("triangle", x.distance(&y) <= (na + nb) * (1.0 + 1e-12), desc);
            let sc = |v: &[f64], k: f64| v.iter().map(|p| p * k).collect::<Vec<f64>>();
            let tol = 1e-12 * na * s.abs().max(1.0 / s.abs());
            let (mut m1, mut m2) = (x, x);
            m1.scale_mut(s);
            m2.unscale_mut(s);
            for (ev, g, w) in [("scale", read(&x.scale(s)), sc(&a, s)), ("unscale", read(&x.unscale(s)), sc(&a, 1.0 / s)), ("scale-mut", read(&m1), sc(&a, s)), ("unscale-mut", read(&m2), sc(&a, 1.0 / s))] {
                cx.near(ev, &g, &w, tol, desc);
            }
            cx.ok("homogeneous", rel(x.scale(s).norm(), na * s.abs()), desc);
            cx.ok("reader-consistent", read(&x) == a, desc);
            if na > 0.0 {
                let w = sc(&a, 1.0 / na);
                let mut m = x;
                let r = m.normalize_mut();
                let (u, un) = Unit::from_value_with_norm(x);
                for (ev, g) in [("normalize", read(&x.normalize())), ("normalize-mut", read(&m)), ("unit", read(Unit::from_value(x).as_ref())), ("unit-with-norm", read(&u)), ("unit-into-inner", read(&u.into_inner()))] {
                    cx.near(ev, &g, &w, 1e-13, desc);
                    cx.ok("unit-length", (n(&g) - 1.0).abs() < 1e-13, || format!("{} has length {}; {}", ev, n(&g), desc()));
                }
                cx.ok("normalize-returns-length", rel(r, na) && rel(un, na), || format!("{} {}; {}", r, un, desc()));
            }
            // the checked forms refuse exactly when the length does not exceed the threshold
            let exceed = na > t;
            let clear = (na - t).abs() > 1e-9 * t.max(na) || (na == 0.0 && t == 0.0)
                // the length is exactly the threshold, with no rounding anywhere
                || (na == t && na < 1e6 && na.fract() == 0.0 && a.iter().all(|x| x.fract() == 0.0) && n2(&a) == na * na);
            if clear {
                let mut m = x;
                let (g1, g2) = (x.try_normalize(t), m.try_normalize_mut(t));
                let (g3, g4) = (Unit::try_from_value(x, t), Unit::try_from_value_with_norm(x, t));
                cx.ok("checked-refusal", g1.is_some() == exceed && g2.is_some() == exceed && g3.is_some() == exceed && g4.is_some() == exceed, || format!("{} {} {} {} expected {}; {}", g1.is_some(), g2.is_some(), g3.is_some(), g4.is_some(), exceed, desc()));
                if exceed && na > 0.0 {
                    if let (Some(p), Some(q), Some(r), Some((u, l))) = (g1, g2, g3, g4) {
                        let w = sc(&a, 1.0 / na);
                        for (ev, g) in [("try-normalize", read(&p)), ("try-normalize-mut", read(&m)), ("try-unit", read(&r)), ("try-unit-with-norm", read(&u))] { cx.near(ev, &g, &w, 1e-13, desc); }
                        cx.ok("checked-returns-length", rel(q, na) && rel(l, na), desc);
                    }
                } else {
                    cx.ok("refused-left-unchanged", read(&m) == a, desc);
                }
            }
        });
    }
}

fn vector<const N: usize>(cx: &mut Cx) {
    normed(cx, &format!("vector {}", N), N, |s| Vector::<f64, N>::from_fn_(s), |v| va(v).to_vec());
    normed(cx, &format!("point {}", N), N, |s| { let a: [f64; N] = std::array::from_fn(|i| s[i]); Point::<f64, N>::from(a) }, |v| pa(v).to_vec());
    let tag = format!("vector/point named norms {}", N);
    for _ in 0..cx.n(300) {
        let (a, b) = pair(&mut cx.rng, N);
        let tame = |v: &[f64]| v.iter().all(|x| *x == 0.0 || x.abs() > 1e-6 && x.abs() < 1e6);
        let p = if tame(&a) && tame(&b) && tame(&a.iter().zip(&b).map(|(x, y)| x - y).collect::<Vec<f64>>()) && cx.rng.chance(1, 3) { cx.rng.int(9, 40) } else { cx.rng.int(1, 8) } as u32;
        let mut key = bits(&a);
        key.extend(bits(&b));
        let desc = || format!("a={:?} b={:?} p={}", a, b, p);
        cx.case(&tag, key, n(&a) > 0.0, desc, |cx| {
            let (x, y) = (Vector::<f64, N>::from_fn_(&a), Vector::<f64, N>::from_fn_(&b));
            let (pa, pb) = (Point::<f64, N>::from_vector(&x), Point::<f64, N>::from_vector(&y));
            let d: Vec<f64> = a.iter().zip(&b).map(|(p, q)| p - q).collect();
            let l1 = |v: &[f64]| v.iter().map(|t| t.abs()).sum::<f64>();
            let li = |v: &[f64]| maxabs(v);
            let lp = |v: &[f64]| { let m = maxabs(v); if m == 0.0 { 0.0 } else { m * v.iter().map(|t| (t.abs() / m).powi(p as i32)).sum::<f64>().powf(1.0 / p as f64) } };
            let obs = [
                ("l1", x.l1_norm(), l1(&a)), ("l1", x.apply_norm(&L1Norm::new()), l1(&a)), ("l1-distance", x.apply_metric_distance(&y, &L1Norm::new()), l1(&d)),
                ("linf", x.linf_norm(), li(&a)), ("linf", x.apply_norm(&LinfNorm::new()), li(&a)), ("linf-distance", x.apply_metric_distance(&y, &LinfNorm::new()), li(&d)),
                ("l2", x.l2_norm(), n(&a)), ("l2", x.apply_norm(&L2Norm::new()), n(&a)), ("l2-distance", x.apply_metric_distance(&y, &L2Norm::new()), n(&d)),
                ("lp", x.lp_norm(p), lp(&a)), ("lp", x.apply_norm(&LpNorm::new(p)), lp(&a)), ("lp-distance", x.apply_metric_distance(&y, &LpNorm::new(p)), lp(&d)),
                ("inherent-norm", x.norm(), n(&a)), ("inherent-norm", x.magnitude(), n(&a)), ("inherent-norm-squared", x.norm_squared(), n2(&a)), ("inherent-norm-squared", x.magnitude_squared(), n2(&a)),
                ("metric-distance", x.metric_distance(&y), n(&d)), ("metric-distance-squared", x.metric_distance_squared(&y), n2(&d)),
                ("point-norm", pa.norm(), n(&a)), ("point-norm", pa.magnitude(), n(&a)), ("point-norm", pa.l2_norm(), n(&a)), ("point-norm-squared", pa.norm_squared(), n2(&a)), ("point-norm-squared", pa.magnitude_squared(), n2(&a)),
                ("point-distance", pa.metric_distance(&pb), n(&d)), ("point-distance-squared", pa.metric_distance_squared(&pb), n2(&d)),
            ];
            for (ev, g, w) in obs { cx.ok(ev, (g - w).abs() <= 1e-11 * w.abs(), || format!("got {}, want {}; {}", g, w, desc())); }
        });
    }
}
trait FromFn { fn from_fn_(s: &[f64]) -> Self; }
impl<const N: usize> FromFn for Vector<f64, N> { fn from_fn_(s: &[f64]) -> Self { let a: [f64; N] = std::array::from_fn(|i| s[i]); Vector::<f64, N>::from(a) } }

fn matrix<const R: usize, const C: usize, const RC: usize>(cx: &mut Cx) {
    let mk = |s: &[f64]| { let a: [[f64; R]; C] = std::array::from_fn(|c| std::array::from_fn(|r| s[c * R + r])); Matrix::<f64, R, C>::from(a) };
    normed(cx, &format!("matrix {}x{}", R, C), RC, mk, |m| refm::flat(&ma(m)));
    let tag = format!("matrix named norms {}x{}", R, C);
    for _ in 0..cx.n(150) {
        let (a, b) = pair(&mut cx.rng, RC);
        let desc = || format!("a={:?} b={:?} ({}x{} column-major)", a, b, R, C);
        cx.case(&tag, bits(&a), n(&a) > 0.0, desc, |cx| {
            let (x, y) = (mk(&a), mk(&b));
            let d: Vec<f64> = a.iter().zip(&b).map(|(p, q)| p - q).collect();
            let col = |v: &[f64]| (0..C).map(|c| (0..R).map(|r| v[c * R + r].abs()).sum::<f64>()).fold(0.0, f64::max);
            let row = |v: &[f64]| (0..R).map(|r| (0..C).map(|c| v[c * R + r].abs()).sum::<f64>()).fold(0.0, f64::max);
            let obs = [
                ("matrix-l1", x.l1_norm(), col(&a)), ("matrix-l1", x.apply_norm(&L1MatrixNorm::new()), col(&a)), ("matrix-l1-distance", x.apply_metric_distance(&y, &L1MatrixNorm::new()), col(&d)),
                ("matrix-linf", x.linf_norm(), row(&a)), ("matrix-linf", x.apply_norm(&LinfMatrixNorm::new()), row(&a)), ("matrix-linf-distance", x.apply_metric_distance(&y, &LinfMatrixNorm::new()), row(&d)),
                ("frobenius", x.norm(), n(&a)), ("frobenius", x.magnitude(), n(&a)), ("frobenius", x.apply_norm(&FrobeniusNorm::new()), n(&a)), ("frobenius-distance", x.apply_metric_distance(&y, &FrobeniusNorm::new()), n(&d)),
                ("frobenius-squared", x.norm_squared(), n2(&a)), ("frobenius-squared", x.magnitude_squared(), n2(&a)), ("matrix-distance", x.metric_distance(&y), n(&d)), ("matrix-distance-squared", x.metric_distance_squared(&y), n2(&d)),
            ];
            for (ev, g, w) in obs { cx.ok(ev, (g - w).abs() <= 1e-11 * w.abs(), || format!("got {}, want {}; {}", g, w, desc())); }
        });
    }
}

fn integer(cx: &mut Cx) {
    macro_rules! ints { ($($t:ident)*) => { $( for _ in 0..cx.n(100) {
        let a: [$t; 4] = std::array::from_fn(|_| cx.rng.int(-5, 5) as $t);
        let b: [$t; 4] = std::array::from_fn(|_| cx.rng.int(-5, 5) as $t);
        let desc = || format!("a={:?} b={:?}", a, b);
        cx.case(stringify!($t), keys(&a), a.iter().any(|x| *x != 0), desc, |cx| {
            let (x, y) = (Vector4::from(a), Vector4::from(b));
            let m = Matrix2x2::from([[a[0], a[1]], [a[2], a[3]]]);
            let q = Quaternion::new(a[0], a[1], a[2], a[3]);
            let z = Complex::new(a[0], a[1]);
            let s = |v: &[$t]| v.iter().map(|t| t * t).sum::<$t>();
            let l1 = |v: &[$t]| v.iter().map(|t| t.abs()).sum::<$t>();
            let li = |v: &[$t]| v.iter().map(|t| t.abs()).max().unwrap();
            let d: Vec<$t> = a.iter().zip(&b).map(|(p, q)| p - q).collect();
            let obs = [
                ("int-norm-squared", x.norm_squared(), s(&a)), ("int-distance-squared", x.metric_distance_squared(&y), s(&d)),
                ("int-l1", x.l1_norm(), l1(&a)), ("int-linf", x.linf_norm(), li(&a)), ("int-l1-distance", x.apply_metric_distance(&y, &L1Norm::new()), l1(&d)), ("int-linf-distance", x.apply_metric_distance(&y, &LinfNorm::new()), li(&d)),
                ("int-matrix-norm-squared", m.norm_squared(), s(&a)), ("int-matrix-l1", m.l1_norm(), l1(&a[..2]).max(l1(&a[2..]))), ("int-matrix-linf", m.linf_norm(), (a[0].abs() + a[2].abs()).max(a[1].abs() + a[3].abs())),
                ("int-quaternion-norm-squared", q.norm_squared(), s(&a)), ("int-quaternion-norm-squared", q.modulus_squared(), s(&a)), ("int-quaternion-norm-squared", q.magnitude_squared(), s(&a)), ("int-quaternion-l1", q.l1_norm(), l1(&a)),
                ("int-complex-norm-squared", z.norm_squared(), s(&a[..2])), ("int-complex-norm-squared", z.modulus_squared(), s(&a[..2])), ("int-complex-norm-squared", z.magnitude_squared(), s(&a[..2])), ("int-complex-l1", z.l1_norm(), l1(&a[..2])),
            ];
            for (ev, g, w) in obs { cx.ok(ev, g == w, || format!("got {}, want {}; {}", g, w, desc())); }
        });
    } )* }; }
    ints!(i8 i16 i32 i64 i128 isize);
}

fn quat_complex(cx: &mut Cx) {
    for _ in 0..cx.n(400) {
        let (a, b) = pair(&mut cx.rng, 4);
        let desc = || format!("a={:?} b={:?}", a, b);
        cx.case("quaternion/complex named norms", bits(&a), n(&a) > 0.0, desc, |cx| {
            let (q, r) = (Quaternion::new(a[0], a[1], a[2], a[3]), Quaternion::new(b[0], b[1], b[2], b[3]));
            let z = Complex::new(a[0], a[1]);
            let d: Vec<f64> = a.iter().zip(&b).map(|(p, q)| p - q).collect();
            let l1 = |v: &[f64]| v.iter().map(|t| t.abs()).sum::<f64>();
            let obs = [
                ("quaternion-norm", q.norm(), n(&a)), ("quaternion-norm", q.modulus(), n(&a)), ("quaternion-norm", q.magnitude(), n(&a)), ("quaternion-norm", q.l2_norm(), n(&a)), ("quaternion-l1", q.l1_norm(), l1(&a)),
                ("quaternion-norm-squared", q.norm_squared(), n2(&a)), ("quaternion-norm-squared", q.modulus_squared(), n2(&a)), ("quaternion-norm-squared", q.magnitude_squared(), n2(&a)),
                ("quaternion-distance", q.metric_distance(&r), n(&d)), ("quaternion-distance-squared", q.metric_distance_squared(&r), n2(&d)),
                ("complex-norm", z.norm(), n(&a[..2])), ("complex-norm", z.modulus(), n(&a[..2])), ("complex-norm", z.magnitude(), n(&a[..2])), ("complex-norm", z.l2_norm(), n(&a[..2])), ("complex-l1", z.l1_norm(), l1(&a[..2])),
                ("complex-norm-squared", z.norm_squared(), n2(&a[..2])), ("complex-norm-squared", z.modulus_squared(), n2(&a[..2])), ("complex-norm-squared", z.magnitude_squared(), n2(&a[..2])),
            ];
            for (ev, g, w) in obs { cx.ok(ev, (g - w).abs() <= 1e-11 * w.abs(), || format!("got {}, want {}; {}", g, w, desc())); }
        });
    }
}

fn unit_misc(cx: &mut Cx) {
    for _ in 0..cx.n(300) {
        let a: [f64; 3] = cx.rng.vals();
        let a2: [f64; 4] = cx.rng.vals();
        let desc = || format!("a={:?} q={:?}", a, a2);
        cx.case("unit negation and views", bits(&a), n(&a) > 1e-3 && n(&a2) > 1e-3, desc, |cx| {
            if n(&a) > 1e-3 && n(&a2) > 1e-3 {
                let u = Unit::from_value(Vector3::from(a));
                let w = refm::unit(&a);
                cx.near("unit-neg", &va(&(-u)), &refm::scale(&w, -1.0), 1e-13, desc);
                let q = Unit::from_value(Quaternion::new(a2[0], a2[1], a2[2], a2[3]));
                cx.near("unit-neg", &qa(&(-q)), &refm::scale(&refm::unit(&a2), -1.0), 1e-13, desc);
                cx.ok("unit-views-agree", *u.as_ref() == *u && u.into_inner() == *u && u.as_ref()[1] == u[1], desc);
                let m = [[a2[0], a2[1]], [a2[2], a2[3]]];
                let (um, up) = (Unit::from_value(Matrix2x2::from(m)), Unit::from_value(Point3::from(a)));
                let wm = refm::scale(&refm::unit(&a2), -1.0);
                for g in [refm::flat(&ma(&(-um))), refm::flat(&ma(&(-&um))), qa(&(-&q)).to_vec()] { cx.near("unit-neg", &g, &wm, 1e-13, desc); }
                for g in [pa(&(-up)), pa(&(-&up)), va(&(-&u))] { cx.near("unit-neg", &g, &refm::scale(&w, -1.0), 1e-13, desc); }
                let raw = Vector3::from(a);
                cx.ok("unchecked-is-verbatim", Unit::from_value_unchecked(raw).into_inner() == raw, desc);
                cx.ok("unit-idempotent", refm::norm(&refm::sub(&va(&Unit::from_value(u.into_inner())), &w)) < 1e-13, desc);
            }
        });
        // single precision
        let f = a.map(|x| x as f32);
        let nf = n(&f.map(|x| x as f64));
        cx.case("f32", keys(&f), nf > 1e-2, desc, |cx| {
            if nf > 1e-2 {
                let v = Vector3::from(f);
                let u = v.normalize();
                cx.ok("f32-norm", (v.norm() as f64 - nf).abs() <= 1e-6 * nf && (u.norm() - 1.0).abs() < 1e-6, desc);
                for i in 0..3 { cx.ok("f32-normalize", (u[i] as f64 - f[i] as f64 / nf).abs() < 1e-6, desc); }
            }
        });
    }
}

/// Single precision of every normed type against double precision.
fn single(cx: &mut Cx) {
    macro_rules! all { ($name:literal, $n:literal, |$a:ident| $mk:expr, |$x:ident| $rd:expr) => { for _ in 0..cx.n(200) {
        let (a, b): ([f64; $n], [f64; $n]) = (singles(&mut cx.rng), singles(&mut cx.rng));
        let (s, k) = (singles::<1>(&mut cx.rng)[0], cx.rng.range(0.3, 3.0));
        let (na, desc) = (n(&a), || format!("a={:?} b={:?} s={}", a, b, s));
        let t = na * if (k - 1.0).abs() < 0.01 { 0.5 } else { k };
        cx.case(concat!("single ", $name), bits(&a), true, desc, |cx| {
            both!(cx, concat!("single-", $name), 1e-5, desc, {
                let mk = |v: &[f64; $n]| { let $a = v.map(|x| x as S); $mk };
                let (x, y) = (mk(&a), mk(&b));
                let (mut m1, mut m2, mut m3, mut m4) = (x, x, x, x);
                m1.scale_mut(s as S);
                m2.unscale_mut(s as S);
                let l = m3.normalize_mut();
                let l2 = m4.try_normalize_mut(t as S);
                let (p, q) = (x.try_normalize(t as S), x.distance_squared(&y));
                let mut o: Vec<S> = vec![Normed::norm(&x), Normed::norm_squared(&x), x.distance(&y), q, l, l2.unwrap_or(0.0), p.is_some() as u8 as S];
                for $x in [x.scale(s as S), x.unscale(s as S), m1, m2, m3, m4, x.normalize(), p.unwrap_or(y), -x, -&x] { o.extend($rd); }
                o
            });
        });
    } }; }
    all!("vector", 1, |a| Vector::<S, 1>::from(a), |x| vs(&x)); all!("vector", 2, |a| Vector::<S, 2>::from(a), |x| vs(&x)); all!("vector", 3, |a| Vector::<S, 3>::from(a), |x| vs(&x)); all!("vector", 4, |a| Vector::<S, 4>::from(a), |x| vs(&x)); all!("vector", 7, |a| Vector::<S, 7>::from(a), |x| vs(&x));
    all!("point", 1, |a| Point::<S, 1>::from(a), |x| vs(&x.to_vector())); all!("point", 2, |a| Point::<S, 2>::from(a), |x| vs(&x.to_vector())); all!("point", 3, |a| Point::<S, 3>::from(a), |x| vs(&x.to_vector()));
    all!("quaternion", 4, |a| Quaternion::<S>::from(a), |x| vec![x[0], x[1], x[2], x[3]]);
    all!("complex", 2, |a| Complex::<S>::new(a[0], a[1]), |x| vec![x.re, x.im]);
    all!("matrix", 4, |a| Matrix::<S, 2, 2>::from([[a[0], a[1]], [a[2], a[3]]]), |x| ms(&x)); all!("matrix", 6, |a| Matrix::<S, 3, 2>::from([[a[0], a[1], a[2]], [a[3], a[4], a[5]]]), |x| ms(&x)); all!("matrix", 9, |a| Matrix::<S, 3, 3>::from([[a[0], a[1], a[2]], [a[3], a[4], a[5]], [a[6], a[7], a[8]]]), |x| ms(&x));
    for _ in 0..cx.n(600) {
        let (a, b): ([f64; 4], [f64; 4]) = (singles(&mut cx.rng), singles(&mut cx.rng));
        let (p, desc) = (cx.rng.int(1, 9) as u32, || format!("a={:?} b={:?}", a, b));
        cx.case("single named norms", bits(&a), true, desc, |cx| {
            both!(cx, "single-named", 1e-5, desc, {
                let (a, b) = (a.map(|x| x as S), b.map(|x| x as S));
                let (x, y) = (Vector::<S, 4>::from(a), Vector::<S, 4>::from(b));
                let (u, v) = (Point::<S, 4>::from(a), Point::<S, 4>::from(b));
                vec![x.l1_norm(), x.linf_norm(), x.l2_norm(), x.lp_norm(p), x.magnitude(), x.magnitude_squared(), x.metric_distance(&y), x.apply_norm(&L1Norm::new()), x.apply_norm(&L2Norm::new()), x.apply_norm(&LinfNorm::new()), x.apply_norm(&LpNorm::new(p)),
                    x.apply_metric_distance(&y, &L1Norm::new()), x.apply_metric_distance(&y, &L2Norm::new()), x.apply_metric_distance(&y, &LinfNorm::new()), x.apply_metric_distance(&y, &LpNorm::new(p)),
                    u.norm(), u.magnitude(), u.l2_norm(), u.norm_squared(), u.magnitude_squared(), u.metric_distance(&v), u.metric_distance_squared(&v)]
            });
            both!(cx, "single-named-matrix", 1e-5, desc, {
                let m = |a: [f64; 4]| { let a = a.map(|x| x as S); Matrix::<S, 2, 2>::from([[a[0], a[1]], [a[2], a[3]]]) };
                let (x, y) = (m(a), m(b));
                vec![x.l1_norm(), x.linf_norm(), x.norm(), x.magnitude(), x.norm_squared(), x.magnitude_squared(), x.metric_distance(&y), x.metric_distance_squared(&y), x.apply_norm(&L1MatrixNorm::new()), x.apply_norm(&LinfMatrixNorm::new()), x.apply_norm(&FrobeniusNorm::new()),
                    x.apply_metric_distance(&y, &L1MatrixNorm::new()), x.apply_metric_distance(&y, &LinfMatrixNorm::new()), x.apply_metric_distance(&y, &FrobeniusNorm::new())]
            });
            both!(cx, "single-named-quaternion", 1e-5, desc, {
                let (q, r) = (Quaternion::<S>::from(a.map(|x| x as S)), Quaternion::<S>::from(b.map(|x| x as S)));
                let z = Complex::<S>::new(a[0] as S, a[1] as S);
                vec![q.norm(), q.modulus(), q.magnitude(), q.l2_norm(), q.l1_norm(), q.norm_squared(), q.modulus_squared(), q.magnitude_squared(), q.metric_distance(&r), q.metric_distance_squared(&r),
                    z.norm(), z.modulus(), z.magnitude(), z.l2_norm(), z.l1_norm(), z.norm_squared(), z.modulus_squared(), z.magnitude_squared()]
            });
        });
    }
}

fn main() {
    let mut c = Cx::new("C05", "random values of mixed classes (zero, axis-aligned, tiny, huge, integer, general), thresholds below, above and around the length; every vector/point dimension 1..=8, every matrix shape, quaternions, complex; integers for squared/sum/max norms; non-trivial: non-zero value");
    let cx = &mut c;
    vector::<1>(cx); vector::<2>(cx); vector::<3>(cx); vector::<4>(cx); vector::<5>(cx); vector::<6>(cx); vector::<7>(cx); vector::<8>(cx); vector::<9>(cx); vector::<16>(cx);
    macro_rules! shapes { ($($r:literal $c:literal $rc:literal;)*) => { $( matrix::<$r, $c, $rc>(cx); )* }; }
    shapes!(1 1 1; 1 2 2; 1 3 3; 1 4 4; 2 2 4; 2 3 6; 2 4 8; 3 2 6; 3 3 9; 3 4 12; 4 2 8; 4 3 12; 4 4 16; 2 1 2; 3 1 3; 4 1 4; 5 5 25; 1 9 9; 9 1 9; 2 9 18; 9 2 18; 6 5 30;);
    normed(cx, "quaternion", 4, |s| Quaternion::new(s[0], s[1], s[2], s[3]), |q| qa(q).to_vec());
    normed(cx, "complex", 2, |s| Complex::new(s[0], s[1]), |z| vec![z.real(), z.imaginary()]);
    quat_complex(cx);
    integer(cx);
    unit_misc(cx);
    single(cx);
    cx.require(&["single-vector", "single-named", "norm", "checked-refusal", "refused-left-unchanged", "lp", "matrix-l1", "matrix-linf", "frobenius", "int-l1", "unit-neg", "unit-length", "triangle"]);
    c.finish();
}
