//! C18: interpolation.
use h_core::*;
use refm::{add, dot, norm, scale, sub};

/// Endpoints close to, equal to or opposite to each other, and both of any common magnitude (an exact factor).
fn relate(r: &mut Rng, exact: bool, a: &mut [f64], b: &mut [f64]) {
    match r.below(8) {
        0 => b.copy_from_slice(a),
        1 => for i in 0..a.len() { b[i] = -a[i]; },
        2 if !exact => { let e = r.mag(1e-12, 1e-2); for i in 0..a.len() { b[i] = a[i] * (1.0 + e * (i as f64 + 1.0)); } }
        _ => {}
    }
    if r.chance(1, 4) { let k = 2f64.powi(if exact { r.int(-60, 60) } else { r.int(-300, 300) } as i32); for x in a.iter_mut().chain(b) { *x *= k; } }
}

fn vec_lerp<const N: usize>(cx: &mut Cx) {
    for _ in 0..cx.n(150) {
        let r = &mut cx.rng;
        let exact = r.bool();
        let (mut a, mut b): ([f64; N], [f64; N]) = if exact { (r.ivals(100), r.ivals(100)) } else { (r.vals(), r.vals()) };
        relate(r, exact, &mut a, &mut b);
        let t = match r.below(6) { 0 => 0.0, 1 => 1.0, 2 => 0.5, 3 => r.int(-16, 16) as f64 / 8.0, 4 if !exact => r.range(-3.0, 4.0), _ if !exact => r.unit(), _ => 0.25 };
        let desc = || format!("a={:?} b={:?} t={:e}", a, b, t);
        let mut key = bits(&a);
        key.extend(bits(&b));
        key.push(t.to_bits());
        cx.case(&format!("vector{}", N), key, a != b, desc, |cx| {
            let want: [f64; N] = std::array::from_fn(|i| a[i] * (1.0 - t) + b[i] * t);
            let s = (maxabs(&a) + maxabs(&b)) * (1.0 + t.abs());
            let (x, y) = (Vector::<f64, N>::from(a), Vector::<f64, N>::from(b));
            let g = va(&x.lerp(&y, t));
            cx.near("vector-lerp", &g, &want, if exact { 0.0 } else { 2e-15 * s }, || desc());
            if t == 0.0 { cx.near("vector-lerp-at-0", &g, &a, 0.0, || desc()); }
            if t == 1.0 { cx.near("vector-lerp-at-1", &g, &b, if exact { 0.0 } else { 2e-15 * s }, || desc()); }
            let f = |v: &[f64; N]| -> [f32; N] { std::array::from_fn(|i| v[i] as f32) };
            if exact {
                let g32 = Vector::<f32, N>::from(f(&a)).lerp(&Vector::<f32, N>::from(f(&b)), t as f32);
                cx.ok("vector-lerp-f32", (0..N).all(|i| g32[i] as f64 == want[i]), || format!("{:?} {}", g32, desc()));
            }
        });
    }
}

fn mat_lerp<const R: usize, const C: usize>(cx: &mut Cx) {
    for _ in 0..cx.n(80) {
        let r = &mut cx.rng;
        let exact = r.bool();
        let mut a: [[f64; R]; C] = std::array::from_fn(|_| if exact { r.ivals(100) } else { r.vals() });
        let mut b: [[f64; R]; C] = std::array::from_fn(|_| if exact { r.ivals(100) } else { r.vals() });
        relate(r, exact, a.as_flattened_mut(), b.as_flattened_mut());
        let t = match r.below(5) { 0 => 0.0, 1 => 1.0, 2 => 0.5, 3 => r.int(-16, 16) as f64 / 8.0, _ => if exact { 0.75 } else { r.range(-3.0, 4.0) } };
        let desc = || format!("a={:?} b={:?} t={:e}", a, b, t);
        let mut key = bits(&flat(&a));
        key.push(t.to_bits());
        cx.case(&format!("matrix{}x{}", R, C), key, a != b, desc, |cx| {
            let s = (maxabs(&flat(&a)) + maxabs(&flat(&b))) * (1.0 + t.abs());
            let want: Vec<f64> = flat(&a).iter().zip(flat(&b)).map(|(p, q)| p * (1.0 - t) + q * t).collect();
            let g = Matrix::<f64, R, C>::from(a).lerp(&Matrix::<f64, R, C>::from(b), t);
            cx.near("matrix-lerp", &ms(&g), &want, if exact { 0.0 } else { 2e-15 * s }, || desc());
            if t == 0.0 { cx.near("matrix-lerp-at-0", &ms(&g), &flat(&a), 0.0, || desc()); }
        });
    }
}

fn single(cx: &mut Cx) {
    for _ in 0..cx.n(2000) {
        let (a, b): ([f64; 4], [f64; 4]) = (singles(&mut cx.rng), singles(&mut cx.rng));
        let (t, desc) = (cx.rng.int(-8, 24) as f64 / 16.0, || format!("a={:?} b={:?}", a, b));
        let c = dot(&a, &b) / norm(&a) / norm(&b);
        cx.case("single precision", bits(&a), c.abs() < 0.9, desc, |cx| {
            if c.abs() < 0.9 && c.abs() > 0.05 {
                both!(cx, "single", 1e-4, || format!("t={}; {}", t, desc()), {
                    let (f, g) = (a.map(|x| x as S), b.map(|x| x as S));
                    let (x, y, t) = (Quaternion::<S>::from(f).normalize(), Quaternion::<S>::from(g).normalize(), t as S);
                    let (p, q) = (Matrix::<S, 2, 2>::from([[f[0], f[1]], [f[2], f[3]]]), Matrix::<S, 2, 2>::from([[g[0], g[1]], [g[2], g[3]]]));
                    let mut o: Vec<S> = ms(&p.lerp(&q, t));
                    for z in [x.lerp(&y, t), x.nlerp(&y, t), x.slerp(&y, t)] { o.extend([z[0], z[1], z[2], z[3]]); }
                    o.extend(vs(&Vector::<S, 4>::from(f).lerp(&Vector::from(g), t)));
                    o
                });
            }
        });
    }
}

fn main() {
    let mut c = Cx::new("C18", "vectors of 1-4 and matrices of every shape up to 4x4 with exact (integer endpoints, dyadic parameter) and general data, endpoints unrelated, equal, nearly equal and opposite and of any common magnitude, parameters inside and outside [0,1]; unit quaternions at angles 1e-12 to a quarter turn of the 3-sphere on either side (q and -q), parameters 0, 1, dyadic and general in [0,1]; non-trivial: the endpoints differ");
    let cx = &mut c;
    vec_lerp::<1>(cx); vec_lerp::<2>(cx); vec_lerp::<3>(cx); vec_lerp::<4>(cx); vec_lerp::<5>(cx); vec_lerp::<9>(cx);
    mat_lerp::<1, 1>(cx); mat_lerp::<1, 2>(cx); mat_lerp::<1, 3>(cx); mat_lerp::<1, 4>(cx); mat_lerp::<2, 2>(cx); mat_lerp::<2, 3>(cx); mat_lerp::<2, 4>(cx);
    mat_lerp::<3, 2>(cx); mat_lerp::<3, 3>(cx); mat_lerp::<3, 4>(cx); mat_lerp::<4, 2>(cx); mat_lerp::<4, 3>(cx); mat_lerp::<4, 4>(cx); mat_lerp::<5, 5>(cx); mat_lerp::<9, 2>(cx); mat_lerp::<2, 9>(cx); mat_lerp::<3, 1>(cx);
    for _ in 0..cx.n(4000) {
        let r = &mut cx.rng;
        let a = r.dir::<4>();
        // orthonormal partner of a
        let o = loop { let d = r.dir::<4>(); let p = sub(&d, &scale(&a, dot(&d, &a))); if norm(&p) > 0.1 { let p = scale(&p, 1.0 / norm(&p)); let p = sub(&p, &scale(&a, dot(&p, &a))); break scale(&p, 1.0 / norm(&p)); } };
        let h = match r.below(8) { 0 => r.mag(1e-12, 1e-2).abs(), 1 => std::f64::consts::FRAC_PI_4, 2 => 5e-4 * (1.0 + r.range(-0.01, 0.01)), 3 => r.mag(1e-5, 1e-1).abs(), 4 => 0.0, _ => r.range(0.0, 1.57) };
        let b0: [f64; 4] = add(&scale(&a, h.cos()), &scale(&o, h.sin()));
        let b = scale(&b0, r.sign() / norm(&b0));
        let t = match r.below(6) { 0 => 0.0, 1 => 1.0, 2 => 0.5, 3 => r.int(0, 8) as f64 / 8.0, _ => r.unit() };
        let k = r.ivals::<4>(9);
        let desc = || format!("q1={:?} q2={:?} half-angle={:e} t={:e}", a, b, h, t);
        let mut key = bits(&a);
        key.extend(bits(&b));
        key.push(t.to_bits());
        cx.case("quaternion", key, h > 0.0, desc, |cx| {
            let (x, y) = (Quaternion::from(a), Quaternion::from(b));
            let l = qa(&x.lerp(&y, t));
            let wl = add(&scale(&a, 1.0 - t), &scale(&b, t));
            cx.near("quaternion-lerp", &l, &wl, 4e-15, || desc());
            let ex = Quaternion::from(k).lerp(&Quaternion::from([3.0, -5.0, 8.0, 1.0]), 0.25);
            cx.near("quaternion-lerp-exact", &qa(&ex), &add(&scale(&k, 0.75), &scale(&[3.0, -5.0, 8.0, 1.0], 0.25)), 0.0, || desc());
            // beyond the ends
            let out = if cx.rng.bool() { cx.rng.range(-3.0, 0.0) } else { cx.rng.range(1.0, 4.0) };
            let wo = add(&scale(&a, 1.0 - out), &scale(&b, out));
            cx.near("quaternion-lerp-beyond", &qa(&x.lerp(&y, out)), &wo, 3e-14, || format!("t={} {}", out, desc()));
            if norm(&wo) > 1e-2 { cx.near("quaternion-nlerp-beyond", &qa(&x.nlerp(&y, out)), &scale(&wo, 1.0 / norm(&wo)), 4e-14 / norm(&wo), || format!("t={} {}", out, desc())); }
            if norm(&wl) > 1e-3 {
                let n = qa(&x.nlerp(&y, t));
                cx.near("quaternion-nlerp", &n, &scale(&wl, 1.0 / norm(&wl)), 1e-15 / norm(&wl) * 4.0, || desc());
                cx.ok("nlerp-unit", (norm(&n) - 1.0).abs() < 1e-14, || format!("{:?} {}", n, desc()));
                if t == 0.0 { cx.near("nlerp-at-0", &n, &a, 4e-15, || desc()); }
                if t == 1.0 { cx.near("nlerp-at-1", &n, &b, 4e-15, || desc()); }
            }
            // spherical: along the shorter arc, from a (or -a) to b
            let s = qa(&x.slerp(&y, t));
            let sg = if dot(&a, &b) < 0.0 { -1.0 } else { 1.0 };
            // both signs of the start are the same rotation when the arcs are equal
            let tol = 4e-12 + if h < 4.9e-4 { h * h * h } else { 4e-15 / (h * h) } + if h < 1e-7 { 4e-8 } else { 0.0 };
            let dir = add(&scale(&a, ((1.0 - t) * h).sin()), &scale(&b, sg * (t * h).sin()));
            let geo = if h < 1e-12 { a } else { scale(&dir, 1.0 / norm(&dir)) };
            let e = norm(&sub(&s, &geo)).min(norm(&add(&s, &geo)));
            cx.ok("slerp-geodesic", e <= tol, || format!("got {:?}, want +-{:?} (error {:e}, tol {:e}); {}", s, geo, e, tol, desc()));
            cx.ok("slerp-unit", (norm(&s) - 1.0).abs() <= tol, || format!("{:?} {}", s, desc()));
            if t == 0.0 { cx.ok("slerp-at-0", norm(&sub(&s, &a)).min(norm(&add(&s, &a))) <= tol, || format!("{:?} {}", s, desc())); }
            if t == 1.0 { cx.ok("slerp-at-1", norm(&sub(&s, &b)).min(norm(&add(&s, &b))) <= tol, || format!("{:?} {}", s, desc())); }
            // the angle from the start is t times the angle between the ends
            let ang = |p: &[f64; 4], q: &[f64; 4]| { let d = dot(p, q); let c = norm(&sub(p, &scale(q, d / dot(q, q)))); c.atan2(d.abs()) };
            cx.ok("slerp-proportional-angle", (ang(&s, &a) - t * h).abs() <= 2.0 * tol && (ang(&s, &b) - (1.0 - t) * h).abs() <= 2.0 * tol, || format!("angles {:e} {:e} of {:e}; {}", ang(&s, &a), ang(&s, &b), h, desc()));
            // beyond the ends: along the same circle, as far as the ends can tell it
            if h > 0.05 {
                let (so, dir) = (qa(&x.slerp(&y, out)), add(&scale(&a, ((1.0 - out) * h).sin()), &scale(&b, sg * (out * h).sin())));
                let go = scale(&dir, 1.0 / h.sin());
                let e = norm(&sub(&so, &go)).min(norm(&add(&so, &go)));
                cx.ok("slerp-beyond", e <= 4e-12 + 1e-14 / (h * h), || format!("at {}: got {:?}, want +-{:?} (error {:e}); {}", out, so, go, e, desc()));
            }
            // as rotations: the result acts on a vector like the geodesic rotation
            let w = [0.3, -1.2, 0.7];
            cx.near("slerp-rotation", &refm::qrot(&s, &w), &refm::qrot(&geo, &w), 8.0 * tol, || desc());
        });
    }
    cx.assume("slerp may replace the arc by its chord below a half angle of 5e-4 (error below the cube of the angle) (rounding amplified by the inverse square of the angle above it) and may return the first end when the cosine rounds to one");
    single(cx);
    cx.require(&["single", "vector-lerp", "vector-lerp-at-0", "vector-lerp-at-1", "matrix-lerp", "quaternion-lerp", "quaternion-nlerp", "nlerp-at-0", "nlerp-at-1", "slerp-geodesic", "slerp-at-0", "slerp-at-1", "slerp-proportional-angle", "slerp-rotation"]);
    c.finish();
}
