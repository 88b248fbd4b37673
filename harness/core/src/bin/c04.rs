//! C04: dot, cross, triple and componentwise products.
use h_core::*;

fn products<T: Sc, const N: usize>(cx: &mut Cx) {
    let tag = format!("{} dim {}", T::NAME, N);
    for _ in 0..cx.n(150) {
        let (a, b, c): ([T; N], [T; N], [T; N]) = (exacts(&mut cx.rng), exacts(&mut cx.rng), exacts(&mut cx.rng));
        let s = T::exact(&mut cx.rng);
        let mut key = keys(&a);
        key.extend(keys(&b));
        let desc = || format!("a={:?} b={:?} c={:?} s={:?}", a, b, c, s);
        cx.case(&tag, key, a.iter().zip(&b).any(|(x, y)| *x * *y != T::zero()), desc, |cx| {
            let (va, vb, vc) = (Vector::<T, N>::from(a), Vector::<T, N>::from(b), Vector::<T, N>::from(c));
            let (pa, pb) = (Point::<T, N>::from(a), Point::<T, N>::from(b));
            let mut dot = T::zero();
            for i in 0..N { dot = dot + a[i] * b[i]; }
            let cm: [T; N] = std::array::from_fn(|i| a[i] * b[i]);
            let mut m = va;
            m.component_mul_assign(&vb);
            let obs = [
                ("vector-dot", vec![va.dot(&vb)], vec![dot]), ("vector-dot-symmetric", vec![vb.dot(&va)], vec![dot]), ("point-dot", vec![pa.dot(&pb)], vec![dot]),
                ("dot-additive", vec![va.dot(&(vb + vc))], vec![va.dot(&vb) + va.dot(&vc)]),
                ("component-mul", vs(&va.component_mul(&vb)), cm.to_vec()), ("component-mul-assign", vs(&m), cm.to_vec()),
                ("operands-unchanged", vs(&va), a.to_vec()),
            ];
            for (ev, g, w) in &obs { cx.ok(ev, vsame(g, w), || format!("got {:?}, want {:?}; {}", g, w, desc())); }
            if T::FLOAT {
                let (a, b): ([T; N], [T; N]) = (wide(&mut cx.rng), wide(&mut cx.rng));
                let t: Vec<(T, T)> = (0..N).map(|i| (a[i], b[i])).collect();
                let (v, w, p, q) = (Vector::<T, N>::from(a), Vector::<T, N>::from(b), Point::<T, N>::from(a), Point::<T, N>::from(b));
                for (ev, g) in [("vector-dot-general", v.dot(&w)), ("vector-dot-general", w.dot(&v)), ("point-dot-general", p.dot(&q)), ("point-dot-general", q.dot(&p))] { cx.ok(ev, sum_ok(g, &t), || format!("got {:?} for {:?} and {:?}", g, a, b)); }
                let cm: Vec<T> = (0..N).map(|i| a[i] * b[i]).collect();
                let mut m = v;
                m.component_mul_assign(&w);
                cx.ok("component-mul-general", vsame(&vs(&v.component_mul(&w)), &cm) && vsame(&vs(&m), &cm), || format!("got {:?} want {:?} for {:?} and {:?}", m, cm, a, b));
            }
            if !T::FLOAT {
                let g = (va * s).dot(&vb);
                let w = dot * s;
                cx.ok("dot-homogeneous", g == w, || format!("got {:?}, want {:?}; {}", g, w, desc()));
            }
        });
    }
}

fn cross<T: Sc>(cx: &mut Cx) {
    let tag = format!("cross {}", T::NAME);
    for _ in 0..cx.n(300) {
        let (a, b, c): ([T; 3], [T; 3], [T; 3]) = (exacts(&mut cx.rng), exacts(&mut cx.rng), exacts(&mut cx.rng));
        let mut key = keys(&a);
        key.extend(keys(&b));
        let desc = || format!("a={:?} b={:?} c={:?}", a, b, c);
        cx.case(&tag, key, true, desc, |cx| {
            let (va, vb, vc) = (Vector3::from(a), Vector3::from(b), Vector3::from(c));
            let w = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
            let z = T::zero();
            let t = w[0] * c[0] + w[1] * c[1] + w[2] * c[2];
            let g = va.cross(&vb);
            let obs = [
                ("cross", vs(&g), w.to_vec()),
                ("cross-antisymmetric", vs(&vb.cross(&va)), w.map(|x| z - x).to_vec()),
                ("cross-self", vs(&va.cross(&va)), vec![z; 3]),
                ("cross-orthogonal", vec![g.dot(&va), g.dot(&vb)], vec![z; 2]),
                ("cross-additive", vs(&va.cross(&(vb + vc))), vs(&(g + va.cross(&vc)))),
                ("triple", vec![va.triple(&vb, &vc)], vec![t]),
                ("triple-cyclic", vec![vb.triple(&vc, &va)], vec![t]),
                ("triple-alternating", vec![va.triple(&vb, &va), vb.triple(&vb, &va)], vec![z; 2]),
            ];
            for (ev, g, w) in &obs { cx.ok(ev, vsame(g, w), || format!("got {:?}, want {:?}; {}", g, w, desc())); }
            if T::FLOAT {
                let (a, b): ([T; 3], [T; 3]) = (wide(&mut cx.rng), wide(&mut cx.rng));
                let (v, w) = (Vector3::from(a), Vector3::from(b));
                let g = v.cross(&w);
                for i in 0..3 { let (j, k) = ((i + 1) % 3, (i + 2) % 3); cx.ok("cross-general", sum_ok(g[i], &[(a[j], b[k]), (z - a[k], b[j])]), || format!("got {:?} for {:?} and {:?}", g, a, b)); }
                let f = |x: &[T; 3]| x.map(|x| x.to_f());
                let c: [T; 3] = cx.rng.vals::<3>().map(T::from_f);
                let (s, m) = (refm::dot(&refm::cross(&f(&a), &f(&b)), &f(&c)), refm::norm(&f(&a)) * refm::norm(&f(&b)) * refm::norm(&f(&c)));
                let t = v.triple(&w, &Vector3::from(c)).to_f();
                if m < 1e36 && m > 1e-30 { cx.ok("triple-general", (t - s).abs() <= 16.0 * T::eps() * m, || format!("got {:?} want {:?} for {:?} and {:?} and {:?}", t, s, a, b, c)); }
            }
        });
    }
    let (x, y, z) = (Vector3::<T>::unit_x(), Vector3::<T>::unit_y(), Vector3::<T>::unit_z());
    cx.case(&tag, [1, 2, 3], true, || "basis".into(), |cx| {
        cx.ok("right-handed", x.cross(&y) == z && y.cross(&z) == x && z.cross(&x) == y, || "unit axes are not right-handed".into());
    });
}

fn basis<T: Sc>(cx: &mut Cx) {
    let tag = format!("basis {}", T::NAME);
    let (o, i) = (T::zero(), T::one());
    cx.case(&tag, [0], true, || "unit vectors".into(), |cx| {
        let obs = [
            vs(&Vector1::<T>::unit_x()) == [i], vs(&Vector2::<T>::unit_x()) == [i, o], vs(&Vector2::<T>::unit_y()) == [o, i],
            vs(&Vector3::<T>::unit_x()) == [i, o, o], vs(&Vector3::<T>::unit_y()) == [o, i, o], vs(&Vector3::<T>::unit_z()) == [o, o, i],
            vs(&Vector4::<T>::unit_x()) == [i, o, o, o], vs(&Vector4::<T>::unit_y()) == [o, i, o, o], vs(&Vector4::<T>::unit_z()) == [o, o, i, o], vs(&Vector4::<T>::unit_w()) == [o, o, o, i],
        ];
        cx.ok("unit-vectors", obs.iter().all(|x| *x), || format!("{:?}", obs));
    });
}

fn float<const N: usize>(cx: &mut Cx) {
    let tag = format!("project/reflect/min/max dim {}", N);
    for _ in 0..cx.n(400) {
        let a: [f64; N] = cx.rng.vals();
        let mut b: [f64; N] = cx.rng.vals();
        if cx.rng.chance(1, 8) { b = refm::scale(&b, cx.rng.mag(1e-7, 1e7)); }
        if cx.rng.chance(1, 8) { b = refm::scale(&a, cx.rng.nz()); }
        if cx.rng.chance(1, 8) { let i = cx.rng.below(N); b = [0.0; N]; b[i] = cx.rng.nz(); }
        let mut key = bits(&a);
        key.extend(bits(&b));
        let nb = refm::norm(&b);
        let desc = || format!("a={:?} b={:?}", a, b);
        cx.case(&tag, key, nb > 0.0, desc, |cx| {
            let (v, n) = (Vector::<f64, N>::from(a), Vector::<f64, N>::from(b));
            let tol = 1e-13 * refm::norm(&a);
            if nb > 1e-9 {
                let k = refm::dot(&a, &b) / (nb * nb);
                let proj = va(&v.project(&n));
                cx.near("project", &proj, &refm::scale(&b, k), tol, desc);
                cx.near("project-idempotent", &va(&Vector::<f64, N>::from(proj).project(&n)), &proj, tol, desc);
                let rej = refm::sub(&a, &proj);
                cx.ok("project-residual-orthogonal", refm::dot(&rej, &b).abs() <= tol * nb, || format!("residual {:?}; {}", rej, desc()));
                let r = v.reflect(&n);
                cx.near("reflect", &va(&r), &refm::sub(&a, &refm::scale(&b, 2.0 * k)), tol, desc);
                cx.near("reflect-involution", &va(&r.reflect(&n)), &a, tol, desc);
                cx.near("reflect-isometry", &[r.norm()], &[refm::norm(&a)], tol, desc);
            }
            let (mn, mx) = (va(&v.component_min(&n)), va(&v.component_max(&n)));
            let wmn: [f64; N] = std::array::from_fn(|i| if a[i] < b[i] { a[i] } else { b[i] });
            let wmx: [f64; N] = std::array::from_fn(|i| if a[i] > b[i] { a[i] } else { b[i] });
            cx.eq("component-min", mn, wmn, desc);
            cx.eq("component-max", mx, wmx, desc);
            // as for scalars, a NaN component yields to the other one
            for j in 0..N {
                let mut h = a;
                h[j] = f64::NAN;
                let h = Vector::<f64, N>::from(h);
                cx.ok("component-min-nan", h.component_min(&n)[j] == b[j] && n.component_min(&h)[j] == b[j] && h.component_min(&h)[j].is_nan(), desc);
                cx.ok("component-max-nan", h.component_max(&n)[j] == b[j] && n.component_max(&h)[j] == b[j] && h.component_max(&h)[j].is_nan(), desc);
            }
        });
    }
}

fn float32(cx: &mut Cx) {
    for _ in 0..cx.n(200) {
        let a: [f32; 3] = std::array::from_fn(|_| cx.rng.range(-5.0, 5.0) as f32);
        let b: [f32; 3] = std::array::from_fn(|_| cx.rng.range(-5.0, 5.0) as f32);
        let desc = || format!("a={:?} b={:?}", a, b);
        cx.case("f32 project/reflect", keys(&a), true, desc, |cx| {
            let (v, n) = (Vector3::from(a), Vector3::from(b));
            let (ad, bd) = (a.map(|x| x as f64), b.map(|x| x as f64));
            let nb = refm::norm(&bd);
            if nb > 0.1 {
                let k = refm::dot(&ad, &bd) / (nb * nb);
                let p: Vec<f64> = vs(&v.project(&n)).iter().map(|x| *x as f64).collect();
                let r: Vec<f64> = vs(&v.reflect(&n)).iter().map(|x| *x as f64).collect();
                cx.near("project", &p, &refm::scale(&bd, k), 1e-4, desc);
                cx.near("reflect", &r, &refm::sub(&ad, &refm::scale(&bd, 2.0 * k)), 1e-4, desc);
            }
        });
    }
}

fn main() {
    let mut c = Cx::new("C04", "random full-range integers (wrapping, exact identities) and small-integer floats for sums of products; mixed-class floats with parallel and axis-aligned special cases for projection and reflection; all scalar types, dimensions 1..=5; non-trivial: some component product is non-zero / second operand non-zero");
    let cx = &mut c;
    products::<i64, 6>(cx); products::<f64, 6>(cx); products::<f64, 7>(cx); products::<i64, 8>(cx); products::<f64, 8>(cx); products::<f64, 16>(cx);
    macro_rules! dims { ([$($t:ident)*]) => { $( products::<$t, 1>(cx); products::<$t, 2>(cx); products::<$t, 3>(cx); products::<$t, 4>(cx); products::<$t, 5>(cx); cross::<$t>(cx); basis::<$t>(cx); )* }; }
    dims!([u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64]);
    float::<1>(cx); float::<2>(cx); float::<3>(cx); float::<4>(cx); float::<5>(cx);
    float32(cx);
    cx.require(&["vector-dot", "cross", "triple", "project", "reflect", "component-min", "component-mul-assign"]);
    c.finish();
}
