//! C29: homogeneous coordinates, extension, contraction, point/vector conversion.
use h_core::*;

/// A quotient, or a product with a reciprocal: the latter may round differently, and only where neither is extreme.
fn divided<T: Sc>(got: &[T], want: &[T]) -> bool { got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.exactly(*w) || g.close(*w) && *w != T::zero()) }

fn ext<T: Sc, const N: usize, const M: usize>(cx: &mut Cx)
where
    ShapeConstraint: CanExtend<Const<N>, Const<M>> + CanContract<Const<M>, Const<N>> + DimAdd<Const<N>, Const<1>, Output = Const<M>> + DimSub<Const<M>, Const<1>, Output = Const<N>>,
{
    let tag = format!("{} {}<->{}", T::NAME, N, M);
    for round in 0..cx.n(150) {
        let mut a: [T; N] = gens(&mut cx.rng);
        let mut b: [T; M] = gens(&mut cx.rng);
        let (mut w, mut d) = (T::gen(&mut cx.rng), T::divisor(&mut cx.rng));
        if round % 3 == 2 {
            a = specials(&mut cx.rng, None); b = specials(&mut cx.rng, None); w = T::special(&mut cx.rng);
            if T::FLOAT && cx.rng.chance(1, 2) { d = T::special(&mut cx.rng); if d == T::zero() { d = T::one(); } }
        }
        let mut key = keys(&a);
        key.extend(keys(&b));
        key.push(w.key());
        let desc = || format!("a={:?} b={:?} w={:?} d={:?}", a, b, w, d);
        cx.case(&tag, key, w != T::zero() || a.iter().any(|x| *x != T::zero()), desc, |cx| {
            let app = |l: T| -> Vec<T> { a.iter().copied().chain([l]).collect() };
            let (v, p) = (Vector::<T, N>::from(a), Point::<T, N>::from(a));
            let (v1, p1) = (Vector::<T, M>::from(b), Point::<T, M>::from(b));
            let obs = [
                ("vector-extend", vs(&v.extend(w)), app(w)), ("point-extend", ps(&p.extend(w)), app(w)),
                ("vector-to-homogeneous", vs(&v.to_homogeneous()), app(T::zero())), ("point-to-homogeneous", vs(&p.to_homogeneous()), app(T::one())),
                ("vector-contract", vs(&v1.contract()), b[..N].to_vec()), ("point-contract", ps(&p1.contract()), b[..N].to_vec()),
                ("extend-contract", vs(&v.extend(w).contract()), a.to_vec()), ("point-extend-contract", ps(&p.extend(w).contract()), a.to_vec()),
                ("point-from-vector", ps(&Point::<T, N>::from_vector(&v)), a.to_vec()), ("point-to-vector", vs(&p.to_vector()), a.to_vec()),
            ];
            for (ev, g, w) in &obs { cx.ok(ev, vexact(g, w), || format!("got {:?}, want {:?}; {}", g, w, desc())); }
            // vectors: defined exactly at weight zero
            let h = v.extend(w).from_homogeneous();
            cx.ok("vector-from-homogeneous", match h { Some(x) => w == T::zero() && vexact(&vs(&x), &a), None => w != T::zero() }, || format!("got {:?}; {}", h, desc()));
            let h = v.extend(T::zero()).from_homogeneous();
            cx.ok("vector-homogeneous-round-trip", h.map(|x| vexact(&vs(&x), &a)) == Some(true), || format!("got {:?}; {}", h, desc()));
            // points: defined exactly at non-zero weight
            let h = Point::<T, N>::from_homogeneous(&v.extend(d));
            let q: [T; N] = std::array::from_fn(|i| a[i] / d);
            cx.ok("point-from-homogeneous", h.map(|x| divided(&ps(&x), &q)) == Some(true), || format!("got {:?}, want {:?}; {}", h, q, desc()));
            let h = Point::<T, N>::from_homogeneous(&v.extend(T::zero()));
            cx.ok("point-from-homogeneous-refuses", h.is_none(), || format!("got {:?}; {}", h, desc()));
            let h = Point::<T, N>::from_homogeneous(&p.to_homogeneous());
            cx.ok("point-homogeneous-round-trip", h.map(|x| vexact(&ps(&x), &a)) == Some(true), || format!("got {:?}; {}", h, desc()));
        });
    }
}

/// Floating weights of every size: defined exactly when the weight is not zero.
fn weights(cx: &mut Cx) {
    for w in [1.0f64, -1.0, 0.5, -2.0, 1e-300, -1e-300, f64::MIN_POSITIVE, 1e-310, -5e-324, 1e300, f64::EPSILON, -f64::EPSILON, 1e-10, 0.0, -0.0] {
        cx.case("weights", [w.to_bits()], true, || format!("w={:e}", w), |cx| {
            let v = Vector4::new(0.0, 0.0, 0.0, w);
            let h = Point3::from_homogeneous(&v);
            cx.ok("point-defined-iff-weight-nonzero", h.is_some() == (w != 0.0), || format!("w={:e} got {:?}", w, h));
            let h = v.from_homogeneous();
            cx.ok("vector-defined-iff-weight-zero", h.is_some() == (w == 0.0), || format!("w={:e} got {:?}", w, h));
            let h = Point3::from_homogeneous(&Vector4::new(w, 2.0 * w, -3.0 * w, w));
            if w != 0.0 && w.abs() > 1e-300 && w.abs() < 1e299 { cx.ok("point-divides", h.map(|p| (p.x - 1.0).abs() < 1e-12 && (p.y - 2.0).abs() < 1e-12 && (p.z + 3.0).abs() < 1e-12) == Some(true), || format!("w={:e} got {:?}", w, h)); }
        });
    }
}

/// Conversions between tuple, array and typed forms.
fn conv<T: Sc>(cx: &mut Cx) {
    let tag = format!("conversions {}", T::NAME);
    for _ in 0..cx.n(60) {
        let a: [T; 4] = if cx.rng.chance(1, 3) { specials(&mut cx.rng, None) } else { gens(&mut cx.rng) };
        let [x, y, z, w] = a;
        let desc = || format!("{:?}", a);
        cx.case(&tag, keys(&a), a.iter().any(|x| *x != T::zero()), desc, |cx| {
            let obs = [
                ("vector1", vs(&Vector1::<T>::from(x)), 1), ("vector1", vs(&Vector1::<T>::from((x,))), 1), ("vector1", vs(&Vector1::<T>::from(&(x,))), 1), ("vector1", vs(&Vector1::<T>::new(x)), 1), ("vector1", vec![Vector1::<T>::new(x).to_scalar()], 1),
                ("vector2", vs(&Vector2::<T>::from((x, y))), 2), ("vector2", vs(&Vector2::<T>::from(&(x, y))), 2), ("vector2", vs(&Vector2::<T>::new(x, y)), 2), ("vector2", vs(&Vector2::<T>::from([x, y])), 2), ("vector2", vs(&Vector2::<T>::from(&[x, y])), 2),
                ("vector3", vs(&Vector3::<T>::from((x, y, z))), 3), ("vector3", vs(&Vector3::<T>::from(&(x, y, z))), 3), ("vector3", vs(&Vector3::<T>::new(x, y, z)), 3), ("vector3", vs(&Vector3::<T>::from([x, y, z])), 3), ("vector3", vs(&Vector3::<T>::from(&[x, y, z])), 3),
                ("vector4-to-3", vs(&Vector3::<T>::from(Vector4::new(x, y, z, w))), 3), ("vector4-to-3", vs(&Vector3::<T>::from(&Vector4::new(x, y, z, w))), 3),
                ("vector4", vs(&Vector4::<T>::from((x, y, z, w))), 4), ("vector4", vs(&Vector4::<T>::from(&(x, y, z, w))), 4), ("vector4", vs(&Vector4::<T>::new(x, y, z, w)), 4), ("vector4", vs(&Vector4::<T>::from(a)), 4), ("vector4", vs(&Vector4::<T>::from(&a)), 4),
                ("point1", ps(&Point1::<T>::from(x)), 1), ("point1", ps(&Point1::<T>::from((x,))), 1), ("point1", ps(&Point1::<T>::from(&(x,))), 1), ("point1", ps(&Point1::<T>::new(x)), 1),
                ("point2", ps(&Point2::<T>::from((x, y))), 2), ("point2", ps(&Point2::<T>::from(&(x, y))), 2), ("point2", ps(&Point2::<T>::new(x, y)), 2), ("point2", ps(&Point2::<T>::from([x, y])), 2), ("point2", ps(&Point2::<T>::from(&[x, y])), 2),
                ("point3", ps(&Point3::<T>::from((x, y, z))), 3), ("point3", ps(&Point3::<T>::from(&(x, y, z))), 3), ("point3", ps(&Point3::<T>::new(x, y, z)), 3), ("point3", ps(&Point3::<T>::from([x, y, z])), 3), ("point3", ps(&Point3::<T>::from(&[x, y, z])), 3),
            ];
            for (ev, g, n) in &obs { cx.ok(ev, vexact(g, &a[..*n]), || format!("got {:?}, want {:?}", g, &a[..*n])); }
        });
    }
}

fn main() {
    let mut c = Cx::new("C29", "random components and weights (zero, one, subnormal, huge, integer limits) for every scalar type and every dimension pair 1<->2 .. 3<->4; non-trivial: weight or some component non-zero");
    let cx = &mut c;
    macro_rules! go { ([$($t:ident)*]) => { $( ext::<$t, 1, 2>(cx); ext::<$t, 2, 3>(cx); ext::<$t, 3, 4>(cx); conv::<$t>(cx); )* }; }
    go!([u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64]);
    weights(cx);
    cx.require(&["vector-extend", "vector-from-homogeneous", "point-from-homogeneous", "point-from-homogeneous-refuses", "vector4-to-3", "point-defined-iff-weight-nonzero"]);
    c.finish();
}
