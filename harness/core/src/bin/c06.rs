//! C06: matrix arithmetic for every shape and scalar type.
use h_core::*;

/// Sums of products: the sign of a zero depends on the order of summation. All else is compared bit by bit.
const SUMS: [&str; 10] = ["identity-", "zero-", "matrix-", "transpose-dot", "tr-mul", "transpose-reverses", "distributive", "associative", "vector-", "scalar-"];
type Obs<T> = Vec<(&'static str, Vec<T>, Vec<T>)>;
fn judge<T: Sc>(cx: &mut Cx, obs: Obs<T>, desc: &dyn Fn() -> String) {
    for (ev, g, w) in &obs { cx.ok(ev, if SUMS.iter().any(|x| ev.starts_with(x)) { vsame(g, w) } else { vexact(g, w) }, || format!("got {:?}, want {:?}; {}", g, w, desc())); }
}

fn entrywise<T: Sc, const R: usize, const C: usize>(cx: &mut Cx) {
    let tag = format!("{} {}x{}", T::NAME, R, C);
    for round in 0..cx.n(36) {
        let (mut a, mut b): ([[T; R]; C], [[T; R]; C]) = (mats(&mut cx.rng), mats(&mut cx.rng));
        let (ea, eb): ([[T; R]; C], [[T; R]; C]) = (exmats(&mut cx.rng), exmats(&mut cx.rng));
        let v: [T; C] = exacts(&mut cx.rng);
        let mut s = T::gen(&mut cx.rng);
        let mut d = T::divisor(&mut cx.rng);
        if round % 3 == 2 {
            a = std::array::from_fn(|_| specials(&mut cx.rng, None));
            b = std::array::from_fn(|c| specials(&mut cx.rng, Some(&a[c])));
            if cx.rng.chance(2, 3) { s = T::special(&mut cx.rng); }
            if T::FLOAT && cx.rng.chance(2, 3) { d = T::special(&mut cx.rng); }
        }
        let mut key = mkeys(&a);
        key.extend(mkeys(&b));
        let desc = || format!("a={:?} b={:?} ea={:?} eb={:?} v={:?} s={:?} d={:?}", a, b, ea, eb, v, s, d);
        cx.case(&tag, key, flat(&a).iter().any(|x| *x != T::zero()), desc, |cx| {
            let (x, y) = (Matrix::<T, R, C>::from(a), Matrix::<T, R, C>::from(b));
            let (ex, ey) = (Matrix::<T, R, C>::from(ea), Matrix::<T, R, C>::from(eb));
            let vv = Vector::<T, C>::from(v);
            let e2 = |f: &dyn Fn(T, T) -> T| flat(&a).iter().zip(flat(&b)).map(|(p, q)| f(*p, q)).collect::<Vec<T>>();
            let e1 = |f: &dyn Fn(T) -> T| flat(&a).iter().map(|p| f(*p)).collect::<Vec<T>>();
            let (sum, dif, sc, dv, rm, cm) = (e2(&|p, q| p + q), e2(&|p, q| p - q), e1(&|p| p * s), e1(&|p| p / d), e1(&|p| p % d), e2(&|p, q| p * q));
            let mv: Vec<T> = (0..R).map(|r| (0..C).fold(T::zero(), |acc, c| acc + ea[c][r] * v[c])).collect();
            let tr: Vec<T> = (0..R).flat_map(|r| (0..C).map(move |c| (r, c))).map(|(r, c)| a[c][r]).collect();
            let dot = flat(&ea).iter().zip(flat(&eb)).fold(T::zero(), |acc, (p, q)| acc + *p * q);
            let t = x.transpose();
            let mut obs: Obs<T> = vec![
                ("add", ms(&(x + y)), sum.clone()), ("add", ms(&(x + &y)), sum.clone()), ("add", ms(&(&x + y)), sum.clone()), ("add", ms(&(&x + &y)), sum.clone()),
                ("sub", ms(&(x - y)), dif.clone()), ("sub", ms(&(x - &y)), dif.clone()), ("sub", ms(&(&x - y)), dif.clone()), ("sub", ms(&(&x - &y)), dif.clone()),
                ("scale", ms(&(x * s)), sc.clone()), ("scale", ms(&(&x * s)), sc.clone()),
                ("div", ms(&(x / d)), dv.clone()), ("div", ms(&(&x / d)), dv.clone()), ("rem", ms(&(x % d)), rm.clone()), ("rem", ms(&(&x % d)), rm.clone()),
                ("component-mul", ms(&x.component_mul(&y)), cm.clone()),
                ("matrix-vector", vs(&(ex * vv)), mv.clone()), ("matrix-vector", vs(&(ex * &vv)), mv.clone()), ("matrix-vector", vs(&(&ex * vv)), mv.clone()), ("matrix-vector", vs(&(&ex * &vv)), mv.clone()),
                ("transpose", ms(&t), tr), ("transpose-involution", ms(&t.transpose()), flat(&a)),
                ("matrix-dot", vec![ex.dot(&ey)], vec![dot]), ("matrix-dot-symmetric", vec![ey.dot(&ex)], vec![dot]), ("transpose-dot", vec![ex.tr_dot(&ey.transpose())], vec![dot]),
            ];
            let mut assign = |ev, want: &Vec<T>, f: &dyn Fn(&mut Matrix<T, R, C>)| { let mut m = x; f(&mut m); obs.push((ev, ms(&m), want.clone())); };
            assign("add-assign", &sum, &|m| *m += y);
            assign("add-assign", &sum, &|m| *m += &y);
            assign("sub-assign", &dif, &|m| *m -= y);
            assign("sub-assign", &dif, &|m| *m -= &y);
            assign("mul-assign", &sc, &|m| *m *= s);
            assign("div-assign", &dv, &|m| *m /= d);
            assign("rem-assign", &rm, &|m| *m %= d);
            assign("component-mul-assign", &cm, &|m| m.component_mul_assign(&y));
            obs.push(("operands-unchanged", ms(&x), flat(&a)));
            judge(cx, obs, &desc);
            if T::FLOAT {
                let a: [[T; R]; C] = std::array::from_fn(|_| wide(&mut cx.rng));
                let b: [[T; R]; C] = std::array::from_fn(|_| wide(&mut cx.rng));
                let v: [T; C] = wide(&mut cx.rng);
                let (x, y, u) = (Matrix::<T, R, C>::from(a), Matrix::<T, R, C>::from(b), Vector::<T, C>::from(v));
                let d = || format!("a={:?} b={:?} v={:?}", a, b, v);
                for g in [x * u, x * &u, &x * u, &x * &u] { for r in 0..R { let t: Vec<(T, T)> = (0..C).map(|c| (a[c][r], v[c])).collect(); cx.ok("matrix-vector-general", sum_ok(g[r], &t), || format!("got {:?}; {}", g, d())); } }
                let t: Vec<(T, T)> = flat(&a).into_iter().zip(flat(&b)).collect();
                for g in [x.dot(&y), y.dot(&x), x.tr_dot(&y.transpose())] { cx.ok("matrix-dot-general", sum_ok(g, &t), || format!("got {:?}; {}", g, d())); }
            }
        });
    }
}

fn signed<T: Sc + SimdScalarSigned, const R: usize, const C: usize>(cx: &mut Cx) {
    let tag = format!("neg {} {}x{}", T::NAME, R, C);
    for _ in 0..cx.n(20) {
        let a: [[T; R]; C] = if cx.rng.chance(1, 2) { std::array::from_fn(|_| specials(&mut cx.rng, None)) } else { mats(&mut cx.rng) };
        if !T::FLOAT && flat(&a).iter().any(|x| *x == T::zero() - *x && *x != T::zero()) { continue; } // MIN has no negative
        let desc = || format!("a={:?}", a);
        cx.case(&tag, mkeys(&a), true, desc, |cx| {
            let x = Matrix::<T, R, C>::from(a);
            let w: Vec<T> = flat(&a).iter().map(|p| -*p).collect();
            let mut m = x;
            m.neg_mut();
            judge(cx, vec![("neg", ms(&-x), w.clone()), ("neg", ms(&-&x), w.clone()), ("neg-mut", ms(&m), w), ("neg-involution", ms(&-(-x)), flat(&a))], &desc);
        });
    }
}

fn product<T: Sc, const R: usize, const K: usize, const C: usize, const RC: usize, const RK: usize, const KC: usize>(cx: &mut Cx)
where
    ShapeConstraint: CanMultiply<Const<R>, Const<K>, Const<K>, Const<C>> + DimMul<Const<R>, Const<C>, Output = Const<RC>> + DimMul<Const<C>, Const<R>, Output = Const<RC>>,
    ShapeConstraint: CanMultiply<Const<C>, Const<K>, Const<K>, Const<R>> + CanTransposeMultiply<Const<K>, Const<R>, Const<K>, Const<C>> + DimEq<Const<K>, Const<K>>,
{
    let tag = format!("product {} {}x{}x{}", T::NAME, R, K, C);
    for _ in 0..cx.n(30) {
        let (a, b): ([[T; R]; K], [[T; K]; C]) = (exmats(&mut cx.rng), exmats(&mut cx.rng));
        let a2: [[T; R]; K] = exmats(&mut cx.rng);
        let v: [T; C] = exacts(&mut cx.rng);
        let mut key = mkeys(&a);
        key.extend(mkeys(&b));
        let desc = || format!("a={:?} b={:?} a2={:?} v={:?}", a, b, a2, v);
        cx.case(&tag, key, true, desc, |cx| {
            let (x, y, x2) = (Matrix::<T, R, K>::from(a), Matrix::<T, K, C>::from(b), Matrix::<T, R, K>::from(a2));
            let vv = Vector::<T, C>::from(v);
            let w: Vec<T> = (0..C).flat_map(|c| (0..R).map(move |r| (c, r))).map(|(c, r)| (0..K).fold(T::zero(), |acc, k| acc + a[k][r] * b[c][k])).collect();
            let p = x * y;
            let mut obs: Obs<T> = vec![
                ("matrix-matrix", ms(&p), w.clone()), ("matrix-matrix", ms(&(x * &y)), w.clone()), ("matrix-matrix", ms(&(&x * y)), w.clone()), ("matrix-matrix", ms(&(&x * &y)), w.clone()),
                ("tr-mul", ms(&x.transpose().tr_mul(&y)), w.clone()),
                ("transpose-reverses", ms(&(y.transpose() * x.transpose())), ms(&p.transpose())),
                ("distributive", ms(&((x + x2) * y)), ms(&(x * y + x2 * y))),
            ];
            // associativity with a vector (exact for wrapping integers; magnitudes stay below 2^24 only for f64)
            if !T::FLOAT || T::NAME == "f64" { obs.push(("associative", vs(&(p * vv)), vs(&(x * (y * vv))))); }
            judge(cx, obs, &desc);
            if T::FLOAT {
                let a: [[T; R]; K] = std::array::from_fn(|_| wide(&mut cx.rng));
                let b: [[T; K]; C] = std::array::from_fn(|_| wide(&mut cx.rng));
                // all entries of an operand small or large together
                let mut together = |r: &mut Rng| T::from_f(if r.chance(1, 3) { 2f64.powi(r.int(-50, 50) as i32) } else { 1.0 });
                let (ka, kb) = (together(&mut cx.rng), together(&mut cx.rng));
                let (a, b) = (a.map(|c| c.map(|x| x * ka)), b.map(|c| c.map(|x| x * kb)));
                let (x, y) = (Matrix::<T, R, K>::from(a), Matrix::<T, K, C>::from(b));
                for (ev, g) in [("matrix-matrix-general", x * y), ("matrix-matrix-general", x * &y), ("matrix-matrix-general", &x * y), ("matrix-matrix-general", &x * &y), ("tr-mul-general", x.transpose().tr_mul(&y))] {
                    for c in 0..C { for r in 0..R { let t: Vec<(T, T)> = (0..K).map(|k| (a[k][r], b[c][k])).collect(); cx.ok(ev, sum_ok(g[c][r], &t), || format!("entry {} {} of {:?}; a={:?} b={:?}", c, r, g, a, b)); } }
                }
            }
        });
    }
}

fn square<T: Sc, const N: usize, const NN: usize>(cx: &mut Cx)
where ShapeConstraint: CanMultiply<Const<N>, Const<N>, Const<N>, Const<N>> + DimMul<Const<N>, Const<N>, Output = Const<NN>> {
    let tag = format!("identity/zero {} {}", T::NAME, N);
    for _ in 0..cx.n(20) {
        let a: [[T; N]; N] = exmats(&mut cx.rng);
        let desc = || format!("a={:?}", a);
        cx.case(&tag, mkeys(&a), true, desc, |cx| {
            let x = Matrix::<T, N, N>::from(a);
            let (i, z) = (Matrix::<T, N, N>::identity(), Matrix::<T, N, N>::zero());
            let obs: Obs<T> = vec![
                ("identity-neutral", ms(&(x * i)), flat(&a)), ("identity-neutral", ms(&(i * x)), flat(&a)), ("zero-absorbs", ms(&(x * z)), ms(&z)), ("zero-absorbs", ms(&(z * x)), ms(&z)), ("zero-neutral", ms(&(x + z)), flat(&a)),
            ];
            judge(cx, obs, &desc);
        });
    }
}

fn main() {
    let mut c = Cx::new("C06", "random full-range (wrapping) integers and mixed-class or small-integer floats; all 14 scalar types over all 16 shapes for entrywise operations, all 64 product shapes for i32/u8/f64/i64 and a spread for the others; non-trivial: left operand non-zero");
    let cx = &mut c;
    macro_rules! shapes { ($f:ident, $($t:ident)*) => { $( $f::<$t, 1, 1>(cx); $f::<$t, 1, 2>(cx); $f::<$t, 1, 3>(cx); $f::<$t, 1, 4>(cx); $f::<$t, 2, 1>(cx); $f::<$t, 2, 2>(cx); $f::<$t, 2, 3>(cx); $f::<$t, 2, 4>(cx); $f::<$t, 3, 1>(cx); $f::<$t, 3, 2>(cx); $f::<$t, 3, 3>(cx); $f::<$t, 3, 4>(cx); $f::<$t, 4, 1>(cx); $f::<$t, 4, 2>(cx); $f::<$t, 4, 3>(cx); $f::<$t, 4, 4>(cx); )* }; }
    shapes!(entrywise, u8 i32 i64 f32 f64);
    macro_rules! few { ($f:ident, $($t:ident)*) => { $( $f::<$t, 2, 2>(cx); $f::<$t, 2, 3>(cx); $f::<$t, 3, 3>(cx); $f::<$t, 4, 3>(cx); $f::<$t, 1, 4>(cx); $f::<$t, 4, 4>(cx); )* }; }
    few!(entrywise, u16 u32 u64 u128 usize i8 i16 i128 isize);
    macro_rules! large { ($f:ident, $($t:ident)*) => { $( $f::<$t, 5, 5>(cx); $f::<$t, 5, 6>(cx); $f::<$t, 1, 7>(cx); $f::<$t, 6, 2>(cx); $f::<$t, 2, 9>(cx); $f::<$t, 9, 2>(cx); $f::<$t, 12, 12>(cx); $f::<$t, 17, 1>(cx); $f::<$t, 1, 17>(cx); )* }; }
    large!(entrywise, i32 f64); large!(signed, i32 f64);
    shapes!(signed, i32 f64);
    few!(signed, i8 i16 i64 i128 isize f32);
    macro_rules! prod { ($t:ident; $($r:literal $k:literal $c:literal;)*) => { $( product::<$t, $r, $k, $c, {$r * $c}, {$r * $k}, {$k * $c}>(cx); )* }; }
    macro_rules! all { ($($t:ident)*) => { $( prod!($t; 1 1 1; 1 1 2; 1 1 3; 1 1 4; 1 2 1; 1 2 2; 1 2 3; 1 2 4; 1 3 1; 1 3 2; 1 3 3; 1 3 4; 1 4 1; 1 4 2; 1 4 3; 1 4 4; 2 1 1; 2 1 2; 2 1 3; 2 1 4; 2 2 1; 2 2 2; 2 2 3; 2 2 4; 2 3 1; 2 3 2; 2 3 3; 2 3 4; 2 4 1; 2 4 2; 2 4 3; 2 4 4; 3 1 1; 3 1 2; 3 1 3; 3 1 4; 3 2 1; 3 2 2; 3 2 3; 3 2 4; 3 3 1; 3 3 2; 3 3 3; 3 3 4; 3 4 1; 3 4 2; 3 4 3; 3 4 4; 4 1 1; 4 1 2; 4 1 3; 4 1 4; 4 2 1; 4 2 2; 4 2 3; 4 2 4; 4 3 1; 4 3 2; 4 3 3; 4 3 4; 4 4 1; 4 4 2; 4 4 3; 4 4 4;); )* }; }
    macro_rules! some { ($($t:ident)*) => { $( prod!($t; 2 2 2; 3 3 3; 4 4 4; 2 3 4; 4 2 3; 1 4 1; 4 1 4; 3 4 2;); )* }; }
    all!(i32 f64);
    some!(u8 u16 u32 u64 u128 usize i8 i16 i64 i128 isize f32);
    macro_rules! sq { ($($t:ident)*) => { $( square::<$t, 1, 1>(cx); square::<$t, 2, 4>(cx); square::<$t, 3, 9>(cx); square::<$t, 4, 16>(cx); )* }; }
    sq!(u8 i32 f32 f64);
    // scalar on the left, for each scalar type
    macro_rules! left { ($($t:ident)*) => { $( for _ in 0..cx.n(40) {
        let a: [[$t; 3]; 2] = mats(&mut cx.rng);
        let b: [[$t; 4]; 4] = mats(&mut cx.rng);
        let s = <$t as Sc>::gen(&mut cx.rng);
        let desc = || format!("s={:?} a={:?} b={:?}", s, a, b);
        cx.case(concat!("scalar on the left ", stringify!($t)), mkeys(&b), true, desc, |cx| {
            let (x, y) = (Matrix::<$t, 3, 2>::from(a), Matrix4x4::<$t>::from(b));
            let f = |v: Vec<$t>| v.into_iter().map(|p| if <$t as Sc>::FLOAT { s * p } else { ((s as i128).wrapping_mul(p as i128)) as $t }).collect::<Vec<$t>>();
            let (w, w4) = (f(flat(&a)), f(flat(&b)));
            judge(cx, vec![("left-scale", ms(&(s * x)), w.clone()), ("left-scale", ms(&(s * &x)), w.clone()), ("left-scale", ms(&(&s * x)), w.clone()), ("left-scale", ms(&(&s * &x)), w), ("left-scale", ms(&(s * y)), w4.clone()), ("left-scale", ms(&(&s * &y)), w4)], &desc);
        });
    } )* }; }
    left!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
    cx.require(&["add", "sub", "scale", "div", "rem", "component-mul", "matrix-vector", "matrix-matrix", "tr-mul", "transpose", "matrix-dot", "transpose-dot", "neg", "left-scale", "add-assign", "rem-assign", "identity-neutral", "associative"]);
    c.finish();
}
