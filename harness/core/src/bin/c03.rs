//! C03: vector and point arithmetic is exact componentwise arithmetic.
use h_core::*;
use std::ops::Mul;

fn vec_ops<T: Sc, const N: usize>(cx: &mut Cx)
where
    T: Mul<Vector<T, N>, Output = Vector<T, N>> + Mul<Point<T, N>, Output = Point<T, N>>,
    for<'a> T: Mul<&'a Vector<T, N>, Output = Vector<T, N>>,
    for<'a> &'a T: Mul<Vector<T, N>, Output = Vector<T, N>> + Mul<Point<T, N>, Output = Point<T, N>>,
    for<'a, 'b> &'a T: Mul<&'b Vector<T, N>, Output = Vector<T, N>>,
{
    let tag = format!("{} dim {}", T::NAME, N);
    for round in 0..cx.n(150) {
        let (mut a, mut b): ([T; N], [T; N]) = (gens(&mut cx.rng), gens(&mut cx.rng));
        let (mut s, mut d) = (T::gen(&mut cx.rng), T::divisor(&mut cx.rng));
        if round % 3 == 2 {
            a = specials(&mut cx.rng, None); b = specials(&mut cx.rng, Some(&a));
            if cx.rng.chance(2, 3) { s = T::special(&mut cx.rng); }
            if T::FLOAT && cx.rng.chance(2, 3) { d = T::special(&mut cx.rng); }
        }
        let ss = s;
        let mut key = keys(&a);
        key.extend(keys(&b));
        key.extend([s.key(), d.key()]);
        let desc = || format!("a={:?} b={:?} s={:?} d={:?}", a, b, s, d);
        cx.case(&tag, key, a.iter().any(|x| *x != T::zero()) && b.iter().any(|x| *x != T::zero()), desc, |cx| {
            let (va, vb) = (Vector::<T, N>::from(a), Vector::<T, N>::from(b));
            let (pa, pb) = (Point::<T, N>::from(a), Point::<T, N>::from(b));
            let add: [T; N] = std::array::from_fn(|i| a[i] + b[i]);
            let sub: [T; N] = std::array::from_fn(|i| a[i] - b[i]);
            let mul: [T; N] = std::array::from_fn(|i| a[i] * ss);
            let div: [T; N] = std::array::from_fn(|i| a[i] / d);
            let rem: [T; N] = std::array::from_fn(|i| a[i] % d);
            let mut obs: Vec<(&'static str, Vec<T>, [T; N])> = Vec::with_capacity(80);
            macro_rules! v { ($ev:literal, $e:expr, $w:expr) => { obs.push(($ev, vs(&$e), $w)); }; }
            macro_rules! p { ($ev:literal, $e:expr, $w:expr) => { obs.push(($ev, ps(&$e), $w)); }; }
            // vectors
            v!("vector-add", va + vb, add); v!("vector-add-rv", &va + vb, add); v!("vector-add-vr", va + &vb, add); v!("vector-add-rr", &va + &vb, add);
            v!("vector-sub", va - vb, sub); v!("vector-sub-rv", &va - vb, sub); v!("vector-sub-vr", va - &vb, sub); v!("vector-sub-rr", &va - &vb, sub);
            v!("vector-scale", va * s, mul); v!("vector-scale-r", &va * s, mul);
            v!("scalar-times-vector", ss * va, mul); v!("scalar-times-vector-r", ss * &va, mul); v!("scalar-times-vector-rv", &ss * va, mul); v!("scalar-times-vector-rr", &ss * &va, mul);
            v!("vector-div", va / d, div); v!("vector-div-r", &va / d, div);
            v!("vector-rem", va % d, rem); v!("vector-rem-r", &va % d, rem);
            let mut m = va; m += vb; v!("vector-add-assign", m, add);
            let mut m = va; m += &vb; v!("vector-add-assign-r", m, add);
            let mut m = va; m -= vb; v!("vector-sub-assign", m, sub);
            let mut m = va; m -= &vb; v!("vector-sub-assign-r", m, sub);
            let mut m = va; m *= s; v!("vector-mul-assign", m, mul);
            let mut m = va; m /= d; v!("vector-div-assign", m, div);
            let mut m = va; m %= d; v!("vector-rem-assign", m, rem);
            // points
            p!("point-add", pa + vb, add); p!("point-add-rv", &pa + vb, add); p!("point-add-vr", pa + &vb, add); p!("point-add-rr", &pa + &vb, add);
            p!("point-sub-vector", pa - vb, sub); p!("point-sub-vector-rv", &pa - vb, sub); p!("point-sub-vector-vr", pa - &vb, sub); p!("point-sub-vector-rr", &pa - &vb, sub);
            v!("point-difference", pa - pb, sub); v!("point-difference-rv", &pa - pb, sub); v!("point-difference-vr", pa - &pb, sub); v!("point-difference-rr", &pa - &pb, sub);
            p!("point-scale", pa * s, mul); p!("point-scale-r", &pa * s, mul);
            p!("scalar-times-point", ss * pa, mul); p!("scalar-times-point-rv", &ss * pa, mul);
            p!("point-div", pa / d, div); p!("point-div-r", &pa / d, div);
            p!("point-rem", pa % d, rem); p!("point-rem-r", &pa % d, rem);
            let mut m = pa; m += vb; p!("point-add-assign", m, add);
            let mut m = pa; m += &vb; p!("point-add-assign-r", m, add);
            let mut m = pa; m -= vb; p!("point-sub-assign", m, sub);
            let mut m = pa; m -= &vb; p!("point-sub-assign-r", m, sub);
            let mut m = pa; m *= s; p!("point-mul-assign", m, mul);
            let mut m = pa; m /= d; p!("point-div-assign", m, div);
            let mut m = pa; m %= d; p!("point-rem-assign", m, rem);
            // the operands are untouched
            v!("operands-unchanged", va, a); v!("operands-unchanged", vb, b); p!("operands-unchanged", pa, a); p!("operands-unchanged", pb, b);
            // constants
            v!("zero", Vector::<T, N>::zero(), [T::zero(); N]); p!("origin", Point::<T, N>::origin(), [T::zero(); N]);
            v!("zero-neutral", va + Vector::zero(), a.map(|x| x + T::zero()));
            for (ev, g, w) in &obs {
                cx.ok(ev, vexact(g, w), || format!("got {:?}, want {:?}; {}", g, w, desc()));
            }
        });
    }
}

fn neg_ops<T: Sc + SimdScalarSigned, const N: usize>(cx: &mut Cx) {
    let tag = format!("negation {} dim {}", T::NAME, N);
    for _ in 0..cx.n(60) {
        let a: [T; N] = if cx.rng.chance(1, 2) { specials(&mut cx.rng, None) } else { gens(&mut cx.rng) };
        let desc = || format!("a={:?}", a);
        cx.case(&tag, keys(&a), a.iter().any(|x| *x != T::zero()), desc, |cx| {
            let want: [T; N] = std::array::from_fn(|i| -a[i]);
            let (v, p) = (Vector::<T, N>::from(a), Point::<T, N>::from(a));
            let mut m = v;
            m.neg_mut();
            for (ev, g) in [("vector-neg", vs(&-v)), ("vector-neg-r", vs(&-&v)), ("vector-neg-mut", vs(&m)), ("point-neg", ps(&-p)), ("point-neg-r", ps(&-&p))] {
                cx.ok(ev, vexact(&g, &want), || format!("got {:?}, want {:?}", g, want));
            }
        });
    }
}

fn neg_unit<const N: usize>(cx: &mut Cx) {
    for _ in 0..cx.n(50) {
        let d: [f64; N] = cx.rng.dir();
        cx.case(&format!("unit negation dim {}", N), bits(&d), true, || format!("{:?}", d), |cx| {
            let u = Unit::from_value_unchecked(Vector::<f64, N>::from(d));
            let p = Unit::from_value_unchecked(Point::<f64, N>::from(d));
            let w: [f64; N] = std::array::from_fn(|i| -d[i]);
            for (ev, g) in [("unit-vector-neg", vs(&(-u).into_inner())), ("unit-vector-neg-r", vs(&(-&u).into_inner())), ("unit-point-neg", ps(&(-p).into_inner())), ("unit-point-neg-r", ps(&(-&p).into_inner()))] {
                cx.ok(ev, vexact(&g, &w), || format!("got {:?}, want {:?}", g, w));
            }
        });
    }
}

/// A history of assigning operations tracks the model step by step.
fn histories<const N: usize>(cx: &mut Cx) {
    for _ in 0..cx.n(60) {
        let mut model: [i32; N] = exacts(&mut cx.rng);
        let start = model;
        let mut log = Vec::new();
        let mut v = Vector::<i32, N>::from(model);
        let mut p = Point::<i32, N>::from(model);
        for _ in 0..30 {
            let b: [i32; N] = exacts(&mut cx.rng);
            let s = <i32 as Sc>::divisor(&mut cx.rng);
            let op = cx.rng.below(5);
            log.push((op, b, s));
            for i in 0..N { model[i] = match op { 0 => model[i].wrapping_add(b[i]), 1 => model[i].wrapping_sub(b[i]), 2 => model[i].wrapping_mul(s), 3 => model[i] / s, _ => model[i] % s }; }
            let vb = Vector::from(b);
            match op { 0 => { v += vb; p += &vb; } 1 => { v -= &vb; p -= vb; } 2 => { v *= s; p *= s; } 3 => { v /= s; p /= s; } _ => { v %= s; p %= s; } }
        }
        cx.case(&format!("assign history dim {}", N), keys(&start), true, || format!("start {:?} then {:?}", start, &log[..3.min(log.len())]), |cx| {
            cx.ok("history-vector", vs(&v) == model, || format!("got {:?}, want {:?} from {:?} by {:?}", v, model, start, log));
            cx.ok("history-point", ps(&p) == model, || format!("got {:?}, want {:?} from {:?} by {:?}", p, model, start, log));
        });
    }
}

fn main() {
    let mut c = Cx::new("C03", "random full-range integers (wrapping) and mixed-class floats, a third of the cases with zeros of both signs, extremes, subnormals, infinities and NaN, compared bit by bit, dimensions 1 to 6 (some scalars to 16), all 14 scalar types, every operand form, plus 30-step histories of assigning operators; non-trivial: both operands have a non-zero component");
    let cx = &mut c;
    macro_rules! dims { ($f:ident, [$($t:ident)*]) => { $( $f::<$t, 1>(cx); $f::<$t, 2>(cx); $f::<$t, 3>(cx); $f::<$t, 4>(cx); $f::<$t, 6>(cx); )* }; }
    dims!(vec_ops, [u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64]);
    dims!(neg_ops, [i8 i16 i32 i64 i128 isize f32 f64]);
    macro_rules! large { ($($f:ident)*) => { $( $f::<i32, 5>(cx); $f::<f64, 5>(cx); $f::<i64, 7>(cx); $f::<f64, 7>(cx); $f::<f64, 8>(cx); $f::<i64, 9>(cx); $f::<f64, 16>(cx); )* }; }
    large!(vec_ops neg_ops);
    neg_unit::<2>(cx); neg_unit::<3>(cx); neg_unit::<4>(cx);
    histories::<1>(cx); histories::<2>(cx); histories::<3>(cx); histories::<4>(cx); histories::<5>(cx);
    cx.require(&["vector-add-rr", "point-difference", "scalar-times-vector-rr", "vector-rem-assign", "point-neg-r", "history-point"]);
    cx.assume("integer arithmetic is observed with overflow checks off (two's-complement wrapping)");
    c.finish();
}
