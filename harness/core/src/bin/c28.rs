//! C28: whole-value operations visit every component exactly once.
use h_core::*;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};

/// A composite over `S`: built from and taken apart into a flat list of components.
trait Comp<S>: Copy { const K: usize; fn name() -> String; fn mk(v: &[S]) -> Self; fn cs(&self) -> Vec<S>; }
impl<S: Copy, const N: usize> Comp<S> for Vector<S, N> {
    const K: usize = N;
    fn name() -> String { format!("vector{}", N) }
    fn mk(v: &[S]) -> Self { Vector::<S, N>::from(std::array::from_fn::<S, N, _>(|i| v[i])) }
    fn cs(&self) -> Vec<S> { (0..N).map(|i| self[i]).collect() }
}
impl<S: Copy, const N: usize> Comp<S> for Point<S, N> {
    const K: usize = N;
    fn name() -> String { format!("point{}", N) }
    fn mk(v: &[S]) -> Self { Point::<S, N>::from(std::array::from_fn::<S, N, _>(|i| v[i])) }
    fn cs(&self) -> Vec<S> { (0..N).map(|i| self[i]).collect() }
}
impl<S: Copy, const R: usize, const C: usize> Comp<S> for Matrix<S, R, C> {
    const K: usize = R * C;
    fn name() -> String { format!("matrix{}x{}", R, C) }
    fn mk(v: &[S]) -> Self { Matrix::<S, R, C>::from(std::array::from_fn::<[S; R], C, _>(|c| std::array::from_fn(|r| v[c * R + r]))) }
    fn cs(&self) -> Vec<S> { (0..C).flat_map(|c| (0..R).map(move |r| (c, r))).map(|(c, r)| self[c][r]).collect() }
}
impl<S: Copy> Comp<S> for Quaternion<S> {
    const K: usize = 4;
    fn name() -> String { "quaternion".into() }
    fn mk(v: &[S]) -> Self { Quaternion::new(v[0], v[1], v[2], v[3]) }
    fn cs(&self) -> Vec<S> { self.as_slice().to_vec() }
}
impl<S: Copy> Comp<S> for Complex<S> {
    const K: usize = 2;
    fn name() -> String { "complex".into() }
    fn mk(v: &[S]) -> Self { Complex::new(v[0], v[1]) }
    fn cs(&self) -> Vec<S> { self.as_slice().to_vec() }
}
impl<S: Copy> Comp<S> for Euler<Radians<S>> {
    const K: usize = 3;
    fn name() -> String { "euler".into() }
    fn mk(v: &[S]) -> Self { Euler::new(Radians(v[0]), Radians(v[1]), Radians(v[2])) }
    fn cs(&self) -> Vec<S> { vec![self.x.0, self.y.0, self.z.0] }
}
impl<S: Copy> Comp<S> for Radians<S> { const K: usize = 1; fn name() -> String { "radians".into() } fn mk(v: &[S]) -> Self { Radians(v[0]) } fn cs(&self) -> Vec<S> { vec![self.0] } }
impl<S: Copy> Comp<S> for Degrees<S> { const K: usize = 1; fn name() -> String { "degrees".into() } fn mk(v: &[S]) -> Self { Degrees(v[0]) } fn cs(&self) -> Vec<S> { vec![self.0] } }

fn ev(a: &str, b: &str) -> &'static str {
    use std::collections::HashMap;
    thread_local! { static M: std::cell::RefCell<HashMap<String, &'static str>> = Default::default(); }
    let k = format!("{}:{}", a, b);
    M.with(|m| *m.borrow_mut().entry(k.clone()).or_insert_with(|| Box::leak(k.into_boxed_str())))
}
/// Records everything a Hash implementation feeds to the hasher.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); } }
fn fed<T: Hash>(t: &T) -> Vec<u8> { let mut h = Rec::default(); t.hash(&mut h); h.0 }

/// Distinct components whose texts are not substrings of each other.
fn distinct(r: &mut Rng, k: usize) -> Vec<f64> { (0..k).map(|i| r.sign() * (1000.0 + 10.0 * i as f64 + r.below(10) as f64) + 0.25).collect() }
fn texts(vals: &[f64]) -> Vec<String> { vals.iter().map(|v| v.to_string()).collect() }
/// Positions at which each text occurs as a whole number in `s`.
fn places(s: &str, t: &str) -> Vec<usize> {
    let num = |c: Option<char>| c.is_some_and(|c| c.is_ascii_digit() || c == '.');
    s.match_indices(t).map(|(i, _)| i).filter(|&i| {
        let before = s[..i].chars().last();
        let neg = !t.starts_with('-') && before == Some('-');
        !num(before) && !neg && !num(s[i + t.len()..].chars().next())
    }).collect()
}

fn equality<T: Comp<f64> + PartialEq + Debug>(cx: &mut Cx) {
    let n = T::name();
    for _ in 0..cx.n(60) {
        let r = &mut cx.rng;
        let mut a: Vec<f64> = (0..T::K).map(|_| if r.chance(1, 5) { 0.0 } else { r.val() }).collect();
        if r.chance(1, 4) { let i = r.below(T::K); a[i] = *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 5e-324, f64::MIN_POSITIVE, -0.0]); }
        let j = r.below(T::K);
        let nudge = *r.pick(&[f64::NAN, f64::INFINITY, a[j].next_up(), a[j].next_down(), -a[j] - 1.0, 7.5]);
        cx.case(&format!("eq {}", n), bits(&a), true, || format!("{} {:?} other component {}: {}", n, a, j, nudge), |cx| {
            let (x, y) = (T::mk(&a), T::mk(&a));
            cx.ok(ev(&n, "eq-same"), x == y && !(x != y), || format!("{:?}", a));
            for j in 0..T::K {
                let mut b = a.clone();
                b[j] = if nudge == a[j] { if a[j].is_finite() { a[j] + 1.0 } else { 2.0 } } else { nudge };
                let z = T::mk(&b);
                cx.ok(ev(&n, "eq-one-differs"), !(x == z) && x != z && !(z == x), || format!("{:?} vs {:?}", a, b));
                b[j] = f64::NAN;
                let z = T::mk(&b);
                cx.ok(ev(&n, "eq-nan"), z != T::mk(&b), || format!("{:?}", b));
                b[j] = if a[j] == 0.0 { -a[j] } else { a[j] };
                cx.ok(ev(&n, "eq-signed-zero"), x == T::mk(&b), || format!("{:?} {:?}", a, b));
            }
            // whole-value relatives, compared componentwise
            let rel: Vec<Vec<f64>> = vec![a.iter().map(|x| -x).collect(), a.iter().rev().cloned().collect(), { let mut b = a.clone(); b.rotate_left(1); b }, a.iter().map(|x| x * 2.0).collect(),
                a.iter().map(|x| x.abs()).collect(), a.iter().map(|x| x + std::f64::consts::TAU).collect(), a.iter().map(|x| x - 360.0).collect(), a.iter().map(|x| if j % 2 == 0 { x.next_up() } else { x.next_down() }).collect(),
                a.iter().map(|_| nudge).collect(), a.iter().map(|_| f64::INFINITY).collect(), a.iter().enumerate().map(|(i, x)| if i == j { -x } else { *x }).collect(), a.iter().enumerate().map(|(i, x)| if i == j { *x } else { -x }).collect()];
            for b in &rel {
                for c in [&a, b] {
                    let w = b.iter().zip(c.iter()).all(|(p, q)| p == q);
                    cx.ok(ev(&n, "eq-relative"), (T::mk(b) == T::mk(c)) == w && (T::mk(c) != T::mk(b)) == !w, || format!("{:?} vs {:?}", b, c));
                }
            }
        });
    }
}
fn hashing<T: Comp<i32> + PartialEq + Eq + Hash + Debug>(cx: &mut Cx) {
    let n = T::name();
    for _ in 0..cx.n(40) {
        let a: Vec<i32> = (0..T::K).map(|_| i32::gen(&mut cx.rng)).collect();
        let d = cx.rng.int(1, 1000) as i32;
        cx.case(&format!("hash {}", n), a.iter().map(|x| *x as u64), true, || format!("{} {:?}", n, a), |cx| {
            cx.ok(ev(&n, "hash-equal-values"), fed(&T::mk(&a)) == fed(&T::mk(&a)) && T::mk(&a) == T::mk(&a), || format!("{:?}", a));
            for j in 0..T::K {
                let mut b = a.clone();
                b[j] = b[j].wrapping_add(d);
                cx.ok(ev(&n, "hash-every-component"), fed(&T::mk(&a)) != fed(&T::mk(&b)), || format!("{:?} {:?} are hashed alike", a, b));
                cx.ok(ev(&n, "eq-integers"), T::mk(&a) != T::mk(&b), || format!("{:?} {:?}", a, b));
            }
        });
    }
}
fn display<T: Comp<f64> + Display>(cx: &mut Cx) {
    let n = T::name();
    for _ in 0..cx.n(30) {
        let a = distinct(&mut cx.rng, T::K);
        cx.case(&format!("display {}", n), bits(&a), true, || format!("{} {:?}", n, a), |cx| {
            let s = T::mk(&a).to_string();
            shown(cx, &n, &s, &a, true);
            // the text around the components does not depend on them
            let filled = |vals: &[f64]| { let mut rest = s.clone(); let mut out = String::new(); for (t, v) in texts(&a).iter().zip(texts(vals)) { let i = places(&rest, t).first().copied()?; out += &rest[..i]; out += &v; rest = rest[i + t.len()..].to_string(); } Some(out + &rest) };
            let b: Vec<f64> = { let pool = [0.0, 1.0, 0.5, 1e-7, 123456789.125, 2.0, 1e21, 0.1]; a.iter().enumerate().map(|(i, x)| pool[(x.abs() as usize * 7 + i * (x.to_bits() >> 45 & 3) as usize) % pool.len()].copysign(*x)).collect() };
            let t = T::mk(&b).to_string();
            cx.ok(ev(&n, "display-any-value"), filled(&b) == Some(t.clone()), || format!("{:?} is shown as {:?}, {:?} as {:?}", a, s, b, t));
        });
    }
}
fn shown(cx: &mut Cx, n: &str, s: &str, a: &[f64], ordered: bool) {
    let at: Vec<Vec<usize>> = texts(a).iter().map(|t| places(s, t)).collect();
    cx.ok(ev(n, "display-each-once"), at.iter().all(|p| p.len() == 1), || format!("components {:?} shown as {:?}", a, s));
    if ordered { cx.ok(ev(n, "display-order"), at.windows(2).all(|w| w[0].first() < w[1].first()), || format!("components {:?} shown as {:?}", a, s)); }
}

/// map, casts, fills, finiteness and zero tests of the numeric composites.
macro_rules! numeric {
    ($cx:expr, $V:ident, [$($A:literal),*]) => {{
        type V<S> = $V<S, $($A),*>;
        let cx: &mut Cx = $cx;
        let k = <V<f64> as Comp<f64>>::K;
        let n = <V<f64> as Comp<f64>>::name();
        for _ in 0..cx.n(60) {
            let r = &mut cx.rng;
            let a: Vec<f64> = (0..k).map(|_| r.val()).collect();
            let small: Vec<f64> = (0..k).map(|_| r.int(0, 255) as f64).collect();
            let big: Vec<i64> = (0..k).map(|_| r.int(-1000, 1000)).collect();
            let bad = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 256.0, -1.0, 1e300]);
            let odd: Vec<f64> = (0..k).map(|_| if r.chance(1, 2) { r.val() } else { f64::special(r) }).collect();
            let desc = || format!("{} {:?} {:?} {:?} bad={}", n, a, small, big, bad);
            cx.case(&format!("numeric {}", n), bits(&a), true, desc, |cx| {
                // map: every component once, each to its own place
                let mut seen = Vec::new();
                let m: V<(u64, bool)> = <V<f64>>::mk(&a).map(|x| { seen.push(x.to_bits()); (x.to_bits(), x > 0.0) });
                let want: Vec<(u64, bool)> = a.iter().map(|x| (x.to_bits(), *x > 0.0)).collect();
                cx.ok(ev(&n, "map"), m.cs() == want, desc);
                let (mut s1, mut s2) = (seen.clone(), bits(&a));
                s1.sort();
                s2.sort();
                cx.ok(ev(&n, "map-once-each"), s1 == s2, || format!("called with {:?}; {}", seen, desc()));
                // casts
                let f: Option<V<f32>> = <V<f64>>::mk(&a).try_cast::<f32>();
                cx.ok(ev(&n, "cast-f32"), f.map(|f| f.cs()) == Some(a.iter().map(|x| *x as f32).collect()), desc);
                let f: Option<V<f32>> = <V<f64>>::mk(&odd).try_cast::<f32>();
                cx.ok(ev(&n, "cast-special"), f.map(|f| f.cs().iter().zip(&odd).all(|(g, x)| if x.is_nan() { g.is_nan() } else { g.to_bits() == (*x as f32).to_bits() })) == Some(true), || format!("{:?} cast to f32: {:?}", odd, f.map(|f| f.cs())));
                let m: V<u64> = <V<f64>>::mk(&odd).map(|x| x.to_bits());
                cx.ok(ev(&n, "map-special"), m.cs() == bits(&odd), || format!("{:?}", odd));
                let f: Option<V<u8>> = <V<f64>>::mk(&small).try_cast::<u8>();
                cx.ok(ev(&n, "cast-u8"), f.map(|f| f.cs()) == Some(small.iter().map(|x| *x as u8).collect()), desc);
                let f: Option<V<f64>> = <V<i64>>::mk(&big).try_cast::<f64>();
                cx.ok(ev(&n, "cast-i64-f64"), f.map(|f| f.cs()) == Some(big.iter().map(|x| *x as f64).collect()), desc);
                let f: Option<V<i16>> = <V<i64>>::mk(&big).try_cast::<i16>();
                cx.ok(ev(&n, "cast-i64-i16"), f.map(|f| f.cs()) == Some(big.iter().map(|x| *x as i16).collect()), desc);
                let f: Option<V<u16>> = <V<i64>>::mk(&big).try_cast::<u16>();
                let w = if big.iter().all(|x| *x >= 0) { Some(big.iter().map(|x| *x as u16).collect()) } else { None };
                cx.ok(ev(&n, "cast-signed-unsigned"), f.map(|f| f.cs()) == w, desc);
                for j in 0..k {
                    let mut b = small.clone();
                    b[j] = bad;
                    cx.ok(ev(&n, "cast-one-fails"), <V<f64>>::mk(&b).try_cast::<u8>().is_none(), || format!("{:?} cast to u8", b));
                    let mut b = big.clone();
                    b[j] = 40000;
                    cx.ok(ev(&n, "cast-one-overflows"), <V<i64>>::mk(&b).try_cast::<i16>().is_none(), || format!("{:?} cast to i16", b));
                }
            });
        }
    }};
}
macro_rules! fills {
    ($cx:expr, $V:ident, [$($A:literal),*]) => {{
        type V<S> = $V<S, $($A),*>;
        let cx: &mut Cx = $cx;
        let k = <V<f64> as Comp<f64>>::K;
        let n = <V<f64> as Comp<f64>>::name();
        for _ in 0..cx.n(20) {
            let v = if cx.rng.chance(1, 3) { f64::special(&mut cx.rng) } else { cx.rng.val() };
            cx.case(&format!("fill {}", n), [v.to_bits()], true, || format!("{} {}", n, v), |cx| {
                cx.ok(ev(&n, "from-fill"), vexact(&<V<f64>>::from_fill(v).cs(), &vec![v; k]), || format!("{}", v));
                cx.ok(ev(&n, "from-fill-int"), <V<u8>>::from_fill(v as u8).cs() == vec![v as u8; k], || format!("{}", v));
            });
        }
    }};
}
/// zero, is_zero and default; `$zero` names the constructor.
macro_rules! zeros {
    ($cx:expr, $T:ty, $I:ty) => {{
        let cx: &mut Cx = $cx;
        let k = <$T as Comp<f64>>::K;
        let n = <$T as Comp<f64>>::name();
        for round in 0..cx.n(20) {
            let v = match round { 0 => f64::MIN_POSITIVE, 1 => f64::NAN, 2 => 5e-324, 3 => f64::INFINITY, 4 => -1e-17, 5 => 1e-300, 6 => f64::EPSILON, _ => cx.rng.nz() };
            let m = -(round as f64 % 2.0) * 0.0;
            cx.case(&format!("zero {}", n), [v.to_bits()], true, || format!("{} {}", n, v), |cx| {
                let z = <$T>::zero();
                cx.ok(ev(&n, "zero"), z.cs() == vec![0.0; k] && z.is_zero(), || format!("{:?}", z));
                let zi = <$I>::zero();
                cx.ok(ev(&n, "zero-int"), zi.cs() == vec![0; k] && zi.is_zero(), || format!("{:?}", zi));
                for j in 0..k {
                    let mut b = vec![m; k];
                    b[j] = v;
                    cx.ok(ev(&n, "is-zero-one-differs"), !<$T>::mk(&b).is_zero(), || format!("{:?}", b));
                    b[j] = -0.0;
                    cx.ok(ev(&n, "is-zero-signed"), <$T>::mk(&b).is_zero(), || format!("{:?}", b));
                    let mut b = vec![0; k];
                    b[j] = -1;
                    cx.ok(ev(&n, "is-zero-int-one-differs"), !<$I>::mk(&b).is_zero(), || format!("{:?}", b));
                }
                // not zero although components cancel
                if k > 1 { let mut b = vec![v; k]; b[0] = -v; let mut c = vec![0.0; k]; c[round % k] = v; c[(round + 1 + round / k % (k - 1)) % k] = -v; cx.ok(ev(&n, "is-zero-cancel"), !<$T>::mk(&c).is_zero(), || format!("{:?}", c)); cx.ok(ev(&n, "is-zero-cancel"), !<$T>::mk(&b).is_zero(), || format!("{:?}", b)); }
            });
        }
    }};
}
macro_rules! defaults { ($cx:expr, $($T:ty),*) => {{ $( {
    let n = <$T as Comp<f64>>::name();
    $cx.case(&format!("default {}", n), [0], true, || n.clone(), |cx| cx.ok(ev(&n, "default"), <$T>::default().cs() == vec![0.0; <$T as Comp<f64>>::K], || format!("{:?}", <$T>::default())));
} )* }}; }
macro_rules! finite {
    ($cx:expr, $T:ty) => {{
        let cx: &mut Cx = $cx;
        let k = <$T as Comp<f64>>::K;
        let n = <$T as Comp<f64>>::name();
        for _ in 0..cx.n(30) {
            let r = &mut cx.rng;
            let mut a: Vec<f64> = (0..k).map(|_| r.val()).collect();
            if r.chance(1, 4) { let s = *r.pick(&[1e308, 1.7e308, 1e200, 1e160]); for x in a.iter_mut() { *x = s * r.sign(); } }
            if r.chance(1, 4) { let j = r.below(k); a[j] = *r.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -0.0]); }
            cx.case(&format!("finite {}", n), bits(&a), true, || format!("{} {:?}", n, a), |cx| {
                cx.ok(ev(&n, "is-finite"), <$T>::mk(&a).is_finite(), || format!("{:?}", a));
                for j in 0..k {
                    for bad in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                        let mut b = a.clone();
                        b[j] = bad;
                        cx.ok(ev(&n, "not-finite"), !<$T>::mk(&b).is_finite(), || format!("{:?}", b));
                        // two infinities of opposite sign
                        b[(j + 1) % k] = if k > 1 { -bad } else { bad };
                        cx.ok(ev(&n, "not-finite"), !<$T>::mk(&b).is_finite(), || format!("{:?}", b));
                    }
                }
            });
        }
    }};
}
macro_rules! square { ($cx:expr, $($N:literal)*) => {{ $( {
    type M = Matrix<f64, $N, $N>;
    let cx: &mut Cx = $cx;
    let n = M::name();
    for _ in 0..cx.n(30) {
        let r = &mut cx.rng;
        let d: Vec<f64> = (0..$N).map(|_| r.nz()).collect();
        let s: [[f64; $N]; $N] = std::array::from_fn(|_| r.arr(|r| r.nz()));
        let v = *r.pick(&[1e-3, -2.0, 1e9, 0.5, f64::NAN]);
        cx.case(&format!("square {}", n), bits(&d), true, || format!("{} {:?} {:?} {}", n, d, s, v), |cx| {
            let eye: Vec<f64> = refm::flat(&refm::eye::<$N>());
            cx.ok(ev(&n, "identity"), M::identity().cs() == eye && M::identity().is_identity(), || format!("{:?}", M::identity()));
            let diag: Vec<f64> = refm::flat(&std::array::from_fn::<[f64; $N], $N, _>(|c| std::array::from_fn(|q| if c == q { d[c] } else { 0.0 })));
            let sym: [[f64; $N]; $N] = std::array::from_fn(|c| std::array::from_fn(|q| s[c.min(q)][c.max(q)]));
            cx.ok(ev(&n, "from-diagonal"), M::from_diagonal(&Vector::<f64, $N>::mk(&d)).cs() == diag, || format!("{:?}", d));
            cx.ok(ev(&n, "from-diagonal-value"), M::from_diagonal_value(d[0]).cs() == eye.iter().map(|x| x * d[0]).collect::<Vec<_>>(), || format!("{:?}", d));
            cx.ok(ev(&n, "is-diagonal"), M::mk(&diag).is_diagonal(), || format!("{:?}", diag));
            cx.ok(ev(&n, "is-symmetric"), M::from(sym).is_symmetric(), || format!("{:?}", sym));
            cx.ok(ev(&n, "shape"), M::zero().is_square() && M::zero().shape() == ($N, $N) && M::zero().len() == $N * $N, || n.clone());
            for c in 0..$N { for q in 0..$N {
                let mut e = eye.clone();
                e[c * $N + q] += v;
                cx.ok(ev(&n, "is-identity-one-differs"), !M::mk(&e).is_identity(), || format!("{:?}", e));
                if c != q {
                    let mut e = diag.clone();
                    e[c * $N + q] = v;
                    cx.ok(ev(&n, "is-diagonal-one-differs"), !M::mk(&e).is_diagonal(), || format!("{:?}", e));
                    let mut e = sym;
                    e[c][q] = if v.is_nan() { v } else { e[q][c] + e[q][c].abs() * 1e-3 + v.abs() };
                    cx.ok(ev(&n, "is-symmetric-one-differs"), !M::from(e).is_symmetric(), || format!("{:?}", e));
                }
            } }
        });
    }
} )* }}; }
macro_rules! shapes { ($cx:expr, $($R:literal x $C:literal),*) => {{ $(
    $cx.case(concat!("shape ", $R, "x", $C), [$R * 8 + $C], true, || format!("{}x{}", $R, $C), |cx| {
        let m = Matrix::<u8, $R, $C>::from_fill(3);
        cx.ok("matrix:shape", m.shape() == ($R, $C) && m.len() == $R * $C && !m.is_empty() && m.is_square() == ($R == $C), || format!("{:?} {} {}", m.shape(), m.len(), m.is_square()));
    });
)* }}; }
macro_rules! units { ($cx:expr, $T:ty, [$($f:ident $i:literal),*]) => {{
    let n = <$T as Comp<f64>>::name();
    $cx.case(&format!("units {}", n), [1], true, || n.clone(), |cx| {
        $( { let mut w = vec![0.0; <$T as Comp<f64>>::K]; w[$i] = 1.0; cx.ok(ev(&n, stringify!($f)), <$T>::$f().cs() == w, || format!("{:?}", <$T>::$f())); } )*
    });
}}; }

fn predicates(cx: &mut Cx) {
    for _ in 0..cx.n(200) {
        let r = &mut cx.rng;
        let v = if r.chance(1, 10) { f64::MIN_POSITIVE } else { r.nz() };
        let mask = r.below(16);
        let a: [f64; 4] = std::array::from_fn(|i| if mask >> i & 1 == 1 { v } else { *[0.0, -0.0].get(i % 2).unwrap() });
        let one = r.bool();
        cx.case("predicates", bits(&a).into_iter().chain([one as u64]), mask != 0, || format!("{:?} one={}", a, one), |cx| {
            let d = || format!("{:?}", a);
            let q = Quaternion::new(a[0], a[1], a[2], a[3]);
            cx.ok("quaternion:is-pure", q.is_pure() == (a[0] == 0.0), d);
            cx.ok("quaternion:is-real", q.is_real() == (a[1] == 0.0 && a[2] == 0.0 && a[3] == 0.0), d);
            cx.ok("quaternion:is-zero", q.is_zero() == (mask == 0), d);
            let s = if one { 1.0 } else { a[0] };
            let q = Quaternion::new(s, a[1], a[2], a[3]);
            cx.ok("quaternion:is-identity", q.is_identity() == (s == 1.0 && a[1..] == [0.0; 3]), || format!("{} {:?}", s, a));
            let z = Complex::new(a[0], a[1]);
            cx.ok("complex:is-real", z.is_real() == (a[1] == 0.0), d);
            cx.ok("complex:is-imaginary", z.is_imaginary() == (a[0] == 0.0), d);
            cx.ok("complex:is-zero", z.is_zero() == (a[0] == 0.0 && a[1] == 0.0), d);
            let z = Complex::new(s, a[1]);
            cx.ok("complex:is-identity", z.is_identity() == (s == 1.0 && a[1] == 0.0) && z.is_one() == z.is_identity(), || format!("{} {}", s, a[1]));
            cx.ok("quaternion:from-real", Quaternion::from_real(v).cs() == [v, 0.0, 0.0, 0.0], d);
            cx.ok("quaternion:from-pure", Quaternion::from_pure(Vector3::new(a[1], a[2], a[3])).cs() == [0.0, a[1], a[2], a[3]], d);
            cx.ok("complex:from-real", Complex::from_real(v).cs() == [v, 0.0] && Complex::from_imaginary(v).cs() == [0.0, v], d);
            for (x, y) in [(v, f64::NAN), (f64::NAN, v), (v, f64::INFINITY), (f64::NEG_INFINITY, v), (v, v), (f64::INFINITY, f64::INFINITY), (f64::NAN, f64::NAN)] {
                let z = Complex::new(x, y);
                cx.ok("complex:is-nan", z.is_nan() == (x.is_nan() || y.is_nan()), || format!("{} {}", x, y));
                cx.ok("complex:is-infinite", z.is_infinite() == (x.is_infinite() || y.is_infinite()), || format!("{} {}", x, y));
                cx.ok("complex:is-finite", z.is_finite() == (x.is_finite() && y.is_finite()), || format!("{} {}", x, y));
            }
        });
    }
    cx.case("identities", [0], true, String::new, |cx| {
        cx.ok("quaternion:identity", Quaternion::<f64>::identity().cs() == [1.0, 0.0, 0.0, 0.0] && Quaternion::<f64>::one().cs() == [1.0, 0.0, 0.0, 0.0], String::new);
        cx.ok("complex:identity", Complex::<f64>::identity().cs() == [1.0, 0.0] && Complex::<f64>::one().cs() == [1.0, 0.0], String::new);
        cx.ok("point:origin", Point1::<f64>::origin().cs() == [0.0] && Point2::<f64>::origin().cs() == [0.0; 2] && Point3::<f64>::origin().cs() == [0.0; 3], String::new);
    });
}

/// Transformations: equality, copies and text depend on every parameter.
#[cfg(feature = "transform")]
mod transforms {
    use super::*;
    use cglinalg_transform::*;
    fn subject<T: PartialEq + Copy + Display + Debug>(cx: &mut Cx, n: &str, k: usize, mk: impl Fn(&[f64]) -> T, extra: &dyn Fn(&[f64]) -> Vec<f64>) {
        for _ in 0..cx.n(40) {
            let a = distinct(&mut cx.rng, k);
            let d = *cx.rng.pick(&[0.5, 1e-9, -3.0, f64::NAN]);
            cx.case(&format!("transform {}", n), bits(&a), true, || format!("{} {:?} {}", n, a, d), |cx| {
                let x = mk(&a);
                cx.ok(ev(n, "eq-same"), x == mk(&a), || format!("{:?}", a));
                for j in 0..k {
                    let mut b = a.clone();
                    b[j] += d;
                    cx.ok(ev(n, "eq-one-differs"), x != mk(&b) && mk(&b) != x, || format!("{:?} vs {:?}", a, b));
                }
                shown(cx, n, &x.to_string(), &extra(&a), false);
            });
        }
    }
    pub fn all(cx: &mut Cx) {
        let id = |a: &[f64]| a.to_vec();
        subject(cx, "translation2", 2, |a| Translation2::new(a[0], a[1]), &id);
        subject(cx, "translation3", 3, |a| Translation3::new(a[0], a[1], a[2]), &id);
        subject(cx, "scale2", 2, |a| Scale2::new(a[0], a[1]), &id);
        subject(cx, "scale3", 3, |a| Scale3::new(a[0], a[1], a[2]), &id);
        let un = |a: &[f64]| Unit::from_value_unchecked(Vector3::new(a[0], a[1], a[2]));
        let un2 = |a: &[f64]| Unit::from_value_unchecked(Vector2::new(a[0], a[1]));
        subject(cx, "shear2", 7, |a| Shear2::from_affine_shear(a[0], &Point2::new(a[1], a[2]), &un2(&a[3..]), &un2(&a[5..])), &id);
        subject(cx, "shear3", 10, |a| Shear3::from_affine_shear(a[0], &Point3::new(a[1], a[2], a[3]), &un(&a[4..]), &un(&a[7..])), &id);
        subject(cx, "reflection2", 4, |a| Reflection2::from_normal_bias(&un2(a), &Point2::new(a[2], a[3])), &id);
        subject(cx, "reflection3", 6, |a| Reflection3::from_normal_bias(&un(a), &Point3::new(a[3], a[4], a[5])), &id);
        subject(cx, "transform2", 9, |a| Transform2::from_matrix_unchecked(Matrix3x3::mk(a)), &id);
        subject(cx, "transform3", 16, |a| Transform3::from_matrix_unchecked(Matrix4x4::mk(a)), &id);
        // angles are the only rotation parameters here: perturbing by 1e-9 must still differ
        let rot = |a: f64| Rotation2::from_angle(Radians(a * 1e-3));
        subject(cx, "rotation2", 1, |a| rot(a[0]), &|_| vec![]);
        subject(cx, "rotation3", 1, |a| Rotation3::from_angle_x(Radians(a[0] * 1e-3)), &|_| vec![]);
        subject(cx, "isometry2", 3, |a| Isometry2::from_parts(&Translation2::new(a[1], a[2]), &rot(a[0])), &|a| a[1..].to_vec());
        subject(cx, "isometry3", 4, |a| Isometry3::from_parts(&Translation3::new(a[1], a[2], a[3]), &Rotation3::from_angle_z(Radians(a[0] * 1e-3))), &|a| a[1..].to_vec());
        subject(cx, "similarity2", 4, |a| Similarity2::from_parts(&Translation2::new(a[1], a[2]), &rot(a[0]), a[3]), &|a| a[1..].to_vec());
        subject(cx, "similarity3", 5, |a| Similarity3::from_parts(&Translation3::new(a[1], a[2], a[3]), &Rotation3::from_angle_y(Radians(a[0] * 1e-3)), a[4]), &|a| a[1..].to_vec());
        for (n, o) in [("perspective", false), ("orthographic", true)] {
            for _ in 0..cx.n(40) {
                let a: Vec<f64> = { let r = &mut cx.rng; let (x, y) = (r.range(-9.0, -1.0), r.range(-9.0, -1.0)); let z = r.range(0.1, 2.0); vec![x, x + r.range(2.0, 20.0), y, y + r.range(2.0, 20.0), z, z + r.range(1.0, 99.0)] };
                cx.case(n, bits(&a), true, || format!("{:?}", a), |cx| {
                    for j in 0..7 {
                        let mut b = a.clone();
                        if j < 6 { b[j] *= 1.001; }
                        let eq = if o { Orthographic3::new(a[0], a[1], a[2], a[3], a[4], a[5]) == Orthographic3::new(b[0], b[1], b[2], b[3], b[4], b[5]) }
                            else { Perspective3::new(a[0], a[1], a[2], a[3], a[4], a[5]) == Perspective3::new(b[0], b[1], b[2], b[3], b[4], b[5]) };
                        cx.ok(ev(n, "eq"), eq == (j == 6), || format!("{:?} {:?}", a, b));
                    }
                });
            }
        }
        cx.require(&["translation3:eq-one-differs", "similarity3:display-each-once", "perspective:eq"]);
    }
}

macro_rules! every { ($cx:expr, $f:ident; [$($T:ty),*]) => { $( $f::<$T>($cx); )* }; }
macro_rules! matrices { ($m:ident, $cx:expr) => { $m!($cx, Matrix, [1, 1]); $m!($cx, Matrix, [1, 2]); $m!($cx, Matrix, [1, 3]); $m!($cx, Matrix, [1, 4]); $m!($cx, Matrix, [2, 1]); $m!($cx, Matrix, [3, 1]); $m!($cx, Matrix, [4, 1]);
    $m!($cx, Matrix, [2, 2]); $m!($cx, Matrix, [2, 3]); $m!($cx, Matrix, [2, 4]); $m!($cx, Matrix, [3, 2]); $m!($cx, Matrix, [3, 3]); $m!($cx, Matrix, [3, 4]); $m!($cx, Matrix, [4, 2]); $m!($cx, Matrix, [4, 3]); $m!($cx, Matrix, [4, 4]); $m!($cx, Matrix, [2, 5]);
    $m!($cx, Vector, [1]); $m!($cx, Vector, [2]); $m!($cx, Vector, [3]); $m!($cx, Vector, [4]); $m!($cx, Vector, [5]); $m!($cx, Vector, [9]); $m!($cx, Point, [5]); $m!($cx, Matrix, [9, 2]); $m!($cx, Matrix, [2, 9]); $m!($cx, Matrix, [5, 5]); $m!($cx, Point, [1]); $m!($cx, Point, [2]); $m!($cx, Point, [3]); $m!($cx, Quaternion, []); }; }
macro_rules! zm { ($cx:expr, $($R:literal x $C:literal),*) => { $( zeros!($cx, Matrix<f64, $R, $C>, Matrix<i32, $R, $C>); finite!($cx, Matrix<f64, $R, $C>); )* }; }

fn main() {
    let mut c = Cx::new("C28", "vectors 1-5, points 1-3, matrices of 17 shapes, quaternions, complex numbers, angles, Euler angles, unit values and all transformation types; each component position perturbed alone (values, one ulp, NaN, infinities, signed zeros, uncastable values); recorded map calls and hasher input; non-trivial: some component perturbed");
    let cx = &mut c;
    every!(cx, equality; [Vector<f64, 1>, Vector<f64, 2>, Vector<f64, 3>, Vector<f64, 4>, Vector<f64, 5>, Vector<f64, 9>, Point<f64, 1>, Point<f64, 2>, Point<f64, 3>, Point<f64, 5>, Matrix<f64, 9, 2>, Matrix<f64, 2, 9>, Matrix<f64, 5, 5>, Quaternion<f64>, Complex<f64>, Euler<Radians<f64>>, Radians<f64>, Degrees<f64>,
        Matrix<f64, 1, 1>, Matrix<f64, 2, 2>, Matrix<f64, 3, 3>, Matrix<f64, 4, 4>, Matrix<f64, 1, 4>, Matrix<f64, 2, 3>, Matrix<f64, 3, 2>, Matrix<f64, 4, 3>, Matrix<f64, 3, 4>, Matrix<f64, 2, 4>, Matrix<f64, 4, 2>]);
    every!(cx, hashing; [Vector<i32, 1>, Vector<i32, 2>, Vector<i32, 3>, Vector<i32, 4>, Vector<i32, 5>, Vector<i32, 9>, Point<i32, 5>, Matrix<i32, 9, 2>, Matrix<i32, 2, 9>, Matrix<i32, 5, 5>, Point<i32, 1>, Point<i32, 2>, Point<i32, 3>, Quaternion<i32>, Complex<i32>, Euler<Radians<i32>>, Radians<i32>, Degrees<i32>,
        Matrix<i32, 1, 1>, Matrix<i32, 2, 2>, Matrix<i32, 3, 3>, Matrix<i32, 4, 4>, Matrix<i32, 1, 4>, Matrix<i32, 2, 3>, Matrix<i32, 3, 2>, Matrix<i32, 4, 3>, Matrix<i32, 3, 4>]);
    every!(cx, display; [Vector<f64, 1>, Vector<f64, 2>, Vector<f64, 3>, Vector<f64, 4>, Vector<f64, 5>, Vector<f64, 9>, Point<f64, 5>, Matrix<f64, 9, 2>, Matrix<f64, 2, 9>, Point<f64, 1>, Point<f64, 2>, Point<f64, 3>, Quaternion<f64>, Complex<f64>, Radians<f64>, Degrees<f64>,
        Matrix<f64, 1, 1>, Matrix<f64, 2, 2>, Matrix<f64, 3, 3>, Matrix<f64, 4, 4>, Matrix<f64, 1, 4>, Matrix<f64, 2, 3>, Matrix<f64, 3, 2>, Matrix<f64, 4, 3>, Matrix<f64, 3, 4>, Matrix<f64, 2, 4>, Matrix<f64, 4, 2>, Euler<Radians<f64>>]);
    matrices!(numeric, cx);
    numeric!(cx, Complex, []);
    matrices!(fills, cx);
    zm!(cx, 1 x 1, 1 x 2, 1 x 3, 1 x 4, 2 x 2, 2 x 3, 2 x 4, 3 x 2, 3 x 3, 3 x 4, 4 x 2, 4 x 3, 4 x 4, 5 x 5, 9 x 2, 2 x 9, 1 x 9, 3 x 1);
    zeros!(cx, Vector<f64, 1>, Vector<i32, 1>);
    zeros!(cx, Vector<f64, 2>, Vector<i32, 2>);
    zeros!(cx, Vector<f64, 3>, Vector<i32, 3>);
    zeros!(cx, Vector<f64, 4>, Vector<i32, 4>);
    zeros!(cx, Vector<f64, 5>, Vector<i32, 5>);
    zeros!(cx, Vector<f64, 9>, Vector<i32, 9>);
    zeros!(cx, Quaternion<f64>, Quaternion<i32>);
    zeros!(cx, Complex<f64>, Complex<i32>);
    zeros!(cx, Radians<f64>, Radians<i32>);
    zeros!(cx, Degrees<f64>, Degrees<i32>);
    for _ in 0..cx.n(20) {
        let a: [f64; 3] = { let m = cx.rng.below(8); let v = cx.rng.nz(); std::array::from_fn(|i| if m >> i & 1 == 1 { v * cx.rng.sign() } else { 0.0 }) };
        cx.case("zero euler", bits(&a), true, || format!("{:?}", a), |cx| {
            cx.ok("euler:is-zero", Euler::<Radians<f64>>::mk(&a).is_zero() == (a == [0.0; 3]) && Euler::new(Degrees(a[0]), Degrees(a[1]), Degrees(a[2])).is_zero() == (a == [0.0; 3]), || format!("{:?}", a));
            cx.ok("euler:zero", Euler::<Radians<f64>>::zero().cs() == [0.0; 3], || format!("{:?}", Euler::<Radians<f64>>::zero()));
        });
    }
    finite!(cx, Vector<f64, 1>);
    finite!(cx, Vector<f64, 2>);
    finite!(cx, Vector<f64, 3>);
    finite!(cx, Vector<f64, 4>);
    finite!(cx, Vector<f64, 5>);
    finite!(cx, Vector<f64, 9>);
    finite!(cx, Quaternion<f64>);
    finite!(cx, Complex<f64>);
    finite!(cx, Radians<f64>);
    finite!(cx, Degrees<f64>);
    defaults!(cx, Vector<f64, 1>, Vector<f64, 2>, Vector<f64, 3>, Vector<f64, 4>, Point<f64, 1>, Point<f64, 2>, Point<f64, 3>, Quaternion<f64>, Complex<f64>, Radians<f64>, Degrees<f64>, Matrix<f64, 2, 2>, Matrix<f64, 3, 3>, Matrix<f64, 4, 4>, Matrix<f64, 2, 3>, Matrix<f64, 4, 3>);
    square!(cx, 1 2 3 4 5 6 9);
    shapes!(cx, 1 x 1, 1 x 2, 1 x 3, 1 x 4, 2 x 1, 2 x 2, 2 x 3, 2 x 4, 3 x 1, 3 x 2, 3 x 3, 3 x 4, 4 x 1, 4 x 2, 4 x 3, 4 x 4);
    units!(cx, Vector<f64, 1>, [unit_x 0]);
    units!(cx, Vector<f64, 2>, [unit_x 0, unit_y 1]);
    units!(cx, Vector<f64, 3>, [unit_x 0, unit_y 1, unit_z 2]);
    units!(cx, Vector<f64, 4>, [unit_x 0, unit_y 1, unit_z 2, unit_w 3]);
    units!(cx, Quaternion<f64>, [unit_s 0, unit_x 1, unit_y 2, unit_z 3]);
    units!(cx, Complex<f64>, [unit_re 0, unit_im 1]);
    predicates(cx);
    // unit values show and compare as what they wrap
    for _ in 0..cx.n(30) {
        let a = distinct(&mut cx.rng, 3);
        cx.case("unit", bits(&a), true, || format!("{:?}", a), |cx| {
            let u = |a: &[f64]| Unit::from_value_unchecked(Vector::<f64, 3>::mk(a));
            shown(cx, "unit", &u(&a).to_string(), &a, true);
            for j in 0..3 { let mut b = a.clone(); b[j] += 1e-6; cx.ok("unit:eq-one-differs", u(&a) != u(&b), || format!("{:?} {:?}", a, b)); }
            cx.ok("unit:eq-same", u(&a) == u(&a), || format!("{:?}", a));
        });
    }
    cx.require(&["vector4:map", "matrix4x4:cast-one-fails", "quaternion:hash-every-component", "complex:display-order", "matrix3x4:not-finite", "euler:is-zero"]);
    #[cfg(feature = "transform")]
    transforms::all(cx);
    c.finish();
}
