//! Shared pieces of the cglinalg_core monitors.
pub use cglinalg_core::*;
pub use cglinalg_numeric::{SimdScalar, SimdScalarSigned};
pub use cglinalg_trigonometry::{Angle, Degrees, Radians};
pub use mon::refm;
pub use mon::{bits, maxabs, Cx, Rng};
use std::fmt::Debug;
pub mod views;

#[cfg(feature = "transform")]
pub mod tr;

/// A scalar type with workload generation. Integer arithmetic wraps (the harness is built with
/// overflow checks off), so ring identities hold exactly on full-range integers and do not depend
/// on the order of evaluation; floating workloads for sums of products use small integers.
pub trait Sc: SimdScalar + Debug + 'static {
    const NAME: &'static str;
    const FLOAT: bool;
    /// Full range for integers, mixed classes for floats.
    fn gen(r: &mut Rng) -> Self;
    /// Full range for integers, small integer values for floats: sums of products are exact.
    fn exact(r: &mut Rng) -> Self;
    /// Non-zero divisor (never -1, so that MIN / -1 cannot occur).
    fn divisor(r: &mut Rng) -> Self;
    fn key(self) -> u64;
    /// Machine epsilon, zero for integers.
    fn eps() -> f64;
    fn to_f(self) -> f64;
    fn from_f(x: f64) -> Self;
    fn same(self, o: Self) -> bool;
    /// Equal up to a few units in the last place.
    fn close(self, o: Self) -> bool;
    /// The same bits (all NaNs are one value).
    fn exactly(self, o: Self) -> bool;
    /// A value where the arithmetic of the type is special: zeros of both signs, extremes, infinities, NaN.
    fn special(r: &mut Rng) -> Self;
}

macro_rules! sc_int {
    ($($t:ident)*) => {$( impl Sc for $t {
        const NAME: &'static str = stringify!($t);
        const FLOAT: bool = false;
        fn gen(r: &mut Rng) -> Self {
            match r.below(8) {
                0 => 0,
                1 => 1,
                2 | 3 => r.below(20) as $t,
                4 => <$t>::MAX - (r.below(3) as $t),
                5 => <$t>::MIN + (r.below(3) as $t),
                _ => r.u128() as $t,
            }
        }
        fn exact(r: &mut Rng) -> Self { Self::gen(r) }
        fn eps() -> f64 { 0.0 }
        fn divisor(r: &mut Rng) -> Self { loop { let v = Self::gen(r); if v != 0 && v.wrapping_add(1) != 0 { return v; } } }
        fn key(self) -> u64 { self as u64 ^ ((self as u128) >> 64) as u64 }
        fn to_f(self) -> f64 { self as f64 }
        fn from_f(x: f64) -> Self { x as Self }
        fn same(self, o: Self) -> bool { self == o }
        fn close(self, o: Self) -> bool { self == o }
        fn exactly(self, o: Self) -> bool { self == o }
        fn special(r: &mut Rng) -> Self { *r.pick(&[0, 1, 2, <$t>::MAX, <$t>::MIN, <$t>::MAX / 2, <$t>::MAX / 2 + 1]) }
    } )*};
}
sc_int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

macro_rules! sc_float {
    ($($t:ident $tol:expr;)*) => {$( impl Sc for $t {
        const NAME: &'static str = stringify!($t);
        const FLOAT: bool = true;
        fn gen(r: &mut Rng) -> Self {
            match r.below(20) {
                0 => -0.0,
                1 => <$t>::MIN_POSITIVE,
                2 => r.mag(1e-20, 1e20) as $t,
                _ => r.val() as $t,
            }
        }
        fn exact(r: &mut Rng) -> Self {
            // multiples of 1/8 below 3000/8: products of four factors are exact in f64
            match r.below(8) { 0 => 0.0, 1 if Self::NAME == "f64" => r.int(-375, 375) as $t, 2 if Self::NAME == "f64" => r.int(-3000, 3000) as $t / 8.0, 3 => r.int(-4, 4) as $t, _ => r.int(-40, 40) as $t }
        }
        fn eps() -> f64 { <$t>::EPSILON as f64 }
        fn divisor(r: &mut Rng) -> Self { r.nz() as $t }
        fn key(self) -> u64 { self.to_bits() as u64 }
        fn to_f(self) -> f64 { self as f64 }
        fn from_f(x: f64) -> Self { x as Self }
        fn same(self, o: Self) -> bool { self == o || (self.is_nan() && o.is_nan()) }
        fn close(self, o: Self) -> bool { self.same(o) || o.is_finite() && (self - o).abs() <= $tol * o.abs() }
        fn exactly(self, o: Self) -> bool { self.to_bits() == o.to_bits() || (self.is_nan() && o.is_nan()) }
        fn special(r: &mut Rng) -> Self {
            *r.pick(&[0.0, -0.0, 1.0, -1.0, <$t>::MAX, <$t>::MIN, <$t>::MIN_POSITIVE, -<$t>::MIN_POSITIVE, <$t>::EPSILON, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN, <$t>::from_bits(1), -<$t>::from_bits(3)])
        }
    } )*};
}
sc_float!(f32 1e-6; f64 4e-15;);

pub fn keys<T: Sc, const N: usize>(a: &[T; N]) -> Vec<u64> { a.iter().map(|x| x.key()).collect() }
pub fn gens<T: Sc, const N: usize>(r: &mut Rng) -> [T; N] { std::array::from_fn(|_| T::gen(r)) }
pub fn exacts<T: Sc, const N: usize>(r: &mut Rng) -> [T; N] { std::array::from_fn(|_| T::exact(r)) }
pub fn mats<T: Sc, const R: usize, const C: usize>(r: &mut Rng) -> [[T; R]; C] { std::array::from_fn(|_| gens(r)) }
pub fn exmats<T: Sc, const R: usize, const C: usize>(r: &mut Rng) -> [[T; R]; C] { std::array::from_fn(|_| exacts(r)) }
pub fn mkeys<T: Sc, const R: usize, const C: usize>(a: &[[T; R]; C]) -> Vec<u64> { a.iter().flat_map(|c| c.iter().map(|x| x.key())).collect() }

/// Componentwise comparison of a value, viewed as a slice, with the model.
pub fn vsame<T: Sc>(got: &[T], want: &[T]) -> bool { got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.same(*b)) }
/// A sum of products of general floats: within a few units in the last place of the sum of the magnitudes (`terms` are exact factors).
pub fn sum_ok<T: Sc>(got: T, terms: &[(T, T)]) -> bool {
    let t: Vec<f64> = terms.iter().map(|(a, b)| a.to_f() * b.to_f()).collect();
    let (w, m) = (t.iter().sum::<f64>(), t.iter().map(|x| x.abs()).sum::<f64>());
    let max = if T::NAME == "f32" { 1e37 } else { 1e300 };
    // infinities and NaN propagate as in any order of summation
    if terms.iter().any(|(a, b)| !a.to_f().is_finite() || !b.to_f().is_finite()) {
        let fin = t.iter().filter(|x| x.is_finite()).map(|x| x.abs()).sum::<f64>();
        return fin > max || if w.is_nan() { got.to_f().is_nan() } else if w.is_infinite() { got.to_f() == w } else { true };
    }
    m > max || (got.to_f() - w).abs() <= 4.0 * t.len() as f64 * (T::eps() * m + if T::NAME == "f32" { 1e-44 } else { 1e-320 })
}
/// A general float pair of comparable size, now and then of very different sizes.
pub fn wide_finite<T: Sc, const N: usize>(r: &mut Rng) -> [T; N] {
    match r.below(6) {
        0 | 1 => gens(r),
        // all of a kind: tiny or huge
        2 => { let k = if T::NAME == "f32" { r.range(-12.0, 12.0) } else { r.range(-60.0, 60.0) }; let k = 10f64.powf(k); r.vals::<N>().map(|x| T::from_f(x * k)) }
        _ => r.vals::<N>().map(|x| T::from_f(x)),
    }
}
/// The same, now and then with a component that is not finite.
pub fn wide<T: Sc, const N: usize>(r: &mut Rng) -> [T; N] {
    let mut v = wide_finite(r);
    if r.chance(1, 30) { let i = r.below(N); v[i] = T::from_f(*r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN])); }
    v
}
pub fn vexact<T: Sc>(got: &[T], want: &[T]) -> bool { got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.exactly(*b)) }
/// Components of any kind, with `k` in 8 of them special, and now and then equal or opposite to the matching one of `near`.
pub fn specials<T: Sc, const N: usize>(r: &mut Rng, near: Option<&[T; N]>) -> [T; N] {
    std::array::from_fn(|i| match (r.below(8), near) { (0, Some(a)) => a[i], (1, Some(a)) => T::zero() - a[i], (2..=5, _) => T::special(r), _ => T::gen(r) })
}
pub fn vclose<T: Sc>(got: &[T], want: &[T]) -> bool { got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.close(*b)) }

pub fn vs<T: Sc, const N: usize>(v: &Vector<T, N>) -> Vec<T> { (0..N).map(|i| v[i]).collect() }
pub fn ps<T: Sc, const N: usize>(v: &Point<T, N>) -> Vec<T> { (0..N).map(|i| v[i]).collect() }
pub fn ms<T: Sc, const R: usize, const C: usize>(m: &Matrix<T, R, C>) -> Vec<T> { (0..C).flat_map(|c| (0..R).map(move |r| (c, r))).map(|(c, r)| m[c][r]).collect() }
pub fn flat<T: Copy, const R: usize, const C: usize>(m: &[[T; R]; C]) -> Vec<T> { m.iter().flat_map(|c| c.iter().copied()).collect() }

// f64 shorthands for the geometric monitors
pub fn va<S: Copy + Into<f64>, const N: usize>(v: &Vector<S, N>) -> [f64; N] { std::array::from_fn(|i| v[i].into()) }
pub fn pa<S: Copy + Into<f64>, const N: usize>(v: &Point<S, N>) -> [f64; N] { std::array::from_fn(|i| v[i].into()) }
pub fn ma<S: Copy + Into<f64>, const R: usize, const C: usize>(m: &Matrix<S, R, C>) -> [[f64; R]; C] { std::array::from_fn(|c| std::array::from_fn(|r| m[c][r].into())) }
pub fn qa<S: cglinalg_numeric::SimdScalar + Into<f64>>(q: &Quaternion<S>) -> [f64; 4] { std::array::from_fn(|i| q[i].into()) }
pub fn unit3(d: [f64; 3]) -> Unit<Vector3<f64>> { Unit::from_value(Vector3::from(d)) }
pub fn unit2(d: [f64; 2]) -> Unit<Vector2<f64>> { Unit::from_value(Vector2::from(d)) }

/// Runs a generic monitor function for every scalar type.
#[macro_export]
macro_rules! all_scalars { ($cx:expr, $f:ident $(::<$($g:tt),*>)?) => { $crate::all_scalars!(@ $cx, $f, [u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64] $(, $($g),*)?) };
    (@ $cx:expr, $f:ident, [$($t:ident)*]) => { $( $f::<$t>($cx); )* }; }

/// The same computation in both precisions, on operands single precision holds exactly: the results agree to the digits of single precision.
#[macro_export]
macro_rules! both { ($cx:expr, $ev:expr, $tol:expr, $desc:expr, $body:block) => {{
    let g: Vec<f32> = { #[allow(dead_code)] type S = f32; $body };
    let w: Vec<f64> = { #[allow(dead_code)] type S = f64; $body };
    let m = w.iter().fold(0f64, |a, x| a.max(x.abs()));
    if w.iter().all(|x| x.is_finite()) && m < 1e4 {
        let (g, t): (Vec<f64>, f64) = (g.iter().map(|x| *x as f64).collect(), $tol * m);
        $cx.near($ev, &g, &w, t, || format!("single precision against double; {}", $desc()));
    }
}}; }
/// Components between 1/4 and 4 with either sign, exactly representable in single precision.
pub fn singles<const N: usize>(r: &mut Rng) -> [f64; N] { std::array::from_fn(|_| (r.mag(0.25, 4.0) as f32) as f64) }
