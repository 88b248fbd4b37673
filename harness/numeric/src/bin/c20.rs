//! C20: the scalar abstraction equals the primitive it wraps; casts preserve, truncate or refuse.
use cglinalg_numeric::{cast, try_cast, SimdScalar, SimdScalarBounded, SimdScalarCmp, SimdScalarFloat, SimdScalarOrd, SimdScalarSigned};
use mon::{Cx, Rng};
use std::fmt::Debug;

#[derive(Copy, Clone, Debug, PartialEq)]
enum Num { I(i128), U(u128), F(f64) }

trait Prim: SimdScalar + Debug + PartialEq + 'static {
    const NAME: &'static str;
    const FLOAT: bool;
    fn num(self) -> Num;
    /// Reference conversion from an exact number.
    fn of(n: Num) -> Option<Self>;
    fn gen(r: &mut Rng) -> Self;
    fn specials() -> Vec<Self>;
    fn same(self, o: Self) -> bool;
}

macro_rules! prim_int {
    ($($t:ident)*) => {$(
        impl Prim for $t {
            const NAME: &'static str = stringify!($t);
            const FLOAT: bool = false;
            fn num(self) -> Num { if <$t>::MIN == 0 { Num::U(self as u128) } else { Num::I(self as i128) } }
            fn of(n: Num) -> Option<Self> {
                match n {
                    Num::I(i) => <$t>::try_from(i).ok(),
                    Num::U(u) => <$t>::try_from(u).ok(),
                    Num::F(f) => {
                        // exact: every finite f64 truncates to an integer; compare against the exact bounds
                        if !f.is_finite() { return None; }
                        let t = f.trunc();
                        let bits = <$t>::BITS - if <$t>::MIN == 0 { 0 } else { 1 };
                        let hi = 2f64.powi(bits as i32); // exclusive
                        let lo = if <$t>::MIN == 0 { 0.0 } else { -hi }; // inclusive
                        if t >= lo && t < hi { Some(t as $t) } else { None }
                    }
                }
            }
            fn gen(r: &mut Rng) -> Self {
                let x = r.u128() as $t;
                // vary the magnitude
                let s = r.below(<$t>::BITS as usize) as u32;
                x >> s
            }
            fn specials() -> Vec<Self> {
                let mut v = vec![<$t>::MIN, <$t>::MAX, <$t>::MIN.wrapping_add(1), <$t>::MAX - 1, 0, 1, 2, (0 as $t).wrapping_sub(1), (0 as $t).wrapping_sub(2)];
                for b in 0..<$t>::BITS {
                    let p = (1 as $t).wrapping_shl(b);
                    v.extend([p, p.wrapping_sub(1), p.wrapping_add(1), (0 as $t).wrapping_sub(p), (0 as $t).wrapping_sub(p).wrapping_sub(1)]);
                }
                v
            }
            fn same(self, o: Self) -> bool { self == o }
        }
    )*};
}
prim_int!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);

macro_rules! prim_float {
    ($($t:ident)*) => {$(
        impl Prim for $t {
            const NAME: &'static str = stringify!($t);
            const FLOAT: bool = true;
            fn num(self) -> Num { Num::F(self as f64) }
            fn of(n: Num) -> Option<Self> { Some(match n { Num::I(i) => i as $t, Num::U(u) => u as $t, Num::F(f) => f as $t }) }
            fn gen(r: &mut Rng) -> Self {
                match r.below(6) {
                    0 => r.val() as $t,
                    1 => r.range(-300.0, 300.0) as $t,
                    2 => r.mag(1e-6, 1e20) as $t,
                    3 => (r.int(-200, 70000) as f64 + *r.pick(&[0.0, 0.25, 0.5, 0.999, 0.001])) as $t,
                    4 => { let e = r.int(0, 127) as i32; (r.sign() * 2f64.powi(e) + r.int(-2, 2) as f64) as $t }
                    _ => <$t>::from_bits(r.u64() as _),
                }
            }
            fn specials() -> Vec<Self> {
                let mut v: Vec<$t> = vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.999, -0.999, 1.5, -1.5, 2.5, -2.5, 127.5, 128.0, -128.5, -128.99, -129.0, 255.5, 256.0, 255.999,
                    <$t>::MIN, <$t>::MAX, <$t>::EPSILON, <$t>::MIN_POSITIVE, <$t>::MIN_POSITIVE / 4.0, <$t>::NAN, <$t>::INFINITY, <$t>::NEG_INFINITY];
                for b in [7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 63, 64, 126, 127] {
                    let p = (2.0 as $t).powi(b);
                    v.extend([p, -p, p - 1.0, -p - 1.0, p - 0.5, -p + 0.5, p * (1.0 - <$t>::EPSILON), -p * (1.0 + <$t>::EPSILON)]);
                }
                v
            }
            fn same(self, o: Self) -> bool { self == o || (self.is_nan() && o.is_nan()) }
        }
    )*};
}
prim_float!(f32 f64);

fn cast_pair<A: Prim, B: Prim>(cx: &mut Cx) {
    let mut vals = A::specials();
    for _ in 0..cx.n(120) { vals.push(A::gen(&mut cx.rng)); }
    let tag = format!("cast {}->{}", A::NAME, B::NAME);
    for v in vals {
        let n = v.num();
        let h = match n { Num::I(i) => i as u64 ^ (i >> 64) as u64, Num::U(u) => u as u64 ^ (u >> 64) as u64, Num::F(f) => f.to_bits() };
        cx.case(&tag, [h], v != A::zero(), || format!("{:?}", v), |cx| {
            let want = B::of(n);
            let got: Option<B> = try_cast(v);
            // narrowing of an out-of-range finite float is left to the primitive conversion
            let ok = match (got, want) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false };
            let skip = A::FLOAT && B::FLOAT && matches!((n, want), (Num::F(f), Some(w)) if f.is_finite() && !matches!(w.num(), Num::F(x) if x.is_finite()));
            if !skip {
                cx.ok("try-cast", ok, || format!("{} of {:?}: got {:?}, want {:?}", tag, v, got, want));
                if want.is_none() {
                    cx.panics("cast-refuses", || format!("{} of {:?}", tag, v), || { let _: B = cast(v); });
                } else {
                    let c: B = cast(v);
                    cx.ok("cast", c.same(want.unwrap()), || format!("{} of {:?}: got {:?}, want {:?}", tag, v, c, want));
                }
            }
        });
    }
}

macro_rules! casts_from { ($cx:ident, $a:ident, [$($b:ident)*]) => { $( cast_pair::<$a, $b>($cx); )* }; }
macro_rules! casts { ($cx:ident, [$($a:ident)*], $bs:tt) => { $( casts_from!($cx, $a, $bs); )* }; }

macro_rules! signed_int {
    ($cx:ident, $($t:ident)*) => {$({
        let mut vals = <$t as Prim>::specials();
        for _ in 0..$cx.n(100) { vals.push(<$t as Prim>::gen(&mut $cx.rng)); }
        let tag = concat!("signed ", stringify!($t));
        let vs = vals.clone();
        let core: [$t; 9] = [<$t>::MIN, <$t>::MAX, <$t>::MIN + 1, <$t>::MAX - 1, 0, 1, 2, -1, -2];
        let mut todo: Vec<($t, $t, $t)> = Vec::new();
        for (i, &v) in vals.iter().enumerate() { todo.push((v, vs[(i * 7 + 3) % vs.len()], vs[(i * 5 + 1) % vs.len()])); }
        for &v in &core { for &w in &core { for &z in &core { todo.push((v, w, z)); } } }
        for (v, w, z) in todo {
            $cx.case(tag, [v as u64, w as u64], true, || format!("{:?} {:?} {:?}", v, w, z), |cx| {
                let d = || format!("{} v={:?} w={:?} z={:?}", tag, v, w, z);
                cx.eq("is-sign-positive", SimdScalarSigned::is_sign_positive(v), v > 0, d);
                cx.eq("is-sign-negative", SimdScalarSigned::is_sign_negative(v), v < 0, d);
                cx.eq("signum", SimdScalarSigned::signum(v), if v > 0 { 1 } else if v < 0 { -1 } else { 0 }, d);
                if v != <$t>::MIN {
                    let a = if v < 0 { -v } else { v };
                    cx.eq("abs", SimdScalarSigned::abs(v), a, d);
                    cx.eq("copysign", SimdScalarSigned::copysign(v, w), if w >= 0 { a } else { -a }, d);
                }
                cx.eq("max", SimdScalarOrd::max(v, w), if v > w { v } else { w }, d);
                cx.eq("min", SimdScalarOrd::min(v, w), if v < w { v } else { w }, d);
                let (lo, hi) = if w <= z { (w, z) } else { (z, w) };
                cx.eq("clamp", SimdScalarOrd::clamp(v, lo, hi), if v < lo { lo } else if v > hi { hi } else { v }, d);
                cx.eq("min-value", <$t as SimdScalarBounded>::min_value(), <$t>::MIN, d);
                cx.eq("max-value", <$t as SimdScalarBounded>::max_value(), <$t>::MAX, d);
            });
        }
    })*};
}

macro_rules! float {
    ($cx:ident, $($t:ident $tol:expr;)*) => {$({
        let mut vals = <$t as Prim>::specials();
        for _ in 0..$cx.n(400) { vals.push(<$t as Prim>::gen(&mut $cx.rng)); }
        for _ in 0..$cx.n(400) { vals.push($cx.rng.range(-3.0, 3.0) as $t); }
        let top = (<$t>::MAX as f64).ln();
        for _ in 0..$cx.n(300) { let u = $cx.rng.range(-1.6, 1.6); vals.push((u * top) as $t); }
        for _ in 0..$cx.n(200) { vals.push($cx.rng.mag(1e-30, 1e-3) as $t); }
        for _ in 0..$cx.n(100) { let m = $cx.rng.mag(1e-16, 1e-3); vals.push(($cx.rng.sign() * (1.0 + m)) as $t); }
        let tag = concat!("float ", stringify!($t));
        let vs = vals.clone();
        for (i, &v) in vals.iter().enumerate() {
            let w = vs[(i * 7 + 3) % vs.len()];
            let z = vs[(i * 5 + 1) % vs.len()];
            $cx.case(tag, [v.to_bits() as u64, w.to_bits() as u64], true, || format!("{:?} {:?} {:?}", v, w, z), |cx| {
                let d = || format!("{} v={:?} w={:?} z={:?}", tag, v, w, z);
                let same = |a: $t, b: $t| a == b || (a.is_nan() && b.is_nan());
                let close = |a: $t, b: $t| same(a, b) || (a - b).abs() <= $tol * b.abs().max(a.abs()) + <$t>::MIN_POSITIVE * 4.0;
                macro_rules! ex { ($ev:literal, $got:expr, $want:expr) => {{ let (g, w): ($t, $t) = ($got, $want); cx.ok($ev, same(g, w), || format!("got {:?}, want {:?}; {}", g, w, d())); }}; }
                macro_rules! cl { ($ev:literal, $got:expr, $want:expr) => {{ let (g, w): ($t, $t) = ($got, $want); cx.ok($ev, close(g, w), || format!("got {:?}, want {:?}; {}", g, w, d())); }}; }
                // signed
                cx.eq("is-sign-positive", SimdScalarSigned::is_sign_positive(v), v.is_sign_positive(), d);
                cx.eq("is-sign-negative", SimdScalarSigned::is_sign_negative(v), v.is_sign_negative(), d);
                ex!("signum", SimdScalarSigned::signum(v), v.signum());
                ex!("abs", SimdScalarSigned::abs(v), v.abs());
                ex!("copysign", SimdScalarSigned::copysign(v, w), v.copysign(w));
                cx.eq("copysign-sign", SimdScalarSigned::copysign(v, w).is_sign_negative(), w.is_sign_negative(), d);
                cx.eq("abs-sign", SimdScalarSigned::abs(v).is_sign_negative(), false, d);
                // order
                if !(v.is_nan() || w.is_nan()) {
                    ex!("max", SimdScalarOrd::max(v, w), v.max(w));
                    ex!("min", SimdScalarOrd::min(v, w), v.min(w));
                } else if !(v.is_nan() && w.is_nan()) {
                    ex!("max-nan", SimdScalarOrd::max(v, w), v.max(w));
                    ex!("min-nan", SimdScalarOrd::min(v, w), v.min(w));
                }
                if !w.is_nan() && !z.is_nan() {
                    let (lo, hi) = if w <= z { (w, z) } else { (z, w) };
                    ex!("clamp", SimdScalarOrd::clamp(v, lo, hi), v.clamp(lo, hi));
                }
                ex!("min-value", <$t as SimdScalarBounded>::min_value(), <$t>::MIN);
                ex!("max-value", <$t as SimdScalarBounded>::max_value(), <$t>::MAX);
                // exact functions, down to the sign of a zero
                macro_rules! bit { ($ev:literal, $got:expr, $want:expr) => {{ let (g, w): ($t, $t) = ($got, $want); cx.ok($ev, g.to_bits() == w.to_bits() || (g.is_nan() && w.is_nan()), || format!("got {:?}, want {:?}; {}", g, w, d())); }}; }
                bit!("floor", SimdScalarFloat::floor(v), v.floor());
                bit!("ceil", SimdScalarFloat::ceil(v), v.ceil());
                bit!("round", SimdScalarFloat::round(v), v.round());
                bit!("trunc", SimdScalarFloat::trunc(v), v.trunc());
                ex!("fract", SimdScalarFloat::fract(v), v.fract());
                bit!("sqrt", SimdScalarFloat::sqrt(v), v.sqrt());
                cl!("recip", SimdScalarFloat::recip(v), v.recip());
                ex!("mul-add", SimdScalarFloat::mul_add(v, w, z), v.mul_add(w, z));
                // transcendental, within a few ulps of the platform's own over the whole range
                // (an implementation may round the last finite value to infinity)
                let edge = |a: $t, b: $t| (a.is_infinite() && b.abs() > <$t>::MAX / 4.0 && (a > 0.0) == (b > 0.0)) || (b.is_infinite() && a.abs() > <$t>::MAX / 4.0 && (a > 0.0) == (b > 0.0));
                let zs = |a: $t, b: $t| a != 0.0 || b != 0.0 || a.is_sign_negative() == b.is_sign_negative();
                macro_rules! tr { ($ev:literal, $got:expr, $want:expr) => { tr!($ev, $got, $want, 1.0) }; ($ev:literal, $got:expr, $want:expr, $k:expr) => {{
                    let (g, w, k): ($t, $t, $t) = ($got, $want, $k);
                    let ok = same(g, w) && zs(g, w) || edge(g, w) || (g.is_finite() && w.is_finite() && (g - w).abs() <= k * 16.0 * <$t>::EPSILON * w.abs().max(g.abs()) + <$t>::MIN_POSITIVE * <$t>::EPSILON * 32.0 && (g != 0.0 || w != 0.0));
                    cx.ok($ev, ok, || format!("got {:?}, want {:?}; {}", g, w, d())); }}; }
                tr!("sin", SimdScalarFloat::sin(v), v.sin());
                tr!("cos", SimdScalarFloat::cos(v), v.cos());
                tr!("sin-cos-0", SimdScalarFloat::sin_cos(v).0, v.sin());
                tr!("sin-cos-1", SimdScalarFloat::sin_cos(v).1, v.cos());
                tr!("tan", SimdScalarFloat::tan(v), v.tan());
                tr!("asin", SimdScalarFloat::asin(v), v.asin());
                tr!("acos", SimdScalarFloat::acos(v), v.acos());
                tr!("atan", SimdScalarFloat::atan(v), v.atan());
                tr!("atan2", SimdScalarFloat::atan2(v, w), v.atan2(w));
                tr!("hypot", SimdScalarFloat::hypot(v, w), v.hypot(w));
                tr!("sinh", SimdScalarFloat::sinh(v), v.sinh());
                tr!("cosh", SimdScalarFloat::cosh(v), v.cosh());
                tr!("sinh-cosh-0", SimdScalarFloat::sinh_cosh(v).0, v.sinh());
                tr!("sinh-cosh-1", SimdScalarFloat::sinh_cosh(v).1, v.cosh());
                tr!("tanh", SimdScalarFloat::tanh(v), v.tanh());
                tr!("exp", SimdScalarFloat::exp(v), v.exp());
                tr!("exp2", SimdScalarFloat::exp2(v), v.exp2());
                tr!("exp-m1", SimdScalarFloat::exp_m1(v), v.exp_m1());
                tr!("ln", SimdScalarFloat::ln(v), v.ln());
                tr!("log2", SimdScalarFloat::log2(v), v.log2());
                tr!("log10", SimdScalarFloat::log10(v), v.log10());
                tr!("ln-1p", SimdScalarFloat::ln_1p(v), v.ln_1p());
                tr!("cbrt", SimdScalarFloat::cbrt(v), v.cbrt());
                // a logarithm to a base near one divides by a small number
                if w > 0.0 && w.is_finite() && w != 1.0 && v > 0.0 && v.is_finite() {
                    let (g, r) = (SimdScalarFloat::log(v, w), v.log(w));
                    let lw = w.ln().abs();
                    cx.ok("log", same(g, r) || (g - r).abs() <= <$t>::EPSILON * 16.0 * (r.abs() + (1.0 + r.abs()) / lw), || format!("got {:?}, want {:?}; {}", g, r, d()));
                }
                // the platform's inverse hyperbolic functions cancel near the ends of their domains
                if v.abs() < 1e15 || !v.is_finite() { tr!("asinh", SimdScalarFloat::asinh(v), v.asinh(), 4.0); }
                if v == 1.0 || (v >= 1.01 && v < 1e15) { // outside the domain the result is implementation-specific
                    let (g, r) = (SimdScalarFloat::acosh(v), v.acosh());
                    cx.ok("acosh", close(g, r) || (g - r).abs() < $tol * 100.0, || format!("got {:?}, want {:?}; {}", g, r, d()));
                }
                if !(v.abs() > 0.99 && v.abs() < 1.0) { cl!("atanh", SimdScalarFloat::atanh(v), v.atanh()); }
                for n in (-8i32..=8).chain([13, -13, 31, -31, 64, -64, 127, -127, 200, -200, 1000, -1000, i32::MAX, i32::MIN + 1]) {
                    // repeated multiplication: the error grows with the exponent, and a negative power may be taken before or after inverting
                    let (g, r) = (SimdScalarFloat::powi(v, n), v.powi(n));
                    let big = r.abs() > <$t>::MAX * 1e-3 || g.abs() > <$t>::MAX * 1e-3;
                    let small = r.abs() < <$t>::MIN_POSITIVE * 1e3 && g.abs() < <$t>::MIN_POSITIVE * 1e3;
                    if n.unsigned_abs() > 1000 && !(v == 0.0 || v.abs() == 1.0 || v.is_nan() || v.abs() > 2.0 || v.abs() < 0.5) { continue; }
                    let ok = if n.unsigned_abs() <= 1000 && !big && !small { same(g, r) || (g - r).abs() <= <$t>::EPSILON * 4.0 * (4.0 + n.unsigned_abs() as $t) * r.abs() }
                        else { same(g, r) || (big && !small && g.abs() > <$t>::MAX * 1e-6 && (g > 0.0) == (r > 0.0)) || small };
                    cx.ok("powi", ok && (g == 0.0 || g.is_nan() || r == 0.0 || (g > 0.0) == (r > 0.0)), || format!("n={} got {:?}, want {:?}; {}", n, g, r, d()));
                }
                for y in [w, w % 8.0, 0.5, -0.5, 2.0, 1.0, 0.0, 3.0, -1.0, 1.0 / 3.0] { if v.is_nan() || y.is_nan() { continue; } tr!("powf", SimdScalarFloat::powf(v, y), v.powf(y), 16.0); }
                // classification
                cx.eq("is-finite", SimdScalarFloat::is_finite(v), v.is_finite(), d);
                cx.eq("is-infinite", SimdScalarFloat::is_infinite(v), v.is_infinite(), d);
                cx.eq("is-nan", SimdScalarFloat::is_nan(v), v.is_nan(), d);
                cx.eq("is-normal", SimdScalarFloat::is_normal(v), v.is_normal(), d);
                cx.eq("is-subnormal", SimdScalarFloat::is_subnormal(v), v.is_subnormal(), d);
            });
        }
        // every pair, and for the three-operand functions every triple, of the values where the rules change
        let sp: Vec<$t> = vec![0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, 1e6, -1e6, <$t>::MIN, <$t>::MAX, <$t>::EPSILON, <$t>::MIN_POSITIVE, -<$t>::MIN_POSITIVE, <$t>::MIN_POSITIVE / 4.0, <$t>::NAN, <$t>::INFINITY, <$t>::NEG_INFINITY];
        for (i, &v) in sp.iter().enumerate() { for (j, &w) in sp.iter().enumerate() {
            $cx.case(concat!("special pairs ", stringify!($t)), [i as u64, j as u64], true, || format!("{:?} {:?}", v, w), |cx| {
                let same = |a: $t, b: $t| (a.to_bits() == b.to_bits()) || (a.is_nan() && b.is_nan());
                let near = |a: $t, b: $t| same(a, b) || (a.is_finite() && b.is_finite() && a != 0.0 && b != 0.0 && (a - b).abs() <= 256.0 * <$t>::EPSILON * b.abs() + <$t>::MIN_POSITIVE * <$t>::EPSILON * 32.0);
                let mut chk = |ev: &'static str, ok: bool, g: $t, r: $t| { cx.ok(ev, ok, || format!("{} of {:?} and {:?}: got {:?}, want {:?}", ev, v, w, g, r)); };
                let (g, r) = (SimdScalarSigned::copysign(v, w), v.copysign(w)); chk("copysign", same(g, r), g, r);
                if !(v.is_nan() && w.is_nan()) {
                    let (g, r) = (SimdScalarOrd::max(v, w), v.max(w)); chk("max", g == r, g, r);
                    let (g, r) = (SimdScalarOrd::min(v, w), v.min(w)); chk("min", g == r, g, r);
                }
                let (g, r) = (SimdScalarFloat::atan2(v, w), v.atan2(w)); chk("atan2", near(g, r), g, r);
                let (g, r) = (SimdScalarFloat::hypot(v, w), v.hypot(w)); chk("hypot", near(g, r) || (g.abs() > <$t>::MAX / 4.0 && r.abs() > <$t>::MAX / 4.0), g, r);
                if !v.is_nan() && !w.is_nan() { let (g, r) = (SimdScalarFloat::powf(v, w), v.powf(w)); chk("powf", near(g, r) || (g.is_infinite() && r.abs() > <$t>::MAX / 4.0) || (r.is_infinite() && g.abs() > <$t>::MAX / 4.0), g, r); }
                for &z in &sp {
                    if w <= z { let (g, r) = (SimdScalarOrd::clamp(v, w, z), v.clamp(w, z)); chk("clamp", g == r || (g.is_nan() && r.is_nan()), g, r); }
                    let (g, r) = (SimdScalarFloat::mul_add(v, w, z), v.mul_add(w, z)); chk("mul-add", g == r || (g.is_nan() && r.is_nan()), g, r);
                }
            });
        } }
        use std::$t::consts as k;
        $cx.case(concat!("constants ", stringify!($t)), [0], true, || "all constants".into(), |cx| {
            for (ev, g, w) in [
                ("const-pi", <$t as SimdScalarFloat>::pi(), k::PI), ("const-two-pi", <$t as SimdScalarFloat>::two_pi(), k::TAU),
                ("const-frac-pi-2", <$t as SimdScalarFloat>::frac_pi_2(), k::FRAC_PI_2), ("const-frac-pi-3", <$t as SimdScalarFloat>::frac_pi_3(), k::FRAC_PI_3),
                ("const-frac-pi-4", <$t as SimdScalarFloat>::frac_pi_4(), k::FRAC_PI_4), ("const-frac-pi-6", <$t as SimdScalarFloat>::frac_pi_6(), k::FRAC_PI_6),
                ("const-frac-pi-8", <$t as SimdScalarFloat>::frac_pi_8(), k::FRAC_PI_8), ("const-frac-1-pi", <$t as SimdScalarFloat>::frac_1_pi(), k::FRAC_1_PI),
                ("const-frac-2-pi", <$t as SimdScalarFloat>::frac_2_pi(), k::FRAC_2_PI), ("const-frac-2-sqrt-pi", <$t as SimdScalarFloat>::frac_2_sqrt_pi(), k::FRAC_2_SQRT_PI),
                ("const-e", <$t as SimdScalarFloat>::e(), k::E), ("const-log2-e", <$t as SimdScalarFloat>::log2_e(), k::LOG2_E), ("const-log10-e", <$t as SimdScalarFloat>::log10_e(), k::LOG10_E),
                ("const-ln-2", <$t as SimdScalarFloat>::ln_2(), k::LN_2), ("const-ln-10", <$t as SimdScalarFloat>::ln_10(), k::LN_10), ("const-sqrt-2", <$t as SimdScalarFloat>::sqrt_2(), k::SQRT_2),
                ("const-frac-1-sqrt-2", <$t as SimdScalarFloat>::frac_1_sqrt_2(), k::FRAC_1_SQRT_2), ("const-infinity", <$t as SimdScalarFloat>::infinity(), <$t>::INFINITY),
                ("const-neg-infinity", <$t as SimdScalarFloat>::neg_infinity(), <$t>::NEG_INFINITY), ("const-epsilon", <$t as SimdScalarFloat>::machine_epsilon(), <$t>::EPSILON),
                ("const-default-epsilon", <$t as SimdScalarCmp>::default_epsilon(), <$t>::EPSILON), ("const-min-positive", <$t as SimdScalarFloat>::min_positive_value(), <$t>::MIN_POSITIVE),
            ] { cx.ok(ev, (g - w).abs() <= <$t>::EPSILON * w.abs() || g == w, || format!("got {:?}, want {:?}", g, w)); }
            cx.eq("default-max-ulps", <$t as SimdScalarCmp>::default_max_ulps() as u64, 4, || "default_max_ulps".into());
            cx.ok("const-nan", <$t as SimdScalarFloat>::nan().is_nan(), || "nan() is not NaN".into());
            let nz = <$t as SimdScalarFloat>::neg_zero();
            cx.ok("const-neg-zero", nz == 0.0 && nz.is_sign_negative(), || format!("neg_zero() = {:?}", nz));
        });
    })*};
}

fn main() {
    let mut cxv = Cx::new("C20", "every scalar method on boundary values (type limits, powers of two +-1, signed zeros, subnormals, infinities, NaN) and random bit patterns, and every ordered pair of the 14 numeric types for casts; non-trivial: value not zero (casts), all (others)");
    let cx = &mut cxv;
    casts!(cx, [i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64], [i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64]);
    signed_int!(cx, i8 i16 i32 i64 i128 isize);
    float!(cx, f32 4e-6; f64 1e-13;);
    cx.require(&["try-cast", "cast", "cast-refuses", "copysign", "clamp", "powi", "is-subnormal", "const-pi"]);
    cx.assume("transcendental functions are compared with the platform's own to a few ulps, because either the platform's or libm's implementation may be linked");
    cxv.finish();
}
