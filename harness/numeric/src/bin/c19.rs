//! C19: angle units, normalisation and trigonometry.
use cglinalg_trigonometry::{Angle, Degrees, Radians};
use mon::{Cx, Rng};

fn gen(r: &mut Rng, turn: f64) -> f64 {
    match r.below(13) {
        10 => r.mag(1e-30, 1e-6),
        11 => if r.chance(1, 2) { r.mag(1.0, 1e6) * turn } else { r.mag(1e3, 1e13) * turn },
        12 => (r.int(-9, 9) as f64 + r.mag(1e-5, 1e-1)) * turn / 4.0,
        0 => 0.0,
        1 => r.int(-16, 16) as f64 * turn / 8.0,
        2 => r.int(-24, 24) as f64 * turn / 12.0,
        3 => (r.int(-4, 4) as f64 + r.mag(1e-6, 1e-3)) * turn / 2.0,
        4 => r.mag(1e-12, 1e-2) * turn,
        5 => r.range(-50.0, 50.0) * turn,
        6 => r.int(-720, 720) as f64,
        _ => r.range(-2.0, 2.0) * turn,
    }
}

macro_rules! forms {
    ($cx:ident, $ev:literal, $a:expr, $b:expr, $op:tt, $want:expr, $d:expr) => {{
        let (a, b) = ($a, $b);
        let w = $want;
        $cx.eq($ev, a $op b, w, $d);
        $cx.eq($ev, &a $op b, w, $d);
        $cx.eq($ev, a $op &b, w, $d);
        $cx.eq($ev, &a $op &b, w, $d);
    }};
}

macro_rules! unit {
    ($cx:ident, $tag:literal, $A:ident, $S:ident, $to_rad:expr, $turn:expr, $eps:expr) => {{
        let turn: f64 = $turn;
        let eps: f64 = $eps;
        for _ in 0..$cx.n(3000) {
            let x = gen(&mut $cx.rng, turn) as $S;
            let y = if $cx.rng.chance(1, 6) { (x as f64 + turn * $cx.rng.int(-3, 3) as f64) as $S } else { gen(&mut $cx.rng, turn) as $S };
            let s = $cx.rng.nz() as $S;
            let ratio = match $cx.rng.below(9) { 0 => 1.0, 1 => -1.0, 2 => 0.0, 3 => $cx.rng.mag(1e-20, 1e-2), 4 => $cx.rng.sign() * (1.0 - $cx.rng.mag(1e-6, 1e-2).abs()), _ => $cx.rng.range(-1.0, 1.0) } as $S;
            let (yy, xx) = ($cx.rng.val() as $S, $cx.rng.val() as $S);
            $cx.case($tag, [x.to_bits() as u64, y.to_bits() as u64, s.to_bits() as u64], x != 0.0, || format!("x={:?} y={:?} s={:?} ratio={:?}", x, y, s, ratio), |cx| {
                let d = || format!("{} x={:?} y={:?} s={:?} ratio={:?} atan2({:?},{:?})", $tag, x, y, s, ratio, yy, xx);
                let (a, b) = ($A(x), $A(y));
                // arithmetic in every operand form
                forms!(cx, "add", a, b, +, $A(x + y), d);
                forms!(cx, "sub", a, b, -, $A(x - y), d);
                cx.eq("neg", -a, $A(-x), d);
                cx.eq("neg", -&a, $A(-x), d);
                cx.eq("mul", a * s, $A(x * s), d);
                cx.eq("mul", &a * s, $A(x * s), d);
                let q = $A(x / s);
                let near = |g: $S, w: $S, sc: f64| g == w || ((g - w).abs() as f64) <= eps * 8.0 * sc.max(w.abs() as f64) + $S::MIN_POSITIVE as f64 || w.abs() > $S::MAX / 8.0;
                for g in [a / s, &a / s] { cx.ok("div", near(g.0, q.0, 0.0), || format!("got {:?} want {:?}; {}", g, q, d())); }
                if y != 0.0 {
                    let w = x / y;
                    for g in [a / b, &a / b, a / &b, &a / &b] { cx.ok("ratio", near(g, w, 0.0), || format!("got {:?} want {:?}; {}", g, w, d())); }
                    let w = $A(x % y);
                    for g in [a % b, &a % b, a % &b, &a % &b] { cx.eq("rem", g, w, d); }
                    let mut m = a; m %= b; cx.eq("rem-assign", m, w, d);
                }
                let mut m = a; m += b; cx.eq("add-assign", m, $A(x + y), d);
                let mut m = a; m -= b; cx.eq("sub-assign", m, $A(x - y), d);
                let mut m = a; m *= s; cx.eq("mul-assign", m, $A(x * s), d);
                let mut m = a; m /= s; cx.ok("div-assign", near(m.0, q.0, 0.0), || format!("got {:?} want {:?}; {}", m, q, d()));
                // comparisons and zero
                cx.eq("eq", a == b, x == y, d);
                cx.eq("lt", a < b, x < y, d);
                cx.eq("partial-cmp", a.partial_cmp(&b), x.partial_cmp(&y), d);
                cx.eq("is-zero", $A::<$S>::is_zero(&a), x == 0.0, d);
                cx.eq("is-zero", Angle::is_zero(a), x == 0.0, d);
                cx.eq("zero", <$A<$S> as Angle>::zero(), $A(0.0), d);
                cx.eq("zero", $A::<$S>::zero(), $A(0.0), d);
                cx.eq("default", $A::<$S>::default(), $A(0.0), d);
                cx.eq("is-finite", a.is_finite(), true, d);
                for tiny in [$S::MIN_POSITIVE, -$S::MIN_POSITIVE, $S::MIN_POSITIVE / 4.0, $S::EPSILON * $S::EPSILON, -$S::EPSILON] {
                    cx.eq("is-zero", $A::<$S>::is_zero(&$A(tiny)), false, d);
                    cx.eq("is-zero", Angle::is_zero($A(tiny)), false, d);
                    cx.ok("normalize-range", (0.0..=turn * (1.0 + eps)).contains(&($A(tiny).normalize().0 as f64)), || format!("normalize of {:?}", tiny));
                }
                for z in [0.0 as $S, -0.0] { cx.eq("is-zero", $A::<$S>::is_zero(&$A(z)) && Angle::is_zero($A(z)), true, d); }
                for z in [0.0 as $S, -0.0] { let t = ($A(z).csc(), $A(z).cot()); cx.ok("pole", t.0.is_infinite() && t.1.is_infinite(), || format!("csc and cot of {:?}: {:?}", z, t)); }
                for big in [$S::MAX, $S::MIN] { cx.eq("is-finite", $A(big).is_finite(), true, d); }
                for bad in [$S::NAN, $S::INFINITY, $S::NEG_INFINITY] { cx.eq("is-finite", $A(bad).is_finite(), false, d); }
                // unit conversion
                let rad: f64 = $to_rad(x as f64);
                let r: Radians<$S> = a.into();
                let g: Degrees<$S> = a.into();
                let sc = rad.abs();
                cx.ok("to-radians", (r.0 as f64 - rad).abs() <= eps * 8.0 * sc, || format!("got {:?} want {}; {}", r, rad, d()));
                cx.ok("to-degrees", (g.0 as f64 - rad.to_degrees()).abs() <= eps * 8.0 * rad.to_degrees().abs(), || format!("got {:?}; {}", g, d()));
                let back: $A<$S> = r.into();
                let back2: $A<$S> = g.into();
                cx.ok("round-trip", (back.0 - x).abs() as f64 <= eps * 16.0 * x.abs() as f64 && (back2.0 - x).abs() as f64 <= eps * 16.0 * x.abs() as f64, || format!("got {:?} {:?}; {}", back, back2, d()));
                // trigonometry; the conversion error is relative to the size of the angle
                let te = eps * 16.0 * (1.0 + sc);
                let (si, co) = (rad.sin(), rad.cos());
                let sc2 = a.sin_cos();
                for (ev, g, w) in [("sin", a.sin(), si), ("cos", a.cos(), co), ("sin-cos-0", sc2.0, si), ("sin-cos-1", sc2.1, co)] {
                    cx.ok(ev, (g as f64 - w).abs() <= te, || format!("got {:?} want {:?}; {}", g, w, d()));
                }
                if co.abs() > te * 1e3 {
                    let k = 1.0 / (co * co);
                    for (ev, g, w) in [("tan", a.tan(), si / co), ("sec", a.sec(), 1.0 / co)] {
                        cx.ok(ev, (g as f64 - w).abs() <= te * 4.0 * k, || format!("got {:?} want {:?}; {}", g, w, d()));
                    }
                }
                if si.abs() > te * 1e3 {
                    let k = 1.0 / (si * si);
                    let g = a.csc();
                    cx.ok("csc", (g as f64 - 1.0 / si).abs() <= te * 4.0 * k, || format!("got {:?} want {:?}; {}", g, 1.0 / si, d()));
                    if co.abs() > te * 1e3 {
                        let g = a.cot();
                        cx.ok("cot", (g as f64 - co / si).abs() <= te * 8.0 * k, || format!("got {:?} want {:?}; {}", g, co / si, d()));
                    }
                }
                // inverse functions, principal branch
                let inv = |r: f64| r / $to_rad(1.0);
                for (ev, g, w) in [("asin", $A::<$S>::asin(ratio), (ratio as f64).asin()), ("acos", $A::<$S>::acos(ratio), (ratio as f64).acos()), ("atan", $A::<$S>::atan(s), (s as f64).atan()), ("atan2", $A::<$S>::atan2(yy, xx), (yy as f64).atan2(xx as f64))] {
                    cx.ok(ev, (g.0 as f64 - inv(w)).abs() <= eps * 64.0 * inv(1.0), || format!("got {:?} want {:?}; {}", g, inv(w), d()));
                }
                // the odd functions keep their relative precision for small arguments
                for (ev, g, w) in [("asin", $A::<$S>::asin(ratio), (ratio as f64).asin()), ("atan", $A::<$S>::atan(ratio), (ratio as f64).atan()), ("atan", $A::<$S>::atan(1.0 / s), ((1.0 / s) as f64).atan())] {
                    cx.ok(ev, (g.0 as f64 - inv(w)).abs() <= eps * 64.0 * inv(w).abs(), || format!("got {:?} want {:?}; {}", g, inv(w), d()));
                }
                if rad.abs() < 1.0 { for (ev, g, w) in [("sin", a.sin(), si), ("sin-cos-0", sc2.0, si), ("tan", a.tan(), si / co)] {
                    cx.ok(ev, (g as f64 - w).abs() <= eps * 64.0 * w.abs(), || format!("got {:?} want {:?}; {}", g, w, d()));
                } }
                // outside the domain, and for values that are not finite, there is no angle
                let out = (1.0 + ratio.abs()) * 1.5;
                for g in [$A::<$S>::asin(out).0, $A::<$S>::asin(-out).0, $A::<$S>::acos(out).0, $A::<$S>::acos(-out).0, $A($S::NAN).sin(), $A($S::INFINITY).cos(), $A($S::NEG_INFINITY).tan(), $A::<$S>::atan($S::NAN).0] {
                    cx.ok("no-angle", g.is_nan(), || format!("got {:?}; {}", g, d()));
                }
                // the boundary values and the four axes
                for (ev, g, w) in [("atan2-axis", $A::<$S>::atan2(0.0, -s.abs()), 0.5), ("atan2-axis", $A::<$S>::atan2(-0.0, -s.abs()), -0.5), ("atan2-axis", $A::<$S>::atan2(s.abs(), 0.0), 0.25),
                    ("atan2-axis", $A::<$S>::atan2(-s.abs(), 0.0), -0.25), ("atan2-axis", $A::<$S>::atan2(0.0, s.abs()), 0.0), ("atan2-axis", $A::<$S>::atan2(s, s), if s > 0.0 { 0.125 } else { -0.375 }),
                    ("atan-limit", $A::<$S>::atan($S::INFINITY), 0.25), ("atan-limit", $A::<$S>::atan($S::NEG_INFINITY), -0.25)] {
                    cx.ok(ev, (g.0 as f64 - w * turn).abs() <= eps * 4.0 * turn, || format!("got {:?} want {} turns; {}", g, w, d()));
                }
                // normalisation
                let ne = eps * 8.0 * (turn + x.abs() as f64);
                let same_dir = |g: f64, w: f64, e: f64| { let k = (g - w) / turn; ((k - k.round()) * turn).abs() <= e };
                let n = a.normalize().0 as f64;
                cx.ok("normalize-range", n >= -(ne - eps * 8.0 * turn) && n <= turn * (1.0 + eps) + (ne - eps * 8.0 * turn), || format!("got {}; {}", n, d()));
                cx.ok("normalize-direction", same_dir(n, x as f64, ne), || format!("got {}; {}", n, d()));
                let ns = a.normalize_signed().0 as f64;
                cx.ok("normalize-signed-range", ns.abs() <= turn / 2.0 * (1.0 + 4.0 * eps), || format!("got {}; {}", ns, d()));
                cx.ok("normalize-signed-direction", same_dir(ns, x as f64, ne), || format!("got {}; {}", ns, d()));
                // an angle already in range stays the angle it is
                if x >= 0.0 && (x as f64) < turn * (1.0 - 4.0 * eps) { cx.ok("normalize-in-range", (n - x as f64).abs() <= eps * x as f64, || format!("got {}; {}", n, d())); }
                if x != 0.0 && (x.abs() as f64) < turn / 2.0 * (1.0 - 4.0 * eps) { cx.ok("normalize-signed-in-range", (ns - x as f64).abs() <= eps * turn * 2.0, || format!("got {}; {}", ns, d())); }
                let o = a.opposite().0 as f64;
                cx.ok("opposite", (0.0..=turn * (1.0 + eps)).contains(&o) && same_dir(o, x as f64 + turn / 2.0, ne), || format!("got {}; {}", o, d()));
                let bi = a.bisect(b).0 as f64;
                cx.ok("bisect", (0.0..=turn * (1.0 + eps)).contains(&bi) && same_dir(bi, (x as f64 + y as f64) / 2.0, eps * 16.0 * (turn + x.abs() as f64 + y.abs() as f64)), || format!("got {}; {}", bi, d()));
                // fractions of a turn
                for (ev, g, k) in [("full-turn", $A::<$S>::full_turn(), 1.0), ("half-turn", $A::<$S>::full_turn_div_2(), 2.0), ("quarter-turn", $A::<$S>::full_turn_div_4(), 4.0), ("sixth-turn", $A::<$S>::full_turn_div_6(), 6.0), ("eighth-turn", $A::<$S>::full_turn_div_8(), 8.0)] {
                    cx.ok(ev, (g.0 as f64 - turn / k).abs() <= eps * turn, || format!("got {:?}; {}", g, d()));
                }
            });
        }
    }};
}

/// Arithmetic and comparison at the edges of the scalar type, bit by bit (any NaN for NaN).
macro_rules! edges {
    ($cx:ident, $A:ident, $S:ident) => {{
        let t = <$A<$S>>::full_turn().0;
        let sp: [$S; 18] = [0.0, -0.0, 1.0, -1.0, t, -t, t / 2.0, -t / 2.0, $S::MAX, $S::MIN, $S::MIN_POSITIVE, -$S::MIN_POSITIVE, $S::MIN_POSITIVE / 8.0, $S::INFINITY, $S::NEG_INFINITY, $S::NAN, $S::EPSILON, 0.1];
        for x in sp { for y in sp {
            $cx.case(concat!("edges ", stringify!($A), " ", stringify!($S)), [x.to_bits() as u64, y.to_bits() as u64], true, || format!("{:?} {:?}", x, y), |cx| {
                let same = |g: $S, w: $S| g.to_bits() == w.to_bits() || (g.is_nan() && w.is_nan());
                let (a, b) = ($A(x), $A(y));
                let mut o: Vec<(&'static str, $S, $S)> = vec![];
                for g in [a + b, &a + b, a + &b, &a + &b] { o.push(("edge-add", g.0, x + y)); }
                for g in [a - b, &a - b, a - &b, &a - &b] { o.push(("edge-sub", g.0, x - y)); }
                for g in [a % b, &a % b, a % &b, &a % &b] { o.push(("edge-rem", g.0, x % y)); }
                for g in [a * y, &a * y] { o.push(("edge-mul", g.0, x * y)); }
                for g in [-a, -&a] { o.push(("edge-neg", g.0, -x)); }
                let mut m = a; m += b; o.push(("edge-add", m.0, x + y));
                let mut m = a; m -= b; o.push(("edge-sub", m.0, x - y));
                let mut m = a; m *= y; o.push(("edge-mul", m.0, x * y));
                let mut m = a; m %= b; o.push(("edge-rem", m.0, x % y));
                for (ev, g, w) in o { cx.ok(ev, same(g, w), || format!("{:?} {:?}: got {:?} want {:?}", x, y, g, w)); }
                // quotients may be formed with a reciprocal
                let near = |g: $S, w: $S| same(g, w) || (g - w).abs() <= 8.0 * $S::EPSILON * w.abs() + $S::MIN_POSITIVE || y.abs() < $S::MIN_POSITIVE * 4.0 && y != 0.0 || y.abs() > $S::MAX / 8.0;
                let mut m = a; m /= y;
                for g in [(a / y).0, (&a / y).0, m.0, a / b, &a / b, a / &b, &a / &b] { cx.ok("edge-div", near(g, x / y), || format!("{:?} / {:?}: got {:?} want {:?}", x, y, g, x / y)); }
                cx.ok("edge-compare", (a == b) == (x == y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && a.partial_cmp(&b) == x.partial_cmp(&y), || format!("{:?} {:?}", x, y));
                cx.ok("edge-predicates", a.is_finite() == x.is_finite() && $A::<$S>::is_zero(&a) == (x == 0.0), || format!("{:?}", x));
                // the argument of a point, including signed zeros and infinities
                let (g, w) = ($A::<$S>::atan2(x, y).0, x.atan2(y) / (2.0 * std::f64::consts::PI as $S) * t);
                cx.ok("edge-atan2", same(g, w) || (g - w).abs() <= 32.0 * $S::EPSILON * w.abs() + 4.0 * $S::MIN_POSITIVE, || format!("atan2({:?}, {:?}): got {:?} want {:?}", x, y, g, w));
                if x.is_infinite() { let (r, g): (Radians<$S>, Degrees<$S>) = (a.into(), a.into()); cx.ok("edge-convert", r.0 == x && g.0 == x, || format!("{:?}: {:?} {:?}", x, r, g)); }
                if x.is_nan() { let (r, g): (Radians<$S>, Degrees<$S>) = (a.into(), a.into()); cx.ok("edge-convert", r.0.is_nan() && g.0.is_nan() && a.sin().is_nan() && a.cos().is_nan() && a.tan().is_nan() && a.normalize().0.is_nan() && a.normalize_signed().0.is_nan(), || format!("{:?}: {:?} {:?}", x, r, g)); }
            });
        } }
    }};
}

/// Checks the trait's default methods through a user-defined angle-like use: only generic code.
fn generic<A: Angle>(deg: A::Dimensionless, one_turn: A) -> (A, A) {
    let a = one_turn * deg;
    (a.normalize(), a.normalize_signed())
}

fn ints(cx: &mut Cx) {
    macro_rules! go { ($($t:ident)*) => {$( for _ in 0..cx.n(100) {
        let (x, y, s) = (cx.rng.u64() as $t, cx.rng.u64() as $t, cx.rng.u64() as $t);
        cx.case(concat!("integer angle ", stringify!($t)), [x as u64, y as u64], true, || format!("{} {} {}", x, y, s), |cx| {
            let d = || format!("{} {} {}", x, y, s);
            forms!(cx, "add", Radians(x), Radians(y), +, Radians(x.wrapping_add(y)), d);
            forms!(cx, "add", Degrees(x), Degrees(y), +, Degrees(x.wrapping_add(y)), d);
            forms!(cx, "sub", Radians(x), Radians(y), -, Radians(x.wrapping_sub(y)), d);
            forms!(cx, "sub", Degrees(x), Degrees(y), -, Degrees(x.wrapping_sub(y)), d);
            cx.eq("mul", Radians(x) * s, Radians(x.wrapping_mul(s)), d);
            cx.eq("mul", Degrees(x) * s, Degrees(x.wrapping_mul(s)), d);
            cx.eq("mul", &Radians(x) * s, Radians(x.wrapping_mul(s)), d);
            cx.eq("mul", &Degrees(x) * s, Degrees(x.wrapping_mul(s)), d);
            cx.eq("partial-cmp", Radians(x).partial_cmp(&Radians(y)), x.partial_cmp(&y), d);
            cx.eq("partial-cmp", Degrees(x).partial_cmp(&Degrees(y)), x.partial_cmp(&y), d);
            cx.eq("eq", Radians(x) == Radians(y), x == y, d);
            cx.eq("lt", Degrees(x) < Degrees(y), x < y, d);
            let mut m = Degrees(x); m += Degrees(y); m -= Degrees(s); m *= 3; cx.eq("assign-chain", m, Degrees(x.wrapping_add(y).wrapping_sub(s).wrapping_mul(3)), d);
            let mut m = Radians(x); m += Radians(y); m -= Radians(s); m *= 3; cx.eq("assign-chain", m, Radians(x.wrapping_add(y).wrapping_sub(s).wrapping_mul(3)), d);
            cx.eq("display", format!("{}", Degrees(x)), format!("{} degrees", x), d);
            cx.eq("display", format!("{}", Radians(x)), format!("{} radians", x), d);
        });
    } )*}; }
    go!(i8 i16 i32 i64 u8 u16 u32 u64);
}

fn main() {
    let mut c = Cx::new("C19", "angles at multiples of 1/8 and 1/12 turn, just off half turns, tiny, many turns and random, both units, both precisions, all operand forms; non-trivial: angle not zero");
    let cx = &mut c;
    use std::f64::consts::PI;
    unit!(cx, "Radians<f64>", Radians, f64, |x: f64| x, 2.0 * PI, f64::EPSILON);
    unit!(cx, "Degrees<f64>", Degrees, f64, |x: f64| x * (PI / 180.0), 360.0, f64::EPSILON);
    unit!(cx, "Radians<f32>", Radians, f32, |x: f64| x, 2.0 * PI, f32::EPSILON as f64);
    unit!(cx, "Degrees<f32>", Degrees, f32, |x: f64| x * (PI / 180.0), 360.0, f32::EPSILON as f64);
    ints(cx);
    edges!(cx, Radians, f64);
    edges!(cx, Degrees, f64);
    edges!(cx, Radians, f32);
    edges!(cx, Degrees, f32);
    for _ in 0..cx.n(500) {
        let k = cx.rng.range(-10.0, 10.0);
        cx.case("generic angle code", [k.to_bits()], true, || format!("{} turns", k), |cx| {
            let (a, b) = generic::<Radians<f64>>(k, Radians::full_turn());
            let (c, e) = generic::<Degrees<f64>>(k, Degrees::full_turn());
            let f = k - k.floor();
            let near = |x: f64, y: f64| { let d = x - y; (d - d.round()).abs() < 1e-12 };
            cx.ok("generic-agree", near(a.0 / (2.0 * PI), f) && near(c.0 / 360.0, f) && near(b.0 / (2.0 * PI), f) && near(e.0 / 360.0, f), || format!("{:?} {:?} {:?} {:?} turns {}", a, b, c, e, k));
        });
    }
    cx.require(&["add", "rem", "normalize-range", "normalize-signed-direction", "atan2", "bisect", "round-trip"]);
    c.finish();
}
