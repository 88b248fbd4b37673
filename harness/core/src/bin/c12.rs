//! C12: the complex field.
use h_core::*;

type Obs<T> = Vec<(&'static str, [T; 2], [T; 2])>;
fn judge<T: Sc>(cx: &mut Cx, obs: Obs<T>, desc: &dyn Fn() -> String) {
    for (ev, g, w) in &obs { cx.ok(ev, if ev.contains("div") { vclose(g, w) } else { vsame(g, w) }, || format!("got {:?}, want {:?}; {}", g, w, desc())); }
}
fn p<T: Copy>(z: Complex<T>) -> [T; 2] { [z.re, z.im] }

macro_rules! ring { ($cx:ident, $($t:ident)*) => { $( for _ in 0..$cx.n(150) {
    type T = $t;
    // general floats: the products are judged by their rounding error, the rest exactly
    let wd = <T as Sc>::FLOAT && $cx.rng.bool();
    let mut g = || -> [T; 2] { if wd { wide_finite(&mut $cx.rng) } else { exacts(&mut $cx.rng) } };
    let (a, b, c, s) = (g(), g(), g(), g()[0]);
    let d = <T as Sc>::divisor(&mut $cx.rng);
    let mut key = keys(&a);
    key.extend(keys(&b));
    let desc = || format!("a={:?} b={:?} c={:?} s={:?} d={:?}", a, b, c, s, d);
    $cx.case(concat!("ring ", stringify!($t)), key, a[1] != (0 as T) && b[1] != (0 as T), desc, |cx| {
        let (x, y, z) = (Complex::new(a[0], a[1]), Complex::new(b[0], b[1]), Complex::new(c[0], c[1]));
        let o = 0 as T;
        let (add, sub, mul) = ([a[0] + b[0], a[1] + b[1]], [a[0] - b[0], a[1] - b[1]], [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]);
        let sq = [a[0] * a[0] - a[1] * a[1], a[0] * a[1] + a[1] * a[0]];
        let mut obs: Obs<T> = vec![
            ("add", p(x + y), add), ("add", p(x + &y), add), ("add", p(&x + y), add), ("add", p(&x + &y), add),
            ("sub", p(x - y), sub), ("sub", p(x - &y), sub), ("sub", p(&x - y), sub), ("sub", p(&x - &y), sub),
            ("mul", p(x * y), mul), ("mul", p(x * &y), mul), ("mul", p(&x * y), mul), ("mul", p(&x * &y), mul),
            ("add-real", p(x + s), [a[0] + s, a[1]]), ("add-real", p(x + &s), [a[0] + s, a[1]]), ("add-real", p(&x + s), [a[0] + s, a[1]]), ("add-real", p(&x + &s), [a[0] + s, a[1]]),
            ("sub-real", p(x - s), [a[0] - s, a[1]]), ("sub-real", p(x - &s), [a[0] - s, a[1]]), ("sub-real", p(&x - s), [a[0] - s, a[1]]), ("sub-real", p(&x - &s), [a[0] - s, a[1]]),
            ("mul-real", p(x * s), [a[0] * s, a[1] * s]), ("mul-real", p(x * &s), [a[0] * s, a[1] * s]), ("mul-real", p(&x * s), [a[0] * s, a[1] * s]), ("mul-real", p(&x * &s), [a[0] * s, a[1] * s]),
            ("div-real", p(x / d), [a[0] / d, a[1] / d]), ("div-real", p(x / &d), [a[0] / d, a[1] / d]), ("div-real", p(&x / d), [a[0] / d, a[1] / d]), ("div-real", p(&x / &d), [a[0] / d, a[1] / d]),
            ("rem-real", p(x % d), [a[0] % d, a[1] % d]), ("rem-real", p(x % &d), [a[0] % d, a[1] % d]), ("rem-real", p(&x % d), [a[0] % d, a[1] % d]), ("rem-real", p(&x % &d), [a[0] % d, a[1] % d]),
            ("real-add", p(s + x), [s + a[0], a[1]]), ("real-add", p(s + &x), [s + a[0], a[1]]), ("real-add", p(&s + x), [s + a[0], a[1]]), ("real-add", p(&s + &x), [s + a[0], a[1]]),
            ("real-mul", p(s * x), [s * a[0], s * a[1]]), ("real-mul", p(s * &x), [s * a[0], s * a[1]]), ("real-mul", p(&s * x), [s * a[0], s * a[1]]), ("real-mul", p(&s * &x), [s * a[0], s * a[1]]),
            ("squared", p(x.squared()), sq), ("scale", p(x.scale(s)), [a[0] * s, a[1] * s]), ("unscale", p(x.unscale(d)), [a[0] / d, a[1] / d]),
            ("cubed", p(x.cubed()), [sq[0] * a[0] - sq[1] * a[1], sq[0] * a[1] + sq[1] * a[0]]),
            ("mul-commutes", p(y * x), mul), ("distributive", p(x * (y + z)), p(x * y + x * z)),
            ("zero", p(Complex::<T>::zero()), [o, o]), ("one", p(Complex::<T>::one()), [1 as T, o]), ("one", p(Complex::<T>::identity()), [1 as T, o]), ("one", p(Complex::<T>::unit_re()), [1 as T, o]), ("unit-im", p(Complex::<T>::unit_im()), [o, 1 as T]),
            ("from-real", p(Complex::from_real(s)), [s, o]), ("from-imaginary", p(Complex::from_imaginary(s)), [o, s]), ("modulus-squared", [x.modulus_squared(), x.norm_squared()], [a[0] * a[0] + a[1] * a[1]; 2]),
            ("one-neutral", p(x * Complex::one()), a), ("zero-neutral", p(x + Complex::zero()), a), ("default", p(Complex::<T>::default()), [o, o]),
        ];
        if !<T as Sc>::FLOAT || stringify!($t) == "f64" { obs.push(("mul-associates", p((x * y) * z), p(x * (y * z)))); }
        let mut assign = |ev, want: [T; 2], f: &dyn Fn(&mut Complex<T>)| { let mut m = x; f(&mut m); obs.push((ev, p(m), want)); };
        assign("add-assign", add, &|m| *m += y);
        assign("add-assign", add, &|m| *m += &y);
        assign("sub-assign", sub, &|m| *m -= y);
        assign("sub-assign", sub, &|m| *m -= &y);
        assign("mul-assign", mul, &|m| *m *= y);
        assign("mul-assign", mul, &|m| *m *= &y);
        assign("add-assign-real", [a[0] + s, a[1]], &|m| *m += s);
        assign("add-assign-real", [a[0] + s, a[1]], &|m| *m += &s);
        assign("sub-assign-real", [a[0] - s, a[1]], &|m| *m -= s);
        assign("sub-assign-real", [a[0] - s, a[1]], &|m| *m -= &s);
        assign("mul-assign-real", [a[0] * s, a[1] * s], &|m| *m *= s);
        assign("mul-assign-real", [a[0] * s, a[1] * s], &|m| *m *= &s);
        assign("div-assign-real", [a[0] / d, a[1] / d], &|m| *m /= d);
        assign("div-assign-real", [a[0] / d, a[1] / d], &|m| *m /= &d);
        assign("rem-assign-real", [a[0] % d, a[1] % d], &|m| *m %= d);
        assign("rem-assign-real", [a[0] % d, a[1] % d], &|m| *m %= &d);
        if wd {
            let o = 0 as T;
            let t = |a: [T; 2], b: [T; 2]| [[(a[0], b[0]), (o - a[1], b[1])], [(a[0], b[1]), (a[1], b[0])]];
            for (ev, g, _) in &obs { if ["mul", "mul-assign", "mul-commutes", "squared"].contains(ev) {
                let w = if *ev == "squared" { t(a, a) } else { t(a, b) };
                cx.ok(ev, sum_ok(g[0], &w[0]) && sum_ok(g[1], &w[1]), || format!("got {:?}; {}", g, desc()));
            } }
            let w = [(a[0], a[0]), (a[1], a[1])];
            cx.ok("modulus-squared", sum_ok(x.modulus_squared(), &w) && sum_ok(x.norm_squared(), &w), desc);
            let f = refm::Z(a[0].to_f(), a[1].to_f());
            let (m, w, g) = (f.abs().powi(3), f.mul(f).mul(f), x.cubed());
            if m > 1e-36 && m < 1e36 { cx.ok("cubed", refm::Z(g.re.to_f(), g.im.to_f()).dist(w) <= 16.0 * <T as Sc>::eps() * m, || format!("got {:?} want {:?}; {}", g, w, desc())); }
            obs.retain(|o| !["mul", "mul-assign", "mul-commutes", "mul-associates", "squared", "cubed", "distributive", "modulus-squared"].contains(&o.0));
        }
        judge(cx, obs, &desc);
        // recorded defect: real - complex keeps the sign of the imaginary part
        let (w, rec) = ([s - a[0], o - a[1]], [s - a[0], a[1]]);
        for g in [p(s - x), p(s - &x), p(&s - x), p(&s - &x)] { cx.known("real-minus-complex", "real-sub", vsame(&g, &w), vsame(&g, &rec), || format!("got {:?}, want {:?}; {}", g, w, desc())); }
        cx.ok("predicates", x.is_zero() == (a == [o, o]) && x.is_one() == (a == [1 as T, o]) && x.is_identity() == x.is_one() && x.is_real() == (a[1] == o) && x.is_imaginary() == (a[0] == o) && x.real() == a[0] && x.imaginary() == a[1], desc);
    });
} )* }; }

macro_rules! signed { ($cx:ident, $($t:ident)*) => { $( for _ in 0..$cx.n(150) {
    type T = $t;
    let (a, b): ([T; 2], [T; 2]) = (std::array::from_fn(|_| $cx.rng.int(-7, 7) as T), std::array::from_fn(|_| $cx.rng.int(-5, 5) as T));
    let s = $cx.rng.int(-9, 9) as T;
    let desc = || format!("a={:?} b={:?} s={:?}", a, b, s);
    $cx.case(concat!("signed ", stringify!($t)), keys(&a), b != [0 as T; 2], desc, |cx| {
        let (x, y) = (Complex::new(a[0], a[1]), Complex::new(b[0], b[1]));
        let n = b[0] * b[0] + b[1] * b[1];
        let mut obs: Obs<T> = vec![("neg", p(-x), [-a[0], -a[1]]), ("neg", p(-&x), [-a[0], -a[1]]), ("conjugate", p(x.conjugate()), [a[0], -a[1]]), ("conjugate-involution", p(x.conjugate().conjugate()), a),
            ("conjugate-multiplicative", p((x * y).conjugate()), p(x.conjugate() * y.conjugate())), ("modulus-from-conjugate", p(x * x.conjugate()), [a[0] * a[0] + a[1] * a[1], 0 as T]),
            ("i-squared", p(Complex::<T>::unit_im() * Complex::unit_im()), [-1 as T, 0 as T])];
        judge(cx, std::mem::take(&mut obs), &desc);
        if n != 0 as T && stringify!($t) != "i8" {
            if <T as Sc>::FLOAT || n.to_f() < 51.0 {
                // exactly divisible dividends
                let m = x * y;
                let mut q = vec![("div-exact", p(m / y)), ("div-exact", p(m / &y)), ("div-exact", p(&m / y)), ("div-exact", p(&m / &y))];
                let (mut u, mut v) = (m, m);
                u /= y;
                v /= &y;
                q.push(("div-assign-exact", p(u)));
                q.push(("div-assign-exact", p(v)));
                for (ev, g) in q { cx.ok(ev, vclose(&g, &a), || format!("got {:?}, want {:?}; {}", g, a, desc())); }
            }
            // real over complex, exactly divisible
            let k = s;
            let big = [k * b[0], k * b[1] - k * b[1] - k * b[1]]; // k * conj(b)
            if <T as Sc>::FLOAT || (n.to_f() * k.to_f()).abs() < 120.0 {
                let r = k * n;
                for g in [p(r / y), p(r / &y), p(&r / y), p(&r / &y)] { cx.ok("real-div-exact", vclose(&g, &big), || format!("got {:?}, want {:?}; {}", g, big, desc())); }
            }
        }
    });
} )* }; }

/// Zeros of both signs, extremes, infinities and NaN: the componentwise operations are the scalar's own, bit by bit
/// (where a real operand leaves the other component alone, up to the sign of a zero).
macro_rules! special { ($cx:ident, $($t:ident)*) => { $( for _ in 0..$cx.n(400) {
    type T = $t;
    let a: [T; 2] = specials(&mut $cx.rng, None);
    let b: [T; 2] = specials(&mut $cx.rng, Some(&a));
    let (s, d) = (<T as Sc>::special(&mut $cx.rng), <T as Sc>::special(&mut $cx.rng));
    let desc = || format!("a={:?} b={:?} s={:?} d={:?}", a, b, s, d);
    $cx.case(concat!("special ", stringify!($t)), [keys(&a), keys(&b), vec![s.key(), d.key()]].concat(), true, desc, |cx| {
        let (x, y) = (Complex::new(a[0], a[1]), Complex::new(b[0], b[1]));
        let f = |g: &dyn Fn(T, T) -> T| [g(a[0], b[0]), g(a[1], b[1])];
        let h = |g: &dyn Fn(T) -> T| [g(a[0]), g(a[1])];
        let (add, sub, sc, dv, rm, ng) = (f(&|p, q| p + q), f(&|p, q| p - q), h(&|p| p * s), h(&|p| p / d), h(&|p| p % d), h(&|p| -p));
        let mut obs: Obs<T> = vec![
            ("add", p(x + y), add), ("add", p(x + &y), add), ("add", p(&x + y), add), ("add", p(&x + &y), add),
            ("sub", p(x - y), sub), ("sub", p(x - &y), sub), ("sub", p(&x - y), sub), ("sub", p(&x - &y), sub),
            ("neg", p(-x), ng), ("neg", p(-&x), ng), ("conjugate", p(x.conjugate()), [a[0], -a[1]]),
            ("mul-real", p(x * s), sc), ("mul-real", p(x * &s), sc), ("mul-real", p(&x * s), sc), ("mul-real", p(&x * &s), sc), ("real-mul", p(s * x), sc), ("real-mul", p(s * &x), sc), ("real-mul", p(&s * x), sc), ("real-mul", p(&s * &x), sc), ("scale", p(x.scale(s)), sc),
            ("div-real", p(x / d), dv), ("div-real", p(x / &d), dv), ("div-real", p(&x / d), dv), ("div-real", p(&x / &d), dv), ("unscale", p(x.unscale(d)), dv),
            ("rem-real", p(x % d), rm), ("rem-real", p(x % &d), rm), ("rem-real", p(&x % d), rm), ("rem-real", p(&x % &d), rm),
        ];
        let mut assign = |ev, want: [T; 2], g: &dyn Fn(&mut Complex<T>)| { let mut m = x; g(&mut m); obs.push((ev, p(m), want)); };
        assign("add-assign", add, &|m| *m += y);
        assign("add-assign", add, &|m| *m += &y);
        assign("sub-assign", sub, &|m| *m -= y);
        assign("sub-assign", sub, &|m| *m -= &y);
        assign("mul-assign-real", sc, &|m| *m *= s);
        assign("mul-assign-real", sc, &|m| *m *= &s);
        assign("div-assign-real", dv, &|m| *m /= d);
        assign("div-assign-real", dv, &|m| *m /= &d);
        assign("rem-assign-real", rm, &|m| *m %= d);
        assign("rem-assign-real", rm, &|m| *m %= &d);
        for (ev, g, w) in &obs { cx.ok(ev, vexact(g, w), || format!("got {:?}, want {:?}; {}", g, w, desc())); }
        let (ar, sr) = ([a[0] + s, a[1]], [a[0] - s, a[1]]);
        let mut obs: Obs<T> = vec![("add-real", p(x + s), ar), ("add-real", p(x + &s), ar), ("add-real", p(&x + s), ar), ("add-real", p(&x + &s), ar), ("real-add", p(s + x), ar), ("real-add", p(s + &x), ar), ("real-add", p(&s + x), ar), ("real-add", p(&s + &x), ar),
            ("sub-real", p(x - s), sr), ("sub-real", p(x - &s), sr), ("sub-real", p(&x - s), sr), ("sub-real", p(&x - &s), sr)];
        let mut assign = |ev, want: [T; 2], g: &dyn Fn(&mut Complex<T>)| { let mut m = x; g(&mut m); obs.push((ev, p(m), want)); };
        assign("add-assign-real", ar, &|m| *m += s);
        assign("add-assign-real", ar, &|m| *m += &s);
        assign("sub-assign-real", sr, &|m| *m -= s);
        assign("sub-assign-real", sr, &|m| *m -= &s);
        for (ev, g, w) in &obs { cx.ok(ev, vsame(g, w), || format!("got {:?}, want {:?}; {}", g, w, desc())); }
        let (mut u, mut v) = (x, x);
        u *= y;
        v *= &y;
        let t = [[(a[0], b[0]), (-a[1], b[1])], [(a[0], b[1]), (a[1], b[0])]];
        for (ev, g) in [("mul", x * y), ("mul", x * &y), ("mul", &x * y), ("mul", &x * &y), ("mul-commutes", y * x), ("mul-assign", u), ("mul-assign", v)] { cx.ok(ev, sum_ok(g.re, &t[0]) && sum_ok(g.im, &t[1]), || format!("got {:?}; {}", g, desc())); }
    });
} )* }; }

fn field(cx: &mut Cx) {
    for _ in 0..cx.n(2000) {
        let r = &mut cx.rng;
        let g = |r: &mut Rng| -> [f64; 2] { match r.below(6) { 0 => [r.val(), 0.0], 1 => [0.0, r.val()], 2 => [0.0, 0.0], 3 => { let m = r.mag(1e-20, 1e9).abs(); [m * r.range(-1.0, 1.0), m * r.range(-1.0, 1.0)] } _ => r.vals() } };
        let (a, b) = (g(r), g(r));
        let s = r.val();
        let desc = || format!("a={:?} b={:?} s={}", a, b, s);
        cx.case("field f64", bits(&[a[0], a[1], b[0], b[1]]), b != [0.0; 2], desc, |cx| {
            let (x, y) = (Complex::new(a[0], a[1]), Complex::new(b[0], b[1]));
            let (na, nb) = (refm::norm(&a), refm::norm(&b));
            let inv = y.try_inverse();
            if nb == 0.0 { cx.ok("inverse-refusal", inv.is_none(), desc); }
            if nb > 1e-15 { cx.ok("inverse-accepted", inv.is_some(), desc); }
            if nb == 0.0 { cx.ok("invertible-predicate", !y.is_invertible(), desc); cx.panics("inverse-of-zero", desc, || { y.inverse(); }); }
            if nb > 1e-15 { cx.ok("invertible-predicate", y.is_invertible(), desc); }
            // within the tolerance the predicate may refuse what has an inverse, never the other way round
            if (nb / f64::EPSILON - 1.0).abs() > 1e-6 { cx.ok("invertible-predicate-agrees", inv.is_some() || !y.is_invertible(), desc); }
            if let (Some(i), true) = (inv, nb > 1e-15) {
                let w = [b[0] / (nb * nb), -b[1] / (nb * nb)];
                cx.near("inverse", &p(i), &w, 1e-13 / nb, desc);
                cx.near("inverse", &p(y.inverse()), &w, 1e-13 / nb, desc);
                cx.near("inverse-law", &p(i * y), &[1.0, 0.0], 1e-13, desc);
                let q = refm::Z(a[0], a[1]).div(refm::Z(b[0], b[1]));
                let tol = 1e-13 * na / nb;
                let (mut u, mut v) = (x, x);
                u /= y;
                v /= &y;
                for (ev, g) in [("div", x / y), ("div", x / &y), ("div", &x / y), ("div", &x / &y), ("div-assign", u), ("div-assign", v)] { cx.near(ev, &p(g), &[q.0, q.1], tol, desc); }
                cx.near("div-mul-round-trip", &p(x / y * y), &a, 4e-13 * na, desc);
                let q = refm::Z(s, 0.0).div(refm::Z(b[0], b[1]));
                for g in [s / y, s / &y, &s / y, &s / &y] { cx.near("real-div", &p(g), &[q.0, q.1], 1e-13 * s.abs() / nb, desc); }
            }
            if nb > 0.0 {
                let u = Unit::from_value(y);
                let w = [b[0] / nb, b[1] / nb];
                for g in [p((-u).into_inner()), p((-&u).into_inner())] { cx.near("unit-neg", &g, &[-w[0], -w[1]], 1e-14, desc); }
            }
            cx.near("modulus-multiplicative", &[(x * y).modulus()], &[na * nb], 1e-12 * na * nb, desc);
            cx.near("modulus", &[x.modulus(), x.norm(), x.magnitude()], &[na; 3], 1e-13 * na, desc);
            if na > 0.0 { cx.near("arg", &[x.arg()], &[a[1].atan2(a[0])], 4e-15, desc); }
        });
    }
}

fn single(cx: &mut Cx) {
    for _ in 0..cx.n(2000) {
        let a: [f64; 5] = singles(&mut cx.rng);
        let desc = || format!("a={:?}", a);
        cx.case("single precision", bits(&a), true, desc, |cx| {
            both!(cx, "single", 1e-5, desc, {
                let (x, y, s) = (Complex::<S>::new(a[0] as S, a[1] as S), Complex::<S>::new(a[2] as S, a[3] as S), a[4] as S);
                let (mut d, mut e) = (x, x);
                d /= y;
                e *= y;
                let mut o: Vec<S> = vec![x.modulus(), x.is_invertible() as u8 as S, x.is_finite() as u8 as S];
                for z in [x.inverse(), x.try_inverse().unwrap_or(y), x / y, &x / &y, s / x, x * y, x / s, d, e, -x, -&x, x.conjugate(), x.squared()] { o.extend([z.re, z.im]); }
                o
            });
        });
    }
}

fn main() {
    let mut c = Cx::new("C12", "ring laws and every operand form over all 14 scalar types with full-range wrapping integers and small-integer floats; zeros of both signs, extremes, infinities and NaN bit by bit; exactly divisible integer quotients; f64 field laws on real, imaginary, zero, tiny, huge and general values; non-trivial: both imaginary parts (ring) or the divisor (field) non-zero");
    let cx = &mut c;
    ring!(cx, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
    signed!(cx, i8 i16 i32 i64 i128 isize f32 f64);
    special!(cx, f32 f64);
    field(cx);
    single(cx);
    cx.require(&["single", "add", "sub", "mul", "real-sub", "real-mul", "div-exact", "div-assign-exact", "real-div-exact", "inverse-refusal", "inverse-accepted", "unit-neg", "inverse", "div", "real-div", "mul-associates", "conjugate"]);
    c.finish();
}
