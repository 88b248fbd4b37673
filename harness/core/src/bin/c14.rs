//! C14: the quaternion division ring.
use h_core::*;

type Obs<T> = Vec<(&'static str, [T; 4], [T; 4])>;
fn judge<T: Sc>(cx: &mut Cx, obs: Obs<T>, desc: &dyn Fn() -> String) {
    for (ev, g, w) in &obs { cx.ok(ev, if ev.contains("div") { vclose(g, w) } else { vsame(g, w) }, || format!("got {:?}, want {:?}; {}", g, w, desc())); }
}
fn p<T: Sc>(q: Quaternion<T>) -> [T; 4] { [q[0], q[1], q[2], q[3]] }
fn mk<T: Copy>(a: [T; 4]) -> Quaternion<T> { Quaternion::new(a[0], a[1], a[2], a[3]) }

macro_rules! ring { ($cx:ident, $($t:ident)*) => { $( for _ in 0..$cx.n(150) {
    type T = $t;
    // general floats: the products are judged by their rounding error, the rest exactly
    let wd = <T as Sc>::FLOAT && $cx.rng.bool();
    let mut g = || -> [T; 4] { if wd { wide_finite(&mut $cx.rng) } else { exacts(&mut $cx.rng) } };
    let (a, b, c, s) = (g(), g(), g(), g()[0]);
    let d = <T as Sc>::divisor(&mut $cx.rng);
    let mut key = keys(&a);
    key.extend(keys(&b));
    let desc = || format!("a={:?} b={:?} c={:?} s={:?} d={:?}", a, b, c, s, d);
    $cx.case(concat!("ring ", stringify!($t)), key, a[1..] != [0 as T; 3] && b[1..] != [0 as T; 3], desc, |cx| {
        let (x, y, z) = (mk(a), mk(b), mk(c));
        let o = 0 as T;
        let i = 1 as T;
        let add: [T; 4] = std::array::from_fn(|k| a[k] + b[k]);
        let sub: [T; 4] = std::array::from_fn(|k| a[k] - b[k]);
        let ms: [T; 4] = std::array::from_fn(|k| a[k] * s);
        let dv: [T; 4] = std::array::from_fn(|k| a[k] / d);
        let rm: [T; 4] = std::array::from_fn(|k| a[k] % d);
        let hm = |a: [T; 4], b: [T; 4]| -> [T; 4] { [
            a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
        ] };
        let mul = hm(a, b);
        let m1 = o - std::hint::black_box(i);
        let mut obs: Obs<T> = vec![
            ("components", p(x), a), ("add", p(x + y), add), ("add", p(x + &y), add), ("add", p(&x + y), add), ("add", p(&x + &y), add),
            ("sub", p(x - y), sub), ("sub", p(x - &y), sub), ("sub", p(&x - y), sub), ("sub", p(&x - &y), sub),
            ("mul", p(x * y), mul), ("mul", p(x * &y), mul), ("mul", p(&x * y), mul), ("mul", p(&x * &y), mul),
            ("scale", p(x * s), ms), ("scale", p(x * &s), ms), ("scale", p(&x * s), ms), ("scale", p(&x * &s), ms),
            ("scale-left", p(s * x), ms), ("scale-left", p(s * &x), ms), ("scale-left", p(&s * x), ms), ("scale-left", p(&s * &x), ms),
            ("div-scalar", p(x / d), dv), ("div-scalar", p(x / &d), dv), ("div-scalar", p(&x / d), dv), ("div-scalar", p(&x / &d), dv),
            ("rem-scalar", p(x % d), rm), ("rem-scalar", p(x % &d), rm), ("rem-scalar", p(&x % d), rm), ("rem-scalar", p(&x % &d), rm),
            ("distributive", p(x * (y + z)), p(x * y + x * z)), ("distributive", p((x + y) * z), p(x * z + y * z)),
            ("neutral", p(x * Quaternion::identity()), a), ("neutral", p(Quaternion::one() * x), a), ("neutral", p(x + Quaternion::zero()), a),
            ("units", p(Quaternion::<T>::unit_s()), [i, o, o, o]), ("units", p(Quaternion::<T>::unit_x()), [o, i, o, o]), ("units", p(Quaternion::<T>::unit_y()), [o, o, i, o]), ("units", p(Quaternion::<T>::unit_z()), [o, o, o, i]),
            ("ij=k", p(Quaternion::<T>::unit_x() * Quaternion::unit_y()), [o, o, o, i]), ("jk=i", p(Quaternion::<T>::unit_y() * Quaternion::unit_z()), [o, i, o, o]), ("ki=j", p(Quaternion::<T>::unit_z() * Quaternion::unit_x()), [o, o, i, o]),
            ("ii=jj=kk=ijk=-1", p(Quaternion::<T>::unit_x() * Quaternion::unit_x()), [m1, o, o, o]), ("ii=jj=kk=ijk=-1", p(Quaternion::<T>::unit_y() * Quaternion::unit_y()), [m1, o, o, o]),
            ("ii=jj=kk=ijk=-1", p(Quaternion::<T>::unit_z() * Quaternion::unit_z()), [m1, o, o, o]), ("ii=jj=kk=ijk=-1", p(Quaternion::<T>::unit_x() * Quaternion::unit_y() * Quaternion::unit_z()), [m1, o, o, o]),
            ("parts", p(Quaternion::from_parts(a[0], Vector3::from([a[1], a[2], a[3]]))), a), ("from-real", p(Quaternion::from_real(s)), [s, o, o, o]), ("from-pure", p(Quaternion::from_pure(Vector3::from([a[1], a[2], a[3]]))), [o, a[1], a[2], a[3]]),
            ("from-vector", p(Quaternion::from_vector(Vector4::from(a))), a), ("fill", p(Quaternion::from_fill(s)), [s; 4]),
        ];
        if !<T as Sc>::FLOAT || stringify!($t) == "f64" { obs.push(("mul-associates", p((x * y) * z), p(x * (y * z)))); }
        let mut assign = |ev, want: [T; 4], f: &dyn Fn(&mut Quaternion<T>)| { let mut m = x; f(&mut m); obs.push((ev, p(m), want)); };
        assign("add-assign", add, &|m| *m += y);
        assign("add-assign", add, &|m| *m += &y);
        assign("sub-assign", sub, &|m| *m -= y);
        assign("sub-assign", sub, &|m| *m -= &y);
        assign("mul-assign-scalar", ms, &|m| *m *= s);
        assign("div-assign-scalar", dv, &|m| *m /= d);
        assign("rem-assign-scalar", rm, &|m| *m %= d);
        if wd {
            let t = |k: usize| -> [(T, T); 4] { let n = |x: T| o - x; [
                [(a[0], b[0]), (n(a[1]), b[1]), (n(a[2]), b[2]), (n(a[3]), b[3])], [(a[0], b[1]), (a[1], b[0]), (a[2], b[3]), (n(a[3]), b[2])],
                [(a[0], b[2]), (n(a[1]), b[3]), (a[2], b[0]), (a[3], b[1])], [(a[0], b[3]), (a[1], b[2]), (n(a[2]), b[1]), (a[3], b[0])]][k] };
            for (ev, g, _) in &obs { if *ev == "mul" { cx.ok(ev, (0..4).all(|k| sum_ok(g[k], &t(k))), || format!("got {:?}; {}", g, desc())); } }
            let (tab, taa): ([(T, T); 4], [(T, T); 4]) = (std::array::from_fn(|k| (a[k], b[k])), std::array::from_fn(|k| (a[k], a[k])));
            cx.ok("dot", sum_ok(x.dot(&y), &tab) && sum_ok(y.dot(&x), &tab), desc);
            cx.ok("norm-squared", [x.modulus_squared(), Quaternion::norm_squared(&x), x.magnitude_squared(), x.dot(&x)].iter().all(|g| sum_ok(*g, &taa)), desc);
            obs.retain(|o| !["mul", "mul-associates", "distributive"].contains(&o.0));
            judge(cx, obs, &desc);
            cx.ok("part accessors", x.scalar().same(a[0]) && vsame(&vs(&x.vector()), &a[1..]), desc);
            return;
        }
        judge(cx, obs, &desc);
        let dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3];
        let nn = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
        let dd = sub[0] * sub[0] + sub[1] * sub[1] + sub[2] * sub[2] + sub[3] * sub[3];
        cx.ok("dot", x.dot(&y).same(dot) && y.dot(&x).same(dot), desc);
        cx.ok("norm-squared", x.modulus_squared().same(nn) && Quaternion::norm_squared(&x).same(nn) && x.magnitude_squared().same(nn) && x.dot(&x).same(nn), desc);
        if stringify!($t).starts_with(['i', 'f']) { cx.ok("metric-distance-squared", x.metric_distance_squared(&y).same(dd), desc); }
        cx.ok("part accessors", x.scalar().same(a[0]) && vsame(&vs(&x.vector()), &a[1..]), desc);
        cx.ok("predicates", x.is_zero() == (a == [o; 4]) && x.is_identity() == (a == [i, o, o, o]) && x.is_pure() == (a[0] == o) && x.is_real() == (a[1..] == [o; 3]), desc);
    });
} )* }; }

/// Zeros of both signs, extremes, infinities and NaN: the componentwise operations are the scalar's own, bit by bit.
macro_rules! special { ($cx:ident, $($t:ident)*) => { $( for _ in 0..$cx.n(400) {
    type T = $t;
    let a: [T; 4] = specials(&mut $cx.rng, None);
    let b: [T; 4] = specials(&mut $cx.rng, Some(&a));
    let (s, d) = (<T as Sc>::special(&mut $cx.rng), <T as Sc>::special(&mut $cx.rng));
    let desc = || format!("a={:?} b={:?} s={:?} d={:?}", a, b, s, d);
    $cx.case(concat!("special ", stringify!($t)), [keys(&a), keys(&b), vec![s.key(), d.key()]].concat(), true, desc, |cx| {
        let (x, y) = (mk(a), mk(b));
        let f = |g: &dyn Fn(T, T) -> T| -> [T; 4] { std::array::from_fn(|k| g(a[k], b[k])) };
        let (add, sub, ms, dv, rm, ng, hf) = (f(&|p, q| p + q), f(&|p, q| p - q), f(&|p, _| p * s), f(&|p, _| p / d), f(&|p, _| p % d), f(&|p, _| -p), f(&|p, _| p / (2 as T)));
        let cj = [a[0], -a[1], -a[2], -a[3]];
        let mut obs: Obs<T> = vec![
            ("components", p(x), a), ("add", p(x + y), add), ("add", p(x + &y), add), ("add", p(&x + y), add), ("add", p(&x + &y), add),
            ("sub", p(x - y), sub), ("sub", p(x - &y), sub), ("sub", p(&x - y), sub), ("sub", p(&x - &y), sub),
            ("scale", p(x * s), ms), ("scale", p(x * &s), ms), ("scale", p(&x * s), ms), ("scale", p(&x * &s), ms),
            ("scale-left", p(s * x), ms), ("scale-left", p(s * &x), ms), ("scale-left", p(&s * x), ms), ("scale-left", p(&s * &x), ms),
            ("div-scalar", p(x / d), dv), ("div-scalar", p(x / &d), dv), ("div-scalar", p(&x / d), dv), ("div-scalar", p(&x / &d), dv),
            ("rem-scalar", p(x % d), rm), ("rem-scalar", p(x % &d), rm), ("rem-scalar", p(&x % d), rm), ("rem-scalar", p(&x % &d), rm),
            ("neg", p(-x), ng), ("neg", p(-&x), ng), ("conjugate", p(x.conjugate()), cj),
            ("parts", p(Quaternion::from_parts(a[0], Vector3::from([a[1], a[2], a[3]]))), a), ("from-vector", p(Quaternion::from_vector(Vector4::from(a))), a), ("fill", p(Quaternion::from_fill(s)), [s; 4]),
        ];
        let mut assign = |ev, want: [T; 4], g: &dyn Fn(&mut Quaternion<T>)| { let mut m = x; g(&mut m); obs.push((ev, p(m), want)); };
        assign("add-assign", add, &|m| *m += y);
        assign("add-assign", add, &|m| *m += &y);
        assign("sub-assign", sub, &|m| *m -= y);
        assign("sub-assign", sub, &|m| *m -= &y);
        assign("mul-assign-scalar", ms, &|m| *m *= s);
        assign("div-assign-scalar", dv, &|m| *m /= d);
        assign("rem-assign-scalar", rm, &|m| *m %= d);
        assign("conjugate-mut", cj, &|m| m.conjugate_mut());
        for (ev, g, w) in &obs { cx.ok(ev, vexact(g, w), || format!("got {:?}, want {:?}; {}", g, w, desc())); }
        cx.ok("half", vsame(&p(x.half()), &hf), || format!("got {:?}, want {:?}; {}", x.half(), hf, desc()));
        let n = |x: T| -x;
        let t = [[(a[0], b[0]), (n(a[1]), b[1]), (n(a[2]), b[2]), (n(a[3]), b[3])], [(a[0], b[1]), (a[1], b[0]), (a[2], b[3]), (n(a[3]), b[2])],
            [(a[0], b[2]), (n(a[1]), b[3]), (a[2], b[0]), (a[3], b[1])], [(a[0], b[3]), (a[1], b[2]), (n(a[2]), b[1]), (a[3], b[0])]];
        for g in [x * y, x * &y, &x * y, &x * &y] { cx.ok("mul", (0..4).all(|k| sum_ok(g[k], &t[k])), || format!("got {:?}; {}", g, desc())); }
    });
} )* }; }

macro_rules! signed { ($cx:ident, $($t:ident)*) => { $( for _ in 0..$cx.n(150) {
    type T = $t;
    let (a, b): ([T; 4], [T; 4]) = (exacts(&mut $cx.rng), exacts(&mut $cx.rng));
    let desc = || format!("a={:?} b={:?}", a, b);
    $cx.case(concat!("signed ", stringify!($t)), keys(&a), a != b, desc, |cx| {
        let (x, y) = (mk(a), mk(b));
        let o = 0 as T;
        let neg: [T; 4] = std::array::from_fn(|k| o - a[k]);
        let conj = [a[0], o - a[1], o - a[2], o - a[3]];
        let mut m = x;
        m.conjugate_mut();
        let nn = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
        let obs: Obs<T> = vec![("neg", p(-x), neg), ("neg", p(-&x), neg), ("conjugate", p(x.conjugate()), conj), ("conjugate-mut", p(m), conj), ("conjugate-involution", p(x.conjugate().conjugate()), a),
            ("conjugate-reverses-products", p((x * y).conjugate()), p(y.conjugate() * x.conjugate())), ("norm-from-conjugate", p(x * x.conjugate()), [nn, o, o, o]), ("norm-from-conjugate", p(x.conjugate() * x), [nn, o, o, o]),
            ("squared", p(x.squared()), p(x * x))];
        judge(cx, obs, &desc);
        if <T as Sc>::FLOAT {
            let h: [T; 4] = std::array::from_fn(|k| a[k] / (2 as T));
            cx.ok("half", vsame(&p(x.half()), &h), desc);
        }
    });
} )* }; }

fn division(cx: &mut Cx) {
    for _ in 0..cx.n(2500) {
        let r = &mut cx.rng;
        let g = |r: &mut Rng| -> [f64; 4] { match r.below(7) { 0 => [r.val(), 0.0, 0.0, 0.0], 1 => [0.0, r.val(), r.val(), r.val()], 2 => [0.0; 4], 3 => { let m = r.mag(1e-20, 1e9).abs(); r.arr(|r| m * r.range(-1.0, 1.0)) } 4 => r.dir(), _ => r.vals() } };
        let a = g(r);
        let b = match r.below(10) { 0 => a, 1 => refm::qconj(&a), 2 => refm::scale(&a, r.val()), 3 => { let (s, t) = (r.val(), r.val()); [s, t * a[1], t * a[2], t * a[3]] } _ => g(r) }; // related: equal, conjugate, multiple, commuting
        let desc = || format!("a={:?} b={:?}", a, b);
        let mut key = bits(&a);
        key.extend(bits(&b));
        cx.case("division f64", key, b != [0.0; 4], desc, |cx| {
            let (x, y) = (mk(a), mk(b));
            let (na, nb) = (refm::norm(&a), refm::norm(&b));
            let inv = y.try_inverse();
            // the library treats a norm within its default epsilon as zero
            if nb == 0.0 {
                cx.ok("inverse-refusal", inv.is_none() && !y.is_invertible() && x.div_left(&y).is_none() && x.div_right(&y).is_none(), desc);
                cx.panics("inverse-of-zero", desc, || { y.inverse(); });
            } else if nb > 1e-15 {
                cx.ok("inverse-exists", inv.is_some() && y.is_invertible(), desc);
            }
            // within the tolerance both answers are allowed, but not different ones
            if (nb / f64::EPSILON - 1.0).abs() > 1e-6 { cx.ok("invertible-predicate-agrees", inv.is_some() == y.is_invertible(), desc); }
            if let (Some(i), true) = (inv, nb > 1e-15) {
                let w = refm::scale(&refm::qconj(&b), 1.0 / (nb * nb));
                cx.near("inverse", &p(i), &w, 1e-13 / nb, desc);
                cx.near("inverse", &p(y.inverse()), &w, 1e-13 / nb, desc);
                cx.near("inverse-two-sided", &p(i * y), &[1.0, 0.0, 0.0, 0.0], 1e-13, desc);
                cx.near("inverse-two-sided", &p(y * i), &[1.0, 0.0, 0.0, 0.0], 1e-13, desc);
                let (l, rr) = (x.div_left(&y), x.div_right(&y));
                cx.ok("division-exists", l.is_some() && rr.is_some(), desc);
                if let (Some(l), Some(rr)) = (l, rr) {
                    cx.near("div-left", &p(l), &refm::qmul(&w, &a), 1e-12 * na / nb, desc);
                    cx.near("div-right", &p(rr), &refm::qmul(&a, &w), 1e-12 * na / nb, desc);
                    cx.near("div-left undone", &p(y * l), &a, 1e-12 * na, desc);
                    cx.near("div-right undone", &p(rr * y), &a, 1e-12 * na, desc);
                }
                let k = refm::dot(&a, &b) / (nb * nb);
                let pr = refm::scale(&b, k);
                cx.near("project", &p(x.project(&y)), &pr, 1e-12 * na, desc);
                cx.near("reject", &p(x.reject(&y)), &refm::sub(&a, &pr), 1e-12 * na, desc);
            }
            if nb > 1e-15 {
                let u = Unit::from_value(y);
                let w = refm::scale(&b, -1.0 / nb);
                for g in [p((-u).into_inner()), p((-&u).into_inner())] { cx.near("unit-neg", &g, &w, 1e-14, desc); }
            }
            let (ab, ba) = (refm::qmul(&a, &b), refm::qmul(&b, &a));
            cx.near("inner", &p(x.inner(&y)), &refm::scale(&refm::add(&ab, &ba), 0.5), 1e-12 * na * nb, desc);
            cx.near("outer", &p(x.outer(&y)), &refm::scale(&refm::sub(&ab, &ba), 0.5), 1e-12 * na * nb, desc);
            cx.near("norm-multiplicative", &[(x * y).modulus()], &[na * nb], 1e-12 * na * nb, desc);
            cx.near("norm", &[x.modulus(), Quaternion::norm(&x), x.magnitude(), x.l2_norm()], &[na; 4], 1e-13 * na, desc);
            cx.near("metric-distance", &[x.metric_distance(&y)], &[refm::norm(&refm::sub(&a, &b))], 1e-12 * (na + nb), desc);
        });
    }
}

fn single(cx: &mut Cx) {
    for _ in 0..cx.n(2000) {
        let a: [f64; 9] = singles(&mut cx.rng);
        let desc = || format!("a={:?}", a);
        cx.case("single precision", bits(&a), true, desc, |cx| {
            both!(cx, "single", 1e-5, desc, {
                let b = a.map(|x| x as S);
                let (x, y, s) = (Quaternion::<S>::new(b[0], b[1], b[2], b[3]), Quaternion::<S>::new(b[4], b[5], b[6], b[7]), b[8]);
                let mut o: Vec<S> = vec![x.dot(&y), x.norm(), x.is_invertible() as u8 as S, x.is_finite() as u8 as S];
                for z in [x.inverse(), x.try_inverse().unwrap_or(y), x * y, &x * &y, x * s, s * x, x / s, -x, -&x, x.conjugate(), x.squared(), x.inner(&y), x.outer(&y), x.div_left(&y).unwrap_or(y), x.div_right(&y).unwrap_or(y), x.project(&y), x.reject(&y)] { o.extend([z[0], z[1], z[2], z[3]]); }
                o
            });
        });
    }
}

fn main() {
    let mut c = Cx::new("C14", "ring laws, Hamilton's relations and every operand form over all 14 scalar types with full-range wrapping integers and small-integer floats; f64 division laws on real, pure, zero, unit, tiny, huge and general values; non-trivial: both vector parts (ring), or the divisor (division) non-zero");
    let cx = &mut c;
    ring!(cx, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
    special!(cx, f32 f64);
    signed!(cx, i8 i16 i32 i64 i128 isize f32 f64);
    division(cx);
    single(cx);
    cx.require(&["single", "add", "sub", "mul", "scale-left", "ijk", "inverse", "inverse-refusal", "unit-neg", "div-left", "div-right", "project", "inner", "outer", "conjugate-reverses-products", "mul-associates"].map(|e| if e == "ijk" { "ii=jj=kk=ijk=-1" } else { e }));
    c.finish();
}
