//! C21: approximate comparison of composite values is the conjunction of the scalar comparisons.
use approx_cmp::*;
use h_core::*;

type Tol<T> = <T as AbsDiffEq>::Tolerance;
type Utol<T> = <T as UlpsEq>::UlpsTolerance;

/// A composite type: how to build a value from parameters, what its components are, and how a
/// list of per-component tolerances is packed into its tolerance type (same order as `comps`).
trait Subject: Sized + AbsDiffEq + AbsDiffAllEq<AllTolerance = f64> + RelativeEq<Tolerance = Tol<Self>> + RelativeAllEq<AllTolerance = f64>
    + UlpsEq<Tolerance = Tol<Self>> + UlpsAllEq<AllTolerance = f64, AllUlpsTolerance = u64>
    + AssertAbsDiffEq + AssertAbsDiffAllEq + AssertRelativeEq + AssertRelativeAllEq + AssertUlpsEq + AssertUlpsAllEq
where Tol<Self>: Sized
{
    fn name() -> String;
    /// Number of parameters.
    const P: usize;
    /// Whether any parameter value (NaN, infinity, any magnitude) may be given.
    const FREE: bool;
    fn make(p: &[f64]) -> Self;
    fn comps(&self) -> Vec<f64>;
    fn tol(t: &[f64]) -> Tol<Self>;
    fn utol(t: &[u64]) -> Utol<Self>;
    fn gen(r: &mut Rng) -> Vec<f64> { (0..Self::P).map(|_| r.nz()).collect() }
}

fn vec_of<T: Copy, const N: usize>(t: &[T]) -> Vector<T, N> { Vector::<T, N>::from(std::array::from_fn::<T, N, _>(|i| t[i])) }
fn mat_of<T: Copy, const R: usize, const C: usize>(t: &[T]) -> Matrix<T, R, C> { Matrix::<T, R, C>::from(std::array::from_fn::<[T; R], C, _>(|c| std::array::from_fn(|r| t[c * R + r]))) }
fn unit_of<const N: usize>(t: &[f64]) -> Unit<Vector<f64, N>> { Unit::from_value_unchecked(vec_of(t)) }

impl<const N: usize> Subject for Vector<f64, N> {
    fn name() -> String { format!("vector{}", N) }
    const P: usize = N;
    const FREE: bool = true;
    fn make(p: &[f64]) -> Self { vec_of(p) }
    fn comps(&self) -> Vec<f64> { vs(self) }
    fn tol(t: &[f64]) -> Tol<Self> { vec_of(t) }
    fn utol(t: &[u64]) -> Utol<Self> { vec_of(t) }
}
impl<const N: usize> Subject for Point<f64, N> {
    fn name() -> String { format!("point{}", N) }
    const P: usize = N;
    const FREE: bool = true;
    fn make(p: &[f64]) -> Self { Point::<f64, N>::from(std::array::from_fn::<f64, N, _>(|i| p[i])) }
    fn comps(&self) -> Vec<f64> { ps(self) }
    fn tol(t: &[f64]) -> Tol<Self> { vec_of(t) }
    fn utol(t: &[u64]) -> Utol<Self> { vec_of(t) }
}
impl<const R: usize, const C: usize> Subject for Matrix<f64, R, C> {
    fn name() -> String { format!("matrix{}x{}", R, C) }
    const P: usize = R * C;
    const FREE: bool = true;
    fn make(p: &[f64]) -> Self { mat_of(p) }
    fn comps(&self) -> Vec<f64> { ms(self) }
    fn tol(t: &[f64]) -> Tol<Self> { mat_of(t) }
    fn utol(t: &[u64]) -> Utol<Self> { mat_of(t) }
}
impl<const N: usize> Subject for Unit<Vector<f64, N>> {
    fn name() -> String { format!("unit-vector{}", N) }
    const P: usize = N;
    const FREE: bool = true;
    fn make(p: &[f64]) -> Self { unit_of(p) }
    fn comps(&self) -> Vec<f64> { vs(self.as_ref()) }
    fn tol(t: &[f64]) -> Tol<Self> { vec_of(t) }
    fn utol(t: &[u64]) -> Utol<Self> { vec_of(t) }
}
impl Subject for Unit<Quaternion<f64>> {
    fn name() -> String { "unit-quaternion".into() }
    const P: usize = 4;
    const FREE: bool = true;
    fn make(p: &[f64]) -> Self { Unit::from_value_unchecked(Quaternion::new(p[0], p[1], p[2], p[3])) }
    fn comps(&self) -> Vec<f64> { qa(self.as_ref()).to_vec() }
    fn tol(t: &[f64]) -> Tol<Self> { vec_of(t) }
    fn utol(t: &[u64]) -> Utol<Self> { vec_of(t) }
}
impl Subject for Quaternion<f64> {
    fn name() -> String { "quaternion".into() }
    const P: usize = 4;
    const FREE: bool = true;
    fn make(p: &[f64]) -> Self { Quaternion::new(p[0], p[1], p[2], p[3]) }
    fn comps(&self) -> Vec<f64> { qa(self).to_vec() }
    fn tol(t: &[f64]) -> Tol<Self> { vec_of(t) }
    fn utol(t: &[u64]) -> Utol<Self> { vec_of(t) }
}
impl Subject for Complex<f64> {
    fn name() -> String { "complex".into() }
    const P: usize = 2;
    const FREE: bool = true;
    fn make(p: &[f64]) -> Self { Complex::new(p[0], p[1]) }
    fn comps(&self) -> Vec<f64> { vec![self.real(), self.imaginary()] }
    fn tol(t: &[f64]) -> Tol<Self> { Complex::new(t[0], t[1]) }
    fn utol(t: &[u64]) -> Utol<Self> { Complex::new(t[0], t[1]) }
}
macro_rules! angles { ($($T:ident $n:literal $e:literal;)*) => {$(
    impl Subject for $T<f64> {
        fn name() -> String { $n.into() }
        const P: usize = 1;
        const FREE: bool = true;
        fn make(p: &[f64]) -> Self { $T(p[0]) }
        fn comps(&self) -> Vec<f64> { vec![self.0] }
        fn tol(t: &[f64]) -> Tol<Self> { t[0] }
        fn utol(t: &[u64]) -> Utol<Self> { t[0] }
    }
    impl Subject for Euler<$T<f64>> {
        fn name() -> String { $e.into() }
        const P: usize = 3;
        const FREE: bool = true;
        fn make(p: &[f64]) -> Self { Euler::new($T(p[0]), $T(p[1]), $T(p[2])) }
        fn comps(&self) -> Vec<f64> { vec![self.x.0, self.y.0, self.z.0] }
        fn tol(t: &[f64]) -> Tol<Self> { Euler::new(t[0], t[1], t[2]) }
        fn utol(t: &[u64]) -> Utol<Self> { Euler::new(t[0], t[1], t[2]) }
    }
)*} }
angles!(Radians "radians" "euler-radians"; Degrees "degrees" "euler-degrees";);

fn down(x: f64) -> f64 { if x > 0.0 { f64::from_bits(x.to_bits() - 1) } else { 0.0 } }
fn up(x: f64) -> f64 { if x < f64::MAX { f64::from_bits(x.to_bits() + 1) } else { x } }
fn steps(a: f64, b: f64) -> u64 { if a.is_nan() || b.is_nan() || a.is_sign_negative() != b.is_sign_negative() { 0 } else { a.to_bits().max(b.to_bits()) - a.to_bits().min(b.to_bits()) } }

fn perturb(r: &mut Rng, x: f64, free: bool) -> f64 {
    match r.below(if free { 14 } else { 9 }) {
        0 | 1 => { let k = 1 + r.below(8) as u64; if x == 0.0 { f64::from_bits(k) } else if r.bool() { f64::from_bits(x.to_bits() + k) } else { f64::from_bits(x.to_bits().saturating_sub(k)) } }
        2 | 3 => x * (1.0 + r.mag(1e-14, 1e-3)),
        4 | 5 => x + r.mag(1e-6, 1.0),
        6 => x * r.range(0.5, 2.0),
        7 => x + r.val(),
        8 => x,
        9 => -x,
        10 => f64::NAN,
        11 => f64::INFINITY * r.sign(),
        12 => if x == 0.0 { -x } else { 0.0 },
        _ => r.mag(1e-300, 1e300),
    }
}

/// Tolerances that isolate components: every component passes, except possibly component j.
fn tolerances(r: &mut Rng, d: &[f64]) -> Vec<f64> {
    let n = d.len();
    let j = r.below(n);
    let mode = r.below(7);
    (0..n).map(|i| {
        let d = if d[i].is_finite() { d[i] } else { 1e300 };
        match mode {
            0 => d,
            1 => up(d) * 2.0,
            2 | 3 => if i == j { down(d) } else if r.bool() { up(d) } else { d * 4.0 + 1e-3 },
            4 => if i == j { d * 0.25 } else { up(up(d)) * 1.5 },
            6 => *r.pick(&[f64::INFINITY, f64::MAX, 0.0, f64::MIN_POSITIVE, f64::EPSILON, 1e300, d]),
            _ => match r.below(4) { 0 => 0.0, 1 => d, 2 => down(d), _ => r.mag(1e-12, 10.0).abs() },
        }
    }).collect()
}

/// The numbers a report shows, whatever the names and nesting around them.
fn tokens(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split(|c: char| !(c.is_alphanumeric() || "._-+".contains(c))).filter(|t| *t == "None" || *t == "NaN" || *t == "inf" || *t == "-inf" || t.starts_with(|c: char| c.is_ascii_digit() || c == '-')).map(|t| t.to_string()).collect();
    v.sort();
    v
}
fn same_report(got: &dyn std::fmt::Debug, want: &[&dyn std::fmt::Debug]) -> bool {
    let mut w: Vec<String> = want.iter().flat_map(|d| tokens(&format!("{:?}", d))).collect();
    w.sort();
    tokens(&format!("{:?}", got)) == w
}
macro_rules! report { ($cx:expr, $ev:expr, $desc:expr, $k:expr, $got:expr, |$i:ident| $want:expr) => {{
    let got = $got;
    let want: Vec<_> = (0..$k).map(|$i| $want).collect();
    let w: Vec<&dyn std::fmt::Debug> = want.iter().map(|x| x as &dyn std::fmt::Debug).collect();
    $cx.ok($ev, same_report(&got, &w), || format!("report {:?} want the numbers {:?}; {}", got, w, $desc()));
}}; }

fn run<S: Subject>(cx: &mut Cx, n: usize) where Tol<S>: Sized {
    let name = S::name();
    let ev = |k: &str| -> &'static str { Box::leak(format!("{}:{}", name, k).into_boxed_str()) };
    let (ea, ear, eu) = (ev("abs"), ev("relative"), ev("ulps"));
    let (eaa, era, eua) = (ev("abs-all"), ev("relative-all"), ev("ulps-all"));
    let (es, ene, erf) = (ev("symmetric"), ev("negation"), ev("reflexive"));
    let (ed, edr, edu) = (ev("abs-report"), ev("relative-report"), ev("ulps-report"));
    for _ in 0..cx.n(n) {
        let r = &mut cx.rng;
        let p = { let mut p = S::gen(r); if S::FREE {
            if r.chance(1, 5) { let s = r.mag(1e-7, 1e7); for x in p.iter_mut() { *x *= s } }
             for x in p.iter_mut() { if r.chance(1, 12) { *x = if r.bool() { 0.0 } else { r.mag(1e-200, 1e200) } } } } p };
        let mut p = p;
        let mut q = p.clone();
        let mut hits = match r.below(4) { 0 => 0, 1 | 2 => 1, _ => 1 + r.below(S::P) };
        // values that denote the same thing in another sense, or are related as a whole
        if r.chance(1, 4) {
            if r.chance(3, 4) { hits = 0; }
            let (from, upto) = { let (i, j) = (r.below(S::P), r.below(S::P)); if r.bool() { (0, S::P) } else { (i.min(j), i.max(j) + 1) } };
            match r.below(if S::FREE { 8 } else { 2 }) {
                0 => for x in &mut q[from..upto] { *x = -*x },
                1 => { let t = *r.pick(&[std::f64::consts::PI, std::f64::consts::TAU, -std::f64::consts::TAU, 180.0, 360.0, -360.0, 90.0, std::f64::consts::FRAC_PI_2]); let z = S::FREE && r.bool(); for i in from..upto { if z { p[i] = *r.pick(&[0.0, t, -t, -0.5 * t]); q[i] = p[i]; } q[i] += t } }
                2 => q[from..upto].reverse(),
                3 => q[from..upto].rotate_left(1),
                4 => { let s = *r.pick(&[2.0, -2.0, 0.5, 0.0, -0.0, 1e3]); for x in &mut q[from..upto] { *x *= s } }
                5 => for i in from..upto { (p[i], q[i]) = *r.pick(&[(0.0, -0.0), (f64::NAN, f64::NAN), (f64::INFINITY, f64::INFINITY), (f64::INFINITY, f64::NEG_INFINITY), (f64::NEG_INFINITY, f64::NEG_INFINITY), (f64::INFINITY, f64::MAX), (f64::MIN, f64::NEG_INFINITY), (f64::MAX, f64::MIN), (f64::NAN, f64::INFINITY), (f64::from_bits(1), -f64::from_bits(1)), (0.0, f64::MIN_POSITIVE)]) },
                6 => { let i = r.below(S::P); (p[i], q[i]) = *r.pick(&[(f64::NAN, f64::NAN), (f64::INFINITY, f64::INFINITY), (f64::INFINITY, f64::NEG_INFINITY), (f64::NEG_INFINITY, f64::MIN), (0.0, -0.0), (f64::NAN, 1.0), (-f64::NAN, f64::NAN)]); }
                _ => { let k = r.below(S::P); q = p.iter().cycle().skip(k).take(S::P).copied().collect(); }
            }
        }
        for _ in 0..hits { let i = r.below(S::P); q[i] = perturb(r, q[i], S::FREE); }
        let (x, y) = (S::make(&p), S::make(&q));
        let (a, b) = (x.comps(), y.comps());
        let k = a.len();
        let d: Vec<f64> = (0..k).map(|i| (a[i] - b[i]).abs()).collect();
        let rel: Vec<f64> = (0..k).map(|i| d[i] / a[i].abs().max(b[i].abs())).map(|v| if v.is_finite() { v } else { 0.5 }).collect();
        let ul: Vec<u64> = (0..k).map(|i| steps(a[i], b[i])).collect();
        let ta = tolerances(r, &d);
        let tr = tolerances(r, &rel);
        let ts: Vec<f64> = match r.below(3) { 0 => vec![0.0; k], 1 => tolerances(r, &d), _ => (0..k).map(|i| if r.bool() { 0.0 } else { down(d[i].min(1e300)) }).collect() };
        let j = r.below(k);
        let um = r.below(5);
        let tu: Vec<u64> = (0..k).map(|i| match um { 0 => ul[i], 1 | 2 => if i == j { ul[i].saturating_sub(1) } else { ul[i].saturating_add(r.below(5) as u64) }, 3 => r.below(20) as u64, _ => *r.pick(&[u64::MAX, 1 << 62, 1 << 52, 0, ul[i]]) }).collect();
        let dm = d.iter().copied().filter(|v| v.is_finite()).fold(0.0, f64::max);
        let rm = rel.iter().copied().fold(0.0, f64::max);
        let umx = ul.iter().copied().max().unwrap();
        let c = r.below(5);
        let sa = match c { 0 => dm, 1 => down(dm), 2 => up(dm), 3 => *r.pick(&[f64::INFINITY, f64::MAX, 0.0]), _ => *r.pick(&d) };
        let sr = match c { 0 => rm, 1 => down(rm), 2 => up(rm), 3 => *r.pick(&[f64::INFINITY, 1.0, 0.0]), _ => rel[j] };
        let su = match c { 0 => umx, 1 => umx.saturating_sub(1), 2 => umx.saturating_add(1), 3 => *r.pick(&[u64::MAX, 1 << 62, 0]), _ => ul[j] };
        let sb = match r.below(3) { 0 => 0.0, 1 => down(dm), _ => d[j].min(1e300) };
        let sb = if sb.is_nan() { 0.0 } else { sb };
        let sa = if sa.is_nan() { 0.0 } else { sa };
        let desc = || format!("{} x={:?} y={:?} abs={:?} rel={:?} ulps={:?} all=({:e},{:e},{})", name, a, b, ta, tr, tu, sa, sr, su);
        let mut key = bits(&a);
        key.extend(bits(&b));
        key.extend(bits(&ta));
        cx.case(&name, key, bits(&a) != bits(&b), desc, |cx| {
            let all = |f: &dyn Fn(usize) -> bool| (0..k).all(f);
            let mut obs: Vec<(&'static str, bool, bool)> = Vec::new();
            let t = S::tol(&ta);
            let w = all(&|i| a[i].abs_diff_eq(&b[i], &ta[i]));
            let g = x.abs_diff_eq(&y, &t);
            obs.push((ea, g, w));
            obs.push((es, y.abs_diff_eq(&x, &t), g));
            obs.push((ene, x.abs_diff_ne(&y, &t), !g));
            let (t, u) = (S::tol(&ts), S::tol(&tr));
            let w = all(&|i| a[i].relative_eq(&b[i], &ts[i], &tr[i]));
            let g = x.relative_eq(&y, &t, &u);
            obs.push((ear, g, w));
            obs.push((es, y.relative_eq(&x, &t, &u), g));
            obs.push((ene, x.relative_ne(&y, &t, &u), !g));
            let u = S::utol(&tu);
            let w = all(&|i| a[i].ulps_eq(&b[i], &ts[i], &tu[i]));
            let g = x.ulps_eq(&y, &t, &u);
            obs.push((eu, g, w));
            obs.push((es, y.ulps_eq(&x, &t, &u), g));
            obs.push((ene, x.ulps_ne(&y, &t, &u), !g));
            let w = all(&|i| a[i].abs_diff_eq(&b[i], &sa));
            let g = x.abs_diff_all_eq(&y, &sa);
            obs.push((eaa, g, w));
            obs.push((es, y.abs_diff_all_eq(&x, &sa), g));
            obs.push((ene, x.abs_diff_all_ne(&y, &sa), !g));
            let w = all(&|i| a[i].relative_eq(&b[i], &sb, &sr));
            let g = x.relative_all_eq(&y, &sb, &sr);
            obs.push((era, g, w));
            obs.push((es, y.relative_all_eq(&x, &sb, &sr), g));
            obs.push((ene, x.relative_all_ne(&y, &sb, &sr), !g));
            let w = all(&|i| a[i].ulps_eq(&b[i], &sb, &su));
            let g = x.ulps_all_eq(&y, &sb, &su);
            obs.push((eua, g, w));
            obs.push((es, y.ulps_all_eq(&x, &sb, &su), g));
            obs.push((ene, x.ulps_all_ne(&y, &sb, &su), !g));
            let z = vec![0.0; k];
            let fin = a.iter().all(|v| !v.is_nan());
            for (i, g) in [x.abs_diff_eq(&x, &S::tol(&z)), x.relative_eq(&x, &S::tol(&z), &S::tol(&z)), x.ulps_eq(&x, &S::tol(&z), &S::utol(&vec![0; k])),
                x.abs_diff_all_eq(&x, &0.0), x.relative_all_eq(&x, &0.0, &0.0), x.ulps_all_eq(&x, &0.0, &0)].into_iter().enumerate() {
                let _ = i;
                obs.push((erf, g, fin));
            }
            let t = S::tol(&ta);
            report!(cx, ed, desc, k, AssertAbsDiffEq::debug_abs_diff(&x, &y), |i| AssertAbsDiffEq::debug_abs_diff(&a[i], &b[i]));
            report!(cx, ed, desc, k, AssertAbsDiffEq::debug_abs_diff_tolerance(&x, &y, &t), |i| AssertAbsDiffEq::debug_abs_diff_tolerance(&a[i], &b[i], &ta[i]));
            report!(cx, ed, desc, k, AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&x, &y, &sa), |i| AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a[i], &b[i], &sa));
            let u = S::tol(&tr);
            report!(cx, edr, desc, k, AssertRelativeEq::debug_abs_diff(&x, &y), |i| AssertRelativeEq::debug_abs_diff(&a[i], &b[i]));
            report!(cx, edr, desc, k, AssertRelativeEq::debug_abs_diff_tolerance(&x, &y, &t), |i| AssertRelativeEq::debug_abs_diff_tolerance(&a[i], &b[i], &ta[i]));
            report!(cx, edr, desc, k, AssertRelativeEq::debug_relative_tolerance(&x, &y, &u), |i| AssertRelativeEq::debug_relative_tolerance(&a[i], &b[i], &tr[i]));
            report!(cx, edr, desc, k, AssertRelativeAllEq::debug_abs_diff_all_tolerance(&x, &y, &sa), |i| AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a[i], &b[i], &sa));
            report!(cx, edr, desc, k, AssertRelativeAllEq::debug_relative_all_tolerance(&x, &y, &sr), |i| AssertRelativeAllEq::debug_relative_all_tolerance(&a[i], &b[i], &sr));
            let u = S::utol(&tu);
            report!(cx, edu, desc, k, AssertUlpsEq::debug_abs_diff(&x, &y), |i| AssertUlpsEq::debug_abs_diff(&a[i], &b[i]));
            report!(cx, edu, desc, k, AssertUlpsEq::debug_ulps_diff(&x, &y), |i| AssertUlpsEq::debug_ulps_diff(&a[i], &b[i]));
            report!(cx, edu, desc, k, AssertUlpsEq::debug_abs_diff_tolerance(&x, &y, &t), |i| AssertUlpsEq::debug_abs_diff_tolerance(&a[i], &b[i], &ta[i]));
            report!(cx, edu, desc, k, AssertUlpsEq::debug_ulps_tolerance(&x, &y, &u), |i| AssertUlpsEq::debug_ulps_tolerance(&a[i], &b[i], &tu[i]));
            report!(cx, edu, desc, k, AssertUlpsAllEq::debug_abs_diff_all_tolerance(&x, &y, &sa), |i| AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a[i], &b[i], &sa));
            report!(cx, edu, desc, k, AssertUlpsAllEq::debug_ulps_all_tolerance(&x, &y, &su), |i| AssertUlpsAllEq::debug_ulps_all_tolerance(&a[i], &b[i], &su));
            for (e, g, w) in obs { cx.ok(e, g == w, || format!("got {} want {}; {}; sb={:e}", g, w, desc(), sb)); }
        });
    }
    cx.require(&[ea, ear, eu, eaa, era, eua, es, ene, erf]);
}

#[cfg(feature = "transform")]
mod tr {
    use super::*;
    use cglinalg_transform::*;
    use std::f64::consts::PI;

    fn gen_vals(r: &mut Rng, n: usize) -> Vec<f64> { let s = if r.chance(1, 4) { r.mag(1e-5, 1e5) } else { 1.0 }; (0..n).map(|_| s * r.val()).collect() }
    macro_rules! arr { ($v:expr) => { $v.comps() } }
    fn rot2(a: f64) -> Rotation2<f64> { Rotation2::from_angle(Radians(a)) }
    fn rot3(p: &[f64]) -> Rotation3<f64> { Rotation3::from_euler_angles(&Euler::new(Radians(p[0]), Radians(p[1]), Radians(p[2]))) }
    fn gen_angles(r: &mut Rng, n: usize) -> Vec<f64> { (0..n).map(|_| if r.chance(1, 6) { r.int(-2, 2) as f64 * PI / 2.0 } else { r.range(-3.2, 3.2) }).collect() }

    impl<const N: usize> Subject for Translation<f64, N> {
        fn name() -> String { format!("translation{}", N) }
        const P: usize = N;
        const FREE: bool = true;
        fn make(p: &[f64]) -> Self { Translation::from_vector(&vec_of(p)) }
        fn comps(&self) -> Vec<f64> { arr!(self.vector()) }
        fn tol(t: &[f64]) -> Tol<Self> { TranslationTol::from(&vec_of(t)) }
        fn utol(t: &[u64]) -> Utol<Self> { TranslationTol::from(vec_of(t)) }
    }
    impl<const N: usize> Subject for Scale<f64, N> {
        fn name() -> String { format!("scale{}", N) }
        const P: usize = N;
        const FREE: bool = true;
        fn make(p: &[f64]) -> Self { Scale::from_nonuniform_scale(&vec_of(p)) }
        fn comps(&self) -> Vec<f64> { arr!(self.to_vector()) }
        fn tol(t: &[f64]) -> Tol<Self> { ScaleTol::from(&vec_of(t)) }
        fn utol(t: &[u64]) -> Utol<Self> { ScaleTol::from(vec_of(t)) }
    }
    impl<const N: usize> Subject for Reflection<f64, N> {
        fn name() -> String { format!("reflection{}", N) }
        const P: usize = 2 * N;
        const FREE: bool = true;
        fn make(p: &[f64]) -> Self { Reflection::from_normal_bias(&unit_of(p), &Point::<f64, N>::make(&p[N..])) }
        fn comps(&self) -> Vec<f64> { [arr!(self.normal()), self.bias().comps()].concat() }
        fn tol(t: &[f64]) -> Tol<Self> { ReflectionTol::from_parts(vec_of(t), vec_of(&t[N..])) }
        fn utol(t: &[u64]) -> Utol<Self> { ReflectionTol::from_parts(vec_of(t), vec_of(&t[N..])) }
    }
    macro_rules! shear { ($($N:literal)*) => {$( impl Subject for Shear<f64, $N> {
        fn name() -> String { concat!("shear", $N).into() }
        const P: usize = 1 + 3 * $N;
        const FREE: bool = false;
        fn gen(r: &mut Rng) -> Vec<f64> { (0..Self::P).map(|i| if i >= 1 + $N && i < 1 + 2 * $N { r.range(0.5, 2.0) } else { r.nz() }).collect() }
        fn make(p: &[f64]) -> Self {
            // the direction and the normal have to be orthogonal: the normal is built from the direction
            let d: [f64; $N] = std::array::from_fn(|i| p[1 + $N + i]);
            let m: [f64; $N] = std::array::from_fn(|i| p[1 + 2 * $N + i]);
            let mut nn: [f64; $N] = refm::sub(&m, &refm::scale(&d, refm::dot(&m, &d) / refm::dot(&d, &d)));
            if refm::norm(&nn) < 1e-3 * (1.0 + refm::norm(&m)) { nn = [0.0; $N]; nn[0] = -d[1]; nn[1] = d[0]; }
            let nn = refm::scale(&nn, 1.0 / refm::norm(&nn));
            let d = refm::scale(&d, 1.0 / refm::norm(&d));
            Shear::from_affine_shear(p[0], &Point::<f64, $N>::make(&p[1..]), &unit_of(&d), &unit_of(&nn))
        }
        fn comps(&self) -> Vec<f64> { [vec![self.shear_factor()], self.origin().comps(), self.direction().comps(), self.normal().comps()].concat() }
        fn tol(t: &[f64]) -> Tol<Self> { ShearTol::from_parts(t[0], vec_of(&t[1..]), vec_of(&t[1 + $N..]), vec_of(&t[1 + 2 * $N..])) }
        fn utol(t: &[u64]) -> Utol<Self> { ShearTol::from_parts(t[0], vec_of(&t[1..]), vec_of(&t[1 + $N..]), vec_of(&t[1 + 2 * $N..])) }
    } )*} }
    shear!(2 3);
    macro_rules! transform { ($($N:literal $M:literal)*) => {$( impl Subject for Transform<f64, $N, $M> {
        fn name() -> String { concat!("transform", $N).into() }
        const P: usize = $M * $M;
        const FREE: bool = true;
        fn make(p: &[f64]) -> Self { Transform::from_matrix_unchecked(mat_of(p)) }
        fn comps(&self) -> Vec<f64> { self.matrix().comps() }
        fn tol(t: &[f64]) -> Tol<Self> { TransformTol::from(&mat_of::<f64, $M, $M>(t)) }
        fn utol(t: &[u64]) -> Utol<Self> { TransformTol::from(mat_of::<u64, $M, $M>(t)) }
    } )*} }
    transform!(2 3 3 4);
    macro_rules! rigid { ($($N:literal $A:literal $rot:expr;)*) => {$(
        impl Subject for Rotation<f64, $N> {
            fn name() -> String { concat!("rotation", $N).into() }
            const P: usize = $A;
            const FREE: bool = false;
            fn gen(r: &mut Rng) -> Vec<f64> { gen_angles(r, $A) }
            fn make(p: &[f64]) -> Self { $rot(p) }
            fn comps(&self) -> Vec<f64> { self.matrix().comps() }
            fn tol(t: &[f64]) -> Tol<Self> { RotationTol::from(&mat_of(t)) }
            fn utol(t: &[u64]) -> Utol<Self> { RotationTol::from(mat_of(t)) }
        }
        impl Subject for Isometry<f64, $N> {
            fn name() -> String { concat!("isometry", $N).into() }
            const P: usize = $A + $N;
            const FREE: bool = false;
            fn gen(r: &mut Rng) -> Vec<f64> { [gen_angles(r, $A), gen_vals(r, $N)].concat() }
            fn make(p: &[f64]) -> Self { Isometry::from_parts(&Translation::make(&p[$A..]), &$rot(p)) }
            fn comps(&self) -> Vec<f64> { [self.rotation().comps(), self.translation().comps()].concat() }
            fn tol(t: &[f64]) -> Tol<Self> { IsometryTol::from_parts(vec_of(&t[$N * $N..]), mat_of(t)) }
            fn utol(t: &[u64]) -> Utol<Self> { IsometryTol::from_parts(vec_of(&t[$N * $N..]), mat_of(t)) }
        }
        impl Subject for Similarity<f64, $N> {
            fn name() -> String { concat!("similarity", $N).into() }
            const P: usize = $A + $N + 1;
            const FREE: bool = false;
            fn gen(r: &mut Rng) -> Vec<f64> { [gen_angles(r, $A), gen_vals(r, $N + 1)].concat() }
            fn make(p: &[f64]) -> Self { Similarity::from_parts(&Translation::make(&p[$A..]), &$rot(p), p[$A + $N]) }
            fn comps(&self) -> Vec<f64> { [self.rotation().comps(), self.translation().comps(), vec![self.scale()]].concat() }
            fn tol(t: &[f64]) -> Tol<Self> { SimilarityTol::from_parts(vec_of(&t[$N * $N..]), mat_of(t), t[$N * $N + $N]) }
            fn utol(t: &[u64]) -> Utol<Self> { SimilarityTol::from_parts(vec_of(&t[$N * $N..]), mat_of(t), t[$N * $N + $N]) }
        }
    )*} }
    rigid!(2 1 |p: &[f64]| rot2(p[0]); 3 3 |p: &[f64]| rot3(p););
    macro_rules! proj { ($($T:ident $L:ident $n:literal;)*) => {$( impl Subject for $T<f64> {
        fn name() -> String { $n.into() }
        const P: usize = 6;
        const FREE: bool = false;
        fn gen(r: &mut Rng) -> Vec<f64> { let s = if r.chance(1, 4) { r.mag(1e-3, 1e4).abs() } else { 1.0 }; (0..6).map(|i| s * if i == 5 { r.range(50.0, 100.0) } else { r.range(1.0, 10.0) }).collect() }
        fn make(p: &[f64]) -> Self { let f = |v: f64| if v.abs() < 1e-4 { 0.5 } else { v.abs() }; $T::new(f(p[0]), f(p[1]), f(p[2]), f(p[3]), f(p[4]), f(p[5]) + f(p[4])) }
        fn comps(&self) -> Vec<f64> { self.matrix().comps() }
        fn tol(t: &[f64]) -> Tol<Self> { $L::from(&mat_of(t)) }
        fn utol(t: &[u64]) -> Utol<Self> { $L::from(mat_of(t)) }
    } )*} }
    proj!(Perspective3 Perspective3Tol "perspective3"; Orthographic3 Orthographic3Tol "orthographic3";);

    pub fn all(cx: &mut Cx) {
        run::<Translation<f64, 2>>(cx, 300); run::<Translation<f64, 3>>(cx, 300);
        run::<Scale<f64, 2>>(cx, 300); run::<Scale<f64, 3>>(cx, 300);
        run::<Reflection<f64, 2>>(cx, 400); run::<Reflection<f64, 3>>(cx, 500);
        run::<Shear<f64, 2>>(cx, 500); run::<Shear<f64, 3>>(cx, 700);
        run::<Transform<f64, 2, 3>>(cx, 500); run::<Transform<f64, 3, 4>>(cx, 800);
        run::<Rotation<f64, 2>>(cx, 500); run::<Rotation<f64, 3>>(cx, 1500);
        run::<Isometry<f64, 2>>(cx, 600); run::<Isometry<f64, 3>>(cx, 1500);
        run::<Similarity<f64, 2>>(cx, 600); run::<Similarity<f64, 3>>(cx, 1500);
        run::<Perspective3<f64>>(cx, 1500); run::<Orthographic3<f64>>(cx, 1500);
    }
}

/// Single precision: the comparisons with one tolerance for all components.
fn single<T>(cx: &mut Cx, ev: &'static str, k: usize, make: impl Fn(&[f32]) -> T)
where T: AbsDiffAllEq<AllTolerance = f32> + RelativeAllEq<AllTolerance = f32> + UlpsAllEq<AllTolerance = f32, AllUlpsTolerance = u32>
{
    for _ in 0..cx.n(300) {
        let r = &mut cx.rng;
        let a: Vec<f32> = (0..k).map(|_| r.mag(1e-3, 1e3) as f32).collect();
        let mut b = a.clone();
        for _ in 0..r.below(3) { let i = r.below(k); b[i] = match r.below(5) { 0 => f32::from_bits(b[i].to_bits() + 1 + r.below(6) as u32), 1 => f32::from_bits(b[i].to_bits() - 1 - r.below(6) as u32), 2 => -b[i], 3 => b[i] + r.mag(1e-6, 1.0) as f32, _ => b[i] * (1.0 + r.mag(1e-6, 1e-1) as f32) }; }
        let i = if r.chance(1, 3) { r.below(k) } else { (0..k).max_by(|i, j| (a[*i] - b[*i]).abs().total_cmp(&(a[*j] - b[*j]).abs())).unwrap() };
        let edge = |r: &mut Rng, x: f32| match r.below(4) { 0 => x, 1 => f32::from_bits(x.to_bits().saturating_sub(1)), 2 => f32::from_bits(x.to_bits() + 1), _ => r.mag(1e-7, 1e-1).abs() as f32 };
        let (d, u) = ((a[i] - b[i]).abs(), if (a[i] < 0.0) == (b[i] < 0.0) { a[i].to_bits().abs_diff(b[i].to_bits()) } else { 3 });
        let (ta, tr, tu) = (edge(r, d), edge(r, d / a[i].abs().max(b[i].abs())), match r.below(3) { 0 => u, 1 => u.saturating_sub(1), _ => r.below(8) as u32 });
        let tz = if r.bool() { 0.0 } else { edge(r, d) };
        let desc = || format!("{} a={:?} b={:?} tolerances {:e} {:e} {:e} {}", ev, a, b, ta, tz, tr, tu);
        cx.case(ev, a.iter().map(|x| x.to_bits() as u64).collect::<Vec<u64>>(), a != b, desc, |cx| {
            let (x, y) = (make(&a), make(&b));
            let all = |f: &dyn Fn(usize) -> bool| (0..k).all(f);
            for (g, w) in [
                (x.abs_diff_all_eq(&y, &ta), all(&|i| a[i].abs_diff_eq(&b[i], &ta))), (y.abs_diff_all_eq(&x, &ta), all(&|i| a[i].abs_diff_eq(&b[i], &ta))), (!x.abs_diff_all_ne(&y, &ta), all(&|i| a[i].abs_diff_eq(&b[i], &ta))),
                (x.relative_all_eq(&y, &tz, &tr), all(&|i| a[i].relative_eq(&b[i], &tz, &tr))), (!x.relative_all_ne(&y, &tz, &tr), all(&|i| a[i].relative_eq(&b[i], &tz, &tr))),
                (x.ulps_all_eq(&y, &tz, &tu), all(&|i| a[i].ulps_eq(&b[i], &tz, &tu))), (!x.ulps_all_ne(&y, &tz, &tu), all(&|i| a[i].ulps_eq(&b[i], &tz, &tu))),
                (x.abs_diff_all_eq(&x, &0.0), true), (x.relative_all_eq(&x, &0.0, &0.0), true), (x.ulps_all_eq(&x, &0.0, &0), true),
            ] { cx.ok(ev, g == w, || format!("got {}, the components say {}; {}", g, w, desc())); }
        });
    }
}
fn singles_all(cx: &mut Cx) {
    single(cx, "single:vector1", 1, vec_of::<f32, 1>); single(cx, "single:vector2", 2, vec_of::<f32, 2>); single(cx, "single:vector3", 3, vec_of::<f32, 3>); single(cx, "single:vector4", 4, vec_of::<f32, 4>); single(cx, "single:vector6", 6, vec_of::<f32, 6>);
    single(cx, "single:matrix2x2", 4, mat_of::<f32, 2, 2>); single(cx, "single:matrix3x3", 9, mat_of::<f32, 3, 3>); single(cx, "single:matrix4x4", 16, mat_of::<f32, 4, 4>); single(cx, "single:matrix2x3", 6, mat_of::<f32, 2, 3>);
    single(cx, "single:point3", 3, |p| Point::<f32, 3>::new(p[0], p[1], p[2]));
    single(cx, "single:quaternion", 4, |p| Quaternion::<f32>::new(p[0], p[1], p[2], p[3]));
    single(cx, "single:complex", 2, |p| Complex::<f32>::new(p[0], p[1]));
    single(cx, "single:radians", 1, |p| Radians(p[0])); single(cx, "single:degrees", 1, |p| Degrees(p[0]));
    single(cx, "single:euler", 3, |p| Euler::new(Radians(p[0]), Radians(p[1]), Radians(p[2])));
    single(cx, "single:unit", 3, |p| Unit::from_value_unchecked(vec_of::<f32, 3>(p)));
    #[cfg(feature = "transform")]
    {
        use cglinalg_transform::*;
        single(cx, "single:translation3", 3, |p| Translation3::from_vector(&vec_of::<f32, 3>(p)));
        single(cx, "single:scale3", 3, |p| Scale3::from_nonuniform_scale(&vec_of::<f32, 3>(p)));
        single(cx, "single:transform3", 12, |p| Transform3::from_matrix_unchecked(Matrix4x4::new(p[0], p[1], p[2], 0.0, p[3], p[4], p[5], 0.0, p[6], p[7], p[8], 0.0, p[9], p[10], p[11], 1.0)));
        single(cx, "single:isometry3", 3, |p| Isometry3::from_translation(&Translation3::from_vector(&vec_of::<f32, 3>(p))));
        single(cx, "single:similarity2", 3, |p| Similarity2::from_parts(&Translation2::from_vector(&vec_of::<f32, 2>(p)), &Rotation2::identity(), p[2]));
        single(cx, "single:shear2", 1, |p| Shear2::from_shear_xy(p[0]));
    }
}

fn main() {
    let mut c = Cx::new("C21", "pairs of values that agree, differ in one parameter or in several, by 1-8 representable steps up to sign flips, infinities and NaN; tolerances per component at, just below and just above the actual difference, isolating one component at a time; six comparison forms, both argument orders; non-trivial: the two values differ");
    let cx = &mut c;
    run::<Vector<f64, 1>>(cx, 200); run::<Vector<f64, 2>>(cx, 300); run::<Vector<f64, 3>>(cx, 300); run::<Vector<f64, 4>>(cx, 400); run::<Vector<f64, 5>>(cx, 200); run::<Vector<f64, 7>>(cx, 200); run::<Vector<f64, 9>>(cx, 200); run::<Vector<f64, 17>>(cx, 200);
    run::<Point<f64, 1>>(cx, 200); run::<Point<f64, 2>>(cx, 300); run::<Point<f64, 3>>(cx, 300); run::<Point<f64, 5>>(cx, 200); run::<Point<f64, 9>>(cx, 200);
    run::<Unit<Vector<f64, 2>>>(cx, 200); run::<Unit<Vector<f64, 3>>>(cx, 200); run::<Unit<Quaternion<f64>>>(cx, 200);
    run::<Matrix<f64, 1, 1>>(cx, 200); run::<Matrix<f64, 5, 6>>(cx, 300); run::<Matrix<f64, 2, 9>>(cx, 300); run::<Matrix<f64, 9, 2>>(cx, 300); run::<Matrix<f64, 2, 2>>(cx, 300); run::<Matrix<f64, 3, 3>>(cx, 500); run::<Matrix<f64, 4, 4>>(cx, 800);
    run::<Matrix<f64, 1, 2>>(cx, 200); run::<Matrix<f64, 1, 3>>(cx, 200); run::<Matrix<f64, 1, 4>>(cx, 200);
    run::<Matrix<f64, 2, 3>>(cx, 300); run::<Matrix<f64, 2, 4>>(cx, 300); run::<Matrix<f64, 3, 2>>(cx, 300);
    run::<Matrix<f64, 3, 4>>(cx, 500); run::<Matrix<f64, 4, 2>>(cx, 300); run::<Matrix<f64, 4, 3>>(cx, 500);
    run::<Quaternion<f64>>(cx, 500); run::<Complex<f64>>(cx, 400);
    run::<Radians<f64>>(cx, 200); run::<Degrees<f64>>(cx, 200); run::<Euler<Radians<f64>>>(cx, 300); run::<Euler<Degrees<f64>>>(cx, 300);
    singles_all(cx);
    #[cfg(feature = "transform")]
    tr::all(cx);
    #[cfg(not(feature = "transform"))]
    cx.assume("the transform crate did not build; its types were not observed");
    c.finish();
}
