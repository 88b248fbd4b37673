//! C24: shape constraints admit exactly the conforming operations.
use h_constraint::{pairs, No2, No4, P2, P4};
use mon::Cx;

fn main() {
    let mut cx = Cx::new("C24", "all 4-tuples of dimensions 0..=5 for products, all pairs 0..=9 for extension and contraction, all operand shapes up to 4x4 of the public types; 1800 uses of constrained methods and conversions at every combination of dimensions 1 to 4 offered to the compiler; non-trivial: all");
    macro_rules! probe2 {
        ($m:literal, $n:literal) => {{
            let (m, n): (usize, usize) = ($m, $n);
            let (e, c) = (P2::<$m, $n>::EXTEND, P2::<$m, $n>::CONTRACT);
            let desc = move || format!("dims {} -> {}: extend={} contract={}", m, n, e, c);
            cx.case("extend-contract", [m as u64, n as u64], true, desc, |cx| {
                cx.ok("extend-sound", !e || n == m + 1, desc);
                cx.ok("contract-sound", !c || n + 1 == m, desc);
                if (1..=4).contains(&m) && n == m + 1 { cx.ok("extend-complete", e, desc); }
                if (1..=4).contains(&m) && n + 1 == m { cx.ok("contract-complete", c, desc); }
            });
        }};
    }
    pairs!(probe2, [0 1 2 3 4 5 6 7 8 9], [0 1 2 3 4 5 6 7 8 9]);
    let mut obs4: Vec<([usize; 4], bool, bool)> = Vec::new();
    macro_rules! probe4 {
        ($a:literal, $b:literal, $c:literal, $d:literal) => { ([$a, $b, $c, $d], P4::<$a, $b, $c, $d>::MULT, P4::<$a, $b, $c, $d>::TMULT) };
    }
    macro_rules! row { ($a:literal, $b:literal) => { inner!($a, $b, [0 1 2 3 4 5], [0 1 2 3 4 5]); }; }
    macro_rules! inner { ($a:literal, $b:literal, [$($c:literal)*], $ds:tt) => { $( inner2!($a, $b, $c, $ds); )* }; }
    macro_rules! inner2 { ($a:literal, $b:literal, $c:literal, [$($d:literal)*]) => { obs4.extend([ $( probe4!($a, $b, $c, $d), )* ]); }; }
    pairs!(row, [0 1 2 3 4 5], [0 1 2 3 4 5]);

    for &(t, mu, tm) in &obs4 {
        let desc = move || format!("{}x{} with {}x{}: multiply={} transpose-multiply={}", t[0], t[1], t[2], t[3], mu, tm);
        cx.case("product", t.map(|x| x as u64), true, desc, |cx| {
            cx.ok("multiply-iff-inner-equal", mu == (t[1] == t[2]), desc);
            cx.ok("transpose-multiply-iff-rows-equal", tm == (t[0] == t[2]), desc);
        });
    }

    #[cfg(feature = "core")]
    usage::run(&mut cx);
    #[cfg(not(feature = "core"))]
    cx.assume("the public types did not build in this run: only the constraint relations themselves were observed");
    methods(&mut cx, "VERIF_PROBE_CORE", "core", include_str!("../../../probe/src/core.rs"));
    methods(&mut cx, "VERIF_PROBE_TRANSFORM", "transform", include_str!("../../../probe/src/transform.rs"));
    cx.require(&["extend-sound", "contract-complete", "multiply-iff-inner-equal", "transpose-multiply-iff-rows-equal"]);
    cx.finish();
}

/// Which of the one-line method uses in the probe source the compiler admitted (its messages are in the file the variable names).
fn methods(cx: &mut Cx, var: &str, file: &str, src: &str) {
    let skip = |cx: &mut Cx, why: &str| cx.assume(&format!("method uses in probe/src/{}.rs were not observed: {}", file, why));
    let Some(log) = std::env::var(var).ok().and_then(|p| std::fs::read_to_string(p).ok()) else { return skip(cx, "no compiler messages") };
    let at = format!("src/{}.rs:", file);
    let mut bad = std::collections::BTreeSet::new();
    for l in log.lines() {
        if let Some(r) = l.strip_prefix(&at) {
            let mut f = r.splitn(3, ':');
            if let (Some(Ok(n)), Some(_), Some(m)) = (f.next().map(|x| x.parse::<usize>()), f.next(), f.next()) { if m.trim_start().starts_with("error") { bad.insert(n); } }
        } else if l.contains(": error") && !l.starts_with("error: could not compile `h_probe`") { return skip(cx, "the crate itself does not build"); }
    }
    if bad.is_empty() || src.lines().enumerate().any(|(i, l)| !l.contains(" // ") && bad.contains(&(i + 1))) { return skip(cx, "the probe did not reach its methods"); }
    for (i, l) in src.lines().enumerate() {
        let Some((code, note)) = l.split_once(" // ") else { continue };
        let Some((want, what)) = note.split_once(": ") else { continue };
        let got = !bad.contains(&(i + 1));
        if want == "any" { continue; }
        let desc = || format!("{}: `{}` is {}", what, code, if got { "admitted" } else { "rejected" });
        cx.case("method", [file.len() as u64, i as u64], true, desc, |cx| cx.ok("method-admitted-iff-conforming", got == (want == "yes"), desc));
    }
    cx.require(&["method-admitted-iff-conforming"]);
}

#[cfg(feature = "core")]
mod usage {
    use cglinalg_core::{Matrix, Vector};
    use mon::Cx;
    use core::ops::Mul;

    struct U<const A: usize, const B: usize, const C: usize, const D: usize>;
    trait NoU {
        const MM: bool = false;
        const MM_SHAPE: bool = false;
        const RMM: bool = false;
        const MRM: bool = false;
        const RMRM: bool = false;
    }
    impl<const A: usize, const B: usize, const C: usize, const D: usize> NoU for U<A, B, C, D> {}
    impl<const A: usize, const B: usize, const C: usize, const D: usize> U<A, B, C, D> where Matrix<f64, A, B>: Mul<Matrix<f64, C, D>> { const MM: bool = true; }
    impl<const A: usize, const B: usize, const C: usize, const D: usize> U<A, B, C, D> where Matrix<f64, A, B>: Mul<Matrix<f64, C, D>, Output = Matrix<f64, A, D>> { const MM_SHAPE: bool = true; }
    impl<'a, const A: usize, const B: usize, const C: usize, const D: usize> U<A, B, C, D> where &'a Matrix<f64, A, B>: Mul<Matrix<f64, C, D>, Output = Matrix<f64, A, D>> { const RMM: bool = true; }
    impl<'a, const A: usize, const B: usize, const C: usize, const D: usize> U<A, B, C, D> where Matrix<f64, A, B>: Mul<&'a Matrix<f64, C, D>, Output = Matrix<f64, A, D>> { const MRM: bool = true; }
    impl<'a, const A: usize, const B: usize, const C: usize, const D: usize> U<A, B, C, D> where &'a Matrix<f64, A, B>: Mul<&'a Matrix<f64, C, D>, Output = Matrix<f64, A, D>> { const RMRM: bool = true; }

    struct W<const A: usize, const B: usize, const N: usize>;
    trait NoW {
        const MV: bool = false;
        const MV_SHAPE: bool = false;
    }
    impl<const A: usize, const B: usize, const N: usize> NoW for W<A, B, N> {}
    impl<const A: usize, const B: usize, const N: usize> W<A, B, N> where Matrix<f64, A, B>: Mul<Vector<f64, N>> { const MV: bool = true; }
    impl<const A: usize, const B: usize, const N: usize> W<A, B, N> where Matrix<f64, A, B>: Mul<Vector<f64, N>, Output = Vector<f64, A>> { const MV_SHAPE: bool = true; }

    struct E<const M: usize, const N: usize>;
    trait NoE { const EMBED: bool = false; }
    impl<const M: usize, const N: usize> NoE for E<M, N> {}
    impl<const M: usize, const N: usize> E<M, N> where Matrix<f64, N, N>: From<Matrix<f64, M, M>> { const EMBED: bool = true; }

    pub fn run(cx: &mut Cx) {
        let mut obs: Vec<([usize; 4], [bool; 5])> = Vec::new();
        macro_rules! probe4 {
            ($a:literal, $b:literal, $c:literal, $d:literal) => { ([$a, $b, $c, $d], [U::<$a, $b, $c, $d>::MM, U::<$a, $b, $c, $d>::MM_SHAPE, U::<$a, $b, $c, $d>::RMM, U::<$a, $b, $c, $d>::MRM, U::<$a, $b, $c, $d>::RMRM]) };
        }
        macro_rules! probe3 { ($a:literal, $b:literal, [$($n:literal)*]) => { $( {
            let t: [usize; 3] = [$a, $b, $n];
            let o = [W::<$a, $b, $n>::MV, W::<$a, $b, $n>::MV_SHAPE];
            let desc = move || format!("{}x{} * {}-vector: {:?}", t[0], t[1], t[2], o);
            cx.case("matrix-vector-operator", t.map(|x| x as u64), true, desc, |cx| {
                cx.ok("matrix-vector-iff-conforming", o.iter().all(|x| *x == (t[1] == t[2])), desc);
            });
        } )* }; }
        macro_rules! embed { ($m:literal, $n:literal) => {{
            let (m, n): (usize, usize) = ($m, $n);
            let o = E::<$m, $n>::EMBED;
            let desc = move || format!("embed {0}x{0} into {1}x{1}: {2}", m, n, o);
            cx.case("embedding", [m as u64, n as u64], true, desc, |cx| cx.ok("embedding-only-into-larger", !o || m <= n, desc));
        }}; }
        macro_rules! row { ($a:literal, $b:literal) => { inner!($a, $b, [1 2 3 4], [1 2 3 4]); probe3!($a, $b, [1 2 3 4]); embed!($a, $b); }; }
        macro_rules! inner { ($a:literal, $b:literal, [$($c:literal)*], $ds:tt) => { $( inner2!($a, $b, $c, $ds); )* }; }
        macro_rules! inner2 { ($a:literal, $b:literal, $c:literal, [$($d:literal)*]) => { obs.extend([ $( probe4!($a, $b, $c, $d), )* ]); }; }
        h_constraint::pairs!(row, [1 2 3 4], [1 2 3 4]);
        for &(t, o) in &obs {
            let desc = move || format!("{}x{} * {}x{}: [value, with outer shape, &*v, v*&, &*&] = {:?}", t[0], t[1], t[2], t[3], o);
            cx.case("matrix-product-operator", t.map(|x| x as u64), true, desc, |cx| {
                let want = t[1] == t[2];
                cx.ok("operator-admitted-iff-conforming", o.iter().all(|x| *x == want), desc);
            });
        }
        cx.require(&["operator-admitted-iff-conforming", "matrix-vector-iff-conforming"]);
    }
}
