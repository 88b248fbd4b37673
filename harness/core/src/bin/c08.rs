//! C08: determinant and inverse.
use h_core::*;

fn perms(n: usize) -> Vec<(Vec<usize>, bool)> {
    if n == 0 { return vec![(vec![], false)]; }
    let mut out = vec![];
    for (p, s) in perms(n - 1) {
        for pos in 0..n {
            let mut q = p.clone();
            q.insert(pos, n - 1);
            out.push((q, s ^ ((n - 1 - pos) % 2 == 1)));
        }
    }
    out
}
fn leibniz<T: Sc, const N: usize>(a: &[[T; N]; N]) -> T {
    perms(N).iter().fold(T::zero(), |acc, (p, odd)| { let t = (0..N).fold(T::one(), |m, c| m * a[c][p[c]]); if *odd { acc - t } else { acc + t } })
}

macro_rules! exact_det { ($cx:ident, $n:literal, $($t:ident)*) => { $( for _ in 0..$cx.n(60) {
    let mut a: [[$t; $n]; $n] = exmats(&mut $cx.rng);
    if <$t as Sc>::FLOAT { for c in a.iter_mut() { for x in c.iter_mut() { *x = $cx.rng.int(-6, 6) as $t; } } }
    let b: [[$t; $n]; $n] = std::array::from_fn(|_| std::array::from_fn(|_| $cx.rng.int(-3, 3) as $t));
    let s = $cx.rng.int(-3, 3) as $t;
    let (i, j) = ($cx.rng.below($n), $cx.rng.below($n));
    let desc = || format!("a={:?} b={:?} s={:?} i={} j={}", a, b, s, i, j);
    $cx.case(concat!("determinant ", stringify!($t), " ", stringify!($n)), mkeys(&a), true, desc, |cx| {
        let (x, y) = (Matrix::<$t, $n, $n>::from(a), Matrix::<$t, $n, $n>::from(b));
        let w = leibniz(&a);
        let zero = w - w;
        let (mut sw, mut sc, mut dup, mut row) = (x, x, x, x);
        sw.swap_rows(i, j);
        sc *= s;
        if i != j { for c in 0..$n { dup[c][i] = dup[c][j]; } }
        for c in 0..$n { row[c][i] = row[c][i] * s; }
        let mut sn = w - w + (1 as $t);
        for _ in 0..$n { sn = sn * s; }
        let obs = [
            ("determinant", x.determinant(), w), ("det-transpose", x.transpose().determinant(), w), ("det-row-swap", sw.determinant(), if i == j { w } else { zero - w }),
            ("det-row-scale", row.determinant(), w * s), ("det-scale", sc.determinant(), w * sn), ("det-repeated-row", dup.determinant(), if i == j { w } else { zero }),
            ("det-identity", Matrix::<$t, $n, $n>::identity().determinant(), 1 as $t),
            ("det-multiplicative", if <$t as Sc>::FLOAT && $n > 3 { zero } else { (x * y).determinant() }, if <$t as Sc>::FLOAT && $n > 3 { zero } else { w * leibniz(&b) }),
        ];
        for (ev, g, w) in obs { cx.ok(ev, g.same(w), || format!("got {:?}, want {:?}; {}", g, w, desc())); }
    });
} )* }; }

macro_rules! inverse { ($cx:ident, $n:literal) => { for _ in 0..$cx.n(1500) {
    let r = &mut $cx.rng;
    let mut a: [[f64; $n]; $n] = std::array::from_fn(|_| std::array::from_fn(|_| 0.0));
    let class = r.below(8);
    for c in 0..$n { for k in 0..$n { a[c][k] = match class { 0 => r.ival(3), 1 => r.ival(9), 2 => r.val(), 3 => if c == k { r.nz() } else { 0.0 }, 4 => r.range(-1.0, 1.0) + if c == k { 4.0 } else { 0.0 }, 5 => if c > k { 0.0 } else { r.nz() }, _ => r.range(-5.0, 5.0) }; } }
    if class == 6 { let s = if r.bool() { r.mag(1e-4, 1e4) } else { r.mag(1e-16, 1e16) }; for c in a.iter_mut() { for x in c.iter_mut() { *x *= s; } } }
    if class == 7 && $n > 1 { // permutation matrix times a diagonal
        let mut p: Vec<usize> = (0..$n).collect();
        for q in (1..$n).rev() { let z = r.below(q + 1); p.swap(q, z); }
        a = [[0.0; $n]; $n];
        for c in 0..$n { a[c][p[c]] = r.nz(); }
    }
    if class == 0 && $n > 1 && r.bool() { let (p, q) = (r.below($n), r.below($n)); if p != q { a[p] = a[q].map(|x| x * 2.0); } }
    let desc = || format!("a={:?}", a);
    let (det, integral) = (refm::det(&a), class <= 1);
    let inv = refm::inv(&a);
    let mx = maxabs(&refm::flat(&a));
    $cx.case(concat!("inverse ", stringify!($n)), bits(&refm::flat(&a)), det != 0.0, desc, |cx| {
        let x = Matrix::<f64, $n, $n>::from(a);
        let t = x.try_inverse();
        if integral { // exact arithmetic: the determinant is the true one
            cx.ok("refusal-exact", t.is_some() == (det != 0.0), || format!("try_inverse {:?}, determinant {}; {}", t.is_some(), det, desc()));
            cx.eq("invertible-predicate", x.is_invertible(), det != 0.0, desc);
            if det == 0.0 { cx.panics("inverse-of-singular", desc, || { x.inverse(); }); }
        } else {
            cx.ok("refusal-consistent", t.is_some() == (x.determinant() != 0.0), desc);
            // the predicate compares the determinant with zero within the default epsilon
            let err = 1e-13 * (0..$n).map(|c| refm::norm(&a[c])).product::<f64>();
            if det.abs() - err > 2.0 * f64::EPSILON { cx.ok("invertible-predicate", x.is_invertible(), desc); }
            if det.abs() + err < 0.5 * f64::EPSILON { cx.ok("invertible-predicate-tiny", !x.is_invertible(), desc); }
        }
        let dt = x.determinant();
        let scale = (0..$n).map(|c| refm::norm(&a[c])).product::<f64>();
        cx.ok("determinant-float", (dt - det).abs() <= 1e-12 * scale, || format!("got {}, want {}; {}", dt, det, desc()));
        if let Some(w) = inv {
            let (ni, cond) = (maxabs(&refm::flat(&w)), maxabs(&refm::flat(&w)) * mx);
            if cond < 1e7 && dt != 0.0 {
                match t {
                    None => cx.ok("well-conditioned-inverse", false, desc),
                    Some(y) => {
                        let g = ma(&y);
                        cx.near("inverse", &refm::flat(&g), &refm::flat(&w), 1e-13 * ni * cond * cond.max(10.0), desc);
                        let e = refm::flat(&refm::eye::<$n>());
                        cx.near("inverse-right", &refm::flat(&ma(&(x * y))), &e, 1e-13 * cond * cond.max(10.0), desc);
                        cx.near("inverse-left", &refm::flat(&ma(&(y * x))), &e, 1e-13 * cond * cond.max(10.0), desc);
                        cx.near("inverse-value-form", &refm::flat(&ma(&x.inverse())), &refm::flat(&g), 0.0, desc);
                        cx.near("inverse-determinant", &[y.determinant() * dt], &[1.0], 1e-11 * cond * cond.max(10.0), desc);
                        if cond < 1e3 { if let Some(z) = y.try_inverse() { cx.near("inverse-involution", &refm::flat(&ma(&z)), &refm::flat(&a), 1e-11 * mx * cond * cond, desc); } }
                    }
                }
            }
        }
        // single precision
        if integral && det != 0.0 {
            let f = Matrix::<f32, $n, $n>::from(a.map(|c| c.map(|v| v as f32)));
            cx.ok("determinant-f32", f.determinant() as f64 == det, desc);
            let i = inv.unwrap();
            if maxabs(&refm::flat(&i)) * mx < 1e2 {
                match f.try_inverse() { None => cx.ok("inverse-f32", false, desc), Some(y) => { let g: Vec<f64> = ms(&y).iter().map(|v| *v as f64).collect(); cx.near("inverse-f32", &g, &refm::flat(&i), 2e-4, desc); } }
            }
        }
    });
} }; }

fn single(cx: &mut Cx) {
    for _ in 0..cx.n(2000) {
        let a: [f64; 16] = singles(&mut cx.rng);
        let desc = || format!("a={:?}", a);
        cx.case("single precision", bits(&a), true, desc, |cx| {
            // diagonally dominant, so that single precision loses nothing
            macro_rules! dim { ($n:literal) => { both!(cx, "single", 1e-4, desc, {
                let mut m = Matrix::<S, $n, $n>::from(std::array::from_fn::<[S; $n], $n, _>(|c| std::array::from_fn(|r| a[4 * c + r] as S)));
                for i in 0..$n { let d = m[i][i]; m[i][i] = d + d.signum() * 16.0; }
                let mut o: Vec<S> = vec![m.determinant() / 1e5, m.is_invertible() as u8 as S];
                o.extend(ms(&m.inverse()).iter().map(|x| x * 10.0));
                o.extend(ms(&m.try_inverse().unwrap_or(m)).iter().map(|x| x * 10.0));
                o
            }) }; }
            dim!(1); dim!(2); dim!(3); dim!(4);
        });
    }
}

fn main() {
    let mut c = Cx::new("C08", "determinants: full-range wrapping integers of all signed types and small-integer floats against the permutation sum; inverses: integer (singular and regular), diagonal, triangular, permuted-diagonal, scaled and general random f64 matrices of size 1..=4 against Gauss-Jordan elimination with pivoting, tolerance growing with the condition number; non-trivial: non-zero determinant");
    let cx = &mut c;
    exact_det!(cx, 1, i8 i16 i32 i64 i128 isize f32 f64);
    exact_det!(cx, 2, i8 i16 i32 i64 i128 isize f32 f64);
    exact_det!(cx, 3, i8 i16 i32 i64 i128 isize f32 f64);
    exact_det!(cx, 4, i8 i16 i32 i64 i128 isize f32 f64);
    inverse!(cx, 1); inverse!(cx, 2); inverse!(cx, 3); inverse!(cx, 4);
    single(cx);
    cx.require(&["single", "determinant", "det-transpose", "det-row-swap", "det-multiplicative", "refusal-exact", "inverse", "inverse-left", "inverse-right", "inverse-of-singular", "invertible-predicate", "inverse-f32"]);
    c.finish();
}
