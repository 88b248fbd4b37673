//! C07: constructors, row/column access, swaps, diagonals, predicates and embeddings.
use h_core::*;

fn general<T: Sc, const R: usize, const C: usize>(cx: &mut Cx) {
    let tag = format!("{} {}x{}", T::NAME, R, C);
    for _ in 0..cx.n(40) {
        let a: [[T; R]; C] = if cx.rng.chance(1, 3) { std::array::from_fn(|_| specials(&mut cx.rng, None)) } else { mats(&mut cx.rng) };
        let s = if cx.rng.chance(1, 3) { T::special(&mut cx.rng) } else { T::gen(&mut cx.rng) };
        let (r1, r2, c1, c2) = (cx.rng.below(R), cx.rng.below(R), cx.rng.below(C), cx.rng.below(C));
        let desc = || format!("a={:?} s={:?} rows {} {} columns {} {}", a, s, r1, r2, c1, c2);
        cx.case(&tag, mkeys(&a), R * C == 1 || flat(&a).iter().any(|x| *x != a[0][0]), desc, |cx| {
            let x = Matrix::<T, R, C>::from(a);
            let cols: [Vector<T, R>; C] = std::array::from_fn(|c| Vector::<T, R>::from(a[c]));
            let rows: [Vector<T, C>; R] = std::array::from_fn(|r| { let v: [T; C] = std::array::from_fn(|c| a[c][r]); Vector::<T, C>::from(v) });
            let swp = |f: &dyn Fn(usize, usize) -> (usize, usize)| (0..C).flat_map(|c| (0..R).map(move |r| (c, r))).map(|(c, r)| { let (p, q) = f(c, r); a[p][q] }).collect::<Vec<T>>();
            let (mut sr, mut sc, mut se) = (x, x, x);
            sr.swap_rows(r1, r2);
            sc.swap_columns(c1, c2);
            se.swap((c1, r1), (c2, r2));
            let tau = |i: usize, p: usize, q: usize| if i == p { q } else if i == q { p } else { i };
            let mut obs = vec![
                ("from-columns", ms(&Matrix::<T, R, C>::from_columns(&cols)), flat(&a)), ("from-rows", ms(&Matrix::<T, R, C>::from_rows(&rows)), flat(&a)), ("from-fill", ms(&Matrix::<T, R, C>::from_fill(s)), vec![s; R * C]),
                ("zero", ms(&Matrix::<T, R, C>::zero()), vec![T::zero(); R * C]), ("default", ms(&Matrix::<T, R, C>::default()), vec![T::zero(); R * C]),
                ("swap-rows", ms(&sr), swp(&|c, r| (c, tau(r, r1, r2)))), ("swap-columns", ms(&sc), swp(&|c, r| (tau(c, c1, c2), r))),
                ("swap-elements", ms(&se), swp(&|c, r| if (c, r) == (c1, r1) { (c2, r2) } else if (c, r) == (c2, r2) { (c1, r1) } else { (c, r) })),
            ];
            for r in 0..R { obs.push(("row", vs(&x.row(r)), vs(&rows[r]))); }
            for c in 0..C { obs.push(("column", vs(&x.column(c)), a[c].to_vec())); }
            for (ev, g, w) in &obs { cx.ok(ev, vexact(g, w), || format!("got {:?}, want {:?}; {}", g, w, desc())); }
            cx.ok("shape", x.shape() == (R, C) && x.len() == R * C && x.is_square() == (R == C) && !x.is_empty(), desc);
            cx.eq("is-zero", x.is_zero(), flat(&a).iter().all(|v| *v == T::zero()), desc);
            // exactly one non-zero entry must be noticed wherever it is
            let mut z = Matrix::<T, R, C>::zero();
            cx.ok("is-zero", z.is_zero(), || "zero matrix".into());
            z[c1][r1] = T::one();
            cx.ok("is-zero", !z.is_zero(), desc);
            z[c1][r1] = s;
            cx.eq("is-zero", z.is_zero(), s == T::zero(), desc);
        });
        cx.case(&tag, [0], false, desc, |cx| {
            let x = Matrix::<T, R, C>::from(a);
            cx.panics("row-out-of-range", desc, || { x.row(R); });
            cx.panics("column-out-of-range", desc, || { x.column(C); });
            cx.panics("swap-out-of-range", desc, || { let mut m = x; m.swap_rows(r1, R); });
            cx.panics("swap-out-of-range", desc, || { let mut m = x; m.swap_columns(C, c1); });
            cx.panics("swap-out-of-range", desc, || { let mut m = x; m.swap((c1, r1), (c2, R)); });
        });
    }
}

fn square<T: Sc, const N: usize>(cx: &mut Cx) {
    let tag = format!("square {} {}", T::NAME, N);
    for _ in 0..cx.n(60) {
        let sp = cx.rng.chance(1, 3);
        let a: [[T; N]; N] = if sp { std::array::from_fn(|_| specials(&mut cx.rng, None)) } else { exmats(&mut cx.rng) };
        let d: [T; N] = if sp { specials(&mut cx.rng, None) } else { gens(&mut cx.rng) };
        let s = if sp { T::special(&mut cx.rng) } else { T::gen(&mut cx.rng) };
        let (i, j) = (cx.rng.below(N), cx.rng.below(N));
        let desc = || format!("a={:?} d={:?} s={:?} (column {}, row {})", a, d, s, i, j);
        cx.case(&tag, mkeys(&a), true, desc, |cx| {
            let x = Matrix::<T, N, N>::from(a);
            let mut t = x;
            t.transpose_mut();
            let dg = |f: &dyn Fn(usize) -> T| (0..N).flat_map(|c| (0..N).map(move |r| (c, r))).map(|(c, r)| if c == r { f(c) } else { T::zero() }).collect::<Vec<T>>();
            let tr: Vec<T> = (0..N).flat_map(|c| (0..N).map(move |r| (c, r))).map(|(c, r)| a[r][c]).collect();
            let diag: Vec<T> = (0..N).map(|k| a[k][k]).collect();
            let obs = [
                ("transpose-mut", ms(&t), tr), ("identity", ms(&Matrix::<T, N, N>::identity()), dg(&|_| T::one())), ("from-diagonal-value", ms(&Matrix::<T, N, N>::from_diagonal_value(s)), dg(&|_| s)),
                ("from-diagonal", ms(&Matrix::<T, N, N>::from_diagonal(&Vector::<T, N>::from(d))), dg(&|k| d[k])), ("trace", vec![x.trace()], vec![diag.iter().fold(T::zero(), |p, q| p + *q)]),
            ];
            for (ev, g, w) in &obs { if *ev == "trace" { if !sp { cx.ok(ev, vsame(g, w), || format!("got {:?}, want {:?}; {}", g, w, desc())); } } else { cx.ok(ev, vexact(g, w), || format!("got {:?}, want {:?}; {}", g, w, desc())); } }
            let g = x.diagonal();
            let got: Vec<T> = g[..].to_vec();
            cx.ok("diagonal", vexact(&got, &diag), || format!("got {:?}; {}", got, desc()));
            let mut m = Matrix::<T, N, N>::identity();
            cx.ok("is-identity", m.is_identity(), || "identity".into());
            cx.eq("is-identity", x.is_identity(), flat(&a) == dg(&|_| T::one()), desc);
            m[i][j] = m[i][j] + T::one();
            cx.ok("is-identity", !m.is_identity(), desc);
        });
    }
    for i in 0..N { for j in 0..N {
        cx.case(&tag, [9, i as u64, j as u64], true, || format!("identity with entry ({}, {}) changed", i, j), |cx| {
            let mut m = Matrix::<T, N, N>::identity();
            let want = if i == j { T::one() } else { T::zero() };
            let mut other = vec![T::one() + T::one(), T::zero(), T::one(), T::zero() - T::one()];
            for _ in 0..12 { other.push(T::special(&mut cx.rng)); }
            for v in other {
                m[i][j] = v;
                cx.eq("is-identity-every-entry", m.is_identity(), v == want, || format!("entry ({}, {}) = {:?}", i, j, v));
            }
        });
    } }
}

fn float_square<const N: usize>(cx: &mut Cx) {
    let tag = format!("predicates {}", N);
    for _ in 0..cx.n(150) {
        let a: [[f64; N]; N] = std::array::from_fn(|_| cx.rng.vals());
        let (i, j) = (cx.rng.below(N), cx.rng.below(N));
        let e = cx.rng.nz();
        let small = if cx.rng.chance(1, 3) { cx.rng.sign() * f64::EPSILON * cx.rng.range(0.0, 0.4) } else { cx.rng.mag(4.0 * f64::EPSILON, 1e-3) };
        let desc = || format!("a={:?} entry (column {}, row {}) changed by {} or {:e}", a, i, j, e, small);
        cx.case(&tag, bits(&refm::flat(&a)), true, desc, |cx| {
            let dm: [[f64; N]; N] = std::array::from_fn(|c| std::array::from_fn(|r| if r == c { a[c][c] } else { 0.0 }));
            let sy: [[f64; N]; N] = std::array::from_fn(|c| std::array::from_fn(|r| a[c.min(r)][c.max(r)]));
            let (mut d, mut s) = (Matrix::<f64, N, N>::from(dm), Matrix::<f64, N, N>::from(sy));
            cx.ok("is-diagonal", d.is_diagonal(), desc);
            cx.ok("is-symmetric", s.is_symmetric() && d.is_symmetric(), desc);
            d[i][j] += e;
            cx.eq("is-diagonal", d.is_diagonal(), i == j, desc);
            s[i][j] = s[i][j] + 1.0 + e.abs();
            cx.eq("is-symmetric", s.is_symmetric(), i == j, desc);
            // a small deviation counts unless it is within the default tolerance (absolute epsilon, 4 units in the last place)
            let mut d = Matrix::<f64, N, N>::from(dm);
            d[i][j] = if i == j { d[i][j] } else { small };
            cx.eq("is-diagonal-tolerance", d.is_diagonal(), i == j || small.abs() < f64::EPSILON, desc);
            let mut s = Matrix::<f64, N, N>::from(sy);
            s[i][j] += small * (1.0 + s[i][j].abs());
            let dev = (s[i][j] - s[j][i]).abs();
            let ulp = f64::EPSILON * s[j][i].abs();
            if dev > 3.0 * f64::EPSILON && dev > 10.0 * ulp || dev < 0.5 * f64::EPSILON { cx.eq("is-symmetric-tolerance", s.is_symmetric(), dev < 0.5 * f64::EPSILON, desc); }
        });
    }
}

fn embed<T: Sc, const M: usize, const N: usize>(cx: &mut Cx)
where Matrix<T, N, N>: From<Matrix<T, M, M>>, for<'a> Matrix<T, N, N>: From<&'a Matrix<T, M, M>> {
    let tag = format!("embed {} {} into {}", T::NAME, M, N);
    for _ in 0..cx.n(40) {
        let a: [[T; M]; M] = if cx.rng.chance(1, 3) { std::array::from_fn(|_| specials(&mut cx.rng, None)) } else { mats(&mut cx.rng) };
        let desc = || format!("a={:?}", a);
        cx.case(&tag, mkeys(&a), true, desc, |cx| {
            let x = Matrix::<T, M, M>::from(a);
            let w: Vec<T> = (0..N).flat_map(|c| (0..N).map(move |r| (c, r))).map(|(c, r)| if c < M && r < M { a[c][r] } else if c == r { T::one() } else { T::zero() }).collect();
            let (g, h): (Matrix<T, N, N>, Matrix<T, N, N>) = (Matrix::from(x), Matrix::from(&x));
            cx.ok("embedding", vexact(&ms(&g), &w) && vexact(&ms(&h), &w), || format!("got {:?} / {:?}, want {:?}; {}", ms(&g), ms(&h), w, desc()));
        });
    }
}

fn main() {
    let mut c = Cx::new("C07", "random matrices with (mostly) distinct entries over 16 shapes and all 14 scalar types, random rows/columns/entries including equal and out-of-range ones; every single-entry deviation from the identity; non-trivial: entries not all equal");
    let cx = &mut c;
    macro_rules! shapes { ($f:ident, $($t:ident)*) => { $( $f::<$t, 1, 1>(cx); $f::<$t, 1, 2>(cx); $f::<$t, 1, 3>(cx); $f::<$t, 1, 4>(cx); $f::<$t, 2, 1>(cx); $f::<$t, 2, 2>(cx); $f::<$t, 2, 3>(cx); $f::<$t, 2, 4>(cx); $f::<$t, 3, 1>(cx); $f::<$t, 3, 2>(cx); $f::<$t, 3, 3>(cx); $f::<$t, 3, 4>(cx); $f::<$t, 4, 1>(cx); $f::<$t, 4, 2>(cx); $f::<$t, 4, 3>(cx); $f::<$t, 4, 4>(cx); )* }; }
    shapes!(general, i32 f64 u8);
    macro_rules! large { ($($t:ident)*) => { $( general::<$t, 5, 5>(cx); general::<$t, 5, 6>(cx); general::<$t, 7, 2>(cx); general::<$t, 1, 6>(cx); square::<$t, 5>(cx); square::<$t, 6>(cx); general::<$t, 9, 2>(cx); general::<$t, 2, 9>(cx); general::<$t, 12, 12>(cx); square::<$t, 9>(cx); square::<$t, 12>(cx); )* }; }
    large!(i32 f64);
    macro_rules! per { ($($t:ident)*) => { $( general::<$t, 2, 2>(cx); general::<$t, 3, 4>(cx); general::<$t, 4, 4>(cx); )* }; }
    per!(u16 u32 u64 u128 usize i8 i16 i64 i128 isize f32);
    macro_rules! sq { ($($t:ident)*) => { $( square::<$t, 1>(cx); square::<$t, 2>(cx); square::<$t, 3>(cx); square::<$t, 4>(cx); embed::<$t, 1, 2>(cx); embed::<$t, 1, 3>(cx); embed::<$t, 1, 4>(cx); embed::<$t, 2, 3>(cx); embed::<$t, 2, 4>(cx); embed::<$t, 3, 4>(cx); )* }; }
    sq!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
    float_square::<1>(cx); float_square::<2>(cx); float_square::<3>(cx); float_square::<4>(cx); float_square::<5>(cx); float_square::<6>(cx); float_square::<9>(cx);
    cx.require(&["from-columns", "from-rows", "row", "column", "swap-rows", "swap-columns", "swap-elements", "transpose-mut", "trace", "diagonal", "is-identity", "is-zero", "is-diagonal", "is-symmetric", "embedding", "row-out-of-range"]);
    c.finish();
}
