//! C26: identities, inverses and compositions of transformations.
use h_core::tr::*;
use h_core::*;

fn amax<const M: usize>(m: &[[f64; M]; M]) -> f64 { 1.0 + maxabs(&refm::flat(m)) }
fn eye_like<const M: usize>(_: &[[f64; M]; M]) -> [[f64; M]; M] { refm::eye() }
/// Inverse of an affine matrix whose linear part has the given inverse.
fn ainv<const N: usize, const M: usize>(m: &[[f64; M]; M]) -> [[f64; M]; M] {
    let l: [[f64; N]; N] = std::array::from_fn(|c| std::array::from_fn(|r| m[c][r]));
    let t: [f64; N] = std::array::from_fn(|r| m[N][r]);
    let li = refm::inv(&l).expect("generated transformations are invertible");
    refm::affine(&li, &refm::scale(&refm::mv(&li, &t), -1.0))
}

/// All four operand forms of a product against the product of the reference matrices.
macro_rules! comp {
    ($cx:expr, $n:expr, $a:expr, $b:expr, $N:literal, $M:literal, $p:expr, $v:expr, $desc:expr, $mat:expr) => {{
        let (a, b, p, v) = (&$a, &$b, $p, $v);
        let m: [[f64; $M]; $M] = refm::mm(&a.m, &b.m);
        let s = 4e-14 * amax(&a.m) * amax(&b.m) * a.big * b.big;
        let (x, y) = (a.t, b.t);
        let forms = [(concat!($n, ":val-val"), x * y), (concat!($n, ":val-ref"), x * &y), (concat!($n, ":ref-val"), &x * y), (concat!($n, ":ref-ref"), &x * &y)];
        for (ev, t) in forms {
            let g: [[f64; $M]; $M] = $mat(&t);
            $cx.near(ev, &refm::flat(&g), &refm::flat(&m), s, $desc);
            $cx.near(concat!($n, ":point"), &pa(&t.apply_point(&pt(&p))), &refm::hom_point(&m, &p), s * (1.0 + maxabs(&p)), $desc);
            $cx.near(concat!($n, ":vector"), &va(&t.apply_vector(&vc(&v))), &refm::hom_vec(&m, &v), s * (1.0 + maxabs(&v)), $desc);
        }
        $cx.near(concat!($n, ":one-after-the-other"), &pa(&forms[0].1.apply_point(&pt(&p))), &pa(&x.apply_point(&y.apply_point(&pt(&p)))), 2.0 * s * (1.0 + maxabs(&p)), $desc);
        $cx.require(&[concat!($n, ":ref-ref"), concat!($n, ":one-after-the-other")]);
    }};
}
/// inverse-apply forms against the reference inverse, and the round trips.
macro_rules! undo {
    ($cx:expr, $n:expr, $g:expr, $mi:expr, $N:literal, $p:expr, $v:expr, $desc:expr) => {{
        let (g, mi, p, v) = (&$g, $mi, $p, $v);
        let s = 4e-14 * amax(&mi) * g.big;
        let both = s * amax(&g.m);
        let t = g.t;
        $cx.near(concat!($n, ":inverse-apply-point"), &pa(&t.inverse_apply_point(&pt(&p))), &refm::hom_point(&mi, &p), s * (1.0 + maxabs(&p)), $desc);
        $cx.near(concat!($n, ":undo-point"), &pa(&t.inverse_apply_point(&t.apply_point(&pt(&p)))), &p, both * (1.0 + maxabs(&p)), $desc);
        $cx.near(concat!($n, ":redo-point"), &pa(&t.apply_point(&t.inverse_apply_point(&pt(&p)))), &p, both * (1.0 + maxabs(&p)), $desc);
        $cx.near(concat!($n, ":undo-vector"), &va(&t.inverse_apply_vector(&t.apply_vector(&vc(&v)))), &v, both * (1.0 + maxabs(&v)), $desc);
        $cx.near(concat!($n, ":redo-vector"), &va(&t.apply_vector(&t.inverse_apply_vector(&vc(&v)))), &v, both * (1.0 + maxabs(&v)), $desc);
        $cx.require(&[concat!($n, ":inverse-apply-point"), concat!($n, ":undo-vector")]);
    }};
}
macro_rules! undov {
    ($cx:expr, $n:expr, $g:expr, $mi:expr, $v:expr, $desc:expr) => {{
        let (mi, v) = ($mi, $v);
        $cx.near(concat!($n, ":inverse-apply-vector"), &va(&$g.t.inverse_apply_vector(&vc(&v))), &refm::hom_vec(&mi, &v), 4e-14 * $g.big * amax(&mi) * (1.0 + maxabs(&v)), $desc);
    }};
}
/// The inverse value: matrix, images, and products on both sides.
macro_rules! invert {
    ($cx:expr, $n:expr, $g:expr, $mi:expr, $p:expr, $v:expr, $desc:expr, $mat:expr, $inverses:expr) => {{
        let (g, mi, p, v) = (&$g, $mi, $p, $v);
        let s = 4e-14 * amax(&mi) * g.big;
        let both = s * amax(&g.m);
        for (ev, i) in $inverses {
            let m = $mat(&i);
            $cx.near(ev, &refm::flat(&m), &refm::flat(&mi), s, $desc);
            $cx.near(concat!($n, ":inverse-point"), &pa(&i.apply_point(&pt(&p))), &refm::hom_point(&mi, &p), s * (1.0 + maxabs(&p)), $desc);
            $cx.near(concat!($n, ":inverse-undoes"), &pa(&i.apply_point(&g.t.apply_point(&pt(&p)))), &p, both * (1.0 + maxabs(&p)), $desc);
            $cx.near(concat!($n, ":inverse-undoes-vector"), &va(&i.apply_vector(&g.t.apply_vector(&vc(&v)))), &v, both * (1.0 + maxabs(&v)), $desc);
            for (ev, m) in [(concat!($n, ":inverse-left"), $mat(&(i * g.t))), (concat!($n, ":inverse-right"), $mat(&(g.t * i)))] {
                $cx.near(ev, &refm::flat(&m), &refm::flat(&eye_like(&m)), both, $desc);
            }
            $cx.require(&[ev]);
        }
    }};
}

macro_rules! dim {
    ($f:ident, $sing:ident, $N:literal, $M:literal, $rot:ident, $iso:ident, $sim:ident, $shear:ident, $R:ident, $I:ident, $S:ident, $H:ident, $X:ident, $d:literal) => {
        fn $f(cx: &mut Cx) {
            for _ in 0..cx.n(2000) {
                let r = &mut cx.rng;
                let (p, v): ([f64; $N], [f64; $N]) = if r.bool() { (r.ivals(20), r.ivals(20)) } else { (r.vals(), r.vals()) };
                let (t1, t2, t3) = (translation::<$N, $M>(r), translation::<$N, $M>(r), translation::<$N, $M>(r));
                let (s1, s2, s3) = (scaling::<$N, $M>(r), scaling::<$N, $M>(r), scaling::<$N, $M>(r));
                let (r1, r2, r3) = ($rot(r), $rot(r), $rot(r));
                let (i1, i2, i3) = ($iso(r), $iso(r), $iso(r));
                let (m1, m2, m3) = ($sim(r), $sim(r), $sim(r));
                let (h1, h2) = ($shear(r).0, $shear(r).0);
                let f1 = reflection::<$N, $M>(r);
                let mat = |g: [[f64; $M]; $M]| G { t: Transform::<f64, $N, $M>::from_matrix_unchecked(Matrix::<f64, $M, $M>::from(g)), how: "from_matrix_unchecked", big: 1.0, m: g };
                let aff = |r: &mut Rng| loop { let g = general::<$N, $M>(r); if (0..$N).all(|c| g[c][$N] == 0.0) && g[$N][$N] == 1.0 { break mat(g) } };
                let (g1, g2, gp) = (aff(r), aff(r), mat(general::<$N, $M>(r)));
                let key = |ms: &[&[[f64; $M]; $M]]| { let mut k = bits(&p); k.extend(bits(&v)); for m in ms { k.extend(bits(&refm::flat(*m))); } k };
                // like compositions
                macro_rules! like { ($n:literal, $a:expr, $b:expr, $c:expr) => {{
                    let (a, b, c) = (&$a, &$b, &$c);
                    let desc = || format!("{} * {} * {} p={:?} v={:?} references={:?} {:?} {:?}", a.how, b.how, c.how, p, v, a.m, b.m, c.m);
                    cx.case(concat!($n, $d, "-product"), key(&[&a.m, &b.m, &c.m]), a.how != "identity" && b.how != "identity", desc, |cx| {
                        comp!(cx, concat!($n, $d, "-product"), *a, *b, $N, $M, p, v, desc, Aff::<$N, $M>::aff);
                        let m = refm::mm(&a.m, &refm::mm(&b.m, &c.m));
                        let s = 1e-13 * amax(&a.m) * amax(&b.m) * amax(&c.m) * a.big * b.big * c.big;
                        for (ev, t) in [(concat!($n, $d, "-product:chain-left"), (a.t * b.t) * c.t), (concat!($n, $d, "-product:chain-right"), a.t * (b.t * c.t))] {
                            cx.near(ev, &refm::flat(&Aff::<$N, $M>::aff(&t)), &refm::flat(&m), s, desc);
                        }
                    });
                }} }
                like!("translation", t1, t2, t3);
                like!("scale", s1, s2, s3);
                like!("rotation", r1, r2, r3);
                like!("isometry", i1, i2, i3);
                like!("similarity", m1, m2, m3);
                like!("transform", g1, g2, g1);

                // mixed compositions
                macro_rules! mixed { ($n:literal, $a:expr, $b:expr) => {{
                    let (a, b) = (&$a, &$b);
                    let desc = || format!("{} * {} p={:?} v={:?} references={:?} {:?}", a.how, b.how, p, v, a.m, b.m);
                    cx.case(concat!($n, $d), key(&[&a.m, &b.m]), a.how != "identity" && b.how != "identity", desc, |cx| comp!(cx, concat!($n, $d), *a, *b, $N, $M, p, v, desc, Aff::<$N, $M>::aff));
                }} }
                mixed!("rotation-translation", r1, t1);
                mixed!("translation-rotation", t1, r1);
                mixed!("isometry-translation", i1, t1);
                mixed!("translation-isometry", t1, i1);
                mixed!("isometry-rotation", i1, r1);
                mixed!("rotation-isometry", r1, i1);
                mixed!("similarity-isometry", m1, i1);
                mixed!("shear-shear", h1, h2);

                // inverses
                macro_rules! inv { ($n:literal, $g:expr, $inverses:expr) => {{
                    let g = &$g;
                    let mi = ainv::<$N, $M>(&g.m);
                    let desc = || format!("{} p={:?} v={:?} reference={:?}", g.how, p, v, g.m);
                    cx.case(concat!($n, $d, "-inverse"), key(&[&g.m]), g.how != "identity", desc, |cx| {
                        undo!(cx, concat!($n, $d), *g, mi, $N, p, v, desc);
                        undov!(cx, concat!($n, $d), *g, mi, v, desc);
                        invert!(cx, concat!($n, $d), *g, mi, p, v, desc, Aff::<$N, $M>::aff, $inverses);
                    });
                }} }
                inv!("translation", t1, [(concat!("translation", $d, ":inverse"), t1.t.inverse()), (concat!("translation", $d, ":inverse-mut"), { let mut i = t1.t; i.inverse_mut(); i })]);
                inv!("scale", s1, [(concat!("scale", $d, ":inverse"), s1.t.inverse())]);
                inv!("rotation", r1, [(concat!("rotation", $d, ":inverse"), r1.t.inverse()), (concat!("rotation", $d, ":inverse-mut"), { let mut i = r1.t; i.inverse_mut(); i })]);
                inv!("isometry", i1, [(concat!("isometry", $d, ":inverse"), i1.t.inverse()), (concat!("isometry", $d, ":inverse-mut"), { let mut i = i1.t; i.inverse_mut(); i })]);
                inv!("similarity", m1, [(concat!("similarity", $d, ":inverse"), m1.t.inverse()), (concat!("similarity", $d, ":inverse-mut"), { let mut i = m1.t; i.inverse_mut(); i })]);

                // reflections are their own inverses
                let desc = || format!("reflection p={:?} v={:?} reference={:?}", p, v, f1.m);
                cx.case(concat!("reflection", $d, "-inverse"), key(&[&f1.m]), true, desc, |cx| {
                    undo!(cx, concat!("reflection", $d), f1, f1.m, $N, p, v, desc);
                    undov!(cx, concat!("reflection", $d), f1, f1.m, v, desc);
                    cx.near(concat!("reflection", $d, ":involution"), &pa(&f1.t.apply_point(&f1.t.apply_point(&pt(&p)))), &p, 1e-13 * f1.big * amax(&f1.m) * (1.0 + maxabs(&p)), desc);
                });
                // shears: the inverse has the opposite factor
                let desc = || format!("{} p={:?} v={:?} reference={:?} {:?}", h1.how, p, v, h1.m, h1.t);
                cx.case(concat!("shear", $d, "-inverse"), key(&[&h1.m]), h1.how != "identity", desc, |cx| {
                    let (k, o, d, n) = (h1.t.shear_factor(), pa(&h1.t.origin()), va(&h1.t.direction()), va(&h1.t.normal()));
                    let mi: [[f64; $M]; $M] = shear_ref(-k, &o, &d, &n);
                    let big = 1.0 + maxabs(&o);
                    let h = G { t: h1.t, how: h1.how, big: h1.big, m: h1.m.map(|c| c.map(|x| x * big)) };
                    // tolerances of the round trips grow with the origin, so pass a scaled bound
                    undo!(cx, concat!("shear", $d), h, mi, $N, p, v, desc);
                    let i = h1.t.inverse();
                    let s = 4e-14 * amax(&mi) * h1.big;
                    cx.near(concat!("shear", $d, ":inverse"), &refm::flat(&Aff::<$N, $M>::aff(&i)), &refm::flat(&mi), s, desc);
                    cx.near(concat!("shear", $d, ":inverse-point"), &pa(&i.apply_point(&pt(&p))), &refm::hom_point(&mi, &p), s * (1.0 + maxabs(&p)), desc);
                    cx.near(concat!("shear", $d, ":inverse-undoes"), &pa(&i.apply_point(&h1.t.apply_point(&pt(&p)))), &p, s * amax(&h1.m) * (1.0 + maxabs(&p)), desc);
                    cx.near(concat!("shear", $d, ":inverse-undoes-vector"), &va(&i.apply_vector(&h1.t.apply_vector(&vc(&v)))), &v, s * amax(&h1.m) * big * (1.0 + maxabs(&v)), desc);
                    for (ev, m) in [(concat!("shear", $d, ":inverse-left"), Aff::<$N, $M>::aff(&(i * h1.t))), (concat!("shear", $d, ":inverse-right"), Aff::<$N, $M>::aff(&(h1.t * i)))] {
                        cx.near(ev, &refm::flat(&m), &refm::flat(&eye_like(&m)), s * amax(&h1.m), desc);
                    }
                    // recorded defect: vectors are sheared as if they were positions relative to the origin
                    let (g, w) = (va(&h1.t.inverse_apply_vector(&vc(&v))), refm::hom_vec(&mi, &v));
                    let t = s * big * (1.0 + maxabs(&v));
                    let near = |w: &[f64; $N]| (0..$N).all(|i| (g[i] - w[i]).abs() <= t);
                    let ev = concat!("shear", $d, ":inverse-apply-vector");
                    if o == [0.0; $N] { cx.near(ev, &g, &w, t, desc); } else {
                        let bug = refm::add(&w, &refm::scale(&d, k * refm::dot(&o, &n)));
                        cx.known("shear-inverse-vector-origin", ev, near(&w), near(&bug), || format!("got {:?} want {:?}; {}", g, w, desc()));
                    }
                });
                // general transformations, affine and projective
                for g in [&g1, &gp] {
                    let desc = || format!("matrix={:?} p={:?} v={:?}", g.m, p, v);
                    let mi = refm::inv(&g.m).unwrap();
                    let wt = |m: &[[f64; $M]; $M], p: &[f64; $N]| { let h: [f64; $M] = std::array::from_fn(|i| if i < $N { p[i] } else { 1.0 }); refm::mv(m, &h)[$N].abs() };
                    cx.case(concat!("transform", $d, "-inverse"), key(&[&g.m]), true, desc, |cx| {
                        let s = 1e-13 * amax(&mi) * amax(&g.m);
                        let i = g.t.try_inverse();
                        cx.ok(concat!("transform", $d, ":invertible"), i.is_some(), desc);
                        let Some(i) = i else { return };
                        cx.near(concat!("transform", $d, ":try-inverse"), &refm::flat(&ma(i.matrix())), &refm::flat(&mi), s * amax(&mi), desc);
                        cx.near(concat!("transform", $d, ":inverse"), &refm::flat(&ma(g.t.inverse().matrix())), &refm::flat(&mi), s * amax(&mi), desc);
                        for (ev, m) in [(concat!("transform", $d, ":inverse-left"), ma((i * g.t).matrix())), (concat!("transform", $d, ":inverse-right"), ma((g.t * i).matrix()))] {
                            cx.near(ev, &refm::flat(&m), &refm::flat(&eye_like(&m)), s, desc);
                        }
                        let iv = g.t.inverse_apply_vector(&vc(&v));
                        cx.ok(concat!("transform", $d, ":inverse-apply-vector-some"), iv.is_some(), desc);
                        if let Some(x) = iv { cx.near(concat!("transform", $d, ":inverse-apply-vector"), &va(&x), &refm::hom_vec(&mi, &v), s * amax(&mi) * (1.0 + maxabs(&v)), desc); }
                        if wt(&mi, &p) > 0.1 {
                            let ip = g.t.inverse_apply_point(&pt(&p));
                            cx.ok(concat!("transform", $d, ":inverse-apply-point-some"), ip.is_some(), desc);
                            let w: [f64; $N] = refm::hom_point(&mi, &p);
                            let t = s * amax(&mi) * (1.0 + maxabs(&p)) * (1.0 + maxabs(&w));
                            if let Some(x) = ip {
                                cx.near(concat!("transform", $d, ":inverse-apply-point"), &pa(&x), &w, t, desc);
                                cx.near(concat!("transform", $d, ":inverse-then-apply"), &pa(&g.t.apply_point(&x)), &p, t * amax(&g.m) / wt(&g.m, &w).min(1.0), desc);
                            }
                        }
                    });
                }
                cx.require(&[concat!("transform", $d, ":try-inverse"), concat!("transform", $d, ":inverse-apply-point"), concat!("transform", $d, ":inverse-apply-vector")]);

                // identities
                let desc = || format!("identity p={:?} v={:?}", p, v);
                cx.case(concat!("identity", $d), key(&[]), p != [0.0; $N], desc, |cx| {
                    macro_rules! id { ($n:literal, $i:expr) => {{
                        let i = $i;
                        cx.near(concat!($n, $d, ":identity-point"), &pa(&i.apply_point(&pt(&p))), &p, 0.0, desc);
                        cx.near(concat!($n, $d, ":identity-vector"), &va(&i.apply_vector(&vc(&v))), &v, 0.0, desc);
                        let m: [[f64; $M]; $M] = i.aff();
                        cx.near(concat!($n, $d, ":identity-matrix"), &refm::flat(&m), &refm::flat(&eye_like(&m)), 0.0, desc);
                    }} }
                    id!("translation", Translation::<f64, $N>::identity());
                    id!("scale", Scale::<f64, $N>::identity());
                    id!("rotation", $R::<f64>::identity());
                    id!("isometry", $I::<f64>::identity());
                    id!("similarity", $S::<f64>::identity());
                    id!("shear", $H::<f64>::identity());
                    id!("transform", $X::<f64>::identity());
                    macro_rules! nil { ($n:literal, $g:expr, $i:expr) => {{
                        for (ev, t) in [(concat!($n, $d, ":identity-left"), $i * $g.t), (concat!($n, $d, ":identity-right"), $g.t * $i)] {
                            let m: [[f64; $M]; $M] = t.aff();
                            cx.near(ev, &refm::flat(&m), &refm::flat(&$g.m), 4e-14 * $g.big * amax(&$g.m), desc);
                        }
                    }} }
                    nil!("translation", t1, Translation::<f64, $N>::identity());
                    nil!("scale", s1, Scale::<f64, $N>::identity());
                    nil!("rotation", r1, $R::<f64>::identity());
                    nil!("isometry", i1, $I::<f64>::identity());
                    nil!("similarity", m1, $S::<f64>::identity());
                    nil!("shear", h1, $H::<f64>::identity());
                    nil!("transform", gp, $X::<f64>::identity());
                });
            }
        }
        /// Singular integer matrices (their determinant is computed exactly) are refused; nearby invertible ones are not.
        fn $sing(cx: &mut Cx) {
            for _ in 0..cx.n(1500) {
                let r = &mut cx.rng;
                let mut m: [[f64; $M]; $M] = std::array::from_fn(|_| r.ivals(5));
                let (i, j, kind) = (r.below($M), r.below($M), r.below(5));
                match kind {
                    0 => m[i] = [0.0; $M],
                    1 => for c in 0..$M { m[c][i] = 0.0; },
                    2 if i != j => { let (a, b) = (r.ival(3), r.ival(3)); let l = (i + 1..i + $M).map(|x| x % $M).find(|x| *x != j).unwrap(); m[i] = refm::add(&refm::scale(&m[j], a), &refm::scale(&m[l], b)); }
                    3 if i != j => { let a = r.ival(3); for c in 0..$M { m[c][i] = a * m[c][j]; } }
                    _ => {}
                }
                let scale = (2.0f64).powi(*r.pick(&[0, 0, 0, -6, 6, -12, -20, -45, 30]));
                let singular = refm::det(&m).abs() < 0.5;
                let m = m.map(|c| c.map(|x| x * scale));
                let (p, v): ([f64; $N], [f64; $N]) = (r.ivals(9), r.ivals(9));
                let desc = || format!("matrix={:?} p={:?} v={:?}", m, p, v);
                cx.case(concat!("singular", $d), bits(&refm::flat(&m)), singular, desc, |cx| {
                    let t = $X::<f64>::from_matrix_unchecked(Matrix::<f64, $M, $M>::from(m));
                    if singular {
                        cx.ok(concat!("singular", $d, ":try-inverse"), t.try_inverse().is_none(), desc);
                        cx.ok(concat!("singular", $d, ":inverse-apply-point"), t.inverse_apply_point(&pt(&p)).is_none(), desc);
                        cx.ok(concat!("singular", $d, ":inverse-apply-vector"), t.inverse_apply_vector(&vc(&v)).is_none(), desc);
                        cx.panics(concat!("singular", $d, ":inverse"), desc, || { std::hint::black_box(t.inverse()); });
                    } else {
                        cx.ok(concat!("regular", $d, ":try-inverse"), t.try_inverse().is_some(), desc);
                        cx.ok(concat!("regular", $d, ":inverse-apply-vector"), t.inverse_apply_vector(&vc(&v)).is_some(), desc);
                    }
                });
            }
            cx.require(&[concat!("singular", $d, ":try-inverse"), concat!("singular", $d, ":inverse"), concat!("regular", $d, ":try-inverse")]);
        }
    };
}
/// The homogeneous matrix of a transformation, as the library reports it.
trait Aff<const N: usize, const M: usize> { fn aff(&self) -> [[f64; M]; M]; }
macro_rules! aff { ($N:literal, $M:literal, $($T:ty),*) => { $( impl Aff<$N, $M> for $T { fn aff(&self) -> [[f64; $M]; $M] { ma(&self.to_affine_matrix()) } } )* } }
aff!(2, 3, Translation2<f64>, Scale2<f64>, Rotation2<f64>, Isometry2<f64>, Similarity2<f64>, Shear2<f64>);
aff!(3, 4, Translation3<f64>, Scale3<f64>, Rotation3<f64>, Isometry3<f64>, Similarity3<f64>, Shear3<f64>);
impl Aff<2, 3> for Transform2<f64> { fn aff(&self) -> [[f64; 3]; 3] { ma(self.matrix()) } }
impl Aff<3, 4> for Transform3<f64> { fn aff(&self) -> [[f64; 4]; 4] { ma(self.matrix()) } }

dim!(two, two_singular, 2, 3, rotation2, isometry2, similarity2, shear2, Rotation2, Isometry2, Similarity2, Shear2, Transform2, "2");
dim!(three, three_singular, 3, 4, rotation3, isometry3, similarity3, shear3, Rotation3, Isometry3, Similarity3, Shear3, Transform3, "3");

/// Single precision: products of like types, inverses and inverse-application of every type.
macro_rules! single_dim {
    ($f:ident, $N:literal, $M:literal, $rot:ident, $iso:ident, $sim:ident, $shear:ident, $d:literal) => {
        fn $f(cx: &mut Cx) {
            use h_core::tr::single::*;
            for _ in 0..cx.n(700) {
                let r = &mut cx.rng;
                let (p, v) = (comps::<$N>(r), comps::<$N>(r));
                macro_rules! one { ($n:literal, $a:expr, $b:expr, $prod:expr, $inv:expr) => {{
                    let (a, b) = ($a, $b);
                    let desc = || format!("{} p={:?} v={:?} left={:?} right={:?}", a.how, p, v, a.m, b.m);
                    let mut key = bits(&refm::flat(&a.m));
                    key.extend(bits(&refm::flat(&b.m)));
                    cx.case(concat!("single:", $n, $d), key, true, desc, |cx| {
                        let mi: [[f64; $M]; $M] = ainv::<$N, $M>(&a.m);
                        let s = 2e-5 * amax(&mi) * amax(&a.m) * a.big;
                        let (sp, sv) = (s * (1.0 + maxabs(&p)), s * (1.0 + maxabs(&v)));
                        cx.near(concat!("single:", $n, $d, ":inverse-apply"), &pa(&a.t.inverse_apply_point(&p32(&p))), &refm::hom_point(&mi, &p), sp, desc);
                        cx.near(concat!("single:", $n, $d, ":inverse-apply"), &va(&a.t.inverse_apply_vector(&v32(&v))), &refm::hom_vec(&mi, &v), sv, desc);
                        cx.near(concat!("single:", $n, $d, ":undo"), &pa(&a.t.inverse_apply_point(&a.t.apply_point(&p32(&p)))), &p, 2.0 * sp, desc);
                        cx.near(concat!("single:", $n, $d, ":undo"), &va(&a.t.inverse_apply_vector(&a.t.apply_vector(&v32(&v)))), &v, 2.0 * sv, desc);
                        let i: Vec<[[f64; $M]; $M]> = $inv;
                        for g in i { cx.near(concat!("single:", $n, $d, ":inverse"), &refm::flat(&g), &refm::flat(&mi), s, desc); }
                        let m: [[f64; $M]; $M] = refm::mm(&a.m, &b.m);
                        let s = 2e-5 * amax(&a.m) * amax(&b.m) * a.big * b.big;
                        let g: Vec<[[f64; $M]; $M]> = $prod;
                        for g in g { cx.near(concat!("single:", $n, $d, ":product"), &refm::flat(&g), &refm::flat(&m), s, desc); }
                    });
                }}; }
                macro_rules! plain { ($n:literal, $gen:expr) => {{
                    let (a, b) = ($gen, $gen);
                    let (x, y) = (a.t, b.t);
                    let mut im = x;
                    im.inverse_mut();
                    one!($n, a, b, vec![ma(&(x * y).to_affine_matrix()), ma(&(x * &y).to_affine_matrix()), ma(&(&x * y).to_affine_matrix()), ma(&(&x * &y).to_affine_matrix())], vec![ma(&x.inverse().to_affine_matrix()), ma(&im.to_affine_matrix())])
                }}; }
                macro_rules! mixed { ($n:literal, $a:expr, $b:expr) => {{
                    let (a, b) = ($a, $b);
                    let (x, y) = (a.t, b.t);
                    one!($n, a, b, vec![ma(&(x * y).to_affine_matrix()), ma(&(x * &y).to_affine_matrix()), ma(&(&x * y).to_affine_matrix()), ma(&(&x * &y).to_affine_matrix())], vec![])
                }}; }
                mixed!("rotation-translation", $rot(&mut cx.rng), translation::<$N, $M>(&mut cx.rng));
                mixed!("translation-rotation", translation::<$N, $M>(&mut cx.rng), $rot(&mut cx.rng));
                mixed!("isometry-translation", $iso(&mut cx.rng), translation::<$N, $M>(&mut cx.rng));
                mixed!("translation-isometry", translation::<$N, $M>(&mut cx.rng), $iso(&mut cx.rng));
                mixed!("isometry-rotation", $iso(&mut cx.rng), $rot(&mut cx.rng));
                mixed!("rotation-isometry", $rot(&mut cx.rng), $iso(&mut cx.rng));
                mixed!("similarity-isometry", $sim(&mut cx.rng), $iso(&mut cx.rng));
                // as general transformations
                let (g, h) = ($sim(&mut cx.rng), $iso(&mut cx.rng));
                let desc = || format!("left={:?} right={:?} p={:?} v={:?}", g.m, h.m, p, v);
                cx.case(concat!("single:transform", $d), bits(&refm::flat(&g.m)), true, desc, |cx| {
                    let (x, y) = (g.t.to_transform(), h.t.to_transform());
                    let (mi, m): ([[f64; $M]; $M], [[f64; $M]; $M]) = (ainv::<$N, $M>(&g.m), refm::mm(&g.m, &h.m));
                    let (s, t) = (2e-5 * amax(&mi) * amax(&g.m), 2e-5 * amax(&g.m) * amax(&h.m));
                    for o in [x * y, x * &y, &x * y, &x * &y] { cx.near(concat!("single:transform", $d, ":product"), &refm::flat(&ma(o.matrix())), &refm::flat(&m), t, desc); }
                    // the inverse of a general transformation may be refused when the determinant underflows the threshold
                    if let Some(o) = x.try_inverse() {
                        for o in [o, x.inverse()] { cx.near(concat!("single:transform", $d, ":inverse"), &refm::flat(&ma(o.matrix())), &refm::flat(&mi), s * amax(&mi), desc); }
                        let (sp, sv) = (s * amax(&mi) * (1.0 + maxabs(&p)), s * amax(&mi) * (1.0 + maxabs(&v)));
                        match (x.inverse_apply_point(&p32(&p)), x.inverse_apply_vector(&v32(&v))) {
                            (Some(q), Some(u)) => { cx.near(concat!("single:transform", $d, ":inverse-apply"), &pa(&q), &refm::hom_point(&mi, &p), sp, desc); cx.near(concat!("single:transform", $d, ":inverse-apply"), &va(&u), &refm::hom_vec(&mi, &v), sv, desc); }
                            _ => cx.ok(concat!("single:transform", $d, ":inverse-apply"), false, || format!("refused although the inverse exists; {}", desc())),
                        }
                    }
                });
                plain!("translation", translation::<$N, $M>(&mut cx.rng));
                plain!("rotation", $rot(&mut cx.rng));
                plain!("isometry", $iso(&mut cx.rng));
                plain!("similarity", $sim(&mut cx.rng));
                { let (a, b) = (scaling::<$N, $M>(&mut cx.rng), scaling::<$N, $M>(&mut cx.rng)); let (x, y) = (a.t, b.t); one!("scale", a, b, vec![ma(&(x * y).to_affine_matrix()), ma(&(x * &y).to_affine_matrix()), ma(&(&x * y).to_affine_matrix()), ma(&(&x * &y).to_affine_matrix())], vec![ma(&x.inverse().to_affine_matrix())]) }
                { let (a, b) = ($shear(&mut cx.rng), $shear(&mut cx.rng)); let (x, y) = (a.t, b.t); one!("shear", a, b, vec![ma((x * y).matrix()), ma((x * &y).matrix()), ma((&x * y).matrix()), ma((&x * &y).matrix())], vec![ma(&x.inverse().to_affine_matrix())]) }
                { let (a, b) = (reflection::<$N, $M>(&mut cx.rng), reflection::<$N, $M>(&mut cx.rng)); let x = a.t; one!("reflection", a, b, vec![], vec![ma(&x.inverse().to_affine_matrix())]) }
            }
        }
    };
}
single_dim!(single_two, 2, 3, rotation2, isometry2, similarity2, shear2, "2");
single_dim!(single_three, 3, 4, rotation3, isometry3, similarity3, shear3, "3");

/// Translations, scales and reflections are generic in the dimension: one, four, five and nine.
macro_rules! generic_dim {
    ($f:ident, $N:literal, $M:literal, $d:literal) => {
        fn $f(cx: &mut Cx) {
            fn tm(t: &Translation<f64, $N>) -> [[f64; $M]; $M] { refm::affine(&refm::eye(), &va(t.vector())) }
            fn sm(t: &Scale<f64, $N>) -> [[f64; $M]; $M] { refm::affine(&dia(&va(&t.to_vector())), &[0.0; $N]) }
            fn inv(m: &[[f64; $M]; $M]) -> [[f64; $M]; $M] {
                let l: [f64; $N] = std::array::from_fn(|i| 1.0 / m[i][i]);
                refm::affine(&dia(&l), &std::array::from_fn(|i| -m[$N][i] * l[i]))
            }
            for _ in 0..cx.n(400) {
                let r = &mut cx.rng;
                let (p, v): ([f64; $N], [f64; $N]) = if r.bool() { (r.ivals(20), r.ivals(20)) } else { (r.vals(), r.vals()) };
                let (t1, t2) = (translation::<$N, $M>(r), translation::<$N, $M>(r));
                let (s1, s2) = (scaling::<$N, $M>(r), scaling::<$N, $M>(r));
                let f1 = reflection::<$N, $M>(r);
                let key = |ms: &[&[[f64; $M]; $M]]| { let mut k = bits(&p); k.extend(bits(&v)); for m in ms { k.extend(bits(&refm::flat(*m))); } k };
                let desc = || format!("{} {} p={:?} v={:?} references={:?} {:?}", t1.how, t2.how, p, v, t1.m, t2.m);
                cx.case(concat!("translation", $d), key(&[&t1.m, &t2.m]), t1.how != "identity" && t2.how != "identity", desc, |cx| {
                    comp!(cx, concat!("translation", $d, "-product"), t1, t2, $N, $M, p, v, desc, tm);
                    let mi = inv(&t1.m);
                    undo!(cx, concat!("translation", $d), t1, mi, $N, p, v, desc);
                    undov!(cx, concat!("translation", $d), t1, mi, v, desc);
                    invert!(cx, concat!("translation", $d), t1, mi, p, v, desc, tm, [(concat!("translation", $d, ":inverse"), t1.t.inverse()), (concat!("translation", $d, ":inverse-mut"), { let mut i = t1.t; i.inverse_mut(); i })]);
                });
                let desc = || format!("{} {} p={:?} v={:?} references={:?} {:?}", s1.how, s2.how, p, v, s1.m, s2.m);
                cx.case(concat!("scale", $d), key(&[&s1.m, &s2.m]), s1.how != "identity" && s2.how != "identity", desc, |cx| {
                    comp!(cx, concat!("scale", $d, "-product"), s1, s2, $N, $M, p, v, desc, sm);
                    let mi = inv(&s1.m);
                    undo!(cx, concat!("scale", $d), s1, mi, $N, p, v, desc);
                    undov!(cx, concat!("scale", $d), s1, mi, v, desc);
                    invert!(cx, concat!("scale", $d), s1, mi, p, v, desc, sm, [(concat!("scale", $d, ":inverse"), s1.t.inverse())]);
                });
                let desc = || format!("reflection p={:?} v={:?} reference={:?}", p, v, f1.m);
                cx.case(concat!("reflection", $d), key(&[&f1.m]), true, desc, |cx| {
                    undo!(cx, concat!("reflection", $d), f1, f1.m, $N, p, v, desc);
                    undov!(cx, concat!("reflection", $d), f1, f1.m, v, desc);
                    let i = f1.t.inverse();
                    cx.near(concat!("reflection", $d, ":inverse"), &pa(&i.apply_point(&pt(&p))), &refm::hom_point(&f1.m, &p), 4e-14 * f1.big * amax(&f1.m) * (1.0 + maxabs(&p)), desc);
                });
            }
        }
    };
}
generic_dim!(one_dim, 1, 2, "1");
generic_dim!(four_dim, 4, 5, "4");
generic_dim!(five_dim, 5, 6, "5");
generic_dim!(nine_dim, 9, 10, "9");

/// Every magnitude: translations, scales, points and vectors each small or large as a whole, judged relative to the terms that make up the
/// result (translation parts to the translations, images to the image's own size), so that nothing hides behind a one somewhere else.
macro_rules! relative_dim {
    ($f:ident, $N:literal, $M:literal, $rot:ident, $I:ident, $S:ident, $d:literal) => {
        fn $f(cx: &mut Cx) {
            for _ in 0..cx.n(1200) {
                let r = &mut cx.rng;
                let k: [f64; 6] = r.arr(|r| if r.chance(1, 3) { 1.0 } else { r.mag(1e-30, 1e30) });
                let mut v = |k: f64| { let mut x: [f64; $N] = r.arr(|r| r.range(-4.0, 4.0)); if r.chance(1, 4) { let i = r.below($N); x[i] = 0.0; } refm::scale(&x, k) };
                let (t1, t2, p, x, q) = (v(k[0]), v(k[1]), v(k[2]), v(k[3]), v(k[2]));
                let (r1, r2, n) = ($rot(r), $rot(r), r.dir::<$N>());
                let ks: [f64; 2] = r.arr(|r| if r.chance(1, 3) { r.sign() } else { r.mag(1e-25, 1e25) });
                let mut sc = || -> [f64; $N] { r.arr(|r| r.mag(1e-25, 1e25)) };
                let (s1, s2) = (sc(), sc());
                let desc = || format!("t1={:?} t2={:?} rotations={} {:?} {} {:?} scales={:?} {:?} {:?} p={:?} v={:?} normal={:?} bias={:?}", t1, t2, r1.how, r1.m, r2.how, r2.m, ks, s1, s2, p, x, n, q);
                let key = [bits(&t1), bits(&t2), bits(&p), bits(&x), bits(&s1), bits(&ks)].concat();
                cx.case(concat!("relative", $d), key, true, desc, |cx| {
                    let (pp, vv) = (pt(&p), vc(&x));
                    let lin = |m: &[[f64; $M]; $M]| -> [[f64; $N]; $N] { std::array::from_fn(|c| std::array::from_fn(|i| m[c][i])) };
                    let each = |cx: &mut Cx, ev: &'static str, g: [f64; $N], w: [f64; $N]| cx.ok(ev, (0..$N).all(|i| (g[i] - w[i]).abs() <= 1e-15 * w[i].abs()), || format!("got {:?} want {:?}; {}", g, w, desc()));
                    let (n1, n2, np, nx, nq) = (maxabs(&t1), maxabs(&t2), maxabs(&p), maxabs(&x), maxabs(&q));
                    // translations
                    let (a, b) = (Translation::from_vector(&vc(&t1)), Translation::from_vector(&vc(&t2)));
                    for g in [a * b, &a * &b, b * a] { cx.near(concat!("relative", $d, ":translation-product"), &va(g.vector()), &refm::add(&t1, &t2), 4e-16 * (n1 + n2), desc); }
                    each(cx, concat!("relative", $d, ":translation-inverse"), va(a.inverse().vector()), refm::scale(&t1, -1.0));
                    cx.near(concat!("relative", $d, ":translation-point"), &pa(&a.apply_point(&pp)), &refm::add(&p, &t1), 4e-16 * (np + n1), desc);
                    cx.near(concat!("relative", $d, ":translation-undo"), &pa(&a.inverse_apply_point(&pp)), &refm::sub(&p, &t1), 4e-16 * (np + n1), desc);
                    each(cx, concat!("relative", $d, ":translation-vector"), va(&a.apply_vector(&vv)), x);
                    each(cx, concat!("relative", $d, ":translation-vector"), va(&a.inverse_apply_vector(&vv)), x);
                    // scales, component by component
                    let (a, b) = (Scale::from_nonuniform_scale(&vc(&s1)), Scale::from_nonuniform_scale(&vc(&s2)));
                    for g in [a * b, &a * &b] { each(cx, concat!("relative", $d, ":scale-product"), va(&g.to_vector()), std::array::from_fn(|i| s1[i] * s2[i])); }
                    each(cx, concat!("relative", $d, ":scale-inverse"), va(&a.inverse().to_vector()), s1.map(|s| 1.0 / s));
                    each(cx, concat!("relative", $d, ":scale-point"), pa(&a.apply_point(&pp)), std::array::from_fn(|i| s1[i] * p[i]));
                    each(cx, concat!("relative", $d, ":scale-vector"), va(&a.apply_vector(&vv)), std::array::from_fn(|i| s1[i] * x[i]));
                    each(cx, concat!("relative", $d, ":scale-undo"), pa(&a.inverse_apply_point(&pp)), std::array::from_fn(|i| p[i] / s1[i]));
                    each(cx, concat!("relative", $d, ":scale-undo-vector"), va(&a.inverse_apply_vector(&vv)), std::array::from_fn(|i| x[i] / s1[i]));
                    // rotations
                    let (l1, l2, big) = (lin(&r1.m), lin(&r2.m), 4e-14 * r1.big * r2.big);
                    cx.near(concat!("relative", $d, ":rotation-point"), &pa(&r1.t.apply_point(&pp)), &refm::mv(&l1, &p), big * np, desc);
                    cx.near(concat!("relative", $d, ":rotation-undo"), &pa(&r1.t.inverse_apply_point(&pp)), &refm::mv(&refm::tr(&l1), &p), big * np, desc);
                    cx.near(concat!("relative", $d, ":rotation-undo-vector"), &va(&r1.t.inverse_apply_vector(&vv)), &refm::mv(&refm::tr(&l1), &x), big * nx, desc);
                    // reflections in a plane as near or far as the points
                    let f = Reflection::from_normal_bias(&uni(&n), &pt(&q));
                    let m: [[f64; $M]; $M] = reflect_ref(&n, &q);
                    for g in [f.apply_point(&pp), f.inverse_apply_point(&pp), f.inverse().apply_point(&pp)] { cx.near(concat!("relative", $d, ":reflection-point"), &pa(&g), &refm::hom_point(&m, &p), 1e-14 * (np + nq), desc); }
                    for g in [f.apply_vector(&vv), f.inverse_apply_vector(&vv)] { cx.near(concat!("relative", $d, ":reflection-vector"), &va(&g), &refm::hom_vec(&m, &x), 1e-14 * nx, desc); }
                    // isometries
                    let (ta, tb) = (Translation::from_vector(&vc(&t1)), Translation::from_vector(&vc(&t2)));
                    let (a, b) = ($I::from_parts(&ta, &r1.t), $I::from_parts(&tb, &r2.t));
                    let w = refm::add(&refm::mv(&l1, &t2), &t1);
                    for g in [a * b, &a * &b, a * &b, &a * b] {
                        cx.near(concat!("relative", $d, ":isometry-product"), &va(g.translation().vector()), &w, big * (n1 + n2), desc);
                        cx.near(concat!("relative", $d, ":isometry-product-rotation"), &refm::flat(&ma(g.rotation().matrix())), &refm::flat(&refm::mm(&l1, &l2)), big, desc);
                    }
                    for (g, w, n) in [(r1.t * tb, refm::mv(&l1, &t2), n2), (tb * r1.t, t2, n2), (a * tb, w, n1 + n2), (tb * a, refm::add(&t2, &t1), n1 + n2), (a * r2.t, t1, n1), (r2.t * a, refm::mv(&l2, &t1), n1)] {
                        cx.near(concat!("relative", $d, ":isometry-mixed"), &va(g.translation().vector()), &w, big * n, desc);
                    }
                    let back = refm::scale(&refm::mv(&refm::tr(&l1), &t1), -1.0);
                    let mut am = a; am.inverse_mut();
                    for g in [a.inverse(), am] { cx.near(concat!("relative", $d, ":isometry-inverse"), &va(g.translation().vector()), &back, big * n1, desc); }
                    cx.near(concat!("relative", $d, ":isometry-point"), &pa(&a.apply_point(&pp)), &refm::add(&refm::mv(&l1, &p), &t1), big * (np + n1), desc);
                    cx.near(concat!("relative", $d, ":isometry-undo"), &pa(&a.inverse_apply_point(&pp)), &refm::add(&refm::mv(&refm::tr(&l1), &p), &back), big * (np + n1), desc);
                    cx.near(concat!("relative", $d, ":isometry-vector"), &va(&a.apply_vector(&vv)), &refm::mv(&l1, &x), big * nx, desc);
                    cx.near(concat!("relative", $d, ":isometry-undo-vector"), &va(&a.inverse_apply_vector(&vv)), &refm::mv(&refm::tr(&l1), &x), big * nx, desc);
                    // similarities
                    let (a, b, i) = ($S::from_parts(&ta, &r1.t, ks[0]), $S::from_parts(&tb, &r2.t, ks[1]), $I::from_parts(&tb, &r2.t));
                    let w = refm::add(&refm::scale(&refm::mv(&l1, &t2), ks[0]), &t1);
                    for g in [a * b, &a * &b, a * &b, &a * b] {
                        cx.near(concat!("relative", $d, ":similarity-product"), &va(g.translation().vector()), &w, big * (n1 + ks[0].abs() * n2), desc);
                        cx.near(concat!("relative", $d, ":similarity-product-rotation"), &refm::flat(&ma(g.rotation().matrix())), &refm::flat(&refm::mm(&l1, &l2)), big, desc);
                        cx.near(concat!("relative", $d, ":similarity-product-scale"), &[g.scale()], &[ks[0] * ks[1]], 1e-15 * (ks[0] * ks[1]).abs(), desc);
                    }
                    for g in [a * i, &a * &i] { cx.near(concat!("relative", $d, ":similarity-mixed"), &va(g.translation().vector()), &w, big * (n1 + ks[0].abs() * n2), desc); cx.near(concat!("relative", $d, ":similarity-mixed-scale"), &[g.scale()], &[ks[0]], 0.0, desc); }
                    let back = refm::scale(&refm::mv(&refm::tr(&l1), &t1), -1.0 / ks[0]);
                    let mut am = a; am.inverse_mut();
                    for g in [a.inverse(), am] {
                        cx.near(concat!("relative", $d, ":similarity-inverse"), &va(g.translation().vector()), &back, big * n1 / ks[0].abs(), desc);
                        cx.near(concat!("relative", $d, ":similarity-inverse-scale"), &[g.scale()], &[1.0 / ks[0]], 1e-15 / ks[0].abs(), desc);
                    }
                    cx.near(concat!("relative", $d, ":similarity-point"), &pa(&a.apply_point(&pp)), &refm::add(&refm::scale(&refm::mv(&l1, &p), ks[0]), &t1), big * (ks[0].abs() * np + n1), desc);
                    cx.near(concat!("relative", $d, ":similarity-undo"), &pa(&a.inverse_apply_point(&pp)), &refm::add(&refm::scale(&refm::mv(&refm::tr(&l1), &p), 1.0 / ks[0]), &back), big * (np + n1) / ks[0].abs(), desc);
                    cx.near(concat!("relative", $d, ":similarity-vector"), &va(&a.apply_vector(&vv)), &refm::scale(&refm::mv(&l1, &x), ks[0]), big * nx * ks[0].abs(), desc);
                    cx.near(concat!("relative", $d, ":similarity-undo-vector"), &va(&a.inverse_apply_vector(&vv)), &refm::scale(&refm::mv(&refm::tr(&l1), &x), 1.0 / ks[0]), big * nx / ks[0].abs(), desc);
                });
            }
            cx.require(&[concat!("relative", $d, ":scale-inverse"), concat!("relative", $d, ":similarity-undo"), concat!("relative", $d, ":isometry-mixed")]);
        }
    };
}
relative_dim!(relative_two, 2, 3, rotation2, Isometry2, Similarity2, "2");
relative_dim!(relative_three, 3, 4, rotation3, Isometry3, Similarity3, "3");

fn main() {
    let mut c = Cx::new("C26", "every constructor of every transformation type in two and three dimensions; products of like types (pairs in four operand forms, chains of three in both associations), all seven mixed products and shear products against the product of independently built matrices; value, in-place, checked and inverse-apply inverses against an independently built inverse, both round trips and both products; identities; translations, rotations, isometries and similarities in single precision; translations, scales and reflections in one, four, five and nine dimensions; translations, scales, points and vectors of any magnitude (1e-30 to 1e30) judged relative to their own size; singular integer matrices refused, regular ones not; non-trivial: no identity involved (singular matrices: actually singular)");
    let cx = &mut c;
    two(cx);
    two_singular(cx);
    three(cx);
    three_singular(cx);
    single_two(cx);
    single_three(cx);
    one_dim(cx);
    four_dim(cx);
    five_dim(cx);
    nine_dim(cx);
    relative_two(cx);
    relative_three(cx);
    c.finish();
}
