//! C25: every transformation acts as its homogeneous matrix.
use h_core::tr::*;
use h_core::*;

/// Records the images under every application form, and every matrix form, against the reference.
macro_rules! acts {
    ($cx:expr, $n:literal, $g:expr, $m:expr, $N:literal, $M:literal, $p:expr, $v:expr, $desc:expr, $mats:expr, $vec:expr) => {{
        let (t, m, p, v) = ($g.t, $m, $p, $v);
        let (pp, vv) = (pt(&p), vc(&v));
        let wp: [f64; $N] = refm::hom_point(&m, &p);
        let wv: [f64; $N] = refm::hom_vec(&m, &v);
        let w = refm::mv(&m, &std::array::from_fn::<f64, $M, _>(|i| if i < $N { p[i] } else { 1.0 }))[$N];
        let s = 2e-14 * (1.0 + maxabs(&refm::flat(&m))) * $g.big;
        let tp = s * (1.0 + maxabs(&p)) * (1.0 + maxabs(&wp)) / w.abs().min(1.0);
        // affine maps keep relative accuracy: small points and vectors are as accurate as others, except next to a far plane, line or eye
        let ml = (0..$N).flat_map(|c| (0..$N).map(move |r| m[c][r].abs())).fold(0.0, f64::max);
        let far = if matches!($g.how, "from_affine_shear" | "from_normal_bias" | "look_to / look_at") { 1.0 } else { 0.0 };
        let tp = if m[$N][$N] == 1.0 && (0..$N).all(|c| m[c][$N] == 0.0) { 4e-14 * $g.big * (ml * maxabs(&p) + maxabs(&m[$N][..$N]) + far) } else { tp };
        let tv = 4e-14 * $g.big * (ml * maxabs(&v) + if $g.how == "from_affine_shear" { 1.0 } else { 0.0 });
        for (ev, g) in [(concat!($n, ":apply-point"), pa(&t.apply_point(&pp))), (concat!($n, ":mul-point"), pa(&(t * pp))), (concat!($n, ":mul-point-ref"), pa(&(t * &pp))), (concat!($n, ":ref-mul-point"), pa(&(&t * pp))), (concat!($n, ":ref-mul-point-ref"), pa(&(&t * &pp)))] {
            $cx.near(ev, &g, &wp, tp, $desc);
        }
        let f: &dyn Fn(&mut Cx, &'static str, &[f64; $N], &[f64; $N], f64) = &$vec;
        for (ev, g) in [(concat!($n, ":apply-vector"), va(&t.apply_vector(&vv))), (concat!($n, ":mul-vector"), va(&(t * vv))), (concat!($n, ":mul-vector-ref"), va(&(t * &vv))), (concat!($n, ":ref-mul-vector"), va(&(&t * vv))), (concat!($n, ":ref-mul-vector-ref"), va(&(&t * &vv)))] {
            f($cx, ev, &g, &wv, tv);
        }
        let mats: Vec<(&'static str, [[f64; $M]; $M])> = $mats(&t);
        for (ev, g) in mats { $cx.near(ev, &refm::flat(&g), &refm::flat(&m), s * (1.0 + maxabs(&refm::flat(&m))), $desc); }
        for ev in [concat!($n, ":apply-point"), concat!($n, ":apply-vector"), concat!($n, ":mul-point"), concat!($n, ":mul-vector")] { $cx.require(&[ev]); }
    }};
}
macro_rules! affine_mats { ($n:literal, $M:literal, $t:expr) => { vec![
    (concat!($n, ":to-affine-matrix"), ma(&$t.to_affine_matrix())), (concat!($n, ":to-transform"), ma($t.to_transform().matrix())),
    (concat!($n, ":into-matrix"), ma(&Matrix::<f64, $M, $M>::from(*$t))), (concat!($n, ":ref-into-matrix"), ma(&Matrix::<f64, $M, $M>::from($t)))] } }

macro_rules! dim {
    ($f:ident, $N:literal, $M:literal, $rot:ident, $iso:ident, $sim:ident, $shear:ident, $R:ident, $I:ident, $S:ident, $H:ident, $tn:literal, $rn:literal, $sn:literal, $hn:literal, $fn:literal, $in:literal, $mn:literal, $gn:literal) => {
        fn $f(cx: &mut Cx) {
            for _ in 0..cx.n(2500) {
                let r = &mut cx.rng;
                let (p, v): ([f64; $N], [f64; $N]) = if r.bool() { (r.ivals(20), r.ivals(20)) } else { (r.vals(), r.vals()) };
                // now and then all components are small or large together
                let unscaled = p;
                let (p, v) = (refm::scale(&p, if r.chance(1, 6) { r.mag(1e-30, 1e30) } else { 1.0 }), refm::scale(&v, if r.chance(1, 6) { r.mag(1e-30, 1e30) } else { 1.0 }));
                let (gt, gs, gf, gr, gi, gm) = (translation::<$N, $M>(r), scaling::<$N, $M>(r), reflection::<$N, $M>(r), $rot(r), $iso(r), $sim(r));
                let (gh, o) = $shear(r);
                let g = general::<$N, $M>(r);
                // the point a general transformation is applied to keeps a weight away from zero
                let mut q = unscaled;
                for _ in 0..50 { let h: [f64; $M] = std::array::from_fn(|i| if i < $N { q[i] } else { 1.0 }); if refm::mv(&g, &h)[$N].abs() > 0.3 { break; } q = r.vals(); }
                let (a1, k1, d2) = (r.vals::<$N>(), r.val(), perp::<$N>(r));
                let key = |m: &[[f64; $M]; $M]| { let mut k = bits(&refm::flat(m)); k.extend(bits(&p)); k.extend(bits(&v)); k };
                let strict = |d: &dyn Fn() -> String, cx: &mut Cx, ev: &'static str, g: &[f64; $N], w: &[f64; $N], t: f64| cx.near(ev, g, w, t, || d());

                let desc = || format!("{} p={:?} v={:?} reference={:?}", gt.how, p, v, gt.m);
                cx.case($tn, key(&gt.m), gt.how != "identity", desc, |cx| {
                    acts!(cx, $tn, gt, gt.m, $N, $M, p, v, desc, |t: &Translation<f64, $N>| { let mut l = affine_mats!($tn, $M, t); let w: [f64; $N] = va(t.vector()); l.push((concat!($tn, ":vector"), refm::affine(&refm::eye(), &w))); l.push((concat!($tn, ":to-vector"), refm::affine(&refm::eye(), &va(&t.to_vector())))); l.push((concat!($tn, ":as-ref"), refm::affine(&refm::eye(), &va(t.as_ref())))); l },
                        |cx, ev, g, w, t| strict(&desc, cx, ev, g, w, t));
                });
                let desc = || format!("{} p={:?} v={:?} reference={:?}", gs.how, p, v, gs.m);
                cx.case($sn, key(&gs.m), gs.how != "identity", desc, |cx| {
                    acts!(cx, $sn, gs, gs.m, $N, $M, p, v, desc, |t: &Scale<f64, $N>| { let mut l = affine_mats!($sn, $M, t); l.push((concat!($sn, ":to-vector"), refm::affine(&dia(&va(&t.to_vector())), &[0.0; $N]))); l.push((concat!($sn, ":to-matrix"), refm::affine(&ma(&t.to_matrix()), &[0.0; $N]))); l },
                        |cx, ev, g, w, t| strict(&desc, cx, ev, g, w, t));
                });
                let desc = || format!("{} p={:?} v={:?} reference={:?}", gr.how, p, v, gr.m);
                cx.case($rn, key(&gr.m), gr.how != "identity", desc, |cx| {
                    acts!(cx, $rn, gr, gr.m, $N, $M, p, v, desc, |t: &$R<f64>| { let mut l = affine_mats!($rn, $M, t); for (e, m) in [(concat!($rn, ":matrix"), ma(t.matrix())), (concat!($rn, ":to-matrix"), ma(&t.to_matrix())), (concat!($rn, ":as-ref"), ma(t.as_ref()))] { l.push((e, refm::affine(&m, &[0.0; $N]))); } l },
                        |cx, ev, g, w, t| strict(&desc, cx, ev, g, w, t));
                });
                let desc = || format!("{} p={:?} v={:?} reference={:?}", gf.how, p, v, gf.m);
                cx.case($fn, key(&gf.m), true, desc, |cx| {
                    acts!(cx, $fn, gf, gf.m, $N, $M, p, v, desc, |t: &Reflection<f64, $N>| { let mut l = affine_mats!($fn, $M, t); l.push((concat!($fn, ":normal-bias"), reflect_ref(&va(&t.normal()), &pa(&t.bias())))); l },
                        |cx, ev, g, w, t| strict(&desc, cx, ev, g, w, t));
                    let rf = Reflection::from_normal_bias(&uni(&d2.0), &pt(&a1));
                    cx.near(concat!($fn, ":normal-read-back"), &va(&rf.normal()), &d2.0, 0.0, desc);
                    cx.near(concat!($fn, ":bias-read-back"), &pa(&rf.bias()), &a1, 0.0, desc);
                });
                let desc = || format!("{} p={:?} v={:?} origin={:?} reference={:?}", gh.how, p, v, o, gh.m);
                cx.case($hn, key(&gh.m), gh.how != "identity", desc, |cx| {
                    let (k, d, n) = (gh.t.shear_factor(), va(&gh.t.direction()), va(&gh.t.normal()));
                    // recorded defect: vectors are sheared as if they were positions relative to the origin
                    let off = -k * refm::dot(&o, &n);
                    acts!(cx, $hn, gh, gh.m, $N, $M, p, v, desc, |t: &$H<f64>| { let mut l = affine_mats!($hn, $M, t); l.push((concat!($hn, ":parameters"), shear_ref(t.shear_factor(), &pa(&t.origin()), &va(&t.direction()), &va(&t.normal())))); l },
                        |cx: &mut Cx, ev, g: &[f64; $N], w: &[f64; $N], t: f64| {
                            let near = |w: &[f64; $N], t: f64| (0..$N).all(|i| (g[i] - w[i]).abs() <= t);
                            let bug = refm::add(w, &refm::scale(&d, off));
                            if o == [0.0; $N] { cx.near(ev, g, w, t, desc); } else { cx.known("shear-vector-origin", ev, near(w, t * (1.0 + maxabs(&o))), near(&bug, t * (1.0 + maxabs(&o))), || format!("got {:?} want {:?}; {}", g, w, desc())); }
                        });
                    let sh = $H::from_affine_shear(k1, &pt(&a1), &uni(&d2.0), &uni(&d2.1));
                    let got = [vec![sh.shear_factor()], pa(&sh.origin()).to_vec(), va(&sh.direction()).to_vec(), va(&sh.normal()).to_vec()].concat();
                    cx.near(concat!($hn, ":read-back"), &got, &[vec![k1], a1.to_vec(), d2.0.to_vec(), d2.1.to_vec()].concat(), 0.0, desc);
                    let sh = $H::from_shear(k1, &uni(&d2.0), &uni(&d2.1));
                    let got = [vec![sh.shear_factor()], pa(&sh.origin()).to_vec(), va(&sh.direction()).to_vec(), va(&sh.normal()).to_vec()].concat();
                    cx.near(concat!($hn, ":read-back-linear"), &got, &[vec![k1], vec![0.0; $N], d2.0.to_vec(), d2.1.to_vec()].concat(), 0.0, desc);
                });
                let desc = || format!("{} p={:?} v={:?} reference={:?}", gi.how, p, v, gi.m);
                cx.case($in, key(&gi.m), gi.how != "identity", desc, |cx| {
                    acts!(cx, $in, gi, gi.m, $N, $M, p, v, desc, |t: &$I<f64>| { let mut l = affine_mats!($in, $M, t); l.push((concat!($in, ":parts"), refm::affine(&ma(t.rotation().matrix()), &va(t.translation().vector())))); l },
                        |cx, ev, g, w, t| strict(&desc, cx, ev, g, w, t));
                    let it = $I::from_parts(&gt.t, &gr.t);
                    cx.ok(concat!($in, ":parts-read-back"), va(it.translation().vector()) == va(gt.t.vector()) && ma(it.rotation().matrix()) == ma(gr.t.matrix()), desc);
                });
                let desc = || format!("{} p={:?} v={:?} reference={:?}", gm.how, p, v, gm.m);
                cx.case($mn, key(&gm.m), gm.how != "identity", desc, |cx| {
                    acts!(cx, $mn, gm, gm.m, $N, $M, p, v, desc, |t: &$S<f64>| { let mut l = affine_mats!($mn, $M, t); let mut m = refm::affine(&ma(t.rotation().matrix()), &va(t.translation().vector())); for c in 0..$N { for q in 0..$N { m[c][q] *= t.scale(); } } l.push((concat!($mn, ":parts"), m)); l },
                        |cx, ev, g, w, t| strict(&desc, cx, ev, g, w, t));
                    let it = $S::from_parts(&gt.t, &gr.t, k1);
                    cx.ok(concat!($mn, ":parts-read-back"), va(it.translation().vector()) == va(gt.t.vector()) && ma(it.rotation().matrix()) == ma(gr.t.matrix()) && it.scale() == k1, desc);
                });
                let desc = || format!("matrix={:?} p={:?} v={:?}", g, q, v);
                cx.case($gn, key(&g), true, desc, |cx| {
                    let t = Transform::<f64, $N, $M>::from_matrix_unchecked(Matrix::<f64, $M, $M>::from(g));
                    acts!(cx, $gn, (G { t, how: "", big: 1.0, m: g }), g, $N, $M, q, v, desc, |t: &Transform<f64, $N, $M>| { let mut u = *t; *u.matrix_mut() = t.to_matrix(); vec![
                        (concat!($gn, ":matrix"), ma(t.matrix())), (concat!($gn, ":matrix-mut"), ma(u.matrix())), (concat!($gn, ":to-matrix"), ma(&t.to_matrix())), (concat!($gn, ":as-ref"), ma(t.as_ref())),
                        (concat!($gn, ":into-matrix"), ma(&Matrix::<f64, $M, $M>::from(*t))), (concat!($gn, ":ref-into-matrix"), ma(&Matrix::<f64, $M, $M>::from(t)))] },
                        |cx, ev, g, w, t| strict(&desc, cx, ev, g, w, t));
                });
            }
        }
    };
}
dim!(two, 2, 3, rotation2, isometry2, similarity2, shear2, Rotation2, Isometry2, Similarity2, Shear2, "translation2", "rotation2", "scale2", "shear2", "reflection2", "isometry2", "similarity2", "transform2");
dim!(three, 3, 4, rotation3, isometry3, similarity3, shear3, Rotation3, Isometry3, Similarity3, Shear3, "translation3", "rotation3", "scale3", "shear3", "reflection3", "isometry3", "similarity3", "transform3");

fn integers(cx: &mut Cx) {
    for _ in 0..cx.n(300) {
        let r = &mut cx.rng;
        let a: [i32; 3] = std::array::from_fn(|_| r.int(-50, 50) as i32);
        let b: [i32; 3] = std::array::from_fn(|_| r.int(-50, 50) as i32);
        let k = r.int(-9, 9) as i32;
        let desc = || format!("a={:?} b={:?} k={}", a, b, k);
        cx.case("integers", a.iter().chain(&b).map(|x| *x as u64).chain([k as u64]), true, desc, |cx| {
            let (p, v) = (Point3::from(b), Vector3::from(b));
            let t = Translation3::new(a[0], a[1], a[2]);
            let s = Scale3::new(a[0], a[1], a[2]);
            let sum: Vec<i32> = (0..3).map(|i| a[i] + b[i]).collect();
            let prod: Vec<i32> = (0..3).map(|i| a[i] * b[i]).collect();
            let t2 = Translation2::new(a[0], a[1]) * Point2::new(b[0], b[1]);
            let s2 = Scale2::new(a[0], a[1]) * Vector2::new(b[0], b[1]);
            cx.ok("int:translation", ps(&(t * p)) == sum && vs(&(t * v)) == b && ps(&t2) == sum[..2], desc);
            cx.ok("int:scale", ps(&(s * p)) == prod && vs(&(s * v)) == prod && vs(&s2) == prod[..2], desc);
            for (ev, h, (x, y)) in [("int:shear-xy", Shear3::from_shear_xy(k), (0, 1)), ("int:shear-xz", Shear3::from_shear_xz(k), (0, 2)), ("int:shear-yx", Shear3::from_shear_yx(k), (1, 0)),
                ("int:shear-yz", Shear3::from_shear_yz(k), (1, 2)), ("int:shear-zx", Shear3::from_shear_zx(k), (2, 0)), ("int:shear-zy", Shear3::from_shear_zy(k), (2, 1))] {
                let mut w = b;
                w[x] += k * b[y];
                cx.ok(ev, ps(&(h * p)) == w && vs(&(h * v)) == w, desc);
            }
        });
    }
}

/// Single precision: images and matrices of every type.
macro_rules! single_dim {
    ($f:ident, $N:literal, $M:literal, $rot:ident, $iso:ident, $sim:ident, $shear:ident, $d:literal) => {
        fn $f(cx: &mut Cx) {
            use h_core::tr::single::*;
            for _ in 0..cx.n(700) {
                let r = &mut cx.rng;
                let (p, v) = (comps::<$N>(r), comps::<$N>(r));
                macro_rules! one { ($n:literal, $g:expr) => {{
                    let g = $g;
                    let desc = || format!("{} p={:?} v={:?} reference={:?}", g.how, p, v, g.m);
                    let mut key = bits(&refm::flat(&g.m));
                    key.extend(bits(&p));
                    cx.case(concat!("single:", $n, $d), key, true, desc, |cx| {
                        let s = 1e-5 * (1.0 + maxabs(&refm::flat(&g.m))) * g.big;
                        let (wp, wv): ([f64; $N], [f64; $N]) = (refm::hom_point(&g.m, &p), refm::hom_vec(&g.m, &v));
                        let (tp, tv) = (s * (1.0 + maxabs(&p)), s * (1.0 + maxabs(&v)));
                        cx.near(concat!("single:", $n, $d, ":point"), &pa(&g.t.apply_point(&p32(&p))), &wp, tp, desc);
                        let (q, u, x) = (p32(&p), v32(&v), g.t.to_transform());
                        for o in [g.t * q, g.t * &q, &g.t * q, &g.t * &q, x * q, x * &q, &x * q, &x * &q, x.apply_point(&q)] { cx.near(concat!("single:", $n, $d, ":point"), &pa(&o), &wp, tp, desc); }
                        for o in [g.t * u, g.t * &u, &g.t * u, &g.t * &u] { cx.near(concat!("single:", $n, $d, ":vector"), &va(&o), &wv, tv, desc); }
                        for o in [x * u, x * &u, &x * u, &x * &u, x.apply_vector(&u)] { cx.near(concat!("single:", $n, $d, ":vector"), &va(&o), &wv, tv, desc); }
                        for o in [Matrix::<f32, $M, $M>::from(g.t), Matrix::<f32, $M, $M>::from(&g.t)] { cx.near(concat!("single:", $n, $d, ":matrix"), &refm::flat(&ma(&o)), &refm::flat(&g.m), s, desc); }
                        cx.near(concat!("single:", $n, $d, ":vector"), &va(&g.t.apply_vector(&v32(&v))), &wv, tv, desc);
                        cx.near(concat!("single:", $n, $d, ":vector"), &va(&(&g.t * &v32(&v))), &wv, tv, desc);
                        cx.near(concat!("single:", $n, $d, ":matrix"), &refm::flat(&ma(&g.t.to_affine_matrix())), &refm::flat(&g.m), s, desc);
                        cx.near(concat!("single:", $n, $d, ":matrix"), &refm::flat(&ma(g.t.to_transform().matrix())), &refm::flat(&g.m), s, desc);
                    });
                }}; }
                one!("translation", translation::<$N, $M>(&mut cx.rng));
                one!("scale", scaling::<$N, $M>(&mut cx.rng));
                one!("reflection", reflection::<$N, $M>(&mut cx.rng));
                one!("rotation", $rot(&mut cx.rng));
                one!("isometry", $iso(&mut cx.rng));
                one!("similarity", $sim(&mut cx.rng));
                one!("shear", $shear(&mut cx.rng));
            }
        }
    };
}
single_dim!(single_two, 2, 3, rotation2, isometry2, similarity2, shear2, "2");
single_dim!(single_three, 3, 4, rotation3, isometry3, similarity3, shear3, "3");

/// Translations, scales and reflections are generic in the dimension: one, four, five and nine.
macro_rules! generic_dim {
    ($f:ident, $N:literal, $M:literal, $tn:literal, $sn:literal, $fn:literal) => {
        fn $f(cx: &mut Cx) {
            for _ in 0..cx.n(500) {
                let r = &mut cx.rng;
                let (p, v): ([f64; $N], [f64; $N]) = if r.bool() { (r.ivals(20), r.ivals(20)) } else { (r.vals(), r.vals()) };
                let (gt, gs, gf) = (translation::<$N, $M>(r), scaling::<$N, $M>(r), reflection::<$N, $M>(r));
                let key = |m: &[[f64; $M]; $M]| { let mut k = bits(&refm::flat(m)); k.extend(bits(&p)); k.extend(bits(&v)); k };
                let desc = || format!("{} p={:?} v={:?} reference={:?}", gt.how, p, v, gt.m);
                cx.case($tn, key(&gt.m), gt.how != "identity", desc, |cx| {
                    acts!(cx, $tn, gt, gt.m, $N, $M, p, v, desc, |t: &Translation<f64, $N>| vec![(concat!($tn, ":vector"), refm::affine(&refm::eye(), &va(t.vector()))), (concat!($tn, ":to-vector"), refm::affine(&refm::eye(), &va(&t.to_vector()))), (concat!($tn, ":as-ref"), refm::affine(&refm::eye(), &va(t.as_ref())))],
                        |cx: &mut Cx, ev, g: &[f64; $N], w: &[f64; $N], t: f64| cx.near(ev, g, w, t, desc));
                });
                let desc = || format!("{} p={:?} v={:?} reference={:?}", gs.how, p, v, gs.m);
                cx.case($sn, key(&gs.m), gs.how != "identity", desc, |cx| {
                    acts!(cx, $sn, gs, gs.m, $N, $M, p, v, desc, |t: &Scale<f64, $N>| vec![(concat!($sn, ":to-vector"), refm::affine(&dia(&va(&t.to_vector())), &[0.0; $N])), (concat!($sn, ":to-matrix"), refm::affine(&ma(&t.to_matrix()), &[0.0; $N]))],
                        |cx: &mut Cx, ev, g: &[f64; $N], w: &[f64; $N], t: f64| cx.near(ev, g, w, t, desc));
                });
                let desc = || format!("{} p={:?} v={:?} reference={:?}", gf.how, p, v, gf.m);
                cx.case($fn, key(&gf.m), true, desc, |cx| {
                    acts!(cx, $fn, gf, gf.m, $N, $M, p, v, desc, |t: &Reflection<f64, $N>| vec![(concat!($fn, ":normal-bias"), reflect_ref(&va(&t.normal()), &pa(&t.bias())))],
                        |cx: &mut Cx, ev, g: &[f64; $N], w: &[f64; $N], t: f64| cx.near(ev, g, w, t, desc));
                });
            }
        }
    };
}
generic_dim!(one_dim, 1, 2, "translation1", "scale1", "reflection1");
generic_dim!(four_dim, 4, 5, "translation4", "scale4", "reflection4");
generic_dim!(five_dim, 5, 6, "translation5", "scale5", "reflection5");
generic_dim!(nine_dim, 9, 10, "translation9", "scale9", "reflection9");

/// On the line, where every affine form exists too.
fn line(cx: &mut Cx) {
    for _ in 0..cx.n(400) {
        let r = &mut cx.rng;
        let (p, v) = (r.vals::<1>(), r.vals::<1>());
        let (gt, gs, gf) = (translation::<1, 2>(r), scaling::<1, 2>(r), reflection::<1, 2>(r));
        let g = general::<1, 2>(r);
        let desc = || format!("{} {} {} p={:?} v={:?} references={:?} {:?} {:?} matrix={:?}", gt.how, gs.how, gf.how, p, v, gt.m, gs.m, gf.m, g);
        let key = [bits(&p).into_iter().collect::<Vec<_>>(), bits(&refm::flat(&g)).into_iter().collect(), bits(&refm::flat(&gt.m)).into_iter().collect(), bits(&refm::flat(&gs.m)).into_iter().collect()].concat();
        cx.case("line", key, true, desc, |cx| {
            macro_rules! forms { ($n:literal, $g:expr) => {{
                let tol = 2e-14 * (1.0 + maxabs(&refm::flat(&$g.m))) * $g.big;
                let t = &$g.t;
                for (ev, m) in affine_mats!($n, 2, t) { cx.near(ev, &refm::flat(&m), &refm::flat(&$g.m), tol, desc); }
            }} }
            forms!("line-translation", gt);
            forms!("line-scale", gs);
            let t = Transform::<f64, 1, 2>::from_matrix_unchecked(Matrix::<f64, 2, 2>::from(g));
            let w = g[0][1] * p[0] + g[1][1];
            if w.abs() > 0.3 {
                let want = (g[0][0] * p[0] + g[1][0]) / w;
                cx.near("line-transform:point", &pa(&t.apply_point(&pt(&p))), &[want], 1e-13 * (1.0 + maxabs(&p)) * (1.0 + maxabs(&refm::flat(&g))) * (1.0 + want.abs()) / w.abs().min(1.0), desc);
            }
            cx.near("line-transform:vector", &va(&t.apply_vector(&vc(&v))), &[g[0][0] * v[0]], 1e-14 * (1.0 + maxabs(&v)) * (1.0 + maxabs(&refm::flat(&g))), desc);
        });
    }
}

/// Angle, axis and Euler angles read back from rotations, and conversions to and from quaternions: each has to describe the same map.
fn read_back(cx: &mut Cx) {
    use std::f64::consts::PI;
    for _ in 0..cx.n(1500) {
        let r = &mut cx.rng;
        let (g2, g3, a, x) = (rotation2(r), rotation3(r), r.angle(), r.dir::<3>());
        let desc = || format!("{} {:?}; {} {:?}; angle {:e} axis {:?}", g2.how, g2.m, g3.how, g3.m, a, x);
        let mut key = bits(&refm::flat(&g3.m));
        key.extend(bits(&refm::flat(&g2.m)));
        cx.case("read-back", key, g3.how != "identity" && g2.how != "identity", desc, |cx| {
            let l3: M3 = std::array::from_fn(|c| std::array::from_fn(|i| g3.m[c][i]));
            let t2 = g2.t.angle().0;
            cx.near("read-back:rotation2-angle", &refm::flat(&refm::rot2(t2)), &[g2.m[0][0], g2.m[0][1], g2.m[1][0], g2.m[1][1]], 1e-13 * g2.big, desc);
            cx.near("read-back:rotation2-given-angle", &[(Rotation2::from_angle(Radians(a)).angle().0 - a).sin() , (Rotation2::from_angle(Radians(a)).angle().0 - a).cos()], &[0.0, 1.0], 1e-13, desc);
            let e = g3.t.euler_angles();
            let ax: M3 = refm::eye();
            let me = refm::mm(&refm::mm(&refm::rot3(&ax[0], e.x.0), &refm::rot3(&ax[1], e.y.0)), &refm::rot3(&ax[2], e.z.0));
            // the middle Euler angle loses half of the digits next to a quarter turn
            cx.near("read-back:rotation3-euler-angles", &refm::flat(&me), &refm::flat(&l3), 1e-7 * g3.big, desc);
            let (q, q2) = (Quaternion::from(g3.t), Quaternion::from(&g3.t));
            for q in [q, q2] { let q = qa(&q); cx.near("read-back:rotation3-quaternion", &refm::flat(&std::array::from_fn::<_, 3, _>(|c| refm::qrot(&q, &ax[c]))), &refm::flat(&l3), 1e-12 * g3.big, desc); }
            for t in [Rotation3::from(q), Rotation3::from(&q), Rotation3::from(e), Rotation3::from(&e)] { cx.near("read-back:rotation3-rebuilt", &refm::flat(&ma(t.matrix())), &refm::flat(&l3), 1e-7 * g3.big, desc); }
            // where the rotation is neither the identity nor a half turn the axis is well determined
            let th = (((l3[0][0] + l3[1][1] + l3[2][2]) - 1.0) / 2.0).clamp(-1.0, 1.0).acos();
            if th > 1e-3 && th < PI - 1e-3 {
                cx.near("read-back:rotation3-angle", &[g3.t.angle().0], &[th], 1e-11 * g3.big, desc);
                match (g3.t.axis(), g3.t.axis_angle()) {
                    (Some(u), Some((w, t))) => for (u, t) in [(u, g3.t.angle()), (w, t)] { cx.near("read-back:rotation3-axis-angle", &refm::flat(&refm::rot3(&va(u.as_ref()), t.0)), &refm::flat(&l3), 1e-11 * g3.big, desc); },
                    _ => cx.ok("read-back:rotation3-axis-angle", false, || format!("no axis; {}", desc())),
                }
            }
            let t = (a / (2.0 * PI)).fract().abs() * PI;
            if t > 1e-3 && t < PI - 1e-3 {
                let g = Rotation3::from_axis_angle(&uni(&x), Radians(t));
                cx.near("read-back:rotation3-given", &[g.angle().0], &[t], 1e-12, desc);
                cx.near("read-back:rotation3-given", &g.axis().map_or([9.0; 3], |u| va(u.as_ref())), &x, 1e-11, desc);
            }
        });
    }
}

/// The constructors without a single precision case of their own, in both precisions.
fn single_constructors(cx: &mut Cx) {
    for _ in 0..cx.n(1500) {
        let a: [f64; 11] = singles(&mut cx.rng);
        let desc = || format!("a={:?}", a);
        cx.case("single:constructors", bits(&a), true, desc, |cx| {
            both!(cx, "single:constructors2", 1e-4, desc, {
                let b = a.map(|x| x as S);
                let (v, w, p, q) = (Vector2::new(b[0], b[1]), Vector2::new(b[2], b[3]), Point2::new(b[0], b[1]), Point2::new(b[2], b[3]));
                let (d, n, k, t) = (Unit::from_value(Vector2::new(b[4], b[5])), Unit::from_value(Vector2::new(-b[5], b[4])), b[6], Radians(b[7]));
                let tr = Translation2::from_vector(&w);
                let mut o: Vec<S> = vec![];
                macro_rules! put { ($($x:expr),*) => { $( let x = $x; o.extend(ms(&x.to_affine_matrix())); o.extend(vs(&x.apply_vector(&v))); o.extend(vs(&x.apply_point(&p).to_vector())); o.extend(ms(x.to_transform().matrix())); o.extend(ms(&Matrix3x3::from(x.to_transform()))); o.extend(ms(&Matrix3x3::from(&x.to_transform()))); )* } }
                put!(Translation2::between_vectors(&v, &w), Translation2::between_points(&p, &q), Isometry2::from_translation(&tr), Isometry2::from_angle_translation(t, &w), Similarity2::from_translation(&tr), Similarity2::from_scale(k),
                    Shear2::from_shear_xy(k), Shear2::from_shear_yx(k), Shear2::from_affine_shear(k, &q, &d, &n), Scale2::from_scale(k));
                o.extend(ms(&Scale2::from_nonuniform_scale(&w).to_matrix()));
                o
            });
            both!(cx, "single:constructors3", 1e-4, desc, {
                let b = a.map(|x| x as S);
                let (v, w, p, q) = (Vector3::new(b[0], b[1], b[2]), Vector3::new(b[2], b[3], b[8]), Point3::new(b[0], b[1], b[2]), Point3::new(b[2], b[3], b[8]));
                let (d, k, t) = (Unit::from_value(Vector3::new(b[4], b[5], b[9])), b[6], Radians(b[7]));
                let n = Unit::from_value(d.cross(&Vector3::new(b[9], b[4], b[10] + 8.0)));
                let tr = Translation3::from_vector(&w);
                let mut o: Vec<S> = vec![];
                macro_rules! put { ($($x:expr),*) => { $( let x = $x; o.extend(ms(&x.to_affine_matrix())); o.extend(vs(&x.apply_vector(&v))); o.extend(vs(&x.apply_point(&p).to_vector())); o.extend(ms(x.to_transform().matrix())); o.extend(ms(&Matrix4x4::from(x.to_transform()))); )* } }
                put!(Translation3::between_vectors(&v, &w), Translation3::between_points(&p, &q), Isometry3::from_translation(&tr), Isometry3::from_axis_angle_translation(&n, t, &w), Similarity3::from_translation(&tr), Similarity3::from_scale(k),
                    Shear3::from_shear_xy(k), Shear3::from_shear_xz(k), Shear3::from_shear_yx(k), Shear3::from_shear_yz(k), Shear3::from_shear_zx(k), Shear3::from_shear_zy(k), Shear3::from_affine_shear(k, &q, &d, &n), Scale3::from_scale(k));
                o.extend(ms(&Scale3::from_nonuniform_scale(&w).to_matrix()));
                o
            });
        });
    }
}

fn main() {
    let mut c = Cx::new("C25", "every constructor of every transformation type in two and three dimensions with integer and general parameters, general affine and projective matrices, points and vectors with integer and general components; five application forms for points and for vectors, all matrix forms and accessors against an independently built homogeneous matrix; integer element types for translations, scales and shears; single precision for every type; translations, scales and reflections in one, four, five and nine dimensions; non-trivial: not the identity");
    let cx = &mut c;
    two(cx);
    three(cx);
    integers(cx);
    single_two(cx);
    single_three(cx);
    one_dim(cx);
    four_dim(cx);
    five_dim(cx);
    nine_dim(cx);
    line(cx);
    read_back(cx);
    single_constructors(cx);
    cx.require(&["single:constructors2", "single:constructors3", "read-back:rotation2-angle", "read-back:rotation3-axis-angle", "read-back:rotation3-euler-angles"]);
    c.finish();
}
