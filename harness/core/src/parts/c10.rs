// C10, for the element type S of the including module.
pub fn pass(cx: &mut Cx, n: usize, tol: f64, name: &'static str) {
    for _ in 0..cx.n(n) {
        let narrow = |a: [f64; 3]| -> [f64; 3] { a.map(|x| x as S as f64) };
        let wide = |a: [f64; 3]| -> [S; 3] { a.map(|x| x as S) };
        let r = &mut cx.rng;
        let d = r.dir::<3>();
        let u = loop { let u = r.dir::<3>(); if norm(&cross(&u, &d)) > 0.05 { break u; } };
        // up may lean far towards the direction
        let u = if r.chance(1, 5) { let s = r.mag(3e-3, 0.3); unit(&add(&scale(&d, r.sign()), &scale(&u, s))) } else { u };
        // the scene may be given in any unit of length, and up in another
        let far = if std::mem::size_of::<S>() == 4 { 1e4 } else { 1e9 };
        let unit_len = if r.chance(1, 3) { r.mag(1.0 / far, far).abs() } else { 1.0 };
        let ul = if r.chance(1, 3) { r.mag(1.0 / far, far).abs() } else { r.mag(0.1, 20.0).abs() };
        let dl = unit_len * r.mag(0.1, 20.0).abs();
        let (dir, up) = (narrow(scale(&d, dl)), narrow(scale(&u, ul)));
        let (d, u) = (unit(&dir), unit(&up));
        // keep the target distinguishable from the eye
        let e: [f64; 3] = { let e: [f64; 3] = scale(&r.vals(), unit_len); let most = dl * if std::mem::size_of::<S>() == 4 { 1e3 } else { 1e9 }; narrow(if norm(&e) > most { scale(&e, most / norm(&e)) } else { e }) };
        let target = narrow(add(&e, &dir));
        let w: [f64; 3] = narrow(scale(&r.vals(), unit_len));
        let desc = || format!("{} eye={:?} direction={:?} target={:?} up={:?} w={:?}", std::any::type_name::<S>(), e, dir, target, up, w);
        let mut key = bits(&dir);
        key.extend(bits(&up));
        key.extend(bits(&e));
        cx.case(name, key, norm(&e) > 0.0, desc, |cx| {
            let (ve, vt, vd, vu) = (Point3::from(wide(e)), Point3::from(wide(target)), Vector3::from(wide(dir)), Vector3::from(wide(up)));
            let es = unit_len + norm(&e);
            // target - eye cancels, and so does up x direction
            let tol = tol * (1.0 + es / dl) / norm(&cross(&u, &d)).min(1.0);
            for (h, hand) in [(1.0, "lh"), (-1.0, "rh")] {
                let z = scale(&d, h);
                let x = unit(&cross(&u, &z));
                let y = cross(&z, &x);
                let fwd: M3 = tr(&[x, y, z]);   // rows x, y, z
                let inv: M3 = tr(&fwd);
                let lh = h > 0.0;
                let m3 = |m: Matrix3x3<S>| ma(&m);
                let mut rots: Vec<(&'static str, M3, bool)> = vec![];
                macro_rules! rot { ($name:expr, $T:ty, $conv:expr) => {{
                    let conv = $conv;
                    rots.push((concat!($name, "-look-to"), conv(if lh { <$T>::look_to_lh(&vd, &vu) } else { <$T>::look_to_rh(&vd, &vu) }), false));
                    rots.push((concat!($name, "-look-at"), conv(if lh { <$T>::look_at_lh(&ve, &vt, &vu) } else { <$T>::look_at_rh(&ve, &vt, &vu) }), false));
                    rots.push((concat!($name, "-look-to-inv"), conv(if lh { <$T>::look_to_lh_inv(&vd, &vu) } else { <$T>::look_to_rh_inv(&vd, &vu) }), true));
                    rots.push((concat!($name, "-look-at-inv"), conv(if lh { <$T>::look_at_lh_inv(&ve, &vt, &vu) } else { <$T>::look_at_rh_inv(&ve, &vt, &vu) }), true));
                }}; }
                rot!("matrix3", Matrix3x3<S>, m3);
                rot!("quaternion", Quaternion<S>, |q: Quaternion<S>| -> M3 { let q = qa(&q); std::array::from_fn(|c| refm::qrot(&q, &eye::<3>()[c])) });
                #[cfg(feature = "transform")]
                { use cglinalg_transform::*; rot!("rotation3", Rotation3<S>, |q: Rotation3<S>| -> M3 { std::array::from_fn(|c| va(&q.apply_vector(&Vector3::from(wide(eye::<3>()[c]))))) }); }
                for (ev, m, is_inv) in &rots {
                    cx.near(ev, &fl(m), &fl(if *is_inv { &inv } else { &fwd }), tol, || format!("{} {}", hand, desc()));
                    let f = if *is_inv { tr(m) } else { *m };
                    cx.near("proper-rotation", &[fl(&mm(&tr(m), m)), vec![det(m)]].concat(), &[fl(&eye::<3>()), vec![1.0]].concat(), tol, || format!("{} {} {}", ev, hand, desc()));
                    cx.near("direction-to-z", &mv(&f, &d), &[0.0, 0.0, h], tol, || format!("{} {} {}", ev, hand, desc()));
                    let v = mv(&f, &u);
                    cx.ok("up-in-upper-yz", v[0].abs() < tol && v[1] > 0.0, || format!("{} {} up -> {:?} {}", ev, hand, v, desc()));
                }
                // affine forms
                let t = scale(&mv(&fwd, &e), -1.0);
                let aff = |m: &M3, t: &[f64; 3]| -> M4 { [[m[0][0], m[0][1], m[0][2], 0.0], [m[1][0], m[1][1], m[1][2], 0.0], [m[2][0], m[2][1], m[2][2], 0.0], [t[0], t[1], t[2], 1.0]] };
                let (wf, wi) = (aff(&fwd, &t), aff(&inv, &e));
                let atol = tol * es;
                // an affine matrix with lengths measured in the size of the scene
                let fa = |m: &M4| -> Vec<f64> { let mut m = *m; for i in 0..3 { m[3][i] /= es; m[i][3] *= es; } fl(&m) };
                for (ev, m) in [("matrix4-look-to", if lh { Matrix4x4::look_to_lh(&ve, &vd, &vu) } else { Matrix4x4::look_to_rh(&ve, &vd, &vu) }), ("matrix4-look-at", if lh { Matrix4x4::look_at_lh(&ve, &vt, &vu) } else { Matrix4x4::look_at_rh(&ve, &vt, &vu) })] {
                    let g = ma(&m);
                    cx.near(ev, &fa(&g), &fa(&wf), tol, || format!("{} {}", hand, desc()));
                    cx.near("eye-to-origin", &mv(&g, &[e[0], e[1], e[2], 1.0]), &[0.0, 0.0, 0.0, 1.0], atol, || format!("{} {}", hand, desc()));
                }
                // recorded defect: the 4x4 inverse forms put R*eye instead of eye in the translation column
                let rec = aff(&inv, &mv(&fwd, &e));
                let close = |a: &M4, b: &M4| fa(a).iter().zip(fa(b)).all(|(p, q)| (p - q).abs() <= tol);
                for (ev, m) in [("matrix4-look-to-inv", if lh { Matrix4x4::look_to_lh_inv(&ve, &vd, &vu) } else { Matrix4x4::look_to_rh_inv(&ve, &vd, &vu) }), ("matrix4-look-at-inv", if lh { Matrix4x4::look_at_lh_inv(&ve, &vt, &vu) } else { Matrix4x4::look_at_rh_inv(&ve, &vt, &vu) })] {
                    let g = ma(&m);
                    cx.known("matrix4-look-inv-translation", ev, close(&g, &wi), close(&g, &rec), || format!("got {:?}, want {:?}; {} {}", g, wi, hand, desc()));
                    cx.near("matrix4-inv-linear-part", &fl(&lin(&g)), &fl(&inv), tol, || format!("{} {}", hand, desc()));
                }
                #[cfg(feature = "transform")]
                {
                    use cglinalg_transform::*;
                    macro_rules! aff { ($name:expr, $T:ty) => {{
                        for (ev, m, is_inv) in [
                            (concat!($name, "-look-to"), if lh { <$T>::look_to_lh(&ve, &vd, &vu) } else { <$T>::look_to_rh(&ve, &vd, &vu) }, false),
                            (concat!($name, "-look-at"), if lh { <$T>::look_at_lh(&ve, &vt, &vu) } else { <$T>::look_at_rh(&ve, &vt, &vu) }, false),
                            (concat!($name, "-look-to-inv"), if lh { <$T>::look_to_lh_inv(&ve, &vd, &vu) } else { <$T>::look_to_rh_inv(&ve, &vd, &vu) }, true),
                            (concat!($name, "-look-at-inv"), if lh { <$T>::look_at_lh_inv(&ve, &vt, &vu) } else { <$T>::look_at_rh_inv(&ve, &vt, &vu) }, true),
                        ] {
                            let want = |p: &[f64; 3]| if is_inv { add(&mv(&inv, p), &e) } else { mv(&fwd, &sub(p, &e)) };
                            let g = pa(&m.apply_point(&Point3::from(wide(w))));
                            cx.near(ev, &g, &want(&w), atol + tol * norm(&w), || format!("{} {}", hand, desc()));
                            let gv = va(&m.apply_vector(&Vector3::from(wide(w))));
                            cx.near(ev, &gv, &mv(if is_inv { &inv } else { &fwd }, &w), atol + tol * norm(&w), || format!("vector, {} {}", hand, desc()));
                            let (from, to) = if is_inv { ([0.0; 3], e) } else { (e, [0.0; 3]) };
                            cx.near("eye-to-origin", &pa(&m.apply_point(&Point3::from(wide(from)))), &to, atol, || format!("{} {} {}", ev, hand, desc()));
                        }
                    }}; }
                    aff!("isometry3", Isometry3<S>);
                    aff!("similarity3", Similarity3<S>);
                }
                let _ = dot::<3>;
            }
        });
    }
}
