// C17, for the element type S of the including module.
fn narrow<const N: usize>(a: &[f64; N]) -> [f64; N] { a.map(|x| x as S as f64) }
fn cast<const N: usize>(a: &[f64; N]) -> [S; N] { a.map(|x| x as S) }
/// `k`: machine epsilon of S relative to double precision; `big`: largest length.
pub fn pass(cx: &mut Cx, n: usize, k: f64, big: f64, names: [&'static str; 2]) {
    let ang = |r: &mut Rng| -> f64 {
        match r.below(9) {
            0 => 0.0,
            1 => PI,
            2 => r.mag(1e-16, 1e-1).abs(),
            3 => PI - r.mag(1e-16, 1e-1).abs(),
            4 => PI / 2.0,
            5 => r.mag(1e-9, 1e-7).abs(),
            6 => PI - r.mag(1e-9, 1e-7).abs(),
            _ => r.range(0.0, PI),
        }
    };
    let len = |r: &mut Rng| -> f64 { match r.below(4) { 0 => 1.0, 1 => r.mag(1.0 / big, big).abs(), _ => r.mag(1e-3, 1e3).abs() } };
    for _ in 0..cx.n(5 * n) {
        let r = &mut cx.rng;
        let a = r.dir::<3>();
        let p = loop { let p = cross(&a, &r.dir::<3>()); if norm(&p) > 0.1 { break unit(&p); } };
        let t = ang(r);
        let p = cross(&p, &a);
        let b0: [f64; 3] = std::array::from_fn(|i| a[i] * t.cos() + p[i] * t.sin());
        let b = if t == PI { scale(&a, -1.0) } else if t == 0.0 { a } else { unit(&b0) };
        let b = if r.chance(1, 6) { r.dir::<3>() } else { b };
        let (a, b) = (unit(&narrow(&a)), unit(&narrow(&b)));
        let (la, lb) = (len(r), len(r));
        let desc = || format!("{} v1={:?}*{:e} v2={:?}*{:e}", std::any::type_name::<S>(), a, la, b, lb);
        let mut key = bits(&a);
        key.extend(bits(&b));
        cx.case(names[0], key, a != b, desc, |cx| {
            let (ua, ub) = (Unit::from_value(Vector3::from(cast(&a))), Unit::from_value(Vector3::from(cast(&b))));
            let (va_, vb) = (Vector3::from(cast(&scale(&a, la))), Vector3::from(cast(&scale(&b, lb))));
            let (s, co) = (norm(&cross(&a, &b)), dot(&a, &b));
            let th = s.atan2(co);
            let qm = |q: Quaternion<S>| -> M3 { let q = qa(&q); std::array::from_fn(|c| qrot(&q, &eye::<3>()[c])) };
            let mut obs: Vec<(&'static str, Option<M3>)> = vec![
                ("matrix3", Matrix3x3::rotation_between(&va_, &vb).map(|m| ma(&m))), ("matrix3-axis", Matrix3x3::rotation_between_axis(&ua, &ub).map(|m| ma(&m))),
                ("quaternion", Quaternion::rotation_between(&va_, &vb).map(qm)), ("quaternion-axis", Quaternion::rotation_between_axis(&ua, &ub).map(qm)),
            ];
            for q in [Quaternion::rotation_between(&va_, &vb), Quaternion::rotation_between_axis(&ua, &ub)].into_iter().flatten() {
                cx.ok("unit-quaternion", (norm(&qa(&q)) - 1.0).abs() < 1e-13 * k, || format!("{:?} {}", q, desc()));
            }
            #[cfg(feature = "transform")]
            {
                use cglinalg_transform::*;
                let act = |x: Rotation3<S>| -> M3 { std::array::from_fn(|c| va(&x.apply_vector(&Vector3::from(cast(&eye::<3>()[c]))))) };
                let iact = |x: Isometry3<S>| -> M3 { std::array::from_fn(|c| pa(&x.apply_point(&Point3::from(cast(&eye::<3>()[c]))))) };
                obs.extend([("rotation3", Rotation3::rotation_between(&va_, &vb).map(act)), ("rotation3-axis", Rotation3::rotation_between_axis(&ua, &ub).map(act)),
                    ("isometry3", Isometry3::rotation_between(&va_, &vb).map(iact)), ("isometry3-axis", Isometry3::rotation_between_axis(&ua, &ub).map(iact))]);
            }
            // conditioning: near opposite directions the axis is the cross product of almost parallel vectors
            let amp = if co < 0.0 { 1.0 / s.max(1e-300) } else { 1.0 };
            let tol = (1e-14 * k * (1.0 + amp)).min(2.5);
            // vectors no longer than the default epsilon count as zero for the checked isometry
            let tiny = la.min(lb) <= 1e-15 * k;
            for (ev, g) in &obs {
                if tiny && *ev == "isometry3" && g.is_none() { continue; }
                match g {
                    None => cx.ok("refused-only-when-opposite", co < 0.0 && s <= 4e-15 * k, || format!("{} refused, angle {:e} = half turn - {:e}; {}", ev, th, PI - th, desc())),
                    Some(m) => {
                        cx.near("proper-rotation", &[fl(&mm(&tr(m), m)), vec![det(m)]].concat(), &[fl(&eye::<3>()), vec![1.0]].concat(), 1e-13 * k, || format!("{} {}", ev, desc()));
                        cx.near(ev, &mv(m, &a), &b, tol, || format!("image of the first direction; {}", desc()));
                        let (gs, gc) = (norm(&[m[1][2] - m[2][1], m[2][0] - m[0][2], m[0][1] - m[1][0]]) / 2.0, (m[0][0] + m[1][1] + m[2][2] - 1.0) / 2.0);
                        cx.near("shorter-arc", &[gs.atan2(gc)], &[th], 1e-13 * k, || format!("{} {}", ev, desc()));
                    }
                }
                if s <= 1e-17 && co > 0.0 { cx.ok("same-direction-identity", g.map(|m| fl(&m).iter().zip(fl(&eye::<3>())).all(|(x, y)| (x - y).abs() < 1e-14 * k)).unwrap_or(false), || format!("{} {:?} {}", ev, g, desc())); }
            }
        });
    }
    for _ in 0..cx.n(4 * n) {
        let r = &mut cx.rng;
        let a = r.dir::<2>();
        let t = ang(r) * r.sign();
        let b = if t.abs() == PI { scale(&a, -1.0) } else if t == 0.0 { a } else { unit(&[a[0] * t.cos() - a[1] * t.sin(), a[0] * t.sin() + a[1] * t.cos()]) };
        let b = if r.chance(1, 6) { r.dir::<2>() } else { b };
        let (a, b) = (unit(&narrow(&a)), unit(&narrow(&b)));
        let (la, lb) = (len(r), len(r));
        let desc = || format!("{} v1={:?}*{:e} v2={:?}*{:e}", std::any::type_name::<S>(), a, la, b, lb);
        let mut key = bits(&a);
        key.extend(bits(&b));
        cx.case(names[1], key, a != b, desc, |cx| {
            let (ua, ub) = (Unit::from_value(Vector2::from(cast(&a))), Unit::from_value(Vector2::from(cast(&b))));
            let (va_, vb) = (Vector2::from(cast(&scale(&a, la))), Vector2::from(cast(&scale(&b, lb))));
            let th = (a[0] * b[1] - a[1] * b[0]).atan2(dot(&a, &b));
            let mut obs: Vec<(&'static str, M2)> = vec![("matrix2", ma(&Matrix2x2::rotation_between(&va_, &vb))), ("matrix2-axis", ma(&Matrix2x2::rotation_between_axis(&ua, &ub)))];
            #[cfg(feature = "transform")]
            {
                use cglinalg_transform::*;
                let act = |x: Rotation2<S>| -> M2 { std::array::from_fn(|c| va(&x.apply_vector(&Vector2::from(cast(&eye::<2>()[c]))))) };
                let iact = |x: Isometry2<S>| -> M2 { std::array::from_fn(|c| pa(&x.apply_point(&Point2::from(cast(&eye::<2>()[c]))))) };
                obs.extend([("rotation2", act(Rotation2::rotation_between(&va_, &vb))), ("rotation2-axis", act(Rotation2::rotation_between_axis(&ua, &ub))),
                    ("isometry2", iact(Isometry2::rotation_between(&va_, &vb))), ("isometry2-axis", iact(Isometry2::rotation_between_axis(&ua, &ub)))]);
            }
            let _ = &mut obs;
            for (ev, m) in &obs {
                cx.near("proper-rotation", &[fl(&mm(&tr(m), m)), vec![det(m)]].concat(), &[fl(&eye::<2>()), vec![1.0]].concat(), 1e-13 * k, || format!("{} {}", ev, desc()));
                cx.near(ev, &mv(m, &a), &b, 1e-14 * k, || format!("image of the first direction; {}", desc()));
                let g = m[0][1].atan2(m[0][0]);
                cx.ok("shorter-arc", (g.abs() - th.abs()).abs() <= 1e-13 * k && ((g - th).abs() <= 1e-13 * k || PI - th.abs() <= 1e-13 * k), || format!("{} angle {:e} want {:e}; {}", ev, g, th, desc()));
            }
            let _ = sub::<2>;
        });
    }
}
