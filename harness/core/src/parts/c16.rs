// C16, for the element type S of the including module.
fn nar(x: f64) -> f64 { x as S as f64 }
fn narrow<const N: usize>(a: &[f64; N]) -> [f64; N] { a.map(|x| x as S as f64) }
fn cast<const N: usize>(a: &[f64; N]) -> [S; N] { a.map(|x| x as S) }
fn lin(m: &Matrix4x4<S>) -> (M3, [f64; 7]) {
    (std::array::from_fn(|c| std::array::from_fn(|r| m[c][r].into())), [m[0][3], m[1][3], m[2][3], m[3][3], m[3][0], m[3][1], m[3][2]].map(f64::from))
}
fn lin2(m: &Matrix3x3<S>) -> (M2, [f64; 5]) { ([[m[0][0].into(), m[0][1].into()], [m[1][0].into(), m[1][1].into()]], [m[0][2], m[1][2], m[2][2], m[2][0], m[2][1]].map(f64::from)) }
fn qm(q: &Quaternion<S>) -> M3 { let q = qa(q); std::array::from_fn(|c| qrot(&q, &eye::<3>()[c])) }

/// `eps`: machine epsilon of S relative to double precision.
pub fn pass(cx: &mut Cx, n: usize, eps: f64, names: [&'static str; 3]) {
    for _ in 0..cx.n(3 * n) {
        let r = &mut cx.rng;
        let (a, t, b, s) = (unit(&narrow(&r.dir::<3>())), nar(special(r)), unit(&narrow(&r.dir::<3>())), nar(special(r)));
        let w: [f64; 3] = narrow(&r.vals());
        let k = r.mag(0.1, 10.0);
        let tiny = nar(r.mag(eps * 1e-12, 1e-2).abs());
        let desc = || format!("{} axis={:?} angle={:e} axis2={:?} angle2={:e} w={:?} k={:e}", std::any::type_name::<S>(), a, t, b, s, w, k);
        let mut key = bits(&a);
        key.extend([t.to_bits(), s.to_bits()]);
        cx.case(names[0], key, t != 0.0, desc, |cx| {
            let (ua, ub) = (Unit::from_value(Vector3::from(cast(&a))), Unit::from_value(Vector3::from(cast(&b))));
            let want = rot3(&a, t);
            let tol = eps * 1e-14 * (4.0 + t.abs());
            let (rt, dt) = (Radians(t as S), Degrees((t * 180.0 / PI) as S));
            let q = Quaternion::from_axis_angle(&ua, rt);
            let m = Matrix3x3::from_axis_angle(&ua, rt);
            let mut qmm = Matrix3x3::from_fill(7.0);
            q.to_matrix_mut(&mut qmm);
            let mut qma = Matrix4x4::from_fill(7.0);
            q.to_affine_matrix_mut(&mut qma);
            let scaled = q * (k as S);
            let (mut smm, mut sma) = (Matrix3x3::from_fill(-3.0), Matrix4x4::from_fill(-3.0));
            scaled.to_matrix_mut(&mut smm);
            scaled.to_affine_matrix_mut(&mut sma);
            let mut obs: Vec<(&'static str, M3)> = vec![
                ("matrix", ma(&m)), ("matrix", ma(&Matrix3x3::from_axis_angle(&ua, dt))),
                ("quaternion", qm(&q)), ("quaternion", qm(&Quaternion::from_axis_angle(&ua, dt))),
                ("quaternion-to-matrix", ma(&q.to_matrix())), ("quaternion-to-matrix", ma(&Matrix3x3::from(q))), ("quaternion-to-matrix", ma(&Matrix3x3::from(&q))), ("quaternion-to-matrix", ma(&qmm)),
                ("scaled-quaternion-to-matrix", ma(&scaled.to_matrix())), ("scaled-quaternion-to-matrix", ma(&Matrix3x3::from(-q))), ("scaled-quaternion-to-matrix", ma(&Matrix3x3::from(scaled))), ("scaled-quaternion-to-matrix", ma(&Matrix3x3::from(&scaled))), ("scaled-quaternion-to-matrix", ma(&smm)), ("scaled-quaternion-to-matrix", lin(&scaled.to_affine_matrix()).0),
                ("matrix-to-quaternion", qm(&Quaternion::from_matrix(&m))), ("matrix-to-quaternion", qm(&Quaternion::from(m))), ("matrix-to-quaternion", qm(&Quaternion::from(&m))),
                ("quaternion-matrix-quaternion", qm(&Quaternion::from(&q.to_matrix()))),
                ("quaternion-to-euler", { let e: Euler<Radians<S>> = q.into(); euler_ref(e.x.0.into(), e.y.0.into(), e.z.0.into()) }),
                ("quaternion-to-euler", { let e: Euler<Radians<S>> = (&q).into(); ma(&e.to_matrix()) }),
            ];
            let mut affs = vec![("affine-matrix", Matrix4x4::from_affine_axis_angle(&ua, rt)), ("affine-matrix", Matrix4x4::from_affine_axis_angle(&ua, dt)), ("quaternion-to-affine", q.to_affine_matrix()), ("quaternion-to-affine", Matrix4x4::from(q)), ("quaternion-to-affine", Matrix4x4::from(&q)), ("quaternion-to-affine", qma), ("scaled-quaternion-to-affine", sma), ("scaled-quaternion-to-affine", scaled.to_affine_matrix()), ("scaled-quaternion-to-affine", Matrix4x4::from(scaled)), ("scaled-quaternion-to-affine", Matrix4x4::from(&scaled))];
            for i in 0..3 {
                let e3 = rot3(&eye::<3>()[i], t);
                let (mi, ai) = match i {
                    0 => (Matrix3x3::from_angle_x(rt), Matrix4x4::from_affine_angle_x(dt)),
                    1 => (Matrix3x3::from_angle_y(rt), Matrix4x4::from_affine_angle_y(dt)),
                    _ => (Matrix3x3::from_angle_z(rt), Matrix4x4::from_affine_angle_z(dt)),
                };
                cx.near("axis-named", &fl(&ma(&mi)), &fl(&e3), tol, || format!("axis {} {}", i, desc()));
                let (l, p) = lin(&ai);
                cx.near("axis-named", &[fl(&l), p.to_vec()].concat(), &[fl(&e3), vec![0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0]].concat(), tol, || format!("affine axis {} {}", i, desc()));
            }
            cx.ok("unit-quaternion", (norm(&qa(&q)) - 1.0).abs() < eps * 1e-14, || format!("{:?} {}", q, desc()));
            cx.ok("unit-quaternion", (norm(&qa(&Quaternion::from_matrix(&m))) - 1.0).abs() < eps * 1e-13, || format!("from matrix {:?} {}", q, desc()));
            // composition
            let (q2, m2) = (Quaternion::from_axis_angle(&ub, Radians(s as S)), Matrix3x3::from_axis_angle(&ub, Radians(s as S)));
            let both = mm(&want, &rot3(&b, s));
            let tol2 = tol + eps * 1e-14 * (4.0 + s.abs());
            let mut comps = vec![("compose-quaternion", qm(&(q * q2))), ("compose-matrix", ma(&(m * m2))), ("compose-quaternion-matrix", ma(&(q * q2).to_matrix())), ("compose-matrix-quaternion", qm(&Quaternion::from(&(m * m2))))];
            comps.push(("compose-to-euler", { let e: Euler<Radians<S>> = (q * q2).into(); ma(&e.to_matrix()) }));
            let mut invs = vec![("inverse", qm(&q.conjugate())), ("inverse", qm(&q.inverse())), ("inverse", ma(&m.transpose()))];
            #[cfg(feature = "transform")]
            {
                use cglinalg_transform::*;
                let rr = Rotation3::from_axis_angle(&ua, rt);
                let act = |x: &Rotation3<S>| -> M3 { std::array::from_fn(|c| va(&x.apply_vector(&Vector3::from(cast(&eye::<3>()[c]))))) };
                let iact = |x: &Isometry3<S>| -> M3 { std::array::from_fn(|c| pa(&x.apply_point(&Point3::from(cast(&eye::<3>()[c]))))) };
                let sact = |x: &Similarity3<S>| -> M3 { std::array::from_fn(|c| pa(&x.apply_point(&Point3::from(cast(&eye::<3>()[c]))))) };
                obs.extend([
                    ("rotation3", act(&rr)), ("rotation3", act(&Rotation3::from_axis_angle(&ua, dt))), ("rotation3", ma(&rr.to_matrix())), ("rotation3", ma(rr.matrix())),
                    ("rotation3-from-quaternion", act(&Rotation3::from_quaternion(&q))), ("rotation3-from-quaternion", act(&Rotation3::from(q))), ("rotation3-from-quaternion", act(&Rotation3::from(&scaled))),
                    ("rotation3-to-quaternion", qm(&Quaternion::from(rr))), ("rotation3-to-quaternion", qm(&Quaternion::from(&rr))),
                    ("rotation3-to-euler", { let e = rr.euler_angles(); euler_ref(e.x.0.into(), e.y.0.into(), e.z.0.into()) }), ("rotation3-to-euler", act(&Rotation3::from_euler_angles(&rr.euler_angles()))),
                    ("isometry3", iact(&Isometry3::from_axis_angle(&ua, rt))), ("isometry3", iact(&Isometry3::from_axis_angle(&ua, dt))), ("isometry3", iact(&Isometry3::from_rotation(&rr))),
                    ("similarity3", sact(&Similarity3::from_axis_angle(&ua, rt))), ("similarity3", sact(&Similarity3::from_rotation(&rr))),
                ]);
                affs.extend([("rotation3-affine", rr.to_affine_matrix()), ("rotation3-affine", Matrix4x4::from(rr)), ("rotation3-affine", Matrix4x4::from(&rr)), ("rotation3-affine", Isometry3::from_axis_angle(&ua, rt).to_affine_matrix())]);
                let r2 = Rotation3::from_axis_angle(&ub, Radians(s as S));
                comps.extend([("compose-rotation3", act(&(rr * r2))), ("compose-rotation3", act(&(&rr * &r2))), ("compose-rotation3", act(&(rr * &r2))), ("compose-rotation3", act(&(&rr * r2)))]);
                let mut ri = rr;
                ri.inverse_mut();
                invs.extend([("inverse", act(&rr.inverse())), ("inverse", act(&ri)), ("inverse", std::array::from_fn(|c| va(&rr.inverse_apply_vector(&Vector3::from(cast(&eye::<3>()[c]))))))]);
                for i in 0..3 {
                    let e3 = rot3(&eye::<3>()[i], t);
                    let (x, y) = match i { 0 => (Rotation3::from_angle_x(rt), Isometry3::from_angle_x(dt)), 1 => (Rotation3::from_angle_y(rt), Isometry3::from_angle_y(dt)), _ => (Rotation3::from_angle_z(rt), Isometry3::from_angle_z(dt)) };
                    cx.near("axis-named", &fl(&act(&x)), &fl(&e3), tol, || format!("rotation3 axis {} {}", i, desc()));
                    cx.near("axis-named", &fl(&iact(&y)), &fl(&e3), tol, || format!("isometry3 axis {} {}", i, desc()));
                }
                // however small the turn, its axis and angle can be read back
                {
                    let small = tiny;
                    let x = Rotation3::from_axis_angle(&ua, Radians(small as S));
                    let g = x.axis().map(|u| va(u.as_ref()));
                    cx.ok("rotation3-axis-small", g.map(|g| norm(&sub(&g, &a)) <= eps * 1e-12 + eps * 1e-15 / small).unwrap_or(false), || format!("got {:?} want {:?} angle {:e}", g, a, small));
                    cx.ok("rotation3-angle-small", (f64::from(x.angle().0) - small).abs() <= eps * 1e-12 * small + eps * 1e-15, || format!("got {:?} want {:e}", x.angle(), small));
                    let g = x.axis_angle();
                    cx.ok("rotation3-axis-angle-small", g.map(|(u, t)| norm(&sub(&va(u.as_ref()), &a)) <= eps * 1e-12 + eps * 1e-15 / small && (f64::from(t.0) - small).abs() <= eps * 1e-12 * small + eps * 1e-15).unwrap_or(false), || format!("got {:?} want {:?} {:e}", g, a, small));
                }
                // just short of a half turn, the axis is still there
                {
                    let th = nar(std::f64::consts::PI - tiny);
                    let rest = (std::f64::consts::PI - th) + 1.2246467991473532e-16;
                    let x = Rotation3::from_axis_angle(&ua, Radians(th as S));
                    if rest > eps * 5e-13 {
                        let g = x.axis().map(|u| va(u.as_ref()));
                        cx.ok("rotation3-axis-near-half-turn", g.map(|g| norm(&sub(&g, &a)) <= eps * (1e-12 + 2e-15 / rest)).unwrap_or(false), || format!("got {:?} want {:?} angle {:e} short of pi", g, a, rest));
                        cx.ok("rotation3-axis-angle-near-half-turn", x.axis_angle().is_some(), || format!("no axis; {:?} angle {:e} short of pi", a, rest));
                    }
                    cx.ok("rotation3-angle-near-half-turn", (f64::from(x.angle().0) - th).abs() <= eps * 4e-15, || format!("got {:?} want {:e}", x.angle(), th));
                }
                // reading angle and axis back (the axis is documented to be absent for zero and half turns)
                for (x, wm) in [(rr, want), (rr * r2, both)] {
                    let sn = norm(&[wm[1][2] - wm[2][1], wm[2][0] - wm[0][2], wm[0][1] - wm[1][0]]) / 2.0;
                    let cs = (wm[0][0] + wm[1][1] + wm[2][2] - 1.0) / 2.0;
                    let th = sn.atan2(cs);
                    cx.near("rotation3-angle", &[f64::from(x.angle().0)], &[th], 2.0 * tol2, || desc());
                    if sn > 1e-6 * eps.sqrt() {
                        let want_ax = [(wm[1][2] - wm[2][1]) / (2.0 * sn), (wm[2][0] - wm[0][2]) / (2.0 * sn), (wm[0][1] - wm[1][0]) / (2.0 * sn)];
                        let g = x.axis().map(|u| va(u.as_ref()));
                        cx.ok("rotation3-axis", g.map(|g| norm(&sub(&g, &want_ax)) <= 4.0 * tol2 / sn).unwrap_or(false), || format!("got {:?} want {:?} {}", g, want_ax, desc()));
                        if let Some((ax, an)) = x.axis_angle() {
                            cx.near("axis-angle-round-trip", &fl(&ma(&Matrix3x3::from_axis_angle(&ax, an))), &fl(&wm), 8.0 * tol2 / sn, || desc());
                        } else { cx.ok("axis-angle-round-trip", false, || format!("no axis {}", desc())); }
                    } else if let Some((ax, an)) = x.axis_angle() {
                        cx.ok("axis-angle-finite", va(ax.as_ref()).iter().chain([&f64::from(an.0)]).all(|z| z.is_finite()), || format!("{:?} {:?} {}", ax, an, desc()));
                    }
                }
            }
            for (ev, g) in &obs {
                cx.near(ev, &fl(g), &fl(&want), tol, || desc());
                cx.near("orthogonal-det-one", &[fl(&mm(&tr(g), g)), vec![det(g)]].concat(), &[fl(&eye::<3>()), vec![1.0]].concat(), 4.0 * tol, || format!("{} {}", ev, desc()));
                cx.near("same-action", &mv(g, &w), &mv(&want, &w), tol * (1.0 + 2.0 * norm(&w)), || format!("{} {}", ev, desc()));
            }
            for (ev, g) in &affs {
                let (l, p) = lin(g);
                cx.near(ev, &[fl(&l), p.to_vec()].concat(), &[fl(&want), vec![0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0]].concat(), tol, || desc());
            }
            for (ev, g) in &comps { cx.near(ev, &fl(g), &fl(&both), 2.0 * tol2, || desc()); }
            for (ev, g) in &invs { cx.near(ev, &fl(g), &fl(&tr(&want)), tol, || desc()); }
        });
    }
    for _ in 0..cx.n(3 * n) {
        let r = &mut cx.rng;
        let (x, y, z) = (nar(special(r)), nar(special(r)), nar(special(r)));
        let desc = || format!("{} roll={:e} yaw={:e} pitch={:e}", std::any::type_name::<S>(), x, y, z);
        cx.case(names[1], bits(&[x, y, z]), x != 0.0 || y != 0.0 || z != 0.0, desc, |cx| {
            let want = euler_ref(x, y, z);
            let tol = eps * 2e-14 * (4.0 + x.abs() + y.abs() + z.abs());
            let er = Euler::new(Radians(x as S), Radians(y as S), Radians(z as S));
            let f = 180.0 / PI;
            let ed = Euler::new(Degrees((x * f) as S), Degrees((y * f) as S), Degrees((z * f) as S));
            let m = Matrix3x3::from_euler_angles(&er);
            let q = Quaternion::from_matrix(&m);
            let eq: Euler<Radians<S>> = q.into();
            let eq2: Euler<Radians<S>> = (&(q * -3.0)).into();
            let mut obs = vec![
                ("euler-matrix", ma(&er.to_matrix())), ("euler-matrix", ma(&ed.to_matrix())), ("euler-matrix", ma(&m)), ("euler-matrix", ma(&Matrix3x3::from_euler_angles(&ed))), ("euler-matrix", ma(&Matrix3x3::from(er))), ("euler-matrix", ma(&Matrix3x3::from(&ed))),
                ("euler-matrix-quaternion", qm(&q)), ("euler-quaternion-euler", ma(&eq.to_matrix())), ("euler-quaternion-euler", ma(&eq2.to_matrix())),
            ];
            let affs = [er.to_affine_matrix(), ed.to_affine_matrix(), Matrix4x4::from_euler_angles(&er), Matrix4x4::from_euler_angles(&ed), Matrix4x4::from(er), Matrix4x4::from(&ed)];
            #[cfg(feature = "transform")]
            {
                use cglinalg_transform::*;
                let rs = [Rotation3::from_euler_angles(&er), Rotation3::from_euler_angles(&ed), Rotation3::from(er), Rotation3::from(&er)];
                for r in rs { obs.push(("euler-rotation3", ma(r.matrix()))); obs.push(("euler-rotation3-euler", ma(&r.euler_angles().to_matrix()))); }
            }
            let _ = &mut obs;
            for (ev, g) in &obs { cx.near(ev, &fl(g), &fl(&want), 2.0 * tol, || desc()); }
            for g in &affs {
                let (l, p) = lin(g);
                cx.near("euler-affine", &[fl(&l), p.to_vec()].concat(), &[fl(&want), vec![0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0]].concat(), tol, || desc());
            }
            // away from gimbal lock the angles themselves come back (on the principal branch)
            if y.cos() > 0.01 {
                let near = |a: f64, b: f64| { let d = (a - b) / (2.0 * PI); (d - d.round()).abs() * 2.0 * PI <= 4.0 * tol / y.cos() };
                let mut back = vec![eq, eq2];
                #[cfg(feature = "transform")]
                back.push(cglinalg_transform::Rotation3::from_euler_angles(&er).euler_angles());
                back.iter().for_each(|e| cx.ok("euler-angles-back", near(e.x.0.into(), x) && near(e.y.0.into(), y) && near(e.z.0.into(), z), || format!("got {:?} {}", e, desc())));
            }
        });
    }
    for _ in 0..cx.n(2 * n) {
        let r = &mut cx.rng;
        let (t, s) = (nar(special(r)), nar(special(r)));
        let w: [f64; 2] = narrow(&r.vals());
        let desc = || format!("{} angle={:e} angle2={:e} w={:?}", std::any::type_name::<S>(), t, s, w);
        cx.case(names[2], bits(&[t, s]), t != 0.0, desc, |cx| {
            let want = rot2(t);
            let tol = eps * 1e-14 * (4.0 + t.abs() + s.abs());
            let (rt, dt) = (Radians(t as S), Degrees((t * 180.0 / PI) as S));
            let zact = |z: Complex<S>| -> M2 { let e = z * Complex::new(1.0, 0.0); let i = z * Complex::new(0.0, 1.0); [[e.re.into(), e.im.into()], [i.re.into(), i.im.into()]] };
            let z = Complex::from_angle(rt);
            let mut obs = vec![
                ("complex", zact(z)), ("complex", zact(Complex::from_angle(dt))), ("complex", zact(Complex::cis(t as S))), ("complex", zact(Complex::from_polar_decomposition(1.0, rt))),
                ("matrix2", ma(&Matrix2x2::from_angle(rt))), ("matrix2", ma(&Matrix2x2::from_angle(dt))),
                ("affine-matrix2", lin2(&Matrix3x3::from_affine_angle(rt)).0), ("affine-matrix2", lin2(&Matrix3x3::from_affine_angle(dt)).0),
            ];
            let both = rot2(t + s);
            let mut comps = vec![("compose-complex", zact(z * Complex::from_angle(Radians(s as S)))), ("compose-matrix2", ma(&(Matrix2x2::from_angle(rt) * Matrix2x2::from_angle(Radians(s as S)))))];
            let a = Matrix3x3::from_affine_angle(rt);
            cx.near("affine-matrix2", &lin2(&a).1, &[0.0, 0.0, 1.0, 0.0, 0.0], 0.0, || desc());
            #[cfg(feature = "transform")]
            {
                use cglinalg_transform::*;
                let r2 = Rotation2::from_angle(rt);
                let act = |x: &Rotation2<S>| -> M2 { std::array::from_fn(|c| va(&x.apply_vector(&Vector2::from(cast(&eye::<2>()[c]))))) };
                let iact = |x: &Isometry2<S>| -> M2 { std::array::from_fn(|c| pa(&x.apply_point(&Point2::from(cast(&eye::<2>()[c]))))) };
                let sact = |x: &Similarity2<S>| -> M2 { std::array::from_fn(|c| pa(&x.apply_point(&Point2::from(cast(&eye::<2>()[c]))))) };
                obs.extend([("rotation2", act(&r2)), ("rotation2", act(&Rotation2::from_angle(dt))), ("rotation2", ma(&r2.to_matrix())), ("rotation2", lin2(&r2.to_affine_matrix()).0),
                    ("isometry2", iact(&Isometry2::from_angle(rt))), ("isometry2", iact(&Isometry2::from_angle(dt))), ("similarity2", sact(&Similarity2::from_angle(rt)))]);
                comps.push(("compose-rotation2", act(&(r2 * Rotation2::from_angle(Radians(s as S))))));
                let d = (f64::from(r2.angle().0) - t) / (2.0 * PI);
                cx.ok("rotation2-angle", (d - d.round()).abs() * 2.0 * PI <= 2.0 * tol && f64::from(r2.angle().0).abs() <= PI * (1.0 + 1e-15 * eps), || format!("got {:?} {}", r2.angle(), desc()));
                cx.near("inverse", &fl(&act(&r2.inverse())), &fl(&tr(&want)), tol, || desc());
            }
            for (ev, g) in &obs {
                cx.near(ev, &fl(g), &fl(&want), tol, || desc());
                cx.near("same-action", &mv(g, &w), &mv(&want, &w), tol * (1.0 + 2.0 * norm(&w)), || format!("{} {}", ev, desc()));
                cx.near("orthogonal-det-one", &[fl(&mm(&tr(g), g)), vec![det(g)]].concat(), &[fl(&eye::<2>()), vec![1.0]].concat(), 4.0 * tol, || format!("{} {}", ev, desc()));
            }
            for (ev, g) in &comps { cx.near(ev, &fl(g), &fl(&both), 2.0 * tol, || desc()); }
            let d = (f64::from(z.arg()) - t) / (2.0 * PI);
            cx.ok("complex-angle", (d - d.round()).abs() * 2.0 * PI <= 2.0 * tol, || desc());
        });
    }
}

/// The 24 rotations of the cube, given as exact signed permutations, and the 24 exact unit quaternions with entries 0, 1/2 and 1: exact gimbal lock, half and third turns, ties between the diagonal entries.
pub fn cube(cx: &mut Cx, eps: f64, name: &'static str) {
    let tol = eps * 1e-14;
    let perms = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    for k in 0..48 {
        let (p, sg) = (perms[k / 8], [k & 1, k >> 1 & 1, k >> 2 & 1]);
        let mut m: M3 = [[0.0; 3]; 3];
        for c in 0..3 { m[c][p[c]] = if sg[c] == 1 { -1.0 } else { 1.0 }; }
        if det(&m) < 0.0 { continue; }
        // the signs of the zeros do not matter
        for zeros in 0..4u32 {
            let mz: M3 = std::array::from_fn(|c| std::array::from_fn(|r| if m[c][r] == 0.0 && (zeros >> ((c + 2 * r) & 1)) & 1 == 1 { -0.0 } else { m[c][r] }));
            let desc = || format!("{} matrix={:?}", std::any::type_name::<S>(), mz);
            cx.case(name, bits(&fl(&mz)), k != 0, desc, |cx| {
                let x = Matrix3x3::<S>::from(mz.map(|c| c.map(|v| v as S)));
                let q = Quaternion::from_matrix(&x);
                cx.near("cube-matrix-to-quaternion", &fl(&qm(&q)), &fl(&m), tol, desc);
                cx.near("cube-matrix-to-quaternion", &fl(&ma(&q.to_matrix())), &fl(&m), tol, desc);
                let e: Euler<Radians<S>> = q.into();
                cx.near("cube-quaternion-to-euler", &fl(&ma(&e.to_matrix())), &fl(&m), 4.0 * tol, desc);
                #[cfg(feature = "transform")]
                {
                    use cglinalg_transform::*;
                    let r = Rotation3::from_quaternion(&q);
                    cx.near("cube-rotation3", &fl(&ma(r.matrix())), &fl(&m), tol, desc);
                    cx.near("cube-rotation3-to-euler", &fl(&ma(Rotation3::from_euler_angles(&r.euler_angles()).matrix())), &fl(&m), 4.0 * tol, desc);
                    let tr: f64 = m[0][0] + m[1][1] + m[2][2];
                    cx.near("cube-rotation3-angle", &[f64::from(r.angle().0)], &[((tr - 1.0) / 2.0).acos()], 4.0 * tol, desc);
                }
            });
        }
    }
    for k in 0..24usize {
        let q: [f64; 4] = if k < 16 { std::array::from_fn(|i| if k >> i & 1 == 1 { -0.5 } else { 0.5 }) } else { std::array::from_fn(|i| if i == (k - 16) / 2 { if k & 1 == 1 { -1.0 } else { 1.0 } } else { 0.0 }) };
        let want: M3 = std::array::from_fn(|c| qrot(&q, &eye::<3>()[c]));
        let desc = || format!("{} quaternion={:?}", std::any::type_name::<S>(), q);
        cx.case(name, bits(&q), q[0].abs() != 1.0, desc, |cx| {
            let x = Quaternion::<S>::new(q[0] as S, q[1] as S, q[2] as S, q[3] as S);
            cx.near("cube-quaternion-to-matrix", &fl(&ma(&x.to_matrix())), &fl(&want), tol, desc);
            cx.near("cube-quaternion-matrix-quaternion", &fl(&qm(&Quaternion::from_matrix(&x.to_matrix()))), &fl(&want), tol, desc);
            let e: Euler<Radians<S>> = x.into();
            cx.near("cube-quaternion-to-euler", &fl(&ma(&e.to_matrix())), &fl(&want), 4.0 * tol, desc);
            cx.near("cube-quaternion-to-euler", &fl(&euler_ref(e.x.0.into(), e.y.0.into(), e.z.0.into())), &fl(&want), 4.0 * tol, desc);
            #[cfg(feature = "transform")]
            {
                use cglinalg_transform::*;
                let r = Rotation3::from_quaternion(&x);
                cx.near("cube-rotation3", &fl(&ma(r.matrix())), &fl(&want), tol, desc);
                cx.near("cube-rotation3-to-euler", &fl(&ma(Rotation3::from_euler_angles(&r.euler_angles()).matrix())), &fl(&want), 4.0 * tol, desc);
                cx.near("cube-rotation3-to-quaternion", &fl(&qm(&Quaternion::from(&r))), &fl(&want), tol, desc);
                if let Some((a, t)) = r.axis_angle() { cx.near("cube-axis-angle", &fl(&ma(&Matrix3x3::from_axis_angle(&a, t))), &fl(&want), 4.0 * tol, desc); }
                if k < 16 { cx.ok("cube-axis-present", r.axis().is_some() && r.axis_angle().is_some(), desc); }
            }
        });
    }
}
