//! Transformations with independent reference matrices, for C25 and C26.
pub use cglinalg_transform::*;
use crate::*;
use refm::{affine, dot, norm, scale, sub};

pub type M3 = [[f64; 3]; 3];
pub type M4 = [[f64; 4]; 4];

/// Perpendicular unit vectors (direction, normal).
pub fn perp<const N: usize>(r: &mut Rng) -> ([f64; N], [f64; N]) {
    loop {
        let d = r.dir::<N>();
        let e = r.dir::<N>();
        let n = sub(&e, &scale(&d, dot(&d, &e)));
        if norm(&n) > 0.05 {
            let n = scale(&n, 1.0 / norm(&n));
            let n = sub(&n, &scale(&d, dot(&d, &n)));   // once more, for what the first time left
            return (d, scale(&n, 1.0 / norm(&n)));
        }
    }
}
pub fn shear_ref<const N: usize, const M: usize>(k: f64, o: &[f64; N], d: &[f64; N], n: &[f64; N]) -> [[f64; M]; M] {
    let l: [[f64; N]; N] = std::array::from_fn(|c| std::array::from_fn(|q| if c == q { 1.0 } else { 0.0 } + k * d[q] * n[c]));
    affine(&l, &scale(d, -k * dot(o, n)))
}
pub fn reflect_ref<const N: usize, const M: usize>(n: &[f64; N], q: &[f64; N]) -> [[f64; M]; M] {
    let l: [[f64; N]; N] = std::array::from_fn(|c| std::array::from_fn(|i| if c == i { 1.0 } else { 0.0 } - 2.0 * n[i] * n[c]));
    affine(&l, &scale(n, 2.0 * dot(q, n)))
}
pub fn uni<const N: usize>(d: &[f64; N]) -> Unit<Vector<f64, N>> { Unit::from_value_unchecked(Vector::<f64, N>::from(*d)) }
pub fn pt<const N: usize>(d: &[f64; N]) -> Point<f64, N> { Point::<f64, N>::from(*d) }
pub fn vc<const N: usize>(d: &[f64; N]) -> Vector<f64, N> { Vector::<f64, N>::from(*d) }
pub fn dia<const N: usize>(d: &[f64; N]) -> [[f64; N]; N] { std::array::from_fn(|c| std::array::from_fn(|r| if c == r { d[r] } else { 0.0 })) }
fn nzv<const N: usize>(r: &mut Rng) -> [f64; N] { r.arr(|r| match r.below(10) { 0 => r.mag(1e-9, 1e6), 9 => r.mag(1e-25, 1e25), k if k < 5 => r.sign() * r.int(1, 9) as f64, _ => r.mag(0.05, 20.0) }) }
/// Mostly within a few turns, now and then thousands of them.
fn turn(r: &mut Rng) -> f64 { if r.chance(1, 12) { r.range(-1e4, 1e4) } else { r.angle() } }
fn z<const N: usize>() -> [f64; N] { [0.0; N] }

/// A generated value, the constructor used, and its reference homogeneous matrix.
pub struct G<T, const M: usize> { pub t: T, pub how: &'static str, /// how much larger than the matrix the intermediate values may be
    pub big: f64, pub m: [[f64; M]; M] }

pub fn translation<const N: usize, const M: usize>(r: &mut Rng) -> G<Translation<f64, N>, M> {
    let (a, b) = (r.vals::<N>(), r.vals::<N>());
    let d: [f64; N] = sub(&b, &a);
    match r.below(8) {
        0 => G { t: Translation::between_vectors(&vc(&a), &vc(&b)), big: 1.0, how: "between_vectors", m: affine(&refm::eye(), &d) },
        1 => G { t: Translation::between_points(&pt(&a), &pt(&b)), big: 1.0, how: "between_points", m: affine(&refm::eye(), &d) },
        2 => G { t: Translation::identity(), big: 1.0, how: "identity", m: refm::eye() },
        _ => G { t: Translation::from_vector(&vc(&a)), big: 1.0, how: "from_vector", m: affine(&refm::eye(), &a) },
    }
}
pub fn scaling<const N: usize, const M: usize>(r: &mut Rng) -> G<Scale<f64, N>, M> {
    let a = nzv::<N>(r);
    match r.below(6) {
        0 => G { t: Scale::from_scale(a[0]), big: 1.0, how: "from_scale", m: affine(&dia(&[a[0]; N]), &z()) },
        1 => G { t: Scale::identity(), big: 1.0, how: "identity", m: refm::eye() },
        _ => G { t: Scale::from_nonuniform_scale(&vc(&a)), big: 1.0, how: "from_nonuniform_scale", m: affine(&dia(&a), &z()) },
    }
}
pub fn reflection<const N: usize, const M: usize>(r: &mut Rng) -> G<Reflection<f64, N>, M> {
    let n = r.dir::<N>();
    let q = if r.chance(1, 4) { z() } else { r.vals::<N>() };
    G { t: Reflection::from_normal_bias(&uni(&n), &pt(&q)), big: 1.0 + 2.0 * maxabs(&q), how: "from_normal_bias", m: reflect_ref(&n, &q) }
}
/// Two directions well apart from equal and opposite, with the rotation from the first to the second.
fn between3(r: &mut Rng) -> ([f64; 3], [f64; 3], M3) {
    loop {
        let (a, b) = (r.dir::<3>(), r.dir::<3>());
        let c = refm::cross(&a, &b);
        if norm(&c) > 0.2 { return (a, b, refm::rot3(&refm::unit(&c), norm(&c).atan2(dot(&a, &b)))); }
    }
}
/// A viewing direction, an up vector, the handedness, and the rotation into the frame (rows: right, up, forward).
fn frame(r: &mut Rng) -> ([f64; 3], [f64; 3], bool, M3) {
    loop {
        let (d, u, lh) = (r.dir::<3>(), r.dir::<3>(), r.bool());
        if norm(&refm::cross(&u, &d)) < 0.2 { continue; }
        let zz = scale(&d, if lh { 1.0 } else { -1.0 });
        let x = refm::unit(&refm::cross(&u, &zz));
        let (dl, ul) = (r.range(0.5, 5.0), r.range(0.5, 5.0));
        return (scale(&d, dl), scale(&u, ul), lh, refm::tr(&[x, refm::cross(&zz, &x), zz]));
    }
}
fn euler3(r: &mut Rng) -> ([f64; 3], M3) {
    let a: [f64; 3] = r.arr(|r| r.angle());
    let e: M3 = refm::eye();
    (a, refm::mm(&refm::mm(&refm::rot3(&e[0], a[0]), &refm::rot3(&e[1], a[1])), &refm::rot3(&e[2], a[2])))
}
pub fn rotation2(r: &mut Rng) -> G<Rotation2<f64>, 3> {
    let a = turn(r);
    match r.below(9) {
        8 => {
            let (x, k, l) = (r.angle(), r.range(0.5, 5.0), r.range(0.5, 5.0));
            let (u, v) = ([x.cos(), x.sin()], [(x + a).cos(), (x + a).sin()]);
            let t = if r.bool() { Rotation2::rotation_between(&vc(&scale(&u, k)), &vc(&scale(&v, l))) } else { Rotation2::rotation_between_axis(&uni(&u), &uni(&v)) };
            G { t, big: 2.0 + 0.05 * a.abs(), how: "rotation_between", m: affine(&refm::rot2(a), &z()) }
        }
        0 => G { t: Rotation2::identity(), big: 1.0, how: "identity", m: refm::eye() },
        1 => G { t: Rotation2::from_angle(Degrees(a.to_degrees())), big: 1.0 + 0.05 * a.abs(), how: "from_angle (degrees)", m: affine(&refm::rot2(a), &z()) },
        _ => G { t: Rotation2::from_angle(Radians(a)), big: 1.0 + 0.05 * a.abs(), how: "from_angle", m: affine(&refm::rot2(a), &z()) },
    }
}
pub fn rotation3(r: &mut Rng) -> G<Rotation3<f64>, 4> {
    let a = turn(r);
    let e: [[f64; 3]; 3] = refm::eye();
    let x = r.dir::<3>();
    match r.below(13) {
        10 => { let (a, m) = euler3(r); G { t: Rotation3::from_euler_angles(&Euler::new(Radians(a[0]), Radians(a[1]), Radians(a[2]))), big: 2.0, how: "from_euler_angles", m: affine(&m, &z()) } }
        11 => {
            let ((a, b, m), k, l) = (between3(r), r.range(0.5, 5.0), r.range(0.5, 5.0));
            let t = if r.bool() { Rotation3::rotation_between(&vc(&scale(&a, k)), &vc(&scale(&b, l))) } else { Rotation3::rotation_between_axis(&uni(&a), &uni(&b)) };
            G { t: t.expect("the directions are not opposite"), big: 50.0, how: "rotation_between", m: affine(&m, &z()) }
        }
        12 => {
            let (d, u, lh, m) = frame(r);
            let (e, inv) = (r.vals::<3>(), r.bool());
            let (d, u, at, e) = (vc(&d), vc(&u), pt(&refm::add(&e, &d)), pt(&e));
            let at_big = 50.0 + 50.0 * maxabs(&pa(&e));
            let (t, big) = match (r.bool(), lh, inv) {
                (true, true, false) => (Rotation3::look_to_lh(&d, &u), 50.0), (true, false, false) => (Rotation3::look_to_rh(&d, &u), 50.0),
                (true, true, true) => (Rotation3::look_to_lh_inv(&d, &u), 50.0), (true, false, true) => (Rotation3::look_to_rh_inv(&d, &u), 50.0),
                (false, true, false) => (Rotation3::look_at_lh(&e, &at, &u), at_big), (false, false, false) => (Rotation3::look_at_rh(&e, &at, &u), at_big),
                (false, true, true) => (Rotation3::look_at_lh_inv(&e, &at, &u), at_big), (false, false, true) => (Rotation3::look_at_rh_inv(&e, &at, &u), at_big),
            };
            G { t, big, how: "look_to / look_at", m: affine(&if inv { refm::tr(&m) } else { m }, &z()) }
        }
        0 => G { t: Rotation3::identity(), big: 1.0, how: "identity", m: refm::eye() },
        1 => G { t: Rotation3::from_angle_x(Radians(a)), big: 1.0 + 0.05 * a.abs(), how: "from_angle_x", m: affine(&refm::rot3(&e[0], a), &z()) },
        2 => G { t: Rotation3::from_angle_y(Radians(a)), big: 1.0 + 0.05 * a.abs(), how: "from_angle_y", m: affine(&refm::rot3(&e[1], a), &z()) },
        3 => G { t: Rotation3::from_angle_z(Radians(a)), big: 1.0 + 0.05 * a.abs(), how: "from_angle_z", m: affine(&refm::rot3(&e[2], a), &z()) },
        4 => {
            let (s, c) = (a / 2.0).sin_cos();
            G { t: Rotation3::from_quaternion(&Quaternion::new(c, s * x[0], s * x[1], s * x[2])), big: 1.0 + 0.05 * a.abs(), how: "from_quaternion", m: affine(&refm::rot3(&x, a), &z()) }
        }
        _ => G { t: Rotation3::from_axis_angle(&uni(&x), Radians(a)), big: 1.0 + 0.05 * a.abs(), how: "from_axis_angle", m: affine(&refm::rot3(&x, a), &z()) },
    }
}
pub fn rotref<const N: usize, const M: usize>(m: &[[f64; M]; M], t: &[f64; N]) -> [[f64; M]; M] {
    let l: [[f64; N]; N] = std::array::from_fn(|c| std::array::from_fn(|i| m[c][i]));
    affine(&l, t)
}
fn lin<const N: usize, const M: usize>(m: &[[f64; M]; M], s: f64, t: &[f64; N]) -> [[f64; M]; M] {
    let l: [[f64; N]; N] = std::array::from_fn(|c| std::array::from_fn(|i| m[c][i] * s));
    affine(&l, t)
}
pub fn isometry2(r: &mut Rng) -> G<Isometry2<f64>, 3> {
    let (g, t, a) = (rotation2(r), r.vals::<2>(), turn(r));
    match r.below(9) {
        8 => {
            let x = r.angle();
            let (u, v) = ([x.cos(), x.sin()], [(x + a).cos(), (x + a).sin()]);
            let t = if r.bool() { Isometry2::rotation_between(&vc(&scale(&u, 2.5)), &vc(&scale(&v, 0.7))) } else { Isometry2::rotation_between_axis(&uni(&u), &uni(&v)) };
            G { t, big: 2.0 + 0.05 * a.abs(), how: "rotation_between", m: affine(&refm::rot2(a), &z()) }
        }
        0 => G { t: Isometry2::from_translation(&Translation::from_vector(&vc(&t))), big: 1.0, how: "from_translation", m: affine(&refm::eye(), &t) },
        1 => G { t: Isometry2::from_rotation(&g.t), big: g.big, how: "from_rotation", m: g.m },
        2 => G { t: Isometry2::from_angle_translation(Radians(a), &vc(&t)), big: 1.0 + 0.05 * a.abs(), how: "from_angle_translation", m: affine(&refm::rot2(a), &t) },
        3 => G { t: Isometry2::from_angle(Radians(a)), big: 1.0 + 0.05 * a.abs(), how: "from_angle", m: affine(&refm::rot2(a), &z()) },
        4 => G { t: Isometry2::identity(), big: 1.0, how: "identity", m: refm::eye() },
        _ => G { t: Isometry2::from_parts(&Translation::from_vector(&vc(&t)), &g.t), big: g.big, how: "from_parts", m: rotref(&g.m, &t) },
    }
}
pub fn isometry3(r: &mut Rng) -> G<Isometry3<f64>, 4> {
    let (g, t, a, x) = (rotation3(r), r.vals::<3>(), turn(r), r.dir::<3>());
    let e: [[f64; 3]; 3] = refm::eye();
    match r.below(14) {
        12 => {
            let ((a, b, m), k, l) = (between3(r), r.range(0.5, 5.0), r.range(0.5, 5.0));
            let t = if r.bool() { Isometry3::rotation_between(&vc(&scale(&a, k)), &vc(&scale(&b, l))) } else { Isometry3::rotation_between_axis(&uni(&a), &uni(&b)) };
            G { t: t.expect("the directions are not opposite"), big: 50.0, how: "rotation_between", m: affine(&m, &z()) }
        }
        13 => {
            let (d, u, lh, m) = frame(r);
            let inv = r.bool();
            let back = refm::tr(&m);
            let (vd, vu, e, at) = (vc(&d), vc(&u), pt(&t), pt(&refm::add(&t, &d)));
            let x = match (r.bool(), lh, inv) {
                (true, true, false) => Isometry3::look_to_lh(&e, &vd, &vu), (true, false, false) => Isometry3::look_to_rh(&e, &vd, &vu),
                (true, true, true) => Isometry3::look_to_lh_inv(&e, &vd, &vu), (true, false, true) => Isometry3::look_to_rh_inv(&e, &vd, &vu),
                (false, true, false) => Isometry3::look_at_lh(&e, &at, &vu), (false, false, false) => Isometry3::look_at_rh(&e, &at, &vu),
                (false, true, true) => Isometry3::look_at_lh_inv(&e, &at, &vu), (false, false, true) => Isometry3::look_at_rh_inv(&e, &at, &vu),
            };
            G { t: x, big: 50.0 + 50.0 * maxabs(&t), how: "look_to / look_at", m: if inv { affine(&back, &t) } else { affine(&m, &scale(&refm::mv(&m, &t), -1.0)) } }
        }
        0 => G { t: Isometry3::from_translation(&Translation::from_vector(&vc(&t))), big: 1.0, how: "from_translation", m: affine(&refm::eye(), &t) },
        1 => G { t: Isometry3::from_rotation(&g.t), big: g.big, how: "from_rotation", m: g.m },
        2 => G { t: Isometry3::from_axis_angle_translation(&uni(&x), Radians(a), &vc(&t)), big: 1.0 + 0.05 * a.abs(), how: "from_axis_angle_translation", m: affine(&refm::rot3(&x, a), &t) },
        3 => G { t: Isometry3::from_axis_angle(&uni(&x), Radians(a)), big: 1.0 + 0.05 * a.abs(), how: "from_axis_angle", m: affine(&refm::rot3(&x, a), &z()) },
        4 => G { t: Isometry3::from_angle_x(Radians(a)), big: 1.0 + 0.05 * a.abs(), how: "from_angle_x", m: affine(&refm::rot3(&e[0], a), &z()) },
        5 => G { t: Isometry3::from_angle_y(Radians(a)), big: 1.0 + 0.05 * a.abs(), how: "from_angle_y", m: affine(&refm::rot3(&e[1], a), &z()) },
        6 => G { t: Isometry3::from_angle_z(Radians(a)), big: 1.0 + 0.05 * a.abs(), how: "from_angle_z", m: affine(&refm::rot3(&e[2], a), &z()) },
        7 => G { t: Isometry3::identity(), big: 1.0, how: "identity", m: refm::eye() },
        _ => G { t: Isometry3::from_parts(&Translation::from_vector(&vc(&t)), &g.t), big: g.big, how: "from_parts", m: rotref(&g.m, &t) },
    }
}
pub fn similarity2(r: &mut Rng) -> G<Similarity2<f64>, 3> {
    let (g, t, a, s, i) = (rotation2(r), r.vals::<2>(), turn(r), nzv::<1>(r)[0], isometry2(r));
    match r.below(10) {
        0 => G { t: Similarity2::from_translation(&Translation::from_vector(&vc(&t))), big: 1.0, how: "from_translation", m: affine(&refm::eye(), &t) },
        1 => G { t: Similarity2::from_rotation(&g.t), big: g.big, how: "from_rotation", m: g.m },
        2 => G { t: Similarity2::from_scale(s), big: 1.0, how: "from_scale", m: affine(&dia(&[s; 2]), &z()) },
        3 => G { t: Similarity2::from_isometry(&i.t), big: i.big, how: "from_isometry", m: i.m },
        4 => G { t: Similarity2::from_angle(Radians(a)), big: 1.0 + 0.05 * a.abs(), how: "from_angle", m: affine(&refm::rot2(a), &z()) },
        5 => G { t: Similarity2::identity(), big: 1.0, how: "identity", m: refm::eye() },
        _ => G { t: Similarity2::from_parts(&Translation::from_vector(&vc(&t)), &g.t, s), big: g.big, how: "from_parts", m: lin(&g.m, s, &t) },
    }
}
pub fn similarity3(r: &mut Rng) -> G<Similarity3<f64>, 4> {
    let (g, t, a, s, i, x) = (rotation3(r), r.vals::<3>(), turn(r), nzv::<1>(r)[0], isometry3(r), r.dir::<3>());
    match r.below(11) {
        10 => {
            let (d, u, lh, m) = frame(r);
            let inv = r.bool();
            let back = refm::tr(&m);
            let (vd, vu, e, at) = (vc(&d), vc(&u), pt(&t), pt(&refm::add(&t, &d)));
            let x = match (r.bool(), lh, inv) {
                (true, true, false) => Similarity3::look_to_lh(&e, &vd, &vu), (true, false, false) => Similarity3::look_to_rh(&e, &vd, &vu),
                (true, true, true) => Similarity3::look_to_lh_inv(&e, &vd, &vu), (true, false, true) => Similarity3::look_to_rh_inv(&e, &vd, &vu),
                (false, true, false) => Similarity3::look_at_lh(&e, &at, &vu), (false, false, false) => Similarity3::look_at_rh(&e, &at, &vu),
                (false, true, true) => Similarity3::look_at_lh_inv(&e, &at, &vu), (false, false, true) => Similarity3::look_at_rh_inv(&e, &at, &vu),
            };
            G { t: x, big: 50.0 + 50.0 * maxabs(&t), how: "look_to / look_at", m: if inv { affine(&back, &t) } else { affine(&m, &scale(&refm::mv(&m, &t), -1.0)) } }
        }
        0 => G { t: Similarity3::from_translation(&Translation::from_vector(&vc(&t))), big: 1.0, how: "from_translation", m: affine(&refm::eye(), &t) },
        1 => G { t: Similarity3::from_rotation(&g.t), big: g.big, how: "from_rotation", m: g.m },
        2 => G { t: Similarity3::from_scale(s), big: 1.0, how: "from_scale", m: affine(&dia(&[s; 3]), &z()) },
        3 => G { t: Similarity3::from_isometry(&i.t), big: i.big, how: "from_isometry", m: i.m },
        4 => G { t: Similarity3::from_axis_angle(&uni(&x), Radians(a)), big: 1.0 + 0.05 * a.abs(), how: "from_axis_angle", m: affine(&refm::rot3(&x, a), &z()) },
        5 => G { t: Similarity3::identity(), big: 1.0, how: "identity", m: refm::eye() },
        _ => G { t: Similarity3::from_parts(&Translation::from_vector(&vc(&t)), &g.t, s), big: g.big, how: "from_parts", m: lin(&g.m, s, &t) },
    }
}
pub fn shear2(r: &mut Rng) -> (G<Shear2<f64>, 3>, [f64; 2]) {
    let (d, n) = perp::<2>(r);
    let (k, o) = (r.val(), r.vals::<2>());
    let e: [[f64; 2]; 2] = refm::eye();
    let g = match r.below(8) {
        0 => G { t: Shear2::from_shear_xy(k), big: 1.0, how: "from_shear_xy", m: shear_ref(k, &z(), &e[0], &e[1]) },
        1 => G { t: Shear2::from_shear_yx(k), big: 1.0, how: "from_shear_yx", m: shear_ref(k, &z(), &e[1], &e[0]) },
        2 => G { t: Shear2::identity(), big: 1.0, how: "identity", m: refm::eye() },
        3 => G { t: Shear2::from_shear(k, &uni(&d), &uni(&n)), big: 1.0, how: "from_shear", m: shear_ref(k, &z(), &d, &n) },
        _ => return (G { t: Shear2::from_affine_shear(k, &pt(&o), &uni(&d), &uni(&n)), big: 1.0 + k.abs() * maxabs(&o), how: "from_affine_shear", m: shear_ref(k, &o, &d, &n) }, o),
    };
    (g, z())
}
pub fn shear3(r: &mut Rng) -> (G<Shear3<f64>, 4>, [f64; 3]) {
    let (d, n) = perp::<3>(r);
    let (k, o) = (r.val(), r.vals::<3>());
    let e: [[f64; 3]; 3] = refm::eye();
    let g = match r.below(16) {
        0 => G { t: Shear3::from_shear_xy(k), big: 1.0, how: "from_shear_xy", m: shear_ref(k, &z(), &e[0], &e[1]) },
        1 => G { t: Shear3::from_shear_xz(k), big: 1.0, how: "from_shear_xz", m: shear_ref(k, &z(), &e[0], &e[2]) },
        2 => G { t: Shear3::from_shear_yx(k), big: 1.0, how: "from_shear_yx", m: shear_ref(k, &z(), &e[1], &e[0]) },
        3 => G { t: Shear3::from_shear_yz(k), big: 1.0, how: "from_shear_yz", m: shear_ref(k, &z(), &e[1], &e[2]) },
        4 => G { t: Shear3::from_shear_zx(k), big: 1.0, how: "from_shear_zx", m: shear_ref(k, &z(), &e[2], &e[0]) },
        5 => G { t: Shear3::from_shear_zy(k), big: 1.0, how: "from_shear_zy", m: shear_ref(k, &z(), &e[2], &e[1]) },
        6 => G { t: Shear3::identity(), big: 1.0, how: "identity", m: refm::eye() },
        7 | 8 => G { t: Shear3::from_shear(k, &uni(&d), &uni(&n)), big: 1.0, how: "from_shear", m: shear_ref(k, &z(), &d, &n) },
        _ => return (G { t: Shear3::from_affine_shear(k, &pt(&o), &uni(&d), &uni(&n)), big: 1.0 + k.abs() * maxabs(&o), how: "from_affine_shear", m: shear_ref(k, &o, &d, &n) }, o),
    };
    (g, z())
}
/// An invertible affine or (one in three) projective matrix, well conditioned.
pub fn general<const N: usize, const M: usize>(r: &mut Rng) -> [[f64; M]; M] {
    loop {
        let mut m: [[f64; M]; M] = if r.bool() { std::array::from_fn(|_| r.ivals(6)) } else { std::array::from_fn(|_| r.arr(|r| r.range(-4.0, 4.0))) };
        if !r.chance(1, 3) { for c in 0..N { m[c][N] = 0.0; } m[N][N] = 1.0; }
        let d = refm::det(&m).abs();
        if d > 0.5 { if let Some(i) = refm::inv(&m) { if maxabs(&refm::flat(&i)) < 20.0 { return m; } } }
    }
}

/// The same families in single precision: values built from parameters rounded to f32, references from the rounded parameters.
pub mod single {
    use super::*;
    fn nar<const N: usize>(a: [f64; N]) -> [f64; N] { a.map(|x| x as f32 as f64) }
    fn f<const N: usize>(a: &[f64; N]) -> [f32; N] { a.map(|x| x as f32) }
    pub fn v32<const N: usize>(a: &[f64; N]) -> Vector<f32, N> { Vector::<f32, N>::from(f(a)) }
    pub fn p32<const N: usize>(a: &[f64; N]) -> Point<f32, N> { Point::<f32, N>::from(f(a)) }
    fn u32<const N: usize>(a: &[f64; N]) -> Unit<Vector<f32, N>> { Unit::from_value_unchecked(v32(a)) }
    pub fn comps<const N: usize>(r: &mut Rng) -> [f64; N] { nar(if r.chance(1, 3) { r.ivals(20) } else { r.arr(|r| r.mag(1e-3, 50.0)) }) }
    fn sc<const N: usize>(r: &mut Rng) -> [f64; N] { nar(r.arr(|r| match r.below(5) { 0 => r.mag(1e-6, 1e5), 1 => r.sign() * r.int(1, 9) as f64, _ => r.mag(0.05, 20.0) })) }
    pub fn translation<const N: usize, const M: usize>(r: &mut Rng) -> G<Translation<f32, N>, M> {
        let a = comps::<N>(r);
        G { t: Translation::from_vector(&v32(&a)), big: 1.0, how: "f32 translation", m: affine(&refm::eye(), &a) }
    }
    pub fn scaling<const N: usize, const M: usize>(r: &mut Rng) -> G<Scale<f32, N>, M> {
        let a = sc::<N>(r);
        G { t: Scale::from_nonuniform_scale(&v32(&a)), big: 1.0, how: "f32 scale", m: affine(&dia(&a), &z()) }
    }
    pub fn reflection<const N: usize, const M: usize>(r: &mut Rng) -> G<Reflection<f32, N>, M> {
        let (n, q) = (r.dir::<N>(), comps::<N>(r));
        G { t: Reflection::from_normal_bias(&u32(&n), &p32(&q)), big: 1.0 + 2.0 * maxabs(&q), how: "f32 reflection", m: reflect_ref(&n, &q) }
    }
    fn ang(r: &mut Rng) -> f64 { let a = r.range(-10.0, 10.0); a as f32 as f64 }
    pub fn rotation2(r: &mut Rng) -> G<Rotation2<f32>, 3> {
        let a = ang(r);
        G { t: Rotation2::from_angle(Radians(a as f32)), big: 1.0, how: "f32 rotation2", m: affine(&refm::rot2(a), &z()) }
    }
    pub fn rotation3(r: &mut Rng) -> G<Rotation3<f32>, 4> {
        let (a, x) = (ang(r), r.dir::<3>());
        G { t: Rotation3::from_axis_angle(&u32(&x), Radians(a as f32)), big: 1.0, how: "f32 rotation3", m: affine(&refm::rot3(&x, a), &z()) }
    }
    pub fn isometry2(r: &mut Rng) -> G<Isometry2<f32>, 3> {
        let (g, t) = (rotation2(r), comps::<2>(r));
        G { t: Isometry2::from_parts(&Translation::from_vector(&v32(&t)), &g.t), big: 1.0, how: "f32 isometry2", m: rotref(&g.m, &t) }
    }
    pub fn isometry3(r: &mut Rng) -> G<Isometry3<f32>, 4> {
        let (g, t) = (rotation3(r), comps::<3>(r));
        G { t: Isometry3::from_parts(&Translation::from_vector(&v32(&t)), &g.t), big: 1.0, how: "f32 isometry3", m: rotref(&g.m, &t) }
    }
    pub fn similarity2(r: &mut Rng) -> G<Similarity2<f32>, 3> {
        let (g, t, s) = (rotation2(r), comps::<2>(r), sc::<1>(r)[0]);
        G { t: Similarity2::from_parts(&Translation::from_vector(&v32(&t)), &g.t, s as f32), big: 1.0, how: "f32 similarity2", m: lin(&g.m, s, &t) }
    }
    pub fn similarity3(r: &mut Rng) -> G<Similarity3<f32>, 4> {
        let (g, t, s) = (rotation3(r), comps::<3>(r), sc::<1>(r)[0]);
        G { t: Similarity3::from_parts(&Translation::from_vector(&v32(&t)), &g.t, s as f32), big: 1.0, how: "f32 similarity3", m: lin(&g.m, s, &t) }
    }
    macro_rules! shear { ($f:ident, $H:ident, $N:literal, $M:literal) => {
        pub fn $f(r: &mut Rng) -> G<$H<f32>, $M> {
            let (d, n) = perp::<$N>(r);
            let k = comps::<1>(r)[0];
            G { t: $H::from_shear(k as f32, &u32(&d), &u32(&n)), big: 1.0, how: concat!("f32 ", stringify!($f)), m: shear_ref(k, &z(), &d, &n) }
        }
    } }
    shear!(shear2, Shear2, 2, 3);
    shear!(shear3, Shear3, 3, 4);
}
