//! C09: affine matrix constructors build the map they are named after.
use h_core::*;
use refm::{add, cross, det, dot, flat as fl, mm, mv, norm, rot2, rot3, scale, sub, tr};

type M3 = [[f64; 3]; 3];
type M4 = [[f64; 4]; 4];
fn pt3(m: &M4, p: &[f64; 3]) -> [f64; 4] { mv(m, &[p[0], p[1], p[2], 1.0]) }
fn vec3(m: &M4, p: &[f64; 3]) -> [f64; 4] { mv(m, &[p[0], p[1], p[2], 0.0]) }
fn pt2(m: &M3, p: &[f64; 2]) -> [f64; 3] { mv(m, &[p[0], p[1], 1.0]) }
fn vec2(m: &M3, p: &[f64; 2]) -> [f64; 3] { mv(m, &[p[0], p[1], 0.0]) }
fn h3(p: [f64; 3], w: f64) -> [f64; 4] { [p[0], p[1], p[2], w] }
fn h2(p: [f64; 2], w: f64) -> [f64; 3] { [p[0], p[1], w] }

/// Exact (ring) constructors for every scalar type.
fn exact<T: Sc>(cx: &mut Cx) {
    let tag = format!("scale/translation/shear entries {}", T::NAME);
    for _ in 0..cx.n(60) {
        let v: [T; 4] = gens(&mut cx.rng);
        let p: [T; 4] = exacts(&mut cx.rng);
        let k = T::exact(&mut cx.rng);
        let desc = || format!("v={:?} p={:?} k={:?}", v, p, k);
        cx.case(&tag, keys(&v), true, desc, |cx| {
            let (o, i) = (T::zero(), T::one());
            let dg = |d: &[T]| { let n = d.len(); (0..n).flat_map(|c| (0..n).map(move |r| (c, r))).map(|(c, r)| if c == r { d[c] } else { o }).collect::<Vec<T>>() };
            let trn = |d: &[T]| { let n = d.len() + 1; (0..n).flat_map(|c| (0..n).map(move |r| (c, r))).map(|(c, r)| if c == r { i } else if c == n - 1 { d[r] } else { o }).collect::<Vec<T>>() };
            let (v1, v2, v3, v4) = (Vector1::<T>::from([v[0]]), Vector2::from([v[0], v[1]]), Vector3::from([v[0], v[1], v[2]]), Vector4::from(v));
            let s = v[0];
            let mut obs = vec![
                ("scale", ms(&Matrix1x1::from_scale(s)), dg(&[s])), ("scale", ms(&Matrix2x2::from_scale(s)), dg(&[s; 2])), ("scale", ms(&Matrix3x3::from_scale(s)), dg(&[s; 3])), ("scale", ms(&Matrix4x4::from_scale(s)), dg(&[s; 4])),
                ("nonuniform-scale", ms(&Matrix1x1::from_nonuniform_scale(&v1)), dg(&v[..1])), ("nonuniform-scale", ms(&Matrix2x2::from_nonuniform_scale(&v2)), dg(&v[..2])), ("nonuniform-scale", ms(&Matrix3x3::from_nonuniform_scale(&v3)), dg(&v[..3])), ("nonuniform-scale", ms(&Matrix4x4::from_nonuniform_scale(&v4)), dg(&v)),
                ("affine-scale", ms(&Matrix2x2::from_affine_scale(s)), dg(&[s, i])), ("affine-scale", ms(&Matrix3x3::from_affine_scale(s)), dg(&[s, s, i])), ("affine-scale", ms(&Matrix4x4::from_affine_scale(s)), dg(&[s, s, s, i])),
                ("affine-nonuniform-scale", ms(&Matrix2x2::from_affine_nonuniform_scale(&v1)), dg(&[v[0], i])), ("affine-nonuniform-scale", ms(&Matrix3x3::from_affine_nonuniform_scale(&v2)), dg(&[v[0], v[1], i])), ("affine-nonuniform-scale", ms(&Matrix4x4::from_affine_nonuniform_scale(&v3)), dg(&[v[0], v[1], v[2], i])),
                ("affine-translation", ms(&Matrix2x2::from_affine_translation(&v1)), trn(&v[..1])), ("affine-translation", ms(&Matrix3x3::from_affine_translation(&v2)), trn(&v[..2])), ("affine-translation", ms(&Matrix4x4::from_affine_translation(&v3)), trn(&v[..3])),
                // the dimension-generic constructors in higher dimensions
                ("scale", ms(&Matrix::<T, 6, 6>::from_scale(s)), dg(&[s; 6])), ("nonuniform-scale", ms(&Matrix::<T, 5, 5>::from_nonuniform_scale(&Vector::from([v[1], v[0], v[3], v[2], k]))), dg(&[v[1], v[0], v[3], v[2], k])),
                ("affine-scale", ms(&Matrix::<T, 5, 5>::from_affine_scale(s)), dg(&[s, s, s, s, i])), ("affine-scale", ms(&Matrix::<T, 6, 6>::from_affine_scale(s)), dg(&[s, s, s, s, s, i])),
            ];
            // shear along axis d by the coordinate along axis n: x_d + k * x_n, all other coordinates fixed
            let sh = |d: usize, n: usize, dim: usize| (0..dim).map(|r| if r == d { p[d] + k * p[n] } else { p[r] }).collect::<Vec<T>>();
            let (p2, p3) = (Vector2::from([p[0], p[1]]), Vector3::from([p[0], p[1], p[2]]));
            let hom = |w: Vec<T>, l: T| { let mut w = w; w.push(l); w };
            for (d, n, m) in [(0, 1, Matrix2x2::from_shear_xy(k)), (1, 0, Matrix2x2::from_shear_yx(k))] { obs.push(("axis-shear-2d", vs(&(m * p2)), sh(d, n, 2))); }
            for (d, n, m) in [(0, 1, Matrix3x3::from_affine_shear_xy(k)), (1, 0, Matrix3x3::from_affine_shear_yx(k))] {
                obs.push(("affine-axis-shear-2d", vs(&(m * Vector3::from([p[0], p[1], i]))), hom(sh(d, n, 2), i)));
                obs.push(("affine-axis-shear-2d", vs(&(m * Vector3::from([p[0], p[1], o]))), hom(sh(d, n, 2), o)));
            }
            for (d, n, m) in [(0, 1, Matrix3x3::from_shear_xy(k)), (0, 2, Matrix3x3::from_shear_xz(k)), (1, 0, Matrix3x3::from_shear_yx(k)), (1, 2, Matrix3x3::from_shear_yz(k)), (2, 0, Matrix3x3::from_shear_zx(k)), (2, 1, Matrix3x3::from_shear_zy(k))] { obs.push(("axis-shear-3d", vs(&(m * p3)), sh(d, n, 3))); }
            for (d, n, m) in [(0, 1, Matrix4x4::from_affine_shear_xy(k)), (0, 2, Matrix4x4::from_affine_shear_xz(k)), (1, 0, Matrix4x4::from_affine_shear_yx(k)), (1, 2, Matrix4x4::from_affine_shear_yz(k)), (2, 0, Matrix4x4::from_affine_shear_zx(k)), (2, 1, Matrix4x4::from_affine_shear_zy(k))] {
                obs.push(("affine-axis-shear-3d", vs(&(m * Vector4::from([p[0], p[1], p[2], i]))), hom(sh(d, n, 3), i)));
                obs.push(("affine-axis-shear-3d", vs(&(m * Vector4::from([p[0], p[1], p[2], o]))), hom(sh(d, n, 3), o)));
            }
            for (ev, g, w) in &obs { cx.ok(ev, vsame(g, w), || format!("got {:?}, want {:?}; {}", g, w, desc())); }
        });
    }
}

fn shears(cx: &mut Cx) {
    for _ in 0..cx.n(1500) {
        let r = &mut cx.rng;
        let (d, k) = (r.dir::<3>(), r.val());
        let n = loop { let n = cross(&d, &r.dir()); if norm(&n) > 0.1 { break scale(&n, 1.0 / norm(&n)); } };
        let d2 = r.dir::<2>();
        let n2 = [-d2[1], d2[0]];
        let (p, o): ([f64; 3], [f64; 3]) = (r.vals(), r.vals());
        let (p2, o2) = ([p[0], p[1]], [o[0], o[1]]);
        let desc = || format!("factor={} direction={:?} normal={:?} origin={:?} p={:?} direction2={:?}", k, d, n, o, p, d2);
        let mut key = bits(&d);
        key.extend(bits(&p));
        cx.case("general shear", key, k != 0.0, desc, |cx| {
            let tol = 1e-12 * (1.0 + k.abs()) * (1.0 + norm(&p) + norm(&o));
            let (ud, un, ud2, un2) = (unit3(d), unit3(n), unit2(d2), unit2(n2));
            let w = |q: &[f64; 3], o: &[f64; 3]| add(q, &scale(&d, k * dot(&sub(q, o), &n)));
            let w2 = |q: &[f64; 2], o: &[f64; 2]| add(q, &scale(&d2, k * dot(&sub(q, o), &n2)));
            let m = ma(&Matrix3x3::from_shear(k, &ud, &un));
            let m2 = ma(&Matrix2x2::from_shear(k, &ud2, &un2));
            let a = ma(&Matrix4x4::from_affine_shear(k, &Point3::from(o), &ud, &un));
            let a2 = ma(&Matrix3x3::from_affine_shear(k, &Point2::from(o2), &ud2, &un2));
            cx.near("shear", &mv(&m, &p), &w(&p, &[0.0; 3]), tol, desc);
            cx.near("shear", &mv(&m2, &p2), &w2(&p2, &[0.0; 2]), tol, desc);
            cx.near("affine-shear", &pt3(&a, &p), &h3(w(&p, &o), 1.0), tol, desc);
            cx.near("affine-shear-vector", &vec3(&a, &p), &h3(w(&p, &[0.0; 3]), 0.0), tol, desc);
            cx.near("affine-shear", &pt2(&a2, &p2), &h2(w2(&p2, &o2), 1.0), tol, desc);
            cx.near("affine-shear-vector", &vec2(&a2, &p2), &h2(w2(&p2, &[0.0; 2]), 0.0), tol, desc);
            cx.near("shear-fixes-origin", &pt3(&a, &o), &h3(o, 1.0), tol, desc);
            cx.near("shear-preserves-volume", &[det(&m), det(&a), det(&m2), det(&a2)], &[1.0; 4], 1e-11 * (1.0 + k.abs()).powi(3), desc);
        });
    }
}

fn reflections(cx: &mut Cx) {
    for _ in 0..cx.n(1500) {
        let r = &mut cx.rng;
        let (n, n2) = (r.dir::<3>(), r.dir::<2>());
        let (p, b): ([f64; 3], [f64; 3]) = (r.vals(), r.vals());
        let (p2, b2) = ([p[0], p[1]], [b[0], b[1]]);
        let desc = || format!("normal={:?} bias={:?} p={:?} normal2={:?}", n, b, p, n2);
        let mut key = bits(&n);
        key.extend(bits(&p));
        cx.case("reflection", key, dot(&n, &p) != 0.0, desc, |cx| {
            let tol = 1e-12 * (1.0 + norm(&p) + norm(&b));
            let (un, un2) = (unit3(n), unit2(n2));
            let w = |q: &[f64; 3], o: &[f64; 3]| sub(q, &scale(&n, 2.0 * dot(&sub(q, o), &n)));
            let w2 = |q: &[f64; 2], o: &[f64; 2]| sub(q, &scale(&n2, 2.0 * dot(&sub(q, o), &n2)));
            let m = ma(&Matrix3x3::from_reflection(&un));
            let m2 = ma(&Matrix2x2::from_reflection(&un2));
            let a = ma(&Matrix4x4::from_affine_reflection(&un, &Point3::from(b)));
            let a2 = ma(&Matrix3x3::from_affine_reflection(&un2, &Point2::from(b2)));
            cx.near("reflection", &mv(&m, &p), &w(&p, &[0.0; 3]), tol, desc);
            cx.near("reflection", &mv(&m2, &p2), &w2(&p2, &[0.0; 2]), tol, desc);
            cx.near("affine-reflection", &pt3(&a, &p), &h3(w(&p, &b), 1.0), tol, desc);
            cx.near("affine-reflection-vector", &vec3(&a, &p), &h3(w(&p, &[0.0; 3]), 0.0), tol, desc);
            cx.near("affine-reflection", &pt2(&a2, &p2), &h2(w2(&p2, &b2), 1.0), tol, desc);
            cx.near("affine-reflection-vector", &vec2(&a2, &p2), &h2(w2(&p2, &[0.0; 2]), 0.0), tol, desc);
            cx.near("reflection-fixes-bias", &pt3(&a, &b), &h3(b, 1.0), tol, desc);
            cx.near("reflection-fixes-bias", &pt2(&a2, &b2), &h2(b2, 1.0), tol, desc);
            cx.near("reflection-involution", &pt3(&mm(&a, &a), &p), &h3(p, 1.0), 4.0 * tol, desc);
            cx.near("reflection-reverses-orientation", &[det(&m), det(&m2), det(&a), det(&a2)], &[-1.0; 4], 1e-12 * (1.0 + norm(&b)), desc);
            cx.near("reflection-isometry", &[norm(&mv(&m, &p)), norm(&mv(&m2, &p2))], &[norm(&p), norm(&p2)], tol, desc);
        });
    }
}

fn rotations(cx: &mut Cx) {
    let e = refm::eye::<3>();
    for _ in 0..cx.n(2000) {
        let r = &mut cx.rng;
        let (axis, t) = (r.dir::<3>(), if r.chance(1, 16) { r.range(-1e4, 1e4) } else { r.angle() });
        let p: [f64; 3] = r.vals();
        let dg = r.bool();
        let desc = || format!("axis={:?} angle={} (degrees: {}) p={:?}", axis, t, dg, p);
        let mut key = bits(&axis);
        key.push(t.to_bits());
        cx.case("rotation", key, t != 0.0, desc, |cx| {
            let tol = 1e-12 * (1.0 + 0.01 * t.abs());
            let u = unit3(axis);
            let (rad, deg) = (Radians(t), Degrees(t.to_degrees()));
            macro_rules! ang { ($f:expr) => { if dg { $f(deg.into()) } else { $f(rad) } }; }
            let up = |m: &M3| -> M4 { std::array::from_fn(|c| std::array::from_fn(|r| if c < 3 && r < 3 { m[c][r] } else if c == r { 1.0 } else { 0.0 })) };
            let f = |m: Matrix3x3<f64>| ma(&m);
            let (mx, my, mz, mq) = (f(ang!(|a: Radians<f64>| Matrix3x3::from_angle_x(a))), f(ang!(|a: Radians<f64>| Matrix3x3::from_angle_y(a))), f(ang!(|a: Radians<f64>| Matrix3x3::from_angle_z(a))), f(ang!(|a: Radians<f64>| Matrix3x3::from_axis_angle(&u, a))));
            let (ax, ay, az, aq) = if dg { (Matrix4x4::from_affine_angle_x(deg), Matrix4x4::from_affine_angle_y(deg), Matrix4x4::from_affine_angle_z(deg), Matrix4x4::from_affine_axis_angle(&u, deg)) } else { (Matrix4x4::from_affine_angle_x(rad), Matrix4x4::from_affine_angle_y(rad), Matrix4x4::from_affine_angle_z(rad), Matrix4x4::from_affine_axis_angle(&u, rad)) };
            let m2 = ma(&if dg { Matrix2x2::from_angle(deg) } else { Matrix2x2::from_angle(rad) });
            let a2 = ma(&if dg { Matrix3x3::from_affine_angle(deg) } else { Matrix3x3::from_affine_angle(rad) });
            let direct = [f(Matrix3x3::from_angle_x(deg)), f(Matrix3x3::from_angle_y(deg)), f(Matrix3x3::from_angle_z(deg)), f(Matrix3x3::from_axis_angle(&u, deg))];
            let want = [rot3(&e[0], t), rot3(&e[1], t), rot3(&e[2], t), rot3(&axis, t)];
            let names: [&'static str; 4] = ["rotation-x", "rotation-y", "rotation-z", "rotation-axis"];
            for (i, (m, a)) in [(mx, ma(&ax)), (my, ma(&ay)), (mz, ma(&az)), (mq, ma(&aq))].iter().enumerate() {
                cx.near(names[i], &fl(m), &fl(&want[i]), tol, desc);
                cx.near("affine-rotation", &fl(a), &fl(&up(&want[i])), tol, desc);
                cx.near("rotation-degrees", &fl(&direct[i]), &fl(&want[i]), tol, desc);
                cx.near("rotation-orthogonal", &fl(&mm(&tr(m), m)), &fl(&e), tol, desc);
                cx.near("rotation-proper", &[det(m)], &[1.0], tol, desc);
                cx.near("rotation-preserves-length", &[norm(&mv(m, &p))], &[norm(&p)], tol * (1.0 + norm(&p)), desc);
            }
            cx.near("rotation-fixes-axis", &mv(&mq, &axis), &axis, tol, desc);
            cx.near("rotation-2d", &fl(&m2), &fl(&rot2(t)), tol, desc);
            cx.near("affine-rotation-2d", &fl(&a2), &[t.cos(), t.sin(), 0.0, -t.sin(), t.cos(), 0.0, 0.0, 0.0, 1.0], tol, desc);
            let q: [f64; 3] = [p[2], -p[0], p[1]];
            cx.near("cross-matrix", &mv(&ma(&Matrix3x3::cross_matrix(&Vector3::from(p))), &q), &cross(&p, &q), 1e-12 * (1.0 + norm(&p) * norm(&q)), desc);
        });
    }
    // single precision, handedness
    for _ in 0..cx.n(200) {
        let (axis, t) = (cx.rng.dir::<3>(), cx.rng.range(-3.1, 3.1));
        let desc = || format!("f32 axis={:?} angle={}", axis, t);
        cx.case("rotation f32", bits(&axis), true, desc, |cx| {
            let m = Matrix3x3::<f32>::from_axis_angle(&Unit::from_value(Vector3::from(axis.map(|x| x as f32))), Radians(t as f32));
            let g: Vec<f64> = ms(&m).iter().map(|x| *x as f64).collect();
            cx.near("rotation-axis-f32", &g, &fl(&rot3(&axis, t)), 3e-6, desc);
        });
    }
}

fn single(cx: &mut Cx) {
    for _ in 0..cx.n(2000) {
        let a: [f64; 8] = singles(&mut cx.rng);
        let desc = || format!("a={:?}", a);
        cx.case("single precision", bits(&a), true, desc, |cx| {
            both!(cx, "single", 1e-4, desc, {
                let b = a.map(|x| x as S);
                let (d2, n2) = (Unit::from_value(Vector2::<S>::new(b[0], b[1])), Unit::from_value(Vector2::<S>::new(-b[1], b[0])));
                let d3 = Unit::from_value(Vector3::<S>::new(b[0], b[1], b[2]));
                let n3 = Unit::from_value(d3.cross(&Vector3::<S>::new(b[3], b[4], b[5] + 8.0)));
                let (k, t) = (b[6], Radians(b[7]));
                let (p2, p3) = (Point2::<S>::new(b[2], b[3]), Point3::<S>::new(b[3], b[4], b[5]));
                let mut o: Vec<S> = ms(&Matrix2x2::<S>::from_shear(k, &d2, &n2));
                o.extend(ms(&Matrix2x2::<S>::from_reflection(&n2))); o.extend(ms(&Matrix2x2::<S>::from_angle(t)));
                o.extend(ms(&Matrix3x3::<S>::from_shear(k, &d3, &n3))); o.extend(ms(&Matrix3x3::<S>::from_reflection(&n3))); o.extend(ms(&Matrix3x3::<S>::from_axis_angle(&n3, t)));
                o.extend(ms(&Matrix3x3::<S>::from_angle_x(t))); o.extend(ms(&Matrix3x3::<S>::from_angle_y(t))); o.extend(ms(&Matrix3x3::<S>::from_angle_z(t))); o.extend(ms(&Matrix3x3::<S>::from_affine_angle(t)));
                o.extend(ms(&Matrix3x3::<S>::from_affine_shear(k, &p2, &d2, &n2))); o.extend(ms(&Matrix3x3::<S>::from_affine_reflection(&n2, &p2)));
                o.extend(ms(&Matrix4x4::<S>::from_affine_shear(k, &p3, &d3, &n3))); o.extend(ms(&Matrix4x4::<S>::from_affine_reflection(&n3, &p3))); o.extend(ms(&Matrix4x4::<S>::from_affine_axis_angle(&n3, t)));
                o.extend(ms(&Matrix4x4::<S>::from_affine_angle_x(t))); o.extend(ms(&Matrix4x4::<S>::from_affine_angle_y(t))); o.extend(ms(&Matrix4x4::<S>::from_affine_angle_z(t)));
                o
            });
        });
    }
}

fn main() {
    let mut c = Cx::new("C09", "entrywise-exact constructors over all 14 scalar types; random shears (orthogonal direction/normal), reflections (random planes and bias points) and rotations (special, tiny, general and many-turn angles in radians and degrees; axis-aligned, diagonal and general axes) applied to random points and vectors against the geometric definition; non-trivial: the map is not the identity on the sample");
    let cx = &mut c;
    all_scalars!(cx, exact);
    shears(cx);
    reflections(cx);
    rotations(cx);
    single(cx);
    cx.require(&["single", "scale", "nonuniform-scale", "affine-scale", "affine-translation", "axis-shear-2d", "axis-shear-3d", "affine-axis-shear-3d", "shear", "affine-shear", "reflection", "affine-reflection", "rotation-axis", "rotation-2d", "affine-rotation", "cross-matrix"]);
    c.finish();
}
