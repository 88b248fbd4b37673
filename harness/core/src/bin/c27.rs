//! C27: perspective and orthographic projections.
use cglinalg_transform::*;
use h_core::*;

fn ndc(m: &[[f64; 4]; 4], p: &[f64; 3]) -> [f64; 3] {
    let h = refm::mv(m, &[p[0], p[1], p[2], 1.0]);
    [h[0] / h[3], h[1] / h[3], h[2] / h[3]]
}

/// Volumes whose nearest plane, or one side, is so close that the ratio of the plane distances is beyond the precision of the scalar.
macro_rules! extreme {
    ($cx:ident, $S:ident, $tag:literal, $least:expr) => {{
        for _ in 0..$cx.n(1500) {
            let r = &mut $cx.rng;
            let eps = $S::EPSILON as f64;
            let ratio = r.mag($least, 1e-2).abs();
            let near = (*r.pick(&[1e-3, 1e-2, 0.1, 1.0, 3.0]) * r.range(0.5, 2.0)) as $S;
            let far = (near as f64 / ratio) as $S;
            let side = |r: &mut Rng| { let a = r.range(0.2, 4.0); match r.below(4) { 0 => (a, a * r.mag($least, 1e-2).abs()), 1 => (a * r.mag($least, 1e-2).abs(), a), 2 => (a, a), _ => (a, r.range(0.2, 4.0)) } };
            let ((l, rt), (b, t)) = (side(r), side(r));
            let (left, right, bottom, top) = (l as $S, rt as $S, b as $S, t as $S);
            let (u, v, d) = (r.range(-1.5, 1.5), r.range(-1.5, 1.5), near as f64 * r.range(0.2, 5.0));
            let desc = || format!("{} left={:e} right={:e} bottom={:e} top={:e} near={:e} far={:e} (u,v,d)=({},{},{:e})", $tag, left, right, bottom, top, near, far, u, v, d);
            let (l, rt, b, t, n, f) = (left as f64, right as f64, bottom as f64, top as f64, near as f64, far as f64);
            let lerp = |t: f64, a: f64, b: f64| a + (b - a) * (t + 1.0) / 2.0;
            let (xn, yn) = (lerp(u, -l, rt), lerp(v, -b, t));
            $cx.case($tag, bits(&[l, rt, b, t, n, f, u, v, d]), true, desc, |cx| {
                let p = Perspective3::<$S>::new(left, right, bottom, top, near, far);
                let size = l + rt + b + t;
                let q = [(xn * d / n) as $S, (yn * d / n) as $S, -d as $S];
                let qd = q.map(|x| x as f64);
                let back = 200.0 * eps * (maxabs(&qd) + size * d / n) * (1.0 + d / n);
                cx.near("extreme-persp-near", &[p.near() as f64], &[n], 32.0 * eps * n, desc);
                let g = p.far() as f64;
                cx.ok("extreme-persp-far", g > n && (g - f).abs() <= 32.0 * eps * f / n * f || (g > n && eps * f / n > 1e-2), || format!("got {:e}; {}", g, desc()));
                for (ev, g, w) in [("extreme-persp-left", p.left(), l), ("extreme-persp-right", p.right(), rt), ("extreme-persp-bottom", p.bottom(), b), ("extreme-persp-top", p.top(), t)] { cx.near(ev, &[g as f64], &[w], 64.0 * eps * size, desc); }
                let pt = Point3::new(q[0], q[1], q[2]);
                let vt = Vector3::new(q[0], q[1], q[2]);
                let g = p.unproject_point(&p.project_point(&pt));
                cx.near("extreme-persp-roundtrip", &[g.x as f64, g.y as f64, g.z as f64], &qd, back, desc);
                let g = p.unproject_vector(&p.project_vector(&vt));
                cx.near("extreme-persp-roundtrip-vector", &[g.x as f64, g.y as f64, g.z as f64], &qd, back, desc);
                let o = Orthographic3::<$S>::new(left, right, bottom, top, near, far);
                for (ev, g, w) in [("extreme-ortho-left", o.left(), l), ("extreme-ortho-right", o.right(), rt), ("extreme-ortho-bottom", o.bottom(), b), ("extreme-ortho-top", o.top(), t)] { cx.near(ev, &[g as f64], &[w], 64.0 * eps * size, desc); }
                for (ev, g, w) in [("extreme-ortho-near", o.near(), n), ("extreme-ortho-far", o.far(), f)] { cx.near(ev, &[g as f64], &[w], 64.0 * eps * f, desc); }
                let q = [xn as $S, yn as $S, -d as $S];
                let qd = q.map(|x| x as f64);
                let g = o.unproject_point(&o.project_point(&Point3::new(q[0], q[1], q[2])));
                let tol = |s: f64| 200.0 * eps * s;
                cx.near("extreme-ortho-roundtrip", &[g.x as f64, g.y as f64], &qd[..2], tol(size * 2.0), desc);
                cx.near("extreme-ortho-roundtrip-depth", &[g.z as f64], &qd[2..], tol(f + d), desc);
                let g = o.unproject_vector(&o.project_vector(&Vector3::new(q[0], q[1], q[2])));
                cx.near("extreme-ortho-roundtrip-vector", &[g.x as f64, g.y as f64], &qd[..2], tol(size * 2.0), desc);
                cx.near("extreme-ortho-roundtrip-vector-depth", &[g.z as f64], &qd[2..], tol(f + d), desc);
            });
        }
    }};
}

fn single(cx: &mut Cx) {
    for _ in 0..cx.n(3000) {
        let a: [f64; 5] = singles(&mut cx.rng);
        let (l, r, b, t, n) = (a[0].abs(), a[1].abs(), a[2].abs(), a[3].abs(), a[4].abs());
        let f = n + 0.5 + cx.rng.int(0, 64) as f64 / 4.0;
        let p: [f64; 3] = { let p = singles::<3>(&mut cx.rng); [p[0], p[1], -p[2].abs() - 0.5] };
        let (vfov, aspect) = (cx.rng.int(2, 11) as f64 / 4.0, cx.rng.int(2, 12) as f64 / 4.0);
        let desc = || format!("left={} right={} bottom={} top={} near={} far={} p={:?} vfov={} aspect={}", l, r, b, t, n, f, p, vfov, aspect);
        cx.case("single precision", bits(&a), true, desc, |cx| {
            macro_rules! go { ($ev:literal, $mk:expr, |$q:ident| $more:expr) => { both!(cx, $ev, 4e-4, desc, {
                let $q = { type T = S; let _ = 0 as T; $mk };
                let (x, v) = (Point3::<S>::from(p.map(|x| x as S)), Vector3::<S>::from(p.map(|x| x as S)));
                let mut o: Vec<S> = vec![$q.near(), $q.far(), $q.left(), $q.right(), $q.bottom(), $q.top()];
                o.extend::<Vec<S>>($more);
                o.extend(ms($q.matrix())); o.extend(ms(&$q.to_projective_matrix())); o.extend(ms(&Matrix4x4::from($q))); o.extend(ms($q.to_transform().matrix()));
                for y in [$q * x, $q * &x, &$q * x, &$q * &x, $q.project_point(&x), $q.unproject_point(&$q.project_point(&x))] { o.extend(vs(&y.to_vector())); }
                for y in [$q * v, $q * &v, &$q * v, &$q * &v, $q.project_vector(&v), $q.unproject_vector(&$q.project_vector(&v))] { o.extend(vs(&y)); }
                for y in [$q.view_unit_right(), $q.view_unit_up(), $q.view_unit_depth(), $q.view_unit_gaze(), $q.clip_unit_right(), $q.clip_unit_up(), $q.clip_unit_depth(), $q.clip_unit_gaze()] { o.extend(vs(&y.into_inner())); }
                let ((x0, x1), (y0, y1), (z0, z1)) = $q.clip_ndc_bounds();
                o.extend([x0, x1, y0, y1, z0, z1]);
                o
            }) }; }
            go!("single-perspective", Perspective3::new(l as S, r as S, b as S, t as S, n as S, f as S), |q| vec![q.aspect_ratio(), q.vfov().0]);
            go!("single-vfov", Perspective3::from_vfov(Radians(vfov as S), aspect as S, n as S, f as S), |q| vec![q.aspect_ratio(), q.vfov().0]);
            go!("single-orthographic", Orthographic3::new(l as S, r as S, b as S, t as S, n as S, f as S), |_q| vec![]);
        });
    }
}

fn main() {
    let mut c = Cx::new("C27", "frustums and boxes with positive plane distances, symmetric and asymmetric, far/near from 1.01 to 1e6, scene units from 1e-6 to 1e6, volumes off the view axis and reaching behind the viewer (orthographic), vertical fields of view from 1 to 179 degrees in both units; points inside and outside the volume and behind the viewer with non-zero depth; every operator form; non-trivial: asymmetric volume or off-axis point");
    let cx = &mut c;
    for _ in 0..cx.n(6000) {
        let r = &mut cx.rng;
        let pos = |r: &mut Rng| match r.below(3) { 0 => r.int(1, 9) as f64, 1 => r.range(0.1, 5.0), _ => r.mag(1e-2, 1e2).abs() };
        let (left, mut right, bottom, mut top) = (pos(r), pos(r), pos(r), pos(r));
        let sym = r.below(5);
        if sym == 0 || sym == 1 { right = left; }
        if sym == 0 || sym == 2 { top = bottom; }
        // the scene may be in any unit, and the volume need not contain the view axis
        let unit = match r.below(4) { 0 => 1.0, 1 => r.mag(1e-6, 1e6).abs(), _ => *r.pick(&[1.0, 1.0, 1e-3, 1e3]) };
        right *= unit;
        top *= unit;
        let (mut left, mut bottom) = (left * unit, bottom * unit);
        let off = r.chance(1, 5);
        if off { let (kx, ky) = (r.range(-3.0, 3.0), r.range(-3.0, 3.0)); if r.bool() { let w = left + right; left = w / 2.0 - kx * w; right = w / 2.0 + kx * w; } if r.bool() { let h = bottom + top; bottom = h / 2.0 - ky * h; top = h / 2.0 + ky * h; } }
        let near = pos(r) * unit;
        let far = near * (1.0 + match r.below(4) { 0 => r.range(0.01, 1.0), 1 => r.range(1.0, 10.0), 2 => r.range(10.0, 1e4), _ => r.mag(1e3, 1e6).abs() });
        // anywhere on the image, on its edges, in its middle or on the view axis (a coordinate exactly zero)
        let mut place = |l: f64, h: f64| match r.below(10) { 0 => (l - h) / (l + h), 1 => *r.pick(&[-1.0, 0.0, 1.0]), _ => r.range(-2.0, 2.0) };
        let (u, v) = (place(left, right), place(bottom, top));
        let d = match r.below(9) { 8 => *r.pick(&[near, far]), 0 | 1 | 2 => r.range(near, far), 3 => near * r.mag(1e-9, 1e-1), 4 => far * r.range(1.0, 30.0), 5 | 6 => near * r.range(0.2, 3.0), _ => -near * r.range(0.5, 20.0) };
        let lerp = |t: f64, a: f64, b: f64| a + (b - a) * (t + 1.0) / 2.0;
        let (mut xn, mut yn) = (lerp(u, -left, right), lerp(v, -bottom, top));
        if u == (left - right) / (left + right) { xn = 0.0; }
        if v == (bottom - top) / (bottom + top) { yn = 0.0; }
        let vfov = match r.below(3) { 0 => r.range(0.02, 1.57), 1 => r.range(1.57, 3.12), _ => r.int(1, 179) as f64 * std::f64::consts::PI / 180.0 };
        let aspect = if r.bool() { r.range(0.3, 3.0) } else { 4.0 / 3.0 };
        let behind = r.below(4);
        let desc = || format!("behind={} left={:e} right={:e} bottom={:e} top={:e} near={:e} far={:e} (u,v,d)=({},{},{}) vfov={:e} aspect={:e}", behind, left, right, bottom, top, near, far, u, v, d, vfov, aspect);
        // conditioning of the depth mapping
        let cd = 1.0 + far / near + far / (far - near);
        let spread = |a: f64, b: f64| 2.0 * (a.abs() + b.abs()) / (a + b);
        let eps = 1e-14;
        cx.case("perspective", bits(&[left, right, bottom, top, near, far, u, v, d]), left != right || top != bottom, desc, |cx| {
            let p = Perspective3::new(left, right, bottom, top, near, far);
            let m = ma(p.matrix());
            let pt = [xn * d / near, yn * d / near, -d];
            let w = [u, v, ((far + near) - 2.0 * far * near / d) / (far - near)];
            let q = Point3::from(pt);
            let qv = Vector3::from(pt);
            let t = eps * (1.0 + maxabs(&w)) * (1.0 + far / (far - near)) * (1.0 + spread(left, right) + spread(bottom, top)) * (1.0 + near / d.abs());
            let mut obs: Vec<(&'static str, [f64; 3])> = vec![
                ("persp-project-point", pa(&p.project_point(&q))), ("persp-project-vector", va(&p.project_vector(&qv))),
                ("persp-mul-point", pa(&(p * q))), ("persp-mul-point-ref", pa(&(p * &q))), ("persp-ref-mul-point", pa(&(&p * q))), ("persp-ref-mul-point-ref", pa(&(&p * &q))),
                ("persp-mul-vector", va(&(p * qv))), ("persp-mul-vector-ref", va(&(p * &qv))), ("persp-ref-mul-vector", va(&(&p * qv))), ("persp-ref-mul-vector-ref", va(&(&p * &qv))),
                ("persp-matrix", ndc(&m, &pt)), ("persp-to-projective-matrix", ndc(&ma(&p.to_projective_matrix()), &pt)), ("persp-to-transform", ndc(&ma(p.to_transform().matrix()), &pt)),
                ("persp-asref", ndc(&ma(p.as_ref()), &pt)), ("persp-into-matrix", ndc(&ma(&Matrix4x4::from(p)), &pt)),
            ];
            for (ev, g) in obs.drain(..) { cx.near(ev, &g, &w, t, desc); }
            // unprojection: from the clip coordinates back to the point
            let mag = maxabs(&pt).max(d.abs() * (left.abs() + right.abs() + top.abs() + bottom.abs()) / near);
            let back = 2.0 * eps * cd * mag * (1.0 + d.abs() / near * (1.0 + (far + near) / far)) * (1.0 + spread(left, right) + spread(bottom, top));
            cx.near("persp-unproject-point", &pa(&p.unproject_point(&Point3::from(w))), &pt, back, desc);
            cx.near("persp-unproject-vector", &va(&p.unproject_vector(&Vector3::from(w))), &pt, back, desc);
            cx.near("persp-roundtrip-point", &pa(&p.unproject_point(&p.project_point(&q))), &pt, back, desc);
            cx.near("persp-roundtrip-vector", &va(&p.unproject_vector(&p.project_vector(&qv))), &pt, back, desc);
            let rel = 10.0 * eps * cd;
            cx.near("persp-near", &[p.near()], &[near], rel * near, desc);
            cx.near("persp-far", &[p.far()], &[far], rel * far, desc);
            let lat = rel * (left.abs() + right.abs() + top.abs() + bottom.abs()) * 2.0;
            cx.near("persp-left", &[p.left()], &[left], lat, desc);
            cx.near("persp-right", &[p.right()], &[right], lat, desc);
            cx.near("persp-bottom", &[p.bottom()], &[bottom], lat, desc);
            cx.near("persp-top", &[p.top()], &[top], lat, desc);
            cx.near("persp-aspect", &[p.aspect_ratio()], &[(left + right) / (bottom + top)], 1e-13 * (left + right) / (bottom + top), desc);
            let wv = (top / near).atan() + (bottom / near).atan();
            cx.near("persp-vfov", &[p.vfov().0], &[wv], 1e-13 * (1.0 + spread(bottom, top)) + 1e-14 * (bottom + top) / near, desc);
            let mut axes = true;
            for (g, w) in [(p.view_unit_right(), [1.0, 0.0, 0.0]), (p.view_unit_up(), [0.0, 1.0, 0.0]), (p.view_unit_depth(), [0.0, 0.0, 1.0]), (p.view_unit_gaze(), [0.0, 0.0, -1.0]),
                (p.clip_unit_right(), [1.0, 0.0, 0.0]), (p.clip_unit_up(), [0.0, 1.0, 0.0]), (p.clip_unit_depth(), [0.0, 0.0, 1.0]), (p.clip_unit_gaze(), [0.0, 0.0, 1.0])] { axes &= va(g.as_ref()) == w; }
            cx.ok("persp-frame", axes && p.clip_ndc_bounds() == ((-1.0, 1.0), (-1.0, 1.0), (-1.0, 1.0)), desc);
        });
        cx.case("perspective vfov", bits(&[vfov, aspect, near, far, u, v, d]), true, desc, |cx| {
            let h = (vfov / 2.0).tan() * near;
            for (deg, p) in [(false, Perspective3::from_vfov(Radians(vfov), aspect, near, far)), (true, Perspective3::from_vfov(Degrees(vfov.to_degrees()), aspect, near, far))] {
                let s = 1.0 + 1.0 / (std::f64::consts::PI - vfov) + 1.0 / vfov;
                let w = [u, v, ((far + near) - 2.0 * far * near / d) / (far - near)];
                let pt = [u * h * aspect * d / near, v * h * d / near, -d];
                let t = 3.0 * eps * s * (1.0 + maxabs(&w)) * (1.0 + far / (far - near)) * (1.0 + near / d.abs());
                cx.near(if deg { "vfov-degrees-project" } else { "vfov-project" }, &pa(&p.project_point(&Point3::from(pt))), &w, t, desc);
                let rel = 3.0 * eps * cd * s;
                let back = 2.0 * eps * cd * s * maxabs(&pt).max(d.abs() * h * (1.0 + aspect) / near) * (1.0 + d.abs() / near * 2.0);
                cx.near("vfov-roundtrip", &pa(&p.unproject_point(&p.project_point(&Point3::from(pt)))), &pt, back, desc);
                cx.near("vfov-near", &[p.near()], &[near], rel * near, desc);
                cx.near("vfov-far", &[p.far()], &[far], rel * far, desc);
                cx.near("vfov-top", &[p.top()], &[h], rel * h, desc);
                cx.near("vfov-bottom", &[p.bottom()], &[h], rel * h, desc);
                cx.near("vfov-left", &[p.left()], &[h * aspect], rel * h * aspect, desc);
                cx.near("vfov-right", &[p.right()], &[h * aspect], rel * h * aspect, desc);
                cx.near("vfov-aspect", &[p.aspect_ratio()], &[aspect], 1e-13 * aspect, desc);
                cx.near("vfov-vfov", &[p.vfov().0], &[vfov], 1e-13 * s, desc);
            }
        });
        cx.case("orthographic", bits(&[left, right, bottom, top, near, far, u, v, d]), left != right || top != bottom, desc, |cx| {
            // the box of an orthographic projection may reach behind the viewer
            let (near, far, d) = if behind == 0 { (near - far * 0.75, near + far * 0.25, d - far * 0.75) } else { (near, far, d) };
            let p = Orthographic3::new(left, right, bottom, top, near, far);
            let m = ma(p.matrix());
            let pt = [xn, yn, -d];
            let w = [u, v, (2.0 * d - far - near) / (far - near)];
            let wl = [2.0 * pt[0] / (left + right), 2.0 * pt[1] / (bottom + top), -2.0 * pt[2] / (far - near)];
            let q = Point3::from(pt);
            let qv = Vector3::from(pt);
            let dz = 1.0 + (far.abs() + near.abs() + d.abs()) / (far - near);
            let t = eps * (1.0 + maxabs(&w)) * dz * (1.0 + spread(left, right) + spread(bottom, top));
            let obs: Vec<(&'static str, [f64; 3])> = vec![
                ("ortho-project-point", pa(&p.project_point(&q))), ("ortho-mul-point", pa(&(p * q))), ("ortho-mul-point-ref", pa(&(p * &q))), ("ortho-ref-mul-point", pa(&(&p * q))), ("ortho-ref-mul-point-ref", pa(&(&p * &q))),
                ("ortho-matrix", ndc(&m, &pt)), ("ortho-to-projective-matrix", ndc(&ma(&p.to_projective_matrix()), &pt)), ("ortho-to-transform", ndc(&ma(p.to_transform().matrix()), &pt)),
                ("ortho-asref", ndc(&ma(p.as_ref()), &pt)), ("ortho-into-matrix", ndc(&ma(&Matrix4x4::from(p)), &pt)),
            ];
            for (ev, g) in obs { cx.near(ev, &g, &w, t, desc); }
            for (ev, g) in [("ortho-project-vector", va(&p.project_vector(&qv))), ("ortho-mul-vector", va(&(p * qv))), ("ortho-mul-vector-ref", va(&(p * &qv))), ("ortho-ref-mul-vector", va(&(&p * qv))), ("ortho-ref-mul-vector-ref", va(&(&p * &qv)))] {
                cx.near(ev, &g, &wl, t + 1e-14 * maxabs(&wl), desc);
            }
            let cdo = 1.0 + (far.abs() + near.abs()) / (far - near) + spread(left, right) + spread(bottom, top);
            let back = 2.0 * eps * cdo * cdo * (left.abs() + right.abs() + bottom.abs() + top.abs() + far.abs() + near.abs() + d.abs()) * (1.0 + maxabs(&w));
            cx.near("ortho-unproject-point", &pa(&p.unproject_point(&Point3::from(w))), &pt, back, desc);
            cx.near("ortho-unproject-vector", &va(&p.unproject_vector(&Vector3::from(wl))), &pt, back, desc);
            // directions along the axes and in the planes between them
            let mask = cx.rng.int(1, 6);
            let (mut av, mut aw) = (pt, wl);
            for i in 0..3 { if mask >> i & 1 == 0 { av[i] = 0.0; aw[i] = 0.0; } if cx.rng.bool() { av[i] = -av[i]; aw[i] = -aw[i]; } }
            let (x, y) = (Vector3::from(av), Vector3::from(aw));
            for g in [p.project_vector(&x), p * x, &p * &x] { cx.near("ortho-axis-vector", &va(&g), &aw, t + 1e-14 * maxabs(&wl), || format!("vector {:?}; {}", av, desc())); }
            cx.near("ortho-unproject-axis-vector", &va(&p.unproject_vector(&y)), &av, back, || format!("vector {:?}; {}", aw, desc()));
            cx.near("ortho-roundtrip-point", &pa(&p.unproject_point(&p.project_point(&q))), &pt, back, desc);
            cx.near("ortho-roundtrip-vector", &va(&p.unproject_vector(&p.project_vector(&qv))), &pt, back, desc);
            let rel = 10.0 * eps * cdo;
            cx.near("ortho-near", &[p.near()], &[near], rel * (far.abs() + near.abs()) * 2.0, desc);
            cx.near("ortho-far", &[p.far()], &[far], rel * (far.abs() + near.abs()) * 2.0, desc);
            let lat = rel * (left.abs() + right.abs() + top.abs() + bottom.abs()) * 2.0;
            cx.near("ortho-left", &[p.left()], &[left], lat, desc);
            cx.near("ortho-right", &[p.right()], &[right], lat, desc);
            cx.near("ortho-bottom", &[p.bottom()], &[bottom], lat, desc);
            cx.near("ortho-top", &[p.top()], &[top], lat, desc);
            let mut axes = true;
            for (g, w) in [(p.view_unit_right(), [1.0, 0.0, 0.0]), (p.view_unit_up(), [0.0, 1.0, 0.0]), (p.view_unit_depth(), [0.0, 0.0, 1.0]), (p.view_unit_gaze(), [0.0, 0.0, -1.0]),
                (p.clip_unit_right(), [1.0, 0.0, 0.0]), (p.clip_unit_up(), [0.0, 1.0, 0.0]), (p.clip_unit_depth(), [0.0, 0.0, 1.0]), (p.clip_unit_gaze(), [0.0, 0.0, 1.0])] { axes &= va(g.as_ref()) == w; }
            cx.ok("ortho-frame", axes && p.clip_ndc_bounds() == ((-1.0, 1.0), (-1.0, 1.0), (-1.0, 1.0)), desc);
        });
    }
    extreme!(cx, f64, "extreme ratios f64", 1e-20);
    extreme!(cx, f32, "extreme ratios f32", 1e-9);
    single(cx);
    cx.require(&["single-perspective", "single-vfov", "single-orthographic", "persp-project-point", "persp-roundtrip-point", "persp-vfov", "vfov-vfov", "vfov-roundtrip", "ortho-project-point", "ortho-roundtrip-point", "persp-left", "ortho-top", "extreme-persp-near", "extreme-ortho-far"]);
    c.finish();
}
