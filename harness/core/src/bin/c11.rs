//! C11: projection matrices map the viewing volume onto the clip cube.
use h_core::*;
use refm::mv;

fn main() {
    let mut c = Cx::new("C11", "random frustums and boxes with positive plane distances (symmetric and asymmetric, near/far ratios 1.001..1e4, in units of length from 1e-6 to 1e6), the eight corners and random points inside and outside each; vertical fields of view from 1 to 179 degrees in both angle units; non-trivial: asymmetric or off-axis point");
    let cx = &mut c;
    for _ in 0..cx.n(4000) {
        let r = &mut cx.rng;
        let pos = |r: &mut Rng| match r.below(3) { 0 => r.int(1, 9) as f64, 1 => r.range(0.1, 5.0), _ => r.mag(1e-2, 1e2).abs() };
        // the whole scene may be given in any unit of length
        let unit = match r.below(4) { 0 => r.mag(1e-6, 1e-2).abs(), 1 => r.mag(1e2, 1e6).abs(), _ => 1.0 };
        let (left, mut right, bottom, mut top) = (unit * pos(r), unit * pos(r), unit * pos(r), unit * pos(r));
        if r.chance(1, 5) { right = left; top = bottom; }
        let near = unit * pos(r);
        let far = near * (1.0 + match r.below(5) { 0 => r.range(0.001, 1.0), 1 => r.range(1.0, 10.0), 2 => r.range(10.0, 1e4), 3 => r.mag(1e4, 1e9).abs(), _ => r.mag(1e-6, 1e3).abs() });
        // a point by its clip parameters (u, v) in [-1,1] and depth d
        let (u, v) = (r.range(-2.0, 2.0), r.range(-2.0, 2.0));
        let d = if r.bool() { r.range(near, far) } else { far * r.range(0.1, 2.0) };
        let (vfov, aspect) = (match r.below(4) { 0 => r.mag(1e-4, 0.1).abs(), 1 => std::f64::consts::PI - r.mag(1e-4, 0.1).abs(), _ => r.range(0.02, 3.12) }, if r.chance(1, 5) { r.mag(1e-4, 1e4).abs() } else { pos(r) });
        let desc = || format!("left={} right={} bottom={} top={} near={} far={} (u,v,d)=({},{},{}) vfov={} aspect={}", left, right, bottom, top, near, far, u, v, d, vfov, aspect);
        cx.case("projection matrices", bits(&[left, right, bottom, top, near, far, u, v, d, vfov, aspect]), true, desc, |cx| {
            let lerp = |t: f64, a: f64, b: f64| a + (b - a) * (t + 1.0) / 2.0;
            let hyp = |d: f64| ((far + near) - 2.0 * far * near / d) / (far - near);
            let cond = 1e-14 * (1.0 + far / (far - near)) * 8.0;
            let o = ma(&Matrix4x4::from_orthographic(left, right, bottom, top, near, far));
            let p = ma(&Matrix4x4::from_perspective(left, right, bottom, top, near, far));
            let mut pts = vec![(u, v, d)];
            for a in [-1.0, 1.0] { for b in [-1.0, 1.0] { pts.push((a, b, near)); pts.push((a, b, far)); } }
            for (k, (a, b, d)) in pts.iter().copied().enumerate() {
                let corner = k > 0;
                let (x, y) = (lerp(a, -left, right), lerp(b, -bottom, top));
                let g = mv(&o, &[x, y, -d, 1.0]);
                let zo = (2.0 * d - (far + near)) / (far - near);
                cx.near(if corner { "orthographic-corner" } else { "orthographic" }, &g, &[a, b, zo, 1.0], cond * (1.0 + zo.abs() + d / (far - near)), desc);
                // the frustum: (x, y) on the near plane scaled to depth d
                let q = mv(&p, &[x * d / near, y * d / near, -d, 1.0]);
                cx.near("perspective-w", &[q[3]], &[d], 1e-12 * d, desc);
                let z = hyp(d);
                cx.near(if corner { "perspective-corner" } else { "perspective" }, &[q[0] / q[3], q[1] / q[3], q[2] / q[3]], &[a, b, z], cond * (1.0 + z.abs()) * (1.0 + near / d) * 10.0, desc);
            }
            // the field-of-view parameterisation equals the equivalent frustum
            let t = (vfov / 2.0).tan() * near;
            let w = refm::flat(&ma(&Matrix4x4::from_perspective(t * aspect, t * aspect, t, t, near, far)));
            for (ev, g) in [("perspective-vfov", Matrix4x4::from_perspective_vfov(Radians(vfov), aspect, near, far)), ("perspective-vfov-degrees", Matrix4x4::from_perspective_vfov(Degrees(vfov.to_degrees()), aspect, near, far))] {
                let g = refm::flat(&ma(&g));
                for i in 0..16 { cx.near(ev, &[g[i]], &[w[i]], 1e-13 * (1.0 + far / (far - near)) * (1.0 + 1.0 / vfov + 1.0 / (std::f64::consts::PI - vfov)) * w[i].abs() + 1e-16, desc); }
            }
            let m = ma(&Matrix4x4::from_perspective_vfov(Radians(vfov), aspect, near, far));
            let q = mv(&m, &[u * t * aspect * d / near, v * t * d / near, -d, 1.0]);
            cx.near("vfov-geometry", &[q[0] / q[3], q[1] / q[3], q[2] / q[3]], &[u, v, hyp(d)], 1e-13 * (1.0 + 1.0 / vfov + 1.0 / (std::f64::consts::PI - vfov)) * (1.0 + far / (far - near)) * (1.0 + near / d) * (1.0 + hyp(d).abs()), desc);
        });
        // single precision
        cx.case("projection matrices f32", bits(&[left, right, near, far]), true, desc, |cx| {
            let f = |x: f64| x as f32;
            let (p, pd) = (Matrix4x4::from_perspective(f(left), f(right), f(bottom), f(top), f(near), f(far)), Matrix4x4::from_perspective(left, right, bottom, top, near, far));
            let (o, od) = (Matrix4x4::from_orthographic(f(left), f(right), f(bottom), f(top), f(near), f(far)), Matrix4x4::from_orthographic(left, right, bottom, top, near, far));
            for (ev, g, w) in [("perspective-f32", p, pd), ("orthographic-f32", o, od)] {
                for (a, b) in ms(&g).iter().zip(ms(&w)) { cx.ok(ev, (*a as f64 - b).abs() <= 1e-5 * (1.0 + far / (far - near)) * (1.0 + b.abs()), || format!("got {}, want {}; {}", a, b, desc())); }
            }
        });
    }
    cx.require(&["orthographic", "orthographic-corner", "perspective", "perspective-corner", "perspective-vfov", "perspective-vfov-degrees", "vfov-geometry"]);
    c.finish();
}
