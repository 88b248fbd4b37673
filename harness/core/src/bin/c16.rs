//! C16: representations of the same rotation.
use h_core::*;
use refm::{det, eye, flat as fl, mm, mv, norm, qrot, rot2, rot3, sub, tr, unit};
use std::f64::consts::PI;

type M2 = [[f64; 2]; 2];
type M3 = [[f64; 3]; 3];
fn euler_ref(x: f64, y: f64, z: f64) -> M3 { mm(&mm(&rot3(&[1.0, 0.0, 0.0], x), &rot3(&[0.0, 1.0, 0.0], y)), &rot3(&[0.0, 0.0, 1.0], z)) }

/// Angles at, next to and away from the singular ones.
fn special(r: &mut Rng) -> f64 {
    let base = *r.pick(&[0.0, PI / 2.0, PI, -PI / 2.0, -PI, 2.0 * PI, PI / 4.0]);
    if r.chance(1, 20) { return r.range(-1e4, 1e4); }
    match r.below(3) { 0 => base, 1 => base + r.mag(1e-17, 1e-3), _ => r.angle() }
}

mod double { use super::*; type S = f64; include!("../parts/c16.rs"); }
mod single { use super::*; type S = f32; include!("../parts/c16.rs"); }

fn main() {
    let mut c = Cx::new("C16", "axes (coordinate, integer and general directions) with angles at, within 1e-17..1e-3 of and away from 0, quarter, half and full turns, in radians and degrees; Euler triples with the middle angle at and near plus/minus a quarter turn; unit and non-unit quaternions; every constructor and conversion; the exact rotations of the cube; double and single precision; non-trivial: rotation differs from the identity");
    let cx = &mut c;
    double::pass(cx, 500, 1.0, ["axis-angle", "euler", "plane"]);
    single::pass(cx, 200, f32::EPSILON as f64 / f64::EPSILON, ["axis-angle-single", "euler-single", "plane-single"]);
    double::cube(cx, 1.0, "cube");
    single::cube(cx, f32::EPSILON as f64 / f64::EPSILON, "cube-single");
    cx.require(&["matrix", "quaternion", "quaternion-to-matrix", "matrix-to-quaternion", "quaternion-to-euler", "euler-matrix", "euler-quaternion-euler", "euler-affine", "axis-named", "compose-quaternion", "compose-matrix", "complex", "matrix2", "orthogonal-det-one"]);
    c.finish();
}
