//! C17: rotation between two directions.
use h_core::*;
use refm::{cross, det, dot, eye, flat as fl, mm, mv, norm, qrot, scale, sub, tr, unit};
use std::f64::consts::PI;

type M2 = [[f64; 2]; 2];
type M3 = [[f64; 3]; 3];

mod double { use super::*; type S = f64; include!("../parts/c17.rs"); }
mod single { use super::*; type S = f32; include!("../parts/c17.rs"); }

fn main() {
    let mut c = Cx::new("C17", "pairs of directions in 2 and 3 dimensions at angles 0, 1e-16..1e-1, quarter turns, general, and half turns minus 0 or 1e-16..1e-1, clockwise and counter-clockwise, as unit wrappers and as vectors of lengths 1e-100..1e100, for every constructor; double precision, and single precision with lengths 1e-15..1e15; non-trivial: the directions differ");
    let cx = &mut c;
    double::pass(cx, 1000, 1.0, 1e100, ["space", "plane"]);
    single::pass(cx, 500, f32::EPSILON as f64 / f64::EPSILON, 1e15, ["space-single", "plane-single"]);
    cx.assume("for directions within about 1e-9 of opposite the image may deviate by rounding / sin(angle), the conditioning of the axis");
    cx.require(&["matrix3", "matrix3-axis", "quaternion", "quaternion-axis", "matrix2", "matrix2-axis", "proper-rotation", "shorter-arc", "refused-only-when-opposite", "same-direction-identity"]);
    c.finish();
}
