//! C10: look-at / look-to frames.
use h_core::*;
use refm::{add, cross, det, dot, eye, flat as fl, mm, mv, norm, scale, sub, tr, unit};

type M3 = [[f64; 3]; 3];
type M4 = [[f64; 4]; 4];
fn lin(m: &M4) -> M3 { std::array::from_fn(|c| std::array::from_fn(|r| m[c][r])) }

mod double { use super::*; type S = f64; include!("../parts/c10.rs"); }
mod single { use super::*; type S = f32; include!("../parts/c10.rs"); }

fn main() {
    let mut c = Cx::new("C10", "random eyes, viewing directions and up vectors (axis-aligned, integer, general; up up to 0.2 degrees close to the direction, lengths of up and of the scene from 1e-9 to 1e9), left- and right-handed, forward and inverse, for 3x3 and 4x4 matrices, quaternions, rotations, isometries and similarities; double and single precision; non-trivial: eye off the origin");
    let cx = &mut c;
    double::pass(cx, 2500, 1e-11, "look");
    single::pass(cx, 1000, 1e-5, "look-single");
    cx.require(&["matrix3-look-to", "matrix3-look-at", "matrix3-look-to-inv", "matrix3-look-at-inv", "quaternion-look-at", "quaternion-look-to-inv", "matrix4-look-to", "matrix4-look-at-inv", "proper-rotation", "direction-to-z", "up-in-upper-yz", "eye-to-origin"]);
    c.finish();
}
