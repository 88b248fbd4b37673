//! C02: all views of a value denote the same components in the same places.
use h_core::views::*;
use h_core::*;

fn main() {
    let mut c = Cx::new("C02", "every named vector, point and matrix type, quaternions and complex numbers, with 8 element types; histories of writes through every mutable view (fields, indices, ranges, arrays, tuples, nested arrays, columns, pointers), every reading view compared with a model list after each write; all 386 vector and 46 point swizzles; owned and borrowed conversions; out-of-range reads and writes must panic; non-trivial: every case (random components)");
    let cx = &mut c;
    let n = cx.n(24);
    element::<f64>(cx, n, 14);
    element::<f32>(cx, n / 2, 14);
    element::<u8>(cx, n / 2, 14);
    element::<i32>(cx, n / 2, 14);
    element::<u128>(cx, n / 2, 14);
    element::<bool>(cx, n / 4, 14);
    element::<Pad>(cx, n / 2, 14);
    element::<Wide>(cx, n / 4, 14);
    macro_rules! num { ($($t:ident)*) => { $( numeric::<$t>(cx, n); )* } }
    num!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
    floating::<f64>(cx, n);
    floating::<f32>(cx, n);
    cx.require(&["Vector4:read:as-ref-tuple", "Matrix4x3:read:row", "Quaternion:write:named-vector", "Complex:write:as-mut-tuple", "Point3:swizzle:zyx", "Vector4:swizzle:wzyx", "Matrix3x4:outside:pair-row-past-end", "size"]);
    c.finish();
}
