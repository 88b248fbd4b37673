// Generated by tools/gen_probe.py. Most functions here must NOT compile; see C24.
use cglinalg_core::*;
use cglinalg_transform::*;
fn main() {}
fn f0(m: Matrix<f64, 0, 0>) -> Transform<f64, 1, 0> { Transform::<f64, 1, 0>::from_matrix_unchecked(m) } // no: Transform new 1 0
fn f1(t: Scale<f64, 1>) -> Matrix<f64, 0, 0> { t.to_affine_matrix() } // no: Scale affine 1 0
fn f2(t: Translation<f64, 1>) -> Matrix<f64, 0, 0> { t.to_affine_matrix() } // no: Translation affine 1 0
fn f3(t: Reflection<f64, 1>) -> Matrix<f64, 0, 0> { t.to_affine_matrix() } // any: Reflection affine 1 0
fn f4(t: Scale<f64, 1>) -> Transform<f64, 1, 0> { t.to_transform() } // no: Scale transform 1 0
fn f5(t: Translation<f64, 1>) -> Transform<f64, 1, 0> { t.to_transform() } // no: Translation transform 1 0
fn f6(m: Matrix<f64, 1, 1>) -> Transform<f64, 1, 1> { Transform::<f64, 1, 1>::from_matrix_unchecked(m) } // no: Transform new 1 1
fn f7(t: Scale<f64, 1>) -> Matrix<f64, 1, 1> { t.to_affine_matrix() } // no: Scale affine 1 1
fn f8(t: Translation<f64, 1>) -> Matrix<f64, 1, 1> { t.to_affine_matrix() } // no: Translation affine 1 1
fn f9(t: Reflection<f64, 1>) -> Matrix<f64, 1, 1> { t.to_affine_matrix() } // any: Reflection affine 1 1
fn f10(t: Scale<f64, 1>) -> Transform<f64, 1, 1> { t.to_transform() } // no: Scale transform 1 1
fn f11(t: Translation<f64, 1>) -> Transform<f64, 1, 1> { t.to_transform() } // no: Translation transform 1 1
fn f12(m: Matrix<f64, 2, 2>) -> Transform<f64, 1, 2> { Transform::<f64, 1, 2>::from_matrix_unchecked(m) } // yes: Transform new 1 2
fn f13(t: Scale<f64, 1>) -> Matrix<f64, 2, 2> { t.to_affine_matrix() } // yes: Scale affine 1 2
fn f14(t: Translation<f64, 1>) -> Matrix<f64, 2, 2> { t.to_affine_matrix() } // yes: Translation affine 1 2
fn f15(t: Reflection<f64, 1>) -> Matrix<f64, 2, 2> { t.to_affine_matrix() } // any: Reflection affine 1 2
fn f16(t: Scale<f64, 1>) -> Transform<f64, 1, 2> { t.to_transform() } // yes: Scale transform 1 2
fn f17(t: Translation<f64, 1>) -> Transform<f64, 1, 2> { t.to_transform() } // yes: Translation transform 1 2
fn f18(m: Matrix<f64, 3, 3>) -> Transform<f64, 1, 3> { Transform::<f64, 1, 3>::from_matrix_unchecked(m) } // no: Transform new 1 3
fn f19(t: Scale<f64, 1>) -> Matrix<f64, 3, 3> { t.to_affine_matrix() } // no: Scale affine 1 3
fn f20(t: Translation<f64, 1>) -> Matrix<f64, 3, 3> { t.to_affine_matrix() } // no: Translation affine 1 3
fn f21(t: Reflection<f64, 1>) -> Matrix<f64, 3, 3> { t.to_affine_matrix() } // any: Reflection affine 1 3
fn f22(t: Scale<f64, 1>) -> Transform<f64, 1, 3> { t.to_transform() } // no: Scale transform 1 3
fn f23(t: Translation<f64, 1>) -> Transform<f64, 1, 3> { t.to_transform() } // no: Translation transform 1 3
fn f24(m: Matrix<f64, 4, 4>) -> Transform<f64, 1, 4> { Transform::<f64, 1, 4>::from_matrix_unchecked(m) } // no: Transform new 1 4
fn f25(t: Scale<f64, 1>) -> Matrix<f64, 4, 4> { t.to_affine_matrix() } // no: Scale affine 1 4
fn f26(t: Translation<f64, 1>) -> Matrix<f64, 4, 4> { t.to_affine_matrix() } // no: Translation affine 1 4
fn f27(t: Reflection<f64, 1>) -> Matrix<f64, 4, 4> { t.to_affine_matrix() } // any: Reflection affine 1 4
fn f28(t: Scale<f64, 1>) -> Transform<f64, 1, 4> { t.to_transform() } // no: Scale transform 1 4
fn f29(t: Translation<f64, 1>) -> Transform<f64, 1, 4> { t.to_transform() } // no: Translation transform 1 4
fn f30(m: Matrix<f64, 5, 5>) -> Transform<f64, 1, 5> { Transform::<f64, 1, 5>::from_matrix_unchecked(m) } // no: Transform new 1 5
fn f31(t: Scale<f64, 1>) -> Matrix<f64, 5, 5> { t.to_affine_matrix() } // no: Scale affine 1 5
fn f32(t: Translation<f64, 1>) -> Matrix<f64, 5, 5> { t.to_affine_matrix() } // no: Translation affine 1 5
fn f33(t: Reflection<f64, 1>) -> Matrix<f64, 5, 5> { t.to_affine_matrix() } // any: Reflection affine 1 5
fn f34(t: Scale<f64, 1>) -> Transform<f64, 1, 5> { t.to_transform() } // no: Scale transform 1 5
fn f35(t: Translation<f64, 1>) -> Transform<f64, 1, 5> { t.to_transform() } // no: Translation transform 1 5
fn f36(m: Matrix<f64, 0, 0>) -> Transform<f64, 2, 0> { Transform::<f64, 2, 0>::from_matrix_unchecked(m) } // no: Transform new 2 0
fn f37(t: Scale<f64, 2>) -> Matrix<f64, 0, 0> { t.to_affine_matrix() } // no: Scale affine 2 0
fn f38(t: Translation<f64, 2>) -> Matrix<f64, 0, 0> { t.to_affine_matrix() } // no: Translation affine 2 0
fn f39(t: Reflection<f64, 2>) -> Matrix<f64, 0, 0> { t.to_affine_matrix() } // no: Reflection affine 2 0
fn f40(t: Scale<f64, 2>) -> Transform<f64, 2, 0> { t.to_transform() } // no: Scale transform 2 0
fn f41(t: Translation<f64, 2>) -> Transform<f64, 2, 0> { t.to_transform() } // no: Translation transform 2 0
fn f42(m: Matrix<f64, 1, 1>) -> Transform<f64, 2, 1> { Transform::<f64, 2, 1>::from_matrix_unchecked(m) } // no: Transform new 2 1
fn f43(t: Scale<f64, 2>) -> Matrix<f64, 1, 1> { t.to_affine_matrix() } // no: Scale affine 2 1
fn f44(t: Translation<f64, 2>) -> Matrix<f64, 1, 1> { t.to_affine_matrix() } // no: Translation affine 2 1
fn f45(t: Reflection<f64, 2>) -> Matrix<f64, 1, 1> { t.to_affine_matrix() } // no: Reflection affine 2 1
fn f46(t: Scale<f64, 2>) -> Transform<f64, 2, 1> { t.to_transform() } // no: Scale transform 2 1
fn f47(t: Translation<f64, 2>) -> Transform<f64, 2, 1> { t.to_transform() } // no: Translation transform 2 1
fn f48(m: Matrix<f64, 2, 2>) -> Transform<f64, 2, 2> { Transform::<f64, 2, 2>::from_matrix_unchecked(m) } // no: Transform new 2 2
fn f49(t: Scale<f64, 2>) -> Matrix<f64, 2, 2> { t.to_affine_matrix() } // no: Scale affine 2 2
fn f50(t: Translation<f64, 2>) -> Matrix<f64, 2, 2> { t.to_affine_matrix() } // no: Translation affine 2 2
fn f51(t: Reflection<f64, 2>) -> Matrix<f64, 2, 2> { t.to_affine_matrix() } // no: Reflection affine 2 2
fn f52(t: Scale<f64, 2>) -> Transform<f64, 2, 2> { t.to_transform() } // no: Scale transform 2 2
fn f53(t: Translation<f64, 2>) -> Transform<f64, 2, 2> { t.to_transform() } // no: Translation transform 2 2
fn f54(m: Matrix<f64, 3, 3>) -> Transform<f64, 2, 3> { Transform::<f64, 2, 3>::from_matrix_unchecked(m) } // yes: Transform new 2 3
fn f55(t: Scale<f64, 2>) -> Matrix<f64, 3, 3> { t.to_affine_matrix() } // yes: Scale affine 2 3
fn f56(t: Translation<f64, 2>) -> Matrix<f64, 3, 3> { t.to_affine_matrix() } // yes: Translation affine 2 3
fn f57(t: Reflection<f64, 2>) -> Matrix<f64, 3, 3> { t.to_affine_matrix() } // yes: Reflection affine 2 3
fn f58(t: Scale<f64, 2>) -> Transform<f64, 2, 3> { t.to_transform() } // yes: Scale transform 2 3
fn f59(t: Translation<f64, 2>) -> Transform<f64, 2, 3> { t.to_transform() } // yes: Translation transform 2 3
fn f60(m: Matrix<f64, 4, 4>) -> Transform<f64, 2, 4> { Transform::<f64, 2, 4>::from_matrix_unchecked(m) } // no: Transform new 2 4
fn f61(t: Scale<f64, 2>) -> Matrix<f64, 4, 4> { t.to_affine_matrix() } // no: Scale affine 2 4
fn f62(t: Translation<f64, 2>) -> Matrix<f64, 4, 4> { t.to_affine_matrix() } // no: Translation affine 2 4
fn f63(t: Reflection<f64, 2>) -> Matrix<f64, 4, 4> { t.to_affine_matrix() } // no: Reflection affine 2 4
fn f64(t: Scale<f64, 2>) -> Transform<f64, 2, 4> { t.to_transform() } // no: Scale transform 2 4
fn f65(t: Translation<f64, 2>) -> Transform<f64, 2, 4> { t.to_transform() } // no: Translation transform 2 4
fn f66(m: Matrix<f64, 5, 5>) -> Transform<f64, 2, 5> { Transform::<f64, 2, 5>::from_matrix_unchecked(m) } // no: Transform new 2 5
fn f67(t: Scale<f64, 2>) -> Matrix<f64, 5, 5> { t.to_affine_matrix() } // no: Scale affine 2 5
fn f68(t: Translation<f64, 2>) -> Matrix<f64, 5, 5> { t.to_affine_matrix() } // no: Translation affine 2 5
fn f69(t: Reflection<f64, 2>) -> Matrix<f64, 5, 5> { t.to_affine_matrix() } // no: Reflection affine 2 5
fn f70(t: Scale<f64, 2>) -> Transform<f64, 2, 5> { t.to_transform() } // no: Scale transform 2 5
fn f71(t: Translation<f64, 2>) -> Transform<f64, 2, 5> { t.to_transform() } // no: Translation transform 2 5
fn f72(m: Matrix<f64, 0, 0>) -> Transform<f64, 3, 0> { Transform::<f64, 3, 0>::from_matrix_unchecked(m) } // no: Transform new 3 0
fn f73(t: Scale<f64, 3>) -> Matrix<f64, 0, 0> { t.to_affine_matrix() } // no: Scale affine 3 0
fn f74(t: Translation<f64, 3>) -> Matrix<f64, 0, 0> { t.to_affine_matrix() } // no: Translation affine 3 0
fn f75(t: Reflection<f64, 3>) -> Matrix<f64, 0, 0> { t.to_affine_matrix() } // no: Reflection affine 3 0
fn f76(t: Scale<f64, 3>) -> Transform<f64, 3, 0> { t.to_transform() } // no: Scale transform 3 0
fn f77(t: Translation<f64, 3>) -> Transform<f64, 3, 0> { t.to_transform() } // no: Translation transform 3 0
fn f78(m: Matrix<f64, 1, 1>) -> Transform<f64, 3, 1> { Transform::<f64, 3, 1>::from_matrix_unchecked(m) } // no: Transform new 3 1
fn f79(t: Scale<f64, 3>) -> Matrix<f64, 1, 1> { t.to_affine_matrix() } // no: Scale affine 3 1
fn f80(t: Translation<f64, 3>) -> Matrix<f64, 1, 1> { t.to_affine_matrix() } // no: Translation affine 3 1
fn f81(t: Reflection<f64, 3>) -> Matrix<f64, 1, 1> { t.to_affine_matrix() } // no: Reflection affine 3 1
fn f82(t: Scale<f64, 3>) -> Transform<f64, 3, 1> { t.to_transform() } // no: Scale transform 3 1
fn f83(t: Translation<f64, 3>) -> Transform<f64, 3, 1> { t.to_transform() } // no: Translation transform 3 1
fn f84(m: Matrix<f64, 2, 2>) -> Transform<f64, 3, 2> { Transform::<f64, 3, 2>::from_matrix_unchecked(m) } // no: Transform new 3 2
fn f85(t: Scale<f64, 3>) -> Matrix<f64, 2, 2> { t.to_affine_matrix() } // no: Scale affine 3 2
fn f86(t: Translation<f64, 3>) -> Matrix<f64, 2, 2> { t.to_affine_matrix() } // no: Translation affine 3 2
fn f87(t: Reflection<f64, 3>) -> Matrix<f64, 2, 2> { t.to_affine_matrix() } // no: Reflection affine 3 2
fn f88(t: Scale<f64, 3>) -> Transform<f64, 3, 2> { t.to_transform() } // no: Scale transform 3 2
fn f89(t: Translation<f64, 3>) -> Transform<f64, 3, 2> { t.to_transform() } // no: Translation transform 3 2
fn f90(m: Matrix<f64, 3, 3>) -> Transform<f64, 3, 3> { Transform::<f64, 3, 3>::from_matrix_unchecked(m) } // no: Transform new 3 3
fn f91(t: Scale<f64, 3>) -> Matrix<f64, 3, 3> { t.to_affine_matrix() } // no: Scale affine 3 3
fn f92(t: Translation<f64, 3>) -> Matrix<f64, 3, 3> { t.to_affine_matrix() } // no: Translation affine 3 3
fn f93(t: Reflection<f64, 3>) -> Matrix<f64, 3, 3> { t.to_affine_matrix() } // no: Reflection affine 3 3
fn f94(t: Scale<f64, 3>) -> Transform<f64, 3, 3> { t.to_transform() } // no: Scale transform 3 3
fn f95(t: Translation<f64, 3>) -> Transform<f64, 3, 3> { t.to_transform() } // no: Translation transform 3 3
fn f96(m: Matrix<f64, 4, 4>) -> Transform<f64, 3, 4> { Transform::<f64, 3, 4>::from_matrix_unchecked(m) } // yes: Transform new 3 4
fn f97(t: Scale<f64, 3>) -> Matrix<f64, 4, 4> { t.to_affine_matrix() } // yes: Scale affine 3 4
fn f98(t: Translation<f64, 3>) -> Matrix<f64, 4, 4> { t.to_affine_matrix() } // yes: Translation affine 3 4
fn f99(t: Reflection<f64, 3>) -> Matrix<f64, 4, 4> { t.to_affine_matrix() } // yes: Reflection affine 3 4
fn f100(t: Scale<f64, 3>) -> Transform<f64, 3, 4> { t.to_transform() } // yes: Scale transform 3 4
fn f101(t: Translation<f64, 3>) -> Transform<f64, 3, 4> { t.to_transform() } // yes: Translation transform 3 4
fn f102(m: Matrix<f64, 5, 5>) -> Transform<f64, 3, 5> { Transform::<f64, 3, 5>::from_matrix_unchecked(m) } // no: Transform new 3 5
fn f103(t: Scale<f64, 3>) -> Matrix<f64, 5, 5> { t.to_affine_matrix() } // no: Scale affine 3 5
fn f104(t: Translation<f64, 3>) -> Matrix<f64, 5, 5> { t.to_affine_matrix() } // no: Translation affine 3 5
fn f105(t: Reflection<f64, 3>) -> Matrix<f64, 5, 5> { t.to_affine_matrix() } // no: Reflection affine 3 5
fn f106(t: Scale<f64, 3>) -> Transform<f64, 3, 5> { t.to_transform() } // no: Scale transform 3 5
fn f107(t: Translation<f64, 3>) -> Transform<f64, 3, 5> { t.to_transform() } // no: Translation transform 3 5
