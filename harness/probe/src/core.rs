// Generated by tools/gen_probe.py. Most functions here must NOT compile; see C24.
use cglinalg_core::*;
fn main() {}
fn f0(a: Matrix<f64, 1, 1>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // yes: tr_mul 1x1 1x1
fn f1(a: Matrix<f64, 1, 1>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // yes: dot 1x1 1x1
fn f2(a: Matrix<f64, 1, 1>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 1x1 1x1
fn f3(a: Matrix<f64, 1, 1>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // yes: tr_mul 1x1 1x2
fn f4(a: Matrix<f64, 1, 1>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 1x1 1x2
fn f5(a: Matrix<f64, 1, 1>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 1x2
fn f6(a: Matrix<f64, 1, 1>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // yes: tr_mul 1x1 1x3
fn f7(a: Matrix<f64, 1, 1>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 1x1 1x3
fn f8(a: Matrix<f64, 1, 1>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 1x3
fn f9(a: Matrix<f64, 1, 1>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // yes: tr_mul 1x1 1x4
fn f10(a: Matrix<f64, 1, 1>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 1x1 1x4
fn f11(a: Matrix<f64, 1, 1>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 1x4
fn f12(a: Matrix<f64, 1, 1>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // no: tr_mul 1x1 2x1
fn f13(a: Matrix<f64, 1, 1>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 1x1 2x1
fn f14(a: Matrix<f64, 1, 1>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 2x1
fn f15(a: Matrix<f64, 1, 1>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // no: tr_mul 1x1 2x2
fn f16(a: Matrix<f64, 1, 1>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 1x1 2x2
fn f17(a: Matrix<f64, 1, 1>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 2x2
fn f18(a: Matrix<f64, 1, 1>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // no: tr_mul 1x1 2x3
fn f19(a: Matrix<f64, 1, 1>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 1x1 2x3
fn f20(a: Matrix<f64, 1, 1>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 2x3
fn f21(a: Matrix<f64, 1, 1>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // no: tr_mul 1x1 2x4
fn f22(a: Matrix<f64, 1, 1>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 1x1 2x4
fn f23(a: Matrix<f64, 1, 1>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 2x4
fn f24(a: Matrix<f64, 1, 1>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // no: tr_mul 1x1 3x1
fn f25(a: Matrix<f64, 1, 1>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 1x1 3x1
fn f26(a: Matrix<f64, 1, 1>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 3x1
fn f27(a: Matrix<f64, 1, 1>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // no: tr_mul 1x1 3x2
fn f28(a: Matrix<f64, 1, 1>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 1x1 3x2
fn f29(a: Matrix<f64, 1, 1>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 3x2
fn f30(a: Matrix<f64, 1, 1>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // no: tr_mul 1x1 3x3
fn f31(a: Matrix<f64, 1, 1>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 1x1 3x3
fn f32(a: Matrix<f64, 1, 1>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 3x3
fn f33(a: Matrix<f64, 1, 1>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // no: tr_mul 1x1 3x4
fn f34(a: Matrix<f64, 1, 1>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 1x1 3x4
fn f35(a: Matrix<f64, 1, 1>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 3x4
fn f36(a: Matrix<f64, 1, 1>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // no: tr_mul 1x1 4x1
fn f37(a: Matrix<f64, 1, 1>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 1x1 4x1
fn f38(a: Matrix<f64, 1, 1>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 4x1
fn f39(a: Matrix<f64, 1, 1>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // no: tr_mul 1x1 4x2
fn f40(a: Matrix<f64, 1, 1>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 1x1 4x2
fn f41(a: Matrix<f64, 1, 1>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 4x2
fn f42(a: Matrix<f64, 1, 1>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // no: tr_mul 1x1 4x3
fn f43(a: Matrix<f64, 1, 1>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 1x1 4x3
fn f44(a: Matrix<f64, 1, 1>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 4x3
fn f45(a: Matrix<f64, 1, 1>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // no: tr_mul 1x1 4x4
fn f46(a: Matrix<f64, 1, 1>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 1x1 4x4
fn f47(a: Matrix<f64, 1, 1>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x1 4x4
fn f48(a: Matrix<f64, 1, 2>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // yes: tr_mul 1x2 1x1
fn f49(a: Matrix<f64, 1, 2>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 1x2 1x1
fn f50(a: Matrix<f64, 1, 2>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 1x1
fn f51(a: Matrix<f64, 1, 2>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // yes: tr_mul 1x2 1x2
fn f52(a: Matrix<f64, 1, 2>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // yes: dot 1x2 1x2
fn f53(a: Matrix<f64, 1, 2>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 1x2
fn f54(a: Matrix<f64, 1, 2>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // yes: tr_mul 1x2 1x3
fn f55(a: Matrix<f64, 1, 2>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 1x2 1x3
fn f56(a: Matrix<f64, 1, 2>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 1x3
fn f57(a: Matrix<f64, 1, 2>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // yes: tr_mul 1x2 1x4
fn f58(a: Matrix<f64, 1, 2>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 1x2 1x4
fn f59(a: Matrix<f64, 1, 2>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 1x4
fn f60(a: Matrix<f64, 1, 2>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // no: tr_mul 1x2 2x1
fn f61(a: Matrix<f64, 1, 2>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 1x2 2x1
fn f62(a: Matrix<f64, 1, 2>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 1x2 2x1
fn f63(a: Matrix<f64, 1, 2>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // no: tr_mul 1x2 2x2
fn f64(a: Matrix<f64, 1, 2>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 1x2 2x2
fn f65(a: Matrix<f64, 1, 2>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 2x2
fn f66(a: Matrix<f64, 1, 2>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // no: tr_mul 1x2 2x3
fn f67(a: Matrix<f64, 1, 2>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 1x2 2x3
fn f68(a: Matrix<f64, 1, 2>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 2x3
fn f69(a: Matrix<f64, 1, 2>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // no: tr_mul 1x2 2x4
fn f70(a: Matrix<f64, 1, 2>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 1x2 2x4
fn f71(a: Matrix<f64, 1, 2>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 2x4
fn f72(a: Matrix<f64, 1, 2>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // no: tr_mul 1x2 3x1
fn f73(a: Matrix<f64, 1, 2>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 1x2 3x1
fn f74(a: Matrix<f64, 1, 2>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 3x1
fn f75(a: Matrix<f64, 1, 2>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // no: tr_mul 1x2 3x2
fn f76(a: Matrix<f64, 1, 2>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 1x2 3x2
fn f77(a: Matrix<f64, 1, 2>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 3x2
fn f78(a: Matrix<f64, 1, 2>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // no: tr_mul 1x2 3x3
fn f79(a: Matrix<f64, 1, 2>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 1x2 3x3
fn f80(a: Matrix<f64, 1, 2>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 3x3
fn f81(a: Matrix<f64, 1, 2>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // no: tr_mul 1x2 3x4
fn f82(a: Matrix<f64, 1, 2>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 1x2 3x4
fn f83(a: Matrix<f64, 1, 2>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 3x4
fn f84(a: Matrix<f64, 1, 2>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // no: tr_mul 1x2 4x1
fn f85(a: Matrix<f64, 1, 2>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 1x2 4x1
fn f86(a: Matrix<f64, 1, 2>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 4x1
fn f87(a: Matrix<f64, 1, 2>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // no: tr_mul 1x2 4x2
fn f88(a: Matrix<f64, 1, 2>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 1x2 4x2
fn f89(a: Matrix<f64, 1, 2>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 4x2
fn f90(a: Matrix<f64, 1, 2>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // no: tr_mul 1x2 4x3
fn f91(a: Matrix<f64, 1, 2>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 1x2 4x3
fn f92(a: Matrix<f64, 1, 2>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 4x3
fn f93(a: Matrix<f64, 1, 2>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // no: tr_mul 1x2 4x4
fn f94(a: Matrix<f64, 1, 2>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 1x2 4x4
fn f95(a: Matrix<f64, 1, 2>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x2 4x4
fn f96(a: Matrix<f64, 1, 3>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // yes: tr_mul 1x3 1x1
fn f97(a: Matrix<f64, 1, 3>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 1x3 1x1
fn f98(a: Matrix<f64, 1, 3>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 1x1
fn f99(a: Matrix<f64, 1, 3>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // yes: tr_mul 1x3 1x2
fn f100(a: Matrix<f64, 1, 3>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 1x3 1x2
fn f101(a: Matrix<f64, 1, 3>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 1x2
fn f102(a: Matrix<f64, 1, 3>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // yes: tr_mul 1x3 1x3
fn f103(a: Matrix<f64, 1, 3>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // yes: dot 1x3 1x3
fn f104(a: Matrix<f64, 1, 3>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 1x3
fn f105(a: Matrix<f64, 1, 3>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // yes: tr_mul 1x3 1x4
fn f106(a: Matrix<f64, 1, 3>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 1x3 1x4
fn f107(a: Matrix<f64, 1, 3>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 1x4
fn f108(a: Matrix<f64, 1, 3>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // no: tr_mul 1x3 2x1
fn f109(a: Matrix<f64, 1, 3>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 1x3 2x1
fn f110(a: Matrix<f64, 1, 3>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 2x1
fn f111(a: Matrix<f64, 1, 3>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // no: tr_mul 1x3 2x2
fn f112(a: Matrix<f64, 1, 3>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 1x3 2x2
fn f113(a: Matrix<f64, 1, 3>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 2x2
fn f114(a: Matrix<f64, 1, 3>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // no: tr_mul 1x3 2x3
fn f115(a: Matrix<f64, 1, 3>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 1x3 2x3
fn f116(a: Matrix<f64, 1, 3>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 2x3
fn f117(a: Matrix<f64, 1, 3>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // no: tr_mul 1x3 2x4
fn f118(a: Matrix<f64, 1, 3>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 1x3 2x4
fn f119(a: Matrix<f64, 1, 3>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 2x4
fn f120(a: Matrix<f64, 1, 3>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // no: tr_mul 1x3 3x1
fn f121(a: Matrix<f64, 1, 3>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 1x3 3x1
fn f122(a: Matrix<f64, 1, 3>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 1x3 3x1
fn f123(a: Matrix<f64, 1, 3>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // no: tr_mul 1x3 3x2
fn f124(a: Matrix<f64, 1, 3>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 1x3 3x2
fn f125(a: Matrix<f64, 1, 3>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 3x2
fn f126(a: Matrix<f64, 1, 3>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // no: tr_mul 1x3 3x3
fn f127(a: Matrix<f64, 1, 3>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 1x3 3x3
fn f128(a: Matrix<f64, 1, 3>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 3x3
fn f129(a: Matrix<f64, 1, 3>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // no: tr_mul 1x3 3x4
fn f130(a: Matrix<f64, 1, 3>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 1x3 3x4
fn f131(a: Matrix<f64, 1, 3>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 3x4
fn f132(a: Matrix<f64, 1, 3>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // no: tr_mul 1x3 4x1
fn f133(a: Matrix<f64, 1, 3>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 1x3 4x1
fn f134(a: Matrix<f64, 1, 3>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 4x1
fn f135(a: Matrix<f64, 1, 3>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // no: tr_mul 1x3 4x2
fn f136(a: Matrix<f64, 1, 3>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 1x3 4x2
fn f137(a: Matrix<f64, 1, 3>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 4x2
fn f138(a: Matrix<f64, 1, 3>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // no: tr_mul 1x3 4x3
fn f139(a: Matrix<f64, 1, 3>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 1x3 4x3
fn f140(a: Matrix<f64, 1, 3>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 4x3
fn f141(a: Matrix<f64, 1, 3>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // no: tr_mul 1x3 4x4
fn f142(a: Matrix<f64, 1, 3>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 1x3 4x4
fn f143(a: Matrix<f64, 1, 3>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x3 4x4
fn f144(a: Matrix<f64, 1, 4>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // yes: tr_mul 1x4 1x1
fn f145(a: Matrix<f64, 1, 4>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 1x4 1x1
fn f146(a: Matrix<f64, 1, 4>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 1x1
fn f147(a: Matrix<f64, 1, 4>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // yes: tr_mul 1x4 1x2
fn f148(a: Matrix<f64, 1, 4>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 1x4 1x2
fn f149(a: Matrix<f64, 1, 4>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 1x2
fn f150(a: Matrix<f64, 1, 4>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // yes: tr_mul 1x4 1x3
fn f151(a: Matrix<f64, 1, 4>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 1x4 1x3
fn f152(a: Matrix<f64, 1, 4>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 1x3
fn f153(a: Matrix<f64, 1, 4>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // yes: tr_mul 1x4 1x4
fn f154(a: Matrix<f64, 1, 4>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // yes: dot 1x4 1x4
fn f155(a: Matrix<f64, 1, 4>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 1x4
fn f156(a: Matrix<f64, 1, 4>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // no: tr_mul 1x4 2x1
fn f157(a: Matrix<f64, 1, 4>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 1x4 2x1
fn f158(a: Matrix<f64, 1, 4>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 2x1
fn f159(a: Matrix<f64, 1, 4>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // no: tr_mul 1x4 2x2
fn f160(a: Matrix<f64, 1, 4>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 1x4 2x2
fn f161(a: Matrix<f64, 1, 4>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 2x2
fn f162(a: Matrix<f64, 1, 4>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // no: tr_mul 1x4 2x3
fn f163(a: Matrix<f64, 1, 4>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 1x4 2x3
fn f164(a: Matrix<f64, 1, 4>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 2x3
fn f165(a: Matrix<f64, 1, 4>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // no: tr_mul 1x4 2x4
fn f166(a: Matrix<f64, 1, 4>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 1x4 2x4
fn f167(a: Matrix<f64, 1, 4>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 2x4
fn f168(a: Matrix<f64, 1, 4>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // no: tr_mul 1x4 3x1
fn f169(a: Matrix<f64, 1, 4>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 1x4 3x1
fn f170(a: Matrix<f64, 1, 4>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 3x1
fn f171(a: Matrix<f64, 1, 4>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // no: tr_mul 1x4 3x2
fn f172(a: Matrix<f64, 1, 4>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 1x4 3x2
fn f173(a: Matrix<f64, 1, 4>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 3x2
fn f174(a: Matrix<f64, 1, 4>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // no: tr_mul 1x4 3x3
fn f175(a: Matrix<f64, 1, 4>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 1x4 3x3
fn f176(a: Matrix<f64, 1, 4>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 3x3
fn f177(a: Matrix<f64, 1, 4>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // no: tr_mul 1x4 3x4
fn f178(a: Matrix<f64, 1, 4>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 1x4 3x4
fn f179(a: Matrix<f64, 1, 4>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 3x4
fn f180(a: Matrix<f64, 1, 4>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // no: tr_mul 1x4 4x1
fn f181(a: Matrix<f64, 1, 4>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 1x4 4x1
fn f182(a: Matrix<f64, 1, 4>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 1x4 4x1
fn f183(a: Matrix<f64, 1, 4>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // no: tr_mul 1x4 4x2
fn f184(a: Matrix<f64, 1, 4>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 1x4 4x2
fn f185(a: Matrix<f64, 1, 4>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 4x2
fn f186(a: Matrix<f64, 1, 4>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // no: tr_mul 1x4 4x3
fn f187(a: Matrix<f64, 1, 4>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 1x4 4x3
fn f188(a: Matrix<f64, 1, 4>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 4x3
fn f189(a: Matrix<f64, 1, 4>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // no: tr_mul 1x4 4x4
fn f190(a: Matrix<f64, 1, 4>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 1x4 4x4
fn f191(a: Matrix<f64, 1, 4>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 1x4 4x4
fn f192(a: Matrix<f64, 2, 1>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // no: tr_mul 2x1 1x1
fn f193(a: Matrix<f64, 2, 1>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 2x1 1x1
fn f194(a: Matrix<f64, 2, 1>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 1x1
fn f195(a: Matrix<f64, 2, 1>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // no: tr_mul 2x1 1x2
fn f196(a: Matrix<f64, 2, 1>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 2x1 1x2
fn f197(a: Matrix<f64, 2, 1>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 2x1 1x2
fn f198(a: Matrix<f64, 2, 1>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // no: tr_mul 2x1 1x3
fn f199(a: Matrix<f64, 2, 1>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 2x1 1x3
fn f200(a: Matrix<f64, 2, 1>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 1x3
fn f201(a: Matrix<f64, 2, 1>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // no: tr_mul 2x1 1x4
fn f202(a: Matrix<f64, 2, 1>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 2x1 1x4
fn f203(a: Matrix<f64, 2, 1>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 1x4
fn f204(a: Matrix<f64, 2, 1>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // yes: tr_mul 2x1 2x1
fn f205(a: Matrix<f64, 2, 1>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // yes: dot 2x1 2x1
fn f206(a: Matrix<f64, 2, 1>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 2x1
fn f207(a: Matrix<f64, 2, 1>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // yes: tr_mul 2x1 2x2
fn f208(a: Matrix<f64, 2, 1>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 2x1 2x2
fn f209(a: Matrix<f64, 2, 1>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 2x2
fn f210(a: Matrix<f64, 2, 1>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // yes: tr_mul 2x1 2x3
fn f211(a: Matrix<f64, 2, 1>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 2x1 2x3
fn f212(a: Matrix<f64, 2, 1>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 2x3
fn f213(a: Matrix<f64, 2, 1>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // yes: tr_mul 2x1 2x4
fn f214(a: Matrix<f64, 2, 1>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 2x1 2x4
fn f215(a: Matrix<f64, 2, 1>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 2x4
fn f216(a: Matrix<f64, 2, 1>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // no: tr_mul 2x1 3x1
fn f217(a: Matrix<f64, 2, 1>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 2x1 3x1
fn f218(a: Matrix<f64, 2, 1>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 3x1
fn f219(a: Matrix<f64, 2, 1>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // no: tr_mul 2x1 3x2
fn f220(a: Matrix<f64, 2, 1>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 2x1 3x2
fn f221(a: Matrix<f64, 2, 1>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 3x2
fn f222(a: Matrix<f64, 2, 1>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // no: tr_mul 2x1 3x3
fn f223(a: Matrix<f64, 2, 1>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 2x1 3x3
fn f224(a: Matrix<f64, 2, 1>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 3x3
fn f225(a: Matrix<f64, 2, 1>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // no: tr_mul 2x1 3x4
fn f226(a: Matrix<f64, 2, 1>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 2x1 3x4
fn f227(a: Matrix<f64, 2, 1>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 3x4
fn f228(a: Matrix<f64, 2, 1>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // no: tr_mul 2x1 4x1
fn f229(a: Matrix<f64, 2, 1>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 2x1 4x1
fn f230(a: Matrix<f64, 2, 1>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 4x1
fn f231(a: Matrix<f64, 2, 1>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // no: tr_mul 2x1 4x2
fn f232(a: Matrix<f64, 2, 1>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 2x1 4x2
fn f233(a: Matrix<f64, 2, 1>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 4x2
fn f234(a: Matrix<f64, 2, 1>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // no: tr_mul 2x1 4x3
fn f235(a: Matrix<f64, 2, 1>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 2x1 4x3
fn f236(a: Matrix<f64, 2, 1>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 4x3
fn f237(a: Matrix<f64, 2, 1>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // no: tr_mul 2x1 4x4
fn f238(a: Matrix<f64, 2, 1>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 2x1 4x4
fn f239(a: Matrix<f64, 2, 1>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x1 4x4
fn f240(a: Matrix<f64, 2, 2>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // no: tr_mul 2x2 1x1
fn f241(a: Matrix<f64, 2, 2>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 2x2 1x1
fn f242(a: Matrix<f64, 2, 2>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 1x1
fn f243(a: Matrix<f64, 2, 2>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // no: tr_mul 2x2 1x2
fn f244(a: Matrix<f64, 2, 2>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 2x2 1x2
fn f245(a: Matrix<f64, 2, 2>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 1x2
fn f246(a: Matrix<f64, 2, 2>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // no: tr_mul 2x2 1x3
fn f247(a: Matrix<f64, 2, 2>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 2x2 1x3
fn f248(a: Matrix<f64, 2, 2>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 1x3
fn f249(a: Matrix<f64, 2, 2>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // no: tr_mul 2x2 1x4
fn f250(a: Matrix<f64, 2, 2>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 2x2 1x4
fn f251(a: Matrix<f64, 2, 2>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 1x4
fn f252(a: Matrix<f64, 2, 2>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // yes: tr_mul 2x2 2x1
fn f253(a: Matrix<f64, 2, 2>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 2x2 2x1
fn f254(a: Matrix<f64, 2, 2>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 2x1
fn f255(a: Matrix<f64, 2, 2>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // yes: tr_mul 2x2 2x2
fn f256(a: Matrix<f64, 2, 2>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // yes: dot 2x2 2x2
fn f257(a: Matrix<f64, 2, 2>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 2x2 2x2
fn f258(a: Matrix<f64, 2, 2>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // yes: tr_mul 2x2 2x3
fn f259(a: Matrix<f64, 2, 2>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 2x2 2x3
fn f260(a: Matrix<f64, 2, 2>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 2x3
fn f261(a: Matrix<f64, 2, 2>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // yes: tr_mul 2x2 2x4
fn f262(a: Matrix<f64, 2, 2>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 2x2 2x4
fn f263(a: Matrix<f64, 2, 2>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 2x4
fn f264(a: Matrix<f64, 2, 2>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // no: tr_mul 2x2 3x1
fn f265(a: Matrix<f64, 2, 2>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 2x2 3x1
fn f266(a: Matrix<f64, 2, 2>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 3x1
fn f267(a: Matrix<f64, 2, 2>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // no: tr_mul 2x2 3x2
fn f268(a: Matrix<f64, 2, 2>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 2x2 3x2
fn f269(a: Matrix<f64, 2, 2>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 3x2
fn f270(a: Matrix<f64, 2, 2>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // no: tr_mul 2x2 3x3
fn f271(a: Matrix<f64, 2, 2>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 2x2 3x3
fn f272(a: Matrix<f64, 2, 2>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 3x3
fn f273(a: Matrix<f64, 2, 2>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // no: tr_mul 2x2 3x4
fn f274(a: Matrix<f64, 2, 2>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 2x2 3x4
fn f275(a: Matrix<f64, 2, 2>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 3x4
fn f276(a: Matrix<f64, 2, 2>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // no: tr_mul 2x2 4x1
fn f277(a: Matrix<f64, 2, 2>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 2x2 4x1
fn f278(a: Matrix<f64, 2, 2>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 4x1
fn f279(a: Matrix<f64, 2, 2>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // no: tr_mul 2x2 4x2
fn f280(a: Matrix<f64, 2, 2>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 2x2 4x2
fn f281(a: Matrix<f64, 2, 2>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 4x2
fn f282(a: Matrix<f64, 2, 2>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // no: tr_mul 2x2 4x3
fn f283(a: Matrix<f64, 2, 2>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 2x2 4x3
fn f284(a: Matrix<f64, 2, 2>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 4x3
fn f285(a: Matrix<f64, 2, 2>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // no: tr_mul 2x2 4x4
fn f286(a: Matrix<f64, 2, 2>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 2x2 4x4
fn f287(a: Matrix<f64, 2, 2>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x2 4x4
fn f288(a: Matrix<f64, 2, 3>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // no: tr_mul 2x3 1x1
fn f289(a: Matrix<f64, 2, 3>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 2x3 1x1
fn f290(a: Matrix<f64, 2, 3>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 1x1
fn f291(a: Matrix<f64, 2, 3>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // no: tr_mul 2x3 1x2
fn f292(a: Matrix<f64, 2, 3>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 2x3 1x2
fn f293(a: Matrix<f64, 2, 3>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 1x2
fn f294(a: Matrix<f64, 2, 3>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // no: tr_mul 2x3 1x3
fn f295(a: Matrix<f64, 2, 3>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 2x3 1x3
fn f296(a: Matrix<f64, 2, 3>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 1x3
fn f297(a: Matrix<f64, 2, 3>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // no: tr_mul 2x3 1x4
fn f298(a: Matrix<f64, 2, 3>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 2x3 1x4
fn f299(a: Matrix<f64, 2, 3>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 1x4
fn f300(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // yes: tr_mul 2x3 2x1
fn f301(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 2x3 2x1
fn f302(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 2x1
fn f303(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // yes: tr_mul 2x3 2x2
fn f304(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 2x3 2x2
fn f305(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 2x2
fn f306(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // yes: tr_mul 2x3 2x3
fn f307(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // yes: dot 2x3 2x3
fn f308(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 2x3
fn f309(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // yes: tr_mul 2x3 2x4
fn f310(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 2x3 2x4
fn f311(a: Matrix<f64, 2, 3>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 2x4
fn f312(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // no: tr_mul 2x3 3x1
fn f313(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 2x3 3x1
fn f314(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 3x1
fn f315(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // no: tr_mul 2x3 3x2
fn f316(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 2x3 3x2
fn f317(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 2x3 3x2
fn f318(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // no: tr_mul 2x3 3x3
fn f319(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 2x3 3x3
fn f320(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 3x3
fn f321(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // no: tr_mul 2x3 3x4
fn f322(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 2x3 3x4
fn f323(a: Matrix<f64, 2, 3>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 3x4
fn f324(a: Matrix<f64, 2, 3>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // no: tr_mul 2x3 4x1
fn f325(a: Matrix<f64, 2, 3>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 2x3 4x1
fn f326(a: Matrix<f64, 2, 3>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 4x1
fn f327(a: Matrix<f64, 2, 3>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // no: tr_mul 2x3 4x2
fn f328(a: Matrix<f64, 2, 3>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 2x3 4x2
fn f329(a: Matrix<f64, 2, 3>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 4x2
fn f330(a: Matrix<f64, 2, 3>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // no: tr_mul 2x3 4x3
fn f331(a: Matrix<f64, 2, 3>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 2x3 4x3
fn f332(a: Matrix<f64, 2, 3>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 4x3
fn f333(a: Matrix<f64, 2, 3>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // no: tr_mul 2x3 4x4
fn f334(a: Matrix<f64, 2, 3>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 2x3 4x4
fn f335(a: Matrix<f64, 2, 3>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x3 4x4
fn f336(a: Matrix<f64, 2, 4>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // no: tr_mul 2x4 1x1
fn f337(a: Matrix<f64, 2, 4>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 2x4 1x1
fn f338(a: Matrix<f64, 2, 4>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 1x1
fn f339(a: Matrix<f64, 2, 4>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // no: tr_mul 2x4 1x2
fn f340(a: Matrix<f64, 2, 4>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 2x4 1x2
fn f341(a: Matrix<f64, 2, 4>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 1x2
fn f342(a: Matrix<f64, 2, 4>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // no: tr_mul 2x4 1x3
fn f343(a: Matrix<f64, 2, 4>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 2x4 1x3
fn f344(a: Matrix<f64, 2, 4>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 1x3
fn f345(a: Matrix<f64, 2, 4>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // no: tr_mul 2x4 1x4
fn f346(a: Matrix<f64, 2, 4>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 2x4 1x4
fn f347(a: Matrix<f64, 2, 4>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 1x4
fn f348(a: Matrix<f64, 2, 4>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // yes: tr_mul 2x4 2x1
fn f349(a: Matrix<f64, 2, 4>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 2x4 2x1
fn f350(a: Matrix<f64, 2, 4>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 2x1
fn f351(a: Matrix<f64, 2, 4>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // yes: tr_mul 2x4 2x2
fn f352(a: Matrix<f64, 2, 4>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 2x4 2x2
fn f353(a: Matrix<f64, 2, 4>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 2x2
fn f354(a: Matrix<f64, 2, 4>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // yes: tr_mul 2x4 2x3
fn f355(a: Matrix<f64, 2, 4>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 2x4 2x3
fn f356(a: Matrix<f64, 2, 4>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 2x3
fn f357(a: Matrix<f64, 2, 4>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // yes: tr_mul 2x4 2x4
fn f358(a: Matrix<f64, 2, 4>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // yes: dot 2x4 2x4
fn f359(a: Matrix<f64, 2, 4>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 2x4
fn f360(a: Matrix<f64, 2, 4>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // no: tr_mul 2x4 3x1
fn f361(a: Matrix<f64, 2, 4>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 2x4 3x1
fn f362(a: Matrix<f64, 2, 4>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 3x1
fn f363(a: Matrix<f64, 2, 4>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // no: tr_mul 2x4 3x2
fn f364(a: Matrix<f64, 2, 4>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 2x4 3x2
fn f365(a: Matrix<f64, 2, 4>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 3x2
fn f366(a: Matrix<f64, 2, 4>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // no: tr_mul 2x4 3x3
fn f367(a: Matrix<f64, 2, 4>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 2x4 3x3
fn f368(a: Matrix<f64, 2, 4>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 3x3
fn f369(a: Matrix<f64, 2, 4>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // no: tr_mul 2x4 3x4
fn f370(a: Matrix<f64, 2, 4>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 2x4 3x4
fn f371(a: Matrix<f64, 2, 4>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 3x4
fn f372(a: Matrix<f64, 2, 4>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // no: tr_mul 2x4 4x1
fn f373(a: Matrix<f64, 2, 4>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 2x4 4x1
fn f374(a: Matrix<f64, 2, 4>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 4x1
fn f375(a: Matrix<f64, 2, 4>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // no: tr_mul 2x4 4x2
fn f376(a: Matrix<f64, 2, 4>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 2x4 4x2
fn f377(a: Matrix<f64, 2, 4>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 2x4 4x2
fn f378(a: Matrix<f64, 2, 4>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // no: tr_mul 2x4 4x3
fn f379(a: Matrix<f64, 2, 4>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 2x4 4x3
fn f380(a: Matrix<f64, 2, 4>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 4x3
fn f381(a: Matrix<f64, 2, 4>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // no: tr_mul 2x4 4x4
fn f382(a: Matrix<f64, 2, 4>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 2x4 4x4
fn f383(a: Matrix<f64, 2, 4>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 2x4 4x4
fn f384(a: Matrix<f64, 3, 1>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // no: tr_mul 3x1 1x1
fn f385(a: Matrix<f64, 3, 1>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 3x1 1x1
fn f386(a: Matrix<f64, 3, 1>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 1x1
fn f387(a: Matrix<f64, 3, 1>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // no: tr_mul 3x1 1x2
fn f388(a: Matrix<f64, 3, 1>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 3x1 1x2
fn f389(a: Matrix<f64, 3, 1>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 1x2
fn f390(a: Matrix<f64, 3, 1>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // no: tr_mul 3x1 1x3
fn f391(a: Matrix<f64, 3, 1>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 3x1 1x3
fn f392(a: Matrix<f64, 3, 1>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 3x1 1x3
fn f393(a: Matrix<f64, 3, 1>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // no: tr_mul 3x1 1x4
fn f394(a: Matrix<f64, 3, 1>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 3x1 1x4
fn f395(a: Matrix<f64, 3, 1>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 1x4
fn f396(a: Matrix<f64, 3, 1>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // no: tr_mul 3x1 2x1
fn f397(a: Matrix<f64, 3, 1>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 3x1 2x1
fn f398(a: Matrix<f64, 3, 1>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 2x1
fn f399(a: Matrix<f64, 3, 1>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // no: tr_mul 3x1 2x2
fn f400(a: Matrix<f64, 3, 1>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 3x1 2x2
fn f401(a: Matrix<f64, 3, 1>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 2x2
fn f402(a: Matrix<f64, 3, 1>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // no: tr_mul 3x1 2x3
fn f403(a: Matrix<f64, 3, 1>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 3x1 2x3
fn f404(a: Matrix<f64, 3, 1>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 2x3
fn f405(a: Matrix<f64, 3, 1>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // no: tr_mul 3x1 2x4
fn f406(a: Matrix<f64, 3, 1>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 3x1 2x4
fn f407(a: Matrix<f64, 3, 1>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 2x4
fn f408(a: Matrix<f64, 3, 1>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // yes: tr_mul 3x1 3x1
fn f409(a: Matrix<f64, 3, 1>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // yes: dot 3x1 3x1
fn f410(a: Matrix<f64, 3, 1>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 3x1
fn f411(a: Matrix<f64, 3, 1>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // yes: tr_mul 3x1 3x2
fn f412(a: Matrix<f64, 3, 1>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 3x1 3x2
fn f413(a: Matrix<f64, 3, 1>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 3x2
fn f414(a: Matrix<f64, 3, 1>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // yes: tr_mul 3x1 3x3
fn f415(a: Matrix<f64, 3, 1>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 3x1 3x3
fn f416(a: Matrix<f64, 3, 1>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 3x3
fn f417(a: Matrix<f64, 3, 1>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // yes: tr_mul 3x1 3x4
fn f418(a: Matrix<f64, 3, 1>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 3x1 3x4
fn f419(a: Matrix<f64, 3, 1>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 3x4
fn f420(a: Matrix<f64, 3, 1>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // no: tr_mul 3x1 4x1
fn f421(a: Matrix<f64, 3, 1>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 3x1 4x1
fn f422(a: Matrix<f64, 3, 1>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 4x1
fn f423(a: Matrix<f64, 3, 1>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // no: tr_mul 3x1 4x2
fn f424(a: Matrix<f64, 3, 1>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 3x1 4x2
fn f425(a: Matrix<f64, 3, 1>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 4x2
fn f426(a: Matrix<f64, 3, 1>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // no: tr_mul 3x1 4x3
fn f427(a: Matrix<f64, 3, 1>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 3x1 4x3
fn f428(a: Matrix<f64, 3, 1>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 4x3
fn f429(a: Matrix<f64, 3, 1>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // no: tr_mul 3x1 4x4
fn f430(a: Matrix<f64, 3, 1>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 3x1 4x4
fn f431(a: Matrix<f64, 3, 1>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x1 4x4
fn f432(a: Matrix<f64, 3, 2>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // no: tr_mul 3x2 1x1
fn f433(a: Matrix<f64, 3, 2>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 3x2 1x1
fn f434(a: Matrix<f64, 3, 2>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 1x1
fn f435(a: Matrix<f64, 3, 2>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // no: tr_mul 3x2 1x2
fn f436(a: Matrix<f64, 3, 2>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 3x2 1x2
fn f437(a: Matrix<f64, 3, 2>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 1x2
fn f438(a: Matrix<f64, 3, 2>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // no: tr_mul 3x2 1x3
fn f439(a: Matrix<f64, 3, 2>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 3x2 1x3
fn f440(a: Matrix<f64, 3, 2>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 1x3
fn f441(a: Matrix<f64, 3, 2>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // no: tr_mul 3x2 1x4
fn f442(a: Matrix<f64, 3, 2>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 3x2 1x4
fn f443(a: Matrix<f64, 3, 2>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 1x4
fn f444(a: Matrix<f64, 3, 2>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // no: tr_mul 3x2 2x1
fn f445(a: Matrix<f64, 3, 2>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 3x2 2x1
fn f446(a: Matrix<f64, 3, 2>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 2x1
fn f447(a: Matrix<f64, 3, 2>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // no: tr_mul 3x2 2x2
fn f448(a: Matrix<f64, 3, 2>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 3x2 2x2
fn f449(a: Matrix<f64, 3, 2>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 2x2
fn f450(a: Matrix<f64, 3, 2>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // no: tr_mul 3x2 2x3
fn f451(a: Matrix<f64, 3, 2>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 3x2 2x3
fn f452(a: Matrix<f64, 3, 2>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 3x2 2x3
fn f453(a: Matrix<f64, 3, 2>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // no: tr_mul 3x2 2x4
fn f454(a: Matrix<f64, 3, 2>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 3x2 2x4
fn f455(a: Matrix<f64, 3, 2>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 2x4
fn f456(a: Matrix<f64, 3, 2>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // yes: tr_mul 3x2 3x1
fn f457(a: Matrix<f64, 3, 2>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 3x2 3x1
fn f458(a: Matrix<f64, 3, 2>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 3x1
fn f459(a: Matrix<f64, 3, 2>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // yes: tr_mul 3x2 3x2
fn f460(a: Matrix<f64, 3, 2>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // yes: dot 3x2 3x2
fn f461(a: Matrix<f64, 3, 2>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 3x2
fn f462(a: Matrix<f64, 3, 2>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // yes: tr_mul 3x2 3x3
fn f463(a: Matrix<f64, 3, 2>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 3x2 3x3
fn f464(a: Matrix<f64, 3, 2>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 3x3
fn f465(a: Matrix<f64, 3, 2>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // yes: tr_mul 3x2 3x4
fn f466(a: Matrix<f64, 3, 2>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 3x2 3x4
fn f467(a: Matrix<f64, 3, 2>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 3x4
fn f468(a: Matrix<f64, 3, 2>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // no: tr_mul 3x2 4x1
fn f469(a: Matrix<f64, 3, 2>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 3x2 4x1
fn f470(a: Matrix<f64, 3, 2>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 4x1
fn f471(a: Matrix<f64, 3, 2>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // no: tr_mul 3x2 4x2
fn f472(a: Matrix<f64, 3, 2>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 3x2 4x2
fn f473(a: Matrix<f64, 3, 2>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 4x2
fn f474(a: Matrix<f64, 3, 2>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // no: tr_mul 3x2 4x3
fn f475(a: Matrix<f64, 3, 2>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 3x2 4x3
fn f476(a: Matrix<f64, 3, 2>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 4x3
fn f477(a: Matrix<f64, 3, 2>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // no: tr_mul 3x2 4x4
fn f478(a: Matrix<f64, 3, 2>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 3x2 4x4
fn f479(a: Matrix<f64, 3, 2>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x2 4x4
fn f480(a: Matrix<f64, 3, 3>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // no: tr_mul 3x3 1x1
fn f481(a: Matrix<f64, 3, 3>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 3x3 1x1
fn f482(a: Matrix<f64, 3, 3>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 1x1
fn f483(a: Matrix<f64, 3, 3>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // no: tr_mul 3x3 1x2
fn f484(a: Matrix<f64, 3, 3>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 3x3 1x2
fn f485(a: Matrix<f64, 3, 3>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 1x2
fn f486(a: Matrix<f64, 3, 3>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // no: tr_mul 3x3 1x3
fn f487(a: Matrix<f64, 3, 3>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 3x3 1x3
fn f488(a: Matrix<f64, 3, 3>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 1x3
fn f489(a: Matrix<f64, 3, 3>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // no: tr_mul 3x3 1x4
fn f490(a: Matrix<f64, 3, 3>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 3x3 1x4
fn f491(a: Matrix<f64, 3, 3>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 1x4
fn f492(a: Matrix<f64, 3, 3>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // no: tr_mul 3x3 2x1
fn f493(a: Matrix<f64, 3, 3>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 3x3 2x1
fn f494(a: Matrix<f64, 3, 3>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 2x1
fn f495(a: Matrix<f64, 3, 3>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // no: tr_mul 3x3 2x2
fn f496(a: Matrix<f64, 3, 3>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 3x3 2x2
fn f497(a: Matrix<f64, 3, 3>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 2x2
fn f498(a: Matrix<f64, 3, 3>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // no: tr_mul 3x3 2x3
fn f499(a: Matrix<f64, 3, 3>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 3x3 2x3
fn f500(a: Matrix<f64, 3, 3>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 2x3
fn f501(a: Matrix<f64, 3, 3>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // no: tr_mul 3x3 2x4
fn f502(a: Matrix<f64, 3, 3>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 3x3 2x4
fn f503(a: Matrix<f64, 3, 3>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 2x4
fn f504(a: Matrix<f64, 3, 3>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // yes: tr_mul 3x3 3x1
fn f505(a: Matrix<f64, 3, 3>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 3x3 3x1
fn f506(a: Matrix<f64, 3, 3>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 3x1
fn f507(a: Matrix<f64, 3, 3>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // yes: tr_mul 3x3 3x2
fn f508(a: Matrix<f64, 3, 3>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 3x3 3x2
fn f509(a: Matrix<f64, 3, 3>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 3x2
fn f510(a: Matrix<f64, 3, 3>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // yes: tr_mul 3x3 3x3
fn f511(a: Matrix<f64, 3, 3>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // yes: dot 3x3 3x3
fn f512(a: Matrix<f64, 3, 3>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 3x3 3x3
fn f513(a: Matrix<f64, 3, 3>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // yes: tr_mul 3x3 3x4
fn f514(a: Matrix<f64, 3, 3>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 3x3 3x4
fn f515(a: Matrix<f64, 3, 3>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 3x4
fn f516(a: Matrix<f64, 3, 3>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // no: tr_mul 3x3 4x1
fn f517(a: Matrix<f64, 3, 3>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 3x3 4x1
fn f518(a: Matrix<f64, 3, 3>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 4x1
fn f519(a: Matrix<f64, 3, 3>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // no: tr_mul 3x3 4x2
fn f520(a: Matrix<f64, 3, 3>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 3x3 4x2
fn f521(a: Matrix<f64, 3, 3>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 4x2
fn f522(a: Matrix<f64, 3, 3>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // no: tr_mul 3x3 4x3
fn f523(a: Matrix<f64, 3, 3>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 3x3 4x3
fn f524(a: Matrix<f64, 3, 3>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 4x3
fn f525(a: Matrix<f64, 3, 3>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // no: tr_mul 3x3 4x4
fn f526(a: Matrix<f64, 3, 3>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 3x3 4x4
fn f527(a: Matrix<f64, 3, 3>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x3 4x4
fn f528(a: Matrix<f64, 3, 4>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // no: tr_mul 3x4 1x1
fn f529(a: Matrix<f64, 3, 4>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 3x4 1x1
fn f530(a: Matrix<f64, 3, 4>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 1x1
fn f531(a: Matrix<f64, 3, 4>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // no: tr_mul 3x4 1x2
fn f532(a: Matrix<f64, 3, 4>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 3x4 1x2
fn f533(a: Matrix<f64, 3, 4>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 1x2
fn f534(a: Matrix<f64, 3, 4>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // no: tr_mul 3x4 1x3
fn f535(a: Matrix<f64, 3, 4>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 3x4 1x3
fn f536(a: Matrix<f64, 3, 4>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 1x3
fn f537(a: Matrix<f64, 3, 4>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // no: tr_mul 3x4 1x4
fn f538(a: Matrix<f64, 3, 4>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 3x4 1x4
fn f539(a: Matrix<f64, 3, 4>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 1x4
fn f540(a: Matrix<f64, 3, 4>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // no: tr_mul 3x4 2x1
fn f541(a: Matrix<f64, 3, 4>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 3x4 2x1
fn f542(a: Matrix<f64, 3, 4>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 2x1
fn f543(a: Matrix<f64, 3, 4>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // no: tr_mul 3x4 2x2
fn f544(a: Matrix<f64, 3, 4>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 3x4 2x2
fn f545(a: Matrix<f64, 3, 4>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 2x2
fn f546(a: Matrix<f64, 3, 4>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // no: tr_mul 3x4 2x3
fn f547(a: Matrix<f64, 3, 4>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 3x4 2x3
fn f548(a: Matrix<f64, 3, 4>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 2x3
fn f549(a: Matrix<f64, 3, 4>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // no: tr_mul 3x4 2x4
fn f550(a: Matrix<f64, 3, 4>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 3x4 2x4
fn f551(a: Matrix<f64, 3, 4>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 2x4
fn f552(a: Matrix<f64, 3, 4>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // yes: tr_mul 3x4 3x1
fn f553(a: Matrix<f64, 3, 4>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 3x4 3x1
fn f554(a: Matrix<f64, 3, 4>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 3x1
fn f555(a: Matrix<f64, 3, 4>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // yes: tr_mul 3x4 3x2
fn f556(a: Matrix<f64, 3, 4>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 3x4 3x2
fn f557(a: Matrix<f64, 3, 4>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 3x2
fn f558(a: Matrix<f64, 3, 4>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // yes: tr_mul 3x4 3x3
fn f559(a: Matrix<f64, 3, 4>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 3x4 3x3
fn f560(a: Matrix<f64, 3, 4>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 3x3
fn f561(a: Matrix<f64, 3, 4>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // yes: tr_mul 3x4 3x4
fn f562(a: Matrix<f64, 3, 4>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // yes: dot 3x4 3x4
fn f563(a: Matrix<f64, 3, 4>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 3x4
fn f564(a: Matrix<f64, 3, 4>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // no: tr_mul 3x4 4x1
fn f565(a: Matrix<f64, 3, 4>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 3x4 4x1
fn f566(a: Matrix<f64, 3, 4>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 4x1
fn f567(a: Matrix<f64, 3, 4>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // no: tr_mul 3x4 4x2
fn f568(a: Matrix<f64, 3, 4>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 3x4 4x2
fn f569(a: Matrix<f64, 3, 4>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 4x2
fn f570(a: Matrix<f64, 3, 4>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // no: tr_mul 3x4 4x3
fn f571(a: Matrix<f64, 3, 4>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 3x4 4x3
fn f572(a: Matrix<f64, 3, 4>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 3x4 4x3
fn f573(a: Matrix<f64, 3, 4>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // no: tr_mul 3x4 4x4
fn f574(a: Matrix<f64, 3, 4>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 3x4 4x4
fn f575(a: Matrix<f64, 3, 4>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 3x4 4x4
fn f576(a: Matrix<f64, 4, 1>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // no: tr_mul 4x1 1x1
fn f577(a: Matrix<f64, 4, 1>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 4x1 1x1
fn f578(a: Matrix<f64, 4, 1>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 1x1
fn f579(a: Matrix<f64, 4, 1>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // no: tr_mul 4x1 1x2
fn f580(a: Matrix<f64, 4, 1>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 4x1 1x2
fn f581(a: Matrix<f64, 4, 1>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 1x2
fn f582(a: Matrix<f64, 4, 1>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // no: tr_mul 4x1 1x3
fn f583(a: Matrix<f64, 4, 1>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 4x1 1x3
fn f584(a: Matrix<f64, 4, 1>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 1x3
fn f585(a: Matrix<f64, 4, 1>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // no: tr_mul 4x1 1x4
fn f586(a: Matrix<f64, 4, 1>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 4x1 1x4
fn f587(a: Matrix<f64, 4, 1>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 4x1 1x4
fn f588(a: Matrix<f64, 4, 1>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // no: tr_mul 4x1 2x1
fn f589(a: Matrix<f64, 4, 1>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 4x1 2x1
fn f590(a: Matrix<f64, 4, 1>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 2x1
fn f591(a: Matrix<f64, 4, 1>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // no: tr_mul 4x1 2x2
fn f592(a: Matrix<f64, 4, 1>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 4x1 2x2
fn f593(a: Matrix<f64, 4, 1>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 2x2
fn f594(a: Matrix<f64, 4, 1>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // no: tr_mul 4x1 2x3
fn f595(a: Matrix<f64, 4, 1>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 4x1 2x3
fn f596(a: Matrix<f64, 4, 1>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 2x3
fn f597(a: Matrix<f64, 4, 1>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // no: tr_mul 4x1 2x4
fn f598(a: Matrix<f64, 4, 1>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 4x1 2x4
fn f599(a: Matrix<f64, 4, 1>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 2x4
fn f600(a: Matrix<f64, 4, 1>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // no: tr_mul 4x1 3x1
fn f601(a: Matrix<f64, 4, 1>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 4x1 3x1
fn f602(a: Matrix<f64, 4, 1>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 3x1
fn f603(a: Matrix<f64, 4, 1>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // no: tr_mul 4x1 3x2
fn f604(a: Matrix<f64, 4, 1>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 4x1 3x2
fn f605(a: Matrix<f64, 4, 1>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 3x2
fn f606(a: Matrix<f64, 4, 1>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // no: tr_mul 4x1 3x3
fn f607(a: Matrix<f64, 4, 1>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 4x1 3x3
fn f608(a: Matrix<f64, 4, 1>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 3x3
fn f609(a: Matrix<f64, 4, 1>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // no: tr_mul 4x1 3x4
fn f610(a: Matrix<f64, 4, 1>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 4x1 3x4
fn f611(a: Matrix<f64, 4, 1>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 3x4
fn f612(a: Matrix<f64, 4, 1>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 1, 1> { a.tr_mul(&b) } // yes: tr_mul 4x1 4x1
fn f613(a: Matrix<f64, 4, 1>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // yes: dot 4x1 4x1
fn f614(a: Matrix<f64, 4, 1>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 4x1
fn f615(a: Matrix<f64, 4, 1>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 1, 2> { a.tr_mul(&b) } // yes: tr_mul 4x1 4x2
fn f616(a: Matrix<f64, 4, 1>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 4x1 4x2
fn f617(a: Matrix<f64, 4, 1>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 4x2
fn f618(a: Matrix<f64, 4, 1>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 1, 3> { a.tr_mul(&b) } // yes: tr_mul 4x1 4x3
fn f619(a: Matrix<f64, 4, 1>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 4x1 4x3
fn f620(a: Matrix<f64, 4, 1>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 4x3
fn f621(a: Matrix<f64, 4, 1>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 1, 4> { a.tr_mul(&b) } // yes: tr_mul 4x1 4x4
fn f622(a: Matrix<f64, 4, 1>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 4x1 4x4
fn f623(a: Matrix<f64, 4, 1>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x1 4x4
fn f624(a: Matrix<f64, 4, 2>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // no: tr_mul 4x2 1x1
fn f625(a: Matrix<f64, 4, 2>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 4x2 1x1
fn f626(a: Matrix<f64, 4, 2>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 1x1
fn f627(a: Matrix<f64, 4, 2>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // no: tr_mul 4x2 1x2
fn f628(a: Matrix<f64, 4, 2>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 4x2 1x2
fn f629(a: Matrix<f64, 4, 2>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 1x2
fn f630(a: Matrix<f64, 4, 2>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // no: tr_mul 4x2 1x3
fn f631(a: Matrix<f64, 4, 2>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 4x2 1x3
fn f632(a: Matrix<f64, 4, 2>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 1x3
fn f633(a: Matrix<f64, 4, 2>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // no: tr_mul 4x2 1x4
fn f634(a: Matrix<f64, 4, 2>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 4x2 1x4
fn f635(a: Matrix<f64, 4, 2>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 1x4
fn f636(a: Matrix<f64, 4, 2>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // no: tr_mul 4x2 2x1
fn f637(a: Matrix<f64, 4, 2>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 4x2 2x1
fn f638(a: Matrix<f64, 4, 2>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 2x1
fn f639(a: Matrix<f64, 4, 2>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // no: tr_mul 4x2 2x2
fn f640(a: Matrix<f64, 4, 2>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 4x2 2x2
fn f641(a: Matrix<f64, 4, 2>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 2x2
fn f642(a: Matrix<f64, 4, 2>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // no: tr_mul 4x2 2x3
fn f643(a: Matrix<f64, 4, 2>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 4x2 2x3
fn f644(a: Matrix<f64, 4, 2>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 2x3
fn f645(a: Matrix<f64, 4, 2>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // no: tr_mul 4x2 2x4
fn f646(a: Matrix<f64, 4, 2>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 4x2 2x4
fn f647(a: Matrix<f64, 4, 2>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 4x2 2x4
fn f648(a: Matrix<f64, 4, 2>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // no: tr_mul 4x2 3x1
fn f649(a: Matrix<f64, 4, 2>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 4x2 3x1
fn f650(a: Matrix<f64, 4, 2>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 3x1
fn f651(a: Matrix<f64, 4, 2>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // no: tr_mul 4x2 3x2
fn f652(a: Matrix<f64, 4, 2>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 4x2 3x2
fn f653(a: Matrix<f64, 4, 2>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 3x2
fn f654(a: Matrix<f64, 4, 2>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // no: tr_mul 4x2 3x3
fn f655(a: Matrix<f64, 4, 2>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 4x2 3x3
fn f656(a: Matrix<f64, 4, 2>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 3x3
fn f657(a: Matrix<f64, 4, 2>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // no: tr_mul 4x2 3x4
fn f658(a: Matrix<f64, 4, 2>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 4x2 3x4
fn f659(a: Matrix<f64, 4, 2>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 3x4
fn f660(a: Matrix<f64, 4, 2>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 2, 1> { a.tr_mul(&b) } // yes: tr_mul 4x2 4x1
fn f661(a: Matrix<f64, 4, 2>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 4x2 4x1
fn f662(a: Matrix<f64, 4, 2>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 4x1
fn f663(a: Matrix<f64, 4, 2>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 2, 2> { a.tr_mul(&b) } // yes: tr_mul 4x2 4x2
fn f664(a: Matrix<f64, 4, 2>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // yes: dot 4x2 4x2
fn f665(a: Matrix<f64, 4, 2>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 4x2
fn f666(a: Matrix<f64, 4, 2>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 2, 3> { a.tr_mul(&b) } // yes: tr_mul 4x2 4x3
fn f667(a: Matrix<f64, 4, 2>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 4x2 4x3
fn f668(a: Matrix<f64, 4, 2>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 4x3
fn f669(a: Matrix<f64, 4, 2>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 2, 4> { a.tr_mul(&b) } // yes: tr_mul 4x2 4x4
fn f670(a: Matrix<f64, 4, 2>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 4x2 4x4
fn f671(a: Matrix<f64, 4, 2>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x2 4x4
fn f672(a: Matrix<f64, 4, 3>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // no: tr_mul 4x3 1x1
fn f673(a: Matrix<f64, 4, 3>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 4x3 1x1
fn f674(a: Matrix<f64, 4, 3>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 1x1
fn f675(a: Matrix<f64, 4, 3>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // no: tr_mul 4x3 1x2
fn f676(a: Matrix<f64, 4, 3>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 4x3 1x2
fn f677(a: Matrix<f64, 4, 3>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 1x2
fn f678(a: Matrix<f64, 4, 3>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // no: tr_mul 4x3 1x3
fn f679(a: Matrix<f64, 4, 3>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 4x3 1x3
fn f680(a: Matrix<f64, 4, 3>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 1x3
fn f681(a: Matrix<f64, 4, 3>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // no: tr_mul 4x3 1x4
fn f682(a: Matrix<f64, 4, 3>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 4x3 1x4
fn f683(a: Matrix<f64, 4, 3>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 1x4
fn f684(a: Matrix<f64, 4, 3>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // no: tr_mul 4x3 2x1
fn f685(a: Matrix<f64, 4, 3>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 4x3 2x1
fn f686(a: Matrix<f64, 4, 3>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 2x1
fn f687(a: Matrix<f64, 4, 3>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // no: tr_mul 4x3 2x2
fn f688(a: Matrix<f64, 4, 3>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 4x3 2x2
fn f689(a: Matrix<f64, 4, 3>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 2x2
fn f690(a: Matrix<f64, 4, 3>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // no: tr_mul 4x3 2x3
fn f691(a: Matrix<f64, 4, 3>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 4x3 2x3
fn f692(a: Matrix<f64, 4, 3>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 2x3
fn f693(a: Matrix<f64, 4, 3>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // no: tr_mul 4x3 2x4
fn f694(a: Matrix<f64, 4, 3>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 4x3 2x4
fn f695(a: Matrix<f64, 4, 3>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 2x4
fn f696(a: Matrix<f64, 4, 3>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // no: tr_mul 4x3 3x1
fn f697(a: Matrix<f64, 4, 3>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 4x3 3x1
fn f698(a: Matrix<f64, 4, 3>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 3x1
fn f699(a: Matrix<f64, 4, 3>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // no: tr_mul 4x3 3x2
fn f700(a: Matrix<f64, 4, 3>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 4x3 3x2
fn f701(a: Matrix<f64, 4, 3>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 3x2
fn f702(a: Matrix<f64, 4, 3>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // no: tr_mul 4x3 3x3
fn f703(a: Matrix<f64, 4, 3>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 4x3 3x3
fn f704(a: Matrix<f64, 4, 3>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 3x3
fn f705(a: Matrix<f64, 4, 3>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // no: tr_mul 4x3 3x4
fn f706(a: Matrix<f64, 4, 3>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 4x3 3x4
fn f707(a: Matrix<f64, 4, 3>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 4x3 3x4
fn f708(a: Matrix<f64, 4, 3>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 3, 1> { a.tr_mul(&b) } // yes: tr_mul 4x3 4x1
fn f709(a: Matrix<f64, 4, 3>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 4x3 4x1
fn f710(a: Matrix<f64, 4, 3>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 4x1
fn f711(a: Matrix<f64, 4, 3>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 3, 2> { a.tr_mul(&b) } // yes: tr_mul 4x3 4x2
fn f712(a: Matrix<f64, 4, 3>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 4x3 4x2
fn f713(a: Matrix<f64, 4, 3>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 4x2
fn f714(a: Matrix<f64, 4, 3>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 3, 3> { a.tr_mul(&b) } // yes: tr_mul 4x3 4x3
fn f715(a: Matrix<f64, 4, 3>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // yes: dot 4x3 4x3
fn f716(a: Matrix<f64, 4, 3>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 4x3
fn f717(a: Matrix<f64, 4, 3>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 3, 4> { a.tr_mul(&b) } // yes: tr_mul 4x3 4x4
fn f718(a: Matrix<f64, 4, 3>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // no: dot 4x3 4x4
fn f719(a: Matrix<f64, 4, 3>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x3 4x4
fn f720(a: Matrix<f64, 4, 4>, b: Matrix<f64, 1, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // no: tr_mul 4x4 1x1
fn f721(a: Matrix<f64, 4, 4>, b: Matrix<f64, 1, 1>) -> f64 { a.dot(&b) } // no: dot 4x4 1x1
fn f722(a: Matrix<f64, 4, 4>, b: Matrix<f64, 1, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 1x1
fn f723(a: Matrix<f64, 4, 4>, b: Matrix<f64, 1, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // no: tr_mul 4x4 1x2
fn f724(a: Matrix<f64, 4, 4>, b: Matrix<f64, 1, 2>) -> f64 { a.dot(&b) } // no: dot 4x4 1x2
fn f725(a: Matrix<f64, 4, 4>, b: Matrix<f64, 1, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 1x2
fn f726(a: Matrix<f64, 4, 4>, b: Matrix<f64, 1, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // no: tr_mul 4x4 1x3
fn f727(a: Matrix<f64, 4, 4>, b: Matrix<f64, 1, 3>) -> f64 { a.dot(&b) } // no: dot 4x4 1x3
fn f728(a: Matrix<f64, 4, 4>, b: Matrix<f64, 1, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 1x3
fn f729(a: Matrix<f64, 4, 4>, b: Matrix<f64, 1, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // no: tr_mul 4x4 1x4
fn f730(a: Matrix<f64, 4, 4>, b: Matrix<f64, 1, 4>) -> f64 { a.dot(&b) } // no: dot 4x4 1x4
fn f731(a: Matrix<f64, 4, 4>, b: Matrix<f64, 1, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 1x4
fn f732(a: Matrix<f64, 4, 4>, b: Matrix<f64, 2, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // no: tr_mul 4x4 2x1
fn f733(a: Matrix<f64, 4, 4>, b: Matrix<f64, 2, 1>) -> f64 { a.dot(&b) } // no: dot 4x4 2x1
fn f734(a: Matrix<f64, 4, 4>, b: Matrix<f64, 2, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 2x1
fn f735(a: Matrix<f64, 4, 4>, b: Matrix<f64, 2, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // no: tr_mul 4x4 2x2
fn f736(a: Matrix<f64, 4, 4>, b: Matrix<f64, 2, 2>) -> f64 { a.dot(&b) } // no: dot 4x4 2x2
fn f737(a: Matrix<f64, 4, 4>, b: Matrix<f64, 2, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 2x2
fn f738(a: Matrix<f64, 4, 4>, b: Matrix<f64, 2, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // no: tr_mul 4x4 2x3
fn f739(a: Matrix<f64, 4, 4>, b: Matrix<f64, 2, 3>) -> f64 { a.dot(&b) } // no: dot 4x4 2x3
fn f740(a: Matrix<f64, 4, 4>, b: Matrix<f64, 2, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 2x3
fn f741(a: Matrix<f64, 4, 4>, b: Matrix<f64, 2, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // no: tr_mul 4x4 2x4
fn f742(a: Matrix<f64, 4, 4>, b: Matrix<f64, 2, 4>) -> f64 { a.dot(&b) } // no: dot 4x4 2x4
fn f743(a: Matrix<f64, 4, 4>, b: Matrix<f64, 2, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 2x4
fn f744(a: Matrix<f64, 4, 4>, b: Matrix<f64, 3, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // no: tr_mul 4x4 3x1
fn f745(a: Matrix<f64, 4, 4>, b: Matrix<f64, 3, 1>) -> f64 { a.dot(&b) } // no: dot 4x4 3x1
fn f746(a: Matrix<f64, 4, 4>, b: Matrix<f64, 3, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 3x1
fn f747(a: Matrix<f64, 4, 4>, b: Matrix<f64, 3, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // no: tr_mul 4x4 3x2
fn f748(a: Matrix<f64, 4, 4>, b: Matrix<f64, 3, 2>) -> f64 { a.dot(&b) } // no: dot 4x4 3x2
fn f749(a: Matrix<f64, 4, 4>, b: Matrix<f64, 3, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 3x2
fn f750(a: Matrix<f64, 4, 4>, b: Matrix<f64, 3, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // no: tr_mul 4x4 3x3
fn f751(a: Matrix<f64, 4, 4>, b: Matrix<f64, 3, 3>) -> f64 { a.dot(&b) } // no: dot 4x4 3x3
fn f752(a: Matrix<f64, 4, 4>, b: Matrix<f64, 3, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 3x3
fn f753(a: Matrix<f64, 4, 4>, b: Matrix<f64, 3, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // no: tr_mul 4x4 3x4
fn f754(a: Matrix<f64, 4, 4>, b: Matrix<f64, 3, 4>) -> f64 { a.dot(&b) } // no: dot 4x4 3x4
fn f755(a: Matrix<f64, 4, 4>, b: Matrix<f64, 3, 4>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 3x4
fn f756(a: Matrix<f64, 4, 4>, b: Matrix<f64, 4, 1>) -> Matrix<f64, 4, 1> { a.tr_mul(&b) } // yes: tr_mul 4x4 4x1
fn f757(a: Matrix<f64, 4, 4>, b: Matrix<f64, 4, 1>) -> f64 { a.dot(&b) } // no: dot 4x4 4x1
fn f758(a: Matrix<f64, 4, 4>, b: Matrix<f64, 4, 1>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 4x1
fn f759(a: Matrix<f64, 4, 4>, b: Matrix<f64, 4, 2>) -> Matrix<f64, 4, 2> { a.tr_mul(&b) } // yes: tr_mul 4x4 4x2
fn f760(a: Matrix<f64, 4, 4>, b: Matrix<f64, 4, 2>) -> f64 { a.dot(&b) } // no: dot 4x4 4x2
fn f761(a: Matrix<f64, 4, 4>, b: Matrix<f64, 4, 2>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 4x2
fn f762(a: Matrix<f64, 4, 4>, b: Matrix<f64, 4, 3>) -> Matrix<f64, 4, 3> { a.tr_mul(&b) } // yes: tr_mul 4x4 4x3
fn f763(a: Matrix<f64, 4, 4>, b: Matrix<f64, 4, 3>) -> f64 { a.dot(&b) } // no: dot 4x4 4x3
fn f764(a: Matrix<f64, 4, 4>, b: Matrix<f64, 4, 3>) -> f64 { a.tr_dot(&b) } // no: tr_dot 4x4 4x3
fn f765(a: Matrix<f64, 4, 4>, b: Matrix<f64, 4, 4>) -> Matrix<f64, 4, 4> { a.tr_mul(&b) } // yes: tr_mul 4x4 4x4
fn f766(a: Matrix<f64, 4, 4>, b: Matrix<f64, 4, 4>) -> f64 { a.dot(&b) } // yes: dot 4x4 4x4
fn f767(a: Matrix<f64, 4, 4>, b: Matrix<f64, 4, 4>) -> f64 { a.tr_dot(&b) } // yes: tr_dot 4x4 4x4
fn f768(v: Vector<f64, 1>) -> Vector<f64, 0> { v.extend(1.0) } // any: Vector extend 1 0
fn f769(v: Vector<f64, 1>) -> Vector<f64, 0> { v.contract() } // any: Vector contract 1 0
fn f770(v: Vector<f64, 1>) -> Vector<f64, 0> { v.to_homogeneous() } // any: Vector to_homogeneous 1 0
fn f771(v: Point<f64, 1>) -> Point<f64, 0> { v.extend(1.0) } // any: Point extend 1 0
fn f772(v: Point<f64, 1>) -> Point<f64, 0> { v.contract() } // any: Point contract 1 0
fn f773(v: Point<f64, 1>) -> Vector<f64, 0> { v.to_homogeneous() } // any: Point to_homogeneous 1 0
fn f774(v: Vector<f64, 1>) -> Option<Vector<f64, 0>> { v.from_homogeneous() } // any: Vector from_homogeneous 1 0
fn f775(v: Vector<f64, 0>) -> Option<Point<f64, 1>> { Point::<f64, 1>::from_homogeneous(&v) } // any: Point from_homogeneous 0 1
fn f776(v: Vector<f64, 0>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_nonuniform_scale(&v) } // any: from_affine_nonuniform_scale 0 1
fn f777(v: Vector<f64, 0>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_translation(&v) } // any: from_affine_translation 0 1
fn f778(v: Vector<f64, 1>) -> Vector<f64, 1> { v.extend(1.0) } // no: Vector extend 1 1
fn f779(v: Vector<f64, 1>) -> Vector<f64, 1> { v.contract() } // no: Vector contract 1 1
fn f780(v: Vector<f64, 1>) -> Vector<f64, 1> { v.to_homogeneous() } // no: Vector to_homogeneous 1 1
fn f781(v: Point<f64, 1>) -> Point<f64, 1> { v.extend(1.0) } // no: Point extend 1 1
fn f782(v: Point<f64, 1>) -> Point<f64, 1> { v.contract() } // no: Point contract 1 1
fn f783(v: Point<f64, 1>) -> Vector<f64, 1> { v.to_homogeneous() } // no: Point to_homogeneous 1 1
fn f784(v: Vector<f64, 1>) -> Option<Vector<f64, 1>> { v.from_homogeneous() } // no: Vector from_homogeneous 1 1
fn f785(v: Vector<f64, 1>) -> Option<Point<f64, 1>> { Point::<f64, 1>::from_homogeneous(&v) } // no: Point from_homogeneous 1 1
fn f786(v: Vector<f64, 1>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 1 1
fn f787(v: Vector<f64, 1>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_translation(&v) } // no: from_affine_translation 1 1
fn f788(v: Vector<f64, 1>) -> Vector<f64, 2> { v.extend(1.0) } // yes: Vector extend 1 2
fn f789(v: Vector<f64, 1>) -> Vector<f64, 2> { v.contract() } // no: Vector contract 1 2
fn f790(v: Vector<f64, 1>) -> Vector<f64, 2> { v.to_homogeneous() } // yes: Vector to_homogeneous 1 2
fn f791(v: Point<f64, 1>) -> Point<f64, 2> { v.extend(1.0) } // yes: Point extend 1 2
fn f792(v: Point<f64, 1>) -> Point<f64, 2> { v.contract() } // no: Point contract 1 2
fn f793(v: Point<f64, 1>) -> Vector<f64, 2> { v.to_homogeneous() } // yes: Point to_homogeneous 1 2
fn f794(v: Vector<f64, 1>) -> Option<Vector<f64, 2>> { v.from_homogeneous() } // no: Vector from_homogeneous 1 2
fn f795(v: Vector<f64, 2>) -> Option<Point<f64, 1>> { Point::<f64, 1>::from_homogeneous(&v) } // yes: Point from_homogeneous 2 1
fn f796(v: Vector<f64, 2>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 2 1
fn f797(v: Vector<f64, 2>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_translation(&v) } // no: from_affine_translation 2 1
fn f798(v: Vector<f64, 1>) -> Vector<f64, 3> { v.extend(1.0) } // no: Vector extend 1 3
fn f799(v: Vector<f64, 1>) -> Vector<f64, 3> { v.contract() } // no: Vector contract 1 3
fn f800(v: Vector<f64, 1>) -> Vector<f64, 3> { v.to_homogeneous() } // no: Vector to_homogeneous 1 3
fn f801(v: Point<f64, 1>) -> Point<f64, 3> { v.extend(1.0) } // no: Point extend 1 3
fn f802(v: Point<f64, 1>) -> Point<f64, 3> { v.contract() } // no: Point contract 1 3
fn f803(v: Point<f64, 1>) -> Vector<f64, 3> { v.to_homogeneous() } // no: Point to_homogeneous 1 3
fn f804(v: Vector<f64, 1>) -> Option<Vector<f64, 3>> { v.from_homogeneous() } // no: Vector from_homogeneous 1 3
fn f805(v: Vector<f64, 3>) -> Option<Point<f64, 1>> { Point::<f64, 1>::from_homogeneous(&v) } // no: Point from_homogeneous 3 1
fn f806(v: Vector<f64, 3>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 3 1
fn f807(v: Vector<f64, 3>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_translation(&v) } // no: from_affine_translation 3 1
fn f808(v: Vector<f64, 1>) -> Vector<f64, 4> { v.extend(1.0) } // no: Vector extend 1 4
fn f809(v: Vector<f64, 1>) -> Vector<f64, 4> { v.contract() } // no: Vector contract 1 4
fn f810(v: Vector<f64, 1>) -> Vector<f64, 4> { v.to_homogeneous() } // no: Vector to_homogeneous 1 4
fn f811(v: Point<f64, 1>) -> Point<f64, 4> { v.extend(1.0) } // no: Point extend 1 4
fn f812(v: Point<f64, 1>) -> Point<f64, 4> { v.contract() } // no: Point contract 1 4
fn f813(v: Point<f64, 1>) -> Vector<f64, 4> { v.to_homogeneous() } // no: Point to_homogeneous 1 4
fn f814(v: Vector<f64, 1>) -> Option<Vector<f64, 4>> { v.from_homogeneous() } // no: Vector from_homogeneous 1 4
fn f815(v: Vector<f64, 4>) -> Option<Point<f64, 1>> { Point::<f64, 1>::from_homogeneous(&v) } // no: Point from_homogeneous 4 1
fn f816(v: Vector<f64, 4>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 4 1
fn f817(v: Vector<f64, 4>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_translation(&v) } // no: from_affine_translation 4 1
fn f818(v: Vector<f64, 1>) -> Vector<f64, 5> { v.extend(1.0) } // no: Vector extend 1 5
fn f819(v: Vector<f64, 1>) -> Vector<f64, 5> { v.contract() } // no: Vector contract 1 5
fn f820(v: Vector<f64, 1>) -> Vector<f64, 5> { v.to_homogeneous() } // no: Vector to_homogeneous 1 5
fn f821(v: Point<f64, 1>) -> Point<f64, 5> { v.extend(1.0) } // no: Point extend 1 5
fn f822(v: Point<f64, 1>) -> Point<f64, 5> { v.contract() } // no: Point contract 1 5
fn f823(v: Point<f64, 1>) -> Vector<f64, 5> { v.to_homogeneous() } // no: Point to_homogeneous 1 5
fn f824(v: Vector<f64, 1>) -> Option<Vector<f64, 5>> { v.from_homogeneous() } // no: Vector from_homogeneous 1 5
fn f825(v: Vector<f64, 5>) -> Option<Point<f64, 1>> { Point::<f64, 1>::from_homogeneous(&v) } // no: Point from_homogeneous 5 1
fn f826(v: Vector<f64, 5>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 5 1
fn f827(v: Vector<f64, 5>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_translation(&v) } // no: from_affine_translation 5 1
fn f828(v: Vector<f64, 1>) -> Vector<f64, 6> { v.extend(1.0) } // no: Vector extend 1 6
fn f829(v: Vector<f64, 1>) -> Vector<f64, 6> { v.contract() } // no: Vector contract 1 6
fn f830(v: Vector<f64, 1>) -> Vector<f64, 6> { v.to_homogeneous() } // no: Vector to_homogeneous 1 6
fn f831(v: Point<f64, 1>) -> Point<f64, 6> { v.extend(1.0) } // no: Point extend 1 6
fn f832(v: Point<f64, 1>) -> Point<f64, 6> { v.contract() } // no: Point contract 1 6
fn f833(v: Point<f64, 1>) -> Vector<f64, 6> { v.to_homogeneous() } // no: Point to_homogeneous 1 6
fn f834(v: Vector<f64, 1>) -> Option<Vector<f64, 6>> { v.from_homogeneous() } // no: Vector from_homogeneous 1 6
fn f835(v: Vector<f64, 6>) -> Option<Point<f64, 1>> { Point::<f64, 1>::from_homogeneous(&v) } // no: Point from_homogeneous 6 1
fn f836(v: Vector<f64, 6>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 6 1
fn f837(v: Vector<f64, 6>) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from_affine_translation(&v) } // no: from_affine_translation 6 1
fn f838(v: Vector<f64, 2>) -> Vector<f64, 0> { v.extend(1.0) } // no: Vector extend 2 0
fn f839(v: Vector<f64, 2>) -> Vector<f64, 0> { v.contract() } // no: Vector contract 2 0
fn f840(v: Vector<f64, 2>) -> Vector<f64, 0> { v.to_homogeneous() } // no: Vector to_homogeneous 2 0
fn f841(v: Point<f64, 2>) -> Point<f64, 0> { v.extend(1.0) } // no: Point extend 2 0
fn f842(v: Point<f64, 2>) -> Point<f64, 0> { v.contract() } // no: Point contract 2 0
fn f843(v: Point<f64, 2>) -> Vector<f64, 0> { v.to_homogeneous() } // no: Point to_homogeneous 2 0
fn f844(v: Vector<f64, 2>) -> Option<Vector<f64, 0>> { v.from_homogeneous() } // no: Vector from_homogeneous 2 0
fn f845(v: Vector<f64, 0>) -> Option<Point<f64, 2>> { Point::<f64, 2>::from_homogeneous(&v) } // no: Point from_homogeneous 0 2
fn f846(v: Vector<f64, 0>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 0 2
fn f847(v: Vector<f64, 0>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_translation(&v) } // no: from_affine_translation 0 2
fn f848(v: Vector<f64, 2>) -> Vector<f64, 1> { v.extend(1.0) } // no: Vector extend 2 1
fn f849(v: Vector<f64, 2>) -> Vector<f64, 1> { v.contract() } // yes: Vector contract 2 1
fn f850(v: Vector<f64, 2>) -> Vector<f64, 1> { v.to_homogeneous() } // no: Vector to_homogeneous 2 1
fn f851(v: Point<f64, 2>) -> Point<f64, 1> { v.extend(1.0) } // no: Point extend 2 1
fn f852(v: Point<f64, 2>) -> Point<f64, 1> { v.contract() } // yes: Point contract 2 1
fn f853(v: Point<f64, 2>) -> Vector<f64, 1> { v.to_homogeneous() } // no: Point to_homogeneous 2 1
fn f854(v: Vector<f64, 2>) -> Option<Vector<f64, 1>> { v.from_homogeneous() } // yes: Vector from_homogeneous 2 1
fn f855(v: Vector<f64, 1>) -> Option<Point<f64, 2>> { Point::<f64, 2>::from_homogeneous(&v) } // no: Point from_homogeneous 1 2
fn f856(v: Vector<f64, 1>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_nonuniform_scale(&v) } // yes: from_affine_nonuniform_scale 1 2
fn f857(v: Vector<f64, 1>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_translation(&v) } // yes: from_affine_translation 1 2
fn f858(v: Vector<f64, 2>) -> Vector<f64, 2> { v.extend(1.0) } // no: Vector extend 2 2
fn f859(v: Vector<f64, 2>) -> Vector<f64, 2> { v.contract() } // no: Vector contract 2 2
fn f860(v: Vector<f64, 2>) -> Vector<f64, 2> { v.to_homogeneous() } // no: Vector to_homogeneous 2 2
fn f861(v: Point<f64, 2>) -> Point<f64, 2> { v.extend(1.0) } // no: Point extend 2 2
fn f862(v: Point<f64, 2>) -> Point<f64, 2> { v.contract() } // no: Point contract 2 2
fn f863(v: Point<f64, 2>) -> Vector<f64, 2> { v.to_homogeneous() } // no: Point to_homogeneous 2 2
fn f864(v: Vector<f64, 2>) -> Option<Vector<f64, 2>> { v.from_homogeneous() } // no: Vector from_homogeneous 2 2
fn f865(v: Vector<f64, 2>) -> Option<Point<f64, 2>> { Point::<f64, 2>::from_homogeneous(&v) } // no: Point from_homogeneous 2 2
fn f866(v: Vector<f64, 2>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 2 2
fn f867(v: Vector<f64, 2>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_translation(&v) } // no: from_affine_translation 2 2
fn f868(v: Vector<f64, 2>) -> Vector<f64, 3> { v.extend(1.0) } // yes: Vector extend 2 3
fn f869(v: Vector<f64, 2>) -> Vector<f64, 3> { v.contract() } // no: Vector contract 2 3
fn f870(v: Vector<f64, 2>) -> Vector<f64, 3> { v.to_homogeneous() } // yes: Vector to_homogeneous 2 3
fn f871(v: Point<f64, 2>) -> Point<f64, 3> { v.extend(1.0) } // yes: Point extend 2 3
fn f872(v: Point<f64, 2>) -> Point<f64, 3> { v.contract() } // no: Point contract 2 3
fn f873(v: Point<f64, 2>) -> Vector<f64, 3> { v.to_homogeneous() } // yes: Point to_homogeneous 2 3
fn f874(v: Vector<f64, 2>) -> Option<Vector<f64, 3>> { v.from_homogeneous() } // no: Vector from_homogeneous 2 3
fn f875(v: Vector<f64, 3>) -> Option<Point<f64, 2>> { Point::<f64, 2>::from_homogeneous(&v) } // yes: Point from_homogeneous 3 2
fn f876(v: Vector<f64, 3>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 3 2
fn f877(v: Vector<f64, 3>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_translation(&v) } // no: from_affine_translation 3 2
fn f878(v: Vector<f64, 2>) -> Vector<f64, 4> { v.extend(1.0) } // no: Vector extend 2 4
fn f879(v: Vector<f64, 2>) -> Vector<f64, 4> { v.contract() } // no: Vector contract 2 4
fn f880(v: Vector<f64, 2>) -> Vector<f64, 4> { v.to_homogeneous() } // no: Vector to_homogeneous 2 4
fn f881(v: Point<f64, 2>) -> Point<f64, 4> { v.extend(1.0) } // no: Point extend 2 4
fn f882(v: Point<f64, 2>) -> Point<f64, 4> { v.contract() } // no: Point contract 2 4
fn f883(v: Point<f64, 2>) -> Vector<f64, 4> { v.to_homogeneous() } // no: Point to_homogeneous 2 4
fn f884(v: Vector<f64, 2>) -> Option<Vector<f64, 4>> { v.from_homogeneous() } // no: Vector from_homogeneous 2 4
fn f885(v: Vector<f64, 4>) -> Option<Point<f64, 2>> { Point::<f64, 2>::from_homogeneous(&v) } // no: Point from_homogeneous 4 2
fn f886(v: Vector<f64, 4>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 4 2
fn f887(v: Vector<f64, 4>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_translation(&v) } // no: from_affine_translation 4 2
fn f888(v: Vector<f64, 2>) -> Vector<f64, 5> { v.extend(1.0) } // no: Vector extend 2 5
fn f889(v: Vector<f64, 2>) -> Vector<f64, 5> { v.contract() } // no: Vector contract 2 5
fn f890(v: Vector<f64, 2>) -> Vector<f64, 5> { v.to_homogeneous() } // no: Vector to_homogeneous 2 5
fn f891(v: Point<f64, 2>) -> Point<f64, 5> { v.extend(1.0) } // no: Point extend 2 5
fn f892(v: Point<f64, 2>) -> Point<f64, 5> { v.contract() } // no: Point contract 2 5
fn f893(v: Point<f64, 2>) -> Vector<f64, 5> { v.to_homogeneous() } // no: Point to_homogeneous 2 5
fn f894(v: Vector<f64, 2>) -> Option<Vector<f64, 5>> { v.from_homogeneous() } // no: Vector from_homogeneous 2 5
fn f895(v: Vector<f64, 5>) -> Option<Point<f64, 2>> { Point::<f64, 2>::from_homogeneous(&v) } // no: Point from_homogeneous 5 2
fn f896(v: Vector<f64, 5>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 5 2
fn f897(v: Vector<f64, 5>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_translation(&v) } // no: from_affine_translation 5 2
fn f898(v: Vector<f64, 2>) -> Vector<f64, 6> { v.extend(1.0) } // no: Vector extend 2 6
fn f899(v: Vector<f64, 2>) -> Vector<f64, 6> { v.contract() } // no: Vector contract 2 6
fn f900(v: Vector<f64, 2>) -> Vector<f64, 6> { v.to_homogeneous() } // no: Vector to_homogeneous 2 6
fn f901(v: Point<f64, 2>) -> Point<f64, 6> { v.extend(1.0) } // no: Point extend 2 6
fn f902(v: Point<f64, 2>) -> Point<f64, 6> { v.contract() } // no: Point contract 2 6
fn f903(v: Point<f64, 2>) -> Vector<f64, 6> { v.to_homogeneous() } // no: Point to_homogeneous 2 6
fn f904(v: Vector<f64, 2>) -> Option<Vector<f64, 6>> { v.from_homogeneous() } // no: Vector from_homogeneous 2 6
fn f905(v: Vector<f64, 6>) -> Option<Point<f64, 2>> { Point::<f64, 2>::from_homogeneous(&v) } // no: Point from_homogeneous 6 2
fn f906(v: Vector<f64, 6>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 6 2
fn f907(v: Vector<f64, 6>) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from_affine_translation(&v) } // no: from_affine_translation 6 2
fn f908(v: Vector<f64, 3>) -> Vector<f64, 0> { v.extend(1.0) } // no: Vector extend 3 0
fn f909(v: Vector<f64, 3>) -> Vector<f64, 0> { v.contract() } // no: Vector contract 3 0
fn f910(v: Vector<f64, 3>) -> Vector<f64, 0> { v.to_homogeneous() } // no: Vector to_homogeneous 3 0
fn f911(v: Point<f64, 3>) -> Point<f64, 0> { v.extend(1.0) } // no: Point extend 3 0
fn f912(v: Point<f64, 3>) -> Point<f64, 0> { v.contract() } // no: Point contract 3 0
fn f913(v: Point<f64, 3>) -> Vector<f64, 0> { v.to_homogeneous() } // no: Point to_homogeneous 3 0
fn f914(v: Vector<f64, 3>) -> Option<Vector<f64, 0>> { v.from_homogeneous() } // no: Vector from_homogeneous 3 0
fn f915(v: Vector<f64, 0>) -> Option<Point<f64, 3>> { Point::<f64, 3>::from_homogeneous(&v) } // no: Point from_homogeneous 0 3
fn f916(v: Vector<f64, 0>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 0 3
fn f917(v: Vector<f64, 0>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_translation(&v) } // no: from_affine_translation 0 3
fn f918(v: Vector<f64, 3>) -> Vector<f64, 1> { v.extend(1.0) } // no: Vector extend 3 1
fn f919(v: Vector<f64, 3>) -> Vector<f64, 1> { v.contract() } // no: Vector contract 3 1
fn f920(v: Vector<f64, 3>) -> Vector<f64, 1> { v.to_homogeneous() } // no: Vector to_homogeneous 3 1
fn f921(v: Point<f64, 3>) -> Point<f64, 1> { v.extend(1.0) } // no: Point extend 3 1
fn f922(v: Point<f64, 3>) -> Point<f64, 1> { v.contract() } // no: Point contract 3 1
fn f923(v: Point<f64, 3>) -> Vector<f64, 1> { v.to_homogeneous() } // no: Point to_homogeneous 3 1
fn f924(v: Vector<f64, 3>) -> Option<Vector<f64, 1>> { v.from_homogeneous() } // no: Vector from_homogeneous 3 1
fn f925(v: Vector<f64, 1>) -> Option<Point<f64, 3>> { Point::<f64, 3>::from_homogeneous(&v) } // no: Point from_homogeneous 1 3
fn f926(v: Vector<f64, 1>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 1 3
fn f927(v: Vector<f64, 1>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_translation(&v) } // no: from_affine_translation 1 3
fn f928(v: Vector<f64, 3>) -> Vector<f64, 2> { v.extend(1.0) } // no: Vector extend 3 2
fn f929(v: Vector<f64, 3>) -> Vector<f64, 2> { v.contract() } // yes: Vector contract 3 2
fn f930(v: Vector<f64, 3>) -> Vector<f64, 2> { v.to_homogeneous() } // no: Vector to_homogeneous 3 2
fn f931(v: Point<f64, 3>) -> Point<f64, 2> { v.extend(1.0) } // no: Point extend 3 2
fn f932(v: Point<f64, 3>) -> Point<f64, 2> { v.contract() } // yes: Point contract 3 2
fn f933(v: Point<f64, 3>) -> Vector<f64, 2> { v.to_homogeneous() } // no: Point to_homogeneous 3 2
fn f934(v: Vector<f64, 3>) -> Option<Vector<f64, 2>> { v.from_homogeneous() } // yes: Vector from_homogeneous 3 2
fn f935(v: Vector<f64, 2>) -> Option<Point<f64, 3>> { Point::<f64, 3>::from_homogeneous(&v) } // no: Point from_homogeneous 2 3
fn f936(v: Vector<f64, 2>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_nonuniform_scale(&v) } // yes: from_affine_nonuniform_scale 2 3
fn f937(v: Vector<f64, 2>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_translation(&v) } // yes: from_affine_translation 2 3
fn f938(v: Vector<f64, 3>) -> Vector<f64, 3> { v.extend(1.0) } // no: Vector extend 3 3
fn f939(v: Vector<f64, 3>) -> Vector<f64, 3> { v.contract() } // no: Vector contract 3 3
fn f940(v: Vector<f64, 3>) -> Vector<f64, 3> { v.to_homogeneous() } // no: Vector to_homogeneous 3 3
fn f941(v: Point<f64, 3>) -> Point<f64, 3> { v.extend(1.0) } // no: Point extend 3 3
fn f942(v: Point<f64, 3>) -> Point<f64, 3> { v.contract() } // no: Point contract 3 3
fn f943(v: Point<f64, 3>) -> Vector<f64, 3> { v.to_homogeneous() } // no: Point to_homogeneous 3 3
fn f944(v: Vector<f64, 3>) -> Option<Vector<f64, 3>> { v.from_homogeneous() } // no: Vector from_homogeneous 3 3
fn f945(v: Vector<f64, 3>) -> Option<Point<f64, 3>> { Point::<f64, 3>::from_homogeneous(&v) } // no: Point from_homogeneous 3 3
fn f946(v: Vector<f64, 3>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 3 3
fn f947(v: Vector<f64, 3>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_translation(&v) } // no: from_affine_translation 3 3
fn f948(v: Vector<f64, 3>) -> Vector<f64, 4> { v.extend(1.0) } // yes: Vector extend 3 4
fn f949(v: Vector<f64, 3>) -> Vector<f64, 4> { v.contract() } // no: Vector contract 3 4
fn f950(v: Vector<f64, 3>) -> Vector<f64, 4> { v.to_homogeneous() } // yes: Vector to_homogeneous 3 4
fn f951(v: Point<f64, 3>) -> Point<f64, 4> { v.extend(1.0) } // yes: Point extend 3 4
fn f952(v: Point<f64, 3>) -> Point<f64, 4> { v.contract() } // no: Point contract 3 4
fn f953(v: Point<f64, 3>) -> Vector<f64, 4> { v.to_homogeneous() } // yes: Point to_homogeneous 3 4
fn f954(v: Vector<f64, 3>) -> Option<Vector<f64, 4>> { v.from_homogeneous() } // no: Vector from_homogeneous 3 4
fn f955(v: Vector<f64, 4>) -> Option<Point<f64, 3>> { Point::<f64, 3>::from_homogeneous(&v) } // yes: Point from_homogeneous 4 3
fn f956(v: Vector<f64, 4>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 4 3
fn f957(v: Vector<f64, 4>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_translation(&v) } // no: from_affine_translation 4 3
fn f958(v: Vector<f64, 3>) -> Vector<f64, 5> { v.extend(1.0) } // no: Vector extend 3 5
fn f959(v: Vector<f64, 3>) -> Vector<f64, 5> { v.contract() } // no: Vector contract 3 5
fn f960(v: Vector<f64, 3>) -> Vector<f64, 5> { v.to_homogeneous() } // no: Vector to_homogeneous 3 5
fn f961(v: Point<f64, 3>) -> Point<f64, 5> { v.extend(1.0) } // no: Point extend 3 5
fn f962(v: Point<f64, 3>) -> Point<f64, 5> { v.contract() } // no: Point contract 3 5
fn f963(v: Point<f64, 3>) -> Vector<f64, 5> { v.to_homogeneous() } // no: Point to_homogeneous 3 5
fn f964(v: Vector<f64, 3>) -> Option<Vector<f64, 5>> { v.from_homogeneous() } // no: Vector from_homogeneous 3 5
fn f965(v: Vector<f64, 5>) -> Option<Point<f64, 3>> { Point::<f64, 3>::from_homogeneous(&v) } // no: Point from_homogeneous 5 3
fn f966(v: Vector<f64, 5>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 5 3
fn f967(v: Vector<f64, 5>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_translation(&v) } // no: from_affine_translation 5 3
fn f968(v: Vector<f64, 3>) -> Vector<f64, 6> { v.extend(1.0) } // no: Vector extend 3 6
fn f969(v: Vector<f64, 3>) -> Vector<f64, 6> { v.contract() } // no: Vector contract 3 6
fn f970(v: Vector<f64, 3>) -> Vector<f64, 6> { v.to_homogeneous() } // no: Vector to_homogeneous 3 6
fn f971(v: Point<f64, 3>) -> Point<f64, 6> { v.extend(1.0) } // no: Point extend 3 6
fn f972(v: Point<f64, 3>) -> Point<f64, 6> { v.contract() } // no: Point contract 3 6
fn f973(v: Point<f64, 3>) -> Vector<f64, 6> { v.to_homogeneous() } // no: Point to_homogeneous 3 6
fn f974(v: Vector<f64, 3>) -> Option<Vector<f64, 6>> { v.from_homogeneous() } // no: Vector from_homogeneous 3 6
fn f975(v: Vector<f64, 6>) -> Option<Point<f64, 3>> { Point::<f64, 3>::from_homogeneous(&v) } // no: Point from_homogeneous 6 3
fn f976(v: Vector<f64, 6>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 6 3
fn f977(v: Vector<f64, 6>) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from_affine_translation(&v) } // no: from_affine_translation 6 3
fn f978(v: Vector<f64, 4>) -> Vector<f64, 0> { v.extend(1.0) } // no: Vector extend 4 0
fn f979(v: Vector<f64, 4>) -> Vector<f64, 0> { v.contract() } // no: Vector contract 4 0
fn f980(v: Vector<f64, 4>) -> Vector<f64, 0> { v.to_homogeneous() } // no: Vector to_homogeneous 4 0
fn f981(v: Point<f64, 4>) -> Point<f64, 0> { v.extend(1.0) } // no: Point extend 4 0
fn f982(v: Point<f64, 4>) -> Point<f64, 0> { v.contract() } // no: Point contract 4 0
fn f983(v: Point<f64, 4>) -> Vector<f64, 0> { v.to_homogeneous() } // no: Point to_homogeneous 4 0
fn f984(v: Vector<f64, 4>) -> Option<Vector<f64, 0>> { v.from_homogeneous() } // no: Vector from_homogeneous 4 0
fn f985(v: Vector<f64, 0>) -> Option<Point<f64, 4>> { Point::<f64, 4>::from_homogeneous(&v) } // no: Point from_homogeneous 0 4
fn f986(v: Vector<f64, 0>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 0 4
fn f987(v: Vector<f64, 0>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_translation(&v) } // no: from_affine_translation 0 4
fn f988(v: Vector<f64, 4>) -> Vector<f64, 1> { v.extend(1.0) } // no: Vector extend 4 1
fn f989(v: Vector<f64, 4>) -> Vector<f64, 1> { v.contract() } // no: Vector contract 4 1
fn f990(v: Vector<f64, 4>) -> Vector<f64, 1> { v.to_homogeneous() } // no: Vector to_homogeneous 4 1
fn f991(v: Point<f64, 4>) -> Point<f64, 1> { v.extend(1.0) } // no: Point extend 4 1
fn f992(v: Point<f64, 4>) -> Point<f64, 1> { v.contract() } // no: Point contract 4 1
fn f993(v: Point<f64, 4>) -> Vector<f64, 1> { v.to_homogeneous() } // no: Point to_homogeneous 4 1
fn f994(v: Vector<f64, 4>) -> Option<Vector<f64, 1>> { v.from_homogeneous() } // no: Vector from_homogeneous 4 1
fn f995(v: Vector<f64, 1>) -> Option<Point<f64, 4>> { Point::<f64, 4>::from_homogeneous(&v) } // no: Point from_homogeneous 1 4
fn f996(v: Vector<f64, 1>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 1 4
fn f997(v: Vector<f64, 1>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_translation(&v) } // no: from_affine_translation 1 4
fn f998(v: Vector<f64, 4>) -> Vector<f64, 2> { v.extend(1.0) } // no: Vector extend 4 2
fn f999(v: Vector<f64, 4>) -> Vector<f64, 2> { v.contract() } // no: Vector contract 4 2
fn f1000(v: Vector<f64, 4>) -> Vector<f64, 2> { v.to_homogeneous() } // no: Vector to_homogeneous 4 2
fn f1001(v: Point<f64, 4>) -> Point<f64, 2> { v.extend(1.0) } // no: Point extend 4 2
fn f1002(v: Point<f64, 4>) -> Point<f64, 2> { v.contract() } // no: Point contract 4 2
fn f1003(v: Point<f64, 4>) -> Vector<f64, 2> { v.to_homogeneous() } // no: Point to_homogeneous 4 2
fn f1004(v: Vector<f64, 4>) -> Option<Vector<f64, 2>> { v.from_homogeneous() } // no: Vector from_homogeneous 4 2
fn f1005(v: Vector<f64, 2>) -> Option<Point<f64, 4>> { Point::<f64, 4>::from_homogeneous(&v) } // no: Point from_homogeneous 2 4
fn f1006(v: Vector<f64, 2>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 2 4
fn f1007(v: Vector<f64, 2>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_translation(&v) } // no: from_affine_translation 2 4
fn f1008(v: Vector<f64, 4>) -> Vector<f64, 3> { v.extend(1.0) } // no: Vector extend 4 3
fn f1009(v: Vector<f64, 4>) -> Vector<f64, 3> { v.contract() } // yes: Vector contract 4 3
fn f1010(v: Vector<f64, 4>) -> Vector<f64, 3> { v.to_homogeneous() } // no: Vector to_homogeneous 4 3
fn f1011(v: Point<f64, 4>) -> Point<f64, 3> { v.extend(1.0) } // no: Point extend 4 3
fn f1012(v: Point<f64, 4>) -> Point<f64, 3> { v.contract() } // yes: Point contract 4 3
fn f1013(v: Point<f64, 4>) -> Vector<f64, 3> { v.to_homogeneous() } // no: Point to_homogeneous 4 3
fn f1014(v: Vector<f64, 4>) -> Option<Vector<f64, 3>> { v.from_homogeneous() } // yes: Vector from_homogeneous 4 3
fn f1015(v: Vector<f64, 3>) -> Option<Point<f64, 4>> { Point::<f64, 4>::from_homogeneous(&v) } // no: Point from_homogeneous 3 4
fn f1016(v: Vector<f64, 3>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_nonuniform_scale(&v) } // yes: from_affine_nonuniform_scale 3 4
fn f1017(v: Vector<f64, 3>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_translation(&v) } // yes: from_affine_translation 3 4
fn f1018(v: Vector<f64, 4>) -> Vector<f64, 4> { v.extend(1.0) } // no: Vector extend 4 4
fn f1019(v: Vector<f64, 4>) -> Vector<f64, 4> { v.contract() } // no: Vector contract 4 4
fn f1020(v: Vector<f64, 4>) -> Vector<f64, 4> { v.to_homogeneous() } // no: Vector to_homogeneous 4 4
fn f1021(v: Point<f64, 4>) -> Point<f64, 4> { v.extend(1.0) } // no: Point extend 4 4
fn f1022(v: Point<f64, 4>) -> Point<f64, 4> { v.contract() } // no: Point contract 4 4
fn f1023(v: Point<f64, 4>) -> Vector<f64, 4> { v.to_homogeneous() } // no: Point to_homogeneous 4 4
fn f1024(v: Vector<f64, 4>) -> Option<Vector<f64, 4>> { v.from_homogeneous() } // no: Vector from_homogeneous 4 4
fn f1025(v: Vector<f64, 4>) -> Option<Point<f64, 4>> { Point::<f64, 4>::from_homogeneous(&v) } // no: Point from_homogeneous 4 4
fn f1026(v: Vector<f64, 4>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 4 4
fn f1027(v: Vector<f64, 4>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_translation(&v) } // no: from_affine_translation 4 4
fn f1028(v: Vector<f64, 4>) -> Vector<f64, 5> { v.extend(1.0) } // any: Vector extend 4 5
fn f1029(v: Vector<f64, 4>) -> Vector<f64, 5> { v.contract() } // any: Vector contract 4 5
fn f1030(v: Vector<f64, 4>) -> Vector<f64, 5> { v.to_homogeneous() } // any: Vector to_homogeneous 4 5
fn f1031(v: Point<f64, 4>) -> Point<f64, 5> { v.extend(1.0) } // any: Point extend 4 5
fn f1032(v: Point<f64, 4>) -> Point<f64, 5> { v.contract() } // any: Point contract 4 5
fn f1033(v: Point<f64, 4>) -> Vector<f64, 5> { v.to_homogeneous() } // any: Point to_homogeneous 4 5
fn f1034(v: Vector<f64, 4>) -> Option<Vector<f64, 5>> { v.from_homogeneous() } // any: Vector from_homogeneous 4 5
fn f1035(v: Vector<f64, 5>) -> Option<Point<f64, 4>> { Point::<f64, 4>::from_homogeneous(&v) } // any: Point from_homogeneous 5 4
fn f1036(v: Vector<f64, 5>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_nonuniform_scale(&v) } // any: from_affine_nonuniform_scale 5 4
fn f1037(v: Vector<f64, 5>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_translation(&v) } // any: from_affine_translation 5 4
fn f1038(v: Vector<f64, 4>) -> Vector<f64, 6> { v.extend(1.0) } // no: Vector extend 4 6
fn f1039(v: Vector<f64, 4>) -> Vector<f64, 6> { v.contract() } // no: Vector contract 4 6
fn f1040(v: Vector<f64, 4>) -> Vector<f64, 6> { v.to_homogeneous() } // no: Vector to_homogeneous 4 6
fn f1041(v: Point<f64, 4>) -> Point<f64, 6> { v.extend(1.0) } // no: Point extend 4 6
fn f1042(v: Point<f64, 4>) -> Point<f64, 6> { v.contract() } // no: Point contract 4 6
fn f1043(v: Point<f64, 4>) -> Vector<f64, 6> { v.to_homogeneous() } // no: Point to_homogeneous 4 6
fn f1044(v: Vector<f64, 4>) -> Option<Vector<f64, 6>> { v.from_homogeneous() } // no: Vector from_homogeneous 4 6
fn f1045(v: Vector<f64, 6>) -> Option<Point<f64, 4>> { Point::<f64, 4>::from_homogeneous(&v) } // no: Point from_homogeneous 6 4
fn f1046(v: Vector<f64, 6>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_nonuniform_scale(&v) } // no: from_affine_nonuniform_scale 6 4
fn f1047(v: Vector<f64, 6>) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from_affine_translation(&v) } // no: from_affine_translation 6 4
fn f1048(a: [f64; 0]) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from(a) } // no: from-array 1x1 0
fn f1049(a: &[f64; 0]) -> &Matrix<f64, 1, 1> { a.into() } // no: from-array-ref 1x1 0
fn f1050(m: &Matrix<f64, 1, 1>) -> &[f64; 0] { m.as_ref() } // no: as-ref 1x1 0
fn f1051(m: &mut Matrix<f64, 1, 1>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 1x1 0
fn f1052(a: [f64; 1]) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from(a) } // yes: from-array 1x1 1
fn f1053(a: &[f64; 1]) -> &Matrix<f64, 1, 1> { a.into() } // yes: from-array-ref 1x1 1
fn f1054(m: &Matrix<f64, 1, 1>) -> &[f64; 1] { m.as_ref() } // yes: as-ref 1x1 1
fn f1055(m: &mut Matrix<f64, 1, 1>) -> &mut [f64; 1] { m.as_mut() } // yes: as-mut 1x1 1
fn f1056(a: [f64; 2]) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from(a) } // no: from-array 1x1 2
fn f1057(a: &[f64; 2]) -> &Matrix<f64, 1, 1> { a.into() } // no: from-array-ref 1x1 2
fn f1058(m: &Matrix<f64, 1, 1>) -> &[f64; 2] { m.as_ref() } // no: as-ref 1x1 2
fn f1059(m: &mut Matrix<f64, 1, 1>) -> &mut [f64; 2] { m.as_mut() } // no: as-mut 1x1 2
fn f1060(a: [f64; 16]) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from(a) } // no: from-array 1x1 16
fn f1061(a: &[f64; 16]) -> &Matrix<f64, 1, 1> { a.into() } // no: from-array-ref 1x1 16
fn f1062(m: &Matrix<f64, 1, 1>) -> &[f64; 16] { m.as_ref() } // no: as-ref 1x1 16
fn f1063(m: &mut Matrix<f64, 1, 1>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 1x1 16
fn f1064(a: [f64; 17]) -> Matrix<f64, 1, 1> { Matrix::<f64, 1, 1>::from(a) } // no: from-array 1x1 17
fn f1065(a: &[f64; 17]) -> &Matrix<f64, 1, 1> { a.into() } // no: from-array-ref 1x1 17
fn f1066(m: &Matrix<f64, 1, 1>) -> &[f64; 17] { m.as_ref() } // no: as-ref 1x1 17
fn f1067(m: &mut Matrix<f64, 1, 1>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 1x1 17
fn f1068(a: [f64; 0]) -> Matrix<f64, 1, 2> { Matrix::<f64, 1, 2>::from(a) } // no: from-array 1x2 0
fn f1069(a: &[f64; 0]) -> &Matrix<f64, 1, 2> { a.into() } // no: from-array-ref 1x2 0
fn f1070(m: &Matrix<f64, 1, 2>) -> &[f64; 0] { m.as_ref() } // no: as-ref 1x2 0
fn f1071(m: &mut Matrix<f64, 1, 2>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 1x2 0
fn f1072(a: [f64; 1]) -> Matrix<f64, 1, 2> { Matrix::<f64, 1, 2>::from(a) } // no: from-array 1x2 1
fn f1073(a: &[f64; 1]) -> &Matrix<f64, 1, 2> { a.into() } // no: from-array-ref 1x2 1
fn f1074(m: &Matrix<f64, 1, 2>) -> &[f64; 1] { m.as_ref() } // no: as-ref 1x2 1
fn f1075(m: &mut Matrix<f64, 1, 2>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 1x2 1
fn f1076(a: [f64; 2]) -> Matrix<f64, 1, 2> { Matrix::<f64, 1, 2>::from(a) } // yes: from-array 1x2 2
fn f1077(a: &[f64; 2]) -> &Matrix<f64, 1, 2> { a.into() } // yes: from-array-ref 1x2 2
fn f1078(m: &Matrix<f64, 1, 2>) -> &[f64; 2] { m.as_ref() } // yes: as-ref 1x2 2
fn f1079(m: &mut Matrix<f64, 1, 2>) -> &mut [f64; 2] { m.as_mut() } // yes: as-mut 1x2 2
fn f1080(a: [f64; 3]) -> Matrix<f64, 1, 2> { Matrix::<f64, 1, 2>::from(a) } // no: from-array 1x2 3
fn f1081(a: &[f64; 3]) -> &Matrix<f64, 1, 2> { a.into() } // no: from-array-ref 1x2 3
fn f1082(m: &Matrix<f64, 1, 2>) -> &[f64; 3] { m.as_ref() } // no: as-ref 1x2 3
fn f1083(m: &mut Matrix<f64, 1, 2>) -> &mut [f64; 3] { m.as_mut() } // no: as-mut 1x2 3
fn f1084(a: [f64; 4]) -> Matrix<f64, 1, 2> { Matrix::<f64, 1, 2>::from(a) } // no: from-array 1x2 4
fn f1085(a: &[f64; 4]) -> &Matrix<f64, 1, 2> { a.into() } // no: from-array-ref 1x2 4
fn f1086(m: &Matrix<f64, 1, 2>) -> &[f64; 4] { m.as_ref() } // no: as-ref 1x2 4
fn f1087(m: &mut Matrix<f64, 1, 2>) -> &mut [f64; 4] { m.as_mut() } // no: as-mut 1x2 4
fn f1088(a: [f64; 16]) -> Matrix<f64, 1, 2> { Matrix::<f64, 1, 2>::from(a) } // no: from-array 1x2 16
fn f1089(a: &[f64; 16]) -> &Matrix<f64, 1, 2> { a.into() } // no: from-array-ref 1x2 16
fn f1090(m: &Matrix<f64, 1, 2>) -> &[f64; 16] { m.as_ref() } // no: as-ref 1x2 16
fn f1091(m: &mut Matrix<f64, 1, 2>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 1x2 16
fn f1092(a: [f64; 17]) -> Matrix<f64, 1, 2> { Matrix::<f64, 1, 2>::from(a) } // no: from-array 1x2 17
fn f1093(a: &[f64; 17]) -> &Matrix<f64, 1, 2> { a.into() } // no: from-array-ref 1x2 17
fn f1094(m: &Matrix<f64, 1, 2>) -> &[f64; 17] { m.as_ref() } // no: as-ref 1x2 17
fn f1095(m: &mut Matrix<f64, 1, 2>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 1x2 17
fn f1096(a: [f64; 0]) -> Matrix<f64, 1, 3> { Matrix::<f64, 1, 3>::from(a) } // no: from-array 1x3 0
fn f1097(a: &[f64; 0]) -> &Matrix<f64, 1, 3> { a.into() } // no: from-array-ref 1x3 0
fn f1098(m: &Matrix<f64, 1, 3>) -> &[f64; 0] { m.as_ref() } // no: as-ref 1x3 0
fn f1099(m: &mut Matrix<f64, 1, 3>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 1x3 0
fn f1100(a: [f64; 1]) -> Matrix<f64, 1, 3> { Matrix::<f64, 1, 3>::from(a) } // no: from-array 1x3 1
fn f1101(a: &[f64; 1]) -> &Matrix<f64, 1, 3> { a.into() } // no: from-array-ref 1x3 1
fn f1102(m: &Matrix<f64, 1, 3>) -> &[f64; 1] { m.as_ref() } // no: as-ref 1x3 1
fn f1103(m: &mut Matrix<f64, 1, 3>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 1x3 1
fn f1104(a: [f64; 2]) -> Matrix<f64, 1, 3> { Matrix::<f64, 1, 3>::from(a) } // no: from-array 1x3 2
fn f1105(a: &[f64; 2]) -> &Matrix<f64, 1, 3> { a.into() } // no: from-array-ref 1x3 2
fn f1106(m: &Matrix<f64, 1, 3>) -> &[f64; 2] { m.as_ref() } // no: as-ref 1x3 2
fn f1107(m: &mut Matrix<f64, 1, 3>) -> &mut [f64; 2] { m.as_mut() } // no: as-mut 1x3 2
fn f1108(a: [f64; 3]) -> Matrix<f64, 1, 3> { Matrix::<f64, 1, 3>::from(a) } // yes: from-array 1x3 3
fn f1109(a: &[f64; 3]) -> &Matrix<f64, 1, 3> { a.into() } // yes: from-array-ref 1x3 3
fn f1110(m: &Matrix<f64, 1, 3>) -> &[f64; 3] { m.as_ref() } // yes: as-ref 1x3 3
fn f1111(m: &mut Matrix<f64, 1, 3>) -> &mut [f64; 3] { m.as_mut() } // yes: as-mut 1x3 3
fn f1112(a: [f64; 4]) -> Matrix<f64, 1, 3> { Matrix::<f64, 1, 3>::from(a) } // no: from-array 1x3 4
fn f1113(a: &[f64; 4]) -> &Matrix<f64, 1, 3> { a.into() } // no: from-array-ref 1x3 4
fn f1114(m: &Matrix<f64, 1, 3>) -> &[f64; 4] { m.as_ref() } // no: as-ref 1x3 4
fn f1115(m: &mut Matrix<f64, 1, 3>) -> &mut [f64; 4] { m.as_mut() } // no: as-mut 1x3 4
fn f1116(a: [f64; 9]) -> Matrix<f64, 1, 3> { Matrix::<f64, 1, 3>::from(a) } // no: from-array 1x3 9
fn f1117(a: &[f64; 9]) -> &Matrix<f64, 1, 3> { a.into() } // no: from-array-ref 1x3 9
fn f1118(m: &Matrix<f64, 1, 3>) -> &[f64; 9] { m.as_ref() } // no: as-ref 1x3 9
fn f1119(m: &mut Matrix<f64, 1, 3>) -> &mut [f64; 9] { m.as_mut() } // no: as-mut 1x3 9
fn f1120(a: [f64; 16]) -> Matrix<f64, 1, 3> { Matrix::<f64, 1, 3>::from(a) } // no: from-array 1x3 16
fn f1121(a: &[f64; 16]) -> &Matrix<f64, 1, 3> { a.into() } // no: from-array-ref 1x3 16
fn f1122(m: &Matrix<f64, 1, 3>) -> &[f64; 16] { m.as_ref() } // no: as-ref 1x3 16
fn f1123(m: &mut Matrix<f64, 1, 3>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 1x3 16
fn f1124(a: [f64; 17]) -> Matrix<f64, 1, 3> { Matrix::<f64, 1, 3>::from(a) } // no: from-array 1x3 17
fn f1125(a: &[f64; 17]) -> &Matrix<f64, 1, 3> { a.into() } // no: from-array-ref 1x3 17
fn f1126(m: &Matrix<f64, 1, 3>) -> &[f64; 17] { m.as_ref() } // no: as-ref 1x3 17
fn f1127(m: &mut Matrix<f64, 1, 3>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 1x3 17
fn f1128(a: [f64; 0]) -> Matrix<f64, 1, 4> { Matrix::<f64, 1, 4>::from(a) } // no: from-array 1x4 0
fn f1129(a: &[f64; 0]) -> &Matrix<f64, 1, 4> { a.into() } // no: from-array-ref 1x4 0
fn f1130(m: &Matrix<f64, 1, 4>) -> &[f64; 0] { m.as_ref() } // no: as-ref 1x4 0
fn f1131(m: &mut Matrix<f64, 1, 4>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 1x4 0
fn f1132(a: [f64; 1]) -> Matrix<f64, 1, 4> { Matrix::<f64, 1, 4>::from(a) } // no: from-array 1x4 1
fn f1133(a: &[f64; 1]) -> &Matrix<f64, 1, 4> { a.into() } // no: from-array-ref 1x4 1
fn f1134(m: &Matrix<f64, 1, 4>) -> &[f64; 1] { m.as_ref() } // no: as-ref 1x4 1
fn f1135(m: &mut Matrix<f64, 1, 4>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 1x4 1
fn f1136(a: [f64; 3]) -> Matrix<f64, 1, 4> { Matrix::<f64, 1, 4>::from(a) } // no: from-array 1x4 3
fn f1137(a: &[f64; 3]) -> &Matrix<f64, 1, 4> { a.into() } // no: from-array-ref 1x4 3
fn f1138(m: &Matrix<f64, 1, 4>) -> &[f64; 3] { m.as_ref() } // no: as-ref 1x4 3
fn f1139(m: &mut Matrix<f64, 1, 4>) -> &mut [f64; 3] { m.as_mut() } // no: as-mut 1x4 3
fn f1140(a: [f64; 4]) -> Matrix<f64, 1, 4> { Matrix::<f64, 1, 4>::from(a) } // yes: from-array 1x4 4
fn f1141(a: &[f64; 4]) -> &Matrix<f64, 1, 4> { a.into() } // yes: from-array-ref 1x4 4
fn f1142(m: &Matrix<f64, 1, 4>) -> &[f64; 4] { m.as_ref() } // yes: as-ref 1x4 4
fn f1143(m: &mut Matrix<f64, 1, 4>) -> &mut [f64; 4] { m.as_mut() } // yes: as-mut 1x4 4
fn f1144(a: [f64; 5]) -> Matrix<f64, 1, 4> { Matrix::<f64, 1, 4>::from(a) } // no: from-array 1x4 5
fn f1145(a: &[f64; 5]) -> &Matrix<f64, 1, 4> { a.into() } // no: from-array-ref 1x4 5
fn f1146(m: &Matrix<f64, 1, 4>) -> &[f64; 5] { m.as_ref() } // no: as-ref 1x4 5
fn f1147(m: &mut Matrix<f64, 1, 4>) -> &mut [f64; 5] { m.as_mut() } // no: as-mut 1x4 5
fn f1148(a: [f64; 16]) -> Matrix<f64, 1, 4> { Matrix::<f64, 1, 4>::from(a) } // no: from-array 1x4 16
fn f1149(a: &[f64; 16]) -> &Matrix<f64, 1, 4> { a.into() } // no: from-array-ref 1x4 16
fn f1150(m: &Matrix<f64, 1, 4>) -> &[f64; 16] { m.as_ref() } // no: as-ref 1x4 16
fn f1151(m: &mut Matrix<f64, 1, 4>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 1x4 16
fn f1152(a: [f64; 17]) -> Matrix<f64, 1, 4> { Matrix::<f64, 1, 4>::from(a) } // no: from-array 1x4 17
fn f1153(a: &[f64; 17]) -> &Matrix<f64, 1, 4> { a.into() } // no: from-array-ref 1x4 17
fn f1154(m: &Matrix<f64, 1, 4>) -> &[f64; 17] { m.as_ref() } // no: as-ref 1x4 17
fn f1155(m: &mut Matrix<f64, 1, 4>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 1x4 17
fn f1156(a: [f64; 0]) -> Matrix<f64, 2, 1> { Matrix::<f64, 2, 1>::from(a) } // no: from-array 2x1 0
fn f1157(a: &[f64; 0]) -> &Matrix<f64, 2, 1> { a.into() } // no: from-array-ref 2x1 0
fn f1158(m: &Matrix<f64, 2, 1>) -> &[f64; 0] { m.as_ref() } // no: as-ref 2x1 0
fn f1159(m: &mut Matrix<f64, 2, 1>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 2x1 0
fn f1160(a: [f64; 1]) -> Matrix<f64, 2, 1> { Matrix::<f64, 2, 1>::from(a) } // no: from-array 2x1 1
fn f1161(a: &[f64; 1]) -> &Matrix<f64, 2, 1> { a.into() } // no: from-array-ref 2x1 1
fn f1162(m: &Matrix<f64, 2, 1>) -> &[f64; 1] { m.as_ref() } // no: as-ref 2x1 1
fn f1163(m: &mut Matrix<f64, 2, 1>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 2x1 1
fn f1164(a: [f64; 2]) -> Matrix<f64, 2, 1> { Matrix::<f64, 2, 1>::from(a) } // yes: from-array 2x1 2
fn f1165(a: &[f64; 2]) -> &Matrix<f64, 2, 1> { a.into() } // yes: from-array-ref 2x1 2
fn f1166(m: &Matrix<f64, 2, 1>) -> &[f64; 2] { m.as_ref() } // yes: as-ref 2x1 2
fn f1167(m: &mut Matrix<f64, 2, 1>) -> &mut [f64; 2] { m.as_mut() } // yes: as-mut 2x1 2
fn f1168(a: [f64; 3]) -> Matrix<f64, 2, 1> { Matrix::<f64, 2, 1>::from(a) } // no: from-array 2x1 3
fn f1169(a: &[f64; 3]) -> &Matrix<f64, 2, 1> { a.into() } // no: from-array-ref 2x1 3
fn f1170(m: &Matrix<f64, 2, 1>) -> &[f64; 3] { m.as_ref() } // no: as-ref 2x1 3
fn f1171(m: &mut Matrix<f64, 2, 1>) -> &mut [f64; 3] { m.as_mut() } // no: as-mut 2x1 3
fn f1172(a: [f64; 4]) -> Matrix<f64, 2, 1> { Matrix::<f64, 2, 1>::from(a) } // no: from-array 2x1 4
fn f1173(a: &[f64; 4]) -> &Matrix<f64, 2, 1> { a.into() } // no: from-array-ref 2x1 4
fn f1174(m: &Matrix<f64, 2, 1>) -> &[f64; 4] { m.as_ref() } // no: as-ref 2x1 4
fn f1175(m: &mut Matrix<f64, 2, 1>) -> &mut [f64; 4] { m.as_mut() } // no: as-mut 2x1 4
fn f1176(a: [f64; 16]) -> Matrix<f64, 2, 1> { Matrix::<f64, 2, 1>::from(a) } // no: from-array 2x1 16
fn f1177(a: &[f64; 16]) -> &Matrix<f64, 2, 1> { a.into() } // no: from-array-ref 2x1 16
fn f1178(m: &Matrix<f64, 2, 1>) -> &[f64; 16] { m.as_ref() } // no: as-ref 2x1 16
fn f1179(m: &mut Matrix<f64, 2, 1>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 2x1 16
fn f1180(a: [f64; 17]) -> Matrix<f64, 2, 1> { Matrix::<f64, 2, 1>::from(a) } // no: from-array 2x1 17
fn f1181(a: &[f64; 17]) -> &Matrix<f64, 2, 1> { a.into() } // no: from-array-ref 2x1 17
fn f1182(m: &Matrix<f64, 2, 1>) -> &[f64; 17] { m.as_ref() } // no: as-ref 2x1 17
fn f1183(m: &mut Matrix<f64, 2, 1>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 2x1 17
fn f1184(a: [f64; 0]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 0
fn f1185(a: &[f64; 0]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 0
fn f1186(m: &Matrix<f64, 2, 2>) -> &[f64; 0] { m.as_ref() } // no: as-ref 2x2 0
fn f1187(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 2x2 0
fn f1188(a: [f64; 1]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 1
fn f1189(a: &[f64; 1]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 1
fn f1190(m: &Matrix<f64, 2, 2>) -> &[f64; 1] { m.as_ref() } // no: as-ref 2x2 1
fn f1191(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 2x2 1
fn f1192(a: [f64; 2]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 2
fn f1193(a: &[f64; 2]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 2
fn f1194(m: &Matrix<f64, 2, 2>) -> &[f64; 2] { m.as_ref() } // no: as-ref 2x2 2
fn f1195(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 2] { m.as_mut() } // no: as-mut 2x2 2
fn f1196(a: [f64; 3]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 3
fn f1197(a: &[f64; 3]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 3
fn f1198(m: &Matrix<f64, 2, 2>) -> &[f64; 3] { m.as_ref() } // no: as-ref 2x2 3
fn f1199(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 3] { m.as_mut() } // no: as-mut 2x2 3
fn f1200(a: [f64; 4]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // yes: from-array 2x2 4
fn f1201(a: &[f64; 4]) -> &Matrix<f64, 2, 2> { a.into() } // yes: from-array-ref 2x2 4
fn f1202(m: &Matrix<f64, 2, 2>) -> &[f64; 4] { m.as_ref() } // yes: as-ref 2x2 4
fn f1203(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 4] { m.as_mut() } // yes: as-mut 2x2 4
fn f1204(a: [f64; 5]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 5
fn f1205(a: &[f64; 5]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 5
fn f1206(m: &Matrix<f64, 2, 2>) -> &[f64; 5] { m.as_ref() } // no: as-ref 2x2 5
fn f1207(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 5] { m.as_mut() } // no: as-mut 2x2 5
fn f1208(a: [f64; 6]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 6
fn f1209(a: &[f64; 6]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 6
fn f1210(m: &Matrix<f64, 2, 2>) -> &[f64; 6] { m.as_ref() } // no: as-ref 2x2 6
fn f1211(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 6] { m.as_mut() } // no: as-mut 2x2 6
fn f1212(a: [f64; 7]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 7
fn f1213(a: &[f64; 7]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 7
fn f1214(m: &Matrix<f64, 2, 2>) -> &[f64; 7] { m.as_ref() } // no: as-ref 2x2 7
fn f1215(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 7] { m.as_mut() } // no: as-mut 2x2 7
fn f1216(a: [f64; 8]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 8
fn f1217(a: &[f64; 8]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 8
fn f1218(m: &Matrix<f64, 2, 2>) -> &[f64; 8] { m.as_ref() } // no: as-ref 2x2 8
fn f1219(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 8] { m.as_mut() } // no: as-mut 2x2 8
fn f1220(a: [f64; 9]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 9
fn f1221(a: &[f64; 9]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 9
fn f1222(m: &Matrix<f64, 2, 2>) -> &[f64; 9] { m.as_ref() } // no: as-ref 2x2 9
fn f1223(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 9] { m.as_mut() } // no: as-mut 2x2 9
fn f1224(a: [f64; 10]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 10
fn f1225(a: &[f64; 10]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 10
fn f1226(m: &Matrix<f64, 2, 2>) -> &[f64; 10] { m.as_ref() } // no: as-ref 2x2 10
fn f1227(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 10] { m.as_mut() } // no: as-mut 2x2 10
fn f1228(a: [f64; 11]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 11
fn f1229(a: &[f64; 11]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 11
fn f1230(m: &Matrix<f64, 2, 2>) -> &[f64; 11] { m.as_ref() } // no: as-ref 2x2 11
fn f1231(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 11] { m.as_mut() } // no: as-mut 2x2 11
fn f1232(a: [f64; 12]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 12
fn f1233(a: &[f64; 12]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 12
fn f1234(m: &Matrix<f64, 2, 2>) -> &[f64; 12] { m.as_ref() } // no: as-ref 2x2 12
fn f1235(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 12] { m.as_mut() } // no: as-mut 2x2 12
fn f1236(a: [f64; 13]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 13
fn f1237(a: &[f64; 13]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 13
fn f1238(m: &Matrix<f64, 2, 2>) -> &[f64; 13] { m.as_ref() } // no: as-ref 2x2 13
fn f1239(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 13] { m.as_mut() } // no: as-mut 2x2 13
fn f1240(a: [f64; 14]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 14
fn f1241(a: &[f64; 14]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 14
fn f1242(m: &Matrix<f64, 2, 2>) -> &[f64; 14] { m.as_ref() } // no: as-ref 2x2 14
fn f1243(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 14] { m.as_mut() } // no: as-mut 2x2 14
fn f1244(a: [f64; 15]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 15
fn f1245(a: &[f64; 15]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 15
fn f1246(m: &Matrix<f64, 2, 2>) -> &[f64; 15] { m.as_ref() } // no: as-ref 2x2 15
fn f1247(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 15] { m.as_mut() } // no: as-mut 2x2 15
fn f1248(a: [f64; 16]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 16
fn f1249(a: &[f64; 16]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 16
fn f1250(m: &Matrix<f64, 2, 2>) -> &[f64; 16] { m.as_ref() } // no: as-ref 2x2 16
fn f1251(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 2x2 16
fn f1252(a: [f64; 17]) -> Matrix<f64, 2, 2> { Matrix::<f64, 2, 2>::from(a) } // no: from-array 2x2 17
fn f1253(a: &[f64; 17]) -> &Matrix<f64, 2, 2> { a.into() } // no: from-array-ref 2x2 17
fn f1254(m: &Matrix<f64, 2, 2>) -> &[f64; 17] { m.as_ref() } // no: as-ref 2x2 17
fn f1255(m: &mut Matrix<f64, 2, 2>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 2x2 17
fn f1256(a: [f64; 0]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 0
fn f1257(a: &[f64; 0]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 0
fn f1258(m: &Matrix<f64, 2, 3>) -> &[f64; 0] { m.as_ref() } // no: as-ref 2x3 0
fn f1259(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 2x3 0
fn f1260(a: [f64; 1]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 1
fn f1261(a: &[f64; 1]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 1
fn f1262(m: &Matrix<f64, 2, 3>) -> &[f64; 1] { m.as_ref() } // no: as-ref 2x3 1
fn f1263(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 2x3 1
fn f1264(a: [f64; 2]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 2
fn f1265(a: &[f64; 2]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 2
fn f1266(m: &Matrix<f64, 2, 3>) -> &[f64; 2] { m.as_ref() } // no: as-ref 2x3 2
fn f1267(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 2] { m.as_mut() } // no: as-mut 2x3 2
fn f1268(a: [f64; 3]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 3
fn f1269(a: &[f64; 3]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 3
fn f1270(m: &Matrix<f64, 2, 3>) -> &[f64; 3] { m.as_ref() } // no: as-ref 2x3 3
fn f1271(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 3] { m.as_mut() } // no: as-mut 2x3 3
fn f1272(a: [f64; 4]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 4
fn f1273(a: &[f64; 4]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 4
fn f1274(m: &Matrix<f64, 2, 3>) -> &[f64; 4] { m.as_ref() } // no: as-ref 2x3 4
fn f1275(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 4] { m.as_mut() } // no: as-mut 2x3 4
fn f1276(a: [f64; 5]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 5
fn f1277(a: &[f64; 5]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 5
fn f1278(m: &Matrix<f64, 2, 3>) -> &[f64; 5] { m.as_ref() } // no: as-ref 2x3 5
fn f1279(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 5] { m.as_mut() } // no: as-mut 2x3 5
fn f1280(a: [f64; 6]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // yes: from-array 2x3 6
fn f1281(a: &[f64; 6]) -> &Matrix<f64, 2, 3> { a.into() } // yes: from-array-ref 2x3 6
fn f1282(m: &Matrix<f64, 2, 3>) -> &[f64; 6] { m.as_ref() } // yes: as-ref 2x3 6
fn f1283(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 6] { m.as_mut() } // yes: as-mut 2x3 6
fn f1284(a: [f64; 7]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 7
fn f1285(a: &[f64; 7]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 7
fn f1286(m: &Matrix<f64, 2, 3>) -> &[f64; 7] { m.as_ref() } // no: as-ref 2x3 7
fn f1287(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 7] { m.as_mut() } // no: as-mut 2x3 7
fn f1288(a: [f64; 8]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 8
fn f1289(a: &[f64; 8]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 8
fn f1290(m: &Matrix<f64, 2, 3>) -> &[f64; 8] { m.as_ref() } // no: as-ref 2x3 8
fn f1291(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 8] { m.as_mut() } // no: as-mut 2x3 8
fn f1292(a: [f64; 9]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 9
fn f1293(a: &[f64; 9]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 9
fn f1294(m: &Matrix<f64, 2, 3>) -> &[f64; 9] { m.as_ref() } // no: as-ref 2x3 9
fn f1295(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 9] { m.as_mut() } // no: as-mut 2x3 9
fn f1296(a: [f64; 10]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 10
fn f1297(a: &[f64; 10]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 10
fn f1298(m: &Matrix<f64, 2, 3>) -> &[f64; 10] { m.as_ref() } // no: as-ref 2x3 10
fn f1299(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 10] { m.as_mut() } // no: as-mut 2x3 10
fn f1300(a: [f64; 11]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 11
fn f1301(a: &[f64; 11]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 11
fn f1302(m: &Matrix<f64, 2, 3>) -> &[f64; 11] { m.as_ref() } // no: as-ref 2x3 11
fn f1303(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 11] { m.as_mut() } // no: as-mut 2x3 11
fn f1304(a: [f64; 12]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 12
fn f1305(a: &[f64; 12]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 12
fn f1306(m: &Matrix<f64, 2, 3>) -> &[f64; 12] { m.as_ref() } // no: as-ref 2x3 12
fn f1307(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 12] { m.as_mut() } // no: as-mut 2x3 12
fn f1308(a: [f64; 13]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 13
fn f1309(a: &[f64; 13]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 13
fn f1310(m: &Matrix<f64, 2, 3>) -> &[f64; 13] { m.as_ref() } // no: as-ref 2x3 13
fn f1311(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 13] { m.as_mut() } // no: as-mut 2x3 13
fn f1312(a: [f64; 14]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 14
fn f1313(a: &[f64; 14]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 14
fn f1314(m: &Matrix<f64, 2, 3>) -> &[f64; 14] { m.as_ref() } // no: as-ref 2x3 14
fn f1315(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 14] { m.as_mut() } // no: as-mut 2x3 14
fn f1316(a: [f64; 15]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 15
fn f1317(a: &[f64; 15]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 15
fn f1318(m: &Matrix<f64, 2, 3>) -> &[f64; 15] { m.as_ref() } // no: as-ref 2x3 15
fn f1319(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 15] { m.as_mut() } // no: as-mut 2x3 15
fn f1320(a: [f64; 16]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 16
fn f1321(a: &[f64; 16]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 16
fn f1322(m: &Matrix<f64, 2, 3>) -> &[f64; 16] { m.as_ref() } // no: as-ref 2x3 16
fn f1323(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 2x3 16
fn f1324(a: [f64; 17]) -> Matrix<f64, 2, 3> { Matrix::<f64, 2, 3>::from(a) } // no: from-array 2x3 17
fn f1325(a: &[f64; 17]) -> &Matrix<f64, 2, 3> { a.into() } // no: from-array-ref 2x3 17
fn f1326(m: &Matrix<f64, 2, 3>) -> &[f64; 17] { m.as_ref() } // no: as-ref 2x3 17
fn f1327(m: &mut Matrix<f64, 2, 3>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 2x3 17
fn f1328(a: [f64; 0]) -> Matrix<f64, 2, 4> { Matrix::<f64, 2, 4>::from(a) } // no: from-array 2x4 0
fn f1329(a: &[f64; 0]) -> &Matrix<f64, 2, 4> { a.into() } // no: from-array-ref 2x4 0
fn f1330(m: &Matrix<f64, 2, 4>) -> &[f64; 0] { m.as_ref() } // no: as-ref 2x4 0
fn f1331(m: &mut Matrix<f64, 2, 4>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 2x4 0
fn f1332(a: [f64; 1]) -> Matrix<f64, 2, 4> { Matrix::<f64, 2, 4>::from(a) } // no: from-array 2x4 1
fn f1333(a: &[f64; 1]) -> &Matrix<f64, 2, 4> { a.into() } // no: from-array-ref 2x4 1
fn f1334(m: &Matrix<f64, 2, 4>) -> &[f64; 1] { m.as_ref() } // no: as-ref 2x4 1
fn f1335(m: &mut Matrix<f64, 2, 4>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 2x4 1
fn f1336(a: [f64; 2]) -> Matrix<f64, 2, 4> { Matrix::<f64, 2, 4>::from(a) } // no: from-array 2x4 2
fn f1337(a: &[f64; 2]) -> &Matrix<f64, 2, 4> { a.into() } // no: from-array-ref 2x4 2
fn f1338(m: &Matrix<f64, 2, 4>) -> &[f64; 2] { m.as_ref() } // no: as-ref 2x4 2
fn f1339(m: &mut Matrix<f64, 2, 4>) -> &mut [f64; 2] { m.as_mut() } // no: as-mut 2x4 2
fn f1340(a: [f64; 4]) -> Matrix<f64, 2, 4> { Matrix::<f64, 2, 4>::from(a) } // no: from-array 2x4 4
fn f1341(a: &[f64; 4]) -> &Matrix<f64, 2, 4> { a.into() } // no: from-array-ref 2x4 4
fn f1342(m: &Matrix<f64, 2, 4>) -> &[f64; 4] { m.as_ref() } // no: as-ref 2x4 4
fn f1343(m: &mut Matrix<f64, 2, 4>) -> &mut [f64; 4] { m.as_mut() } // no: as-mut 2x4 4
fn f1344(a: [f64; 6]) -> Matrix<f64, 2, 4> { Matrix::<f64, 2, 4>::from(a) } // no: from-array 2x4 6
fn f1345(a: &[f64; 6]) -> &Matrix<f64, 2, 4> { a.into() } // no: from-array-ref 2x4 6
fn f1346(m: &Matrix<f64, 2, 4>) -> &[f64; 6] { m.as_ref() } // no: as-ref 2x4 6
fn f1347(m: &mut Matrix<f64, 2, 4>) -> &mut [f64; 6] { m.as_mut() } // no: as-mut 2x4 6
fn f1348(a: [f64; 7]) -> Matrix<f64, 2, 4> { Matrix::<f64, 2, 4>::from(a) } // no: from-array 2x4 7
fn f1349(a: &[f64; 7]) -> &Matrix<f64, 2, 4> { a.into() } // no: from-array-ref 2x4 7
fn f1350(m: &Matrix<f64, 2, 4>) -> &[f64; 7] { m.as_ref() } // no: as-ref 2x4 7
fn f1351(m: &mut Matrix<f64, 2, 4>) -> &mut [f64; 7] { m.as_mut() } // no: as-mut 2x4 7
fn f1352(a: [f64; 8]) -> Matrix<f64, 2, 4> { Matrix::<f64, 2, 4>::from(a) } // yes: from-array 2x4 8
fn f1353(a: &[f64; 8]) -> &Matrix<f64, 2, 4> { a.into() } // yes: from-array-ref 2x4 8
fn f1354(m: &Matrix<f64, 2, 4>) -> &[f64; 8] { m.as_ref() } // yes: as-ref 2x4 8
fn f1355(m: &mut Matrix<f64, 2, 4>) -> &mut [f64; 8] { m.as_mut() } // yes: as-mut 2x4 8
fn f1356(a: [f64; 9]) -> Matrix<f64, 2, 4> { Matrix::<f64, 2, 4>::from(a) } // no: from-array 2x4 9
fn f1357(a: &[f64; 9]) -> &Matrix<f64, 2, 4> { a.into() } // no: from-array-ref 2x4 9
fn f1358(m: &Matrix<f64, 2, 4>) -> &[f64; 9] { m.as_ref() } // no: as-ref 2x4 9
fn f1359(m: &mut Matrix<f64, 2, 4>) -> &mut [f64; 9] { m.as_mut() } // no: as-mut 2x4 9
fn f1360(a: [f64; 16]) -> Matrix<f64, 2, 4> { Matrix::<f64, 2, 4>::from(a) } // no: from-array 2x4 16
fn f1361(a: &[f64; 16]) -> &Matrix<f64, 2, 4> { a.into() } // no: from-array-ref 2x4 16
fn f1362(m: &Matrix<f64, 2, 4>) -> &[f64; 16] { m.as_ref() } // no: as-ref 2x4 16
fn f1363(m: &mut Matrix<f64, 2, 4>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 2x4 16
fn f1364(a: [f64; 17]) -> Matrix<f64, 2, 4> { Matrix::<f64, 2, 4>::from(a) } // no: from-array 2x4 17
fn f1365(a: &[f64; 17]) -> &Matrix<f64, 2, 4> { a.into() } // no: from-array-ref 2x4 17
fn f1366(m: &Matrix<f64, 2, 4>) -> &[f64; 17] { m.as_ref() } // no: as-ref 2x4 17
fn f1367(m: &mut Matrix<f64, 2, 4>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 2x4 17
fn f1368(a: [f64; 0]) -> Matrix<f64, 3, 1> { Matrix::<f64, 3, 1>::from(a) } // no: from-array 3x1 0
fn f1369(a: &[f64; 0]) -> &Matrix<f64, 3, 1> { a.into() } // no: from-array-ref 3x1 0
fn f1370(m: &Matrix<f64, 3, 1>) -> &[f64; 0] { m.as_ref() } // no: as-ref 3x1 0
fn f1371(m: &mut Matrix<f64, 3, 1>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 3x1 0
fn f1372(a: [f64; 1]) -> Matrix<f64, 3, 1> { Matrix::<f64, 3, 1>::from(a) } // no: from-array 3x1 1
fn f1373(a: &[f64; 1]) -> &Matrix<f64, 3, 1> { a.into() } // no: from-array-ref 3x1 1
fn f1374(m: &Matrix<f64, 3, 1>) -> &[f64; 1] { m.as_ref() } // no: as-ref 3x1 1
fn f1375(m: &mut Matrix<f64, 3, 1>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 3x1 1
fn f1376(a: [f64; 2]) -> Matrix<f64, 3, 1> { Matrix::<f64, 3, 1>::from(a) } // no: from-array 3x1 2
fn f1377(a: &[f64; 2]) -> &Matrix<f64, 3, 1> { a.into() } // no: from-array-ref 3x1 2
fn f1378(m: &Matrix<f64, 3, 1>) -> &[f64; 2] { m.as_ref() } // no: as-ref 3x1 2
fn f1379(m: &mut Matrix<f64, 3, 1>) -> &mut [f64; 2] { m.as_mut() } // no: as-mut 3x1 2
fn f1380(a: [f64; 3]) -> Matrix<f64, 3, 1> { Matrix::<f64, 3, 1>::from(a) } // yes: from-array 3x1 3
fn f1381(a: &[f64; 3]) -> &Matrix<f64, 3, 1> { a.into() } // yes: from-array-ref 3x1 3
fn f1382(m: &Matrix<f64, 3, 1>) -> &[f64; 3] { m.as_ref() } // yes: as-ref 3x1 3
fn f1383(m: &mut Matrix<f64, 3, 1>) -> &mut [f64; 3] { m.as_mut() } // yes: as-mut 3x1 3
fn f1384(a: [f64; 4]) -> Matrix<f64, 3, 1> { Matrix::<f64, 3, 1>::from(a) } // no: from-array 3x1 4
fn f1385(a: &[f64; 4]) -> &Matrix<f64, 3, 1> { a.into() } // no: from-array-ref 3x1 4
fn f1386(m: &Matrix<f64, 3, 1>) -> &[f64; 4] { m.as_ref() } // no: as-ref 3x1 4
fn f1387(m: &mut Matrix<f64, 3, 1>) -> &mut [f64; 4] { m.as_mut() } // no: as-mut 3x1 4
fn f1388(a: [f64; 9]) -> Matrix<f64, 3, 1> { Matrix::<f64, 3, 1>::from(a) } // no: from-array 3x1 9
fn f1389(a: &[f64; 9]) -> &Matrix<f64, 3, 1> { a.into() } // no: from-array-ref 3x1 9
fn f1390(m: &Matrix<f64, 3, 1>) -> &[f64; 9] { m.as_ref() } // no: as-ref 3x1 9
fn f1391(m: &mut Matrix<f64, 3, 1>) -> &mut [f64; 9] { m.as_mut() } // no: as-mut 3x1 9
fn f1392(a: [f64; 16]) -> Matrix<f64, 3, 1> { Matrix::<f64, 3, 1>::from(a) } // no: from-array 3x1 16
fn f1393(a: &[f64; 16]) -> &Matrix<f64, 3, 1> { a.into() } // no: from-array-ref 3x1 16
fn f1394(m: &Matrix<f64, 3, 1>) -> &[f64; 16] { m.as_ref() } // no: as-ref 3x1 16
fn f1395(m: &mut Matrix<f64, 3, 1>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 3x1 16
fn f1396(a: [f64; 17]) -> Matrix<f64, 3, 1> { Matrix::<f64, 3, 1>::from(a) } // no: from-array 3x1 17
fn f1397(a: &[f64; 17]) -> &Matrix<f64, 3, 1> { a.into() } // no: from-array-ref 3x1 17
fn f1398(m: &Matrix<f64, 3, 1>) -> &[f64; 17] { m.as_ref() } // no: as-ref 3x1 17
fn f1399(m: &mut Matrix<f64, 3, 1>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 3x1 17
fn f1400(a: [f64; 0]) -> Matrix<f64, 3, 2> { Matrix::<f64, 3, 2>::from(a) } // no: from-array 3x2 0
fn f1401(a: &[f64; 0]) -> &Matrix<f64, 3, 2> { a.into() } // no: from-array-ref 3x2 0
fn f1402(m: &Matrix<f64, 3, 2>) -> &[f64; 0] { m.as_ref() } // no: as-ref 3x2 0
fn f1403(m: &mut Matrix<f64, 3, 2>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 3x2 0
fn f1404(a: [f64; 1]) -> Matrix<f64, 3, 2> { Matrix::<f64, 3, 2>::from(a) } // no: from-array 3x2 1
fn f1405(a: &[f64; 1]) -> &Matrix<f64, 3, 2> { a.into() } // no: from-array-ref 3x2 1
fn f1406(m: &Matrix<f64, 3, 2>) -> &[f64; 1] { m.as_ref() } // no: as-ref 3x2 1
fn f1407(m: &mut Matrix<f64, 3, 2>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 3x2 1
fn f1408(a: [f64; 2]) -> Matrix<f64, 3, 2> { Matrix::<f64, 3, 2>::from(a) } // no: from-array 3x2 2
fn f1409(a: &[f64; 2]) -> &Matrix<f64, 3, 2> { a.into() } // no: from-array-ref 3x2 2
fn f1410(m: &Matrix<f64, 3, 2>) -> &[f64; 2] { m.as_ref() } // no: as-ref 3x2 2
fn f1411(m: &mut Matrix<f64, 3, 2>) -> &mut [f64; 2] { m.as_mut() } // no: as-mut 3x2 2
fn f1412(a: [f64; 3]) -> Matrix<f64, 3, 2> { Matrix::<f64, 3, 2>::from(a) } // no: from-array 3x2 3
fn f1413(a: &[f64; 3]) -> &Matrix<f64, 3, 2> { a.into() } // no: from-array-ref 3x2 3
fn f1414(m: &Matrix<f64, 3, 2>) -> &[f64; 3] { m.as_ref() } // no: as-ref 3x2 3
fn f1415(m: &mut Matrix<f64, 3, 2>) -> &mut [f64; 3] { m.as_mut() } // no: as-mut 3x2 3
fn f1416(a: [f64; 4]) -> Matrix<f64, 3, 2> { Matrix::<f64, 3, 2>::from(a) } // no: from-array 3x2 4
fn f1417(a: &[f64; 4]) -> &Matrix<f64, 3, 2> { a.into() } // no: from-array-ref 3x2 4
fn f1418(m: &Matrix<f64, 3, 2>) -> &[f64; 4] { m.as_ref() } // no: as-ref 3x2 4
fn f1419(m: &mut Matrix<f64, 3, 2>) -> &mut [f64; 4] { m.as_mut() } // no: as-mut 3x2 4
fn f1420(a: [f64; 5]) -> Matrix<f64, 3, 2> { Matrix::<f64, 3, 2>::from(a) } // no: from-array 3x2 5
fn f1421(a: &[f64; 5]) -> &Matrix<f64, 3, 2> { a.into() } // no: from-array-ref 3x2 5
fn f1422(m: &Matrix<f64, 3, 2>) -> &[f64; 5] { m.as_ref() } // no: as-ref 3x2 5
fn f1423(m: &mut Matrix<f64, 3, 2>) -> &mut [f64; 5] { m.as_mut() } // no: as-mut 3x2 5
fn f1424(a: [f64; 6]) -> Matrix<f64, 3, 2> { Matrix::<f64, 3, 2>::from(a) } // yes: from-array 3x2 6
fn f1425(a: &[f64; 6]) -> &Matrix<f64, 3, 2> { a.into() } // yes: from-array-ref 3x2 6
fn f1426(m: &Matrix<f64, 3, 2>) -> &[f64; 6] { m.as_ref() } // yes: as-ref 3x2 6
fn f1427(m: &mut Matrix<f64, 3, 2>) -> &mut [f64; 6] { m.as_mut() } // yes: as-mut 3x2 6
fn f1428(a: [f64; 7]) -> Matrix<f64, 3, 2> { Matrix::<f64, 3, 2>::from(a) } // no: from-array 3x2 7
fn f1429(a: &[f64; 7]) -> &Matrix<f64, 3, 2> { a.into() } // no: from-array-ref 3x2 7
fn f1430(m: &Matrix<f64, 3, 2>) -> &[f64; 7] { m.as_ref() } // no: as-ref 3x2 7
fn f1431(m: &mut Matrix<f64, 3, 2>) -> &mut [f64; 7] { m.as_mut() } // no: as-mut 3x2 7
fn f1432(a: [f64; 9]) -> Matrix<f64, 3, 2> { Matrix::<f64, 3, 2>::from(a) } // no: from-array 3x2 9
fn f1433(a: &[f64; 9]) -> &Matrix<f64, 3, 2> { a.into() } // no: from-array-ref 3x2 9
fn f1434(m: &Matrix<f64, 3, 2>) -> &[f64; 9] { m.as_ref() } // no: as-ref 3x2 9
fn f1435(m: &mut Matrix<f64, 3, 2>) -> &mut [f64; 9] { m.as_mut() } // no: as-mut 3x2 9
fn f1436(a: [f64; 16]) -> Matrix<f64, 3, 2> { Matrix::<f64, 3, 2>::from(a) } // no: from-array 3x2 16
fn f1437(a: &[f64; 16]) -> &Matrix<f64, 3, 2> { a.into() } // no: from-array-ref 3x2 16
fn f1438(m: &Matrix<f64, 3, 2>) -> &[f64; 16] { m.as_ref() } // no: as-ref 3x2 16
fn f1439(m: &mut Matrix<f64, 3, 2>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 3x2 16
fn f1440(a: [f64; 17]) -> Matrix<f64, 3, 2> { Matrix::<f64, 3, 2>::from(a) } // no: from-array 3x2 17
fn f1441(a: &[f64; 17]) -> &Matrix<f64, 3, 2> { a.into() } // no: from-array-ref 3x2 17
fn f1442(m: &Matrix<f64, 3, 2>) -> &[f64; 17] { m.as_ref() } // no: as-ref 3x2 17
fn f1443(m: &mut Matrix<f64, 3, 2>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 3x2 17
fn f1444(a: [f64; 0]) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from(a) } // no: from-array 3x3 0
fn f1445(a: &[f64; 0]) -> &Matrix<f64, 3, 3> { a.into() } // no: from-array-ref 3x3 0
fn f1446(m: &Matrix<f64, 3, 3>) -> &[f64; 0] { m.as_ref() } // no: as-ref 3x3 0
fn f1447(m: &mut Matrix<f64, 3, 3>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 3x3 0
fn f1448(a: [f64; 1]) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from(a) } // no: from-array 3x3 1
fn f1449(a: &[f64; 1]) -> &Matrix<f64, 3, 3> { a.into() } // no: from-array-ref 3x3 1
fn f1450(m: &Matrix<f64, 3, 3>) -> &[f64; 1] { m.as_ref() } // no: as-ref 3x3 1
fn f1451(m: &mut Matrix<f64, 3, 3>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 3x3 1
fn f1452(a: [f64; 3]) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from(a) } // no: from-array 3x3 3
fn f1453(a: &[f64; 3]) -> &Matrix<f64, 3, 3> { a.into() } // no: from-array-ref 3x3 3
fn f1454(m: &Matrix<f64, 3, 3>) -> &[f64; 3] { m.as_ref() } // no: as-ref 3x3 3
fn f1455(m: &mut Matrix<f64, 3, 3>) -> &mut [f64; 3] { m.as_mut() } // no: as-mut 3x3 3
fn f1456(a: [f64; 6]) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from(a) } // no: from-array 3x3 6
fn f1457(a: &[f64; 6]) -> &Matrix<f64, 3, 3> { a.into() } // no: from-array-ref 3x3 6
fn f1458(m: &Matrix<f64, 3, 3>) -> &[f64; 6] { m.as_ref() } // no: as-ref 3x3 6
fn f1459(m: &mut Matrix<f64, 3, 3>) -> &mut [f64; 6] { m.as_mut() } // no: as-mut 3x3 6
fn f1460(a: [f64; 8]) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from(a) } // no: from-array 3x3 8
fn f1461(a: &[f64; 8]) -> &Matrix<f64, 3, 3> { a.into() } // no: from-array-ref 3x3 8
fn f1462(m: &Matrix<f64, 3, 3>) -> &[f64; 8] { m.as_ref() } // no: as-ref 3x3 8
fn f1463(m: &mut Matrix<f64, 3, 3>) -> &mut [f64; 8] { m.as_mut() } // no: as-mut 3x3 8
fn f1464(a: [f64; 9]) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from(a) } // yes: from-array 3x3 9
fn f1465(a: &[f64; 9]) -> &Matrix<f64, 3, 3> { a.into() } // yes: from-array-ref 3x3 9
fn f1466(m: &Matrix<f64, 3, 3>) -> &[f64; 9] { m.as_ref() } // yes: as-ref 3x3 9
fn f1467(m: &mut Matrix<f64, 3, 3>) -> &mut [f64; 9] { m.as_mut() } // yes: as-mut 3x3 9
fn f1468(a: [f64; 10]) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from(a) } // no: from-array 3x3 10
fn f1469(a: &[f64; 10]) -> &Matrix<f64, 3, 3> { a.into() } // no: from-array-ref 3x3 10
fn f1470(m: &Matrix<f64, 3, 3>) -> &[f64; 10] { m.as_ref() } // no: as-ref 3x3 10
fn f1471(m: &mut Matrix<f64, 3, 3>) -> &mut [f64; 10] { m.as_mut() } // no: as-mut 3x3 10
fn f1472(a: [f64; 16]) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from(a) } // no: from-array 3x3 16
fn f1473(a: &[f64; 16]) -> &Matrix<f64, 3, 3> { a.into() } // no: from-array-ref 3x3 16
fn f1474(m: &Matrix<f64, 3, 3>) -> &[f64; 16] { m.as_ref() } // no: as-ref 3x3 16
fn f1475(m: &mut Matrix<f64, 3, 3>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 3x3 16
fn f1476(a: [f64; 17]) -> Matrix<f64, 3, 3> { Matrix::<f64, 3, 3>::from(a) } // no: from-array 3x3 17
fn f1477(a: &[f64; 17]) -> &Matrix<f64, 3, 3> { a.into() } // no: from-array-ref 3x3 17
fn f1478(m: &Matrix<f64, 3, 3>) -> &[f64; 17] { m.as_ref() } // no: as-ref 3x3 17
fn f1479(m: &mut Matrix<f64, 3, 3>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 3x3 17
fn f1480(a: [f64; 0]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 0
fn f1481(a: &[f64; 0]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 0
fn f1482(m: &Matrix<f64, 3, 4>) -> &[f64; 0] { m.as_ref() } // no: as-ref 3x4 0
fn f1483(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 3x4 0
fn f1484(a: [f64; 1]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 1
fn f1485(a: &[f64; 1]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 1
fn f1486(m: &Matrix<f64, 3, 4>) -> &[f64; 1] { m.as_ref() } // no: as-ref 3x4 1
fn f1487(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 3x4 1
fn f1488(a: [f64; 2]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 2
fn f1489(a: &[f64; 2]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 2
fn f1490(m: &Matrix<f64, 3, 4>) -> &[f64; 2] { m.as_ref() } // no: as-ref 3x4 2
fn f1491(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 2] { m.as_mut() } // no: as-mut 3x4 2
fn f1492(a: [f64; 3]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 3
fn f1493(a: &[f64; 3]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 3
fn f1494(m: &Matrix<f64, 3, 4>) -> &[f64; 3] { m.as_ref() } // no: as-ref 3x4 3
fn f1495(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 3] { m.as_mut() } // no: as-mut 3x4 3
fn f1496(a: [f64; 4]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 4
fn f1497(a: &[f64; 4]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 4
fn f1498(m: &Matrix<f64, 3, 4>) -> &[f64; 4] { m.as_ref() } // no: as-ref 3x4 4
fn f1499(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 4] { m.as_mut() } // no: as-mut 3x4 4
fn f1500(a: [f64; 5]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 5
fn f1501(a: &[f64; 5]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 5
fn f1502(m: &Matrix<f64, 3, 4>) -> &[f64; 5] { m.as_ref() } // no: as-ref 3x4 5
fn f1503(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 5] { m.as_mut() } // no: as-mut 3x4 5
fn f1504(a: [f64; 6]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 6
fn f1505(a: &[f64; 6]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 6
fn f1506(m: &Matrix<f64, 3, 4>) -> &[f64; 6] { m.as_ref() } // no: as-ref 3x4 6
fn f1507(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 6] { m.as_mut() } // no: as-mut 3x4 6
fn f1508(a: [f64; 7]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 7
fn f1509(a: &[f64; 7]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 7
fn f1510(m: &Matrix<f64, 3, 4>) -> &[f64; 7] { m.as_ref() } // no: as-ref 3x4 7
fn f1511(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 7] { m.as_mut() } // no: as-mut 3x4 7
fn f1512(a: [f64; 8]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 8
fn f1513(a: &[f64; 8]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 8
fn f1514(m: &Matrix<f64, 3, 4>) -> &[f64; 8] { m.as_ref() } // no: as-ref 3x4 8
fn f1515(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 8] { m.as_mut() } // no: as-mut 3x4 8
fn f1516(a: [f64; 9]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 9
fn f1517(a: &[f64; 9]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 9
fn f1518(m: &Matrix<f64, 3, 4>) -> &[f64; 9] { m.as_ref() } // no: as-ref 3x4 9
fn f1519(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 9] { m.as_mut() } // no: as-mut 3x4 9
fn f1520(a: [f64; 10]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 10
fn f1521(a: &[f64; 10]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 10
fn f1522(m: &Matrix<f64, 3, 4>) -> &[f64; 10] { m.as_ref() } // no: as-ref 3x4 10
fn f1523(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 10] { m.as_mut() } // no: as-mut 3x4 10
fn f1524(a: [f64; 11]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 11
fn f1525(a: &[f64; 11]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 11
fn f1526(m: &Matrix<f64, 3, 4>) -> &[f64; 11] { m.as_ref() } // no: as-ref 3x4 11
fn f1527(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 11] { m.as_mut() } // no: as-mut 3x4 11
fn f1528(a: [f64; 12]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // yes: from-array 3x4 12
fn f1529(a: &[f64; 12]) -> &Matrix<f64, 3, 4> { a.into() } // yes: from-array-ref 3x4 12
fn f1530(m: &Matrix<f64, 3, 4>) -> &[f64; 12] { m.as_ref() } // yes: as-ref 3x4 12
fn f1531(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 12] { m.as_mut() } // yes: as-mut 3x4 12
fn f1532(a: [f64; 13]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 13
fn f1533(a: &[f64; 13]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 13
fn f1534(m: &Matrix<f64, 3, 4>) -> &[f64; 13] { m.as_ref() } // no: as-ref 3x4 13
fn f1535(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 13] { m.as_mut() } // no: as-mut 3x4 13
fn f1536(a: [f64; 14]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 14
fn f1537(a: &[f64; 14]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 14
fn f1538(m: &Matrix<f64, 3, 4>) -> &[f64; 14] { m.as_ref() } // no: as-ref 3x4 14
fn f1539(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 14] { m.as_mut() } // no: as-mut 3x4 14
fn f1540(a: [f64; 15]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 15
fn f1541(a: &[f64; 15]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 15
fn f1542(m: &Matrix<f64, 3, 4>) -> &[f64; 15] { m.as_ref() } // no: as-ref 3x4 15
fn f1543(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 15] { m.as_mut() } // no: as-mut 3x4 15
fn f1544(a: [f64; 16]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 16
fn f1545(a: &[f64; 16]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 16
fn f1546(m: &Matrix<f64, 3, 4>) -> &[f64; 16] { m.as_ref() } // no: as-ref 3x4 16
fn f1547(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 3x4 16
fn f1548(a: [f64; 17]) -> Matrix<f64, 3, 4> { Matrix::<f64, 3, 4>::from(a) } // no: from-array 3x4 17
fn f1549(a: &[f64; 17]) -> &Matrix<f64, 3, 4> { a.into() } // no: from-array-ref 3x4 17
fn f1550(m: &Matrix<f64, 3, 4>) -> &[f64; 17] { m.as_ref() } // no: as-ref 3x4 17
fn f1551(m: &mut Matrix<f64, 3, 4>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 3x4 17
fn f1552(a: [f64; 0]) -> Matrix<f64, 4, 1> { Matrix::<f64, 4, 1>::from(a) } // no: from-array 4x1 0
fn f1553(a: &[f64; 0]) -> &Matrix<f64, 4, 1> { a.into() } // no: from-array-ref 4x1 0
fn f1554(m: &Matrix<f64, 4, 1>) -> &[f64; 0] { m.as_ref() } // no: as-ref 4x1 0
fn f1555(m: &mut Matrix<f64, 4, 1>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 4x1 0
fn f1556(a: [f64; 1]) -> Matrix<f64, 4, 1> { Matrix::<f64, 4, 1>::from(a) } // no: from-array 4x1 1
fn f1557(a: &[f64; 1]) -> &Matrix<f64, 4, 1> { a.into() } // no: from-array-ref 4x1 1
fn f1558(m: &Matrix<f64, 4, 1>) -> &[f64; 1] { m.as_ref() } // no: as-ref 4x1 1
fn f1559(m: &mut Matrix<f64, 4, 1>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 4x1 1
fn f1560(a: [f64; 3]) -> Matrix<f64, 4, 1> { Matrix::<f64, 4, 1>::from(a) } // no: from-array 4x1 3
fn f1561(a: &[f64; 3]) -> &Matrix<f64, 4, 1> { a.into() } // no: from-array-ref 4x1 3
fn f1562(m: &Matrix<f64, 4, 1>) -> &[f64; 3] { m.as_ref() } // no: as-ref 4x1 3
fn f1563(m: &mut Matrix<f64, 4, 1>) -> &mut [f64; 3] { m.as_mut() } // no: as-mut 4x1 3
fn f1564(a: [f64; 4]) -> Matrix<f64, 4, 1> { Matrix::<f64, 4, 1>::from(a) } // yes: from-array 4x1 4
fn f1565(a: &[f64; 4]) -> &Matrix<f64, 4, 1> { a.into() } // yes: from-array-ref 4x1 4
fn f1566(m: &Matrix<f64, 4, 1>) -> &[f64; 4] { m.as_ref() } // yes: as-ref 4x1 4
fn f1567(m: &mut Matrix<f64, 4, 1>) -> &mut [f64; 4] { m.as_mut() } // yes: as-mut 4x1 4
fn f1568(a: [f64; 5]) -> Matrix<f64, 4, 1> { Matrix::<f64, 4, 1>::from(a) } // no: from-array 4x1 5
fn f1569(a: &[f64; 5]) -> &Matrix<f64, 4, 1> { a.into() } // no: from-array-ref 4x1 5
fn f1570(m: &Matrix<f64, 4, 1>) -> &[f64; 5] { m.as_ref() } // no: as-ref 4x1 5
fn f1571(m: &mut Matrix<f64, 4, 1>) -> &mut [f64; 5] { m.as_mut() } // no: as-mut 4x1 5
fn f1572(a: [f64; 16]) -> Matrix<f64, 4, 1> { Matrix::<f64, 4, 1>::from(a) } // no: from-array 4x1 16
fn f1573(a: &[f64; 16]) -> &Matrix<f64, 4, 1> { a.into() } // no: from-array-ref 4x1 16
fn f1574(m: &Matrix<f64, 4, 1>) -> &[f64; 16] { m.as_ref() } // no: as-ref 4x1 16
fn f1575(m: &mut Matrix<f64, 4, 1>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 4x1 16
fn f1576(a: [f64; 17]) -> Matrix<f64, 4, 1> { Matrix::<f64, 4, 1>::from(a) } // no: from-array 4x1 17
fn f1577(a: &[f64; 17]) -> &Matrix<f64, 4, 1> { a.into() } // no: from-array-ref 4x1 17
fn f1578(m: &Matrix<f64, 4, 1>) -> &[f64; 17] { m.as_ref() } // no: as-ref 4x1 17
fn f1579(m: &mut Matrix<f64, 4, 1>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 4x1 17
fn f1580(a: [f64; 0]) -> Matrix<f64, 4, 2> { Matrix::<f64, 4, 2>::from(a) } // no: from-array 4x2 0
fn f1581(a: &[f64; 0]) -> &Matrix<f64, 4, 2> { a.into() } // no: from-array-ref 4x2 0
fn f1582(m: &Matrix<f64, 4, 2>) -> &[f64; 0] { m.as_ref() } // no: as-ref 4x2 0
fn f1583(m: &mut Matrix<f64, 4, 2>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 4x2 0
fn f1584(a: [f64; 1]) -> Matrix<f64, 4, 2> { Matrix::<f64, 4, 2>::from(a) } // no: from-array 4x2 1
fn f1585(a: &[f64; 1]) -> &Matrix<f64, 4, 2> { a.into() } // no: from-array-ref 4x2 1
fn f1586(m: &Matrix<f64, 4, 2>) -> &[f64; 1] { m.as_ref() } // no: as-ref 4x2 1
fn f1587(m: &mut Matrix<f64, 4, 2>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 4x2 1
fn f1588(a: [f64; 2]) -> Matrix<f64, 4, 2> { Matrix::<f64, 4, 2>::from(a) } // no: from-array 4x2 2
fn f1589(a: &[f64; 2]) -> &Matrix<f64, 4, 2> { a.into() } // no: from-array-ref 4x2 2
fn f1590(m: &Matrix<f64, 4, 2>) -> &[f64; 2] { m.as_ref() } // no: as-ref 4x2 2
fn f1591(m: &mut Matrix<f64, 4, 2>) -> &mut [f64; 2] { m.as_mut() } // no: as-mut 4x2 2
fn f1592(a: [f64; 4]) -> Matrix<f64, 4, 2> { Matrix::<f64, 4, 2>::from(a) } // no: from-array 4x2 4
fn f1593(a: &[f64; 4]) -> &Matrix<f64, 4, 2> { a.into() } // no: from-array-ref 4x2 4
fn f1594(m: &Matrix<f64, 4, 2>) -> &[f64; 4] { m.as_ref() } // no: as-ref 4x2 4
fn f1595(m: &mut Matrix<f64, 4, 2>) -> &mut [f64; 4] { m.as_mut() } // no: as-mut 4x2 4
fn f1596(a: [f64; 6]) -> Matrix<f64, 4, 2> { Matrix::<f64, 4, 2>::from(a) } // no: from-array 4x2 6
fn f1597(a: &[f64; 6]) -> &Matrix<f64, 4, 2> { a.into() } // no: from-array-ref 4x2 6
fn f1598(m: &Matrix<f64, 4, 2>) -> &[f64; 6] { m.as_ref() } // no: as-ref 4x2 6
fn f1599(m: &mut Matrix<f64, 4, 2>) -> &mut [f64; 6] { m.as_mut() } // no: as-mut 4x2 6
fn f1600(a: [f64; 7]) -> Matrix<f64, 4, 2> { Matrix::<f64, 4, 2>::from(a) } // no: from-array 4x2 7
fn f1601(a: &[f64; 7]) -> &Matrix<f64, 4, 2> { a.into() } // no: from-array-ref 4x2 7
fn f1602(m: &Matrix<f64, 4, 2>) -> &[f64; 7] { m.as_ref() } // no: as-ref 4x2 7
fn f1603(m: &mut Matrix<f64, 4, 2>) -> &mut [f64; 7] { m.as_mut() } // no: as-mut 4x2 7
fn f1604(a: [f64; 8]) -> Matrix<f64, 4, 2> { Matrix::<f64, 4, 2>::from(a) } // yes: from-array 4x2 8
fn f1605(a: &[f64; 8]) -> &Matrix<f64, 4, 2> { a.into() } // yes: from-array-ref 4x2 8
fn f1606(m: &Matrix<f64, 4, 2>) -> &[f64; 8] { m.as_ref() } // yes: as-ref 4x2 8
fn f1607(m: &mut Matrix<f64, 4, 2>) -> &mut [f64; 8] { m.as_mut() } // yes: as-mut 4x2 8
fn f1608(a: [f64; 9]) -> Matrix<f64, 4, 2> { Matrix::<f64, 4, 2>::from(a) } // no: from-array 4x2 9
fn f1609(a: &[f64; 9]) -> &Matrix<f64, 4, 2> { a.into() } // no: from-array-ref 4x2 9
fn f1610(m: &Matrix<f64, 4, 2>) -> &[f64; 9] { m.as_ref() } // no: as-ref 4x2 9
fn f1611(m: &mut Matrix<f64, 4, 2>) -> &mut [f64; 9] { m.as_mut() } // no: as-mut 4x2 9
fn f1612(a: [f64; 16]) -> Matrix<f64, 4, 2> { Matrix::<f64, 4, 2>::from(a) } // no: from-array 4x2 16
fn f1613(a: &[f64; 16]) -> &Matrix<f64, 4, 2> { a.into() } // no: from-array-ref 4x2 16
fn f1614(m: &Matrix<f64, 4, 2>) -> &[f64; 16] { m.as_ref() } // no: as-ref 4x2 16
fn f1615(m: &mut Matrix<f64, 4, 2>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 4x2 16
fn f1616(a: [f64; 17]) -> Matrix<f64, 4, 2> { Matrix::<f64, 4, 2>::from(a) } // no: from-array 4x2 17
fn f1617(a: &[f64; 17]) -> &Matrix<f64, 4, 2> { a.into() } // no: from-array-ref 4x2 17
fn f1618(m: &Matrix<f64, 4, 2>) -> &[f64; 17] { m.as_ref() } // no: as-ref 4x2 17
fn f1619(m: &mut Matrix<f64, 4, 2>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 4x2 17
fn f1620(a: [f64; 0]) -> Matrix<f64, 4, 3> { Matrix::<f64, 4, 3>::from(a) } // no: from-array 4x3 0
fn f1621(a: &[f64; 0]) -> &Matrix<f64, 4, 3> { a.into() } // no: from-array-ref 4x3 0
fn f1622(m: &Matrix<f64, 4, 3>) -> &[f64; 0] { m.as_ref() } // no: as-ref 4x3 0
fn f1623(m: &mut Matrix<f64, 4, 3>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 4x3 0
fn f1624(a: [f64; 1]) -> Matrix<f64, 4, 3> { Matrix::<f64, 4, 3>::from(a) } // no: from-array 4x3 1
fn f1625(a: &[f64; 1]) -> &Matrix<f64, 4, 3> { a.into() } // no: from-array-ref 4x3 1
fn f1626(m: &Matrix<f64, 4, 3>) -> &[f64; 1] { m.as_ref() } // no: as-ref 4x3 1
fn f1627(m: &mut Matrix<f64, 4, 3>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 4x3 1
fn f1628(a: [f64; 3]) -> Matrix<f64, 4, 3> { Matrix::<f64, 4, 3>::from(a) } // no: from-array 4x3 3
fn f1629(a: &[f64; 3]) -> &Matrix<f64, 4, 3> { a.into() } // no: from-array-ref 4x3 3
fn f1630(m: &Matrix<f64, 4, 3>) -> &[f64; 3] { m.as_ref() } // no: as-ref 4x3 3
fn f1631(m: &mut Matrix<f64, 4, 3>) -> &mut [f64; 3] { m.as_mut() } // no: as-mut 4x3 3
fn f1632(a: [f64; 4]) -> Matrix<f64, 4, 3> { Matrix::<f64, 4, 3>::from(a) } // no: from-array 4x3 4
fn f1633(a: &[f64; 4]) -> &Matrix<f64, 4, 3> { a.into() } // no: from-array-ref 4x3 4
fn f1634(m: &Matrix<f64, 4, 3>) -> &[f64; 4] { m.as_ref() } // no: as-ref 4x3 4
fn f1635(m: &mut Matrix<f64, 4, 3>) -> &mut [f64; 4] { m.as_mut() } // no: as-mut 4x3 4
fn f1636(a: [f64; 7]) -> Matrix<f64, 4, 3> { Matrix::<f64, 4, 3>::from(a) } // no: from-array 4x3 7
fn f1637(a: &[f64; 7]) -> &Matrix<f64, 4, 3> { a.into() } // no: from-array-ref 4x3 7
fn f1638(m: &Matrix<f64, 4, 3>) -> &[f64; 7] { m.as_ref() } // no: as-ref 4x3 7
fn f1639(m: &mut Matrix<f64, 4, 3>) -> &mut [f64; 7] { m.as_mut() } // no: as-mut 4x3 7
fn f1640(a: [f64; 9]) -> Matrix<f64, 4, 3> { Matrix::<f64, 4, 3>::from(a) } // no: from-array 4x3 9
fn f1641(a: &[f64; 9]) -> &Matrix<f64, 4, 3> { a.into() } // no: from-array-ref 4x3 9
fn f1642(m: &Matrix<f64, 4, 3>) -> &[f64; 9] { m.as_ref() } // no: as-ref 4x3 9
fn f1643(m: &mut Matrix<f64, 4, 3>) -> &mut [f64; 9] { m.as_mut() } // no: as-mut 4x3 9
fn f1644(a: [f64; 11]) -> Matrix<f64, 4, 3> { Matrix::<f64, 4, 3>::from(a) } // no: from-array 4x3 11
fn f1645(a: &[f64; 11]) -> &Matrix<f64, 4, 3> { a.into() } // no: from-array-ref 4x3 11
fn f1646(m: &Matrix<f64, 4, 3>) -> &[f64; 11] { m.as_ref() } // no: as-ref 4x3 11
fn f1647(m: &mut Matrix<f64, 4, 3>) -> &mut [f64; 11] { m.as_mut() } // no: as-mut 4x3 11
fn f1648(a: [f64; 12]) -> Matrix<f64, 4, 3> { Matrix::<f64, 4, 3>::from(a) } // yes: from-array 4x3 12
fn f1649(a: &[f64; 12]) -> &Matrix<f64, 4, 3> { a.into() } // yes: from-array-ref 4x3 12
fn f1650(m: &Matrix<f64, 4, 3>) -> &[f64; 12] { m.as_ref() } // yes: as-ref 4x3 12
fn f1651(m: &mut Matrix<f64, 4, 3>) -> &mut [f64; 12] { m.as_mut() } // yes: as-mut 4x3 12
fn f1652(a: [f64; 13]) -> Matrix<f64, 4, 3> { Matrix::<f64, 4, 3>::from(a) } // no: from-array 4x3 13
fn f1653(a: &[f64; 13]) -> &Matrix<f64, 4, 3> { a.into() } // no: from-array-ref 4x3 13
fn f1654(m: &Matrix<f64, 4, 3>) -> &[f64; 13] { m.as_ref() } // no: as-ref 4x3 13
fn f1655(m: &mut Matrix<f64, 4, 3>) -> &mut [f64; 13] { m.as_mut() } // no: as-mut 4x3 13
fn f1656(a: [f64; 16]) -> Matrix<f64, 4, 3> { Matrix::<f64, 4, 3>::from(a) } // no: from-array 4x3 16
fn f1657(a: &[f64; 16]) -> &Matrix<f64, 4, 3> { a.into() } // no: from-array-ref 4x3 16
fn f1658(m: &Matrix<f64, 4, 3>) -> &[f64; 16] { m.as_ref() } // no: as-ref 4x3 16
fn f1659(m: &mut Matrix<f64, 4, 3>) -> &mut [f64; 16] { m.as_mut() } // no: as-mut 4x3 16
fn f1660(a: [f64; 17]) -> Matrix<f64, 4, 3> { Matrix::<f64, 4, 3>::from(a) } // no: from-array 4x3 17
fn f1661(a: &[f64; 17]) -> &Matrix<f64, 4, 3> { a.into() } // no: from-array-ref 4x3 17
fn f1662(m: &Matrix<f64, 4, 3>) -> &[f64; 17] { m.as_ref() } // no: as-ref 4x3 17
fn f1663(m: &mut Matrix<f64, 4, 3>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 4x3 17
fn f1664(a: [f64; 0]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 0
fn f1665(a: &[f64; 0]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 0
fn f1666(m: &Matrix<f64, 4, 4>) -> &[f64; 0] { m.as_ref() } // no: as-ref 4x4 0
fn f1667(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 0] { m.as_mut() } // no: as-mut 4x4 0
fn f1668(a: [f64; 1]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 1
fn f1669(a: &[f64; 1]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 1
fn f1670(m: &Matrix<f64, 4, 4>) -> &[f64; 1] { m.as_ref() } // no: as-ref 4x4 1
fn f1671(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 1] { m.as_mut() } // no: as-mut 4x4 1
fn f1672(a: [f64; 2]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 2
fn f1673(a: &[f64; 2]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 2
fn f1674(m: &Matrix<f64, 4, 4>) -> &[f64; 2] { m.as_ref() } // no: as-ref 4x4 2
fn f1675(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 2] { m.as_mut() } // no: as-mut 4x4 2
fn f1676(a: [f64; 3]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 3
fn f1677(a: &[f64; 3]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 3
fn f1678(m: &Matrix<f64, 4, 4>) -> &[f64; 3] { m.as_ref() } // no: as-ref 4x4 3
fn f1679(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 3] { m.as_mut() } // no: as-mut 4x4 3
fn f1680(a: [f64; 4]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 4
fn f1681(a: &[f64; 4]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 4
fn f1682(m: &Matrix<f64, 4, 4>) -> &[f64; 4] { m.as_ref() } // no: as-ref 4x4 4
fn f1683(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 4] { m.as_mut() } // no: as-mut 4x4 4
fn f1684(a: [f64; 5]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 5
fn f1685(a: &[f64; 5]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 5
fn f1686(m: &Matrix<f64, 4, 4>) -> &[f64; 5] { m.as_ref() } // no: as-ref 4x4 5
fn f1687(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 5] { m.as_mut() } // no: as-mut 4x4 5
fn f1688(a: [f64; 6]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 6
fn f1689(a: &[f64; 6]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 6
fn f1690(m: &Matrix<f64, 4, 4>) -> &[f64; 6] { m.as_ref() } // no: as-ref 4x4 6
fn f1691(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 6] { m.as_mut() } // no: as-mut 4x4 6
fn f1692(a: [f64; 7]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 7
fn f1693(a: &[f64; 7]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 7
fn f1694(m: &Matrix<f64, 4, 4>) -> &[f64; 7] { m.as_ref() } // no: as-ref 4x4 7
fn f1695(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 7] { m.as_mut() } // no: as-mut 4x4 7
fn f1696(a: [f64; 8]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 8
fn f1697(a: &[f64; 8]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 8
fn f1698(m: &Matrix<f64, 4, 4>) -> &[f64; 8] { m.as_ref() } // no: as-ref 4x4 8
fn f1699(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 8] { m.as_mut() } // no: as-mut 4x4 8
fn f1700(a: [f64; 9]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 9
fn f1701(a: &[f64; 9]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 9
fn f1702(m: &Matrix<f64, 4, 4>) -> &[f64; 9] { m.as_ref() } // no: as-ref 4x4 9
fn f1703(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 9] { m.as_mut() } // no: as-mut 4x4 9
fn f1704(a: [f64; 10]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 10
fn f1705(a: &[f64; 10]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 10
fn f1706(m: &Matrix<f64, 4, 4>) -> &[f64; 10] { m.as_ref() } // no: as-ref 4x4 10
fn f1707(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 10] { m.as_mut() } // no: as-mut 4x4 10
fn f1708(a: [f64; 11]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 11
fn f1709(a: &[f64; 11]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 11
fn f1710(m: &Matrix<f64, 4, 4>) -> &[f64; 11] { m.as_ref() } // no: as-ref 4x4 11
fn f1711(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 11] { m.as_mut() } // no: as-mut 4x4 11
fn f1712(a: [f64; 12]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 12
fn f1713(a: &[f64; 12]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 12
fn f1714(m: &Matrix<f64, 4, 4>) -> &[f64; 12] { m.as_ref() } // no: as-ref 4x4 12
fn f1715(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 12] { m.as_mut() } // no: as-mut 4x4 12
fn f1716(a: [f64; 13]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 13
fn f1717(a: &[f64; 13]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 13
fn f1718(m: &Matrix<f64, 4, 4>) -> &[f64; 13] { m.as_ref() } // no: as-ref 4x4 13
fn f1719(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 13] { m.as_mut() } // no: as-mut 4x4 13
fn f1720(a: [f64; 14]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 14
fn f1721(a: &[f64; 14]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 14
fn f1722(m: &Matrix<f64, 4, 4>) -> &[f64; 14] { m.as_ref() } // no: as-ref 4x4 14
fn f1723(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 14] { m.as_mut() } // no: as-mut 4x4 14
fn f1724(a: [f64; 15]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 15
fn f1725(a: &[f64; 15]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 15
fn f1726(m: &Matrix<f64, 4, 4>) -> &[f64; 15] { m.as_ref() } // no: as-ref 4x4 15
fn f1727(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 15] { m.as_mut() } // no: as-mut 4x4 15
fn f1728(a: [f64; 16]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // yes: from-array 4x4 16
fn f1729(a: &[f64; 16]) -> &Matrix<f64, 4, 4> { a.into() } // yes: from-array-ref 4x4 16
fn f1730(m: &Matrix<f64, 4, 4>) -> &[f64; 16] { m.as_ref() } // yes: as-ref 4x4 16
fn f1731(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 16] { m.as_mut() } // yes: as-mut 4x4 16
fn f1732(a: [f64; 17]) -> Matrix<f64, 4, 4> { Matrix::<f64, 4, 4>::from(a) } // no: from-array 4x4 17
fn f1733(a: &[f64; 17]) -> &Matrix<f64, 4, 4> { a.into() } // no: from-array-ref 4x4 17
fn f1734(m: &Matrix<f64, 4, 4>) -> &[f64; 17] { m.as_ref() } // no: as-ref 4x4 17
fn f1735(m: &mut Matrix<f64, 4, 4>) -> &mut [f64; 17] { m.as_mut() } // no: as-mut 4x4 17
