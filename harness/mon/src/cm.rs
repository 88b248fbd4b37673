//! Oracle for the complex elementary functions: the C library's <complex.h>, which implements the
//! principal branches with the signed-zero and infinity conventions of C Annex G. On x86-64 a
//! `double complex` is passed and returned exactly like this two-double struct.
#[repr(C)]
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct C(pub f64, pub f64);
#[cfg(not(miri))]
mod ffi {
    use super::C;
    #[link(name = "m")]
    extern "C" {
        pub fn cexp(z: C) -> C; pub fn clog(z: C) -> C; pub fn csqrt(z: C) -> C; pub fn cpow(z: C, w: C) -> C;
        pub fn ccos(z: C) -> C; pub fn csin(z: C) -> C; pub fn ctan(z: C) -> C;
        pub fn cacos(z: C) -> C; pub fn casin(z: C) -> C; pub fn catan(z: C) -> C;
        pub fn ccosh(z: C) -> C; pub fn csinh(z: C) -> C; pub fn ctanh(z: C) -> C;
        pub fn cacosh(z: C) -> C; pub fn casinh(z: C) -> C; pub fn catanh(z: C) -> C;
    }
}
/// Under the interpreter no foreign code can run and values are not judged: arguments stand in for values.
#[cfg(miri)]
mod ffi {
    use super::C;
    macro_rules! id { ($($f:ident)*) => { $( pub unsafe fn $f(z: C) -> C { z } )* } }
    id!(cexp clog csqrt ccos csin ctan cacos casin catan ccosh csinh ctanh cacosh casinh catanh);
    pub unsafe fn cpow(z: C, _: C) -> C { z }
}
macro_rules! wrap { ($($n:ident $f:ident),*) => { $( pub fn $n(z: C) -> C { unsafe { ffi::$f(z) } } )* }; }
wrap!(exp cexp, ln clog, sqrt csqrt, cos ccos, sin csin, tan ctan, acos cacos, asin casin, atan catan, cosh ccosh, sinh csinh, tanh ctanh, acosh cacosh, asinh casinh, atanh catanh);
pub fn pow(z: C, w: C) -> C { unsafe { ffi::cpow(z, w) } }
pub type F = fn(C) -> C;
/// The value of `f` at `z`, at every choice of the signs of the zero components of `z` (both
/// one-sided values when `z` lies on a cut along an axis).
pub fn sides(f: F, z: C) -> Vec<C> {
    let re: Vec<f64> = if z.0 == 0.0 { vec![0.0, -0.0] } else { vec![z.0] };
    let im: Vec<f64> = if z.1 == 0.0 { vec![0.0, -0.0] } else { vec![z.1] };
    re.iter().flat_map(|&a| im.iter().map(move |&b| f(C(a, b)))).collect()
}
/// A numerical bound on the sensitivity of `f` at `z` to a relative perturbation of its argument.
pub fn cond(f: F, z: C) -> f64 {
    let m = z.0.hypot(z.1);
    let h = 1e-7 * m;
    let w = f(z);
    let mut c: f64 = 0.0;
    for (a, b) in [(h, 0.0), (-h, 0.0), (0.0, h), (0.0, -h)] {
        let v = f(C(z.0 + a, z.1 + b));
        let d = (v.0 - w.0).hypot(v.1 - w.1);
        // a jump across a cut is not sensitivity
        if d.is_finite() && d < 1.0 + 1e-3 * w.0.hypot(w.1) { c = c.max(d / 1e-7); }
    }
    c
}
