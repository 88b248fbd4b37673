//! Harness stand-in for the `approx_cmp` crate.
//!
//! `cglinalg` depends on `approx_cmp` through git only, so it cannot be
//! fetched here. This crate has the same trait names, associated types and
//! macros, and the comparison rules that cglinalg's documentation states:
//!
//! * `abs_diff`: `|a - b| <= max_abs_diff`
//! * `relative`: equal, or `|a - b| <= max_abs_diff`, or
//!   `|a - b| <= max(|a|, |b|) * max_relative` (never for infinities/NaN)
//! * `ulps`: `|a - b| <= max_abs_diff`, or same sign and at most `max_ulps`
//!   representable steps apart
//!
//! No oracle in this harness uses it to decide a property: oracles use their
//! own arithmetic. It matters only where the library itself calls it
//! (`is_invertible`, `is_diagonal`, `is_symmetric`, `is_zero`-like tests) and
//! in the comparison impls whose forwarding is checked (property C17).
#![no_std]

pub trait AbsDiffEq<Rhs = Self>
where
    Rhs: ?Sized,
{
    type Tolerance: ?Sized;
    fn abs_diff_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> bool;
    #[inline]
    fn abs_diff_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> bool {
        !self.abs_diff_eq(other, max_abs_diff)
    }
}

pub trait AbsDiffAllEq<Rhs = Self>: AbsDiffEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllTolerance: ?Sized;
    fn abs_diff_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> bool;
    #[inline]
    fn abs_diff_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> bool {
        !self.abs_diff_all_eq(other, max_abs_diff)
    }
}

pub trait AssertAbsDiffEq<Rhs = Self>: AbsDiffEq<Rhs>
where
    Rhs: ?Sized,
{
    type DebugAbsDiff: core::fmt::Debug;
    type DebugTolerance: core::fmt::Debug;
    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
}

pub trait AssertAbsDiffAllEq<Rhs = Self>: AbsDiffAllEq<Rhs> + AssertAbsDiffEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllDebugTolerance: core::fmt::Debug;
    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
}

pub trait RelativeEq<Rhs = Self>
where
    Rhs: ?Sized,
{
    type Tolerance: ?Sized;
    fn relative_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool;
    #[inline]
    fn relative_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool {
        !self.relative_eq(other, max_abs_diff, max_relative)
    }
}

pub trait RelativeAllEq<Rhs = Self>: RelativeEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllTolerance: ?Sized;
    fn relative_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool;
    #[inline]
    fn relative_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool {
        !self.relative_all_eq(other, max_abs_diff, max_relative)
    }
}

pub trait AssertRelativeEq<Rhs = Self>: RelativeEq<Rhs>
where
    Rhs: ?Sized,
{
    type DebugAbsDiff: core::fmt::Debug;
    type DebugTolerance: core::fmt::Debug;
    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
    fn debug_relative_tolerance(&self, other: &Rhs, max_relative: &Self::Tolerance) -> Self::DebugTolerance;
}

pub trait AssertRelativeAllEq<Rhs = Self>: RelativeAllEq<Rhs> + AssertRelativeEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllDebugTolerance: core::fmt::Debug;
    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
    fn debug_relative_all_tolerance(&self, other: &Rhs, max_relative: &Self::AllTolerance) -> Self::AllDebugTolerance;
}

pub trait UlpsEq<Rhs = Self>
where
    Rhs: ?Sized,
{
    type Tolerance: ?Sized;
    type UlpsTolerance;
    fn ulps_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool;
    #[inline]
    fn ulps_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool {
        !self.ulps_eq(other, max_abs_diff, max_ulps)
    }
}

pub trait UlpsAllEq<Rhs = Self>: UlpsEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllTolerance: ?Sized;
    type AllUlpsTolerance: ?Sized;
    fn ulps_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool;
    #[inline]
    fn ulps_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool {
        !self.ulps_all_eq(other, max_abs_diff, max_ulps)
    }
}

pub trait AssertUlpsEq<Rhs = Self>: UlpsEq<Rhs>
where
    Rhs: ?Sized,
{
    type DebugAbsDiff: core::fmt::Debug;
    type DebugUlpsDiff: core::fmt::Debug;
    type DebugTolerance: core::fmt::Debug;
    type DebugUlpsTolerance: core::fmt::Debug;
    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_ulps_diff(&self, other: &Rhs) -> Self::DebugUlpsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
    fn debug_ulps_tolerance(&self, other: &Rhs, max_ulps: &Self::UlpsTolerance) -> Self::DebugUlpsTolerance;
}

pub trait AssertUlpsAllEq<Rhs = Self>: UlpsAllEq<Rhs> + AssertUlpsEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllDebugTolerance: core::fmt::Debug;
    type AllDebugUlpsTolerance: core::fmt::Debug;
    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
    fn debug_ulps_all_tolerance(&self, other: &Rhs, max_ulps: &Self::AllUlpsTolerance) -> Self::AllDebugUlpsTolerance;
}

macro_rules! impl_float {
    ($T:ident, $U:ident) => {
        impl AbsDiffEq for $T {
            type Tolerance = $T;
            #[inline]
            fn abs_diff_eq(&self, other: &$T, max_abs_diff: &$T) -> bool {
                self == other || $T::abs(self - other) <= *max_abs_diff
            }
        }
        impl AbsDiffAllEq for $T {
            type AllTolerance = $T;
            #[inline]
            fn abs_diff_all_eq(&self, other: &$T, max_abs_diff: &$T) -> bool {
                self.abs_diff_eq(other, max_abs_diff)
            }
        }
        impl AssertAbsDiffEq for $T {
            type DebugAbsDiff = $T;
            type DebugTolerance = $T;
            fn debug_abs_diff(&self, other: &$T) -> $T {
                $T::abs(self - other)
            }
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
        }
        impl AssertAbsDiffAllEq for $T {
            type AllDebugTolerance = $T;
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
        }
        impl RelativeEq for $T {
            type Tolerance = $T;
            #[inline]
            fn relative_eq(&self, other: &$T, max_abs_diff: &$T, max_relative: &$T) -> bool {
                if self == other {
                    return true;
                }
                if self.is_infinite() || other.is_infinite() {
                    return false;
                }
                let abs_diff = $T::abs(self - other);
                if abs_diff <= *max_abs_diff {
                    return true;
                }
                let abs_self = $T::abs(*self);
                let abs_other = $T::abs(*other);
                let largest = if abs_other > abs_self { abs_other } else { abs_self };
                abs_diff <= largest * *max_relative
            }
        }
        impl RelativeAllEq for $T {
            type AllTolerance = $T;
            #[inline]
            fn relative_all_eq(&self, other: &$T, max_abs_diff: &$T, max_relative: &$T) -> bool {
                self.relative_eq(other, max_abs_diff, max_relative)
            }
        }
        impl AssertRelativeEq for $T {
            type DebugAbsDiff = $T;
            type DebugTolerance = $T;
            fn debug_abs_diff(&self, other: &$T) -> $T {
                $T::abs(self - other)
            }
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
            fn debug_relative_tolerance(&self, other: &$T, max_relative: &$T) -> $T {
                $T::max($T::abs(*self), $T::abs(*other)) * *max_relative
            }
        }
        impl AssertRelativeAllEq for $T {
            type AllDebugTolerance = $T;
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
            fn debug_relative_all_tolerance(&self, other: &$T, max_relative: &$T) -> $T {
                $T::max($T::abs(*self), $T::abs(*other)) * *max_relative
            }
        }
        impl UlpsEq for $T {
            type Tolerance = $T;
            type UlpsTolerance = $U;
            #[inline]
            fn ulps_eq(&self, other: &$T, max_abs_diff: &$T, max_ulps: &$U) -> bool {
                if self == other || $T::abs(self - other) <= *max_abs_diff {
                    return true;
                }
                match self.debug_ulps_diff(other) {
                    Some(diff) => diff <= *max_ulps,
                    None => false,
                }
            }
        }
        impl UlpsAllEq for $T {
            type AllTolerance = $T;
            type AllUlpsTolerance = $U;
            #[inline]
            fn ulps_all_eq(&self, other: &$T, max_abs_diff: &$T, max_ulps: &$U) -> bool {
                self.ulps_eq(other, max_abs_diff, max_ulps)
            }
        }
        impl AssertUlpsEq for $T {
            type DebugAbsDiff = $T;
            type DebugUlpsDiff = Option<$U>;
            type DebugTolerance = $T;
            type DebugUlpsTolerance = $U;
            fn debug_abs_diff(&self, other: &$T) -> $T {
                $T::abs(self - other)
            }
            fn debug_ulps_diff(&self, other: &$T) -> Option<$U> {
                if self == other {
                    return Some(0);
                }
                if self.is_nan() || other.is_nan() {
                    return None;
                }
                if self.is_sign_positive() != other.is_sign_positive() {
                    return None;
                }
                Some(self.to_bits().abs_diff(other.to_bits()))
            }
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
            fn debug_ulps_tolerance(&self, _other: &$T, max_ulps: &$U) -> $U {
                *max_ulps
            }
        }
        impl AssertUlpsAllEq for $T {
            type AllDebugTolerance = $T;
            type AllDebugUlpsTolerance = $U;
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
            fn debug_ulps_all_tolerance(&self, _other: &$T, max_ulps: &$U) -> $U {
                *max_ulps
            }
        }
    };
}

impl_float!(f32, u32);
impl_float!(f64, u64);

impl<A: AbsDiffEq, const N: usize> AbsDiffEq for [A; N]
where
    A::Tolerance: Sized,
{
    type Tolerance = [A::Tolerance; N];
    fn abs_diff_eq(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> bool {
        (0..N).all(|i| self[i].abs_diff_eq(&other[i], &max_abs_diff[i]))
    }
}
impl<A: AbsDiffAllEq, const N: usize> AbsDiffAllEq for [A; N]
where
    A::Tolerance: Sized,
{
    type AllTolerance = A::AllTolerance;
    fn abs_diff_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> bool {
        (0..N).all(|i| self[i].abs_diff_all_eq(&other[i], max_abs_diff))
    }
}
impl<A: AssertAbsDiffEq, const N: usize> AssertAbsDiffEq for [A; N]
where
    A::Tolerance: Sized,
{
    type DebugAbsDiff = [A::DebugAbsDiff; N];
    type DebugTolerance = [A::DebugTolerance; N];
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        core::array::from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }
    fn debug_abs_diff_tolerance(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &max_abs_diff[i]))
    }
}
impl<A: AssertAbsDiffAllEq, const N: usize> AssertAbsDiffAllEq for [A; N]
where
    A::Tolerance: Sized,
{
    type AllDebugTolerance = [A::AllDebugTolerance; N];
    fn debug_abs_diff_all_tolerance(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], max_abs_diff))
    }
}
impl<A: RelativeEq, const N: usize> RelativeEq for [A; N]
where
    A::Tolerance: Sized,
{
    type Tolerance = [A::Tolerance; N];
    fn relative_eq(&self, other: &Self, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool {
        (0..N).all(|i| self[i].relative_eq(&other[i], &max_abs_diff[i], &max_relative[i]))
    }
}
impl<A: RelativeAllEq, const N: usize> RelativeAllEq for [A; N]
where
    A::Tolerance: Sized,
{
    type AllTolerance = A::AllTolerance;
    fn relative_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool {
        (0..N).all(|i| self[i].relative_all_eq(&other[i], max_abs_diff, max_relative))
    }
}
impl<A: AssertRelativeEq, const N: usize> AssertRelativeEq for [A; N]
where
    A::Tolerance: Sized,
{
    type DebugAbsDiff = [A::DebugAbsDiff; N];
    type DebugTolerance = [A::DebugTolerance; N];
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        core::array::from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }
    fn debug_abs_diff_tolerance(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &max_abs_diff[i]))
    }
    fn debug_relative_tolerance(&self, other: &Self, max_relative: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_relative_tolerance(&other[i], &max_relative[i]))
    }
}
impl<A: AssertRelativeAllEq, const N: usize> AssertRelativeAllEq for [A; N]
where
    A::Tolerance: Sized,
{
    type AllDebugTolerance = [A::AllDebugTolerance; N];
    fn debug_abs_diff_all_tolerance(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], max_abs_diff))
    }
    fn debug_relative_all_tolerance(&self, other: &Self, max_relative: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_relative_all_tolerance(&other[i], max_relative))
    }
}
impl<A: UlpsEq, const N: usize> UlpsEq for [A; N]
where
    A::Tolerance: Sized,
    A::UlpsTolerance: Sized,
{
    type Tolerance = [A::Tolerance; N];
    type UlpsTolerance = [A::UlpsTolerance; N];
    fn ulps_eq(&self, other: &Self, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool {
        (0..N).all(|i| self[i].ulps_eq(&other[i], &max_abs_diff[i], &max_ulps[i]))
    }
}
impl<A: UlpsAllEq, const N: usize> UlpsAllEq for [A; N]
where
    A::Tolerance: Sized,
    A::UlpsTolerance: Sized,
{
    type AllTolerance = A::AllTolerance;
    type AllUlpsTolerance = A::AllUlpsTolerance;
    fn ulps_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool {
        (0..N).all(|i| self[i].ulps_all_eq(&other[i], max_abs_diff, max_ulps))
    }
}
impl<A: AssertUlpsEq, const N: usize> AssertUlpsEq for [A; N]
where
    A::Tolerance: Sized,
    A::UlpsTolerance: Sized,
{
    type DebugAbsDiff = [A::DebugAbsDiff; N];
    type DebugUlpsDiff = [A::DebugUlpsDiff; N];
    type DebugTolerance = [A::DebugTolerance; N];
    type DebugUlpsTolerance = [A::DebugUlpsTolerance; N];
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        core::array::from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }
    fn debug_ulps_diff(&self, other: &Self) -> Self::DebugUlpsDiff {
        core::array::from_fn(|i| self[i].debug_ulps_diff(&other[i]))
    }
    fn debug_abs_diff_tolerance(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &max_abs_diff[i]))
    }
    fn debug_ulps_tolerance(&self, other: &Self, max_ulps: &Self::UlpsTolerance) -> Self::DebugUlpsTolerance {
        core::array::from_fn(|i| self[i].debug_ulps_tolerance(&other[i], &max_ulps[i]))
    }
}
impl<A: AssertUlpsAllEq, const N: usize> AssertUlpsAllEq for [A; N]
where
    A::Tolerance: Sized,
    A::UlpsTolerance: Sized,
{
    type AllDebugTolerance = [A::AllDebugTolerance; N];
    type AllDebugUlpsTolerance = [A::AllDebugUlpsTolerance; N];
    fn debug_abs_diff_all_tolerance(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance {
        core::array::from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], max_abs_diff))
    }
    fn debug_ulps_all_tolerance(&self, other: &Self, max_ulps: &Self::AllUlpsTolerance) -> Self::AllDebugUlpsTolerance {
        core::array::from_fn(|i| self[i].debug_ulps_all_tolerance(&other[i], max_ulps))
    }
}

impl<A: AbsDiffEq + ?Sized> AbsDiffEq for &A {
    type Tolerance = A::Tolerance;
    fn abs_diff_eq(&self, other: &Self, max_abs_diff: &Self::Tolerance) -> bool {
        (**self).abs_diff_eq(&**other, max_abs_diff)
    }
}
impl<A: AbsDiffAllEq + ?Sized> AbsDiffAllEq for &A {
    type AllTolerance = A::AllTolerance;
    fn abs_diff_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> bool {
        (**self).abs_diff_all_eq(&**other, max_abs_diff)
    }
}
impl<A: RelativeEq + ?Sized> RelativeEq for &A {
    type Tolerance = A::Tolerance;
    fn relative_eq(&self, other: &Self, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool {
        (**self).relative_eq(&**other, max_abs_diff, max_relative)
    }
}
impl<A: RelativeAllEq + ?Sized> RelativeAllEq for &A {
    type AllTolerance = A::AllTolerance;
    fn relative_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool {
        (**self).relative_all_eq(&**other, max_abs_diff, max_relative)
    }
}
impl<A: UlpsEq + ?Sized> UlpsEq for &A {
    type Tolerance = A::Tolerance;
    type UlpsTolerance = A::UlpsTolerance;
    fn ulps_eq(&self, other: &Self, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool {
        (**self).ulps_eq(&**other, max_abs_diff, max_ulps)
    }
}
impl<A: UlpsAllEq + ?Sized> UlpsAllEq for &A {
    type AllTolerance = A::AllTolerance;
    type AllUlpsTolerance = A::AllUlpsTolerance;
    fn ulps_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool {
        (**self).ulps_all_eq(&**other, max_abs_diff, max_ulps)
    }
}

#[macro_export]
macro_rules! abs_diff_eq {
    ($l:expr, $r:expr, abs_diff <= $a:expr $(,)?) => { $crate::AbsDiffEq::abs_diff_eq(&$l, &$r, &$a) };
    ($l:expr, $r:expr, abs_diff_all <= $a:expr $(,)?) => { $crate::AbsDiffAllEq::abs_diff_all_eq(&$l, &$r, &$a) };
}
#[macro_export]
macro_rules! abs_diff_ne {
    ($($t:tt)*) => { !$crate::abs_diff_eq!($($t)*) };
}
#[macro_export]
macro_rules! relative_eq {
    ($l:expr, $r:expr, abs_diff <= $a:expr, relative <= $b:expr $(,)?) => { $crate::RelativeEq::relative_eq(&$l, &$r, &$a, &$b) };
    ($l:expr, $r:expr, abs_diff_all <= $a:expr, relative_all <= $b:expr $(,)?) => { $crate::RelativeAllEq::relative_all_eq(&$l, &$r, &$a, &$b) };
}
#[macro_export]
macro_rules! relative_ne {
    ($($t:tt)*) => { !$crate::relative_eq!($($t)*) };
}
#[macro_export]
macro_rules! ulps_eq {
    ($l:expr, $r:expr, abs_diff <= $a:expr, ulps <= $b:expr $(,)?) => { $crate::UlpsEq::ulps_eq(&$l, &$r, &$a, &$b) };
    ($l:expr, $r:expr, abs_diff_all <= $a:expr, ulps_all <= $b:expr $(,)?) => { $crate::UlpsAllEq::ulps_all_eq(&$l, &$r, &$a, &$b) };
}
#[macro_export]
macro_rules! ulps_ne {
    ($($t:tt)*) => { !$crate::ulps_eq!($($t)*) };
}
#[macro_export]
macro_rules! assert_abs_diff_eq {
    ($l:expr, $r:expr, $($t:tt)*) => { match (&$l, &$r) { (l, r) => assert!($crate::abs_diff_eq!(*l, *r, $($t)*), "assert_abs_diff_eq: left {:?}, right {:?}", l, r) } };
}
#[macro_export]
macro_rules! assert_abs_diff_ne {
    ($l:expr, $r:expr, $($t:tt)*) => { match (&$l, &$r) { (l, r) => assert!($crate::abs_diff_ne!(*l, *r, $($t)*), "assert_abs_diff_ne: left {:?}, right {:?}", l, r) } };
}
#[macro_export]
macro_rules! assert_relative_eq {
    ($l:expr, $r:expr, $($t:tt)*) => { match (&$l, &$r) { (l, r) => assert!($crate::relative_eq!(*l, *r, $($t)*), "assert_relative_eq: left {:?}, right {:?}", l, r) } };
}
#[macro_export]
macro_rules! assert_relative_ne {
    ($l:expr, $r:expr, $($t:tt)*) => { match (&$l, &$r) { (l, r) => assert!($crate::relative_ne!(*l, *r, $($t)*), "assert_relative_ne: left {:?}, right {:?}", l, r) } };
}
#[macro_export]
macro_rules! assert_ulps_eq {
    ($l:expr, $r:expr, $($t:tt)*) => { match (&$l, &$r) { (l, r) => assert!($crate::ulps_eq!(*l, *r, $($t)*), "assert_ulps_eq: left {:?}, right {:?}", l, r) } };
}
#[macro_export]
macro_rules! assert_ulps_ne {
    ($l:expr, $r:expr, $($t:tt)*) => { match (&$l, &$r) { (l, r) => assert!($crate::ulps_ne!(*l, *r, $($t)*), "assert_ulps_ne: left {:?}, right {:?}", l, r) } };
}
