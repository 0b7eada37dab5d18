//! Offline stand-in for `approx_cmp` 1.0.0, which cglinalg takes from a git
//! repository that cannot be reached here.
//!
//! Only the trait and macro surface cglinalg uses is provided, written from
//! that use. It holds no state, allocates nothing, and never loops on a value.
#![no_std]

pub trait AbsDiffEq<Rhs = Self>
where
    Rhs: ?Sized,
{
    type Tolerance;
    fn abs_diff_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> bool;
    #[inline]
    fn abs_diff_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> bool {
        !self.abs_diff_eq(other, max_abs_diff)
    }
}

pub trait AbsDiffAllEq<Rhs = Self>: AbsDiffEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllTolerance;
    fn abs_diff_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> bool;
    #[inline]
    fn abs_diff_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> bool {
        !self.abs_diff_all_eq(other, max_abs_diff)
    }
}

pub trait AssertAbsDiffEq<Rhs = Self>: AbsDiffEq<Rhs>
where
    Rhs: ?Sized,
{
    type DebugAbsDiff: core::fmt::Debug;
    type DebugTolerance: core::fmt::Debug;
    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
}

pub trait AssertAbsDiffAllEq<Rhs = Self>: AbsDiffAllEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllDebugTolerance: core::fmt::Debug;
    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
}

pub trait RelativeEq<Rhs = Self>
where
    Rhs: ?Sized,
{
    type Tolerance;
    fn relative_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool;
    #[inline]
    fn relative_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_relative: &Self::Tolerance) -> bool {
        !self.relative_eq(other, max_abs_diff, max_relative)
    }
}

pub trait RelativeAllEq<Rhs = Self>: RelativeEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllTolerance;
    fn relative_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool;
    #[inline]
    fn relative_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_relative: &Self::AllTolerance) -> bool {
        !self.relative_all_eq(other, max_abs_diff, max_relative)
    }
}

pub trait AssertRelativeEq<Rhs = Self>: RelativeEq<Rhs>
where
    Rhs: ?Sized,
{
    type DebugAbsDiff: core::fmt::Debug;
    type DebugTolerance: core::fmt::Debug;
    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
    fn debug_relative_tolerance(&self, other: &Rhs, max_relative: &Self::Tolerance) -> Self::DebugTolerance;
}

pub trait AssertRelativeAllEq<Rhs = Self>: RelativeAllEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllDebugTolerance: core::fmt::Debug;
    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
    fn debug_relative_all_tolerance(&self, other: &Rhs, max_relative: &Self::AllTolerance) -> Self::AllDebugTolerance;
}

pub trait UlpsEq<Rhs = Self>
where
    Rhs: ?Sized,
{
    type Tolerance;
    type UlpsTolerance;
    fn ulps_eq(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool;
    #[inline]
    fn ulps_ne(&self, other: &Rhs, max_abs_diff: &Self::Tolerance, max_ulps: &Self::UlpsTolerance) -> bool {
        !self.ulps_eq(other, max_abs_diff, max_ulps)
    }
}

pub trait UlpsAllEq<Rhs = Self>: UlpsEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllTolerance;
    type AllUlpsTolerance;
    fn ulps_all_eq(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool;
    #[inline]
    fn ulps_all_ne(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance, max_ulps: &Self::AllUlpsTolerance) -> bool {
        !self.ulps_all_eq(other, max_abs_diff, max_ulps)
    }
}

pub trait AssertUlpsEq<Rhs = Self>: UlpsEq<Rhs>
where
    Rhs: ?Sized,
{
    type DebugAbsDiff: core::fmt::Debug;
    type DebugUlpsDiff: core::fmt::Debug;
    type DebugTolerance: core::fmt::Debug;
    type DebugUlpsTolerance: core::fmt::Debug;
    fn debug_abs_diff(&self, other: &Rhs) -> Self::DebugAbsDiff;
    fn debug_ulps_diff(&self, other: &Rhs) -> Self::DebugUlpsDiff;
    fn debug_abs_diff_tolerance(&self, other: &Rhs, max_abs_diff: &Self::Tolerance) -> Self::DebugTolerance;
    fn debug_ulps_tolerance(&self, other: &Rhs, max_ulps: &Self::UlpsTolerance) -> Self::DebugUlpsTolerance;
}

pub trait AssertUlpsAllEq<Rhs = Self>: UlpsAllEq<Rhs>
where
    Rhs: ?Sized,
{
    type AllDebugTolerance: core::fmt::Debug;
    type AllDebugUlpsTolerance: core::fmt::Debug;
    fn debug_abs_diff_all_tolerance(&self, other: &Rhs, max_abs_diff: &Self::AllTolerance) -> Self::AllDebugTolerance;
    fn debug_ulps_all_tolerance(&self, other: &Rhs, max_ulps: &Self::AllUlpsTolerance) -> Self::AllDebugUlpsTolerance;
}

macro_rules! impl_float {
    ($T:ident, $U:ident) => {
        impl AbsDiffEq for $T {
            type Tolerance = $T;
            #[inline]
            fn abs_diff_eq(&self, other: &$T, max_abs_diff: &$T) -> bool {
                self == other || abs(*self - *other) <= *max_abs_diff
            }
        }
        impl AbsDiffAllEq for $T {
            type AllTolerance = $T;
            #[inline]
            fn abs_diff_all_eq(&self, other: &$T, max_abs_diff: &$T) -> bool {
                self.abs_diff_eq(other, max_abs_diff)
            }
        }
        impl AssertAbsDiffEq for $T {
            type DebugAbsDiff = $T;
            type DebugTolerance = $T;
            #[inline]
            fn debug_abs_diff(&self, other: &$T) -> $T {
                abs(*self - *other)
            }
            #[inline]
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
        }
        impl AssertAbsDiffAllEq for $T {
            type AllDebugTolerance = $T;
            #[inline]
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
        }
        impl RelativeEq for $T {
            type Tolerance = $T;
            #[inline]
            fn relative_eq(&self, other: &$T, max_abs_diff: &$T, max_relative: &$T) -> bool {
                if self == other {
                    return true;
                }
                if self.is_infinite() || other.is_infinite() {
                    return false;
                }
                let abs_diff = abs(*self - *other);
                if abs_diff <= *max_abs_diff {
                    return true;
                }
                let abs_self = abs(*self);
                let abs_other = abs(*other);
                let largest = if abs_other > abs_self { abs_other } else { abs_self };
                abs_diff <= largest * *max_relative
            }
        }
        impl RelativeAllEq for $T {
            type AllTolerance = $T;
            #[inline]
            fn relative_all_eq(&self, other: &$T, max_abs_diff: &$T, max_relative: &$T) -> bool {
                self.relative_eq(other, max_abs_diff, max_relative)
            }
        }
        impl AssertRelativeEq for $T {
            type DebugAbsDiff = $T;
            type DebugTolerance = $T;
            #[inline]
            fn debug_abs_diff(&self, other: &$T) -> $T {
                abs(*self - *other)
            }
            #[inline]
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
            #[inline]
            fn debug_relative_tolerance(&self, other: &$T, max_relative: &$T) -> $T {
                let abs_self = abs(*self);
                let abs_other = abs(*other);
                let largest = if abs_other > abs_self { abs_other } else { abs_self };
                largest * *max_relative
            }
        }
        impl AssertRelativeAllEq for $T {
            type AllDebugTolerance = $T;
            #[inline]
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
            #[inline]
            fn debug_relative_all_tolerance(&self, other: &$T, max_relative: &$T) -> $T {
                AssertRelativeEq::debug_relative_tolerance(self, other, max_relative)
            }
        }
        impl UlpsEq for $T {
            type Tolerance = $T;
            type UlpsTolerance = $U;
            #[inline]
            fn ulps_eq(&self, other: &$T, max_abs_diff: &$T, max_ulps: &$U) -> bool {
                if self.abs_diff_eq(other, max_abs_diff) {
                    return true;
                }
                match AssertUlpsEq::debug_ulps_diff(self, other) {
                    Some(ulps) => ulps <= *max_ulps,
                    None => false,
                }
            }
        }
        impl UlpsAllEq for $T {
            type AllTolerance = $T;
            type AllUlpsTolerance = $U;
            #[inline]
            fn ulps_all_eq(&self, other: &$T, max_abs_diff: &$T, max_ulps: &$U) -> bool {
                self.ulps_eq(other, max_abs_diff, max_ulps)
            }
        }
        impl AssertUlpsEq for $T {
            type DebugAbsDiff = $T;
            type DebugUlpsDiff = Option<$U>;
            type DebugTolerance = $T;
            type DebugUlpsTolerance = $U;
            #[inline]
            fn debug_abs_diff(&self, other: &$T) -> $T {
                abs(*self - *other)
            }
            #[inline]
            fn debug_ulps_diff(&self, other: &$T) -> Option<$U> {
                if self == other {
                    return Some(0);
                }
                if self.is_nan() || other.is_nan() || self.is_sign_positive() != other.is_sign_positive() {
                    return None;
                }
                let a = self.to_bits();
                let b = other.to_bits();
                Some(if a > b { a - b } else { b - a })
            }
            #[inline]
            fn debug_abs_diff_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
            #[inline]
            fn debug_ulps_tolerance(&self, _other: &$T, max_ulps: &$U) -> $U {
                *max_ulps
            }
        }
        impl AssertUlpsAllEq for $T {
            type AllDebugTolerance = $T;
            type AllDebugUlpsTolerance = $U;
            #[inline]
            fn debug_abs_diff_all_tolerance(&self, _other: &$T, max_abs_diff: &$T) -> $T {
                *max_abs_diff
            }
            #[inline]
            fn debug_ulps_all_tolerance(&self, _other: &$T, max_ulps: &$U) -> $U {
                *max_ulps
            }
        }
    };
}

#[inline]
fn abs<T: PartialOrd + Default + core::ops::Neg<Output = T> + Copy>(x: T) -> T {
    if x < T::default() {
        -x
    } else {
        x
    }
}

impl_float!(f32, u32);
impl_float!(f64, u64);

use core::array::from_fn;

impl<A: AbsDiffEq, const N: usize> AbsDiffEq for [A; N] {
    type Tolerance = [A::Tolerance; N];
    #[inline]
    fn abs_diff_eq(&self, other: &Self, t: &Self::Tolerance) -> bool {
        (0..N).all(|i| self[i].abs_diff_eq(&other[i], &t[i]))
    }
}
impl<A: AbsDiffAllEq, const N: usize> AbsDiffAllEq for [A; N] {
    type AllTolerance = A::AllTolerance;
    #[inline]
    fn abs_diff_all_eq(&self, other: &Self, t: &Self::AllTolerance) -> bool {
        (0..N).all(|i| self[i].abs_diff_all_eq(&other[i], t))
    }
}
impl<A: AssertAbsDiffEq, const N: usize> AssertAbsDiffEq for [A; N] {
    type DebugAbsDiff = [A::DebugAbsDiff; N];
    type DebugTolerance = [A::DebugTolerance; N];
    #[inline]
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }
    #[inline]
    fn debug_abs_diff_tolerance(&self, other: &Self, t: &Self::Tolerance) -> Self::DebugTolerance {
        from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &t[i]))
    }
}
impl<A: AssertAbsDiffAllEq, const N: usize> AssertAbsDiffAllEq for [A; N] {
    type AllDebugTolerance = [A::AllDebugTolerance; N];
    #[inline]
    fn debug_abs_diff_all_tolerance(&self, other: &Self, t: &Self::AllTolerance) -> Self::AllDebugTolerance {
        from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], t))
    }
}
impl<A: RelativeEq, const N: usize> RelativeEq for [A; N] {
    type Tolerance = [A::Tolerance; N];
    #[inline]
    fn relative_eq(&self, other: &Self, t: &Self::Tolerance, r: &Self::Tolerance) -> bool {
        (0..N).all(|i| self[i].relative_eq(&other[i], &t[i], &r[i]))
    }
}
impl<A: RelativeAllEq, const N: usize> RelativeAllEq for [A; N] {
    type AllTolerance = A::AllTolerance;
    #[inline]
    fn relative_all_eq(&self, other: &Self, t: &Self::AllTolerance, r: &Self::AllTolerance) -> bool {
        (0..N).all(|i| self[i].relative_all_eq(&other[i], t, r))
    }
}
impl<A: AssertRelativeEq, const N: usize> AssertRelativeEq for [A; N] {
    type DebugAbsDiff = [A::DebugAbsDiff; N];
    type DebugTolerance = [A::DebugTolerance; N];
    #[inline]
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }
    #[inline]
    fn debug_abs_diff_tolerance(&self, other: &Self, t: &Self::Tolerance) -> Self::DebugTolerance {
        from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &t[i]))
    }
    #[inline]
    fn debug_relative_tolerance(&self, other: &Self, r: &Self::Tolerance) -> Self::DebugTolerance {
        from_fn(|i| self[i].debug_relative_tolerance(&other[i], &r[i]))
    }
}
impl<A: AssertRelativeAllEq, const N: usize> AssertRelativeAllEq for [A; N] {
    type AllDebugTolerance = [A::AllDebugTolerance; N];
    #[inline]
    fn debug_abs_diff_all_tolerance(&self, other: &Self, t: &Self::AllTolerance) -> Self::AllDebugTolerance {
        from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], t))
    }
    #[inline]
    fn debug_relative_all_tolerance(&self, other: &Self, r: &Self::AllTolerance) -> Self::AllDebugTolerance {
        from_fn(|i| self[i].debug_relative_all_tolerance(&other[i], r))
    }
}
impl<A: UlpsEq, const N: usize> UlpsEq for [A; N] {
    type Tolerance = [A::Tolerance; N];
    type UlpsTolerance = [A::UlpsTolerance; N];
    #[inline]
    fn ulps_eq(&self, other: &Self, t: &Self::Tolerance, u: &Self::UlpsTolerance) -> bool {
        (0..N).all(|i| self[i].ulps_eq(&other[i], &t[i], &u[i]))
    }
}
impl<A: UlpsAllEq, const N: usize> UlpsAllEq for [A; N] {
    type AllTolerance = A::AllTolerance;
    type AllUlpsTolerance = A::AllUlpsTolerance;
    #[inline]
    fn ulps_all_eq(&self, other: &Self, t: &Self::AllTolerance, u: &Self::AllUlpsTolerance) -> bool {
        (0..N).all(|i| self[i].ulps_all_eq(&other[i], t, u))
    }
}
impl<A: AssertUlpsEq, const N: usize> AssertUlpsEq for [A; N] {
    type DebugAbsDiff = [A::DebugAbsDiff; N];
    type DebugUlpsDiff = [A::DebugUlpsDiff; N];
    type DebugTolerance = [A::DebugTolerance; N];
    type DebugUlpsTolerance = [A::DebugUlpsTolerance; N];
    #[inline]
    fn debug_abs_diff(&self, other: &Self) -> Self::DebugAbsDiff {
        from_fn(|i| self[i].debug_abs_diff(&other[i]))
    }
    #[inline]
    fn debug_ulps_diff(&self, other: &Self) -> Self::DebugUlpsDiff {
        from_fn(|i| self[i].debug_ulps_diff(&other[i]))
    }
    #[inline]
    fn debug_abs_diff_tolerance(&self, other: &Self, t: &Self::Tolerance) -> Self::DebugTolerance {
        from_fn(|i| self[i].debug_abs_diff_tolerance(&other[i], &t[i]))
    }
    #[inline]
    fn debug_ulps_tolerance(&self, other: &Self, u: &Self::UlpsTolerance) -> Self::DebugUlpsTolerance {
        from_fn(|i| self[i].debug_ulps_tolerance(&other[i], &u[i]))
    }
}
impl<A: AssertUlpsAllEq, const N: usize> AssertUlpsAllEq for [A; N] {
    type AllDebugTolerance = [A::AllDebugTolerance; N];
    type AllDebugUlpsTolerance = [A::AllDebugUlpsTolerance; N];
    #[inline]
    fn debug_abs_diff_all_tolerance(&self, other: &Self, t: &Self::AllTolerance) -> Self::AllDebugTolerance {
        from_fn(|i| self[i].debug_abs_diff_all_tolerance(&other[i], t))
    }
    #[inline]
    fn debug_ulps_all_tolerance(&self, other: &Self, u: &Self::AllUlpsTolerance) -> Self::AllDebugUlpsTolerance {
        from_fn(|i| self[i].debug_ulps_all_tolerance(&other[i], u))
    }
}

#[macro_export]
macro_rules! abs_diff_eq {
    ($l:expr, $r:expr, abs_diff <= $t:expr $(,)?) => { $crate::AbsDiffEq::abs_diff_eq(&($l), &($r), &($t)) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr $(,)?) => { $crate::AbsDiffAllEq::abs_diff_all_eq(&($l), &($r), &($t)) };
}
#[macro_export]
macro_rules! abs_diff_ne {
    ($($t:tt)*) => { !$crate::abs_diff_eq!($($t)*) };
}
#[macro_export]
macro_rules! relative_eq {
    ($l:expr, $r:expr, abs_diff <= $t:expr, relative <= $m:expr $(,)?) => { $crate::RelativeEq::relative_eq(&($l), &($r), &($t), &($m)) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr, relative_all <= $m:expr $(,)?) => { $crate::RelativeAllEq::relative_all_eq(&($l), &($r), &($t), &($m)) };
}
#[macro_export]
macro_rules! relative_ne {
    ($($t:tt)*) => { !$crate::relative_eq!($($t)*) };
}
#[macro_export]
macro_rules! ulps_eq {
    ($l:expr, $r:expr, abs_diff <= $t:expr, ulps <= $m:expr $(,)?) => { $crate::UlpsEq::ulps_eq(&($l), &($r), &($t), &($m)) };
    ($l:expr, $r:expr, abs_diff_all <= $t:expr, ulps_all <= $m:expr $(,)?) => { $crate::UlpsAllEq::ulps_all_eq(&($l), &($r), &($t), &($m)) };
}
#[macro_export]
macro_rules! ulps_ne {
    ($($t:tt)*) => { !$crate::ulps_eq!($($t)*) };
}
#[macro_export]
macro_rules! assert_abs_diff_eq { ($($t:tt)*) => { assert!($crate::abs_diff_eq!($($t)*)) }; }
#[macro_export]
macro_rules! assert_abs_diff_ne { ($($t:tt)*) => { assert!($crate::abs_diff_ne!($($t)*)) }; }
#[macro_export]
macro_rules! assert_relative_eq { ($($t:tt)*) => { assert!($crate::relative_eq!($($t)*)) }; }
#[macro_export]
macro_rules! assert_relative_ne { ($($t:tt)*) => { assert!($crate::relative_ne!($($t)*)) }; }
#[macro_export]
macro_rules! assert_ulps_eq { ($($t:tt)*) => { assert!($crate::ulps_eq!($($t)*)) }; }
#[macro_export]
macro_rules! assert_ulps_ne { ($($t:tt)*) => { assert!($crate::ulps_ne!($($t)*)) }; }
