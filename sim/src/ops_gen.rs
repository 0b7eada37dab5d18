// @generated by tools/gen_ops.py - the catalogue of concrete calls into the library.
#![allow(unused_imports)]
use crate::ctx::*;
use crate::sc::*;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use cglinalg_numeric::*;
use approx_cmp::*;
mod sc_0 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Complex<S>::new", 0, (ref b: S, ref c: S) => <Complex<S>>::new(b, c));
    op!(v, "Complex<S>::shape", 0, (ref a: Complex<S>) => <Complex<S>>::shape(&a));
    op!(v, "Complex<S>::len", 0, (ref a: Complex<S>) => <Complex<S>>::len(&a));
    op!(v, "Complex<S>::is_empty", 0, (ref a: Complex<S>) => <Complex<S>>::is_empty(&a));
    op!(v, "Complex<S>::as_slice", 0, (ref a: Complex<S>) => <Complex<S>>::as_slice(&a));
    op!(v, "Complex<S>::real", 0, (ref a: Complex<S>) => <Complex<S>>::real(a));
    op!(v, "Complex<S>::imaginary", 0, (ref a: Complex<S>) => <Complex<S>>::imaginary(a));
    op!(v, "Complex<S>::from_real", 0, (ref b: S) => <Complex<S>>::from_real(b));
    op!(v, "Complex<S>::from_imaginary", 0, (ref b: S) => <Complex<S>>::from_imaginary(b));
    op!(v, "Complex<S>::zero", 0, () => <Complex<S>>::zero());
    op!(v, "Complex<S>::is_zero", 0, (ref a: Complex<S>) => <Complex<S>>::is_zero(a));
    op!(v, "Complex<S>::identity", 0, () => <Complex<S>>::identity());
    op!(v, "Complex<S>::one", 0, () => <Complex<S>>::one());
    op!(v, "Complex<S>::is_identity", 0, (ref a: Complex<S>) => <Complex<S>>::is_identity(a));
    op!(v, "Complex<S>::is_one", 0, (ref a: Complex<S>) => <Complex<S>>::is_one(a));
    op!(v, "Complex<S>::unit_re", 0, () => <Complex<S>>::unit_re());
    op!(v, "Complex<S>::unit_im", 0, () => <Complex<S>>::unit_im());
    op!(v, "Complex<S>::is_real", 0, (ref a: Complex<S>) => <Complex<S>>::is_real(a));
    op!(v, "Complex<S>::is_imaginary", 0, (ref a: Complex<S>) => <Complex<S>>::is_imaginary(a));
    op!(v, "Complex<S>::modulus_squared", 0, (ref a: Complex<S>) => <Complex<S>>::modulus_squared(a));
    op!(v, "Complex<S>::norm_squared", 0, (ref a: Complex<S>) => <Complex<S>>::norm_squared(a));
    op!(v, "Complex<S>::magnitude_squared", 0, (ref a: Complex<S>) => <Complex<S>>::magnitude_squared(a));
    op!(v, "Complex<S>::scale", 0, (ref a: Complex<S>, ref b: S) => <Complex<S>>::scale(a, b));
    op!(v, "Complex<S>::unscale", 0, (ref a: Complex<S>, ref b: S) => <Complex<S>>::unscale(a, b));
    op!(v, "Complex<S>::squared", 0, (ref a: Complex<S>) => <Complex<S>>::squared(a));
    op!(v, "Complex<S>::cubed", 0, (ref a: Complex<S>) => <Complex<S>>::cubed(a));
    op!(v, "Complex<S>::default", 0, () => <Complex<S> as Default>::default());
    op!(v, "Complex<S>::from(S)", 0, (ref a: S) => <Complex<S>>::from(a));
    op!(v, "Complex<S>::from(&S)", 0, (ref a: S) => <Complex<S>>::from(&a));
    op!(v, "Complex<S>::from((S, S))", 0, (ref a: (S, S)) => <Complex<S>>::from(a));
    op!(v, "Complex<S>::from([S; 2])", 0, (ref a: [S; 2]) => <Complex<S>>::from(a));
    op!(v, "Complex<S>::from(&(S, S))", 0, (ref a: (S, S)) => <Complex<S>>::from(&a));
    op!(v, "Complex<S>::from(&[S; 2])", 0, (ref a: [S; 2]) => <Complex<S>>::from(&a));
    op!(v, "&Complex<S>::from(&(S, S))", 0, (ref a: (S, S)) => <&Complex<S>>::from(&a));
    op!(v, "&Complex<S>::from(&[S; 2])", 0, (ref a: [S; 2]) => <&Complex<S>>::from(&a));
    op!(v, "Complex<S> + Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => a + b);
    op!(v, "Complex<S> + &Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => a + &b);
    op!(v, "&Complex<S> + Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => &a + b);
    op!(v, "&Complex<S> + &Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => &a + &b);
    op!(v, "Complex<S> + S", 0, (ref a: Complex<S>, ref b: S) => a + b);
}
}
mod sc_1 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Complex<S> + &S", 0, (ref a: Complex<S>, ref b: S) => a + &b);
    op!(v, "&Complex<S> + S", 0, (ref a: Complex<S>, ref b: S) => &a + b);
    op!(v, "&Complex<S> + &S", 0, (ref a: Complex<S>, ref b: S) => &a + &b);
    op!(v, "Complex<S> - Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => a - b);
    op!(v, "Complex<S> - &Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => a - &b);
    op!(v, "&Complex<S> - Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => &a - b);
    op!(v, "&Complex<S> - &Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => &a - &b);
    op!(v, "Complex<S> - S", 0, (ref a: Complex<S>, ref b: S) => a - b);
    op!(v, "Complex<S> - &S", 0, (ref a: Complex<S>, ref b: S) => a - &b);
    op!(v, "&Complex<S> - S", 0, (ref a: Complex<S>, ref b: S) => &a - b);
    op!(v, "&Complex<S> - &S", 0, (ref a: Complex<S>, ref b: S) => &a - &b);
    op!(v, "Complex<S> * Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => a * b);
    op!(v, "Complex<S> * &Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => a * &b);
    op!(v, "&Complex<S> * Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => &a * b);
    op!(v, "&Complex<S> * &Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => &a * &b);
    op!(v, "Complex<S> * S", 0, (ref a: Complex<S>, ref b: S) => a * b);
    op!(v, "Complex<S> * &S", 0, (ref a: Complex<S>, ref b: S) => a * &b);
    op!(v, "&Complex<S> * S", 0, (ref a: Complex<S>, ref b: S) => &a * b);
    op!(v, "&Complex<S> * &S", 0, (ref a: Complex<S>, ref b: S) => &a * &b);
    op!(v, "Complex<S> / Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => a / b);
    op!(v, "Complex<S> / &Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => a / &b);
    op!(v, "&Complex<S> / Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => &a / b);
    op!(v, "&Complex<S> / &Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => &a / &b);
    op!(v, "Complex<S> / S", 0, (ref a: Complex<S>, ref b: S) => a / b);
    op!(v, "Complex<S> / &S", 0, (ref a: Complex<S>, ref b: S) => a / &b);
    op!(v, "&Complex<S> / S", 0, (ref a: Complex<S>, ref b: S) => &a / b);
    op!(v, "&Complex<S> / &S", 0, (ref a: Complex<S>, ref b: S) => &a / &b);
    op!(v, "Complex<S> % S", 0, (ref a: Complex<S>, ref b: S) => a % b);
    op!(v, "Complex<S> % &S", 0, (ref a: Complex<S>, ref b: S) => a % &b);
    op!(v, "&Complex<S> % S", 0, (ref a: Complex<S>, ref b: S) => &a % b);
    op!(v, "&Complex<S> % &S", 0, (ref a: Complex<S>, ref b: S) => &a % &b);
    op!(v, "Complex<S> += Complex<S>", INPLACE, (mut a: Complex<S>, ref b: Complex<S>) => a += b);
    op!(v, "Complex<S> += &Complex<S>", INPLACE, (mut a: Complex<S>, ref b: Complex<S>) => a += &b);
    op!(v, "Complex<S> += S", INPLACE, (mut a: Complex<S>, ref b: S) => a += b);
    op!(v, "Complex<S> += &S", INPLACE, (mut a: Complex<S>, ref b: S) => a += &b);
    op!(v, "Complex<S> -= Complex<S>", INPLACE, (mut a: Complex<S>, ref b: Complex<S>) => a -= b);
    op!(v, "Complex<S> -= &Complex<S>", INPLACE, (mut a: Complex<S>, ref b: Complex<S>) => a -= &b);
    op!(v, "Complex<S> -= S", INPLACE, (mut a: Complex<S>, ref b: S) => a -= b);
    op!(v, "Complex<S> -= &S", INPLACE, (mut a: Complex<S>, ref b: S) => a -= &b);
    op!(v, "Complex<S> *= Complex<S>", INPLACE, (mut a: Complex<S>, ref b: Complex<S>) => a *= b);
}
}
mod sc_2 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Complex<S> *= &Complex<S>", INPLACE, (mut a: Complex<S>, ref b: Complex<S>) => a *= &b);
    op!(v, "Complex<S> *= S", INPLACE, (mut a: Complex<S>, ref b: S) => a *= b);
    op!(v, "Complex<S> *= &S", INPLACE, (mut a: Complex<S>, ref b: S) => a *= &b);
    op!(v, "Complex<S> /= Complex<S>", INPLACE, (mut a: Complex<S>, ref b: Complex<S>) => a /= b);
    op!(v, "Complex<S> /= &Complex<S>", INPLACE, (mut a: Complex<S>, ref b: Complex<S>) => a /= &b);
    op!(v, "Complex<S> /= S", INPLACE, (mut a: Complex<S>, ref b: S) => a /= b);
    op!(v, "Complex<S> /= &S", INPLACE, (mut a: Complex<S>, ref b: S) => a /= &b);
    op!(v, "Complex<S> %= S", INPLACE, (mut a: Complex<S>, ref b: S) => a %= b);
    op!(v, "Complex<S> %= &S", INPLACE, (mut a: Complex<S>, ref b: S) => a %= &b);
    op!(v, "Euler<Radians<S>>::new", 0, (ref b: Radians<S>, ref c: Radians<S>, ref d: Radians<S>) => <Euler<Radians<S>>>::new(b, c, d));
    op!(v, "Euler<Degrees<S>>::new [deg]", 0, (ref b: Degrees<S>, ref c: Degrees<S>, ref d: Degrees<S>) => <Euler<Degrees<S>>>::new(b, c, d));
    op!(v, "Matrix<S, 1, 1>::len", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::len(&a));
    op!(v, "Matrix<S, 1, 1>::is_empty", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::is_empty(&a));
    op!(v, "Matrix<S, 1, 1>::shape", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::shape(&a));
    op!(v, "Matrix<S, 2, 2>::len", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::len(&a));
    op!(v, "Matrix<S, 2, 2>::is_empty", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::is_empty(&a));
    op!(v, "Matrix<S, 2, 2>::shape", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::shape(&a));
    op!(v, "Matrix<S, 3, 3>::len", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::len(&a));
    op!(v, "Matrix<S, 3, 3>::is_empty", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::is_empty(&a));
    op!(v, "Matrix<S, 3, 3>::shape", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::shape(&a));
    op!(v, "Matrix<S, 4, 4>::len", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::len(&a));
    op!(v, "Matrix<S, 4, 4>::is_empty", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::is_empty(&a));
    op!(v, "Matrix<S, 4, 4>::shape", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::shape(&a));
    op!(v, "Matrix<S, 1, 2>::len", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::len(&a));
    op!(v, "Matrix<S, 1, 2>::is_empty", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::is_empty(&a));
    op!(v, "Matrix<S, 1, 2>::shape", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::shape(&a));
    op!(v, "Matrix<S, 1, 3>::len", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::len(&a));
    op!(v, "Matrix<S, 1, 3>::is_empty", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::is_empty(&a));
    op!(v, "Matrix<S, 1, 3>::shape", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::shape(&a));
    op!(v, "Matrix<S, 1, 4>::len", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::len(&a));
    op!(v, "Matrix<S, 1, 4>::is_empty", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::is_empty(&a));
    op!(v, "Matrix<S, 1, 4>::shape", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::shape(&a));
    op!(v, "Matrix<S, 2, 3>::len", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::len(&a));
    op!(v, "Matrix<S, 2, 3>::is_empty", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::is_empty(&a));
    op!(v, "Matrix<S, 2, 3>::shape", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::shape(&a));
    op!(v, "Matrix<S, 3, 2>::len", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::len(&a));
    op!(v, "Matrix<S, 3, 2>::is_empty", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::is_empty(&a));
    op!(v, "Matrix<S, 3, 2>::shape", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::shape(&a));
    op!(v, "Matrix<S, 2, 4>::len", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::len(&a));
    op!(v, "Matrix<S, 2, 4>::is_empty", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::is_empty(&a));
}
}
mod sc_3 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 2, 4>::shape", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::shape(&a));
    op!(v, "Matrix<S, 4, 2>::len", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::len(&a));
    op!(v, "Matrix<S, 4, 2>::is_empty", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::is_empty(&a));
    op!(v, "Matrix<S, 4, 2>::shape", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::shape(&a));
    op!(v, "Matrix<S, 3, 4>::len", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::len(&a));
    op!(v, "Matrix<S, 3, 4>::is_empty", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::is_empty(&a));
    op!(v, "Matrix<S, 3, 4>::shape", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::shape(&a));
    op!(v, "Matrix<S, 4, 3>::len", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::len(&a));
    op!(v, "Matrix<S, 4, 3>::is_empty", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::is_empty(&a));
    op!(v, "Matrix<S, 4, 3>::shape", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::shape(&a));
    op!(v, "Matrix<S, 4, 1>::len", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::len(&a));
    op!(v, "Matrix<S, 4, 1>::is_empty", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::is_empty(&a));
    op!(v, "Matrix<S, 4, 1>::shape", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::shape(&a));
    op!(v, "Matrix<S, 5, 5>::len", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::len(&a));
    op!(v, "Matrix<S, 5, 5>::is_empty", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::is_empty(&a));
    op!(v, "Matrix<S, 5, 5>::shape", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::shape(&a));
    op!(v, "Matrix<S, 6, 2>::len", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::len(&a));
    op!(v, "Matrix<S, 6, 2>::is_empty", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::is_empty(&a));
    op!(v, "Matrix<S, 6, 2>::shape", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::shape(&a));
    op!(v, "Matrix<S, 1, 1>::as_slice", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::as_slice(&a));
    op!(v, "Matrix<S, 2, 2>::as_slice", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::as_slice(&a));
    op!(v, "Matrix<S, 3, 3>::as_slice", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::as_slice(&a));
    op!(v, "Matrix<S, 4, 4>::as_slice", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::as_slice(&a));
    op!(v, "Matrix<S, 1, 2>::as_slice", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::as_slice(&a));
    op!(v, "Matrix<S, 1, 3>::as_slice", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::as_slice(&a));
    op!(v, "Matrix<S, 1, 4>::as_slice", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::as_slice(&a));
    op!(v, "Matrix<S, 2, 3>::as_slice", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::as_slice(&a));
    op!(v, "Matrix<S, 3, 2>::as_slice", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::as_slice(&a));
    op!(v, "Matrix<S, 2, 4>::as_slice", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::as_slice(&a));
    op!(v, "Matrix<S, 4, 2>::as_slice", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::as_slice(&a));
    op!(v, "Matrix<S, 3, 4>::as_slice", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::as_slice(&a));
    op!(v, "Matrix<S, 4, 3>::as_slice", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::as_slice(&a));
    op!(v, "Matrix<S, 4, 1>::as_slice", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::as_slice(&a));
    op!(v, "Matrix<S, 1, 1>::from([[S; 1]; 1])", 0, (ref a: [[S; 1]; 1]) => <Matrix<S, 1, 1>>::from(a));
    op!(v, "Matrix<S, 2, 2>::from([[S; 2]; 2])", 0, (ref a: [[S; 2]; 2]) => <Matrix<S, 2, 2>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from([[S; 3]; 3])", 0, (ref a: [[S; 3]; 3]) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from([[S; 4]; 4])", 0, (ref a: [[S; 4]; 4]) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 1, 2>::from([[S; 1]; 2])", 0, (ref a: [[S; 1]; 2]) => <Matrix<S, 1, 2>>::from(a));
    op!(v, "Matrix<S, 1, 3>::from([[S; 1]; 3])", 0, (ref a: [[S; 1]; 3]) => <Matrix<S, 1, 3>>::from(a));
    op!(v, "Matrix<S, 1, 4>::from([[S; 1]; 4])", 0, (ref a: [[S; 1]; 4]) => <Matrix<S, 1, 4>>::from(a));
}
}
mod sc_4 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 2, 3>::from([[S; 2]; 3])", 0, (ref a: [[S; 2]; 3]) => <Matrix<S, 2, 3>>::from(a));
    op!(v, "Matrix<S, 3, 2>::from([[S; 3]; 2])", 0, (ref a: [[S; 3]; 2]) => <Matrix<S, 3, 2>>::from(a));
    op!(v, "Matrix<S, 2, 4>::from([[S; 2]; 4])", 0, (ref a: [[S; 2]; 4]) => <Matrix<S, 2, 4>>::from(a));
    op!(v, "Matrix<S, 4, 2>::from([[S; 4]; 2])", 0, (ref a: [[S; 4]; 2]) => <Matrix<S, 4, 2>>::from(a));
    op!(v, "Matrix<S, 3, 4>::from([[S; 3]; 4])", 0, (ref a: [[S; 3]; 4]) => <Matrix<S, 3, 4>>::from(a));
    op!(v, "Matrix<S, 4, 3>::from([[S; 4]; 3])", 0, (ref a: [[S; 4]; 3]) => <Matrix<S, 4, 3>>::from(a));
    op!(v, "Matrix<S, 4, 1>::from([[S; 4]; 1])", 0, (ref a: [[S; 4]; 1]) => <Matrix<S, 4, 1>>::from(a));
    op!(v, "Matrix<S, 5, 5>::from([[S; 5]; 5])", 0, (ref a: [[S; 5]; 5]) => <Matrix<S, 5, 5>>::from(a));
    op!(v, "Matrix<S, 6, 2>::from([[S; 6]; 2])", 0, (ref a: [[S; 6]; 2]) => <Matrix<S, 6, 2>>::from(a));
    op!(v, "&Matrix<S, 1, 1>::from(&[[S; 1]; 1])", 0, (ref a: [[S; 1]; 1]) => <&Matrix<S, 1, 1>>::from(&a));
    op!(v, "&Matrix<S, 2, 2>::from(&[[S; 2]; 2])", 0, (ref a: [[S; 2]; 2]) => <&Matrix<S, 2, 2>>::from(&a));
    op!(v, "&Matrix<S, 3, 3>::from(&[[S; 3]; 3])", 0, (ref a: [[S; 3]; 3]) => <&Matrix<S, 3, 3>>::from(&a));
    op!(v, "&Matrix<S, 4, 4>::from(&[[S; 4]; 4])", 0, (ref a: [[S; 4]; 4]) => <&Matrix<S, 4, 4>>::from(&a));
    op!(v, "&Matrix<S, 1, 2>::from(&[[S; 1]; 2])", 0, (ref a: [[S; 1]; 2]) => <&Matrix<S, 1, 2>>::from(&a));
    op!(v, "&Matrix<S, 1, 3>::from(&[[S; 1]; 3])", 0, (ref a: [[S; 1]; 3]) => <&Matrix<S, 1, 3>>::from(&a));
    op!(v, "&Matrix<S, 1, 4>::from(&[[S; 1]; 4])", 0, (ref a: [[S; 1]; 4]) => <&Matrix<S, 1, 4>>::from(&a));
    op!(v, "&Matrix<S, 2, 3>::from(&[[S; 2]; 3])", 0, (ref a: [[S; 2]; 3]) => <&Matrix<S, 2, 3>>::from(&a));
    op!(v, "&Matrix<S, 3, 2>::from(&[[S; 3]; 2])", 0, (ref a: [[S; 3]; 2]) => <&Matrix<S, 3, 2>>::from(&a));
    op!(v, "&Matrix<S, 2, 4>::from(&[[S; 2]; 4])", 0, (ref a: [[S; 2]; 4]) => <&Matrix<S, 2, 4>>::from(&a));
    op!(v, "&Matrix<S, 4, 2>::from(&[[S; 4]; 2])", 0, (ref a: [[S; 4]; 2]) => <&Matrix<S, 4, 2>>::from(&a));
    op!(v, "&Matrix<S, 3, 4>::from(&[[S; 3]; 4])", 0, (ref a: [[S; 3]; 4]) => <&Matrix<S, 3, 4>>::from(&a));
    op!(v, "&Matrix<S, 4, 3>::from(&[[S; 4]; 3])", 0, (ref a: [[S; 4]; 3]) => <&Matrix<S, 4, 3>>::from(&a));
    op!(v, "&Matrix<S, 4, 1>::from(&[[S; 4]; 1])", 0, (ref a: [[S; 4]; 1]) => <&Matrix<S, 4, 1>>::from(&a));
    op!(v, "&Matrix<S, 5, 5>::from(&[[S; 5]; 5])", 0, (ref a: [[S; 5]; 5]) => <&Matrix<S, 5, 5>>::from(&a));
    op!(v, "&Matrix<S, 6, 2>::from(&[[S; 6]; 2])", 0, (ref a: [[S; 6]; 2]) => <&Matrix<S, 6, 2>>::from(&a));
    op!(v, "&Matrix<S, 1, 1>::from(&[Vector<S, 1>; 1])", 0, (ref a: [Vector<S, 1>; 1]) => <&Matrix<S, 1, 1>>::from(&a));
    op!(v, "&Matrix<S, 2, 2>::from(&[Vector<S, 2>; 2])", 0, (ref a: [Vector<S, 2>; 2]) => <&Matrix<S, 2, 2>>::from(&a));
    op!(v, "&Matrix<S, 3, 3>::from(&[Vector<S, 3>; 3])", 0, (ref a: [Vector<S, 3>; 3]) => <&Matrix<S, 3, 3>>::from(&a));
    op!(v, "&Matrix<S, 4, 4>::from(&[Vector<S, 4>; 4])", 0, (ref a: [Vector<S, 4>; 4]) => <&Matrix<S, 4, 4>>::from(&a));
    op!(v, "&Matrix<S, 1, 2>::from(&[Vector<S, 1>; 2])", 0, (ref a: [Vector<S, 1>; 2]) => <&Matrix<S, 1, 2>>::from(&a));
    op!(v, "&Matrix<S, 1, 3>::from(&[Vector<S, 1>; 3])", 0, (ref a: [Vector<S, 1>; 3]) => <&Matrix<S, 1, 3>>::from(&a));
    op!(v, "&Matrix<S, 1, 4>::from(&[Vector<S, 1>; 4])", 0, (ref a: [Vector<S, 1>; 4]) => <&Matrix<S, 1, 4>>::from(&a));
    op!(v, "&Matrix<S, 2, 3>::from(&[Vector<S, 2>; 3])", 0, (ref a: [Vector<S, 2>; 3]) => <&Matrix<S, 2, 3>>::from(&a));
    op!(v, "&Matrix<S, 3, 2>::from(&[Vector<S, 3>; 2])", 0, (ref a: [Vector<S, 3>; 2]) => <&Matrix<S, 3, 2>>::from(&a));
    op!(v, "&Matrix<S, 2, 4>::from(&[Vector<S, 2>; 4])", 0, (ref a: [Vector<S, 2>; 4]) => <&Matrix<S, 2, 4>>::from(&a));
    op!(v, "&Matrix<S, 4, 2>::from(&[Vector<S, 4>; 2])", 0, (ref a: [Vector<S, 4>; 2]) => <&Matrix<S, 4, 2>>::from(&a));
    op!(v, "&Matrix<S, 3, 4>::from(&[Vector<S, 3>; 4])", 0, (ref a: [Vector<S, 3>; 4]) => <&Matrix<S, 3, 4>>::from(&a));
    op!(v, "&Matrix<S, 4, 3>::from(&[Vector<S, 4>; 3])", 0, (ref a: [Vector<S, 4>; 3]) => <&Matrix<S, 4, 3>>::from(&a));
    op!(v, "&Matrix<S, 4, 1>::from(&[Vector<S, 4>; 1])", 0, (ref a: [Vector<S, 4>; 1]) => <&Matrix<S, 4, 1>>::from(&a));
    op!(v, "&Matrix<S, 5, 5>::from(&[Vector<S, 5>; 5])", 0, (ref a: [Vector<S, 5>; 5]) => <&Matrix<S, 5, 5>>::from(&a));
}
}
mod sc_5 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "&Matrix<S, 6, 2>::from(&[Vector<S, 6>; 2])", 0, (ref a: [Vector<S, 6>; 2]) => <&Matrix<S, 6, 2>>::from(&a));
    op!(v, "Matrix<S, 1, 1>::from([S; 1])", 0, (ref a: [S; 1]) => <Matrix<S, 1, 1>>::from(a));
    op!(v, "Matrix<S, 2, 2>::from([S; 4])", 0, (ref a: [S; 4]) => <Matrix<S, 2, 2>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from([S; 9])", 0, (ref a: [S; 9]) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from([S; 16])", 0, (ref a: [S; 16]) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 1, 2>::from([S; 2])", 0, (ref a: [S; 2]) => <Matrix<S, 1, 2>>::from(a));
    op!(v, "Matrix<S, 1, 3>::from([S; 3])", 0, (ref a: [S; 3]) => <Matrix<S, 1, 3>>::from(a));
    op!(v, "Matrix<S, 1, 4>::from([S; 4])", 0, (ref a: [S; 4]) => <Matrix<S, 1, 4>>::from(a));
    op!(v, "Matrix<S, 2, 3>::from([S; 6])", 0, (ref a: [S; 6]) => <Matrix<S, 2, 3>>::from(a));
    op!(v, "Matrix<S, 3, 2>::from([S; 6])", 0, (ref a: [S; 6]) => <Matrix<S, 3, 2>>::from(a));
    op!(v, "Matrix<S, 2, 4>::from([S; 8])", 0, (ref a: [S; 8]) => <Matrix<S, 2, 4>>::from(a));
    op!(v, "Matrix<S, 4, 2>::from([S; 8])", 0, (ref a: [S; 8]) => <Matrix<S, 4, 2>>::from(a));
    op!(v, "Matrix<S, 3, 4>::from([S; 12])", 0, (ref a: [S; 12]) => <Matrix<S, 3, 4>>::from(a));
    op!(v, "Matrix<S, 4, 3>::from([S; 12])", 0, (ref a: [S; 12]) => <Matrix<S, 4, 3>>::from(a));
    op!(v, "Matrix<S, 4, 1>::from([S; 4])", 0, (ref a: [S; 4]) => <Matrix<S, 4, 1>>::from(a));
    op!(v, "&Matrix<S, 1, 1>::from(&[S; 1])", 0, (ref a: [S; 1]) => <&Matrix<S, 1, 1>>::from(&a));
    op!(v, "&Matrix<S, 2, 2>::from(&[S; 4])", 0, (ref a: [S; 4]) => <&Matrix<S, 2, 2>>::from(&a));
    op!(v, "&Matrix<S, 3, 3>::from(&[S; 9])", 0, (ref a: [S; 9]) => <&Matrix<S, 3, 3>>::from(&a));
    op!(v, "&Matrix<S, 4, 4>::from(&[S; 16])", 0, (ref a: [S; 16]) => <&Matrix<S, 4, 4>>::from(&a));
    op!(v, "&Matrix<S, 1, 2>::from(&[S; 2])", 0, (ref a: [S; 2]) => <&Matrix<S, 1, 2>>::from(&a));
    op!(v, "&Matrix<S, 1, 3>::from(&[S; 3])", 0, (ref a: [S; 3]) => <&Matrix<S, 1, 3>>::from(&a));
    op!(v, "&Matrix<S, 1, 4>::from(&[S; 4])", 0, (ref a: [S; 4]) => <&Matrix<S, 1, 4>>::from(&a));
    op!(v, "&Matrix<S, 2, 3>::from(&[S; 6])", 0, (ref a: [S; 6]) => <&Matrix<S, 2, 3>>::from(&a));
    op!(v, "&Matrix<S, 3, 2>::from(&[S; 6])", 0, (ref a: [S; 6]) => <&Matrix<S, 3, 2>>::from(&a));
    op!(v, "&Matrix<S, 2, 4>::from(&[S; 8])", 0, (ref a: [S; 8]) => <&Matrix<S, 2, 4>>::from(&a));
    op!(v, "&Matrix<S, 4, 2>::from(&[S; 8])", 0, (ref a: [S; 8]) => <&Matrix<S, 4, 2>>::from(&a));
    op!(v, "&Matrix<S, 3, 4>::from(&[S; 12])", 0, (ref a: [S; 12]) => <&Matrix<S, 3, 4>>::from(&a));
    op!(v, "&Matrix<S, 4, 3>::from(&[S; 12])", 0, (ref a: [S; 12]) => <&Matrix<S, 4, 3>>::from(&a));
    op!(v, "&Matrix<S, 4, 1>::from(&[S; 4])", 0, (ref a: [S; 4]) => <&Matrix<S, 4, 1>>::from(&a));
    op!(v, "Matrix<S, 1, 1>::is_square", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::is_square(&a));
    op!(v, "Matrix<S, 2, 2>::is_square", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::is_square(&a));
    op!(v, "Matrix<S, 3, 3>::is_square", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::is_square(&a));
    op!(v, "Matrix<S, 4, 4>::is_square", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::is_square(&a));
    op!(v, "Matrix<S, 1, 2>::is_square", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::is_square(&a));
    op!(v, "Matrix<S, 1, 3>::is_square", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::is_square(&a));
    op!(v, "Matrix<S, 1, 4>::is_square", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::is_square(&a));
    op!(v, "Matrix<S, 2, 3>::is_square", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::is_square(&a));
    op!(v, "Matrix<S, 3, 2>::is_square", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::is_square(&a));
    op!(v, "Matrix<S, 2, 4>::is_square", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::is_square(&a));
    op!(v, "Matrix<S, 4, 2>::is_square", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::is_square(&a));
}
}
mod sc_6 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 3, 4>::is_square", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::is_square(&a));
    op!(v, "Matrix<S, 4, 3>::is_square", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::is_square(&a));
    op!(v, "Matrix<S, 4, 1>::is_square", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::is_square(&a));
    op!(v, "Matrix<S, 5, 5>::is_square", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::is_square(&a));
    op!(v, "Matrix<S, 6, 2>::is_square", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::is_square(&a));
    op!(v, "Matrix<S, 1, 1>::from_fill", 0, (ref b: S) => <Matrix<S, 1, 1>>::from_fill(b));
    op!(v, "Matrix<S, 1, 1>::from_columns", 0, (ref b: [Vector<S, 1>; 1]) => <Matrix<S, 1, 1>>::from_columns(&b));
    op!(v, "Matrix<S, 1, 1>::from_rows", 0, (ref b: [Vector<S, 1>; 1]) => <Matrix<S, 1, 1>>::from_rows(&b));
    op!(v, "Matrix<S, 2, 2>::from_fill", 0, (ref b: S) => <Matrix<S, 2, 2>>::from_fill(b));
    op!(v, "Matrix<S, 2, 2>::from_columns", 0, (ref b: [Vector<S, 2>; 2]) => <Matrix<S, 2, 2>>::from_columns(&b));
    op!(v, "Matrix<S, 2, 2>::from_rows", 0, (ref b: [Vector<S, 2>; 2]) => <Matrix<S, 2, 2>>::from_rows(&b));
    op!(v, "Matrix<S, 3, 3>::from_fill", 0, (ref b: S) => <Matrix<S, 3, 3>>::from_fill(b));
    op!(v, "Matrix<S, 3, 3>::from_columns", 0, (ref b: [Vector<S, 3>; 3]) => <Matrix<S, 3, 3>>::from_columns(&b));
    op!(v, "Matrix<S, 3, 3>::from_rows", 0, (ref b: [Vector<S, 3>; 3]) => <Matrix<S, 3, 3>>::from_rows(&b));
    op!(v, "Matrix<S, 4, 4>::from_fill", 0, (ref b: S) => <Matrix<S, 4, 4>>::from_fill(b));
    op!(v, "Matrix<S, 4, 4>::from_columns", 0, (ref b: [Vector<S, 4>; 4]) => <Matrix<S, 4, 4>>::from_columns(&b));
    op!(v, "Matrix<S, 4, 4>::from_rows", 0, (ref b: [Vector<S, 4>; 4]) => <Matrix<S, 4, 4>>::from_rows(&b));
    op!(v, "Matrix<S, 1, 2>::from_fill", 0, (ref b: S) => <Matrix<S, 1, 2>>::from_fill(b));
    op!(v, "Matrix<S, 1, 2>::from_columns", 0, (ref b: [Vector<S, 1>; 2]) => <Matrix<S, 1, 2>>::from_columns(&b));
    op!(v, "Matrix<S, 1, 2>::from_rows", 0, (ref b: [Vector<S, 2>; 1]) => <Matrix<S, 1, 2>>::from_rows(&b));
    op!(v, "Matrix<S, 1, 3>::from_fill", 0, (ref b: S) => <Matrix<S, 1, 3>>::from_fill(b));
    op!(v, "Matrix<S, 1, 3>::from_columns", 0, (ref b: [Vector<S, 1>; 3]) => <Matrix<S, 1, 3>>::from_columns(&b));
    op!(v, "Matrix<S, 1, 3>::from_rows", 0, (ref b: [Vector<S, 3>; 1]) => <Matrix<S, 1, 3>>::from_rows(&b));
    op!(v, "Matrix<S, 1, 4>::from_fill", 0, (ref b: S) => <Matrix<S, 1, 4>>::from_fill(b));
    op!(v, "Matrix<S, 1, 4>::from_columns", 0, (ref b: [Vector<S, 1>; 4]) => <Matrix<S, 1, 4>>::from_columns(&b));
    op!(v, "Matrix<S, 1, 4>::from_rows", 0, (ref b: [Vector<S, 4>; 1]) => <Matrix<S, 1, 4>>::from_rows(&b));
    op!(v, "Matrix<S, 2, 3>::from_fill", 0, (ref b: S) => <Matrix<S, 2, 3>>::from_fill(b));
    op!(v, "Matrix<S, 2, 3>::from_columns", 0, (ref b: [Vector<S, 2>; 3]) => <Matrix<S, 2, 3>>::from_columns(&b));
    op!(v, "Matrix<S, 2, 3>::from_rows", 0, (ref b: [Vector<S, 3>; 2]) => <Matrix<S, 2, 3>>::from_rows(&b));
    op!(v, "Matrix<S, 3, 2>::from_fill", 0, (ref b: S) => <Matrix<S, 3, 2>>::from_fill(b));
    op!(v, "Matrix<S, 3, 2>::from_columns", 0, (ref b: [Vector<S, 3>; 2]) => <Matrix<S, 3, 2>>::from_columns(&b));
    op!(v, "Matrix<S, 3, 2>::from_rows", 0, (ref b: [Vector<S, 2>; 3]) => <Matrix<S, 3, 2>>::from_rows(&b));
    op!(v, "Matrix<S, 2, 4>::from_fill", 0, (ref b: S) => <Matrix<S, 2, 4>>::from_fill(b));
    op!(v, "Matrix<S, 2, 4>::from_columns", 0, (ref b: [Vector<S, 2>; 4]) => <Matrix<S, 2, 4>>::from_columns(&b));
    op!(v, "Matrix<S, 2, 4>::from_rows", 0, (ref b: [Vector<S, 4>; 2]) => <Matrix<S, 2, 4>>::from_rows(&b));
    op!(v, "Matrix<S, 4, 2>::from_fill", 0, (ref b: S) => <Matrix<S, 4, 2>>::from_fill(b));
    op!(v, "Matrix<S, 4, 2>::from_columns", 0, (ref b: [Vector<S, 4>; 2]) => <Matrix<S, 4, 2>>::from_columns(&b));
    op!(v, "Matrix<S, 4, 2>::from_rows", 0, (ref b: [Vector<S, 2>; 4]) => <Matrix<S, 4, 2>>::from_rows(&b));
    op!(v, "Matrix<S, 3, 4>::from_fill", 0, (ref b: S) => <Matrix<S, 3, 4>>::from_fill(b));
    op!(v, "Matrix<S, 3, 4>::from_columns", 0, (ref b: [Vector<S, 3>; 4]) => <Matrix<S, 3, 4>>::from_columns(&b));
}
}
mod sc_7 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 3, 4>::from_rows", 0, (ref b: [Vector<S, 4>; 3]) => <Matrix<S, 3, 4>>::from_rows(&b));
    op!(v, "Matrix<S, 4, 3>::from_fill", 0, (ref b: S) => <Matrix<S, 4, 3>>::from_fill(b));
    op!(v, "Matrix<S, 4, 3>::from_columns", 0, (ref b: [Vector<S, 4>; 3]) => <Matrix<S, 4, 3>>::from_columns(&b));
    op!(v, "Matrix<S, 4, 3>::from_rows", 0, (ref b: [Vector<S, 3>; 4]) => <Matrix<S, 4, 3>>::from_rows(&b));
    op!(v, "Matrix<S, 4, 1>::from_fill", 0, (ref b: S) => <Matrix<S, 4, 1>>::from_fill(b));
    op!(v, "Matrix<S, 4, 1>::from_columns", 0, (ref b: [Vector<S, 4>; 1]) => <Matrix<S, 4, 1>>::from_columns(&b));
    op!(v, "Matrix<S, 4, 1>::from_rows", 0, (ref b: [Vector<S, 1>; 4]) => <Matrix<S, 4, 1>>::from_rows(&b));
    op!(v, "Matrix<S, 5, 5>::from_fill", 0, (ref b: S) => <Matrix<S, 5, 5>>::from_fill(b));
    op!(v, "Matrix<S, 5, 5>::from_columns", 0, (ref b: [Vector<S, 5>; 5]) => <Matrix<S, 5, 5>>::from_columns(&b));
    op!(v, "Matrix<S, 5, 5>::from_rows", 0, (ref b: [Vector<S, 5>; 5]) => <Matrix<S, 5, 5>>::from_rows(&b));
    op!(v, "Matrix<S, 6, 2>::from_fill", 0, (ref b: S) => <Matrix<S, 6, 2>>::from_fill(b));
    op!(v, "Matrix<S, 6, 2>::from_columns", 0, (ref b: [Vector<S, 6>; 2]) => <Matrix<S, 6, 2>>::from_columns(&b));
    op!(v, "Matrix<S, 6, 2>::from_rows", 0, (ref b: [Vector<S, 2>; 6]) => <Matrix<S, 6, 2>>::from_rows(&b));
    op!(v, "Matrix<S, 1, 1>::transpose", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::transpose(&a));
    op!(v, "Matrix<S, 1, 1>::zero", 0, () => <Matrix<S, 1, 1>>::zero());
    op!(v, "Matrix<S, 1, 1>::is_zero", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::is_zero(&a));
    op!(v, "Matrix<S, 1, 1>::component_mul", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 1, 1>::component_mul_assign", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 2, 2>::transpose", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::transpose(&a));
    op!(v, "Matrix<S, 2, 2>::zero", 0, () => <Matrix<S, 2, 2>>::zero());
    op!(v, "Matrix<S, 2, 2>::is_zero", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::is_zero(&a));
    op!(v, "Matrix<S, 2, 2>::component_mul", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 2, 2>::component_mul_assign", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 3, 3>::transpose", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::transpose(&a));
    op!(v, "Matrix<S, 3, 3>::zero", 0, () => <Matrix<S, 3, 3>>::zero());
    op!(v, "Matrix<S, 3, 3>::is_zero", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::is_zero(&a));
    op!(v, "Matrix<S, 3, 3>::component_mul", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 3, 3>::component_mul_assign", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 4, 4>::transpose", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::transpose(&a));
    op!(v, "Matrix<S, 4, 4>::zero", 0, () => <Matrix<S, 4, 4>>::zero());
    op!(v, "Matrix<S, 4, 4>::is_zero", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::is_zero(&a));
    op!(v, "Matrix<S, 4, 4>::component_mul", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 4, 4>::component_mul_assign", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 1, 2>::transpose", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::transpose(&a));
    op!(v, "Matrix<S, 1, 2>::zero", 0, () => <Matrix<S, 1, 2>>::zero());
    op!(v, "Matrix<S, 1, 2>::is_zero", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::is_zero(&a));
    op!(v, "Matrix<S, 1, 2>::component_mul", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 1, 2>::component_mul_assign", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 1, 3>::transpose", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::transpose(&a));
    op!(v, "Matrix<S, 1, 3>::zero", 0, () => <Matrix<S, 1, 3>>::zero());
}
}
mod sc_8 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 3>::is_zero", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::is_zero(&a));
    op!(v, "Matrix<S, 1, 3>::component_mul", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 1, 3>::component_mul_assign", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 1, 4>::transpose", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::transpose(&a));
    op!(v, "Matrix<S, 1, 4>::zero", 0, () => <Matrix<S, 1, 4>>::zero());
    op!(v, "Matrix<S, 1, 4>::is_zero", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::is_zero(&a));
    op!(v, "Matrix<S, 1, 4>::component_mul", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 1, 4>::component_mul_assign", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 2, 3>::transpose", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::transpose(&a));
    op!(v, "Matrix<S, 2, 3>::zero", 0, () => <Matrix<S, 2, 3>>::zero());
    op!(v, "Matrix<S, 2, 3>::is_zero", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::is_zero(&a));
    op!(v, "Matrix<S, 2, 3>::component_mul", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 2, 3>::component_mul_assign", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 3, 2>::transpose", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::transpose(&a));
    op!(v, "Matrix<S, 3, 2>::zero", 0, () => <Matrix<S, 3, 2>>::zero());
    op!(v, "Matrix<S, 3, 2>::is_zero", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::is_zero(&a));
    op!(v, "Matrix<S, 3, 2>::component_mul", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 3, 2>::component_mul_assign", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 2, 4>::transpose", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::transpose(&a));
    op!(v, "Matrix<S, 2, 4>::zero", 0, () => <Matrix<S, 2, 4>>::zero());
    op!(v, "Matrix<S, 2, 4>::is_zero", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::is_zero(&a));
    op!(v, "Matrix<S, 2, 4>::component_mul", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 2, 4>::component_mul_assign", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 4, 2>::transpose", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::transpose(&a));
    op!(v, "Matrix<S, 4, 2>::zero", 0, () => <Matrix<S, 4, 2>>::zero());
    op!(v, "Matrix<S, 4, 2>::is_zero", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::is_zero(&a));
    op!(v, "Matrix<S, 4, 2>::component_mul", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 4, 2>::component_mul_assign", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 3, 4>::transpose", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::transpose(&a));
    op!(v, "Matrix<S, 3, 4>::zero", 0, () => <Matrix<S, 3, 4>>::zero());
    op!(v, "Matrix<S, 3, 4>::is_zero", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::is_zero(&a));
    op!(v, "Matrix<S, 3, 4>::component_mul", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 3, 4>::component_mul_assign", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 4, 3>::transpose", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::transpose(&a));
    op!(v, "Matrix<S, 4, 3>::zero", 0, () => <Matrix<S, 4, 3>>::zero());
    op!(v, "Matrix<S, 4, 3>::is_zero", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::is_zero(&a));
    op!(v, "Matrix<S, 4, 3>::component_mul", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 4, 3>::component_mul_assign", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 4, 1>::transpose", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::transpose(&a));
    op!(v, "Matrix<S, 4, 1>::zero", 0, () => <Matrix<S, 4, 1>>::zero());
}
}
mod sc_9 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 1>::is_zero", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::is_zero(&a));
    op!(v, "Matrix<S, 4, 1>::component_mul", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 4, 1>::component_mul_assign", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 5, 5>::transpose", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::transpose(&a));
    op!(v, "Matrix<S, 5, 5>::zero", 0, () => <Matrix<S, 5, 5>>::zero());
    op!(v, "Matrix<S, 5, 5>::is_zero", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::is_zero(&a));
    op!(v, "Matrix<S, 5, 5>::component_mul", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 5, 5>::component_mul_assign", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 6, 2>::transpose", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::transpose(&a));
    op!(v, "Matrix<S, 6, 2>::zero", 0, () => <Matrix<S, 6, 2>>::zero());
    op!(v, "Matrix<S, 6, 2>::is_zero", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::is_zero(&a));
    op!(v, "Matrix<S, 6, 2>::component_mul", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::component_mul(&a, &b));
    op!(v, "Matrix<S, 6, 2>::component_mul_assign", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::component_mul_assign(&mut a, &b));
    op!(v, "Matrix<S, 1, 1>::dot (1x1)", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::dot(&a, &b));
    op!(v, "Matrix<S, 1, 1>::tr_mul (1x1)", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 1>::tr_mul (1x2)", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 2>) => <Matrix<S, 1, 1>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 1>::tr_mul (1x3)", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 3>) => <Matrix<S, 1, 1>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 1>::tr_mul (1x4)", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 4>) => <Matrix<S, 1, 1>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 1>::tr_dot (1x1)", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 2, 2>::dot (2x2)", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::dot(&a, &b));
    op!(v, "Matrix<S, 2, 2>::tr_mul (2x2)", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 2, 2>::tr_mul (2x3)", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 3>) => <Matrix<S, 2, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 2, 2>::tr_mul (2x4)", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 4>) => <Matrix<S, 2, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 2, 2>::tr_dot (2x2)", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 3, 3>::dot (3x3)", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::dot(&a, &b));
    op!(v, "Matrix<S, 3, 3>::tr_mul (3x3)", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 3, 3>::tr_mul (3x2)", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 2>) => <Matrix<S, 3, 3>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 3, 3>::tr_mul (3x4)", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 4>) => <Matrix<S, 3, 3>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 3, 3>::tr_dot (3x3)", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 4, 4>::dot (4x4)", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::dot(&a, &b));
    op!(v, "Matrix<S, 4, 4>::tr_mul (4x4)", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 4>::tr_mul (4x2)", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 2>) => <Matrix<S, 4, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 4>::tr_mul (4x3)", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 3>) => <Matrix<S, 4, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 4>::tr_mul (4x1)", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 1>) => <Matrix<S, 4, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 4>::tr_dot (4x4)", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 1, 2>::dot (1x2)", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::dot(&a, &b));
    op!(v, "Matrix<S, 1, 2>::tr_mul (1x2)", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 2>::tr_mul (1x3)", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 3>) => <Matrix<S, 1, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 2>::tr_mul (1x4)", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 4>) => <Matrix<S, 1, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 3>::dot (1x3)", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::dot(&a, &b));
}
}
mod sc_10 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 3>::tr_mul (1x2)", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 2>) => <Matrix<S, 1, 3>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 3>::tr_mul (1x3)", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 3>::tr_mul (1x4)", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 4>) => <Matrix<S, 1, 3>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 4>::dot (1x4)", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::dot(&a, &b));
    op!(v, "Matrix<S, 1, 4>::tr_mul (1x1)", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 1>) => <Matrix<S, 1, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 4>::tr_mul (1x2)", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 2>) => <Matrix<S, 1, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 4>::tr_mul (1x3)", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 3>) => <Matrix<S, 1, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 4>::tr_mul (1x4)", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 4>::tr_dot (4x1)", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 1>) => <Matrix<S, 1, 4>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 2, 3>::dot (2x3)", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::dot(&a, &b));
    op!(v, "Matrix<S, 2, 3>::tr_mul (2x2)", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 2>) => <Matrix<S, 2, 3>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 2, 3>::tr_mul (2x3)", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 2, 3>::tr_mul (2x4)", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 4>) => <Matrix<S, 2, 3>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 2, 3>::tr_dot (3x2)", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 2>) => <Matrix<S, 2, 3>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 3, 2>::dot (3x2)", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::dot(&a, &b));
    op!(v, "Matrix<S, 3, 2>::tr_mul (3x3)", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 3>) => <Matrix<S, 3, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 3, 2>::tr_mul (3x2)", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 3, 2>::tr_mul (3x4)", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 4>) => <Matrix<S, 3, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 3, 2>::tr_dot (2x3)", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 3>) => <Matrix<S, 3, 2>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 2, 4>::dot (2x4)", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::dot(&a, &b));
    op!(v, "Matrix<S, 2, 4>::tr_mul (2x2)", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 2>) => <Matrix<S, 2, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 2, 4>::tr_mul (2x3)", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 3>) => <Matrix<S, 2, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 2, 4>::tr_mul (2x4)", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 2, 4>::tr_dot (4x2)", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 2>) => <Matrix<S, 2, 4>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 4, 2>::dot (4x2)", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::dot(&a, &b));
    op!(v, "Matrix<S, 4, 2>::tr_mul (4x4)", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 4>) => <Matrix<S, 4, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 2>::tr_mul (4x2)", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 2>::tr_mul (4x3)", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 3>) => <Matrix<S, 4, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 2>::tr_dot (2x4)", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 4>) => <Matrix<S, 4, 2>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 3, 4>::dot (3x4)", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::dot(&a, &b));
    op!(v, "Matrix<S, 3, 4>::tr_mul (3x3)", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 3>) => <Matrix<S, 3, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 3, 4>::tr_mul (3x2)", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 2>) => <Matrix<S, 3, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 3, 4>::tr_mul (3x4)", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 3, 4>::tr_dot (4x3)", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 3>) => <Matrix<S, 3, 4>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 4, 3>::dot (4x3)", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::dot(&a, &b));
    op!(v, "Matrix<S, 4, 3>::tr_mul (4x4)", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 4>) => <Matrix<S, 4, 3>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 3>::tr_mul (4x2)", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 2>) => <Matrix<S, 4, 3>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 3>::tr_mul (4x3)", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 3>::tr_dot (3x4)", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 4>) => <Matrix<S, 4, 3>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 4, 1>::dot (4x1)", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::dot(&a, &b));
}
}
mod sc_11 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 1>::tr_mul (4x4)", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 4>) => <Matrix<S, 4, 1>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 1>::tr_mul (4x2)", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 2>) => <Matrix<S, 4, 1>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 1>::tr_mul (4x3)", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 3>) => <Matrix<S, 4, 1>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 1>::tr_mul (4x1)", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 4, 1>::tr_dot (1x4)", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 4>) => <Matrix<S, 4, 1>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 5, 5>::dot (5x5)", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::dot(&a, &b));
    op!(v, "Matrix<S, 5, 5>::tr_dot (5x5)", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::tr_dot(&a, &b));
    op!(v, "Matrix<S, 6, 2>::dot (6x2)", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::dot(&a, &b));
    op!(v, "Matrix<S, 6, 2>::tr_mul (6x2)", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::tr_mul(&a, &b));
    op!(v, "Matrix<S, 1, 1>::transpose_mut", INPLACE, (mut a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::transpose_mut(&mut a));
    op!(v, "Matrix<S, 1, 1>::identity", 0, () => <Matrix<S, 1, 1>>::identity());
    op!(v, "Matrix<S, 1, 1>::is_identity", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::is_identity(&a));
    op!(v, "Matrix<S, 1, 1>::from_diagonal_value", 0, (ref b: S) => <Matrix<S, 1, 1>>::from_diagonal_value(b));
    op!(v, "Matrix<S, 1, 1>::from_diagonal", 0, (ref b: Vector<S, 1>) => <Matrix<S, 1, 1>>::from_diagonal(&b));
    op!(v, "Matrix<S, 1, 1>::diagonal", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::diagonal(&a));
    op!(v, "Matrix<S, 1, 1>::trace", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::trace(&a));
    op!(v, "Matrix<S, 2, 2>::transpose_mut", INPLACE, (mut a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::transpose_mut(&mut a));
    op!(v, "Matrix<S, 2, 2>::identity", 0, () => <Matrix<S, 2, 2>>::identity());
    op!(v, "Matrix<S, 2, 2>::is_identity", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::is_identity(&a));
    op!(v, "Matrix<S, 2, 2>::from_diagonal_value", 0, (ref b: S) => <Matrix<S, 2, 2>>::from_diagonal_value(b));
    op!(v, "Matrix<S, 2, 2>::from_diagonal", 0, (ref b: Vector<S, 2>) => <Matrix<S, 2, 2>>::from_diagonal(&b));
    op!(v, "Matrix<S, 2, 2>::diagonal", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::diagonal(&a));
    op!(v, "Matrix<S, 2, 2>::trace", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::trace(&a));
    op!(v, "Matrix<S, 3, 3>::transpose_mut", INPLACE, (mut a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::transpose_mut(&mut a));
    op!(v, "Matrix<S, 3, 3>::identity", 0, () => <Matrix<S, 3, 3>>::identity());
    op!(v, "Matrix<S, 3, 3>::is_identity", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::is_identity(&a));
    op!(v, "Matrix<S, 3, 3>::from_diagonal_value", 0, (ref b: S) => <Matrix<S, 3, 3>>::from_diagonal_value(b));
    op!(v, "Matrix<S, 3, 3>::from_diagonal", 0, (ref b: Vector<S, 3>) => <Matrix<S, 3, 3>>::from_diagonal(&b));
    op!(v, "Matrix<S, 3, 3>::diagonal", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::diagonal(&a));
    op!(v, "Matrix<S, 3, 3>::trace", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::trace(&a));
    op!(v, "Matrix<S, 4, 4>::transpose_mut", INPLACE, (mut a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::transpose_mut(&mut a));
    op!(v, "Matrix<S, 4, 4>::identity", 0, () => <Matrix<S, 4, 4>>::identity());
    op!(v, "Matrix<S, 4, 4>::is_identity", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::is_identity(&a));
    op!(v, "Matrix<S, 4, 4>::from_diagonal_value", 0, (ref b: S) => <Matrix<S, 4, 4>>::from_diagonal_value(b));
    op!(v, "Matrix<S, 4, 4>::from_diagonal", 0, (ref b: Vector<S, 4>) => <Matrix<S, 4, 4>>::from_diagonal(&b));
    op!(v, "Matrix<S, 4, 4>::diagonal", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::diagonal(&a));
    op!(v, "Matrix<S, 4, 4>::trace", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::trace(&a));
    op!(v, "Matrix<S, 5, 5>::transpose_mut", INPLACE, (mut a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::transpose_mut(&mut a));
    op!(v, "Matrix<S, 5, 5>::identity", 0, () => <Matrix<S, 5, 5>>::identity());
    op!(v, "Matrix<S, 5, 5>::is_identity", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::is_identity(&a));
}
}
mod sc_12 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 5, 5>::from_diagonal_value", 0, (ref b: S) => <Matrix<S, 5, 5>>::from_diagonal_value(b));
    op!(v, "Matrix<S, 5, 5>::from_diagonal", 0, (ref b: Vector<S, 5>) => <Matrix<S, 5, 5>>::from_diagonal(&b));
    op!(v, "Matrix<S, 5, 5>::diagonal", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::diagonal(&a));
    op!(v, "Matrix<S, 5, 5>::trace", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::trace(&a));
    op!(v, "Matrix<S, 1, 1>::default", 0, () => <Matrix<S, 1, 1> as Default>::default());
    op!(v, "Matrix<S, 2, 2>::default", 0, () => <Matrix<S, 2, 2> as Default>::default());
    op!(v, "Matrix<S, 3, 3>::default", 0, () => <Matrix<S, 3, 3> as Default>::default());
    op!(v, "Matrix<S, 4, 4>::default", 0, () => <Matrix<S, 4, 4> as Default>::default());
    op!(v, "Matrix<S, 1, 2>::default", 0, () => <Matrix<S, 1, 2> as Default>::default());
    op!(v, "Matrix<S, 1, 3>::default", 0, () => <Matrix<S, 1, 3> as Default>::default());
    op!(v, "Matrix<S, 1, 4>::default", 0, () => <Matrix<S, 1, 4> as Default>::default());
    op!(v, "Matrix<S, 2, 3>::default", 0, () => <Matrix<S, 2, 3> as Default>::default());
    op!(v, "Matrix<S, 3, 2>::default", 0, () => <Matrix<S, 3, 2> as Default>::default());
    op!(v, "Matrix<S, 2, 4>::default", 0, () => <Matrix<S, 2, 4> as Default>::default());
    op!(v, "Matrix<S, 4, 2>::default", 0, () => <Matrix<S, 4, 2> as Default>::default());
    op!(v, "Matrix<S, 3, 4>::default", 0, () => <Matrix<S, 3, 4> as Default>::default());
    op!(v, "Matrix<S, 4, 3>::default", 0, () => <Matrix<S, 4, 3> as Default>::default());
    op!(v, "Matrix<S, 4, 1>::default", 0, () => <Matrix<S, 4, 1> as Default>::default());
    op!(v, "Matrix<S, 5, 5>::default", 0, () => <Matrix<S, 5, 5> as Default>::default());
    op!(v, "Matrix<S, 6, 2>::default", 0, () => <Matrix<S, 6, 2> as Default>::default());
    op!(v, "Matrix<S, 1, 1>::from_scale", 0, (ref b: S) => <Matrix<S, 1, 1>>::from_scale(b));
    op!(v, "Matrix<S, 1, 1>::from_nonuniform_scale", 0, (ref b: Vector<S, 1>) => <Matrix<S, 1, 1>>::from_nonuniform_scale(&b));
    op!(v, "Matrix<S, 1, 1>::from_affine_scale", 0, (ref b: S) => <Matrix<S, 1, 1>>::from_affine_scale(b));
    op!(v, "Matrix<S, 2, 2>::from_scale", 0, (ref b: S) => <Matrix<S, 2, 2>>::from_scale(b));
    op!(v, "Matrix<S, 2, 2>::from_nonuniform_scale", 0, (ref b: Vector<S, 2>) => <Matrix<S, 2, 2>>::from_nonuniform_scale(&b));
    op!(v, "Matrix<S, 2, 2>::from_affine_scale", 0, (ref b: S) => <Matrix<S, 2, 2>>::from_affine_scale(b));
    op!(v, "Matrix<S, 3, 3>::from_scale", 0, (ref b: S) => <Matrix<S, 3, 3>>::from_scale(b));
    op!(v, "Matrix<S, 3, 3>::from_nonuniform_scale", 0, (ref b: Vector<S, 3>) => <Matrix<S, 3, 3>>::from_nonuniform_scale(&b));
    op!(v, "Matrix<S, 3, 3>::from_affine_scale", 0, (ref b: S) => <Matrix<S, 3, 3>>::from_affine_scale(b));
    op!(v, "Matrix<S, 4, 4>::from_scale", 0, (ref b: S) => <Matrix<S, 4, 4>>::from_scale(b));
    op!(v, "Matrix<S, 4, 4>::from_nonuniform_scale", 0, (ref b: Vector<S, 4>) => <Matrix<S, 4, 4>>::from_nonuniform_scale(&b));
    op!(v, "Matrix<S, 4, 4>::from_affine_scale", 0, (ref b: S) => <Matrix<S, 4, 4>>::from_affine_scale(b));
    op!(v, "Matrix<S, 5, 5>::from_scale", 0, (ref b: S) => <Matrix<S, 5, 5>>::from_scale(b));
    op!(v, "Matrix<S, 5, 5>::from_nonuniform_scale", 0, (ref b: Vector<S, 5>) => <Matrix<S, 5, 5>>::from_nonuniform_scale(&b));
    op!(v, "Matrix<S, 5, 5>::from_affine_scale", 0, (ref b: S) => <Matrix<S, 5, 5>>::from_affine_scale(b));
    op!(v, "Matrix<S, 2, 2>::from_affine_nonuniform_scale", 0, (ref b: Vector<S, 1>) => <Matrix<S, 2, 2>>::from_affine_nonuniform_scale(&b));
    op!(v, "Matrix<S, 2, 2>::from_affine_translation", 0, (ref b: Vector<S, 1>) => <Matrix<S, 2, 2>>::from_affine_translation(&b));
    op!(v, "Matrix<S, 3, 3>::from_affine_nonuniform_scale", 0, (ref b: Vector<S, 2>) => <Matrix<S, 3, 3>>::from_affine_nonuniform_scale(&b));
    op!(v, "Matrix<S, 3, 3>::from_affine_translation", 0, (ref b: Vector<S, 2>) => <Matrix<S, 3, 3>>::from_affine_translation(&b));
    op!(v, "Matrix<S, 4, 4>::from_affine_nonuniform_scale", 0, (ref b: Vector<S, 3>) => <Matrix<S, 4, 4>>::from_affine_nonuniform_scale(&b));
}
}
mod sc_13 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 4>::from_affine_translation", 0, (ref b: Vector<S, 3>) => <Matrix<S, 4, 4>>::from_affine_translation(&b));
    op!(v, "Matrix<S, 1, 1>::new", 0, (ref b: S) => <Matrix<S, 1, 1>>::new(b));
    op!(v, "Matrix<S, 1, 1>::to_scalar", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::to_scalar(&a));
    op!(v, "Matrix<S, 2, 2>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S) => <Matrix<S, 2, 2>>::new(b, c, d, e));
    op!(v, "Matrix<S, 2, 2>::from_shear_xy", 0, (ref b: S) => <Matrix<S, 2, 2>>::from_shear_xy(b));
    op!(v, "Matrix<S, 2, 2>::from_shear_yx", 0, (ref b: S) => <Matrix<S, 2, 2>>::from_shear_yx(b));
    op!(v, "Matrix<S, 3, 3>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S, ref f: S, ref g: S, ref h: S, ref i: S, ref j: S) => <Matrix<S, 3, 3>>::new(b, c, d, e, f, g, h, i, j));
    op!(v, "Matrix<S, 3, 3>::from_shear_xy", 0, (ref b: S) => <Matrix<S, 3, 3>>::from_shear_xy(b));
    op!(v, "Matrix<S, 3, 3>::from_shear_xz", 0, (ref b: S) => <Matrix<S, 3, 3>>::from_shear_xz(b));
    op!(v, "Matrix<S, 3, 3>::from_shear_yx", 0, (ref b: S) => <Matrix<S, 3, 3>>::from_shear_yx(b));
    op!(v, "Matrix<S, 3, 3>::from_shear_yz", 0, (ref b: S) => <Matrix<S, 3, 3>>::from_shear_yz(b));
    op!(v, "Matrix<S, 3, 3>::from_shear_zx", 0, (ref b: S) => <Matrix<S, 3, 3>>::from_shear_zx(b));
    op!(v, "Matrix<S, 3, 3>::from_shear_zy", 0, (ref b: S) => <Matrix<S, 3, 3>>::from_shear_zy(b));
    op!(v, "Matrix<S, 3, 3>::from_affine_shear_xy", 0, (ref b: S) => <Matrix<S, 3, 3>>::from_affine_shear_xy(b));
    op!(v, "Matrix<S, 3, 3>::from_affine_shear_yx", 0, (ref b: S) => <Matrix<S, 3, 3>>::from_affine_shear_yx(b));
    op!(v, "Matrix<S, 2, 2>::from(Matrix<S, 1, 1>)", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 2, 2>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(Matrix<S, 1, 1>)", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(Matrix<S, 1, 1>)", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(Matrix<S, 2, 2>)", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(Matrix<S, 2, 2>)", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(Matrix<S, 3, 3>)", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 2, 2>::from(&Matrix<S, 1, 1>)", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 2, 2>>::from(&a));
    op!(v, "Matrix<S, 3, 3>::from(&Matrix<S, 1, 1>)", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::from(&Matrix<S, 1, 1>)", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Matrix<S, 3, 3>::from(&Matrix<S, 2, 2>)", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::from(&Matrix<S, 2, 2>)", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::from(&Matrix<S, 3, 3>)", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S, ref f: S, ref g: S, ref h: S, ref i: S, ref j: S, ref k: S, ref l: S, ref m: S, ref n: S, ref o: S, ref p: S, ref q: S) => <Matrix<S, 4, 4>>::new(b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q));
    op!(v, "Matrix<S, 4, 4>::from_affine_shear_xy", 0, (ref b: S) => <Matrix<S, 4, 4>>::from_affine_shear_xy(b));
    op!(v, "Matrix<S, 4, 4>::from_affine_shear_xz", 0, (ref b: S) => <Matrix<S, 4, 4>>::from_affine_shear_xz(b));
    op!(v, "Matrix<S, 4, 4>::from_affine_shear_yx", 0, (ref b: S) => <Matrix<S, 4, 4>>::from_affine_shear_yx(b));
    op!(v, "Matrix<S, 4, 4>::from_affine_shear_yz", 0, (ref b: S) => <Matrix<S, 4, 4>>::from_affine_shear_yz(b));
    op!(v, "Matrix<S, 4, 4>::from_affine_shear_zx", 0, (ref b: S) => <Matrix<S, 4, 4>>::from_affine_shear_zx(b));
    op!(v, "Matrix<S, 4, 4>::from_affine_shear_zy", 0, (ref b: S) => <Matrix<S, 4, 4>>::from_affine_shear_zy(b));
    op!(v, "Matrix<S, 1, 2>::new", 0, (ref b: S, ref c: S) => <Matrix<S, 1, 2>>::new(b, c));
    op!(v, "Matrix<S, 1, 3>::new", 0, (ref b: S, ref c: S, ref d: S) => <Matrix<S, 1, 3>>::new(b, c, d));
    op!(v, "Matrix<S, 1, 4>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S) => <Matrix<S, 1, 4>>::new(b, c, d, e));
    op!(v, "Matrix<S, 2, 3>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S, ref f: S, ref g: S) => <Matrix<S, 2, 3>>::new(b, c, d, e, f, g));
    op!(v, "Matrix<S, 3, 2>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S, ref f: S, ref g: S) => <Matrix<S, 3, 2>>::new(b, c, d, e, f, g));
    op!(v, "Matrix<S, 2, 4>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S, ref f: S, ref g: S, ref h: S, ref i: S) => <Matrix<S, 2, 4>>::new(b, c, d, e, f, g, h, i));
}
}
mod sc_14 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 2>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S, ref f: S, ref g: S, ref h: S, ref i: S) => <Matrix<S, 4, 2>>::new(b, c, d, e, f, g, h, i));
    op!(v, "Matrix<S, 3, 4>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S, ref f: S, ref g: S, ref h: S, ref i: S, ref j: S, ref k: S, ref l: S, ref m: S) => <Matrix<S, 3, 4>>::new(b, c, d, e, f, g, h, i, j, k, l, m));
    op!(v, "Matrix<S, 4, 3>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S, ref f: S, ref g: S, ref h: S, ref i: S, ref j: S, ref k: S, ref l: S, ref m: S) => <Matrix<S, 4, 3>>::new(b, c, d, e, f, g, h, i, j, k, l, m));
    op!(v, "Matrix<S, 1, 1> + Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a + b);
    op!(v, "Matrix<S, 2, 2> + Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a + b);
    op!(v, "Matrix<S, 3, 3> + Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a + b);
    op!(v, "Matrix<S, 4, 4> + Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a + b);
    op!(v, "Matrix<S, 1, 2> + Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => a + b);
    op!(v, "Matrix<S, 1, 3> + Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => a + b);
    op!(v, "Matrix<S, 1, 4> + Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => a + b);
    op!(v, "Matrix<S, 2, 3> + Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => a + b);
    op!(v, "Matrix<S, 3, 2> + Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => a + b);
    op!(v, "Matrix<S, 2, 4> + Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => a + b);
    op!(v, "Matrix<S, 4, 2> + Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => a + b);
    op!(v, "Matrix<S, 3, 4> + Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => a + b);
    op!(v, "Matrix<S, 4, 3> + Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => a + b);
    op!(v, "Matrix<S, 4, 1> + Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => a + b);
    op!(v, "Matrix<S, 5, 5> + Matrix<S, 5, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => a + b);
    op!(v, "Matrix<S, 6, 2> + Matrix<S, 6, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => a + b);
    op!(v, "Matrix<S, 1, 1> + &Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a + &b);
    op!(v, "Matrix<S, 2, 2> + &Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a + &b);
    op!(v, "Matrix<S, 3, 3> + &Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a + &b);
    op!(v, "Matrix<S, 4, 4> + &Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a + &b);
    op!(v, "Matrix<S, 1, 2> + &Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => a + &b);
    op!(v, "Matrix<S, 1, 3> + &Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => a + &b);
    op!(v, "Matrix<S, 1, 4> + &Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => a + &b);
    op!(v, "Matrix<S, 2, 3> + &Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => a + &b);
    op!(v, "Matrix<S, 3, 2> + &Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => a + &b);
    op!(v, "Matrix<S, 2, 4> + &Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => a + &b);
    op!(v, "Matrix<S, 4, 2> + &Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => a + &b);
    op!(v, "Matrix<S, 3, 4> + &Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => a + &b);
    op!(v, "Matrix<S, 4, 3> + &Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => a + &b);
    op!(v, "Matrix<S, 4, 1> + &Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => a + &b);
    op!(v, "Matrix<S, 5, 5> + &Matrix<S, 5, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => a + &b);
    op!(v, "Matrix<S, 6, 2> + &Matrix<S, 6, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => a + &b);
    op!(v, "&Matrix<S, 1, 1> + Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => &a + b);
    op!(v, "&Matrix<S, 2, 2> + Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => &a + b);
    op!(v, "&Matrix<S, 3, 3> + Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => &a + b);
    op!(v, "&Matrix<S, 4, 4> + Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => &a + b);
    op!(v, "&Matrix<S, 1, 2> + Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => &a + b);
}
}
mod sc_15 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "&Matrix<S, 1, 3> + Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => &a + b);
    op!(v, "&Matrix<S, 1, 4> + Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => &a + b);
    op!(v, "&Matrix<S, 2, 3> + Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => &a + b);
    op!(v, "&Matrix<S, 3, 2> + Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => &a + b);
    op!(v, "&Matrix<S, 2, 4> + Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => &a + b);
    op!(v, "&Matrix<S, 4, 2> + Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => &a + b);
    op!(v, "&Matrix<S, 3, 4> + Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => &a + b);
    op!(v, "&Matrix<S, 4, 3> + Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => &a + b);
    op!(v, "&Matrix<S, 4, 1> + Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => &a + b);
    op!(v, "&Matrix<S, 5, 5> + Matrix<S, 5, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => &a + b);
    op!(v, "&Matrix<S, 6, 2> + Matrix<S, 6, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => &a + b);
    op!(v, "&Matrix<S, 1, 1> + &Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => &a + &b);
    op!(v, "&Matrix<S, 2, 2> + &Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => &a + &b);
    op!(v, "&Matrix<S, 3, 3> + &Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => &a + &b);
    op!(v, "&Matrix<S, 4, 4> + &Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => &a + &b);
    op!(v, "&Matrix<S, 1, 2> + &Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => &a + &b);
    op!(v, "&Matrix<S, 1, 3> + &Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => &a + &b);
    op!(v, "&Matrix<S, 1, 4> + &Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => &a + &b);
    op!(v, "&Matrix<S, 2, 3> + &Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => &a + &b);
    op!(v, "&Matrix<S, 3, 2> + &Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => &a + &b);
    op!(v, "&Matrix<S, 2, 4> + &Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => &a + &b);
    op!(v, "&Matrix<S, 4, 2> + &Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => &a + &b);
    op!(v, "&Matrix<S, 3, 4> + &Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => &a + &b);
    op!(v, "&Matrix<S, 4, 3> + &Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => &a + &b);
    op!(v, "&Matrix<S, 4, 1> + &Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => &a + &b);
    op!(v, "&Matrix<S, 5, 5> + &Matrix<S, 5, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => &a + &b);
    op!(v, "&Matrix<S, 6, 2> + &Matrix<S, 6, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => &a + &b);
    op!(v, "Matrix<S, 1, 1> - Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a - b);
    op!(v, "Matrix<S, 2, 2> - Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a - b);
    op!(v, "Matrix<S, 3, 3> - Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a - b);
    op!(v, "Matrix<S, 4, 4> - Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a - b);
    op!(v, "Matrix<S, 1, 2> - Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => a - b);
    op!(v, "Matrix<S, 1, 3> - Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => a - b);
    op!(v, "Matrix<S, 1, 4> - Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => a - b);
    op!(v, "Matrix<S, 2, 3> - Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => a - b);
    op!(v, "Matrix<S, 3, 2> - Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => a - b);
    op!(v, "Matrix<S, 2, 4> - Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => a - b);
    op!(v, "Matrix<S, 4, 2> - Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => a - b);
    op!(v, "Matrix<S, 3, 4> - Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => a - b);
    op!(v, "Matrix<S, 4, 3> - Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => a - b);
}
}
mod sc_16 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 1> - Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => a - b);
    op!(v, "Matrix<S, 5, 5> - Matrix<S, 5, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => a - b);
    op!(v, "Matrix<S, 6, 2> - Matrix<S, 6, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => a - b);
    op!(v, "Matrix<S, 1, 1> - &Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a - &b);
    op!(v, "Matrix<S, 2, 2> - &Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a - &b);
    op!(v, "Matrix<S, 3, 3> - &Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a - &b);
    op!(v, "Matrix<S, 4, 4> - &Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a - &b);
    op!(v, "Matrix<S, 1, 2> - &Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => a - &b);
    op!(v, "Matrix<S, 1, 3> - &Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => a - &b);
    op!(v, "Matrix<S, 1, 4> - &Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => a - &b);
    op!(v, "Matrix<S, 2, 3> - &Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => a - &b);
    op!(v, "Matrix<S, 3, 2> - &Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => a - &b);
    op!(v, "Matrix<S, 2, 4> - &Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => a - &b);
    op!(v, "Matrix<S, 4, 2> - &Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => a - &b);
    op!(v, "Matrix<S, 3, 4> - &Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => a - &b);
    op!(v, "Matrix<S, 4, 3> - &Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => a - &b);
    op!(v, "Matrix<S, 4, 1> - &Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => a - &b);
    op!(v, "Matrix<S, 5, 5> - &Matrix<S, 5, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => a - &b);
    op!(v, "Matrix<S, 6, 2> - &Matrix<S, 6, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => a - &b);
    op!(v, "&Matrix<S, 1, 1> - Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => &a - b);
    op!(v, "&Matrix<S, 2, 2> - Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => &a - b);
    op!(v, "&Matrix<S, 3, 3> - Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => &a - b);
    op!(v, "&Matrix<S, 4, 4> - Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => &a - b);
    op!(v, "&Matrix<S, 1, 2> - Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => &a - b);
    op!(v, "&Matrix<S, 1, 3> - Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => &a - b);
    op!(v, "&Matrix<S, 1, 4> - Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => &a - b);
    op!(v, "&Matrix<S, 2, 3> - Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => &a - b);
    op!(v, "&Matrix<S, 3, 2> - Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => &a - b);
    op!(v, "&Matrix<S, 2, 4> - Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => &a - b);
    op!(v, "&Matrix<S, 4, 2> - Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => &a - b);
    op!(v, "&Matrix<S, 3, 4> - Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => &a - b);
    op!(v, "&Matrix<S, 4, 3> - Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => &a - b);
    op!(v, "&Matrix<S, 4, 1> - Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => &a - b);
    op!(v, "&Matrix<S, 5, 5> - Matrix<S, 5, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => &a - b);
    op!(v, "&Matrix<S, 6, 2> - Matrix<S, 6, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => &a - b);
    op!(v, "&Matrix<S, 1, 1> - &Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => &a - &b);
    op!(v, "&Matrix<S, 2, 2> - &Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => &a - &b);
    op!(v, "&Matrix<S, 3, 3> - &Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => &a - &b);
    op!(v, "&Matrix<S, 4, 4> - &Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => &a - &b);
    op!(v, "&Matrix<S, 1, 2> - &Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => &a - &b);
}
}
mod sc_17 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "&Matrix<S, 1, 3> - &Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => &a - &b);
    op!(v, "&Matrix<S, 1, 4> - &Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => &a - &b);
    op!(v, "&Matrix<S, 2, 3> - &Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => &a - &b);
    op!(v, "&Matrix<S, 3, 2> - &Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => &a - &b);
    op!(v, "&Matrix<S, 2, 4> - &Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => &a - &b);
    op!(v, "&Matrix<S, 4, 2> - &Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => &a - &b);
    op!(v, "&Matrix<S, 3, 4> - &Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => &a - &b);
    op!(v, "&Matrix<S, 4, 3> - &Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => &a - &b);
    op!(v, "&Matrix<S, 4, 1> - &Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => &a - &b);
    op!(v, "&Matrix<S, 5, 5> - &Matrix<S, 5, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => &a - &b);
    op!(v, "&Matrix<S, 6, 2> - &Matrix<S, 6, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => &a - &b);
    op!(v, "Matrix<S, 1, 1> * S", 0, (ref a: Matrix<S, 1, 1>, ref b: S) => a * b);
    op!(v, "Matrix<S, 2, 2> * S", 0, (ref a: Matrix<S, 2, 2>, ref b: S) => a * b);
    op!(v, "Matrix<S, 3, 3> * S", 0, (ref a: Matrix<S, 3, 3>, ref b: S) => a * b);
    op!(v, "Matrix<S, 4, 4> * S", 0, (ref a: Matrix<S, 4, 4>, ref b: S) => a * b);
    op!(v, "Matrix<S, 1, 2> * S", 0, (ref a: Matrix<S, 1, 2>, ref b: S) => a * b);
    op!(v, "Matrix<S, 1, 3> * S", 0, (ref a: Matrix<S, 1, 3>, ref b: S) => a * b);
    op!(v, "Matrix<S, 1, 4> * S", 0, (ref a: Matrix<S, 1, 4>, ref b: S) => a * b);
    op!(v, "Matrix<S, 2, 3> * S", 0, (ref a: Matrix<S, 2, 3>, ref b: S) => a * b);
    op!(v, "Matrix<S, 3, 2> * S", 0, (ref a: Matrix<S, 3, 2>, ref b: S) => a * b);
    op!(v, "Matrix<S, 2, 4> * S", 0, (ref a: Matrix<S, 2, 4>, ref b: S) => a * b);
    op!(v, "Matrix<S, 4, 2> * S", 0, (ref a: Matrix<S, 4, 2>, ref b: S) => a * b);
    op!(v, "Matrix<S, 3, 4> * S", 0, (ref a: Matrix<S, 3, 4>, ref b: S) => a * b);
    op!(v, "Matrix<S, 4, 3> * S", 0, (ref a: Matrix<S, 4, 3>, ref b: S) => a * b);
    op!(v, "Matrix<S, 4, 1> * S", 0, (ref a: Matrix<S, 4, 1>, ref b: S) => a * b);
    op!(v, "Matrix<S, 5, 5> * S", 0, (ref a: Matrix<S, 5, 5>, ref b: S) => a * b);
    op!(v, "Matrix<S, 6, 2> * S", 0, (ref a: Matrix<S, 6, 2>, ref b: S) => a * b);
    op!(v, "&Matrix<S, 1, 1> * S", 0, (ref a: Matrix<S, 1, 1>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 2, 2> * S", 0, (ref a: Matrix<S, 2, 2>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 3, 3> * S", 0, (ref a: Matrix<S, 3, 3>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 4, 4> * S", 0, (ref a: Matrix<S, 4, 4>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 1, 2> * S", 0, (ref a: Matrix<S, 1, 2>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 1, 3> * S", 0, (ref a: Matrix<S, 1, 3>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 1, 4> * S", 0, (ref a: Matrix<S, 1, 4>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 2, 3> * S", 0, (ref a: Matrix<S, 2, 3>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 3, 2> * S", 0, (ref a: Matrix<S, 3, 2>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 2, 4> * S", 0, (ref a: Matrix<S, 2, 4>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 4, 2> * S", 0, (ref a: Matrix<S, 4, 2>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 3, 4> * S", 0, (ref a: Matrix<S, 3, 4>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 4, 3> * S", 0, (ref a: Matrix<S, 4, 3>, ref b: S) => &a * b);
}
}
mod sc_18 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "&Matrix<S, 4, 1> * S", 0, (ref a: Matrix<S, 4, 1>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 5, 5> * S", 0, (ref a: Matrix<S, 5, 5>, ref b: S) => &a * b);
    op!(v, "&Matrix<S, 6, 2> * S", 0, (ref a: Matrix<S, 6, 2>, ref b: S) => &a * b);
    op!(v, "Matrix<S, 1, 1> / S", 0, (ref a: Matrix<S, 1, 1>, ref b: S) => a / b);
    op!(v, "Matrix<S, 2, 2> / S", 0, (ref a: Matrix<S, 2, 2>, ref b: S) => a / b);
    op!(v, "Matrix<S, 3, 3> / S", 0, (ref a: Matrix<S, 3, 3>, ref b: S) => a / b);
    op!(v, "Matrix<S, 4, 4> / S", 0, (ref a: Matrix<S, 4, 4>, ref b: S) => a / b);
    op!(v, "Matrix<S, 1, 2> / S", 0, (ref a: Matrix<S, 1, 2>, ref b: S) => a / b);
    op!(v, "Matrix<S, 1, 3> / S", 0, (ref a: Matrix<S, 1, 3>, ref b: S) => a / b);
    op!(v, "Matrix<S, 1, 4> / S", 0, (ref a: Matrix<S, 1, 4>, ref b: S) => a / b);
    op!(v, "Matrix<S, 2, 3> / S", 0, (ref a: Matrix<S, 2, 3>, ref b: S) => a / b);
    op!(v, "Matrix<S, 3, 2> / S", 0, (ref a: Matrix<S, 3, 2>, ref b: S) => a / b);
    op!(v, "Matrix<S, 2, 4> / S", 0, (ref a: Matrix<S, 2, 4>, ref b: S) => a / b);
    op!(v, "Matrix<S, 4, 2> / S", 0, (ref a: Matrix<S, 4, 2>, ref b: S) => a / b);
    op!(v, "Matrix<S, 3, 4> / S", 0, (ref a: Matrix<S, 3, 4>, ref b: S) => a / b);
    op!(v, "Matrix<S, 4, 3> / S", 0, (ref a: Matrix<S, 4, 3>, ref b: S) => a / b);
    op!(v, "Matrix<S, 4, 1> / S", 0, (ref a: Matrix<S, 4, 1>, ref b: S) => a / b);
    op!(v, "Matrix<S, 5, 5> / S", 0, (ref a: Matrix<S, 5, 5>, ref b: S) => a / b);
    op!(v, "Matrix<S, 6, 2> / S", 0, (ref a: Matrix<S, 6, 2>, ref b: S) => a / b);
    op!(v, "&Matrix<S, 1, 1> / S", 0, (ref a: Matrix<S, 1, 1>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 2, 2> / S", 0, (ref a: Matrix<S, 2, 2>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 3, 3> / S", 0, (ref a: Matrix<S, 3, 3>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 4, 4> / S", 0, (ref a: Matrix<S, 4, 4>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 1, 2> / S", 0, (ref a: Matrix<S, 1, 2>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 1, 3> / S", 0, (ref a: Matrix<S, 1, 3>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 1, 4> / S", 0, (ref a: Matrix<S, 1, 4>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 2, 3> / S", 0, (ref a: Matrix<S, 2, 3>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 3, 2> / S", 0, (ref a: Matrix<S, 3, 2>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 2, 4> / S", 0, (ref a: Matrix<S, 2, 4>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 4, 2> / S", 0, (ref a: Matrix<S, 4, 2>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 3, 4> / S", 0, (ref a: Matrix<S, 3, 4>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 4, 3> / S", 0, (ref a: Matrix<S, 4, 3>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 4, 1> / S", 0, (ref a: Matrix<S, 4, 1>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 5, 5> / S", 0, (ref a: Matrix<S, 5, 5>, ref b: S) => &a / b);
    op!(v, "&Matrix<S, 6, 2> / S", 0, (ref a: Matrix<S, 6, 2>, ref b: S) => &a / b);
    op!(v, "Matrix<S, 1, 1> % S", 0, (ref a: Matrix<S, 1, 1>, ref b: S) => a % b);
    op!(v, "Matrix<S, 2, 2> % S", 0, (ref a: Matrix<S, 2, 2>, ref b: S) => a % b);
    op!(v, "Matrix<S, 3, 3> % S", 0, (ref a: Matrix<S, 3, 3>, ref b: S) => a % b);
    op!(v, "Matrix<S, 4, 4> % S", 0, (ref a: Matrix<S, 4, 4>, ref b: S) => a % b);
    op!(v, "Matrix<S, 1, 2> % S", 0, (ref a: Matrix<S, 1, 2>, ref b: S) => a % b);
}
}
mod sc_19 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 3> % S", 0, (ref a: Matrix<S, 1, 3>, ref b: S) => a % b);
    op!(v, "Matrix<S, 1, 4> % S", 0, (ref a: Matrix<S, 1, 4>, ref b: S) => a % b);
    op!(v, "Matrix<S, 2, 3> % S", 0, (ref a: Matrix<S, 2, 3>, ref b: S) => a % b);
    op!(v, "Matrix<S, 3, 2> % S", 0, (ref a: Matrix<S, 3, 2>, ref b: S) => a % b);
    op!(v, "Matrix<S, 2, 4> % S", 0, (ref a: Matrix<S, 2, 4>, ref b: S) => a % b);
    op!(v, "Matrix<S, 4, 2> % S", 0, (ref a: Matrix<S, 4, 2>, ref b: S) => a % b);
    op!(v, "Matrix<S, 3, 4> % S", 0, (ref a: Matrix<S, 3, 4>, ref b: S) => a % b);
    op!(v, "Matrix<S, 4, 3> % S", 0, (ref a: Matrix<S, 4, 3>, ref b: S) => a % b);
    op!(v, "Matrix<S, 4, 1> % S", 0, (ref a: Matrix<S, 4, 1>, ref b: S) => a % b);
    op!(v, "Matrix<S, 5, 5> % S", 0, (ref a: Matrix<S, 5, 5>, ref b: S) => a % b);
    op!(v, "Matrix<S, 6, 2> % S", 0, (ref a: Matrix<S, 6, 2>, ref b: S) => a % b);
    op!(v, "&Matrix<S, 1, 1> % S", 0, (ref a: Matrix<S, 1, 1>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 2, 2> % S", 0, (ref a: Matrix<S, 2, 2>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 3, 3> % S", 0, (ref a: Matrix<S, 3, 3>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 4, 4> % S", 0, (ref a: Matrix<S, 4, 4>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 1, 2> % S", 0, (ref a: Matrix<S, 1, 2>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 1, 3> % S", 0, (ref a: Matrix<S, 1, 3>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 1, 4> % S", 0, (ref a: Matrix<S, 1, 4>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 2, 3> % S", 0, (ref a: Matrix<S, 2, 3>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 3, 2> % S", 0, (ref a: Matrix<S, 3, 2>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 2, 4> % S", 0, (ref a: Matrix<S, 2, 4>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 4, 2> % S", 0, (ref a: Matrix<S, 4, 2>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 3, 4> % S", 0, (ref a: Matrix<S, 3, 4>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 4, 3> % S", 0, (ref a: Matrix<S, 4, 3>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 4, 1> % S", 0, (ref a: Matrix<S, 4, 1>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 5, 5> % S", 0, (ref a: Matrix<S, 5, 5>, ref b: S) => &a % b);
    op!(v, "&Matrix<S, 6, 2> % S", 0, (ref a: Matrix<S, 6, 2>, ref b: S) => &a % b);
    op!(v, "Matrix<S, 1, 1> * Vector<S, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Vector<S, 1>) => a * b);
    op!(v, "Matrix<S, 2, 2> * Vector<S, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Matrix<S, 3, 3> * Vector<S, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Matrix<S, 4, 4> * Vector<S, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Vector<S, 4>) => a * b);
    op!(v, "Matrix<S, 1, 2> * Vector<S, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Matrix<S, 1, 3> * Vector<S, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Matrix<S, 1, 4> * Vector<S, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Vector<S, 4>) => a * b);
    op!(v, "Matrix<S, 2, 3> * Vector<S, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Matrix<S, 3, 2> * Vector<S, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Matrix<S, 2, 4> * Vector<S, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Vector<S, 4>) => a * b);
    op!(v, "Matrix<S, 4, 2> * Vector<S, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Matrix<S, 3, 4> * Vector<S, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Vector<S, 4>) => a * b);
    op!(v, "Matrix<S, 4, 3> * Vector<S, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Vector<S, 3>) => a * b);
}
}
mod sc_20 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 1> * Vector<S, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Vector<S, 1>) => a * b);
    op!(v, "Matrix<S, 5, 5> * Vector<S, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Vector<S, 5>) => a * b);
    op!(v, "Matrix<S, 6, 2> * Vector<S, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Matrix<S, 1, 1> * &Vector<S, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Vector<S, 1>) => a * &b);
    op!(v, "Matrix<S, 2, 2> * &Vector<S, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "Matrix<S, 3, 3> * &Vector<S, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "Matrix<S, 4, 4> * &Vector<S, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Vector<S, 4>) => a * &b);
    op!(v, "Matrix<S, 1, 2> * &Vector<S, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "Matrix<S, 1, 3> * &Vector<S, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "Matrix<S, 1, 4> * &Vector<S, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Vector<S, 4>) => a * &b);
    op!(v, "Matrix<S, 2, 3> * &Vector<S, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "Matrix<S, 3, 2> * &Vector<S, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "Matrix<S, 2, 4> * &Vector<S, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Vector<S, 4>) => a * &b);
    op!(v, "Matrix<S, 4, 2> * &Vector<S, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "Matrix<S, 3, 4> * &Vector<S, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Vector<S, 4>) => a * &b);
    op!(v, "Matrix<S, 4, 3> * &Vector<S, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "Matrix<S, 4, 1> * &Vector<S, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Vector<S, 1>) => a * &b);
    op!(v, "Matrix<S, 5, 5> * &Vector<S, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Vector<S, 5>) => a * &b);
    op!(v, "Matrix<S, 6, 2> * &Vector<S, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "&Matrix<S, 1, 1> * Vector<S, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Vector<S, 1>) => &a * b);
    op!(v, "&Matrix<S, 2, 2> * Vector<S, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Matrix<S, 3, 3> * Vector<S, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Matrix<S, 4, 4> * Vector<S, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Vector<S, 4>) => &a * b);
    op!(v, "&Matrix<S, 1, 2> * Vector<S, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Matrix<S, 1, 3> * Vector<S, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Matrix<S, 1, 4> * Vector<S, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Vector<S, 4>) => &a * b);
    op!(v, "&Matrix<S, 2, 3> * Vector<S, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Matrix<S, 3, 2> * Vector<S, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Matrix<S, 2, 4> * Vector<S, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Vector<S, 4>) => &a * b);
    op!(v, "&Matrix<S, 4, 2> * Vector<S, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Matrix<S, 3, 4> * Vector<S, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Vector<S, 4>) => &a * b);
    op!(v, "&Matrix<S, 4, 3> * Vector<S, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Matrix<S, 4, 1> * Vector<S, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Vector<S, 1>) => &a * b);
    op!(v, "&Matrix<S, 5, 5> * Vector<S, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Vector<S, 5>) => &a * b);
    op!(v, "&Matrix<S, 6, 2> * Vector<S, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Matrix<S, 1, 1> * &Vector<S, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Vector<S, 1>) => &a * &b);
    op!(v, "&Matrix<S, 2, 2> * &Vector<S, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Vector<S, 2>) => &a * &b);
    op!(v, "&Matrix<S, 3, 3> * &Vector<S, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "&Matrix<S, 4, 4> * &Vector<S, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Vector<S, 4>) => &a * &b);
    op!(v, "&Matrix<S, 1, 2> * &Vector<S, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Vector<S, 2>) => &a * &b);
}
}
mod sc_21 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "&Matrix<S, 1, 3> * &Vector<S, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "&Matrix<S, 1, 4> * &Vector<S, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Vector<S, 4>) => &a * &b);
    op!(v, "&Matrix<S, 2, 3> * &Vector<S, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "&Matrix<S, 3, 2> * &Vector<S, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Vector<S, 2>) => &a * &b);
    op!(v, "&Matrix<S, 2, 4> * &Vector<S, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Vector<S, 4>) => &a * &b);
    op!(v, "&Matrix<S, 4, 2> * &Vector<S, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Vector<S, 2>) => &a * &b);
    op!(v, "&Matrix<S, 3, 4> * &Vector<S, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Vector<S, 4>) => &a * &b);
    op!(v, "&Matrix<S, 4, 3> * &Vector<S, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "&Matrix<S, 4, 1> * &Vector<S, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Vector<S, 1>) => &a * &b);
    op!(v, "&Matrix<S, 5, 5> * &Vector<S, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Vector<S, 5>) => &a * &b);
    op!(v, "&Matrix<S, 6, 2> * &Vector<S, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Vector<S, 2>) => &a * &b);
    op!(v, "Matrix<S, 1, 1> * Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a * b);
    op!(v, "Matrix<S, 1, 1> * Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 2>) => a * b);
    op!(v, "Matrix<S, 1, 1> * Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 3>) => a * b);
    op!(v, "Matrix<S, 1, 1> * Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 4>) => a * b);
    op!(v, "Matrix<S, 2, 2> * Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a * b);
    op!(v, "Matrix<S, 2, 2> * Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 3>) => a * b);
    op!(v, "Matrix<S, 2, 2> * Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 4>) => a * b);
    op!(v, "Matrix<S, 3, 3> * Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a * b);
    op!(v, "Matrix<S, 3, 3> * Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 2>) => a * b);
    op!(v, "Matrix<S, 3, 3> * Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 4>) => a * b);
    op!(v, "Matrix<S, 4, 4> * Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a * b);
    op!(v, "Matrix<S, 4, 4> * Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 2>) => a * b);
    op!(v, "Matrix<S, 4, 4> * Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 3>) => a * b);
    op!(v, "Matrix<S, 4, 4> * Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 1>) => a * b);
    op!(v, "Matrix<S, 1, 2> * Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 2, 2>) => a * b);
    op!(v, "Matrix<S, 1, 2> * Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 2, 3>) => a * b);
    op!(v, "Matrix<S, 1, 2> * Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 2, 4>) => a * b);
    op!(v, "Matrix<S, 1, 3> * Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 3, 3>) => a * b);
    op!(v, "Matrix<S, 1, 3> * Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 3, 2>) => a * b);
    op!(v, "Matrix<S, 1, 3> * Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 3, 4>) => a * b);
    op!(v, "Matrix<S, 1, 4> * Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 4>) => a * b);
    op!(v, "Matrix<S, 1, 4> * Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 2>) => a * b);
    op!(v, "Matrix<S, 1, 4> * Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 3>) => a * b);
    op!(v, "Matrix<S, 1, 4> * Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 1>) => a * b);
    op!(v, "Matrix<S, 2, 3> * Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 3>) => a * b);
    op!(v, "Matrix<S, 2, 3> * Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 2>) => a * b);
    op!(v, "Matrix<S, 2, 3> * Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 4>) => a * b);
    op!(v, "Matrix<S, 3, 2> * Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 2>) => a * b);
    op!(v, "Matrix<S, 3, 2> * Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 3>) => a * b);
}
}
mod sc_22 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 3, 2> * Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 4>) => a * b);
    op!(v, "Matrix<S, 2, 4> * Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 4>) => a * b);
    op!(v, "Matrix<S, 2, 4> * Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 2>) => a * b);
    op!(v, "Matrix<S, 2, 4> * Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 3>) => a * b);
    op!(v, "Matrix<S, 4, 2> * Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 2>) => a * b);
    op!(v, "Matrix<S, 4, 2> * Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 3>) => a * b);
    op!(v, "Matrix<S, 4, 2> * Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 4>) => a * b);
    op!(v, "Matrix<S, 3, 4> * Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 4>) => a * b);
    op!(v, "Matrix<S, 3, 4> * Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 2>) => a * b);
    op!(v, "Matrix<S, 3, 4> * Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 3>) => a * b);
    op!(v, "Matrix<S, 4, 3> * Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 3>) => a * b);
    op!(v, "Matrix<S, 4, 3> * Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 2>) => a * b);
    op!(v, "Matrix<S, 4, 3> * Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 4>) => a * b);
    op!(v, "Matrix<S, 4, 1> * Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 1>) => a * b);
    op!(v, "Matrix<S, 4, 1> * Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 2>) => a * b);
    op!(v, "Matrix<S, 4, 1> * Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 3>) => a * b);
    op!(v, "Matrix<S, 4, 1> * Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 4>) => a * b);
    op!(v, "Matrix<S, 1, 1> * &Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a * &b);
    op!(v, "Matrix<S, 1, 1> * &Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 2>) => a * &b);
    op!(v, "Matrix<S, 1, 1> * &Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 3>) => a * &b);
    op!(v, "Matrix<S, 1, 1> * &Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 4>) => a * &b);
    op!(v, "Matrix<S, 2, 2> * &Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a * &b);
    op!(v, "Matrix<S, 2, 2> * &Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 3>) => a * &b);
    op!(v, "Matrix<S, 2, 2> * &Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 4>) => a * &b);
    op!(v, "Matrix<S, 3, 3> * &Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a * &b);
    op!(v, "Matrix<S, 3, 3> * &Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 2>) => a * &b);
    op!(v, "Matrix<S, 3, 3> * &Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 4>) => a * &b);
    op!(v, "Matrix<S, 4, 4> * &Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a * &b);
    op!(v, "Matrix<S, 4, 4> * &Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 2>) => a * &b);
    op!(v, "Matrix<S, 4, 4> * &Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 3>) => a * &b);
    op!(v, "Matrix<S, 4, 4> * &Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 1>) => a * &b);
    op!(v, "Matrix<S, 1, 2> * &Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 2, 2>) => a * &b);
    op!(v, "Matrix<S, 1, 2> * &Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 2, 3>) => a * &b);
    op!(v, "Matrix<S, 1, 2> * &Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 2, 4>) => a * &b);
    op!(v, "Matrix<S, 1, 3> * &Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 3, 3>) => a * &b);
    op!(v, "Matrix<S, 1, 3> * &Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 3, 2>) => a * &b);
    op!(v, "Matrix<S, 1, 3> * &Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 3, 4>) => a * &b);
    op!(v, "Matrix<S, 1, 4> * &Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 4>) => a * &b);
    op!(v, "Matrix<S, 1, 4> * &Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 2>) => a * &b);
    op!(v, "Matrix<S, 1, 4> * &Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 3>) => a * &b);
}
}
mod sc_23 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 4> * &Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 1>) => a * &b);
    op!(v, "Matrix<S, 2, 3> * &Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 3>) => a * &b);
    op!(v, "Matrix<S, 2, 3> * &Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 2>) => a * &b);
    op!(v, "Matrix<S, 2, 3> * &Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 4>) => a * &b);
    op!(v, "Matrix<S, 3, 2> * &Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 2>) => a * &b);
    op!(v, "Matrix<S, 3, 2> * &Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 3>) => a * &b);
    op!(v, "Matrix<S, 3, 2> * &Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 4>) => a * &b);
    op!(v, "Matrix<S, 2, 4> * &Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 4>) => a * &b);
    op!(v, "Matrix<S, 2, 4> * &Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 2>) => a * &b);
    op!(v, "Matrix<S, 2, 4> * &Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 3>) => a * &b);
    op!(v, "Matrix<S, 4, 2> * &Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 2>) => a * &b);
    op!(v, "Matrix<S, 4, 2> * &Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 3>) => a * &b);
    op!(v, "Matrix<S, 4, 2> * &Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 4>) => a * &b);
    op!(v, "Matrix<S, 3, 4> * &Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 4>) => a * &b);
    op!(v, "Matrix<S, 3, 4> * &Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 2>) => a * &b);
    op!(v, "Matrix<S, 3, 4> * &Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 3>) => a * &b);
    op!(v, "Matrix<S, 4, 3> * &Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 3>) => a * &b);
    op!(v, "Matrix<S, 4, 3> * &Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 2>) => a * &b);
    op!(v, "Matrix<S, 4, 3> * &Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 4>) => a * &b);
    op!(v, "Matrix<S, 4, 1> * &Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 1>) => a * &b);
    op!(v, "Matrix<S, 4, 1> * &Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 2>) => a * &b);
    op!(v, "Matrix<S, 4, 1> * &Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 3>) => a * &b);
    op!(v, "Matrix<S, 4, 1> * &Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 4>) => a * &b);
    op!(v, "&Matrix<S, 1, 1> * Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => &a * b);
    op!(v, "&Matrix<S, 1, 1> * Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 2>) => &a * b);
    op!(v, "&Matrix<S, 1, 1> * Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 3>) => &a * b);
    op!(v, "&Matrix<S, 1, 1> * Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 4>) => &a * b);
    op!(v, "&Matrix<S, 2, 2> * Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => &a * b);
    op!(v, "&Matrix<S, 2, 2> * Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 3>) => &a * b);
    op!(v, "&Matrix<S, 2, 2> * Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 4>) => &a * b);
    op!(v, "&Matrix<S, 3, 3> * Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => &a * b);
    op!(v, "&Matrix<S, 3, 3> * Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 2>) => &a * b);
    op!(v, "&Matrix<S, 3, 3> * Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 4>) => &a * b);
    op!(v, "&Matrix<S, 4, 4> * Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => &a * b);
    op!(v, "&Matrix<S, 4, 4> * Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 2>) => &a * b);
    op!(v, "&Matrix<S, 4, 4> * Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 3>) => &a * b);
    op!(v, "&Matrix<S, 4, 4> * Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 1>) => &a * b);
    op!(v, "&Matrix<S, 1, 2> * Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 2, 2>) => &a * b);
    op!(v, "&Matrix<S, 1, 2> * Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 2, 3>) => &a * b);
    op!(v, "&Matrix<S, 1, 2> * Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 2, 4>) => &a * b);
}
}
mod sc_24 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "&Matrix<S, 1, 3> * Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 3, 3>) => &a * b);
    op!(v, "&Matrix<S, 1, 3> * Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 3, 2>) => &a * b);
    op!(v, "&Matrix<S, 1, 3> * Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 3, 4>) => &a * b);
    op!(v, "&Matrix<S, 1, 4> * Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 4>) => &a * b);
    op!(v, "&Matrix<S, 1, 4> * Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 2>) => &a * b);
    op!(v, "&Matrix<S, 1, 4> * Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 3>) => &a * b);
    op!(v, "&Matrix<S, 1, 4> * Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 1>) => &a * b);
    op!(v, "&Matrix<S, 2, 3> * Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 3>) => &a * b);
    op!(v, "&Matrix<S, 2, 3> * Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 2>) => &a * b);
    op!(v, "&Matrix<S, 2, 3> * Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 4>) => &a * b);
    op!(v, "&Matrix<S, 3, 2> * Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 2>) => &a * b);
    op!(v, "&Matrix<S, 3, 2> * Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 3>) => &a * b);
    op!(v, "&Matrix<S, 3, 2> * Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 4>) => &a * b);
    op!(v, "&Matrix<S, 2, 4> * Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 4>) => &a * b);
    op!(v, "&Matrix<S, 2, 4> * Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 2>) => &a * b);
    op!(v, "&Matrix<S, 2, 4> * Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 3>) => &a * b);
    op!(v, "&Matrix<S, 4, 2> * Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 2>) => &a * b);
    op!(v, "&Matrix<S, 4, 2> * Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 3>) => &a * b);
    op!(v, "&Matrix<S, 4, 2> * Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 4>) => &a * b);
    op!(v, "&Matrix<S, 3, 4> * Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 4>) => &a * b);
    op!(v, "&Matrix<S, 3, 4> * Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 2>) => &a * b);
    op!(v, "&Matrix<S, 3, 4> * Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 3>) => &a * b);
    op!(v, "&Matrix<S, 4, 3> * Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 3>) => &a * b);
    op!(v, "&Matrix<S, 4, 3> * Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 2>) => &a * b);
    op!(v, "&Matrix<S, 4, 3> * Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 4>) => &a * b);
    op!(v, "&Matrix<S, 4, 1> * Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 1>) => &a * b);
    op!(v, "&Matrix<S, 4, 1> * Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 2>) => &a * b);
    op!(v, "&Matrix<S, 4, 1> * Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 3>) => &a * b);
    op!(v, "&Matrix<S, 4, 1> * Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 4>) => &a * b);
    op!(v, "&Matrix<S, 1, 1> * &Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => &a * &b);
    op!(v, "&Matrix<S, 1, 1> * &Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 2>) => &a * &b);
    op!(v, "&Matrix<S, 1, 1> * &Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 3>) => &a * &b);
    op!(v, "&Matrix<S, 1, 1> * &Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 4>) => &a * &b);
    op!(v, "&Matrix<S, 2, 2> * &Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => &a * &b);
    op!(v, "&Matrix<S, 2, 2> * &Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 3>) => &a * &b);
    op!(v, "&Matrix<S, 2, 2> * &Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 4>) => &a * &b);
    op!(v, "&Matrix<S, 3, 3> * &Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => &a * &b);
    op!(v, "&Matrix<S, 3, 3> * &Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 2>) => &a * &b);
    op!(v, "&Matrix<S, 3, 3> * &Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 4>) => &a * &b);
    op!(v, "&Matrix<S, 4, 4> * &Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => &a * &b);
}
}
mod sc_25 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "&Matrix<S, 4, 4> * &Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 2>) => &a * &b);
    op!(v, "&Matrix<S, 4, 4> * &Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 3>) => &a * &b);
    op!(v, "&Matrix<S, 4, 4> * &Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 1>) => &a * &b);
    op!(v, "&Matrix<S, 1, 2> * &Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 2, 2>) => &a * &b);
    op!(v, "&Matrix<S, 1, 2> * &Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 2, 3>) => &a * &b);
    op!(v, "&Matrix<S, 1, 2> * &Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 2, 4>) => &a * &b);
    op!(v, "&Matrix<S, 1, 3> * &Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 3, 3>) => &a * &b);
    op!(v, "&Matrix<S, 1, 3> * &Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 3, 2>) => &a * &b);
    op!(v, "&Matrix<S, 1, 3> * &Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 3, 4>) => &a * &b);
    op!(v, "&Matrix<S, 1, 4> * &Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 4>) => &a * &b);
    op!(v, "&Matrix<S, 1, 4> * &Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 2>) => &a * &b);
    op!(v, "&Matrix<S, 1, 4> * &Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 3>) => &a * &b);
    op!(v, "&Matrix<S, 1, 4> * &Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 4, 1>) => &a * &b);
    op!(v, "&Matrix<S, 2, 3> * &Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 3>) => &a * &b);
    op!(v, "&Matrix<S, 2, 3> * &Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 2>) => &a * &b);
    op!(v, "&Matrix<S, 2, 3> * &Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 3, 4>) => &a * &b);
    op!(v, "&Matrix<S, 3, 2> * &Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 2>) => &a * &b);
    op!(v, "&Matrix<S, 3, 2> * &Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 3>) => &a * &b);
    op!(v, "&Matrix<S, 3, 2> * &Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 2, 4>) => &a * &b);
    op!(v, "&Matrix<S, 2, 4> * &Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 4>) => &a * &b);
    op!(v, "&Matrix<S, 2, 4> * &Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 2>) => &a * &b);
    op!(v, "&Matrix<S, 2, 4> * &Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 4, 3>) => &a * &b);
    op!(v, "&Matrix<S, 4, 2> * &Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 2>) => &a * &b);
    op!(v, "&Matrix<S, 4, 2> * &Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 3>) => &a * &b);
    op!(v, "&Matrix<S, 4, 2> * &Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 2, 4>) => &a * &b);
    op!(v, "&Matrix<S, 3, 4> * &Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 4>) => &a * &b);
    op!(v, "&Matrix<S, 3, 4> * &Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 2>) => &a * &b);
    op!(v, "&Matrix<S, 3, 4> * &Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 4, 3>) => &a * &b);
    op!(v, "&Matrix<S, 4, 3> * &Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 3>) => &a * &b);
    op!(v, "&Matrix<S, 4, 3> * &Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 2>) => &a * &b);
    op!(v, "&Matrix<S, 4, 3> * &Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 3, 4>) => &a * &b);
    op!(v, "&Matrix<S, 4, 1> * &Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 1>) => &a * &b);
    op!(v, "&Matrix<S, 4, 1> * &Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 2>) => &a * &b);
    op!(v, "&Matrix<S, 4, 1> * &Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 3>) => &a * &b);
    op!(v, "&Matrix<S, 4, 1> * &Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 1, 4>) => &a * &b);
    op!(v, "Matrix<S, 1, 1> += Matrix<S, 1, 1>", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a += b);
    op!(v, "Matrix<S, 2, 2> += Matrix<S, 2, 2>", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a += b);
    op!(v, "Matrix<S, 3, 3> += Matrix<S, 3, 3>", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a += b);
    op!(v, "Matrix<S, 4, 4> += Matrix<S, 4, 4>", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a += b);
    op!(v, "Matrix<S, 1, 2> += Matrix<S, 1, 2>", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => a += b);
}
}
mod sc_26 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 3> += Matrix<S, 1, 3>", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => a += b);
    op!(v, "Matrix<S, 1, 4> += Matrix<S, 1, 4>", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => a += b);
    op!(v, "Matrix<S, 2, 3> += Matrix<S, 2, 3>", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => a += b);
    op!(v, "Matrix<S, 3, 2> += Matrix<S, 3, 2>", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => a += b);
    op!(v, "Matrix<S, 2, 4> += Matrix<S, 2, 4>", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => a += b);
    op!(v, "Matrix<S, 4, 2> += Matrix<S, 4, 2>", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => a += b);
    op!(v, "Matrix<S, 3, 4> += Matrix<S, 3, 4>", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => a += b);
    op!(v, "Matrix<S, 4, 3> += Matrix<S, 4, 3>", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => a += b);
    op!(v, "Matrix<S, 4, 1> += Matrix<S, 4, 1>", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => a += b);
    op!(v, "Matrix<S, 5, 5> += Matrix<S, 5, 5>", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => a += b);
    op!(v, "Matrix<S, 6, 2> += Matrix<S, 6, 2>", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => a += b);
    op!(v, "Matrix<S, 1, 1> += &Matrix<S, 1, 1>", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a += &b);
    op!(v, "Matrix<S, 2, 2> += &Matrix<S, 2, 2>", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a += &b);
    op!(v, "Matrix<S, 3, 3> += &Matrix<S, 3, 3>", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a += &b);
    op!(v, "Matrix<S, 4, 4> += &Matrix<S, 4, 4>", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a += &b);
    op!(v, "Matrix<S, 1, 2> += &Matrix<S, 1, 2>", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => a += &b);
    op!(v, "Matrix<S, 1, 3> += &Matrix<S, 1, 3>", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => a += &b);
    op!(v, "Matrix<S, 1, 4> += &Matrix<S, 1, 4>", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => a += &b);
    op!(v, "Matrix<S, 2, 3> += &Matrix<S, 2, 3>", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => a += &b);
    op!(v, "Matrix<S, 3, 2> += &Matrix<S, 3, 2>", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => a += &b);
    op!(v, "Matrix<S, 2, 4> += &Matrix<S, 2, 4>", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => a += &b);
    op!(v, "Matrix<S, 4, 2> += &Matrix<S, 4, 2>", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => a += &b);
    op!(v, "Matrix<S, 3, 4> += &Matrix<S, 3, 4>", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => a += &b);
    op!(v, "Matrix<S, 4, 3> += &Matrix<S, 4, 3>", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => a += &b);
    op!(v, "Matrix<S, 4, 1> += &Matrix<S, 4, 1>", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => a += &b);
    op!(v, "Matrix<S, 5, 5> += &Matrix<S, 5, 5>", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => a += &b);
    op!(v, "Matrix<S, 6, 2> += &Matrix<S, 6, 2>", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => a += &b);
    op!(v, "Matrix<S, 1, 1> -= Matrix<S, 1, 1>", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a -= b);
    op!(v, "Matrix<S, 2, 2> -= Matrix<S, 2, 2>", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a -= b);
    op!(v, "Matrix<S, 3, 3> -= Matrix<S, 3, 3>", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a -= b);
    op!(v, "Matrix<S, 4, 4> -= Matrix<S, 4, 4>", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a -= b);
    op!(v, "Matrix<S, 1, 2> -= Matrix<S, 1, 2>", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => a -= b);
    op!(v, "Matrix<S, 1, 3> -= Matrix<S, 1, 3>", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => a -= b);
    op!(v, "Matrix<S, 1, 4> -= Matrix<S, 1, 4>", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => a -= b);
    op!(v, "Matrix<S, 2, 3> -= Matrix<S, 2, 3>", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => a -= b);
    op!(v, "Matrix<S, 3, 2> -= Matrix<S, 3, 2>", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => a -= b);
    op!(v, "Matrix<S, 2, 4> -= Matrix<S, 2, 4>", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => a -= b);
    op!(v, "Matrix<S, 4, 2> -= Matrix<S, 4, 2>", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => a -= b);
    op!(v, "Matrix<S, 3, 4> -= Matrix<S, 3, 4>", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => a -= b);
    op!(v, "Matrix<S, 4, 3> -= Matrix<S, 4, 3>", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => a -= b);
}
}
mod sc_27 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 1> -= Matrix<S, 4, 1>", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => a -= b);
    op!(v, "Matrix<S, 5, 5> -= Matrix<S, 5, 5>", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => a -= b);
    op!(v, "Matrix<S, 6, 2> -= Matrix<S, 6, 2>", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => a -= b);
    op!(v, "Matrix<S, 1, 1> -= &Matrix<S, 1, 1>", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a -= &b);
    op!(v, "Matrix<S, 2, 2> -= &Matrix<S, 2, 2>", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a -= &b);
    op!(v, "Matrix<S, 3, 3> -= &Matrix<S, 3, 3>", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a -= &b);
    op!(v, "Matrix<S, 4, 4> -= &Matrix<S, 4, 4>", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a -= &b);
    op!(v, "Matrix<S, 1, 2> -= &Matrix<S, 1, 2>", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => a -= &b);
    op!(v, "Matrix<S, 1, 3> -= &Matrix<S, 1, 3>", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => a -= &b);
    op!(v, "Matrix<S, 1, 4> -= &Matrix<S, 1, 4>", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => a -= &b);
    op!(v, "Matrix<S, 2, 3> -= &Matrix<S, 2, 3>", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => a -= &b);
    op!(v, "Matrix<S, 3, 2> -= &Matrix<S, 3, 2>", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => a -= &b);
    op!(v, "Matrix<S, 2, 4> -= &Matrix<S, 2, 4>", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => a -= &b);
    op!(v, "Matrix<S, 4, 2> -= &Matrix<S, 4, 2>", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => a -= &b);
    op!(v, "Matrix<S, 3, 4> -= &Matrix<S, 3, 4>", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => a -= &b);
    op!(v, "Matrix<S, 4, 3> -= &Matrix<S, 4, 3>", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => a -= &b);
    op!(v, "Matrix<S, 4, 1> -= &Matrix<S, 4, 1>", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => a -= &b);
    op!(v, "Matrix<S, 5, 5> -= &Matrix<S, 5, 5>", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => a -= &b);
    op!(v, "Matrix<S, 6, 2> -= &Matrix<S, 6, 2>", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => a -= &b);
    op!(v, "Matrix<S, 1, 1> *= S", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 2, 2> *= S", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 3, 3> *= S", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 4, 4> *= S", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 1, 2> *= S", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 1, 3> *= S", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 1, 4> *= S", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 2, 3> *= S", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 3, 2> *= S", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 2, 4> *= S", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 4, 2> *= S", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 3, 4> *= S", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 4, 3> *= S", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 4, 1> *= S", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 5, 5> *= S", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 6, 2> *= S", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: S) => a *= b);
    op!(v, "Matrix<S, 1, 1> /= S", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 2, 2> /= S", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 3, 3> /= S", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 4, 4> /= S", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 1, 2> /= S", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: S) => a /= b);
}
}
mod sc_28 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 3> /= S", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 1, 4> /= S", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 2, 3> /= S", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 3, 2> /= S", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 2, 4> /= S", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 4, 2> /= S", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 3, 4> /= S", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 4, 3> /= S", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 4, 1> /= S", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 5, 5> /= S", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 6, 2> /= S", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: S) => a /= b);
    op!(v, "Matrix<S, 1, 1> %= S", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 2, 2> %= S", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 3, 3> %= S", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 4, 4> %= S", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 1, 2> %= S", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 1, 3> %= S", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 1, 4> %= S", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 2, 3> %= S", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 3, 2> %= S", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 2, 4> %= S", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 4, 2> %= S", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 3, 4> %= S", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 4, 3> %= S", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 4, 1> %= S", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 5, 5> %= S", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: S) => a %= b);
    op!(v, "Matrix<S, 6, 2> %= S", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: S) => a %= b);
    op!(v, "Point<S, 1>::len", 0, (ref a: Point<S, 1>) => <Point<S, 1>>::len(&a));
    op!(v, "Point<S, 1>::is_empty", 0, (ref a: Point<S, 1>) => <Point<S, 1>>::is_empty(&a));
    op!(v, "Point<S, 1>::shape", 0, (ref a: Point<S, 1>) => <Point<S, 1>>::shape(&a));
    op!(v, "Point<S, 1>::as_slice", 0, (ref a: Point<S, 1>) => <Point<S, 1>>::as_slice(&a));
    op!(v, "Point<S, 2>::len", 0, (ref a: Point<S, 2>) => <Point<S, 2>>::len(&a));
    op!(v, "Point<S, 2>::is_empty", 0, (ref a: Point<S, 2>) => <Point<S, 2>>::is_empty(&a));
    op!(v, "Point<S, 2>::shape", 0, (ref a: Point<S, 2>) => <Point<S, 2>>::shape(&a));
    op!(v, "Point<S, 2>::as_slice", 0, (ref a: Point<S, 2>) => <Point<S, 2>>::as_slice(&a));
    op!(v, "Point<S, 3>::len", 0, (ref a: Point<S, 3>) => <Point<S, 3>>::len(&a));
    op!(v, "Point<S, 3>::is_empty", 0, (ref a: Point<S, 3>) => <Point<S, 3>>::is_empty(&a));
    op!(v, "Point<S, 3>::shape", 0, (ref a: Point<S, 3>) => <Point<S, 3>>::shape(&a));
    op!(v, "Point<S, 3>::as_slice", 0, (ref a: Point<S, 3>) => <Point<S, 3>>::as_slice(&a));
    op!(v, "Point<S, 6>::len", 0, (ref a: Point<S, 6>) => <Point<S, 6>>::len(&a));
}
}
mod sc_29 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Point<S, 6>::is_empty", 0, (ref a: Point<S, 6>) => <Point<S, 6>>::is_empty(&a));
    op!(v, "Point<S, 6>::shape", 0, (ref a: Point<S, 6>) => <Point<S, 6>>::shape(&a));
    op!(v, "Point<S, 6>::as_slice", 0, (ref a: Point<S, 6>) => <Point<S, 6>>::as_slice(&a));
    op!(v, "Point<S, 1>::from_fill", 0, (ref b: S) => <Point<S, 1>>::from_fill(b));
    op!(v, "Point<S, 2>::from_fill", 0, (ref b: S) => <Point<S, 2>>::from_fill(b));
    op!(v, "Point<S, 3>::from_fill", 0, (ref b: S) => <Point<S, 3>>::from_fill(b));
    op!(v, "Point<S, 6>::from_fill", 0, (ref b: S) => <Point<S, 6>>::from_fill(b));
    op!(v, "Point<S, 1>::origin", 0, () => <Point<S, 1>>::origin());
    op!(v, "Point<S, 1>::from_vector", 0, (ref b: Vector<S, 1>) => <Point<S, 1>>::from_vector(&b));
    op!(v, "Point<S, 1>::to_vector", 0, (ref a: Point<S, 1>) => <Point<S, 1>>::to_vector(&a));
    op!(v, "Point<S, 1>::dot", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>) => <Point<S, 1>>::dot(&a, &b));
    op!(v, "Point<S, 1>::norm_squared", 0, (ref a: Point<S, 1>) => <Point<S, 1>>::norm_squared(&a));
    op!(v, "Point<S, 1>::metric_distance_squared", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>) => <Point<S, 1>>::metric_distance_squared(&a, &b));
    op!(v, "Point<S, 1>::magnitude_squared", 0, (ref a: Point<S, 1>) => <Point<S, 1>>::magnitude_squared(&a));
    op!(v, "Point<S, 2>::origin", 0, () => <Point<S, 2>>::origin());
    op!(v, "Point<S, 2>::from_vector", 0, (ref b: Vector<S, 2>) => <Point<S, 2>>::from_vector(&b));
    op!(v, "Point<S, 2>::to_vector", 0, (ref a: Point<S, 2>) => <Point<S, 2>>::to_vector(&a));
    op!(v, "Point<S, 2>::dot", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>) => <Point<S, 2>>::dot(&a, &b));
    op!(v, "Point<S, 2>::norm_squared", 0, (ref a: Point<S, 2>) => <Point<S, 2>>::norm_squared(&a));
    op!(v, "Point<S, 2>::metric_distance_squared", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>) => <Point<S, 2>>::metric_distance_squared(&a, &b));
    op!(v, "Point<S, 2>::magnitude_squared", 0, (ref a: Point<S, 2>) => <Point<S, 2>>::magnitude_squared(&a));
    op!(v, "Point<S, 3>::origin", 0, () => <Point<S, 3>>::origin());
    op!(v, "Point<S, 3>::from_vector", 0, (ref b: Vector<S, 3>) => <Point<S, 3>>::from_vector(&b));
    op!(v, "Point<S, 3>::to_vector", 0, (ref a: Point<S, 3>) => <Point<S, 3>>::to_vector(&a));
    op!(v, "Point<S, 3>::dot", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>) => <Point<S, 3>>::dot(&a, &b));
    op!(v, "Point<S, 3>::norm_squared", 0, (ref a: Point<S, 3>) => <Point<S, 3>>::norm_squared(&a));
    op!(v, "Point<S, 3>::metric_distance_squared", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>) => <Point<S, 3>>::metric_distance_squared(&a, &b));
    op!(v, "Point<S, 3>::magnitude_squared", 0, (ref a: Point<S, 3>) => <Point<S, 3>>::magnitude_squared(&a));
    op!(v, "Point<S, 6>::origin", 0, () => <Point<S, 6>>::origin());
    op!(v, "Point<S, 6>::from_vector", 0, (ref b: Vector<S, 6>) => <Point<S, 6>>::from_vector(&b));
    op!(v, "Point<S, 6>::to_vector", 0, (ref a: Point<S, 6>) => <Point<S, 6>>::to_vector(&a));
    op!(v, "Point<S, 6>::dot", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>) => <Point<S, 6>>::dot(&a, &b));
    op!(v, "Point<S, 6>::norm_squared", 0, (ref a: Point<S, 6>) => <Point<S, 6>>::norm_squared(&a));
    op!(v, "Point<S, 6>::metric_distance_squared", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>) => <Point<S, 6>>::metric_distance_squared(&a, &b));
    op!(v, "Point<S, 6>::magnitude_squared", 0, (ref a: Point<S, 6>) => <Point<S, 6>>::magnitude_squared(&a));
    op!(v, "Point<S, 1>::extend", 0, (ref a: Point<S, 1>, ref b: S) => <Point<S, 1>>::extend(&a, b));
    op!(v, "Point<S, 1>::to_homogeneous", 0, (ref a: Point<S, 1>) => <Point<S, 1>>::to_homogeneous(&a));
    op!(v, "Point<S, 2>::extend", 0, (ref a: Point<S, 2>, ref b: S) => <Point<S, 2>>::extend(&a, b));
    op!(v, "Point<S, 2>::to_homogeneous", 0, (ref a: Point<S, 2>) => <Point<S, 2>>::to_homogeneous(&a));
    op!(v, "Point<S, 3>::extend", 0, (ref a: Point<S, 3>, ref b: S) => <Point<S, 3>>::extend(&a, b));
}
}
mod sc_30 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Point<S, 3>::to_homogeneous", 0, (ref a: Point<S, 3>) => <Point<S, 3>>::to_homogeneous(&a));
    op!(v, "Point<S, 2>::contract", 0, (ref a: Point<S, 2>) => <Point<S, 2>>::contract(&a));
    op!(v, "Point<S, 3>::contract", 0, (ref a: Point<S, 3>) => <Point<S, 3>>::contract(&a));
    op!(v, "Point<S, 4>::contract", 0, (ref a: Point<S, 4>) => <Point<S, 4>>::contract(&a));
    op!(v, "Point<S, 1>::from_homogeneous", 0, (ref b: Vector<S, 2>) => <Point<S, 1>>::from_homogeneous(&b));
    op!(v, "Point<S, 2>::from_homogeneous", 0, (ref b: Vector<S, 3>) => <Point<S, 2>>::from_homogeneous(&b));
    op!(v, "Point<S, 3>::from_homogeneous", 0, (ref b: Vector<S, 4>) => <Point<S, 3>>::from_homogeneous(&b));
    op!(v, "Point<S, 1>::default", 0, () => <Point<S, 1> as Default>::default());
    op!(v, "Point<S, 2>::default", 0, () => <Point<S, 2> as Default>::default());
    op!(v, "Point<S, 3>::default", 0, () => <Point<S, 3> as Default>::default());
    op!(v, "Point<S, 6>::default", 0, () => <Point<S, 6> as Default>::default());
    op!(v, "Point<S, 1>::from([S; 1])", 0, (ref a: [S; 1]) => <Point<S, 1>>::from(a));
    op!(v, "Point<S, 2>::from([S; 2])", 0, (ref a: [S; 2]) => <Point<S, 2>>::from(a));
    op!(v, "Point<S, 3>::from([S; 3])", 0, (ref a: [S; 3]) => <Point<S, 3>>::from(a));
    op!(v, "Point<S, 6>::from([S; 6])", 0, (ref a: [S; 6]) => <Point<S, 6>>::from(a));
    op!(v, "Point<S, 1>::from(&[S; 1])", 0, (ref a: [S; 1]) => <Point<S, 1>>::from(&a));
    op!(v, "Point<S, 2>::from(&[S; 2])", 0, (ref a: [S; 2]) => <Point<S, 2>>::from(&a));
    op!(v, "Point<S, 3>::from(&[S; 3])", 0, (ref a: [S; 3]) => <Point<S, 3>>::from(&a));
    op!(v, "Point<S, 6>::from(&[S; 6])", 0, (ref a: [S; 6]) => <Point<S, 6>>::from(&a));
    op!(v, "&Point<S, 1>::from(&[S; 1])", 0, (ref a: [S; 1]) => <&Point<S, 1>>::from(&a));
    op!(v, "&Point<S, 2>::from(&[S; 2])", 0, (ref a: [S; 2]) => <&Point<S, 2>>::from(&a));
    op!(v, "&Point<S, 3>::from(&[S; 3])", 0, (ref a: [S; 3]) => <&Point<S, 3>>::from(&a));
    op!(v, "&Point<S, 6>::from(&[S; 6])", 0, (ref a: [S; 6]) => <&Point<S, 6>>::from(&a));
    op!(v, "Point<S, 1> + Vector<S, 1>", 0, (ref a: Point<S, 1>, ref b: Vector<S, 1>) => a + b);
    op!(v, "Point<S, 2> + Vector<S, 2>", 0, (ref a: Point<S, 2>, ref b: Vector<S, 2>) => a + b);
    op!(v, "Point<S, 3> + Vector<S, 3>", 0, (ref a: Point<S, 3>, ref b: Vector<S, 3>) => a + b);
    op!(v, "Point<S, 6> + Vector<S, 6>", 0, (ref a: Point<S, 6>, ref b: Vector<S, 6>) => a + b);
    op!(v, "Point<S, 1> + &Vector<S, 1>", 0, (ref a: Point<S, 1>, ref b: Vector<S, 1>) => a + &b);
    op!(v, "Point<S, 2> + &Vector<S, 2>", 0, (ref a: Point<S, 2>, ref b: Vector<S, 2>) => a + &b);
    op!(v, "Point<S, 3> + &Vector<S, 3>", 0, (ref a: Point<S, 3>, ref b: Vector<S, 3>) => a + &b);
    op!(v, "Point<S, 6> + &Vector<S, 6>", 0, (ref a: Point<S, 6>, ref b: Vector<S, 6>) => a + &b);
    op!(v, "&Point<S, 1> + Vector<S, 1>", 0, (ref a: Point<S, 1>, ref b: Vector<S, 1>) => &a + b);
    op!(v, "&Point<S, 2> + Vector<S, 2>", 0, (ref a: Point<S, 2>, ref b: Vector<S, 2>) => &a + b);
    op!(v, "&Point<S, 3> + Vector<S, 3>", 0, (ref a: Point<S, 3>, ref b: Vector<S, 3>) => &a + b);
    op!(v, "&Point<S, 6> + Vector<S, 6>", 0, (ref a: Point<S, 6>, ref b: Vector<S, 6>) => &a + b);
    op!(v, "&Point<S, 1> + &Vector<S, 1>", 0, (ref a: Point<S, 1>, ref b: Vector<S, 1>) => &a + &b);
    op!(v, "&Point<S, 2> + &Vector<S, 2>", 0, (ref a: Point<S, 2>, ref b: Vector<S, 2>) => &a + &b);
    op!(v, "&Point<S, 3> + &Vector<S, 3>", 0, (ref a: Point<S, 3>, ref b: Vector<S, 3>) => &a + &b);
    op!(v, "&Point<S, 6> + &Vector<S, 6>", 0, (ref a: Point<S, 6>, ref b: Vector<S, 6>) => &a + &b);
    op!(v, "Point<S, 1> - Vector<S, 1>", 0, (ref a: Point<S, 1>, ref b: Vector<S, 1>) => a - b);
}
}
mod sc_31 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Point<S, 2> - Vector<S, 2>", 0, (ref a: Point<S, 2>, ref b: Vector<S, 2>) => a - b);
    op!(v, "Point<S, 3> - Vector<S, 3>", 0, (ref a: Point<S, 3>, ref b: Vector<S, 3>) => a - b);
    op!(v, "Point<S, 6> - Vector<S, 6>", 0, (ref a: Point<S, 6>, ref b: Vector<S, 6>) => a - b);
    op!(v, "Point<S, 1> - &Vector<S, 1>", 0, (ref a: Point<S, 1>, ref b: Vector<S, 1>) => a - &b);
    op!(v, "Point<S, 2> - &Vector<S, 2>", 0, (ref a: Point<S, 2>, ref b: Vector<S, 2>) => a - &b);
    op!(v, "Point<S, 3> - &Vector<S, 3>", 0, (ref a: Point<S, 3>, ref b: Vector<S, 3>) => a - &b);
    op!(v, "Point<S, 6> - &Vector<S, 6>", 0, (ref a: Point<S, 6>, ref b: Vector<S, 6>) => a - &b);
    op!(v, "&Point<S, 1> - Vector<S, 1>", 0, (ref a: Point<S, 1>, ref b: Vector<S, 1>) => &a - b);
    op!(v, "&Point<S, 2> - Vector<S, 2>", 0, (ref a: Point<S, 2>, ref b: Vector<S, 2>) => &a - b);
    op!(v, "&Point<S, 3> - Vector<S, 3>", 0, (ref a: Point<S, 3>, ref b: Vector<S, 3>) => &a - b);
    op!(v, "&Point<S, 6> - Vector<S, 6>", 0, (ref a: Point<S, 6>, ref b: Vector<S, 6>) => &a - b);
    op!(v, "&Point<S, 1> - &Vector<S, 1>", 0, (ref a: Point<S, 1>, ref b: Vector<S, 1>) => &a - &b);
    op!(v, "&Point<S, 2> - &Vector<S, 2>", 0, (ref a: Point<S, 2>, ref b: Vector<S, 2>) => &a - &b);
    op!(v, "&Point<S, 3> - &Vector<S, 3>", 0, (ref a: Point<S, 3>, ref b: Vector<S, 3>) => &a - &b);
    op!(v, "&Point<S, 6> - &Vector<S, 6>", 0, (ref a: Point<S, 6>, ref b: Vector<S, 6>) => &a - &b);
    op!(v, "Point<S, 1> - Point<S, 1>", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>) => a - b);
    op!(v, "Point<S, 2> - Point<S, 2>", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>) => a - b);
    op!(v, "Point<S, 3> - Point<S, 3>", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>) => a - b);
    op!(v, "Point<S, 6> - Point<S, 6>", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>) => a - b);
    op!(v, "Point<S, 1> - &Point<S, 1>", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>) => a - &b);
    op!(v, "Point<S, 2> - &Point<S, 2>", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>) => a - &b);
    op!(v, "Point<S, 3> - &Point<S, 3>", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>) => a - &b);
    op!(v, "Point<S, 6> - &Point<S, 6>", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>) => a - &b);
    op!(v, "&Point<S, 1> - Point<S, 1>", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>) => &a - b);
    op!(v, "&Point<S, 2> - Point<S, 2>", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>) => &a - b);
    op!(v, "&Point<S, 3> - Point<S, 3>", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>) => &a - b);
    op!(v, "&Point<S, 6> - Point<S, 6>", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>) => &a - b);
    op!(v, "&Point<S, 1> - &Point<S, 1>", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>) => &a - &b);
    op!(v, "&Point<S, 2> - &Point<S, 2>", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>) => &a - &b);
    op!(v, "&Point<S, 3> - &Point<S, 3>", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>) => &a - &b);
    op!(v, "&Point<S, 6> - &Point<S, 6>", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>) => &a - &b);
    op!(v, "Point<S, 1> * S", 0, (ref a: Point<S, 1>, ref b: S) => a * b);
    op!(v, "Point<S, 2> * S", 0, (ref a: Point<S, 2>, ref b: S) => a * b);
    op!(v, "Point<S, 3> * S", 0, (ref a: Point<S, 3>, ref b: S) => a * b);
    op!(v, "Point<S, 6> * S", 0, (ref a: Point<S, 6>, ref b: S) => a * b);
    op!(v, "&Point<S, 1> * S", 0, (ref a: Point<S, 1>, ref b: S) => &a * b);
    op!(v, "&Point<S, 2> * S", 0, (ref a: Point<S, 2>, ref b: S) => &a * b);
    op!(v, "&Point<S, 3> * S", 0, (ref a: Point<S, 3>, ref b: S) => &a * b);
    op!(v, "&Point<S, 6> * S", 0, (ref a: Point<S, 6>, ref b: S) => &a * b);
    op!(v, "Point<S, 1> / S", 0, (ref a: Point<S, 1>, ref b: S) => a / b);
}
}
mod sc_32 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Point<S, 2> / S", 0, (ref a: Point<S, 2>, ref b: S) => a / b);
    op!(v, "Point<S, 3> / S", 0, (ref a: Point<S, 3>, ref b: S) => a / b);
    op!(v, "Point<S, 6> / S", 0, (ref a: Point<S, 6>, ref b: S) => a / b);
    op!(v, "&Point<S, 1> / S", 0, (ref a: Point<S, 1>, ref b: S) => &a / b);
    op!(v, "&Point<S, 2> / S", 0, (ref a: Point<S, 2>, ref b: S) => &a / b);
    op!(v, "&Point<S, 3> / S", 0, (ref a: Point<S, 3>, ref b: S) => &a / b);
    op!(v, "&Point<S, 6> / S", 0, (ref a: Point<S, 6>, ref b: S) => &a / b);
    op!(v, "Point<S, 1> % S", 0, (ref a: Point<S, 1>, ref b: S) => a % b);
    op!(v, "Point<S, 2> % S", 0, (ref a: Point<S, 2>, ref b: S) => a % b);
    op!(v, "Point<S, 3> % S", 0, (ref a: Point<S, 3>, ref b: S) => a % b);
    op!(v, "Point<S, 6> % S", 0, (ref a: Point<S, 6>, ref b: S) => a % b);
    op!(v, "&Point<S, 1> % S", 0, (ref a: Point<S, 1>, ref b: S) => &a % b);
    op!(v, "&Point<S, 2> % S", 0, (ref a: Point<S, 2>, ref b: S) => &a % b);
    op!(v, "&Point<S, 3> % S", 0, (ref a: Point<S, 3>, ref b: S) => &a % b);
    op!(v, "&Point<S, 6> % S", 0, (ref a: Point<S, 6>, ref b: S) => &a % b);
    op!(v, "Point<S, 1> += Vector<S, 1>", INPLACE, (mut a: Point<S, 1>, ref b: Vector<S, 1>) => a += b);
    op!(v, "Point<S, 2> += Vector<S, 2>", INPLACE, (mut a: Point<S, 2>, ref b: Vector<S, 2>) => a += b);
    op!(v, "Point<S, 3> += Vector<S, 3>", INPLACE, (mut a: Point<S, 3>, ref b: Vector<S, 3>) => a += b);
    op!(v, "Point<S, 6> += Vector<S, 6>", INPLACE, (mut a: Point<S, 6>, ref b: Vector<S, 6>) => a += b);
    op!(v, "Point<S, 1> += &Vector<S, 1>", INPLACE, (mut a: Point<S, 1>, ref b: Vector<S, 1>) => a += &b);
    op!(v, "Point<S, 2> += &Vector<S, 2>", INPLACE, (mut a: Point<S, 2>, ref b: Vector<S, 2>) => a += &b);
    op!(v, "Point<S, 3> += &Vector<S, 3>", INPLACE, (mut a: Point<S, 3>, ref b: Vector<S, 3>) => a += &b);
    op!(v, "Point<S, 6> += &Vector<S, 6>", INPLACE, (mut a: Point<S, 6>, ref b: Vector<S, 6>) => a += &b);
    op!(v, "Point<S, 1> -= Vector<S, 1>", INPLACE, (mut a: Point<S, 1>, ref b: Vector<S, 1>) => a -= b);
    op!(v, "Point<S, 2> -= Vector<S, 2>", INPLACE, (mut a: Point<S, 2>, ref b: Vector<S, 2>) => a -= b);
    op!(v, "Point<S, 3> -= Vector<S, 3>", INPLACE, (mut a: Point<S, 3>, ref b: Vector<S, 3>) => a -= b);
    op!(v, "Point<S, 6> -= Vector<S, 6>", INPLACE, (mut a: Point<S, 6>, ref b: Vector<S, 6>) => a -= b);
    op!(v, "Point<S, 1> -= &Vector<S, 1>", INPLACE, (mut a: Point<S, 1>, ref b: Vector<S, 1>) => a -= &b);
    op!(v, "Point<S, 2> -= &Vector<S, 2>", INPLACE, (mut a: Point<S, 2>, ref b: Vector<S, 2>) => a -= &b);
    op!(v, "Point<S, 3> -= &Vector<S, 3>", INPLACE, (mut a: Point<S, 3>, ref b: Vector<S, 3>) => a -= &b);
    op!(v, "Point<S, 6> -= &Vector<S, 6>", INPLACE, (mut a: Point<S, 6>, ref b: Vector<S, 6>) => a -= &b);
    op!(v, "Point<S, 1> *= S", INPLACE, (mut a: Point<S, 1>, ref b: S) => a *= b);
    op!(v, "Point<S, 2> *= S", INPLACE, (mut a: Point<S, 2>, ref b: S) => a *= b);
    op!(v, "Point<S, 3> *= S", INPLACE, (mut a: Point<S, 3>, ref b: S) => a *= b);
    op!(v, "Point<S, 6> *= S", INPLACE, (mut a: Point<S, 6>, ref b: S) => a *= b);
    op!(v, "Point<S, 1> /= S", INPLACE, (mut a: Point<S, 1>, ref b: S) => a /= b);
    op!(v, "Point<S, 2> /= S", INPLACE, (mut a: Point<S, 2>, ref b: S) => a /= b);
    op!(v, "Point<S, 3> /= S", INPLACE, (mut a: Point<S, 3>, ref b: S) => a /= b);
    op!(v, "Point<S, 6> /= S", INPLACE, (mut a: Point<S, 6>, ref b: S) => a /= b);
    op!(v, "Point<S, 1> %= S", INPLACE, (mut a: Point<S, 1>, ref b: S) => a %= b);
}
}
mod sc_33 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Point<S, 2> %= S", INPLACE, (mut a: Point<S, 2>, ref b: S) => a %= b);
    op!(v, "Point<S, 3> %= S", INPLACE, (mut a: Point<S, 3>, ref b: S) => a %= b);
    op!(v, "Point<S, 6> %= S", INPLACE, (mut a: Point<S, 6>, ref b: S) => a %= b);
    op!(v, "Point<S, 1>::new", 0, (ref b: S) => <Point<S, 1>>::new(b));
    op!(v, "Point<S, 2>::new", 0, (ref b: S, ref c: S) => <Point<S, 2>>::new(b, c));
    op!(v, "Point<S, 3>::new", 0, (ref b: S, ref c: S, ref d: S) => <Point<S, 3>>::new(b, c, d));
    op!(v, "Point<S, 1>::from(S)", 0, (ref a: S) => <Point<S, 1>>::from(a));
    op!(v, "Point<S, 1>::from((S,))", 0, (ref a: (S,)) => <Point<S, 1>>::from(a));
    op!(v, "Point<S, 1>::from(&(S,))", 0, (ref a: (S,)) => <Point<S, 1>>::from(&a));
    op!(v, "&Point<S, 1>::from(&(S,))", 0, (ref a: (S,)) => <&Point<S, 1>>::from(&a));
    op!(v, "Point<S, 2>::from((S, S))", 0, (ref a: (S, S)) => <Point<S, 2>>::from(a));
    op!(v, "Point<S, 2>::from(&(S, S))", 0, (ref a: (S, S)) => <Point<S, 2>>::from(&a));
    op!(v, "&Point<S, 2>::from(&(S, S))", 0, (ref a: (S, S)) => <&Point<S, 2>>::from(&a));
    op!(v, "Point<S, 3>::from((S, S, S))", 0, (ref a: (S, S, S)) => <Point<S, 3>>::from(a));
    op!(v, "Point<S, 3>::from(&(S, S, S))", 0, (ref a: (S, S, S)) => <Point<S, 3>>::from(&a));
    op!(v, "&Point<S, 3>::from(&(S, S, S))", 0, (ref a: (S, S, S)) => <&Point<S, 3>>::from(&a));
    op!(v, "Quaternion<S>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S) => <Quaternion<S>>::new(b, c, d, e));
    op!(v, "Quaternion<S>::len", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::len(&a));
    op!(v, "Quaternion<S>::is_empty", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::is_empty(&a));
    op!(v, "Quaternion<S>::shape", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::shape(&a));
    op!(v, "Quaternion<S>::as_slice", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::as_slice(&a));
    op!(v, "Quaternion<S>::from_parts", 0, (ref b: S, ref c: Vector<S, 3>) => <Quaternion<S>>::from_parts(b, c));
    op!(v, "Quaternion<S>::from_vector", 0, (ref b: Vector<S, 4>) => <Quaternion<S>>::from_vector(b));
    op!(v, "Quaternion<S>::from_fill", 0, (ref b: S) => <Quaternion<S>>::from_fill(b));
    op!(v, "Quaternion<S>::scalar", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::scalar(&a));
    op!(v, "Quaternion<S>::vector", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::vector(&a));
    op!(v, "Quaternion<S>::unit_s", 0, () => <Quaternion<S>>::unit_s());
    op!(v, "Quaternion<S>::unit_x", 0, () => <Quaternion<S>>::unit_x());
    op!(v, "Quaternion<S>::unit_y", 0, () => <Quaternion<S>>::unit_y());
    op!(v, "Quaternion<S>::unit_z", 0, () => <Quaternion<S>>::unit_z());
    op!(v, "Quaternion<S>::zero", 0, () => <Quaternion<S>>::zero());
    op!(v, "Quaternion<S>::is_zero", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::is_zero(&a));
    op!(v, "Quaternion<S>::identity", 0, () => <Quaternion<S>>::identity());
    op!(v, "Quaternion<S>::one", 0, () => <Quaternion<S>>::one());
    op!(v, "Quaternion<S>::is_identity", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::is_identity(&a));
    op!(v, "Quaternion<S>::is_pure", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::is_pure(&a));
    op!(v, "Quaternion<S>::is_real", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::is_real(&a));
    op!(v, "Quaternion<S>::from_real", 0, (ref b: S) => <Quaternion<S>>::from_real(b));
    op!(v, "Quaternion<S>::from_pure", 0, (ref b: Vector<S, 3>) => <Quaternion<S>>::from_pure(b));
    op!(v, "Quaternion<S>::dot", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => <Quaternion<S>>::dot(&a, &b));
}
}
mod sc_34 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Quaternion<S>::modulus_squared", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::modulus_squared(a));
    op!(v, "Quaternion<S>::norm_squared", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::norm_squared(&a));
    op!(v, "Quaternion<S>::magnitude_squared", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::magnitude_squared(&a));
    op!(v, "Quaternion<S>::metric_distance_squared", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => <Quaternion<S>>::metric_distance_squared(&a, &b));
    op!(v, "Quaternion<S>::default", 0, () => <Quaternion<S> as Default>::default());
    op!(v, "Quaternion<S>::from((S, S, S, S))", 0, (ref a: (S, S, S, S)) => <Quaternion<S>>::from(a));
    op!(v, "Quaternion<S>::from([S; 4])", 0, (ref a: [S; 4]) => <Quaternion<S>>::from(a));
    op!(v, "Quaternion<S>::from(&(S, S, S, S))", 0, (ref a: (S, S, S, S)) => <Quaternion<S>>::from(&a));
    op!(v, "Quaternion<S>::from(&[S; 4])", 0, (ref a: [S; 4]) => <Quaternion<S>>::from(&a));
    op!(v, "&Quaternion<S>::from(&[S; 4])", 0, (ref a: [S; 4]) => <&Quaternion<S>>::from(&a));
    op!(v, "&Quaternion<S>::from(&(S, S, S, S))", 0, (ref a: (S, S, S, S)) => <&Quaternion<S>>::from(&a));
    op!(v, "Quaternion<S> + Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => a + b);
    op!(v, "&Quaternion<S> + Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => &a + b);
    op!(v, "Quaternion<S> + &Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => a + &b);
    op!(v, "&Quaternion<S> + &Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => &a + &b);
    op!(v, "Quaternion<S> - Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => a - b);
    op!(v, "&Quaternion<S> - Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => &a - b);
    op!(v, "Quaternion<S> - &Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => a - &b);
    op!(v, "&Quaternion<S> - &Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => &a - &b);
    op!(v, "Quaternion<S> * S", 0, (ref a: Quaternion<S>, ref b: S) => a * b);
    op!(v, "&Quaternion<S> * S", 0, (ref a: Quaternion<S>, ref b: S) => &a * b);
    op!(v, "Quaternion<S> * &S", 0, (ref a: Quaternion<S>, ref b: S) => a * &b);
    op!(v, "&Quaternion<S> * &S", 0, (ref a: Quaternion<S>, ref b: S) => &a * &b);
    op!(v, "Quaternion<S> * Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => a * b);
    op!(v, "Quaternion<S> * &Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => a * &b);
    op!(v, "&Quaternion<S> * Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => &a * b);
    op!(v, "&Quaternion<S> * &Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => &a * &b);
    op!(v, "Quaternion<S> / S", 0, (ref a: Quaternion<S>, ref b: S) => a / b);
    op!(v, "&Quaternion<S> / S", 0, (ref a: Quaternion<S>, ref b: S) => &a / b);
    op!(v, "Quaternion<S> / &S", 0, (ref a: Quaternion<S>, ref b: S) => a / &b);
    op!(v, "&Quaternion<S> / &S", 0, (ref a: Quaternion<S>, ref b: S) => &a / &b);
    op!(v, "Quaternion<S> % S", 0, (ref a: Quaternion<S>, ref b: S) => a % b);
    op!(v, "&Quaternion<S> % S", 0, (ref a: Quaternion<S>, ref b: S) => &a % b);
    op!(v, "Quaternion<S> % &S", 0, (ref a: Quaternion<S>, ref b: S) => a % &b);
    op!(v, "&Quaternion<S> % &S", 0, (ref a: Quaternion<S>, ref b: S) => &a % &b);
    op!(v, "Quaternion<S> += Quaternion<S>", INPLACE, (mut a: Quaternion<S>, ref b: Quaternion<S>) => a += b);
    op!(v, "Quaternion<S> += &Quaternion<S>", INPLACE, (mut a: Quaternion<S>, ref b: Quaternion<S>) => a += &b);
    op!(v, "Quaternion<S> -= Quaternion<S>", INPLACE, (mut a: Quaternion<S>, ref b: Quaternion<S>) => a -= b);
    op!(v, "Quaternion<S> -= &Quaternion<S>", INPLACE, (mut a: Quaternion<S>, ref b: Quaternion<S>) => a -= &b);
    op!(v, "Quaternion<S> *= S", INPLACE, (mut a: Quaternion<S>, ref b: S) => a *= b);
}
}
mod sc_35 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Quaternion<S> /= S", INPLACE, (mut a: Quaternion<S>, ref b: S) => a /= b);
    op!(v, "Quaternion<S> %= S", INPLACE, (mut a: Quaternion<S>, ref b: S) => a %= b);
    op!(v, "Vector<S, 1>::len", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::len(&a));
    op!(v, "Vector<S, 1>::is_empty", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::is_empty(&a));
    op!(v, "Vector<S, 1>::shape", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::shape(&a));
    op!(v, "Vector<S, 1>::as_slice", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::as_slice(&a));
    op!(v, "Vector<S, 2>::len", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::len(&a));
    op!(v, "Vector<S, 2>::is_empty", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::is_empty(&a));
    op!(v, "Vector<S, 2>::shape", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::shape(&a));
    op!(v, "Vector<S, 2>::as_slice", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::as_slice(&a));
    op!(v, "Vector<S, 3>::len", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::len(&a));
    op!(v, "Vector<S, 3>::is_empty", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::is_empty(&a));
    op!(v, "Vector<S, 3>::shape", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::shape(&a));
    op!(v, "Vector<S, 3>::as_slice", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::as_slice(&a));
    op!(v, "Vector<S, 4>::len", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::len(&a));
    op!(v, "Vector<S, 4>::is_empty", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::is_empty(&a));
    op!(v, "Vector<S, 4>::shape", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::shape(&a));
    op!(v, "Vector<S, 4>::as_slice", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::as_slice(&a));
    op!(v, "Vector<S, 5>::len", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::len(&a));
    op!(v, "Vector<S, 5>::is_empty", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::is_empty(&a));
    op!(v, "Vector<S, 5>::shape", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::shape(&a));
    op!(v, "Vector<S, 5>::as_slice", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::as_slice(&a));
    op!(v, "Vector<S, 9>::len", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::len(&a));
    op!(v, "Vector<S, 9>::is_empty", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::is_empty(&a));
    op!(v, "Vector<S, 9>::shape", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::shape(&a));
    op!(v, "Vector<S, 9>::as_slice", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::as_slice(&a));
    op!(v, "Vector<S, 1>::from_fill", 0, (ref b: S) => <Vector<S, 1>>::from_fill(b));
    op!(v, "Vector<S, 2>::from_fill", 0, (ref b: S) => <Vector<S, 2>>::from_fill(b));
    op!(v, "Vector<S, 3>::from_fill", 0, (ref b: S) => <Vector<S, 3>>::from_fill(b));
    op!(v, "Vector<S, 4>::from_fill", 0, (ref b: S) => <Vector<S, 4>>::from_fill(b));
    op!(v, "Vector<S, 5>::from_fill", 0, (ref b: S) => <Vector<S, 5>>::from_fill(b));
    op!(v, "Vector<S, 9>::from_fill", 0, (ref b: S) => <Vector<S, 9>>::from_fill(b));
    op!(v, "Vector<S, 1>::zero", 0, () => <Vector<S, 1>>::zero());
    op!(v, "Vector<S, 1>::is_zero", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::is_zero(&a));
    op!(v, "Vector<S, 1>::dot", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => <Vector<S, 1>>::dot(&a, &b));
    op!(v, "Vector<S, 1>::component_mul", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => <Vector<S, 1>>::component_mul(&a, &b));
    op!(v, "Vector<S, 1>::component_mul_assign", INPLACE, (mut a: Vector<S, 1>, ref b: Vector<S, 1>) => <Vector<S, 1>>::component_mul_assign(&mut a, &b));
    op!(v, "Vector<S, 2>::zero", 0, () => <Vector<S, 2>>::zero());
    op!(v, "Vector<S, 2>::is_zero", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::is_zero(&a));
    op!(v, "Vector<S, 2>::dot", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => <Vector<S, 2>>::dot(&a, &b));
}
}
mod sc_36 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 2>::component_mul", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => <Vector<S, 2>>::component_mul(&a, &b));
    op!(v, "Vector<S, 2>::component_mul_assign", INPLACE, (mut a: Vector<S, 2>, ref b: Vector<S, 2>) => <Vector<S, 2>>::component_mul_assign(&mut a, &b));
    op!(v, "Vector<S, 3>::zero", 0, () => <Vector<S, 3>>::zero());
    op!(v, "Vector<S, 3>::is_zero", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::is_zero(&a));
    op!(v, "Vector<S, 3>::dot", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => <Vector<S, 3>>::dot(&a, &b));
    op!(v, "Vector<S, 3>::component_mul", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => <Vector<S, 3>>::component_mul(&a, &b));
    op!(v, "Vector<S, 3>::component_mul_assign", INPLACE, (mut a: Vector<S, 3>, ref b: Vector<S, 3>) => <Vector<S, 3>>::component_mul_assign(&mut a, &b));
    op!(v, "Vector<S, 4>::zero", 0, () => <Vector<S, 4>>::zero());
    op!(v, "Vector<S, 4>::is_zero", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::is_zero(&a));
    op!(v, "Vector<S, 4>::dot", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => <Vector<S, 4>>::dot(&a, &b));
    op!(v, "Vector<S, 4>::component_mul", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => <Vector<S, 4>>::component_mul(&a, &b));
    op!(v, "Vector<S, 4>::component_mul_assign", INPLACE, (mut a: Vector<S, 4>, ref b: Vector<S, 4>) => <Vector<S, 4>>::component_mul_assign(&mut a, &b));
    op!(v, "Vector<S, 5>::zero", 0, () => <Vector<S, 5>>::zero());
    op!(v, "Vector<S, 5>::is_zero", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::is_zero(&a));
    op!(v, "Vector<S, 5>::dot", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => <Vector<S, 5>>::dot(&a, &b));
    op!(v, "Vector<S, 5>::component_mul", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => <Vector<S, 5>>::component_mul(&a, &b));
    op!(v, "Vector<S, 5>::component_mul_assign", INPLACE, (mut a: Vector<S, 5>, ref b: Vector<S, 5>) => <Vector<S, 5>>::component_mul_assign(&mut a, &b));
    op!(v, "Vector<S, 9>::zero", 0, () => <Vector<S, 9>>::zero());
    op!(v, "Vector<S, 9>::is_zero", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::is_zero(&a));
    op!(v, "Vector<S, 9>::dot", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => <Vector<S, 9>>::dot(&a, &b));
    op!(v, "Vector<S, 9>::component_mul", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => <Vector<S, 9>>::component_mul(&a, &b));
    op!(v, "Vector<S, 9>::component_mul_assign", INPLACE, (mut a: Vector<S, 9>, ref b: Vector<S, 9>) => <Vector<S, 9>>::component_mul_assign(&mut a, &b));
    op!(v, "Vector<S, 1>::norm_squared", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::norm_squared(&a));
    op!(v, "Vector<S, 1>::metric_distance_squared", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => <Vector<S, 1>>::metric_distance_squared(&a, &b));
    op!(v, "Vector<S, 1>::magnitude_squared", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::magnitude_squared(&a));
    op!(v, "Vector<S, 2>::norm_squared", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::norm_squared(&a));
    op!(v, "Vector<S, 2>::metric_distance_squared", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => <Vector<S, 2>>::metric_distance_squared(&a, &b));
    op!(v, "Vector<S, 2>::magnitude_squared", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::magnitude_squared(&a));
    op!(v, "Vector<S, 3>::norm_squared", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::norm_squared(&a));
    op!(v, "Vector<S, 3>::metric_distance_squared", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => <Vector<S, 3>>::metric_distance_squared(&a, &b));
    op!(v, "Vector<S, 3>::magnitude_squared", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::magnitude_squared(&a));
    op!(v, "Vector<S, 4>::norm_squared", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::norm_squared(&a));
    op!(v, "Vector<S, 4>::metric_distance_squared", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => <Vector<S, 4>>::metric_distance_squared(&a, &b));
    op!(v, "Vector<S, 4>::magnitude_squared", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::magnitude_squared(&a));
    op!(v, "Vector<S, 5>::norm_squared", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::norm_squared(&a));
    op!(v, "Vector<S, 5>::metric_distance_squared", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => <Vector<S, 5>>::metric_distance_squared(&a, &b));
    op!(v, "Vector<S, 5>::magnitude_squared", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::magnitude_squared(&a));
    op!(v, "Vector<S, 9>::norm_squared", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::norm_squared(&a));
    op!(v, "Vector<S, 9>::metric_distance_squared", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => <Vector<S, 9>>::metric_distance_squared(&a, &b));
    op!(v, "Vector<S, 9>::magnitude_squared", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::magnitude_squared(&a));
}
}
mod sc_37 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 1>::extend", 0, (ref a: Vector<S, 1>, ref b: S) => <Vector<S, 1>>::extend(&a, b));
    op!(v, "Vector<S, 1>::to_homogeneous", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::to_homogeneous(&a));
    op!(v, "Vector<S, 2>::extend", 0, (ref a: Vector<S, 2>, ref b: S) => <Vector<S, 2>>::extend(&a, b));
    op!(v, "Vector<S, 2>::to_homogeneous", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::to_homogeneous(&a));
    op!(v, "Vector<S, 3>::extend", 0, (ref a: Vector<S, 3>, ref b: S) => <Vector<S, 3>>::extend(&a, b));
    op!(v, "Vector<S, 3>::to_homogeneous", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::to_homogeneous(&a));
    op!(v, "Vector<S, 2>::contract", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::contract(&a));
    op!(v, "Vector<S, 2>::from_homogeneous", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::from_homogeneous(&a));
    op!(v, "Vector<S, 3>::contract", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::contract(&a));
    op!(v, "Vector<S, 3>::from_homogeneous", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::from_homogeneous(&a));
    op!(v, "Vector<S, 4>::contract", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::contract(&a));
    op!(v, "Vector<S, 4>::from_homogeneous", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::from_homogeneous(&a));
    op!(v, "Vector<S, 1>::default", 0, () => <Vector<S, 1> as Default>::default());
    op!(v, "Vector<S, 2>::default", 0, () => <Vector<S, 2> as Default>::default());
    op!(v, "Vector<S, 3>::default", 0, () => <Vector<S, 3> as Default>::default());
    op!(v, "Vector<S, 4>::default", 0, () => <Vector<S, 4> as Default>::default());
    op!(v, "Vector<S, 5>::default", 0, () => <Vector<S, 5> as Default>::default());
    op!(v, "Vector<S, 9>::default", 0, () => <Vector<S, 9> as Default>::default());
    op!(v, "Vector<S, 1>::from([S; 1])", 0, (ref a: [S; 1]) => <Vector<S, 1>>::from(a));
    op!(v, "Vector<S, 2>::from([S; 2])", 0, (ref a: [S; 2]) => <Vector<S, 2>>::from(a));
    op!(v, "Vector<S, 3>::from([S; 3])", 0, (ref a: [S; 3]) => <Vector<S, 3>>::from(a));
    op!(v, "Vector<S, 4>::from([S; 4])", 0, (ref a: [S; 4]) => <Vector<S, 4>>::from(a));
    op!(v, "Vector<S, 5>::from([S; 5])", 0, (ref a: [S; 5]) => <Vector<S, 5>>::from(a));
    op!(v, "Vector<S, 9>::from([S; 9])", 0, (ref a: [S; 9]) => <Vector<S, 9>>::from(a));
    op!(v, "Vector<S, 1>::from(&[S; 1])", 0, (ref a: [S; 1]) => <Vector<S, 1>>::from(&a));
    op!(v, "Vector<S, 2>::from(&[S; 2])", 0, (ref a: [S; 2]) => <Vector<S, 2>>::from(&a));
    op!(v, "Vector<S, 3>::from(&[S; 3])", 0, (ref a: [S; 3]) => <Vector<S, 3>>::from(&a));
    op!(v, "Vector<S, 4>::from(&[S; 4])", 0, (ref a: [S; 4]) => <Vector<S, 4>>::from(&a));
    op!(v, "Vector<S, 5>::from(&[S; 5])", 0, (ref a: [S; 5]) => <Vector<S, 5>>::from(&a));
    op!(v, "Vector<S, 9>::from(&[S; 9])", 0, (ref a: [S; 9]) => <Vector<S, 9>>::from(&a));
    op!(v, "&Vector<S, 1>::from(&[S; 1])", 0, (ref a: [S; 1]) => <&Vector<S, 1>>::from(&a));
    op!(v, "&Vector<S, 2>::from(&[S; 2])", 0, (ref a: [S; 2]) => <&Vector<S, 2>>::from(&a));
    op!(v, "&Vector<S, 3>::from(&[S; 3])", 0, (ref a: [S; 3]) => <&Vector<S, 3>>::from(&a));
    op!(v, "&Vector<S, 4>::from(&[S; 4])", 0, (ref a: [S; 4]) => <&Vector<S, 4>>::from(&a));
    op!(v, "&Vector<S, 5>::from(&[S; 5])", 0, (ref a: [S; 5]) => <&Vector<S, 5>>::from(&a));
    op!(v, "&Vector<S, 9>::from(&[S; 9])", 0, (ref a: [S; 9]) => <&Vector<S, 9>>::from(&a));
    op!(v, "Vector<S, 1> + Vector<S, 1>", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => a + b);
    op!(v, "Vector<S, 2> + Vector<S, 2>", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => a + b);
    op!(v, "Vector<S, 3> + Vector<S, 3>", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => a + b);
    op!(v, "Vector<S, 4> + Vector<S, 4>", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => a + b);
}
}
mod sc_38 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 5> + Vector<S, 5>", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => a + b);
    op!(v, "Vector<S, 9> + Vector<S, 9>", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => a + b);
    op!(v, "Vector<S, 1> + &Vector<S, 1>", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => a + &b);
    op!(v, "Vector<S, 2> + &Vector<S, 2>", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => a + &b);
    op!(v, "Vector<S, 3> + &Vector<S, 3>", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => a + &b);
    op!(v, "Vector<S, 4> + &Vector<S, 4>", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => a + &b);
    op!(v, "Vector<S, 5> + &Vector<S, 5>", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => a + &b);
    op!(v, "Vector<S, 9> + &Vector<S, 9>", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => a + &b);
    op!(v, "&Vector<S, 1> + Vector<S, 1>", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => &a + b);
    op!(v, "&Vector<S, 2> + Vector<S, 2>", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => &a + b);
    op!(v, "&Vector<S, 3> + Vector<S, 3>", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => &a + b);
    op!(v, "&Vector<S, 4> + Vector<S, 4>", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => &a + b);
    op!(v, "&Vector<S, 5> + Vector<S, 5>", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => &a + b);
    op!(v, "&Vector<S, 9> + Vector<S, 9>", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => &a + b);
    op!(v, "&Vector<S, 1> + &Vector<S, 1>", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => &a + &b);
    op!(v, "&Vector<S, 2> + &Vector<S, 2>", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => &a + &b);
    op!(v, "&Vector<S, 3> + &Vector<S, 3>", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => &a + &b);
    op!(v, "&Vector<S, 4> + &Vector<S, 4>", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => &a + &b);
    op!(v, "&Vector<S, 5> + &Vector<S, 5>", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => &a + &b);
    op!(v, "&Vector<S, 9> + &Vector<S, 9>", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => &a + &b);
    op!(v, "Vector<S, 1> - Vector<S, 1>", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => a - b);
    op!(v, "Vector<S, 2> - Vector<S, 2>", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => a - b);
    op!(v, "Vector<S, 3> - Vector<S, 3>", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => a - b);
    op!(v, "Vector<S, 4> - Vector<S, 4>", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => a - b);
    op!(v, "Vector<S, 5> - Vector<S, 5>", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => a - b);
    op!(v, "Vector<S, 9> - Vector<S, 9>", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => a - b);
    op!(v, "Vector<S, 1> - &Vector<S, 1>", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => a - &b);
    op!(v, "Vector<S, 2> - &Vector<S, 2>", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => a - &b);
    op!(v, "Vector<S, 3> - &Vector<S, 3>", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => a - &b);
    op!(v, "Vector<S, 4> - &Vector<S, 4>", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => a - &b);
    op!(v, "Vector<S, 5> - &Vector<S, 5>", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => a - &b);
    op!(v, "Vector<S, 9> - &Vector<S, 9>", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => a - &b);
    op!(v, "&Vector<S, 1> - Vector<S, 1>", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => &a - b);
    op!(v, "&Vector<S, 2> - Vector<S, 2>", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => &a - b);
    op!(v, "&Vector<S, 3> - Vector<S, 3>", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => &a - b);
    op!(v, "&Vector<S, 4> - Vector<S, 4>", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => &a - b);
    op!(v, "&Vector<S, 5> - Vector<S, 5>", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => &a - b);
    op!(v, "&Vector<S, 9> - Vector<S, 9>", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => &a - b);
    op!(v, "&Vector<S, 1> - &Vector<S, 1>", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => &a - &b);
    op!(v, "&Vector<S, 2> - &Vector<S, 2>", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => &a - &b);
}
}
mod sc_39 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "&Vector<S, 3> - &Vector<S, 3>", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => &a - &b);
    op!(v, "&Vector<S, 4> - &Vector<S, 4>", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => &a - &b);
    op!(v, "&Vector<S, 5> - &Vector<S, 5>", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => &a - &b);
    op!(v, "&Vector<S, 9> - &Vector<S, 9>", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => &a - &b);
    op!(v, "Vector<S, 1> += Vector<S, 1>", INPLACE, (mut a: Vector<S, 1>, ref b: Vector<S, 1>) => a += b);
    op!(v, "Vector<S, 2> += Vector<S, 2>", INPLACE, (mut a: Vector<S, 2>, ref b: Vector<S, 2>) => a += b);
    op!(v, "Vector<S, 3> += Vector<S, 3>", INPLACE, (mut a: Vector<S, 3>, ref b: Vector<S, 3>) => a += b);
    op!(v, "Vector<S, 4> += Vector<S, 4>", INPLACE, (mut a: Vector<S, 4>, ref b: Vector<S, 4>) => a += b);
    op!(v, "Vector<S, 5> += Vector<S, 5>", INPLACE, (mut a: Vector<S, 5>, ref b: Vector<S, 5>) => a += b);
    op!(v, "Vector<S, 9> += Vector<S, 9>", INPLACE, (mut a: Vector<S, 9>, ref b: Vector<S, 9>) => a += b);
    op!(v, "Vector<S, 1> += &Vector<S, 1>", INPLACE, (mut a: Vector<S, 1>, ref b: Vector<S, 1>) => a += &b);
    op!(v, "Vector<S, 2> += &Vector<S, 2>", INPLACE, (mut a: Vector<S, 2>, ref b: Vector<S, 2>) => a += &b);
    op!(v, "Vector<S, 3> += &Vector<S, 3>", INPLACE, (mut a: Vector<S, 3>, ref b: Vector<S, 3>) => a += &b);
    op!(v, "Vector<S, 4> += &Vector<S, 4>", INPLACE, (mut a: Vector<S, 4>, ref b: Vector<S, 4>) => a += &b);
    op!(v, "Vector<S, 5> += &Vector<S, 5>", INPLACE, (mut a: Vector<S, 5>, ref b: Vector<S, 5>) => a += &b);
    op!(v, "Vector<S, 9> += &Vector<S, 9>", INPLACE, (mut a: Vector<S, 9>, ref b: Vector<S, 9>) => a += &b);
    op!(v, "Vector<S, 1> -= Vector<S, 1>", INPLACE, (mut a: Vector<S, 1>, ref b: Vector<S, 1>) => a -= b);
    op!(v, "Vector<S, 2> -= Vector<S, 2>", INPLACE, (mut a: Vector<S, 2>, ref b: Vector<S, 2>) => a -= b);
    op!(v, "Vector<S, 3> -= Vector<S, 3>", INPLACE, (mut a: Vector<S, 3>, ref b: Vector<S, 3>) => a -= b);
    op!(v, "Vector<S, 4> -= Vector<S, 4>", INPLACE, (mut a: Vector<S, 4>, ref b: Vector<S, 4>) => a -= b);
    op!(v, "Vector<S, 5> -= Vector<S, 5>", INPLACE, (mut a: Vector<S, 5>, ref b: Vector<S, 5>) => a -= b);
    op!(v, "Vector<S, 9> -= Vector<S, 9>", INPLACE, (mut a: Vector<S, 9>, ref b: Vector<S, 9>) => a -= b);
    op!(v, "Vector<S, 1> -= &Vector<S, 1>", INPLACE, (mut a: Vector<S, 1>, ref b: Vector<S, 1>) => a -= &b);
    op!(v, "Vector<S, 2> -= &Vector<S, 2>", INPLACE, (mut a: Vector<S, 2>, ref b: Vector<S, 2>) => a -= &b);
    op!(v, "Vector<S, 3> -= &Vector<S, 3>", INPLACE, (mut a: Vector<S, 3>, ref b: Vector<S, 3>) => a -= &b);
    op!(v, "Vector<S, 4> -= &Vector<S, 4>", INPLACE, (mut a: Vector<S, 4>, ref b: Vector<S, 4>) => a -= &b);
    op!(v, "Vector<S, 5> -= &Vector<S, 5>", INPLACE, (mut a: Vector<S, 5>, ref b: Vector<S, 5>) => a -= &b);
    op!(v, "Vector<S, 9> -= &Vector<S, 9>", INPLACE, (mut a: Vector<S, 9>, ref b: Vector<S, 9>) => a -= &b);
    op!(v, "Vector<S, 1> *= S", INPLACE, (mut a: Vector<S, 1>, ref b: S) => a *= b);
    op!(v, "Vector<S, 2> *= S", INPLACE, (mut a: Vector<S, 2>, ref b: S) => a *= b);
    op!(v, "Vector<S, 3> *= S", INPLACE, (mut a: Vector<S, 3>, ref b: S) => a *= b);
    op!(v, "Vector<S, 4> *= S", INPLACE, (mut a: Vector<S, 4>, ref b: S) => a *= b);
    op!(v, "Vector<S, 5> *= S", INPLACE, (mut a: Vector<S, 5>, ref b: S) => a *= b);
    op!(v, "Vector<S, 9> *= S", INPLACE, (mut a: Vector<S, 9>, ref b: S) => a *= b);
    op!(v, "Vector<S, 1> /= S", INPLACE, (mut a: Vector<S, 1>, ref b: S) => a /= b);
    op!(v, "Vector<S, 2> /= S", INPLACE, (mut a: Vector<S, 2>, ref b: S) => a /= b);
    op!(v, "Vector<S, 3> /= S", INPLACE, (mut a: Vector<S, 3>, ref b: S) => a /= b);
    op!(v, "Vector<S, 4> /= S", INPLACE, (mut a: Vector<S, 4>, ref b: S) => a /= b);
    op!(v, "Vector<S, 5> /= S", INPLACE, (mut a: Vector<S, 5>, ref b: S) => a /= b);
    op!(v, "Vector<S, 9> /= S", INPLACE, (mut a: Vector<S, 9>, ref b: S) => a /= b);
}
}
mod sc_40 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 1> %= S", INPLACE, (mut a: Vector<S, 1>, ref b: S) => a %= b);
    op!(v, "Vector<S, 2> %= S", INPLACE, (mut a: Vector<S, 2>, ref b: S) => a %= b);
    op!(v, "Vector<S, 3> %= S", INPLACE, (mut a: Vector<S, 3>, ref b: S) => a %= b);
    op!(v, "Vector<S, 4> %= S", INPLACE, (mut a: Vector<S, 4>, ref b: S) => a %= b);
    op!(v, "Vector<S, 5> %= S", INPLACE, (mut a: Vector<S, 5>, ref b: S) => a %= b);
    op!(v, "Vector<S, 9> %= S", INPLACE, (mut a: Vector<S, 9>, ref b: S) => a %= b);
    op!(v, "Vector<S, 1>::new", 0, (ref b: S) => <Vector<S, 1>>::new(b));
    op!(v, "Vector<S, 1>::unit_x", 0, () => <Vector<S, 1>>::unit_x());
    op!(v, "Vector<S, 1>::to_scalar", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::to_scalar(&a));
    op!(v, "Vector<S, 2>::new", 0, (ref b: S, ref c: S) => <Vector<S, 2>>::new(b, c));
    op!(v, "Vector<S, 2>::unit_x", 0, () => <Vector<S, 2>>::unit_x());
    op!(v, "Vector<S, 2>::unit_y", 0, () => <Vector<S, 2>>::unit_y());
    op!(v, "Vector<S, 3>::new", 0, (ref b: S, ref c: S, ref d: S) => <Vector<S, 3>>::new(b, c, d));
    op!(v, "Vector<S, 3>::unit_x", 0, () => <Vector<S, 3>>::unit_x());
    op!(v, "Vector<S, 3>::unit_y", 0, () => <Vector<S, 3>>::unit_y());
    op!(v, "Vector<S, 3>::unit_z", 0, () => <Vector<S, 3>>::unit_z());
    op!(v, "Vector<S, 3>::cross", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => <Vector<S, 3>>::cross(&a, &b));
    op!(v, "Vector<S, 3>::triple", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Vector<S, 3>>::triple(&a, &b, &c));
    op!(v, "Vector<S, 4>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S) => <Vector<S, 4>>::new(b, c, d, e));
    op!(v, "Vector<S, 4>::unit_x", 0, () => <Vector<S, 4>>::unit_x());
    op!(v, "Vector<S, 4>::unit_y", 0, () => <Vector<S, 4>>::unit_y());
    op!(v, "Vector<S, 4>::unit_z", 0, () => <Vector<S, 4>>::unit_z());
    op!(v, "Vector<S, 4>::unit_w", 0, () => <Vector<S, 4>>::unit_w());
    op!(v, "Vector<S, 1>::from(S)", 0, (ref a: S) => <Vector<S, 1>>::from(a));
    op!(v, "Vector<S, 1>::from((S,))", 0, (ref a: (S,)) => <Vector<S, 1>>::from(a));
    op!(v, "Vector<S, 1>::from(&(S,))", 0, (ref a: (S,)) => <Vector<S, 1>>::from(&a));
    op!(v, "&Vector<S, 1>::from(&(S,))", 0, (ref a: (S,)) => <&Vector<S, 1>>::from(&a));
    op!(v, "Vector<S, 2>::from((S, S))", 0, (ref a: (S, S)) => <Vector<S, 2>>::from(a));
    op!(v, "Vector<S, 2>::from(&(S, S))", 0, (ref a: (S, S)) => <Vector<S, 2>>::from(&a));
    op!(v, "&Vector<S, 2>::from(&(S, S))", 0, (ref a: (S, S)) => <&Vector<S, 2>>::from(&a));
    op!(v, "Vector<S, 3>::from((S, S, S))", 0, (ref a: (S, S, S)) => <Vector<S, 3>>::from(a));
    op!(v, "Vector<S, 3>::from(&(S, S, S))", 0, (ref a: (S, S, S)) => <Vector<S, 3>>::from(&a));
    op!(v, "&Vector<S, 3>::from(&(S, S, S))", 0, (ref a: (S, S, S)) => <&Vector<S, 3>>::from(&a));
    op!(v, "Vector<S, 3>::from(Vector<S, 4>)", 0, (ref a: Vector<S, 4>) => <Vector<S, 3>>::from(a));
    op!(v, "Vector<S, 3>::from(&Vector<S, 4>)", 0, (ref a: Vector<S, 4>) => <Vector<S, 3>>::from(&a));
    op!(v, "Vector<S, 4>::from((S, S, S, S))", 0, (ref a: (S, S, S, S)) => <Vector<S, 4>>::from(a));
    op!(v, "Vector<S, 4>::from(&(S, S, S, S))", 0, (ref a: (S, S, S, S)) => <Vector<S, 4>>::from(&a));
    op!(v, "&Vector<S, 4>::from(&(S, S, S, S))", 0, (ref a: (S, S, S, S)) => <&Vector<S, 4>>::from(&a));
    op!(v, "Scale<S, 2>::from_nonuniform_scale", 0, (ref b: Vector<S, 2>) => <Scale<S, 2>>::from_nonuniform_scale(&b));
    op!(v, "Scale<S, 2>::from_scale", 0, (ref b: S) => <Scale<S, 2>>::from_scale(b));
}
}
mod sc_41 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Scale<S, 2>::apply_vector", 0, (ref a: Scale<S, 2>, ref b: Vector<S, 2>) => <Scale<S, 2>>::apply_vector(&a, &b));
    op!(v, "Scale<S, 2>::apply_point", 0, (ref a: Scale<S, 2>, ref b: Point<S, 2>) => <Scale<S, 2>>::apply_point(&a, &b));
    op!(v, "Scale<S, 2>::identity", 0, () => <Scale<S, 2>>::identity());
    op!(v, "Scale<S, 2>::to_vector", 0, (ref a: Scale<S, 2>) => <Scale<S, 2>>::to_vector(&a));
    op!(v, "Scale<S, 2>::to_matrix", 0, (ref a: Scale<S, 2>) => <Scale<S, 2>>::to_matrix(&a));
    op!(v, "Scale<S, 3>::from_nonuniform_scale", 0, (ref b: Vector<S, 3>) => <Scale<S, 3>>::from_nonuniform_scale(&b));
    op!(v, "Scale<S, 3>::from_scale", 0, (ref b: S) => <Scale<S, 3>>::from_scale(b));
    op!(v, "Scale<S, 3>::apply_vector", 0, (ref a: Scale<S, 3>, ref b: Vector<S, 3>) => <Scale<S, 3>>::apply_vector(&a, &b));
    op!(v, "Scale<S, 3>::apply_point", 0, (ref a: Scale<S, 3>, ref b: Point<S, 3>) => <Scale<S, 3>>::apply_point(&a, &b));
    op!(v, "Scale<S, 3>::identity", 0, () => <Scale<S, 3>>::identity());
    op!(v, "Scale<S, 3>::to_vector", 0, (ref a: Scale<S, 3>) => <Scale<S, 3>>::to_vector(&a));
    op!(v, "Scale<S, 3>::to_matrix", 0, (ref a: Scale<S, 3>) => <Scale<S, 3>>::to_matrix(&a));
    op!(v, "Scale<S, 2>::to_affine_matrix", 0, (ref a: Scale<S, 2>) => <Scale<S, 2>>::to_affine_matrix(&a));
    op!(v, "Scale<S, 2>::to_transform", 0, (ref a: Scale<S, 2>) => <Scale<S, 2>>::to_transform(&a));
    op!(v, "Scale<S, 3>::to_affine_matrix", 0, (ref a: Scale<S, 3>) => <Scale<S, 3>>::to_affine_matrix(&a));
    op!(v, "Scale<S, 3>::to_transform", 0, (ref a: Scale<S, 3>) => <Scale<S, 3>>::to_transform(&a));
    op!(v, "Matrix<S, 3, 3>::from(Scale<S, 2>)", 0, (ref a: Scale<S, 2>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(Scale<S, 3>)", 0, (ref a: Scale<S, 3>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(&Scale<S, 2>)", 0, (ref a: Scale<S, 2>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::from(&Scale<S, 3>)", 0, (ref a: Scale<S, 3>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Scale<S, 2> * Point<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Point<S, 2>) => a * b);
    op!(v, "Scale<S, 3> * Point<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Point<S, 3>) => a * b);
    op!(v, "Scale<S, 2> * &Point<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Point<S, 2>) => a * &b);
    op!(v, "Scale<S, 3> * &Point<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Point<S, 3>) => a * &b);
    op!(v, "&Scale<S, 2> * Point<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Point<S, 2>) => &a * b);
    op!(v, "&Scale<S, 3> * Point<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Point<S, 3>) => &a * b);
    op!(v, "&Scale<S, 2> * &Point<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Point<S, 2>) => &a * &b);
    op!(v, "&Scale<S, 3> * &Point<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Point<S, 3>) => &a * &b);
    op!(v, "Scale<S, 2> * Vector<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Scale<S, 3> * Vector<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Scale<S, 2> * &Vector<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "Scale<S, 3> * &Vector<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "&Scale<S, 2> * Vector<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Scale<S, 3> * Vector<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Scale<S, 2> * &Vector<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Vector<S, 2>) => &a * &b);
    op!(v, "&Scale<S, 3> * &Vector<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "Scale<S, 2> * Scale<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>) => a * b);
    op!(v, "Scale<S, 3> * Scale<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>) => a * b);
    op!(v, "Scale<S, 2> * &Scale<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>) => a * &b);
    op!(v, "Scale<S, 3> * &Scale<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>) => a * &b);
}
}
mod sc_42 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "&Scale<S, 2> * Scale<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>) => &a * b);
    op!(v, "&Scale<S, 3> * Scale<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>) => &a * b);
    op!(v, "&Scale<S, 2> * &Scale<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>) => &a * &b);
    op!(v, "&Scale<S, 3> * &Scale<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>) => &a * &b);
    op!(v, "Scale<S, 2>::new", 0, (ref b: S, ref c: S) => <Scale<S, 2>>::new(b, c));
    op!(v, "Scale<S, 3>::new", 0, (ref b: S, ref c: S, ref d: S) => <Scale<S, 3>>::new(b, c, d));
    op!(v, "Transform<S, 2, 3>::from_matrix_unchecked", 0, (ref b: Matrix<S, 3, 3>) => <Transform<S, 2, 3>>::from_matrix_unchecked(b));
    op!(v, "Transform<S, 2, 3>::matrix", 0, (ref a: Transform<S, 2, 3>) => <Transform<S, 2, 3>>::matrix(&a));
    op!(v, "Transform<S, 2, 3>::identity", 0, () => <Transform<S, 2, 3>>::identity());
    op!(v, "Transform<S, 2, 3>::to_matrix", 0, (ref a: Transform<S, 2, 3>) => <Transform<S, 2, 3>>::to_matrix(&a));
    op!(v, "Transform<S, 3, 4>::from_matrix_unchecked", 0, (ref b: Matrix<S, 4, 4>) => <Transform<S, 3, 4>>::from_matrix_unchecked(b));
    op!(v, "Transform<S, 3, 4>::matrix", 0, (ref a: Transform<S, 3, 4>) => <Transform<S, 3, 4>>::matrix(&a));
    op!(v, "Transform<S, 3, 4>::identity", 0, () => <Transform<S, 3, 4>>::identity());
    op!(v, "Transform<S, 3, 4>::to_matrix", 0, (ref a: Transform<S, 3, 4>) => <Transform<S, 3, 4>>::to_matrix(&a));
    op!(v, "Transform<S, 2, 3>::apply_vector", 0, (ref a: Transform<S, 2, 3>, ref b: Vector<S, 2>) => <Transform<S, 2, 3>>::apply_vector(&a, &b));
    op!(v, "Transform<S, 2, 3>::apply_point", PARTIAL, (ref a: Transform<S, 2, 3>, ref b: Point<S, 2>) => <Transform<S, 2, 3>>::apply_point(&a, &b));
    op!(v, "Transform<S, 3, 4>::apply_vector", 0, (ref a: Transform<S, 3, 4>, ref b: Vector<S, 3>) => <Transform<S, 3, 4>>::apply_vector(&a, &b));
    op!(v, "Transform<S, 3, 4>::apply_point", PARTIAL, (ref a: Transform<S, 3, 4>, ref b: Point<S, 3>) => <Transform<S, 3, 4>>::apply_point(&a, &b));
    op!(v, "Matrix<S, 3, 3>::from(Transform<S, 2, 3>)", 0, (ref a: Transform<S, 2, 3>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(Transform<S, 3, 4>)", 0, (ref a: Transform<S, 3, 4>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(&Transform<S, 2, 3>)", 0, (ref a: Transform<S, 2, 3>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::from(&Transform<S, 3, 4>)", 0, (ref a: Transform<S, 3, 4>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Transform<S, 2, 3> * Point<S, 2>", PARTIAL, (ref a: Transform<S, 2, 3>, ref b: Point<S, 2>) => a * b);
    op!(v, "Transform<S, 3, 4> * Point<S, 3>", PARTIAL, (ref a: Transform<S, 3, 4>, ref b: Point<S, 3>) => a * b);
    op!(v, "Transform<S, 2, 3> * &Point<S, 2>", PARTIAL, (ref a: Transform<S, 2, 3>, ref b: Point<S, 2>) => a * &b);
    op!(v, "Transform<S, 3, 4> * &Point<S, 3>", PARTIAL, (ref a: Transform<S, 3, 4>, ref b: Point<S, 3>) => a * &b);
    op!(v, "&Transform<S, 2, 3> * Point<S, 2>", PARTIAL, (ref a: Transform<S, 2, 3>, ref b: Point<S, 2>) => &a * b);
    op!(v, "&Transform<S, 3, 4> * Point<S, 3>", PARTIAL, (ref a: Transform<S, 3, 4>, ref b: Point<S, 3>) => &a * b);
    op!(v, "&Transform<S, 2, 3> * &Point<S, 2>", PARTIAL, (ref a: Transform<S, 2, 3>, ref b: Point<S, 2>) => &a * &b);
    op!(v, "&Transform<S, 3, 4> * &Point<S, 3>", PARTIAL, (ref a: Transform<S, 3, 4>, ref b: Point<S, 3>) => &a * &b);
    op!(v, "Transform<S, 2, 3> * Vector<S, 2>", 0, (ref a: Transform<S, 2, 3>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Transform<S, 3, 4> * Vector<S, 3>", 0, (ref a: Transform<S, 3, 4>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Transform<S, 2, 3> * &Vector<S, 2>", 0, (ref a: Transform<S, 2, 3>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "Transform<S, 3, 4> * &Vector<S, 3>", 0, (ref a: Transform<S, 3, 4>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "&Transform<S, 2, 3> * Vector<S, 2>", 0, (ref a: Transform<S, 2, 3>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Transform<S, 3, 4> * Vector<S, 3>", 0, (ref a: Transform<S, 3, 4>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Transform<S, 2, 3> * &Vector<S, 2>", 0, (ref a: Transform<S, 2, 3>, ref b: Vector<S, 2>) => &a * &b);
    op!(v, "&Transform<S, 3, 4> * &Vector<S, 3>", 0, (ref a: Transform<S, 3, 4>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "Transform<S, 2, 3> * Transform<S, 2, 3>", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>) => a * b);
    op!(v, "Transform<S, 3, 4> * Transform<S, 3, 4>", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>) => a * b);
}
}
mod sc_43 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Transform<S, 2, 3> * &Transform<S, 2, 3>", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>) => a * &b);
    op!(v, "Transform<S, 3, 4> * &Transform<S, 3, 4>", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>) => a * &b);
    op!(v, "&Transform<S, 2, 3> * Transform<S, 2, 3>", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>) => &a * b);
    op!(v, "&Transform<S, 3, 4> * Transform<S, 3, 4>", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>) => &a * b);
    op!(v, "&Transform<S, 2, 3> * &Transform<S, 2, 3>", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>) => &a * &b);
    op!(v, "&Transform<S, 3, 4> * &Transform<S, 3, 4>", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>) => &a * &b);
    op!(v, "Radians<S>::zero", 0, () => <Radians<S>>::zero());
    op!(v, "Radians<S>::is_zero", 0, (ref a: Radians<S>) => <Radians<S>>::is_zero(&a));
    op!(v, "Degrees<S>::zero", 0, () => <Degrees<S>>::zero());
    op!(v, "Degrees<S>::is_zero", 0, (ref a: Degrees<S>) => <Degrees<S>>::is_zero(&a));
    op!(v, "Radians<S>::default", 0, () => <Radians<S> as Default>::default());
    op!(v, "Degrees<S>::default", 0, () => <Degrees<S> as Default>::default());
    op!(v, "Degrees<S> + Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => a + b);
    op!(v, "Degrees<S> + &Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => a + &b);
    op!(v, "&Degrees<S> + Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => &a + b);
    op!(v, "&Degrees<S> + &Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => &a + &b);
    op!(v, "Degrees<S> - Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => a - b);
    op!(v, "Degrees<S> - &Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => a - &b);
    op!(v, "&Degrees<S> - Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => &a - b);
    op!(v, "&Degrees<S> - &Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => &a - &b);
    op!(v, "Degrees<S> * S", 0, (ref a: Degrees<S>, ref b: S) => a * b);
    op!(v, "&Degrees<S> * S", 0, (ref a: Degrees<S>, ref b: S) => &a * b);
    op!(v, "Degrees<S> += Degrees<S>", INPLACE, (mut a: Degrees<S>, ref b: Degrees<S>) => a += b);
    op!(v, "Degrees<S> -= Degrees<S>", INPLACE, (mut a: Degrees<S>, ref b: Degrees<S>) => a -= b);
    op!(v, "Degrees<S> *= S", INPLACE, (mut a: Degrees<S>, ref b: S) => a *= b);
    op!(v, "Radians<S> + Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => a + b);
    op!(v, "Radians<S> + &Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => a + &b);
    op!(v, "&Radians<S> + Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => &a + b);
    op!(v, "&Radians<S> + &Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => &a + &b);
    op!(v, "Radians<S> - Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => a - b);
    op!(v, "Radians<S> - &Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => a - &b);
    op!(v, "&Radians<S> - Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => &a - b);
    op!(v, "&Radians<S> - &Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => &a - &b);
    op!(v, "Radians<S> * S", 0, (ref a: Radians<S>, ref b: S) => a * b);
    op!(v, "&Radians<S> * S", 0, (ref a: Radians<S>, ref b: S) => &a * b);
    op!(v, "Radians<S> += Radians<S>", INPLACE, (mut a: Radians<S>, ref b: Radians<S>) => a += b);
    op!(v, "Radians<S> -= Radians<S>", INPLACE, (mut a: Radians<S>, ref b: Radians<S>) => a -= b);
    op!(v, "Radians<S> *= S", INPLACE, (mut a: Radians<S>, ref b: S) => a *= b);
    op!(v, "Vector<S, 1> * S", 0, (ref a: Vector<S, 1>, ref b: S) => a * b);
    op!(v, "&Vector<S, 1> * S", 0, (ref a: Vector<S, 1>, ref b: S) => &a * b);
}
}
mod sc_44 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 1> / S", 0, (ref a: Vector<S, 1>, ref b: S) => a / b);
    op!(v, "&Vector<S, 1> / S", 0, (ref a: Vector<S, 1>, ref b: S) => &a / b);
    op!(v, "Vector<S, 1> % S", 0, (ref a: Vector<S, 1>, ref b: S) => a % b);
    op!(v, "&Vector<S, 1> % S", 0, (ref a: Vector<S, 1>, ref b: S) => &a % b);
    op!(v, "Vector<S, 2> * S", 0, (ref a: Vector<S, 2>, ref b: S) => a * b);
    op!(v, "&Vector<S, 2> * S", 0, (ref a: Vector<S, 2>, ref b: S) => &a * b);
    op!(v, "Vector<S, 2> / S", 0, (ref a: Vector<S, 2>, ref b: S) => a / b);
    op!(v, "&Vector<S, 2> / S", 0, (ref a: Vector<S, 2>, ref b: S) => &a / b);
    op!(v, "Vector<S, 2> % S", 0, (ref a: Vector<S, 2>, ref b: S) => a % b);
    op!(v, "&Vector<S, 2> % S", 0, (ref a: Vector<S, 2>, ref b: S) => &a % b);
    op!(v, "Vector<S, 3> * S", 0, (ref a: Vector<S, 3>, ref b: S) => a * b);
    op!(v, "&Vector<S, 3> * S", 0, (ref a: Vector<S, 3>, ref b: S) => &a * b);
    op!(v, "Vector<S, 3> / S", 0, (ref a: Vector<S, 3>, ref b: S) => a / b);
    op!(v, "&Vector<S, 3> / S", 0, (ref a: Vector<S, 3>, ref b: S) => &a / b);
    op!(v, "Vector<S, 3> % S", 0, (ref a: Vector<S, 3>, ref b: S) => a % b);
    op!(v, "&Vector<S, 3> % S", 0, (ref a: Vector<S, 3>, ref b: S) => &a % b);
    op!(v, "Vector<S, 4> * S", 0, (ref a: Vector<S, 4>, ref b: S) => a * b);
    op!(v, "&Vector<S, 4> * S", 0, (ref a: Vector<S, 4>, ref b: S) => &a * b);
    op!(v, "Vector<S, 4> / S", 0, (ref a: Vector<S, 4>, ref b: S) => a / b);
    op!(v, "&Vector<S, 4> / S", 0, (ref a: Vector<S, 4>, ref b: S) => &a / b);
    op!(v, "Vector<S, 4> % S", 0, (ref a: Vector<S, 4>, ref b: S) => a % b);
    op!(v, "&Vector<S, 4> % S", 0, (ref a: Vector<S, 4>, ref b: S) => &a % b);
    op!(v, "Vector<S, 5> * S", 0, (ref a: Vector<S, 5>, ref b: S) => a * b);
    op!(v, "&Vector<S, 5> * S", 0, (ref a: Vector<S, 5>, ref b: S) => &a * b);
    op!(v, "Vector<S, 5> / S", 0, (ref a: Vector<S, 5>, ref b: S) => a / b);
    op!(v, "&Vector<S, 5> / S", 0, (ref a: Vector<S, 5>, ref b: S) => &a / b);
    op!(v, "Vector<S, 5> % S", 0, (ref a: Vector<S, 5>, ref b: S) => a % b);
    op!(v, "&Vector<S, 5> % S", 0, (ref a: Vector<S, 5>, ref b: S) => &a % b);
    op!(v, "Vector<S, 9> * S", 0, (ref a: Vector<S, 9>, ref b: S) => a * b);
    op!(v, "&Vector<S, 9> * S", 0, (ref a: Vector<S, 9>, ref b: S) => &a * b);
    op!(v, "Vector<S, 9> / S", 0, (ref a: Vector<S, 9>, ref b: S) => a / b);
    op!(v, "&Vector<S, 9> / S", 0, (ref a: Vector<S, 9>, ref b: S) => &a / b);
    op!(v, "Vector<S, 9> % S", 0, (ref a: Vector<S, 9>, ref b: S) => a % b);
    op!(v, "&Vector<S, 9> % S", 0, (ref a: Vector<S, 9>, ref b: S) => &a % b);
    op!(v, "Vector<S, 1> == Vector<S, 1>", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => a == b);
    op!(v, "Vector<S, 1> != self", 0, (ref a: Vector<S, 1>) => a != a.clone());
    op!(v, "Vector<S, 1> render {}", RENDER, (ref a: Vector<S, 1>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Vector<S, 1> render {:?}", RENDER, (ref a: Vector<S, 1>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Vector<S, 1> render {:#?}", RENDER, (ref a: Vector<S, 1>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Vector<S, 1> render {:.3}", RENDER, (ref a: Vector<S, 1>) => crate::sink::render(format_args!("{:.3}", a)));
}
}
mod sc_45 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 1> render {:>14.2}", RENDER, (ref a: Vector<S, 1>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Vector<S, 1> render {:+}", RENDER, (ref a: Vector<S, 1>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Vector<S, 1> render {:#}", RENDER, (ref a: Vector<S, 1>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Vector<S, 1> render {:09.1?}", RENDER, (ref a: Vector<S, 1>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Vector<S, 1> render {:-<60.30}", RENDER, (ref a: Vector<S, 1>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Vector<S, 1> clone", 0, (ref a: Vector<S, 1>) => a.clone());
    op!(v, "Vector<S, 2> == Vector<S, 2>", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => a == b);
    op!(v, "Vector<S, 2> != self", 0, (ref a: Vector<S, 2>) => a != a.clone());
    op!(v, "Vector<S, 2> render {}", RENDER, (ref a: Vector<S, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Vector<S, 2> render {:?}", RENDER, (ref a: Vector<S, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Vector<S, 2> render {:#?}", RENDER, (ref a: Vector<S, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Vector<S, 2> render {:.3}", RENDER, (ref a: Vector<S, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Vector<S, 2> render {:>14.2}", RENDER, (ref a: Vector<S, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Vector<S, 2> render {:+}", RENDER, (ref a: Vector<S, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Vector<S, 2> render {:#}", RENDER, (ref a: Vector<S, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Vector<S, 2> render {:09.1?}", RENDER, (ref a: Vector<S, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Vector<S, 2> render {:-<60.30}", RENDER, (ref a: Vector<S, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Vector<S, 2> clone", 0, (ref a: Vector<S, 2>) => a.clone());
    op!(v, "Vector<S, 3> == Vector<S, 3>", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => a == b);
    op!(v, "Vector<S, 3> != self", 0, (ref a: Vector<S, 3>) => a != a.clone());
    op!(v, "Vector<S, 3> render {}", RENDER, (ref a: Vector<S, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Vector<S, 3> render {:?}", RENDER, (ref a: Vector<S, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Vector<S, 3> render {:#?}", RENDER, (ref a: Vector<S, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Vector<S, 3> render {:.3}", RENDER, (ref a: Vector<S, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Vector<S, 3> render {:>14.2}", RENDER, (ref a: Vector<S, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Vector<S, 3> render {:+}", RENDER, (ref a: Vector<S, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Vector<S, 3> render {:#}", RENDER, (ref a: Vector<S, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Vector<S, 3> render {:09.1?}", RENDER, (ref a: Vector<S, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Vector<S, 3> render {:-<60.30}", RENDER, (ref a: Vector<S, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Vector<S, 3> clone", 0, (ref a: Vector<S, 3>) => a.clone());
    op!(v, "Vector<S, 4> == Vector<S, 4>", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => a == b);
    op!(v, "Vector<S, 4> != self", 0, (ref a: Vector<S, 4>) => a != a.clone());
    op!(v, "Vector<S, 4> render {}", RENDER, (ref a: Vector<S, 4>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Vector<S, 4> render {:?}", RENDER, (ref a: Vector<S, 4>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Vector<S, 4> render {:#?}", RENDER, (ref a: Vector<S, 4>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Vector<S, 4> render {:.3}", RENDER, (ref a: Vector<S, 4>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Vector<S, 4> render {:>14.2}", RENDER, (ref a: Vector<S, 4>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Vector<S, 4> render {:+}", RENDER, (ref a: Vector<S, 4>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Vector<S, 4> render {:#}", RENDER, (ref a: Vector<S, 4>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Vector<S, 4> render {:09.1?}", RENDER, (ref a: Vector<S, 4>) => crate::sink::render(format_args!("{:09.1?}", a)));
}
}
mod sc_46 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 4> render {:-<60.30}", RENDER, (ref a: Vector<S, 4>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Vector<S, 4> clone", 0, (ref a: Vector<S, 4>) => a.clone());
    op!(v, "Vector<S, 5> == Vector<S, 5>", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => a == b);
    op!(v, "Vector<S, 5> != self", 0, (ref a: Vector<S, 5>) => a != a.clone());
    op!(v, "Vector<S, 5> render {}", RENDER, (ref a: Vector<S, 5>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Vector<S, 5> render {:?}", RENDER, (ref a: Vector<S, 5>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Vector<S, 5> render {:#?}", RENDER, (ref a: Vector<S, 5>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Vector<S, 5> render {:.3}", RENDER, (ref a: Vector<S, 5>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Vector<S, 5> render {:>14.2}", RENDER, (ref a: Vector<S, 5>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Vector<S, 5> render {:+}", RENDER, (ref a: Vector<S, 5>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Vector<S, 5> render {:#}", RENDER, (ref a: Vector<S, 5>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Vector<S, 5> render {:09.1?}", RENDER, (ref a: Vector<S, 5>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Vector<S, 5> render {:-<60.30}", RENDER, (ref a: Vector<S, 5>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Vector<S, 5> clone", 0, (ref a: Vector<S, 5>) => a.clone());
    op!(v, "Vector<S, 9> == Vector<S, 9>", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => a == b);
    op!(v, "Vector<S, 9> != self", 0, (ref a: Vector<S, 9>) => a != a.clone());
    op!(v, "Vector<S, 9> render {}", RENDER, (ref a: Vector<S, 9>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Vector<S, 9> render {:?}", RENDER, (ref a: Vector<S, 9>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Vector<S, 9> render {:#?}", RENDER, (ref a: Vector<S, 9>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Vector<S, 9> render {:.3}", RENDER, (ref a: Vector<S, 9>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Vector<S, 9> render {:>14.2}", RENDER, (ref a: Vector<S, 9>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Vector<S, 9> render {:+}", RENDER, (ref a: Vector<S, 9>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Vector<S, 9> render {:#}", RENDER, (ref a: Vector<S, 9>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Vector<S, 9> render {:09.1?}", RENDER, (ref a: Vector<S, 9>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Vector<S, 9> render {:-<60.30}", RENDER, (ref a: Vector<S, 9>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Vector<S, 9> clone", 0, (ref a: Vector<S, 9>) => a.clone());
    op!(v, "Point<S, 1> == Point<S, 1>", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>) => a == b);
    op!(v, "Point<S, 1> != self", 0, (ref a: Point<S, 1>) => a != a.clone());
    op!(v, "Point<S, 1> render {}", RENDER, (ref a: Point<S, 1>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Point<S, 1> render {:?}", RENDER, (ref a: Point<S, 1>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Point<S, 1> render {:#?}", RENDER, (ref a: Point<S, 1>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Point<S, 1> render {:.3}", RENDER, (ref a: Point<S, 1>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Point<S, 1> render {:>14.2}", RENDER, (ref a: Point<S, 1>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Point<S, 1> render {:+}", RENDER, (ref a: Point<S, 1>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Point<S, 1> render {:#}", RENDER, (ref a: Point<S, 1>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Point<S, 1> render {:09.1?}", RENDER, (ref a: Point<S, 1>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Point<S, 1> render {:-<60.30}", RENDER, (ref a: Point<S, 1>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Point<S, 1> clone", 0, (ref a: Point<S, 1>) => a.clone());
    op!(v, "Point<S, 2> == Point<S, 2>", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>) => a == b);
    op!(v, "Point<S, 2> != self", 0, (ref a: Point<S, 2>) => a != a.clone());
}
}
mod sc_47 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Point<S, 2> render {}", RENDER, (ref a: Point<S, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Point<S, 2> render {:?}", RENDER, (ref a: Point<S, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Point<S, 2> render {:#?}", RENDER, (ref a: Point<S, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Point<S, 2> render {:.3}", RENDER, (ref a: Point<S, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Point<S, 2> render {:>14.2}", RENDER, (ref a: Point<S, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Point<S, 2> render {:+}", RENDER, (ref a: Point<S, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Point<S, 2> render {:#}", RENDER, (ref a: Point<S, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Point<S, 2> render {:09.1?}", RENDER, (ref a: Point<S, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Point<S, 2> render {:-<60.30}", RENDER, (ref a: Point<S, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Point<S, 2> clone", 0, (ref a: Point<S, 2>) => a.clone());
    op!(v, "Point<S, 3> == Point<S, 3>", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>) => a == b);
    op!(v, "Point<S, 3> != self", 0, (ref a: Point<S, 3>) => a != a.clone());
    op!(v, "Point<S, 3> render {}", RENDER, (ref a: Point<S, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Point<S, 3> render {:?}", RENDER, (ref a: Point<S, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Point<S, 3> render {:#?}", RENDER, (ref a: Point<S, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Point<S, 3> render {:.3}", RENDER, (ref a: Point<S, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Point<S, 3> render {:>14.2}", RENDER, (ref a: Point<S, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Point<S, 3> render {:+}", RENDER, (ref a: Point<S, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Point<S, 3> render {:#}", RENDER, (ref a: Point<S, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Point<S, 3> render {:09.1?}", RENDER, (ref a: Point<S, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Point<S, 3> render {:-<60.30}", RENDER, (ref a: Point<S, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Point<S, 3> clone", 0, (ref a: Point<S, 3>) => a.clone());
    op!(v, "Point<S, 6> == Point<S, 6>", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>) => a == b);
    op!(v, "Point<S, 6> != self", 0, (ref a: Point<S, 6>) => a != a.clone());
    op!(v, "Point<S, 6> render {}", RENDER, (ref a: Point<S, 6>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Point<S, 6> render {:?}", RENDER, (ref a: Point<S, 6>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Point<S, 6> render {:#?}", RENDER, (ref a: Point<S, 6>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Point<S, 6> render {:.3}", RENDER, (ref a: Point<S, 6>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Point<S, 6> render {:>14.2}", RENDER, (ref a: Point<S, 6>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Point<S, 6> render {:+}", RENDER, (ref a: Point<S, 6>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Point<S, 6> render {:#}", RENDER, (ref a: Point<S, 6>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Point<S, 6> render {:09.1?}", RENDER, (ref a: Point<S, 6>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Point<S, 6> render {:-<60.30}", RENDER, (ref a: Point<S, 6>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Point<S, 6> clone", 0, (ref a: Point<S, 6>) => a.clone());
    op!(v, "Matrix<S, 1, 1> == Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a == b);
    op!(v, "Matrix<S, 1, 1> != self", 0, (ref a: Matrix<S, 1, 1>) => a != a.clone());
    op!(v, "Matrix<S, 1, 1> render {}", RENDER, (ref a: Matrix<S, 1, 1>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 1, 1> render {:?}", RENDER, (ref a: Matrix<S, 1, 1>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 1, 1> render {:#?}", RENDER, (ref a: Matrix<S, 1, 1>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 1, 1> render {:.3}", RENDER, (ref a: Matrix<S, 1, 1>) => crate::sink::render(format_args!("{:.3}", a)));
}
}
mod sc_48 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 1> render {:>14.2}", RENDER, (ref a: Matrix<S, 1, 1>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 1, 1> render {:+}", RENDER, (ref a: Matrix<S, 1, 1>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 1, 1> render {:#}", RENDER, (ref a: Matrix<S, 1, 1>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 1, 1> render {:09.1?}", RENDER, (ref a: Matrix<S, 1, 1>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 1, 1> render {:-<60.30}", RENDER, (ref a: Matrix<S, 1, 1>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 1, 1> clone", 0, (ref a: Matrix<S, 1, 1>) => a.clone());
    op!(v, "Matrix<S, 2, 2> == Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a == b);
    op!(v, "Matrix<S, 2, 2> != self", 0, (ref a: Matrix<S, 2, 2>) => a != a.clone());
    op!(v, "Matrix<S, 2, 2> render {}", RENDER, (ref a: Matrix<S, 2, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 2, 2> render {:?}", RENDER, (ref a: Matrix<S, 2, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 2, 2> render {:#?}", RENDER, (ref a: Matrix<S, 2, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 2, 2> render {:.3}", RENDER, (ref a: Matrix<S, 2, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 2, 2> render {:>14.2}", RENDER, (ref a: Matrix<S, 2, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 2, 2> render {:+}", RENDER, (ref a: Matrix<S, 2, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 2, 2> render {:#}", RENDER, (ref a: Matrix<S, 2, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 2, 2> render {:09.1?}", RENDER, (ref a: Matrix<S, 2, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 2, 2> render {:-<60.30}", RENDER, (ref a: Matrix<S, 2, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 2, 2> clone", 0, (ref a: Matrix<S, 2, 2>) => a.clone());
    op!(v, "Matrix<S, 3, 3> == Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a == b);
    op!(v, "Matrix<S, 3, 3> != self", 0, (ref a: Matrix<S, 3, 3>) => a != a.clone());
    op!(v, "Matrix<S, 3, 3> render {}", RENDER, (ref a: Matrix<S, 3, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 3, 3> render {:?}", RENDER, (ref a: Matrix<S, 3, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 3, 3> render {:#?}", RENDER, (ref a: Matrix<S, 3, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 3, 3> render {:.3}", RENDER, (ref a: Matrix<S, 3, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 3, 3> render {:>14.2}", RENDER, (ref a: Matrix<S, 3, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 3, 3> render {:+}", RENDER, (ref a: Matrix<S, 3, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 3, 3> render {:#}", RENDER, (ref a: Matrix<S, 3, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 3, 3> render {:09.1?}", RENDER, (ref a: Matrix<S, 3, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 3, 3> render {:-<60.30}", RENDER, (ref a: Matrix<S, 3, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 3, 3> clone", 0, (ref a: Matrix<S, 3, 3>) => a.clone());
    op!(v, "Matrix<S, 4, 4> == Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a == b);
    op!(v, "Matrix<S, 4, 4> != self", 0, (ref a: Matrix<S, 4, 4>) => a != a.clone());
    op!(v, "Matrix<S, 4, 4> render {}", RENDER, (ref a: Matrix<S, 4, 4>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 4, 4> render {:?}", RENDER, (ref a: Matrix<S, 4, 4>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 4, 4> render {:#?}", RENDER, (ref a: Matrix<S, 4, 4>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 4, 4> render {:.3}", RENDER, (ref a: Matrix<S, 4, 4>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 4, 4> render {:>14.2}", RENDER, (ref a: Matrix<S, 4, 4>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 4, 4> render {:+}", RENDER, (ref a: Matrix<S, 4, 4>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 4, 4> render {:#}", RENDER, (ref a: Matrix<S, 4, 4>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 4, 4> render {:09.1?}", RENDER, (ref a: Matrix<S, 4, 4>) => crate::sink::render(format_args!("{:09.1?}", a)));
}
}
mod sc_49 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 4> render {:-<60.30}", RENDER, (ref a: Matrix<S, 4, 4>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 4, 4> clone", 0, (ref a: Matrix<S, 4, 4>) => a.clone());
    op!(v, "Matrix<S, 1, 2> == Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => a == b);
    op!(v, "Matrix<S, 1, 2> != self", 0, (ref a: Matrix<S, 1, 2>) => a != a.clone());
    op!(v, "Matrix<S, 1, 2> render {}", RENDER, (ref a: Matrix<S, 1, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 1, 2> render {:?}", RENDER, (ref a: Matrix<S, 1, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 1, 2> render {:#?}", RENDER, (ref a: Matrix<S, 1, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 1, 2> render {:.3}", RENDER, (ref a: Matrix<S, 1, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 1, 2> render {:>14.2}", RENDER, (ref a: Matrix<S, 1, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 1, 2> render {:+}", RENDER, (ref a: Matrix<S, 1, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 1, 2> render {:#}", RENDER, (ref a: Matrix<S, 1, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 1, 2> render {:09.1?}", RENDER, (ref a: Matrix<S, 1, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 1, 2> render {:-<60.30}", RENDER, (ref a: Matrix<S, 1, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 1, 2> clone", 0, (ref a: Matrix<S, 1, 2>) => a.clone());
    op!(v, "Matrix<S, 1, 3> == Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => a == b);
    op!(v, "Matrix<S, 1, 3> != self", 0, (ref a: Matrix<S, 1, 3>) => a != a.clone());
    op!(v, "Matrix<S, 1, 3> render {}", RENDER, (ref a: Matrix<S, 1, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 1, 3> render {:?}", RENDER, (ref a: Matrix<S, 1, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 1, 3> render {:#?}", RENDER, (ref a: Matrix<S, 1, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 1, 3> render {:.3}", RENDER, (ref a: Matrix<S, 1, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 1, 3> render {:>14.2}", RENDER, (ref a: Matrix<S, 1, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 1, 3> render {:+}", RENDER, (ref a: Matrix<S, 1, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 1, 3> render {:#}", RENDER, (ref a: Matrix<S, 1, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 1, 3> render {:09.1?}", RENDER, (ref a: Matrix<S, 1, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 1, 3> render {:-<60.30}", RENDER, (ref a: Matrix<S, 1, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 1, 3> clone", 0, (ref a: Matrix<S, 1, 3>) => a.clone());
    op!(v, "Matrix<S, 1, 4> == Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => a == b);
    op!(v, "Matrix<S, 1, 4> != self", 0, (ref a: Matrix<S, 1, 4>) => a != a.clone());
    op!(v, "Matrix<S, 1, 4> render {}", RENDER, (ref a: Matrix<S, 1, 4>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 1, 4> render {:?}", RENDER, (ref a: Matrix<S, 1, 4>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 1, 4> render {:#?}", RENDER, (ref a: Matrix<S, 1, 4>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 1, 4> render {:.3}", RENDER, (ref a: Matrix<S, 1, 4>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 1, 4> render {:>14.2}", RENDER, (ref a: Matrix<S, 1, 4>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 1, 4> render {:+}", RENDER, (ref a: Matrix<S, 1, 4>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 1, 4> render {:#}", RENDER, (ref a: Matrix<S, 1, 4>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 1, 4> render {:09.1?}", RENDER, (ref a: Matrix<S, 1, 4>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 1, 4> render {:-<60.30}", RENDER, (ref a: Matrix<S, 1, 4>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 1, 4> clone", 0, (ref a: Matrix<S, 1, 4>) => a.clone());
    op!(v, "Matrix<S, 2, 3> == Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => a == b);
    op!(v, "Matrix<S, 2, 3> != self", 0, (ref a: Matrix<S, 2, 3>) => a != a.clone());
}
}
mod sc_50 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 2, 3> render {}", RENDER, (ref a: Matrix<S, 2, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 2, 3> render {:?}", RENDER, (ref a: Matrix<S, 2, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 2, 3> render {:#?}", RENDER, (ref a: Matrix<S, 2, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 2, 3> render {:.3}", RENDER, (ref a: Matrix<S, 2, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 2, 3> render {:>14.2}", RENDER, (ref a: Matrix<S, 2, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 2, 3> render {:+}", RENDER, (ref a: Matrix<S, 2, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 2, 3> render {:#}", RENDER, (ref a: Matrix<S, 2, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 2, 3> render {:09.1?}", RENDER, (ref a: Matrix<S, 2, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 2, 3> render {:-<60.30}", RENDER, (ref a: Matrix<S, 2, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 2, 3> clone", 0, (ref a: Matrix<S, 2, 3>) => a.clone());
    op!(v, "Matrix<S, 3, 2> == Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => a == b);
    op!(v, "Matrix<S, 3, 2> != self", 0, (ref a: Matrix<S, 3, 2>) => a != a.clone());
    op!(v, "Matrix<S, 3, 2> render {}", RENDER, (ref a: Matrix<S, 3, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 3, 2> render {:?}", RENDER, (ref a: Matrix<S, 3, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 3, 2> render {:#?}", RENDER, (ref a: Matrix<S, 3, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 3, 2> render {:.3}", RENDER, (ref a: Matrix<S, 3, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 3, 2> render {:>14.2}", RENDER, (ref a: Matrix<S, 3, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 3, 2> render {:+}", RENDER, (ref a: Matrix<S, 3, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 3, 2> render {:#}", RENDER, (ref a: Matrix<S, 3, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 3, 2> render {:09.1?}", RENDER, (ref a: Matrix<S, 3, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 3, 2> render {:-<60.30}", RENDER, (ref a: Matrix<S, 3, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 3, 2> clone", 0, (ref a: Matrix<S, 3, 2>) => a.clone());
    op!(v, "Matrix<S, 2, 4> == Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => a == b);
    op!(v, "Matrix<S, 2, 4> != self", 0, (ref a: Matrix<S, 2, 4>) => a != a.clone());
    op!(v, "Matrix<S, 2, 4> render {}", RENDER, (ref a: Matrix<S, 2, 4>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 2, 4> render {:?}", RENDER, (ref a: Matrix<S, 2, 4>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 2, 4> render {:#?}", RENDER, (ref a: Matrix<S, 2, 4>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 2, 4> render {:.3}", RENDER, (ref a: Matrix<S, 2, 4>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 2, 4> render {:>14.2}", RENDER, (ref a: Matrix<S, 2, 4>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 2, 4> render {:+}", RENDER, (ref a: Matrix<S, 2, 4>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 2, 4> render {:#}", RENDER, (ref a: Matrix<S, 2, 4>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 2, 4> render {:09.1?}", RENDER, (ref a: Matrix<S, 2, 4>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 2, 4> render {:-<60.30}", RENDER, (ref a: Matrix<S, 2, 4>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 2, 4> clone", 0, (ref a: Matrix<S, 2, 4>) => a.clone());
    op!(v, "Matrix<S, 4, 2> == Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => a == b);
    op!(v, "Matrix<S, 4, 2> != self", 0, (ref a: Matrix<S, 4, 2>) => a != a.clone());
    op!(v, "Matrix<S, 4, 2> render {}", RENDER, (ref a: Matrix<S, 4, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 4, 2> render {:?}", RENDER, (ref a: Matrix<S, 4, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 4, 2> render {:#?}", RENDER, (ref a: Matrix<S, 4, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 4, 2> render {:.3}", RENDER, (ref a: Matrix<S, 4, 2>) => crate::sink::render(format_args!("{:.3}", a)));
}
}
mod sc_51 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 2> render {:>14.2}", RENDER, (ref a: Matrix<S, 4, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 4, 2> render {:+}", RENDER, (ref a: Matrix<S, 4, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 4, 2> render {:#}", RENDER, (ref a: Matrix<S, 4, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 4, 2> render {:09.1?}", RENDER, (ref a: Matrix<S, 4, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 4, 2> render {:-<60.30}", RENDER, (ref a: Matrix<S, 4, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 4, 2> clone", 0, (ref a: Matrix<S, 4, 2>) => a.clone());
    op!(v, "Matrix<S, 3, 4> == Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => a == b);
    op!(v, "Matrix<S, 3, 4> != self", 0, (ref a: Matrix<S, 3, 4>) => a != a.clone());
    op!(v, "Matrix<S, 3, 4> render {}", RENDER, (ref a: Matrix<S, 3, 4>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 3, 4> render {:?}", RENDER, (ref a: Matrix<S, 3, 4>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 3, 4> render {:#?}", RENDER, (ref a: Matrix<S, 3, 4>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 3, 4> render {:.3}", RENDER, (ref a: Matrix<S, 3, 4>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 3, 4> render {:>14.2}", RENDER, (ref a: Matrix<S, 3, 4>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 3, 4> render {:+}", RENDER, (ref a: Matrix<S, 3, 4>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 3, 4> render {:#}", RENDER, (ref a: Matrix<S, 3, 4>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 3, 4> render {:09.1?}", RENDER, (ref a: Matrix<S, 3, 4>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 3, 4> render {:-<60.30}", RENDER, (ref a: Matrix<S, 3, 4>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 3, 4> clone", 0, (ref a: Matrix<S, 3, 4>) => a.clone());
    op!(v, "Matrix<S, 4, 3> == Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => a == b);
    op!(v, "Matrix<S, 4, 3> != self", 0, (ref a: Matrix<S, 4, 3>) => a != a.clone());
    op!(v, "Matrix<S, 4, 3> render {}", RENDER, (ref a: Matrix<S, 4, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 4, 3> render {:?}", RENDER, (ref a: Matrix<S, 4, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 4, 3> render {:#?}", RENDER, (ref a: Matrix<S, 4, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 4, 3> render {:.3}", RENDER, (ref a: Matrix<S, 4, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 4, 3> render {:>14.2}", RENDER, (ref a: Matrix<S, 4, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 4, 3> render {:+}", RENDER, (ref a: Matrix<S, 4, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 4, 3> render {:#}", RENDER, (ref a: Matrix<S, 4, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 4, 3> render {:09.1?}", RENDER, (ref a: Matrix<S, 4, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 4, 3> render {:-<60.30}", RENDER, (ref a: Matrix<S, 4, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 4, 3> clone", 0, (ref a: Matrix<S, 4, 3>) => a.clone());
    op!(v, "Matrix<S, 4, 1> == Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => a == b);
    op!(v, "Matrix<S, 4, 1> != self", 0, (ref a: Matrix<S, 4, 1>) => a != a.clone());
    op!(v, "Matrix<S, 4, 1> render {}", RENDER, (ref a: Matrix<S, 4, 1>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 4, 1> render {:?}", RENDER, (ref a: Matrix<S, 4, 1>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 4, 1> render {:#?}", RENDER, (ref a: Matrix<S, 4, 1>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 4, 1> render {:.3}", RENDER, (ref a: Matrix<S, 4, 1>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 4, 1> render {:>14.2}", RENDER, (ref a: Matrix<S, 4, 1>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 4, 1> render {:+}", RENDER, (ref a: Matrix<S, 4, 1>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 4, 1> render {:#}", RENDER, (ref a: Matrix<S, 4, 1>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 4, 1> render {:09.1?}", RENDER, (ref a: Matrix<S, 4, 1>) => crate::sink::render(format_args!("{:09.1?}", a)));
}
}
mod sc_52 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 1> render {:-<60.30}", RENDER, (ref a: Matrix<S, 4, 1>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 4, 1> clone", 0, (ref a: Matrix<S, 4, 1>) => a.clone());
    op!(v, "Matrix<S, 5, 5> == Matrix<S, 5, 5>", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => a == b);
    op!(v, "Matrix<S, 5, 5> != self", 0, (ref a: Matrix<S, 5, 5>) => a != a.clone());
    op!(v, "Matrix<S, 5, 5> render {}", RENDER, (ref a: Matrix<S, 5, 5>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 5, 5> render {:?}", RENDER, (ref a: Matrix<S, 5, 5>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 5, 5> render {:#?}", RENDER, (ref a: Matrix<S, 5, 5>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 5, 5> render {:.3}", RENDER, (ref a: Matrix<S, 5, 5>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 5, 5> render {:>14.2}", RENDER, (ref a: Matrix<S, 5, 5>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 5, 5> render {:+}", RENDER, (ref a: Matrix<S, 5, 5>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 5, 5> render {:#}", RENDER, (ref a: Matrix<S, 5, 5>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 5, 5> render {:09.1?}", RENDER, (ref a: Matrix<S, 5, 5>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 5, 5> render {:-<60.30}", RENDER, (ref a: Matrix<S, 5, 5>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 5, 5> clone", 0, (ref a: Matrix<S, 5, 5>) => a.clone());
    op!(v, "Matrix<S, 6, 2> == Matrix<S, 6, 2>", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => a == b);
    op!(v, "Matrix<S, 6, 2> != self", 0, (ref a: Matrix<S, 6, 2>) => a != a.clone());
    op!(v, "Matrix<S, 6, 2> render {}", RENDER, (ref a: Matrix<S, 6, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Matrix<S, 6, 2> render {:?}", RENDER, (ref a: Matrix<S, 6, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Matrix<S, 6, 2> render {:#?}", RENDER, (ref a: Matrix<S, 6, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Matrix<S, 6, 2> render {:.3}", RENDER, (ref a: Matrix<S, 6, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Matrix<S, 6, 2> render {:>14.2}", RENDER, (ref a: Matrix<S, 6, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Matrix<S, 6, 2> render {:+}", RENDER, (ref a: Matrix<S, 6, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Matrix<S, 6, 2> render {:#}", RENDER, (ref a: Matrix<S, 6, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Matrix<S, 6, 2> render {:09.1?}", RENDER, (ref a: Matrix<S, 6, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Matrix<S, 6, 2> render {:-<60.30}", RENDER, (ref a: Matrix<S, 6, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Matrix<S, 6, 2> clone", 0, (ref a: Matrix<S, 6, 2>) => a.clone());
    op!(v, "Complex<S> == Complex<S>", 0, (ref a: Complex<S>, ref b: Complex<S>) => a == b);
    op!(v, "Complex<S> != self", 0, (ref a: Complex<S>) => a != a.clone());
    op!(v, "Complex<S> render {}", RENDER, (ref a: Complex<S>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Complex<S> render {:?}", RENDER, (ref a: Complex<S>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Complex<S> render {:#?}", RENDER, (ref a: Complex<S>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Complex<S> render {:.3}", RENDER, (ref a: Complex<S>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Complex<S> render {:>14.2}", RENDER, (ref a: Complex<S>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Complex<S> render {:+}", RENDER, (ref a: Complex<S>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Complex<S> render {:#}", RENDER, (ref a: Complex<S>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Complex<S> render {:09.1?}", RENDER, (ref a: Complex<S>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Complex<S> render {:-<60.30}", RENDER, (ref a: Complex<S>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Complex<S> clone", 0, (ref a: Complex<S>) => a.clone());
    op!(v, "Quaternion<S> == Quaternion<S>", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => a == b);
    op!(v, "Quaternion<S> != self", 0, (ref a: Quaternion<S>) => a != a.clone());
}
}
mod sc_53 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Quaternion<S> render {}", RENDER, (ref a: Quaternion<S>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Quaternion<S> render {:?}", RENDER, (ref a: Quaternion<S>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Quaternion<S> render {:#?}", RENDER, (ref a: Quaternion<S>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Quaternion<S> render {:.3}", RENDER, (ref a: Quaternion<S>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Quaternion<S> render {:>14.2}", RENDER, (ref a: Quaternion<S>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Quaternion<S> render {:+}", RENDER, (ref a: Quaternion<S>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Quaternion<S> render {:#}", RENDER, (ref a: Quaternion<S>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Quaternion<S> render {:09.1?}", RENDER, (ref a: Quaternion<S>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Quaternion<S> render {:-<60.30}", RENDER, (ref a: Quaternion<S>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Quaternion<S> clone", 0, (ref a: Quaternion<S>) => a.clone());
    op!(v, "Scale<S, 2> == Scale<S, 2>", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>) => a == b);
    op!(v, "Scale<S, 2> != self", 0, (ref a: Scale<S, 2>) => a != a.clone());
    op!(v, "Scale<S, 2> render {}", RENDER, (ref a: Scale<S, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Scale<S, 2> render {:?}", RENDER, (ref a: Scale<S, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Scale<S, 2> render {:#?}", RENDER, (ref a: Scale<S, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Scale<S, 2> render {:.3}", RENDER, (ref a: Scale<S, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Scale<S, 2> render {:>14.2}", RENDER, (ref a: Scale<S, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Scale<S, 2> render {:+}", RENDER, (ref a: Scale<S, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Scale<S, 2> render {:#}", RENDER, (ref a: Scale<S, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Scale<S, 2> render {:09.1?}", RENDER, (ref a: Scale<S, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Scale<S, 2> render {:-<60.30}", RENDER, (ref a: Scale<S, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Scale<S, 2> clone", 0, (ref a: Scale<S, 2>) => a.clone());
    op!(v, "Scale<S, 3> == Scale<S, 3>", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>) => a == b);
    op!(v, "Scale<S, 3> != self", 0, (ref a: Scale<S, 3>) => a != a.clone());
    op!(v, "Scale<S, 3> render {}", RENDER, (ref a: Scale<S, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Scale<S, 3> render {:?}", RENDER, (ref a: Scale<S, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Scale<S, 3> render {:#?}", RENDER, (ref a: Scale<S, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Scale<S, 3> render {:.3}", RENDER, (ref a: Scale<S, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Scale<S, 3> render {:>14.2}", RENDER, (ref a: Scale<S, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Scale<S, 3> render {:+}", RENDER, (ref a: Scale<S, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Scale<S, 3> render {:#}", RENDER, (ref a: Scale<S, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Scale<S, 3> render {:09.1?}", RENDER, (ref a: Scale<S, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Scale<S, 3> render {:-<60.30}", RENDER, (ref a: Scale<S, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Scale<S, 3> clone", 0, (ref a: Scale<S, 3>) => a.clone());
    op!(v, "Transform<S, 2, 3> == Transform<S, 2, 3>", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>) => a == b);
    op!(v, "Transform<S, 2, 3> != self", 0, (ref a: Transform<S, 2, 3>) => a != a.clone());
    op!(v, "Transform<S, 2, 3> render {}", RENDER, (ref a: Transform<S, 2, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Transform<S, 2, 3> render {:?}", RENDER, (ref a: Transform<S, 2, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Transform<S, 2, 3> render {:#?}", RENDER, (ref a: Transform<S, 2, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Transform<S, 2, 3> render {:.3}", RENDER, (ref a: Transform<S, 2, 3>) => crate::sink::render(format_args!("{:.3}", a)));
}
}
mod sc_54 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Transform<S, 2, 3> render {:>14.2}", RENDER, (ref a: Transform<S, 2, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Transform<S, 2, 3> render {:+}", RENDER, (ref a: Transform<S, 2, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Transform<S, 2, 3> render {:#}", RENDER, (ref a: Transform<S, 2, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Transform<S, 2, 3> render {:09.1?}", RENDER, (ref a: Transform<S, 2, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Transform<S, 2, 3> render {:-<60.30}", RENDER, (ref a: Transform<S, 2, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Transform<S, 2, 3> clone", 0, (ref a: Transform<S, 2, 3>) => a.clone());
    op!(v, "Transform<S, 3, 4> == Transform<S, 3, 4>", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>) => a == b);
    op!(v, "Transform<S, 3, 4> != self", 0, (ref a: Transform<S, 3, 4>) => a != a.clone());
    op!(v, "Transform<S, 3, 4> render {}", RENDER, (ref a: Transform<S, 3, 4>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Transform<S, 3, 4> render {:?}", RENDER, (ref a: Transform<S, 3, 4>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Transform<S, 3, 4> render {:#?}", RENDER, (ref a: Transform<S, 3, 4>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Transform<S, 3, 4> render {:.3}", RENDER, (ref a: Transform<S, 3, 4>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Transform<S, 3, 4> render {:>14.2}", RENDER, (ref a: Transform<S, 3, 4>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Transform<S, 3, 4> render {:+}", RENDER, (ref a: Transform<S, 3, 4>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Transform<S, 3, 4> render {:#}", RENDER, (ref a: Transform<S, 3, 4>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Transform<S, 3, 4> render {:09.1?}", RENDER, (ref a: Transform<S, 3, 4>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Transform<S, 3, 4> render {:-<60.30}", RENDER, (ref a: Transform<S, 3, 4>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Transform<S, 3, 4> clone", 0, (ref a: Transform<S, 3, 4>) => a.clone());
    op!(v, "Matrix<S, 1, 1>::row", 0, (ref a: Matrix<S, 1, 1>, ref i: Idx<1>) => a.row(i.0));
    op!(v, "Matrix<S, 1, 1>::column", 0, (ref a: Matrix<S, 1, 1>, ref i: Idx<1>) => a.column(i.0));
    op!(v, "Matrix<S, 1, 1>::swap_rows", INPLACE, (mut a: Matrix<S, 1, 1>, ref i: Idx<1>, ref j: Idx<1>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 1, 1>::swap_columns", INPLACE, (mut a: Matrix<S, 1, 1>, ref i: Idx<1>, ref j: Idx<1>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 1, 1>::swap", INPLACE, (mut a: Matrix<S, 1, 1>, ref i: Idx<1>, ref j: Idx<1>, ref l: Idx<1>, ref m: Idx<1>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 1, 1>::map", 0, (ref a: Matrix<S, 1, 1>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 1, 1>::index", 0, (ref a: Matrix<S, 1, 1>, ref i: Idx<1>, ref j: Idx<1>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 1, 1>::index_mut", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: S, ref i: Idx<1>, ref j: Idx<1>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 1, 1>::index_mut pair", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: S, ref i: Idx<1>, ref j: Idx<1>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 1, 1>::try_cast f64", 0, (ref a: Matrix<S, 1, 1>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 1, 1>::try_cast f32", 0, (ref a: Matrix<S, 1, 1>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 1, 1>::try_cast i32", 0, (ref a: Matrix<S, 1, 1>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 1, 1>::try_cast u8", 0, (ref a: Matrix<S, 1, 1>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 2, 2>::row", 0, (ref a: Matrix<S, 2, 2>, ref i: Idx<2>) => a.row(i.0));
    op!(v, "Matrix<S, 2, 2>::column", 0, (ref a: Matrix<S, 2, 2>, ref i: Idx<2>) => a.column(i.0));
    op!(v, "Matrix<S, 2, 2>::swap_rows", INPLACE, (mut a: Matrix<S, 2, 2>, ref i: Idx<2>, ref j: Idx<2>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 2, 2>::swap_columns", INPLACE, (mut a: Matrix<S, 2, 2>, ref i: Idx<2>, ref j: Idx<2>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 2, 2>::swap", INPLACE, (mut a: Matrix<S, 2, 2>, ref i: Idx<2>, ref j: Idx<2>, ref l: Idx<2>, ref m: Idx<2>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 2, 2>::map", 0, (ref a: Matrix<S, 2, 2>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 2, 2>::index", 0, (ref a: Matrix<S, 2, 2>, ref i: Idx<2>, ref j: Idx<2>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 2, 2>::index_mut", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: S, ref i: Idx<2>, ref j: Idx<2>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 2, 2>::index_mut pair", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: S, ref i: Idx<2>, ref j: Idx<2>) => a[(i.0, j.0)] = b);
}
}
mod sc_55 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 2, 2>::try_cast f64", 0, (ref a: Matrix<S, 2, 2>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 2, 2>::try_cast f32", 0, (ref a: Matrix<S, 2, 2>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 2, 2>::try_cast i32", 0, (ref a: Matrix<S, 2, 2>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 2, 2>::try_cast u8", 0, (ref a: Matrix<S, 2, 2>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 3, 3>::row", 0, (ref a: Matrix<S, 3, 3>, ref i: Idx<3>) => a.row(i.0));
    op!(v, "Matrix<S, 3, 3>::column", 0, (ref a: Matrix<S, 3, 3>, ref i: Idx<3>) => a.column(i.0));
    op!(v, "Matrix<S, 3, 3>::swap_rows", INPLACE, (mut a: Matrix<S, 3, 3>, ref i: Idx<3>, ref j: Idx<3>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 3, 3>::swap_columns", INPLACE, (mut a: Matrix<S, 3, 3>, ref i: Idx<3>, ref j: Idx<3>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 3, 3>::swap", INPLACE, (mut a: Matrix<S, 3, 3>, ref i: Idx<3>, ref j: Idx<3>, ref l: Idx<3>, ref m: Idx<3>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 3, 3>::map", 0, (ref a: Matrix<S, 3, 3>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 3, 3>::index", 0, (ref a: Matrix<S, 3, 3>, ref i: Idx<3>, ref j: Idx<3>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 3, 3>::index_mut", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: S, ref i: Idx<3>, ref j: Idx<3>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 3, 3>::index_mut pair", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: S, ref i: Idx<3>, ref j: Idx<3>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 3, 3>::try_cast f64", 0, (ref a: Matrix<S, 3, 3>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 3, 3>::try_cast f32", 0, (ref a: Matrix<S, 3, 3>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 3, 3>::try_cast i32", 0, (ref a: Matrix<S, 3, 3>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 3, 3>::try_cast u8", 0, (ref a: Matrix<S, 3, 3>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 4, 4>::row", 0, (ref a: Matrix<S, 4, 4>, ref i: Idx<4>) => a.row(i.0));
    op!(v, "Matrix<S, 4, 4>::column", 0, (ref a: Matrix<S, 4, 4>, ref i: Idx<4>) => a.column(i.0));
    op!(v, "Matrix<S, 4, 4>::swap_rows", INPLACE, (mut a: Matrix<S, 4, 4>, ref i: Idx<4>, ref j: Idx<4>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 4, 4>::swap_columns", INPLACE, (mut a: Matrix<S, 4, 4>, ref i: Idx<4>, ref j: Idx<4>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 4, 4>::swap", INPLACE, (mut a: Matrix<S, 4, 4>, ref i: Idx<4>, ref j: Idx<4>, ref l: Idx<4>, ref m: Idx<4>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 4, 4>::map", 0, (ref a: Matrix<S, 4, 4>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 4, 4>::index", 0, (ref a: Matrix<S, 4, 4>, ref i: Idx<4>, ref j: Idx<4>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 4, 4>::index_mut", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: S, ref i: Idx<4>, ref j: Idx<4>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 4, 4>::index_mut pair", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: S, ref i: Idx<4>, ref j: Idx<4>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 4, 4>::try_cast f64", 0, (ref a: Matrix<S, 4, 4>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 4, 4>::try_cast f32", 0, (ref a: Matrix<S, 4, 4>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 4, 4>::try_cast i32", 0, (ref a: Matrix<S, 4, 4>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 4, 4>::try_cast u8", 0, (ref a: Matrix<S, 4, 4>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 1, 2>::row", 0, (ref a: Matrix<S, 1, 2>, ref i: Idx<1>) => a.row(i.0));
    op!(v, "Matrix<S, 1, 2>::column", 0, (ref a: Matrix<S, 1, 2>, ref i: Idx<2>) => a.column(i.0));
    op!(v, "Matrix<S, 1, 2>::swap_rows", INPLACE, (mut a: Matrix<S, 1, 2>, ref i: Idx<1>, ref j: Idx<1>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 1, 2>::swap_columns", INPLACE, (mut a: Matrix<S, 1, 2>, ref i: Idx<2>, ref j: Idx<2>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 1, 2>::swap", INPLACE, (mut a: Matrix<S, 1, 2>, ref i: Idx<2>, ref j: Idx<1>, ref l: Idx<2>, ref m: Idx<1>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 1, 2>::map", 0, (ref a: Matrix<S, 1, 2>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 1, 2>::index", 0, (ref a: Matrix<S, 1, 2>, ref i: Idx<2>, ref j: Idx<1>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 1, 2>::index_mut", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: S, ref i: Idx<2>, ref j: Idx<1>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 1, 2>::index_mut pair", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: S, ref i: Idx<2>, ref j: Idx<1>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 1, 2>::try_cast f64", 0, (ref a: Matrix<S, 1, 2>) => a.try_cast::<f64>());
}
}
mod sc_56 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 2>::try_cast f32", 0, (ref a: Matrix<S, 1, 2>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 1, 2>::try_cast i32", 0, (ref a: Matrix<S, 1, 2>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 1, 2>::try_cast u8", 0, (ref a: Matrix<S, 1, 2>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 1, 3>::row", 0, (ref a: Matrix<S, 1, 3>, ref i: Idx<1>) => a.row(i.0));
    op!(v, "Matrix<S, 1, 3>::column", 0, (ref a: Matrix<S, 1, 3>, ref i: Idx<3>) => a.column(i.0));
    op!(v, "Matrix<S, 1, 3>::swap_rows", INPLACE, (mut a: Matrix<S, 1, 3>, ref i: Idx<1>, ref j: Idx<1>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 1, 3>::swap_columns", INPLACE, (mut a: Matrix<S, 1, 3>, ref i: Idx<3>, ref j: Idx<3>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 1, 3>::swap", INPLACE, (mut a: Matrix<S, 1, 3>, ref i: Idx<3>, ref j: Idx<1>, ref l: Idx<3>, ref m: Idx<1>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 1, 3>::map", 0, (ref a: Matrix<S, 1, 3>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 1, 3>::index", 0, (ref a: Matrix<S, 1, 3>, ref i: Idx<3>, ref j: Idx<1>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 1, 3>::index_mut", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: S, ref i: Idx<3>, ref j: Idx<1>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 1, 3>::index_mut pair", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: S, ref i: Idx<3>, ref j: Idx<1>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 1, 3>::try_cast f64", 0, (ref a: Matrix<S, 1, 3>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 1, 3>::try_cast f32", 0, (ref a: Matrix<S, 1, 3>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 1, 3>::try_cast i32", 0, (ref a: Matrix<S, 1, 3>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 1, 3>::try_cast u8", 0, (ref a: Matrix<S, 1, 3>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 1, 4>::row", 0, (ref a: Matrix<S, 1, 4>, ref i: Idx<1>) => a.row(i.0));
    op!(v, "Matrix<S, 1, 4>::column", 0, (ref a: Matrix<S, 1, 4>, ref i: Idx<4>) => a.column(i.0));
    op!(v, "Matrix<S, 1, 4>::swap_rows", INPLACE, (mut a: Matrix<S, 1, 4>, ref i: Idx<1>, ref j: Idx<1>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 1, 4>::swap_columns", INPLACE, (mut a: Matrix<S, 1, 4>, ref i: Idx<4>, ref j: Idx<4>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 1, 4>::swap", INPLACE, (mut a: Matrix<S, 1, 4>, ref i: Idx<4>, ref j: Idx<1>, ref l: Idx<4>, ref m: Idx<1>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 1, 4>::map", 0, (ref a: Matrix<S, 1, 4>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 1, 4>::index", 0, (ref a: Matrix<S, 1, 4>, ref i: Idx<4>, ref j: Idx<1>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 1, 4>::index_mut", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: S, ref i: Idx<4>, ref j: Idx<1>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 1, 4>::index_mut pair", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: S, ref i: Idx<4>, ref j: Idx<1>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 1, 4>::try_cast f64", 0, (ref a: Matrix<S, 1, 4>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 1, 4>::try_cast f32", 0, (ref a: Matrix<S, 1, 4>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 1, 4>::try_cast i32", 0, (ref a: Matrix<S, 1, 4>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 1, 4>::try_cast u8", 0, (ref a: Matrix<S, 1, 4>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 2, 3>::row", 0, (ref a: Matrix<S, 2, 3>, ref i: Idx<2>) => a.row(i.0));
    op!(v, "Matrix<S, 2, 3>::column", 0, (ref a: Matrix<S, 2, 3>, ref i: Idx<3>) => a.column(i.0));
    op!(v, "Matrix<S, 2, 3>::swap_rows", INPLACE, (mut a: Matrix<S, 2, 3>, ref i: Idx<2>, ref j: Idx<2>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 2, 3>::swap_columns", INPLACE, (mut a: Matrix<S, 2, 3>, ref i: Idx<3>, ref j: Idx<3>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 2, 3>::swap", INPLACE, (mut a: Matrix<S, 2, 3>, ref i: Idx<3>, ref j: Idx<2>, ref l: Idx<3>, ref m: Idx<2>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 2, 3>::map", 0, (ref a: Matrix<S, 2, 3>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 2, 3>::index", 0, (ref a: Matrix<S, 2, 3>, ref i: Idx<3>, ref j: Idx<2>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 2, 3>::index_mut", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: S, ref i: Idx<3>, ref j: Idx<2>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 2, 3>::index_mut pair", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: S, ref i: Idx<3>, ref j: Idx<2>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 2, 3>::try_cast f64", 0, (ref a: Matrix<S, 2, 3>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 2, 3>::try_cast f32", 0, (ref a: Matrix<S, 2, 3>) => a.try_cast::<f32>());
}
}
mod sc_57 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 2, 3>::try_cast i32", 0, (ref a: Matrix<S, 2, 3>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 2, 3>::try_cast u8", 0, (ref a: Matrix<S, 2, 3>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 3, 2>::row", 0, (ref a: Matrix<S, 3, 2>, ref i: Idx<3>) => a.row(i.0));
    op!(v, "Matrix<S, 3, 2>::column", 0, (ref a: Matrix<S, 3, 2>, ref i: Idx<2>) => a.column(i.0));
    op!(v, "Matrix<S, 3, 2>::swap_rows", INPLACE, (mut a: Matrix<S, 3, 2>, ref i: Idx<3>, ref j: Idx<3>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 3, 2>::swap_columns", INPLACE, (mut a: Matrix<S, 3, 2>, ref i: Idx<2>, ref j: Idx<2>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 3, 2>::swap", INPLACE, (mut a: Matrix<S, 3, 2>, ref i: Idx<2>, ref j: Idx<3>, ref l: Idx<2>, ref m: Idx<3>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 3, 2>::map", 0, (ref a: Matrix<S, 3, 2>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 3, 2>::index", 0, (ref a: Matrix<S, 3, 2>, ref i: Idx<2>, ref j: Idx<3>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 3, 2>::index_mut", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: S, ref i: Idx<2>, ref j: Idx<3>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 3, 2>::index_mut pair", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: S, ref i: Idx<2>, ref j: Idx<3>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 3, 2>::try_cast f64", 0, (ref a: Matrix<S, 3, 2>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 3, 2>::try_cast f32", 0, (ref a: Matrix<S, 3, 2>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 3, 2>::try_cast i32", 0, (ref a: Matrix<S, 3, 2>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 3, 2>::try_cast u8", 0, (ref a: Matrix<S, 3, 2>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 2, 4>::row", 0, (ref a: Matrix<S, 2, 4>, ref i: Idx<2>) => a.row(i.0));
    op!(v, "Matrix<S, 2, 4>::column", 0, (ref a: Matrix<S, 2, 4>, ref i: Idx<4>) => a.column(i.0));
    op!(v, "Matrix<S, 2, 4>::swap_rows", INPLACE, (mut a: Matrix<S, 2, 4>, ref i: Idx<2>, ref j: Idx<2>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 2, 4>::swap_columns", INPLACE, (mut a: Matrix<S, 2, 4>, ref i: Idx<4>, ref j: Idx<4>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 2, 4>::swap", INPLACE, (mut a: Matrix<S, 2, 4>, ref i: Idx<4>, ref j: Idx<2>, ref l: Idx<4>, ref m: Idx<2>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 2, 4>::map", 0, (ref a: Matrix<S, 2, 4>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 2, 4>::index", 0, (ref a: Matrix<S, 2, 4>, ref i: Idx<4>, ref j: Idx<2>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 2, 4>::index_mut", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: S, ref i: Idx<4>, ref j: Idx<2>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 2, 4>::index_mut pair", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: S, ref i: Idx<4>, ref j: Idx<2>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 2, 4>::try_cast f64", 0, (ref a: Matrix<S, 2, 4>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 2, 4>::try_cast f32", 0, (ref a: Matrix<S, 2, 4>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 2, 4>::try_cast i32", 0, (ref a: Matrix<S, 2, 4>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 2, 4>::try_cast u8", 0, (ref a: Matrix<S, 2, 4>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 4, 2>::row", 0, (ref a: Matrix<S, 4, 2>, ref i: Idx<4>) => a.row(i.0));
    op!(v, "Matrix<S, 4, 2>::column", 0, (ref a: Matrix<S, 4, 2>, ref i: Idx<2>) => a.column(i.0));
    op!(v, "Matrix<S, 4, 2>::swap_rows", INPLACE, (mut a: Matrix<S, 4, 2>, ref i: Idx<4>, ref j: Idx<4>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 4, 2>::swap_columns", INPLACE, (mut a: Matrix<S, 4, 2>, ref i: Idx<2>, ref j: Idx<2>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 4, 2>::swap", INPLACE, (mut a: Matrix<S, 4, 2>, ref i: Idx<2>, ref j: Idx<4>, ref l: Idx<2>, ref m: Idx<4>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 4, 2>::map", 0, (ref a: Matrix<S, 4, 2>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 4, 2>::index", 0, (ref a: Matrix<S, 4, 2>, ref i: Idx<2>, ref j: Idx<4>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 4, 2>::index_mut", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: S, ref i: Idx<2>, ref j: Idx<4>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 4, 2>::index_mut pair", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: S, ref i: Idx<2>, ref j: Idx<4>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 4, 2>::try_cast f64", 0, (ref a: Matrix<S, 4, 2>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 4, 2>::try_cast f32", 0, (ref a: Matrix<S, 4, 2>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 4, 2>::try_cast i32", 0, (ref a: Matrix<S, 4, 2>) => a.try_cast::<i32>());
}
}
mod sc_58 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 2>::try_cast u8", 0, (ref a: Matrix<S, 4, 2>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 3, 4>::row", 0, (ref a: Matrix<S, 3, 4>, ref i: Idx<3>) => a.row(i.0));
    op!(v, "Matrix<S, 3, 4>::column", 0, (ref a: Matrix<S, 3, 4>, ref i: Idx<4>) => a.column(i.0));
    op!(v, "Matrix<S, 3, 4>::swap_rows", INPLACE, (mut a: Matrix<S, 3, 4>, ref i: Idx<3>, ref j: Idx<3>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 3, 4>::swap_columns", INPLACE, (mut a: Matrix<S, 3, 4>, ref i: Idx<4>, ref j: Idx<4>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 3, 4>::swap", INPLACE, (mut a: Matrix<S, 3, 4>, ref i: Idx<4>, ref j: Idx<3>, ref l: Idx<4>, ref m: Idx<3>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 3, 4>::map", 0, (ref a: Matrix<S, 3, 4>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 3, 4>::index", 0, (ref a: Matrix<S, 3, 4>, ref i: Idx<4>, ref j: Idx<3>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 3, 4>::index_mut", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: S, ref i: Idx<4>, ref j: Idx<3>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 3, 4>::index_mut pair", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: S, ref i: Idx<4>, ref j: Idx<3>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 3, 4>::try_cast f64", 0, (ref a: Matrix<S, 3, 4>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 3, 4>::try_cast f32", 0, (ref a: Matrix<S, 3, 4>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 3, 4>::try_cast i32", 0, (ref a: Matrix<S, 3, 4>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 3, 4>::try_cast u8", 0, (ref a: Matrix<S, 3, 4>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 4, 3>::row", 0, (ref a: Matrix<S, 4, 3>, ref i: Idx<4>) => a.row(i.0));
    op!(v, "Matrix<S, 4, 3>::column", 0, (ref a: Matrix<S, 4, 3>, ref i: Idx<3>) => a.column(i.0));
    op!(v, "Matrix<S, 4, 3>::swap_rows", INPLACE, (mut a: Matrix<S, 4, 3>, ref i: Idx<4>, ref j: Idx<4>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 4, 3>::swap_columns", INPLACE, (mut a: Matrix<S, 4, 3>, ref i: Idx<3>, ref j: Idx<3>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 4, 3>::swap", INPLACE, (mut a: Matrix<S, 4, 3>, ref i: Idx<3>, ref j: Idx<4>, ref l: Idx<3>, ref m: Idx<4>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 4, 3>::map", 0, (ref a: Matrix<S, 4, 3>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 4, 3>::index", 0, (ref a: Matrix<S, 4, 3>, ref i: Idx<3>, ref j: Idx<4>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 4, 3>::index_mut", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: S, ref i: Idx<3>, ref j: Idx<4>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 4, 3>::index_mut pair", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: S, ref i: Idx<3>, ref j: Idx<4>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 4, 3>::try_cast f64", 0, (ref a: Matrix<S, 4, 3>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 4, 3>::try_cast f32", 0, (ref a: Matrix<S, 4, 3>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 4, 3>::try_cast i32", 0, (ref a: Matrix<S, 4, 3>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 4, 3>::try_cast u8", 0, (ref a: Matrix<S, 4, 3>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 4, 1>::row", 0, (ref a: Matrix<S, 4, 1>, ref i: Idx<4>) => a.row(i.0));
    op!(v, "Matrix<S, 4, 1>::column", 0, (ref a: Matrix<S, 4, 1>, ref i: Idx<1>) => a.column(i.0));
    op!(v, "Matrix<S, 4, 1>::swap_rows", INPLACE, (mut a: Matrix<S, 4, 1>, ref i: Idx<4>, ref j: Idx<4>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 4, 1>::swap_columns", INPLACE, (mut a: Matrix<S, 4, 1>, ref i: Idx<1>, ref j: Idx<1>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 4, 1>::swap", INPLACE, (mut a: Matrix<S, 4, 1>, ref i: Idx<1>, ref j: Idx<4>, ref l: Idx<1>, ref m: Idx<4>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 4, 1>::map", 0, (ref a: Matrix<S, 4, 1>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 4, 1>::index", 0, (ref a: Matrix<S, 4, 1>, ref i: Idx<1>, ref j: Idx<4>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 4, 1>::index_mut", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: S, ref i: Idx<1>, ref j: Idx<4>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 4, 1>::index_mut pair", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: S, ref i: Idx<1>, ref j: Idx<4>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 4, 1>::try_cast f64", 0, (ref a: Matrix<S, 4, 1>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 4, 1>::try_cast f32", 0, (ref a: Matrix<S, 4, 1>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 4, 1>::try_cast i32", 0, (ref a: Matrix<S, 4, 1>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 4, 1>::try_cast u8", 0, (ref a: Matrix<S, 4, 1>) => a.try_cast::<u8>());
}
}
mod sc_59 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 5, 5>::row", 0, (ref a: Matrix<S, 5, 5>, ref i: Idx<5>) => a.row(i.0));
    op!(v, "Matrix<S, 5, 5>::column", 0, (ref a: Matrix<S, 5, 5>, ref i: Idx<5>) => a.column(i.0));
    op!(v, "Matrix<S, 5, 5>::swap_rows", INPLACE, (mut a: Matrix<S, 5, 5>, ref i: Idx<5>, ref j: Idx<5>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 5, 5>::swap_columns", INPLACE, (mut a: Matrix<S, 5, 5>, ref i: Idx<5>, ref j: Idx<5>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 5, 5>::swap", INPLACE, (mut a: Matrix<S, 5, 5>, ref i: Idx<5>, ref j: Idx<5>, ref l: Idx<5>, ref m: Idx<5>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 5, 5>::map", 0, (ref a: Matrix<S, 5, 5>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 5, 5>::index", 0, (ref a: Matrix<S, 5, 5>, ref i: Idx<5>, ref j: Idx<5>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 5, 5>::index_mut", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: S, ref i: Idx<5>, ref j: Idx<5>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 5, 5>::index_mut pair", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: S, ref i: Idx<5>, ref j: Idx<5>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 5, 5>::try_cast f64", 0, (ref a: Matrix<S, 5, 5>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 5, 5>::try_cast f32", 0, (ref a: Matrix<S, 5, 5>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 5, 5>::try_cast i32", 0, (ref a: Matrix<S, 5, 5>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 5, 5>::try_cast u8", 0, (ref a: Matrix<S, 5, 5>) => a.try_cast::<u8>());
    op!(v, "Matrix<S, 6, 2>::row", 0, (ref a: Matrix<S, 6, 2>, ref i: Idx<6>) => a.row(i.0));
    op!(v, "Matrix<S, 6, 2>::column", 0, (ref a: Matrix<S, 6, 2>, ref i: Idx<2>) => a.column(i.0));
    op!(v, "Matrix<S, 6, 2>::swap_rows", INPLACE, (mut a: Matrix<S, 6, 2>, ref i: Idx<6>, ref j: Idx<6>) => a.swap_rows(i.0, j.0));
    op!(v, "Matrix<S, 6, 2>::swap_columns", INPLACE, (mut a: Matrix<S, 6, 2>, ref i: Idx<2>, ref j: Idx<2>) => a.swap_columns(i.0, j.0));
    op!(v, "Matrix<S, 6, 2>::swap", INPLACE, (mut a: Matrix<S, 6, 2>, ref i: Idx<2>, ref j: Idx<6>, ref l: Idx<2>, ref m: Idx<6>) => a.swap((i.0, j.0), (l.0, m.0)));
    op!(v, "Matrix<S, 6, 2>::map", 0, (ref a: Matrix<S, 6, 2>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Matrix<S, 6, 2>::index", 0, (ref a: Matrix<S, 6, 2>, ref i: Idx<2>, ref j: Idx<6>) => (a[i.0][j.0], a[(i.0, j.0)]));
    op!(v, "Matrix<S, 6, 2>::index_mut", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: S, ref i: Idx<2>, ref j: Idx<6>) => a[i.0][j.0] = b);
    op!(v, "Matrix<S, 6, 2>::index_mut pair", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: S, ref i: Idx<2>, ref j: Idx<6>) => a[(i.0, j.0)] = b);
    op!(v, "Matrix<S, 6, 2>::try_cast f64", 0, (ref a: Matrix<S, 6, 2>) => a.try_cast::<f64>());
    op!(v, "Matrix<S, 6, 2>::try_cast f32", 0, (ref a: Matrix<S, 6, 2>) => a.try_cast::<f32>());
    op!(v, "Matrix<S, 6, 2>::try_cast i32", 0, (ref a: Matrix<S, 6, 2>) => a.try_cast::<i32>());
    op!(v, "Matrix<S, 6, 2>::try_cast u8", 0, (ref a: Matrix<S, 6, 2>) => a.try_cast::<u8>());
    op!(v, "Vector<S, 1>::map", 0, (ref a: Vector<S, 1>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Vector<S, 1>::index", 0, (ref a: Vector<S, 1>, ref i: Idx<1>) => a[i.0]);
    op!(v, "Vector<S, 1>::index_mut", INPLACE, (mut a: Vector<S, 1>, ref b: S, ref i: Idx<1>) => a[i.0] = b);
    op!(v, "Vector<S, 1>::try_cast f64", 0, (ref a: Vector<S, 1>) => a.try_cast::<f64>());
    op!(v, "Vector<S, 1>::try_cast f32", 0, (ref a: Vector<S, 1>) => a.try_cast::<f32>());
    op!(v, "Vector<S, 1>::try_cast i32", 0, (ref a: Vector<S, 1>) => a.try_cast::<i32>());
    op!(v, "Vector<S, 1>::try_cast u8", 0, (ref a: Vector<S, 1>) => a.try_cast::<u8>());
    op!(v, "Vector<S, 2>::map", 0, (ref a: Vector<S, 2>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Vector<S, 2>::index", 0, (ref a: Vector<S, 2>, ref i: Idx<2>) => a[i.0]);
    op!(v, "Vector<S, 2>::index_mut", INPLACE, (mut a: Vector<S, 2>, ref b: S, ref i: Idx<2>) => a[i.0] = b);
    op!(v, "Vector<S, 2>::try_cast f64", 0, (ref a: Vector<S, 2>) => a.try_cast::<f64>());
    op!(v, "Vector<S, 2>::try_cast f32", 0, (ref a: Vector<S, 2>) => a.try_cast::<f32>());
    op!(v, "Vector<S, 2>::try_cast i32", 0, (ref a: Vector<S, 2>) => a.try_cast::<i32>());
    op!(v, "Vector<S, 2>::try_cast u8", 0, (ref a: Vector<S, 2>) => a.try_cast::<u8>());
}
}
mod sc_60 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 3>::map", 0, (ref a: Vector<S, 3>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Vector<S, 3>::index", 0, (ref a: Vector<S, 3>, ref i: Idx<3>) => a[i.0]);
    op!(v, "Vector<S, 3>::index_mut", INPLACE, (mut a: Vector<S, 3>, ref b: S, ref i: Idx<3>) => a[i.0] = b);
    op!(v, "Vector<S, 3>::try_cast f64", 0, (ref a: Vector<S, 3>) => a.try_cast::<f64>());
    op!(v, "Vector<S, 3>::try_cast f32", 0, (ref a: Vector<S, 3>) => a.try_cast::<f32>());
    op!(v, "Vector<S, 3>::try_cast i32", 0, (ref a: Vector<S, 3>) => a.try_cast::<i32>());
    op!(v, "Vector<S, 3>::try_cast u8", 0, (ref a: Vector<S, 3>) => a.try_cast::<u8>());
    op!(v, "Vector<S, 4>::map", 0, (ref a: Vector<S, 4>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Vector<S, 4>::index", 0, (ref a: Vector<S, 4>, ref i: Idx<4>) => a[i.0]);
    op!(v, "Vector<S, 4>::index_mut", INPLACE, (mut a: Vector<S, 4>, ref b: S, ref i: Idx<4>) => a[i.0] = b);
    op!(v, "Vector<S, 4>::try_cast f64", 0, (ref a: Vector<S, 4>) => a.try_cast::<f64>());
    op!(v, "Vector<S, 4>::try_cast f32", 0, (ref a: Vector<S, 4>) => a.try_cast::<f32>());
    op!(v, "Vector<S, 4>::try_cast i32", 0, (ref a: Vector<S, 4>) => a.try_cast::<i32>());
    op!(v, "Vector<S, 4>::try_cast u8", 0, (ref a: Vector<S, 4>) => a.try_cast::<u8>());
    op!(v, "Vector<S, 5>::map", 0, (ref a: Vector<S, 5>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Vector<S, 5>::index", 0, (ref a: Vector<S, 5>, ref i: Idx<5>) => a[i.0]);
    op!(v, "Vector<S, 5>::index_mut", INPLACE, (mut a: Vector<S, 5>, ref b: S, ref i: Idx<5>) => a[i.0] = b);
    op!(v, "Vector<S, 5>::try_cast f64", 0, (ref a: Vector<S, 5>) => a.try_cast::<f64>());
    op!(v, "Vector<S, 5>::try_cast f32", 0, (ref a: Vector<S, 5>) => a.try_cast::<f32>());
    op!(v, "Vector<S, 5>::try_cast i32", 0, (ref a: Vector<S, 5>) => a.try_cast::<i32>());
    op!(v, "Vector<S, 5>::try_cast u8", 0, (ref a: Vector<S, 5>) => a.try_cast::<u8>());
    op!(v, "Vector<S, 9>::map", 0, (ref a: Vector<S, 9>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Vector<S, 9>::index", 0, (ref a: Vector<S, 9>, ref i: Idx<9>) => a[i.0]);
    op!(v, "Vector<S, 9>::index_mut", INPLACE, (mut a: Vector<S, 9>, ref b: S, ref i: Idx<9>) => a[i.0] = b);
    op!(v, "Vector<S, 9>::try_cast f64", 0, (ref a: Vector<S, 9>) => a.try_cast::<f64>());
    op!(v, "Vector<S, 9>::try_cast f32", 0, (ref a: Vector<S, 9>) => a.try_cast::<f32>());
    op!(v, "Vector<S, 9>::try_cast i32", 0, (ref a: Vector<S, 9>) => a.try_cast::<i32>());
    op!(v, "Vector<S, 9>::try_cast u8", 0, (ref a: Vector<S, 9>) => a.try_cast::<u8>());
    op!(v, "Point<S, 1>::map", 0, (ref a: Point<S, 1>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Point<S, 1>::index", 0, (ref a: Point<S, 1>, ref i: Idx<1>) => a[i.0]);
    op!(v, "Point<S, 1>::index_mut", INPLACE, (mut a: Point<S, 1>, ref b: S, ref i: Idx<1>) => a[i.0] = b);
    op!(v, "Point<S, 1>::try_cast f64", 0, (ref a: Point<S, 1>) => a.try_cast::<f64>());
    op!(v, "Point<S, 1>::try_cast f32", 0, (ref a: Point<S, 1>) => a.try_cast::<f32>());
    op!(v, "Point<S, 1>::try_cast i32", 0, (ref a: Point<S, 1>) => a.try_cast::<i32>());
    op!(v, "Point<S, 1>::try_cast u8", 0, (ref a: Point<S, 1>) => a.try_cast::<u8>());
    op!(v, "Point<S, 2>::map", 0, (ref a: Point<S, 2>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Point<S, 2>::index", 0, (ref a: Point<S, 2>, ref i: Idx<2>) => a[i.0]);
    op!(v, "Point<S, 2>::index_mut", INPLACE, (mut a: Point<S, 2>, ref b: S, ref i: Idx<2>) => a[i.0] = b);
    op!(v, "Point<S, 2>::try_cast f64", 0, (ref a: Point<S, 2>) => a.try_cast::<f64>());
    op!(v, "Point<S, 2>::try_cast f32", 0, (ref a: Point<S, 2>) => a.try_cast::<f32>());
}
}
mod sc_61 {
use super::*;
#[inline(never)]
pub fn reg<S: Sc>(v: &mut Vec<Op>) {
    op!(v, "Point<S, 2>::try_cast i32", 0, (ref a: Point<S, 2>) => a.try_cast::<i32>());
    op!(v, "Point<S, 2>::try_cast u8", 0, (ref a: Point<S, 2>) => a.try_cast::<u8>());
    op!(v, "Point<S, 3>::map", 0, (ref a: Point<S, 3>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Point<S, 3>::index", 0, (ref a: Point<S, 3>, ref i: Idx<3>) => a[i.0]);
    op!(v, "Point<S, 3>::index_mut", INPLACE, (mut a: Point<S, 3>, ref b: S, ref i: Idx<3>) => a[i.0] = b);
    op!(v, "Point<S, 3>::try_cast f64", 0, (ref a: Point<S, 3>) => a.try_cast::<f64>());
    op!(v, "Point<S, 3>::try_cast f32", 0, (ref a: Point<S, 3>) => a.try_cast::<f32>());
    op!(v, "Point<S, 3>::try_cast i32", 0, (ref a: Point<S, 3>) => a.try_cast::<i32>());
    op!(v, "Point<S, 3>::try_cast u8", 0, (ref a: Point<S, 3>) => a.try_cast::<u8>());
    op!(v, "Point<S, 6>::map", 0, (ref a: Point<S, 6>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Point<S, 6>::index", 0, (ref a: Point<S, 6>, ref i: Idx<6>) => a[i.0]);
    op!(v, "Point<S, 6>::index_mut", INPLACE, (mut a: Point<S, 6>, ref b: S, ref i: Idx<6>) => a[i.0] = b);
    op!(v, "Point<S, 6>::try_cast f64", 0, (ref a: Point<S, 6>) => a.try_cast::<f64>());
    op!(v, "Point<S, 6>::try_cast f32", 0, (ref a: Point<S, 6>) => a.try_cast::<f32>());
    op!(v, "Point<S, 6>::try_cast i32", 0, (ref a: Point<S, 6>) => a.try_cast::<i32>());
    op!(v, "Point<S, 6>::try_cast u8", 0, (ref a: Point<S, 6>) => a.try_cast::<u8>());
    op!(v, "Complex<S>::map", 0, (ref a: Complex<S>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Complex<S>::index", 0, (ref a: Complex<S>, ref i: Idx<2>) => a[i.0]);
    op!(v, "Complex<S>::index_mut", INPLACE, (mut a: Complex<S>, ref b: S, ref i: Idx<2>) => a[i.0] = b);
    op!(v, "Complex<S>::try_cast f64", 0, (ref a: Complex<S>) => a.try_cast::<f64>());
    op!(v, "Complex<S>::try_cast f32", 0, (ref a: Complex<S>) => a.try_cast::<f32>());
    op!(v, "Complex<S>::try_cast i32", 0, (ref a: Complex<S>) => a.try_cast::<i32>());
    op!(v, "Complex<S>::try_cast u8", 0, (ref a: Complex<S>) => a.try_cast::<u8>());
    op!(v, "Quaternion<S>::map", 0, (ref a: Quaternion<S>) => { let mut k = S::one(); a.map(move |x| { k += S::one(); x * k }) });
    op!(v, "Quaternion<S>::index", 0, (ref a: Quaternion<S>, ref i: Idx<4>) => a[i.0]);
    op!(v, "Quaternion<S>::index_mut", INPLACE, (mut a: Quaternion<S>, ref b: S, ref i: Idx<4>) => a[i.0] = b);
    op!(v, "Quaternion<S>::try_cast f64", 0, (ref a: Quaternion<S>) => a.try_cast::<f64>());
    op!(v, "Quaternion<S>::try_cast f32", 0, (ref a: Quaternion<S>) => a.try_cast::<f32>());
    op!(v, "Quaternion<S>::try_cast i32", 0, (ref a: Quaternion<S>) => a.try_cast::<i32>());
    op!(v, "Quaternion<S>::try_cast u8", 0, (ref a: Quaternion<S>) => a.try_cast::<u8>());
    op!(v, "try_cast f64", 0, (ref a: S) => cglinalg_numeric::try_cast::<S, f64>(a));
    op!(v, "try_cast f32", 0, (ref a: S) => cglinalg_numeric::try_cast::<S, f32>(a));
    op!(v, "try_cast i32", 0, (ref a: S) => cglinalg_numeric::try_cast::<S, i32>(a));
    op!(v, "try_cast u32", 0, (ref a: S) => cglinalg_numeric::try_cast::<S, u32>(a));
    op!(v, "try_cast i64", 0, (ref a: S) => cglinalg_numeric::try_cast::<S, i64>(a));
    op!(v, "try_cast u8", 0, (ref a: S) => cglinalg_numeric::try_cast::<S, u8>(a));
}
}
pub fn reg_sc<S: Sc>(v: &mut Vec<Op>) {
    sc_0::reg::<S>(v);
    sc_1::reg::<S>(v);
    sc_2::reg::<S>(v);
    sc_3::reg::<S>(v);
    sc_4::reg::<S>(v);
    sc_5::reg::<S>(v);
    sc_6::reg::<S>(v);
    sc_7::reg::<S>(v);
    sc_8::reg::<S>(v);
    sc_9::reg::<S>(v);
    sc_10::reg::<S>(v);
    sc_11::reg::<S>(v);
    sc_12::reg::<S>(v);
    sc_13::reg::<S>(v);
    sc_14::reg::<S>(v);
    sc_15::reg::<S>(v);
    sc_16::reg::<S>(v);
    sc_17::reg::<S>(v);
    sc_18::reg::<S>(v);
    sc_19::reg::<S>(v);
    sc_20::reg::<S>(v);
    sc_21::reg::<S>(v);
    sc_22::reg::<S>(v);
    sc_23::reg::<S>(v);
    sc_24::reg::<S>(v);
    sc_25::reg::<S>(v);
    sc_26::reg::<S>(v);
    sc_27::reg::<S>(v);
    sc_28::reg::<S>(v);
    sc_29::reg::<S>(v);
    sc_30::reg::<S>(v);
    sc_31::reg::<S>(v);
    sc_32::reg::<S>(v);
    sc_33::reg::<S>(v);
    sc_34::reg::<S>(v);
    sc_35::reg::<S>(v);
    sc_36::reg::<S>(v);
    sc_37::reg::<S>(v);
    sc_38::reg::<S>(v);
    sc_39::reg::<S>(v);
    sc_40::reg::<S>(v);
    sc_41::reg::<S>(v);
    sc_42::reg::<S>(v);
    sc_43::reg::<S>(v);
    sc_44::reg::<S>(v);
    sc_45::reg::<S>(v);
    sc_46::reg::<S>(v);
    sc_47::reg::<S>(v);
    sc_48::reg::<S>(v);
    sc_49::reg::<S>(v);
    sc_50::reg::<S>(v);
    sc_51::reg::<S>(v);
    sc_52::reg::<S>(v);
    sc_53::reg::<S>(v);
    sc_54::reg::<S>(v);
    sc_55::reg::<S>(v);
    sc_56::reg::<S>(v);
    sc_57::reg::<S>(v);
    sc_58::reg::<S>(v);
    sc_59::reg::<S>(v);
    sc_60::reg::<S>(v);
    sc_61::reg::<S>(v);
}
mod sg_0 {
use super::*;
#[inline(never)]
pub fn reg<S: Sg>(v: &mut Vec<Op>) {
    op!(v, "Complex<S>::conjugate", 0, (ref a: Complex<S>) => <Complex<S>>::conjugate(a));
    op!(v, "Complex<S>::l1_norm", 0, (ref a: Complex<S>) => <Complex<S>>::l1_norm(a));
    op!(v, "-Complex<S>", 0, (ref a: Complex<S>) => -a);
    op!(v, "-&Complex<S>", 0, (ref a: Complex<S>) => -&a);
    op!(v, "Matrix<S, 1, 1>::neg_mut", INPLACE, (mut a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 2, 2>::neg_mut", INPLACE, (mut a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 3, 3>::neg_mut", INPLACE, (mut a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 4, 4>::neg_mut", INPLACE, (mut a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 1, 2>::neg_mut", INPLACE, (mut a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 1, 3>::neg_mut", INPLACE, (mut a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 1, 4>::neg_mut", INPLACE, (mut a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 2, 3>::neg_mut", INPLACE, (mut a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 3, 2>::neg_mut", INPLACE, (mut a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 2, 4>::neg_mut", INPLACE, (mut a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 4, 2>::neg_mut", INPLACE, (mut a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 3, 4>::neg_mut", INPLACE, (mut a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 4, 3>::neg_mut", INPLACE, (mut a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 4, 1>::neg_mut", INPLACE, (mut a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 5, 5>::neg_mut", INPLACE, (mut a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 6, 2>::neg_mut", INPLACE, (mut a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::neg_mut(&mut a));
    op!(v, "Matrix<S, 1, 1>::norm_squared", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::norm_squared(&a));
    op!(v, "Matrix<S, 1, 1>::magnitude_squared", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 1, 1>::metric_distance_squared", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 2, 2>::norm_squared", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::norm_squared(&a));
    op!(v, "Matrix<S, 2, 2>::magnitude_squared", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 2, 2>::metric_distance_squared", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 3, 3>::norm_squared", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::norm_squared(&a));
    op!(v, "Matrix<S, 3, 3>::magnitude_squared", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 3, 3>::metric_distance_squared", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 4, 4>::norm_squared", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::norm_squared(&a));
    op!(v, "Matrix<S, 4, 4>::magnitude_squared", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 4, 4>::metric_distance_squared", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 1, 2>::norm_squared", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::norm_squared(&a));
    op!(v, "Matrix<S, 1, 2>::magnitude_squared", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 1, 2>::metric_distance_squared", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 1, 3>::norm_squared", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::norm_squared(&a));
    op!(v, "Matrix<S, 1, 3>::magnitude_squared", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 1, 3>::metric_distance_squared", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 1, 4>::norm_squared", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::norm_squared(&a));
    op!(v, "Matrix<S, 1, 4>::magnitude_squared", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::magnitude_squared(&a));
}
}
mod sg_1 {
use super::*;
#[inline(never)]
pub fn reg<S: Sg>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 4>::metric_distance_squared", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 2, 3>::norm_squared", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::norm_squared(&a));
    op!(v, "Matrix<S, 2, 3>::magnitude_squared", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 2, 3>::metric_distance_squared", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 3, 2>::norm_squared", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::norm_squared(&a));
    op!(v, "Matrix<S, 3, 2>::magnitude_squared", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 3, 2>::metric_distance_squared", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 2, 4>::norm_squared", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::norm_squared(&a));
    op!(v, "Matrix<S, 2, 4>::magnitude_squared", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 2, 4>::metric_distance_squared", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 4, 2>::norm_squared", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::norm_squared(&a));
    op!(v, "Matrix<S, 4, 2>::magnitude_squared", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 4, 2>::metric_distance_squared", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 3, 4>::norm_squared", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::norm_squared(&a));
    op!(v, "Matrix<S, 3, 4>::magnitude_squared", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 3, 4>::metric_distance_squared", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 4, 3>::norm_squared", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::norm_squared(&a));
    op!(v, "Matrix<S, 4, 3>::magnitude_squared", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 4, 3>::metric_distance_squared", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 4, 1>::norm_squared", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::norm_squared(&a));
    op!(v, "Matrix<S, 4, 1>::magnitude_squared", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 4, 1>::metric_distance_squared", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 5, 5>::norm_squared", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::norm_squared(&a));
    op!(v, "Matrix<S, 5, 5>::magnitude_squared", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 5, 5>::metric_distance_squared", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 6, 2>::norm_squared", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::norm_squared(&a));
    op!(v, "Matrix<S, 6, 2>::magnitude_squared", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::magnitude_squared(&a));
    op!(v, "Matrix<S, 6, 2>::metric_distance_squared", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::metric_distance_squared(&a, &b));
    op!(v, "Matrix<S, 1, 1>::l1_norm", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::l1_norm(&a));
    op!(v, "Matrix<S, 1, 1>::linf_norm", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::linf_norm(&a));
    op!(v, "Matrix<S, 2, 2>::l1_norm", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::l1_norm(&a));
    op!(v, "Matrix<S, 2, 2>::linf_norm", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::linf_norm(&a));
    op!(v, "Matrix<S, 3, 3>::l1_norm", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::l1_norm(&a));
    op!(v, "Matrix<S, 3, 3>::linf_norm", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::linf_norm(&a));
    op!(v, "Matrix<S, 4, 4>::l1_norm", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::l1_norm(&a));
    op!(v, "Matrix<S, 4, 4>::linf_norm", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::linf_norm(&a));
    op!(v, "Matrix<S, 1, 2>::l1_norm", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::l1_norm(&a));
    op!(v, "Matrix<S, 1, 2>::linf_norm", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::linf_norm(&a));
    op!(v, "Matrix<S, 1, 3>::l1_norm", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::l1_norm(&a));
    op!(v, "Matrix<S, 1, 3>::linf_norm", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::linf_norm(&a));
}
}
mod sg_2 {
use super::*;
#[inline(never)]
pub fn reg<S: Sg>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 4>::l1_norm", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::l1_norm(&a));
    op!(v, "Matrix<S, 1, 4>::linf_norm", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::linf_norm(&a));
    op!(v, "Matrix<S, 2, 3>::l1_norm", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::l1_norm(&a));
    op!(v, "Matrix<S, 2, 3>::linf_norm", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::linf_norm(&a));
    op!(v, "Matrix<S, 3, 2>::l1_norm", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::l1_norm(&a));
    op!(v, "Matrix<S, 3, 2>::linf_norm", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::linf_norm(&a));
    op!(v, "Matrix<S, 2, 4>::l1_norm", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::l1_norm(&a));
    op!(v, "Matrix<S, 2, 4>::linf_norm", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::linf_norm(&a));
    op!(v, "Matrix<S, 4, 2>::l1_norm", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::l1_norm(&a));
    op!(v, "Matrix<S, 4, 2>::linf_norm", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::linf_norm(&a));
    op!(v, "Matrix<S, 3, 4>::l1_norm", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::l1_norm(&a));
    op!(v, "Matrix<S, 3, 4>::linf_norm", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::linf_norm(&a));
    op!(v, "Matrix<S, 4, 3>::l1_norm", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::l1_norm(&a));
    op!(v, "Matrix<S, 4, 3>::linf_norm", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::linf_norm(&a));
    op!(v, "Matrix<S, 4, 1>::l1_norm", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::l1_norm(&a));
    op!(v, "Matrix<S, 4, 1>::linf_norm", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::linf_norm(&a));
    op!(v, "Matrix<S, 5, 5>::l1_norm", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::l1_norm(&a));
    op!(v, "Matrix<S, 5, 5>::linf_norm", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::linf_norm(&a));
    op!(v, "Matrix<S, 6, 2>::l1_norm", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::l1_norm(&a));
    op!(v, "Matrix<S, 6, 2>::linf_norm", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::linf_norm(&a));
    op!(v, "Matrix<S, 1, 1>::determinant", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::determinant(&a));
    op!(v, "Matrix<S, 2, 2>::from_reflection", 0, (ref b: Unit<Vector<S, 2>>) => <Matrix<S, 2, 2>>::from_reflection(&b));
    op!(v, "Matrix<S, 2, 2>::determinant", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::determinant(&a));
    op!(v, "Matrix<S, 3, 3>::from_affine_reflection", 0, (ref b: Unit<Vector<S, 2>>, ref c: Point<S, 2>) => <Matrix<S, 3, 3>>::from_affine_reflection(&b, &c));
    op!(v, "Matrix<S, 3, 3>::from_reflection", 0, (ref b: Unit<Vector<S, 3>>) => <Matrix<S, 3, 3>>::from_reflection(&b));
    op!(v, "Matrix<S, 3, 3>::determinant", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::determinant(&a));
    op!(v, "Matrix<S, 3, 3>::cross_matrix", 0, (ref b: Vector<S, 3>) => <Matrix<S, 3, 3>>::cross_matrix(&b));
    op!(v, "Matrix<S, 4, 4>::from_affine_reflection", 0, (ref b: Unit<Vector<S, 3>>, ref c: Point<S, 3>) => <Matrix<S, 4, 4>>::from_affine_reflection(&b, &c));
    op!(v, "Matrix<S, 4, 4>::determinant", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::determinant(&a));
    op!(v, "-Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>) => -a);
    op!(v, "-Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>) => -a);
    op!(v, "-Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>) => -a);
    op!(v, "-Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>) => -a);
    op!(v, "-Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 2>) => -a);
    op!(v, "-Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 3>) => -a);
    op!(v, "-Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 4>) => -a);
    op!(v, "-Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 3>) => -a);
    op!(v, "-Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 2>) => -a);
    op!(v, "-Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 4>) => -a);
    op!(v, "-Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 2>) => -a);
}
}
mod sg_3 {
use super::*;
#[inline(never)]
pub fn reg<S: Sg>(v: &mut Vec<Op>) {
    op!(v, "-Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 4>) => -a);
    op!(v, "-Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 3>) => -a);
    op!(v, "-Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 1>) => -a);
    op!(v, "-Matrix<S, 5, 5>", 0, (ref a: Matrix<S, 5, 5>) => -a);
    op!(v, "-Matrix<S, 6, 2>", 0, (ref a: Matrix<S, 6, 2>) => -a);
    op!(v, "-&Matrix<S, 1, 1>", 0, (ref a: Matrix<S, 1, 1>) => -&a);
    op!(v, "-&Matrix<S, 2, 2>", 0, (ref a: Matrix<S, 2, 2>) => -&a);
    op!(v, "-&Matrix<S, 3, 3>", 0, (ref a: Matrix<S, 3, 3>) => -&a);
    op!(v, "-&Matrix<S, 4, 4>", 0, (ref a: Matrix<S, 4, 4>) => -&a);
    op!(v, "-&Matrix<S, 1, 2>", 0, (ref a: Matrix<S, 1, 2>) => -&a);
    op!(v, "-&Matrix<S, 1, 3>", 0, (ref a: Matrix<S, 1, 3>) => -&a);
    op!(v, "-&Matrix<S, 1, 4>", 0, (ref a: Matrix<S, 1, 4>) => -&a);
    op!(v, "-&Matrix<S, 2, 3>", 0, (ref a: Matrix<S, 2, 3>) => -&a);
    op!(v, "-&Matrix<S, 3, 2>", 0, (ref a: Matrix<S, 3, 2>) => -&a);
    op!(v, "-&Matrix<S, 2, 4>", 0, (ref a: Matrix<S, 2, 4>) => -&a);
    op!(v, "-&Matrix<S, 4, 2>", 0, (ref a: Matrix<S, 4, 2>) => -&a);
    op!(v, "-&Matrix<S, 3, 4>", 0, (ref a: Matrix<S, 3, 4>) => -&a);
    op!(v, "-&Matrix<S, 4, 3>", 0, (ref a: Matrix<S, 4, 3>) => -&a);
    op!(v, "-&Matrix<S, 4, 1>", 0, (ref a: Matrix<S, 4, 1>) => -&a);
    op!(v, "-&Matrix<S, 5, 5>", 0, (ref a: Matrix<S, 5, 5>) => -&a);
    op!(v, "-&Matrix<S, 6, 2>", 0, (ref a: Matrix<S, 6, 2>) => -&a);
    op!(v, "-Point<S, 1>", 0, (ref a: Point<S, 1>) => -a);
    op!(v, "-Point<S, 2>", 0, (ref a: Point<S, 2>) => -a);
    op!(v, "-Point<S, 3>", 0, (ref a: Point<S, 3>) => -a);
    op!(v, "-Point<S, 6>", 0, (ref a: Point<S, 6>) => -a);
    op!(v, "-&Point<S, 1>", 0, (ref a: Point<S, 1>) => -&a);
    op!(v, "-&Point<S, 2>", 0, (ref a: Point<S, 2>) => -&a);
    op!(v, "-&Point<S, 3>", 0, (ref a: Point<S, 3>) => -&a);
    op!(v, "-&Point<S, 6>", 0, (ref a: Point<S, 6>) => -&a);
    op!(v, "Quaternion<S>::conjugate", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::conjugate(&a));
    op!(v, "Quaternion<S>::conjugate_mut", INPLACE, (mut a: Quaternion<S>) => <Quaternion<S>>::conjugate_mut(&mut a));
    op!(v, "Quaternion<S>::squared", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::squared(&a));
    op!(v, "Quaternion<S>::half", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::half(&a));
    op!(v, "Quaternion<S>::l1_norm", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::l1_norm(&a));
    op!(v, "-Quaternion<S>", 0, (ref a: Quaternion<S>) => -a);
    op!(v, "-&Quaternion<S>", 0, (ref a: Quaternion<S>) => -&a);
    op!(v, "Vector<S, 1>::neg_mut", INPLACE, (mut a: Vector<S, 1>) => <Vector<S, 1>>::neg_mut(&mut a));
    op!(v, "Vector<S, 2>::neg_mut", INPLACE, (mut a: Vector<S, 2>) => <Vector<S, 2>>::neg_mut(&mut a));
    op!(v, "Vector<S, 3>::neg_mut", INPLACE, (mut a: Vector<S, 3>) => <Vector<S, 3>>::neg_mut(&mut a));
    op!(v, "Vector<S, 4>::neg_mut", INPLACE, (mut a: Vector<S, 4>) => <Vector<S, 4>>::neg_mut(&mut a));
}
}
mod sg_4 {
use super::*;
#[inline(never)]
pub fn reg<S: Sg>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 5>::neg_mut", INPLACE, (mut a: Vector<S, 5>) => <Vector<S, 5>>::neg_mut(&mut a));
    op!(v, "Vector<S, 9>::neg_mut", INPLACE, (mut a: Vector<S, 9>) => <Vector<S, 9>>::neg_mut(&mut a));
    op!(v, "Vector<S, 1>::l1_norm", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::l1_norm(&a));
    op!(v, "Vector<S, 2>::l1_norm", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::l1_norm(&a));
    op!(v, "Vector<S, 3>::l1_norm", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::l1_norm(&a));
    op!(v, "Vector<S, 4>::l1_norm", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::l1_norm(&a));
    op!(v, "Vector<S, 5>::l1_norm", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::l1_norm(&a));
    op!(v, "Vector<S, 9>::l1_norm", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::l1_norm(&a));
    op!(v, "Vector<S, 1>::linf_norm", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::linf_norm(&a));
    op!(v, "Vector<S, 2>::linf_norm", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::linf_norm(&a));
    op!(v, "Vector<S, 3>::linf_norm", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::linf_norm(&a));
    op!(v, "Vector<S, 4>::linf_norm", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::linf_norm(&a));
    op!(v, "Vector<S, 5>::linf_norm", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::linf_norm(&a));
    op!(v, "Vector<S, 9>::linf_norm", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::linf_norm(&a));
    op!(v, "-Vector<S, 1>", 0, (ref a: Vector<S, 1>) => -a);
    op!(v, "-Vector<S, 2>", 0, (ref a: Vector<S, 2>) => -a);
    op!(v, "-Vector<S, 3>", 0, (ref a: Vector<S, 3>) => -a);
    op!(v, "-Vector<S, 4>", 0, (ref a: Vector<S, 4>) => -a);
    op!(v, "-Vector<S, 5>", 0, (ref a: Vector<S, 5>) => -a);
    op!(v, "-Vector<S, 9>", 0, (ref a: Vector<S, 9>) => -a);
    op!(v, "-&Vector<S, 1>", 0, (ref a: Vector<S, 1>) => -&a);
    op!(v, "-&Vector<S, 2>", 0, (ref a: Vector<S, 2>) => -&a);
    op!(v, "-&Vector<S, 3>", 0, (ref a: Vector<S, 3>) => -&a);
    op!(v, "-&Vector<S, 4>", 0, (ref a: Vector<S, 4>) => -&a);
    op!(v, "-&Vector<S, 5>", 0, (ref a: Vector<S, 5>) => -&a);
    op!(v, "-&Vector<S, 9>", 0, (ref a: Vector<S, 9>) => -&a);
    op!(v, "Shear<S, 2>::shear_factor", 0, (ref a: Shear<S, 2>) => <Shear<S, 2>>::shear_factor(&a));
    op!(v, "Shear<S, 2>::origin", 0, (ref a: Shear<S, 2>) => <Shear<S, 2>>::origin(&a));
    op!(v, "Shear<S, 2>::direction", 0, (ref a: Shear<S, 2>) => <Shear<S, 2>>::direction(&a));
    op!(v, "Shear<S, 2>::normal", 0, (ref a: Shear<S, 2>) => <Shear<S, 2>>::normal(&a));
    op!(v, "Shear<S, 3>::shear_factor", 0, (ref a: Shear<S, 3>) => <Shear<S, 3>>::shear_factor(&a));
    op!(v, "Shear<S, 3>::origin", 0, (ref a: Shear<S, 3>) => <Shear<S, 3>>::origin(&a));
    op!(v, "Shear<S, 3>::direction", 0, (ref a: Shear<S, 3>) => <Shear<S, 3>>::direction(&a));
    op!(v, "Shear<S, 3>::normal", 0, (ref a: Shear<S, 3>) => <Shear<S, 3>>::normal(&a));
    op!(v, "Shear<S, 2>::apply_vector", 0, (ref a: Shear<S, 2>, ref b: Vector<S, 2>) => <Shear<S, 2>>::apply_vector(&a, &b));
    op!(v, "Shear<S, 2>::apply_point", 0, (ref a: Shear<S, 2>, ref b: Point<S, 2>) => <Shear<S, 2>>::apply_point(&a, &b));
    op!(v, "Shear<S, 2>::identity", 0, () => <Shear<S, 2>>::identity());
    op!(v, "Shear<S, 3>::apply_vector", 0, (ref a: Shear<S, 3>, ref b: Vector<S, 3>) => <Shear<S, 3>>::apply_vector(&a, &b));
    op!(v, "Shear<S, 3>::apply_point", 0, (ref a: Shear<S, 3>, ref b: Point<S, 3>) => <Shear<S, 3>>::apply_point(&a, &b));
    op!(v, "Shear<S, 3>::identity", 0, () => <Shear<S, 3>>::identity());
}
}
mod sg_5 {
use super::*;
#[inline(never)]
pub fn reg<S: Sg>(v: &mut Vec<Op>) {
    op!(v, "Shear<S, 2>::inverse", 0, (ref a: Shear<S, 2>) => <Shear<S, 2>>::inverse(&a));
    op!(v, "Shear<S, 2>::inverse_apply_vector", 0, (ref a: Shear<S, 2>, ref b: Vector<S, 2>) => <Shear<S, 2>>::inverse_apply_vector(&a, &b));
    op!(v, "Shear<S, 2>::inverse_apply_point", 0, (ref a: Shear<S, 2>, ref b: Point<S, 2>) => <Shear<S, 2>>::inverse_apply_point(&a, &b));
    op!(v, "Shear<S, 3>::inverse", 0, (ref a: Shear<S, 3>) => <Shear<S, 3>>::inverse(&a));
    op!(v, "Shear<S, 3>::inverse_apply_vector", 0, (ref a: Shear<S, 3>, ref b: Vector<S, 3>) => <Shear<S, 3>>::inverse_apply_vector(&a, &b));
    op!(v, "Shear<S, 3>::inverse_apply_point", 0, (ref a: Shear<S, 3>, ref b: Point<S, 3>) => <Shear<S, 3>>::inverse_apply_point(&a, &b));
    op!(v, "Shear<S, 2> * Point<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Point<S, 2>) => a * b);
    op!(v, "Shear<S, 3> * Point<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Point<S, 3>) => a * b);
    op!(v, "Shear<S, 2> * &Point<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Point<S, 2>) => a * &b);
    op!(v, "Shear<S, 3> * &Point<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Point<S, 3>) => a * &b);
    op!(v, "&Shear<S, 2> * Point<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Point<S, 2>) => &a * b);
    op!(v, "&Shear<S, 3> * Point<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Point<S, 3>) => &a * b);
    op!(v, "&Shear<S, 2> * &Point<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Point<S, 2>) => &a * &b);
    op!(v, "&Shear<S, 3> * &Point<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Point<S, 3>) => &a * &b);
    op!(v, "Shear<S, 2> * Vector<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Shear<S, 3> * Vector<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Shear<S, 2> * &Vector<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "Shear<S, 3> * &Vector<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "&Shear<S, 2> * Vector<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Shear<S, 3> * Vector<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Shear<S, 2> * &Vector<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Vector<S, 2>) => &a * &b);
    op!(v, "&Shear<S, 3> * &Vector<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "Shear<S, 2>::from_shear_xy", 0, (ref b: S) => <Shear<S, 2>>::from_shear_xy(b));
    op!(v, "Shear<S, 2>::from_shear_yx", 0, (ref b: S) => <Shear<S, 2>>::from_shear_yx(b));
    op!(v, "Shear<S, 3>::from_shear_xy", 0, (ref b: S) => <Shear<S, 3>>::from_shear_xy(b));
    op!(v, "Shear<S, 3>::from_shear_xz", 0, (ref b: S) => <Shear<S, 3>>::from_shear_xz(b));
    op!(v, "Shear<S, 3>::from_shear_yx", 0, (ref b: S) => <Shear<S, 3>>::from_shear_yx(b));
    op!(v, "Shear<S, 3>::from_shear_yz", 0, (ref b: S) => <Shear<S, 3>>::from_shear_yz(b));
    op!(v, "Shear<S, 3>::from_shear_zx", 0, (ref b: S) => <Shear<S, 3>>::from_shear_zx(b));
    op!(v, "Shear<S, 3>::from_shear_zy", 0, (ref b: S) => <Shear<S, 3>>::from_shear_zy(b));
    op!(v, "Translation<S, 2>::from_vector", 0, (ref b: Vector<S, 2>) => <Translation<S, 2>>::from_vector(&b));
    op!(v, "Translation<S, 2>::between_vectors", 0, (ref b: Vector<S, 2>, ref c: Vector<S, 2>) => <Translation<S, 2>>::between_vectors(&b, &c));
    op!(v, "Translation<S, 2>::between_points", 0, (ref b: Point<S, 2>, ref c: Point<S, 2>) => <Translation<S, 2>>::between_points(&b, &c));
    op!(v, "Translation<S, 2>::inverse", 0, (ref a: Translation<S, 2>) => <Translation<S, 2>>::inverse(&a));
    op!(v, "Translation<S, 2>::inverse_mut", INPLACE, (mut a: Translation<S, 2>) => <Translation<S, 2>>::inverse_mut(&mut a));
    op!(v, "Translation<S, 2>::apply_point", 0, (ref a: Translation<S, 2>, ref b: Point<S, 2>) => <Translation<S, 2>>::apply_point(&a, &b));
    op!(v, "Translation<S, 2>::apply_vector", 0, (ref a: Translation<S, 2>, ref b: Vector<S, 2>) => <Translation<S, 2>>::apply_vector(&a, &b));
    op!(v, "Translation<S, 2>::inverse_apply_point", 0, (ref a: Translation<S, 2>, ref b: Point<S, 2>) => <Translation<S, 2>>::inverse_apply_point(&a, &b));
    op!(v, "Translation<S, 2>::inverse_apply_vector", 0, (ref a: Translation<S, 2>, ref b: Vector<S, 2>) => <Translation<S, 2>>::inverse_apply_vector(&a, &b));
    op!(v, "Translation<S, 2>::identity", 0, () => <Translation<S, 2>>::identity());
}
}
mod sg_6 {
use super::*;
#[inline(never)]
pub fn reg<S: Sg>(v: &mut Vec<Op>) {
    op!(v, "Translation<S, 2>::vector", 0, (ref a: Translation<S, 2>) => <Translation<S, 2>>::vector(&a));
    op!(v, "Translation<S, 2>::to_vector", 0, (ref a: Translation<S, 2>) => <Translation<S, 2>>::to_vector(&a));
    op!(v, "Translation<S, 3>::from_vector", 0, (ref b: Vector<S, 3>) => <Translation<S, 3>>::from_vector(&b));
    op!(v, "Translation<S, 3>::between_vectors", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Translation<S, 3>>::between_vectors(&b, &c));
    op!(v, "Translation<S, 3>::between_points", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>) => <Translation<S, 3>>::between_points(&b, &c));
    op!(v, "Translation<S, 3>::inverse", 0, (ref a: Translation<S, 3>) => <Translation<S, 3>>::inverse(&a));
    op!(v, "Translation<S, 3>::inverse_mut", INPLACE, (mut a: Translation<S, 3>) => <Translation<S, 3>>::inverse_mut(&mut a));
    op!(v, "Translation<S, 3>::apply_point", 0, (ref a: Translation<S, 3>, ref b: Point<S, 3>) => <Translation<S, 3>>::apply_point(&a, &b));
    op!(v, "Translation<S, 3>::apply_vector", 0, (ref a: Translation<S, 3>, ref b: Vector<S, 3>) => <Translation<S, 3>>::apply_vector(&a, &b));
    op!(v, "Translation<S, 3>::inverse_apply_point", 0, (ref a: Translation<S, 3>, ref b: Point<S, 3>) => <Translation<S, 3>>::inverse_apply_point(&a, &b));
    op!(v, "Translation<S, 3>::inverse_apply_vector", 0, (ref a: Translation<S, 3>, ref b: Vector<S, 3>) => <Translation<S, 3>>::inverse_apply_vector(&a, &b));
    op!(v, "Translation<S, 3>::identity", 0, () => <Translation<S, 3>>::identity());
    op!(v, "Translation<S, 3>::vector", 0, (ref a: Translation<S, 3>) => <Translation<S, 3>>::vector(&a));
    op!(v, "Translation<S, 3>::to_vector", 0, (ref a: Translation<S, 3>) => <Translation<S, 3>>::to_vector(&a));
    op!(v, "Translation<S, 2>::to_affine_matrix", 0, (ref a: Translation<S, 2>) => <Translation<S, 2>>::to_affine_matrix(&a));
    op!(v, "Translation<S, 2>::to_transform", 0, (ref a: Translation<S, 2>) => <Translation<S, 2>>::to_transform(&a));
    op!(v, "Translation<S, 3>::to_affine_matrix", 0, (ref a: Translation<S, 3>) => <Translation<S, 3>>::to_affine_matrix(&a));
    op!(v, "Translation<S, 3>::to_transform", 0, (ref a: Translation<S, 3>) => <Translation<S, 3>>::to_transform(&a));
    op!(v, "Matrix<S, 3, 3>::from(Translation<S, 2>)", 0, (ref a: Translation<S, 2>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(Translation<S, 3>)", 0, (ref a: Translation<S, 3>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(&Translation<S, 2>)", 0, (ref a: Translation<S, 2>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::from(&Translation<S, 3>)", 0, (ref a: Translation<S, 3>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Translation<S, 2> * Vector<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Translation<S, 3> * Vector<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Translation<S, 2> * &Vector<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "Translation<S, 3> * &Vector<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "&Translation<S, 2> * Vector<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Translation<S, 3> * Vector<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Translation<S, 2> * &Vector<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Vector<S, 2>) => &a * &b);
    op!(v, "&Translation<S, 3> * &Vector<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "Translation<S, 2> * Point<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Point<S, 2>) => a * b);
    op!(v, "Translation<S, 3> * Point<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Point<S, 3>) => a * b);
    op!(v, "Translation<S, 2> * &Point<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Point<S, 2>) => a * &b);
    op!(v, "Translation<S, 3> * &Point<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Point<S, 3>) => a * &b);
    op!(v, "&Translation<S, 2> * Point<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Point<S, 2>) => &a * b);
    op!(v, "&Translation<S, 3> * Point<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Point<S, 3>) => &a * b);
    op!(v, "&Translation<S, 2> * &Point<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Point<S, 2>) => &a * &b);
    op!(v, "&Translation<S, 3> * &Point<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Point<S, 3>) => &a * &b);
    op!(v, "Translation<S, 2> * Translation<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>) => a * b);
    op!(v, "Translation<S, 3> * Translation<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>) => a * b);
}
}
mod sg_7 {
use super::*;
#[inline(never)]
pub fn reg<S: Sg>(v: &mut Vec<Op>) {
    op!(v, "Translation<S, 2> * &Translation<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>) => a * &b);
    op!(v, "Translation<S, 3> * &Translation<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>) => a * &b);
    op!(v, "&Translation<S, 2> * Translation<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>) => &a * b);
    op!(v, "&Translation<S, 3> * Translation<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>) => &a * b);
    op!(v, "&Translation<S, 2> * &Translation<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>) => &a * &b);
    op!(v, "&Translation<S, 3> * &Translation<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>) => &a * &b);
    op!(v, "Translation<S, 2>::new", 0, (ref b: S, ref c: S) => <Translation<S, 2>>::new(b, c));
    op!(v, "Translation<S, 3>::new", 0, (ref b: S, ref c: S, ref d: S) => <Translation<S, 3>>::new(b, c, d));
    op!(v, "-Degrees<S>", 0, (ref a: Degrees<S>) => -a);
    op!(v, "-&Degrees<S>", 0, (ref a: Degrees<S>) => -&a);
    op!(v, "-Radians<S>", 0, (ref a: Radians<S>) => -a);
    op!(v, "-&Radians<S>", 0, (ref a: Radians<S>) => -&a);
    op!(v, "Translation<S, 2> == Translation<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>) => a == b);
    op!(v, "Translation<S, 2> != self", 0, (ref a: Translation<S, 2>) => a != a.clone());
    op!(v, "Translation<S, 2> render {}", RENDER, (ref a: Translation<S, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Translation<S, 2> render {:?}", RENDER, (ref a: Translation<S, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Translation<S, 2> render {:#?}", RENDER, (ref a: Translation<S, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Translation<S, 2> render {:.3}", RENDER, (ref a: Translation<S, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Translation<S, 2> render {:>14.2}", RENDER, (ref a: Translation<S, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Translation<S, 2> render {:+}", RENDER, (ref a: Translation<S, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Translation<S, 2> render {:#}", RENDER, (ref a: Translation<S, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Translation<S, 2> render {:09.1?}", RENDER, (ref a: Translation<S, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Translation<S, 2> render {:-<60.30}", RENDER, (ref a: Translation<S, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Translation<S, 2> clone", 0, (ref a: Translation<S, 2>) => a.clone());
    op!(v, "Translation<S, 3> == Translation<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>) => a == b);
    op!(v, "Translation<S, 3> != self", 0, (ref a: Translation<S, 3>) => a != a.clone());
    op!(v, "Translation<S, 3> render {}", RENDER, (ref a: Translation<S, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Translation<S, 3> render {:?}", RENDER, (ref a: Translation<S, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Translation<S, 3> render {:#?}", RENDER, (ref a: Translation<S, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Translation<S, 3> render {:.3}", RENDER, (ref a: Translation<S, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Translation<S, 3> render {:>14.2}", RENDER, (ref a: Translation<S, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Translation<S, 3> render {:+}", RENDER, (ref a: Translation<S, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Translation<S, 3> render {:#}", RENDER, (ref a: Translation<S, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Translation<S, 3> render {:09.1?}", RENDER, (ref a: Translation<S, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Translation<S, 3> render {:-<60.30}", RENDER, (ref a: Translation<S, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Translation<S, 3> clone", 0, (ref a: Translation<S, 3>) => a.clone());
    op!(v, "Shear<S, 2> == Shear<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>) => a == b);
    op!(v, "Shear<S, 2> != self", 0, (ref a: Shear<S, 2>) => a != a.clone());
    op!(v, "Shear<S, 2> render {}", RENDER, (ref a: Shear<S, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Shear<S, 2> render {:?}", RENDER, (ref a: Shear<S, 2>) => crate::sink::render(format_args!("{:?}", a)));
}
}
mod sg_8 {
use super::*;
#[inline(never)]
pub fn reg<S: Sg>(v: &mut Vec<Op>) {
    op!(v, "Shear<S, 2> render {:#?}", RENDER, (ref a: Shear<S, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Shear<S, 2> render {:.3}", RENDER, (ref a: Shear<S, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Shear<S, 2> render {:>14.2}", RENDER, (ref a: Shear<S, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Shear<S, 2> render {:+}", RENDER, (ref a: Shear<S, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Shear<S, 2> render {:#}", RENDER, (ref a: Shear<S, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Shear<S, 2> render {:09.1?}", RENDER, (ref a: Shear<S, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Shear<S, 2> render {:-<60.30}", RENDER, (ref a: Shear<S, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Shear<S, 2> clone", 0, (ref a: Shear<S, 2>) => a.clone());
    op!(v, "Shear<S, 3> == Shear<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>) => a == b);
    op!(v, "Shear<S, 3> != self", 0, (ref a: Shear<S, 3>) => a != a.clone());
    op!(v, "Shear<S, 3> render {}", RENDER, (ref a: Shear<S, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Shear<S, 3> render {:?}", RENDER, (ref a: Shear<S, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Shear<S, 3> render {:#?}", RENDER, (ref a: Shear<S, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Shear<S, 3> render {:.3}", RENDER, (ref a: Shear<S, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Shear<S, 3> render {:>14.2}", RENDER, (ref a: Shear<S, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Shear<S, 3> render {:+}", RENDER, (ref a: Shear<S, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Shear<S, 3> render {:#}", RENDER, (ref a: Shear<S, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Shear<S, 3> render {:09.1?}", RENDER, (ref a: Shear<S, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Shear<S, 3> render {:-<60.30}", RENDER, (ref a: Shear<S, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Shear<S, 3> clone", 0, (ref a: Shear<S, 3>) => a.clone());
    op!(v, "Matrix<S, 1, 1>::apply_norm L1", 0, (ref a: Matrix<S, 1, 1>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 1, 1>::apply_norm Linf", 0, (ref a: Matrix<S, 1, 1>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 1, 1>::apply_metric L1", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 1, 1>::apply_metric Linf", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 2, 2>::apply_norm L1", 0, (ref a: Matrix<S, 2, 2>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 2, 2>::apply_norm Linf", 0, (ref a: Matrix<S, 2, 2>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 2, 2>::apply_metric L1", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 2, 2>::apply_metric Linf", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 3, 3>::apply_norm L1", 0, (ref a: Matrix<S, 3, 3>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 3, 3>::apply_norm Linf", 0, (ref a: Matrix<S, 3, 3>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 3, 3>::apply_metric L1", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 3, 3>::apply_metric Linf", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 4, 4>::apply_norm L1", 0, (ref a: Matrix<S, 4, 4>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 4, 4>::apply_norm Linf", 0, (ref a: Matrix<S, 4, 4>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 4, 4>::apply_metric L1", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 4, 4>::apply_metric Linf", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 1, 2>::apply_norm L1", 0, (ref a: Matrix<S, 1, 2>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 1, 2>::apply_norm Linf", 0, (ref a: Matrix<S, 1, 2>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 1, 2>::apply_metric L1", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 1, 2>::apply_metric Linf", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
}
}
mod sg_9 {
use super::*;
#[inline(never)]
pub fn reg<S: Sg>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 3>::apply_norm L1", 0, (ref a: Matrix<S, 1, 3>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 1, 3>::apply_norm Linf", 0, (ref a: Matrix<S, 1, 3>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 1, 3>::apply_metric L1", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 1, 3>::apply_metric Linf", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 1, 4>::apply_norm L1", 0, (ref a: Matrix<S, 1, 4>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 1, 4>::apply_norm Linf", 0, (ref a: Matrix<S, 1, 4>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 1, 4>::apply_metric L1", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 1, 4>::apply_metric Linf", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 2, 3>::apply_norm L1", 0, (ref a: Matrix<S, 2, 3>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 2, 3>::apply_norm Linf", 0, (ref a: Matrix<S, 2, 3>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 2, 3>::apply_metric L1", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 2, 3>::apply_metric Linf", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 3, 2>::apply_norm L1", 0, (ref a: Matrix<S, 3, 2>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 3, 2>::apply_norm Linf", 0, (ref a: Matrix<S, 3, 2>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 3, 2>::apply_metric L1", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 3, 2>::apply_metric Linf", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 2, 4>::apply_norm L1", 0, (ref a: Matrix<S, 2, 4>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 2, 4>::apply_norm Linf", 0, (ref a: Matrix<S, 2, 4>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 2, 4>::apply_metric L1", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 2, 4>::apply_metric Linf", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 4, 2>::apply_norm L1", 0, (ref a: Matrix<S, 4, 2>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 4, 2>::apply_norm Linf", 0, (ref a: Matrix<S, 4, 2>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 4, 2>::apply_metric L1", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 4, 2>::apply_metric Linf", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 3, 4>::apply_norm L1", 0, (ref a: Matrix<S, 3, 4>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 3, 4>::apply_norm Linf", 0, (ref a: Matrix<S, 3, 4>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 3, 4>::apply_metric L1", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 3, 4>::apply_metric Linf", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 4, 3>::apply_norm L1", 0, (ref a: Matrix<S, 4, 3>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 4, 3>::apply_norm Linf", 0, (ref a: Matrix<S, 4, 3>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 4, 3>::apply_metric L1", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 4, 3>::apply_metric Linf", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 4, 1>::apply_norm L1", 0, (ref a: Matrix<S, 4, 1>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 4, 1>::apply_norm Linf", 0, (ref a: Matrix<S, 4, 1>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 4, 1>::apply_metric L1", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 4, 1>::apply_metric Linf", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 5, 5>::apply_norm L1", 0, (ref a: Matrix<S, 5, 5>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 5, 5>::apply_norm Linf", 0, (ref a: Matrix<S, 5, 5>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 5, 5>::apply_metric L1", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 5, 5>::apply_metric Linf", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
}
}
mod sg_10 {
use super::*;
#[inline(never)]
pub fn reg<S: Sg>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 6, 2>::apply_norm L1", 0, (ref a: Matrix<S, 6, 2>) => a.apply_norm(&L1MatrixNorm::new()));
    op!(v, "Matrix<S, 6, 2>::apply_norm Linf", 0, (ref a: Matrix<S, 6, 2>) => a.apply_norm(&LinfMatrixNorm::new()));
    op!(v, "Matrix<S, 6, 2>::apply_metric L1", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => a.apply_metric_distance(&b, &L1MatrixNorm::new()));
    op!(v, "Matrix<S, 6, 2>::apply_metric Linf", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => a.apply_metric_distance(&b, &LinfMatrixNorm::new()));
    op!(v, "Vector<S, 1>::apply_norm L1Norm", 0, (ref a: Vector<S, 1>) => a.apply_norm(&L1Norm::new()));
    op!(v, "Vector<S, 1>::apply_metric L1Norm", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => a.apply_metric_distance(&b, &L1Norm::new()));
    op!(v, "Vector<S, 1>::apply_norm LinfNorm", 0, (ref a: Vector<S, 1>) => a.apply_norm(&LinfNorm::new()));
    op!(v, "Vector<S, 1>::apply_metric LinfNorm", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => a.apply_metric_distance(&b, &LinfNorm::new()));
    op!(v, "Vector<S, 2>::apply_norm L1Norm", 0, (ref a: Vector<S, 2>) => a.apply_norm(&L1Norm::new()));
    op!(v, "Vector<S, 2>::apply_metric L1Norm", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => a.apply_metric_distance(&b, &L1Norm::new()));
    op!(v, "Vector<S, 2>::apply_norm LinfNorm", 0, (ref a: Vector<S, 2>) => a.apply_norm(&LinfNorm::new()));
    op!(v, "Vector<S, 2>::apply_metric LinfNorm", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => a.apply_metric_distance(&b, &LinfNorm::new()));
    op!(v, "Vector<S, 3>::apply_norm L1Norm", 0, (ref a: Vector<S, 3>) => a.apply_norm(&L1Norm::new()));
    op!(v, "Vector<S, 3>::apply_metric L1Norm", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => a.apply_metric_distance(&b, &L1Norm::new()));
    op!(v, "Vector<S, 3>::apply_norm LinfNorm", 0, (ref a: Vector<S, 3>) => a.apply_norm(&LinfNorm::new()));
    op!(v, "Vector<S, 3>::apply_metric LinfNorm", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => a.apply_metric_distance(&b, &LinfNorm::new()));
    op!(v, "Vector<S, 4>::apply_norm L1Norm", 0, (ref a: Vector<S, 4>) => a.apply_norm(&L1Norm::new()));
    op!(v, "Vector<S, 4>::apply_metric L1Norm", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => a.apply_metric_distance(&b, &L1Norm::new()));
    op!(v, "Vector<S, 4>::apply_norm LinfNorm", 0, (ref a: Vector<S, 4>) => a.apply_norm(&LinfNorm::new()));
    op!(v, "Vector<S, 4>::apply_metric LinfNorm", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => a.apply_metric_distance(&b, &LinfNorm::new()));
    op!(v, "Vector<S, 5>::apply_norm L1Norm", 0, (ref a: Vector<S, 5>) => a.apply_norm(&L1Norm::new()));
    op!(v, "Vector<S, 5>::apply_metric L1Norm", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => a.apply_metric_distance(&b, &L1Norm::new()));
    op!(v, "Vector<S, 5>::apply_norm LinfNorm", 0, (ref a: Vector<S, 5>) => a.apply_norm(&LinfNorm::new()));
    op!(v, "Vector<S, 5>::apply_metric LinfNorm", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => a.apply_metric_distance(&b, &LinfNorm::new()));
    op!(v, "Vector<S, 9>::apply_norm L1Norm", 0, (ref a: Vector<S, 9>) => a.apply_norm(&L1Norm::new()));
    op!(v, "Vector<S, 9>::apply_metric L1Norm", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => a.apply_metric_distance(&b, &L1Norm::new()));
    op!(v, "Vector<S, 9>::apply_norm LinfNorm", 0, (ref a: Vector<S, 9>) => a.apply_norm(&LinfNorm::new()));
    op!(v, "Vector<S, 9>::apply_metric LinfNorm", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => a.apply_metric_distance(&b, &LinfNorm::new()));
    op!(v, "SimdScalarSigned::is_sign_positive", 0, (ref a: S) => <S as SimdScalarSigned>::is_sign_positive(a));
    op!(v, "SimdScalarSigned::is_sign_negative", 0, (ref a: S) => <S as SimdScalarSigned>::is_sign_negative(a));
    op!(v, "SimdScalarSigned::copysign", 0, (ref a: S, ref b: S) => <S as SimdScalarSigned>::copysign(a, b));
    op!(v, "SimdScalarSigned::signum", 0, (ref a: S) => <S as SimdScalarSigned>::signum(a));
    op!(v, "SimdScalarSigned::abs", 0, (ref a: S) => <S as SimdScalarSigned>::abs(a));
    op!(v, "SimdScalarOrd::max", 0, (ref a: S, ref b: S) => <S as SimdScalarOrd>::max(a, b));
    op!(v, "SimdScalarOrd::min", 0, (ref a: S, ref b: S) => <S as SimdScalarOrd>::min(a, b));
    op!(v, "SimdScalarOrd::clamp", PARTIAL, (ref a: S, ref b: S, ref c: S) => <S as SimdScalarOrd>::clamp(a, b, c));
}
}
pub fn reg_sg<S: Sg>(v: &mut Vec<Op>) {
    sg_0::reg::<S>(v);
    sg_1::reg::<S>(v);
    sg_2::reg::<S>(v);
    sg_3::reg::<S>(v);
    sg_4::reg::<S>(v);
    sg_5::reg::<S>(v);
    sg_6::reg::<S>(v);
    sg_7::reg::<S>(v);
    sg_8::reg::<S>(v);
    sg_9::reg::<S>(v);
    sg_10::reg::<S>(v);
}
mod fl_0 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Complex<S>::is_finite", 0, (ref a: Complex<S>) => <Complex<S>>::is_finite(a));
    op!(v, "Complex<S>::is_nan", 0, (ref a: Complex<S>) => <Complex<S>>::is_nan(a));
    op!(v, "Complex<S>::is_infinite", 0, (ref a: Complex<S>) => <Complex<S>>::is_infinite(a));
    op!(v, "Complex<S>::modulus", 0, (ref a: Complex<S>) => <Complex<S>>::modulus(a));
    op!(v, "Complex<S>::norm", 0, (ref a: Complex<S>) => <Complex<S>>::norm(a));
    op!(v, "Complex<S>::magnitude", 0, (ref a: Complex<S>) => <Complex<S>>::magnitude(a));
    op!(v, "Complex<S>::l2_norm", 0, (ref a: Complex<S>) => <Complex<S>>::l2_norm(a));
    op!(v, "Complex<S>::arg", 0, (ref a: Complex<S>) => <Complex<S>>::arg(a));
    op!(v, "Complex<S>::from_polar_decomposition", 0, (ref b: S, ref c: Radians<S>) => <Complex<S>>::from_polar_decomposition(b, c));
    op!(v, "Complex<S>::from_polar_decomposition [deg]", 0, (ref b: S, ref c: Degrees<S>) => <Complex<S>>::from_polar_decomposition(b, c));
    op!(v, "Complex<S>::from_angle", 0, (ref b: Radians<S>) => <Complex<S>>::from_angle(b));
    op!(v, "Complex<S>::from_angle [deg]", 0, (ref b: Degrees<S>) => <Complex<S>>::from_angle(b));
    op!(v, "Complex<S>::polar_decomposition", 0, (ref a: Complex<S>) => <Complex<S>>::polar_decomposition(a));
    op!(v, "Complex<S>::exp", 0, (ref a: Complex<S>) => <Complex<S>>::exp(a));
    op!(v, "Complex<S>::ln", 0, (ref a: Complex<S>) => <Complex<S>>::ln(a));
    op!(v, "Complex<S>::exp2", 0, (ref a: Complex<S>) => <Complex<S>>::exp2(a));
    op!(v, "Complex<S>::log", 0, (ref a: Complex<S>, ref b: S) => <Complex<S>>::log(a, b));
    op!(v, "Complex<S>::log2", 0, (ref a: Complex<S>) => <Complex<S>>::log2(a));
    op!(v, "Complex<S>::log10", 0, (ref a: Complex<S>) => <Complex<S>>::log10(a));
    op!(v, "Complex<S>::sqrt", 0, (ref a: Complex<S>) => <Complex<S>>::sqrt(a));
    op!(v, "Complex<S>::cbrt", 0, (ref a: Complex<S>) => <Complex<S>>::cbrt(a));
    op!(v, "Complex<S>::try_inverse", 0, (ref a: Complex<S>) => <Complex<S>>::try_inverse(a));
    op!(v, "Complex<S>::is_invertible", 0, (ref a: Complex<S>) => <Complex<S>>::is_invertible(a));
    op!(v, "Complex<S>::inverse", PARTIAL, (ref a: Complex<S>) => <Complex<S>>::inverse(a));
    op!(v, "Complex<S>::powu", 0, (ref a: Complex<S>, ref b: Small) => <Complex<S>>::powu(a, b.0 as u32));
    op!(v, "Complex<S>::powi", 0, (ref a: Complex<S>, ref b: Small) => <Complex<S>>::powi(a, b.0 as i32));
    op!(v, "Complex<S>::powf", 0, (ref a: Complex<S>, ref b: S) => <Complex<S>>::powf(a, b));
    op!(v, "Complex<S>::powc", 0, (ref a: Complex<S>, ref b: Complex<S>) => <Complex<S>>::powc(a, b));
    op!(v, "Complex<S>::cos", 0, (ref a: Complex<S>) => <Complex<S>>::cos(a));
    op!(v, "Complex<S>::acos", 0, (ref a: Complex<S>) => <Complex<S>>::acos(a));
    op!(v, "Complex<S>::sin", 0, (ref a: Complex<S>) => <Complex<S>>::sin(a));
    op!(v, "Complex<S>::asin", 0, (ref a: Complex<S>) => <Complex<S>>::asin(a));
    op!(v, "Complex<S>::tan", 0, (ref a: Complex<S>) => <Complex<S>>::tan(a));
    op!(v, "Complex<S>::atan", 0, (ref a: Complex<S>) => <Complex<S>>::atan(a));
    op!(v, "Complex<S>::cosh", 0, (ref a: Complex<S>) => <Complex<S>>::cosh(a));
    op!(v, "Complex<S>::acosh", 0, (ref a: Complex<S>) => <Complex<S>>::acosh(a));
    op!(v, "Complex<S>::sinh", 0, (ref a: Complex<S>) => <Complex<S>>::sinh(a));
    op!(v, "Complex<S>::asinh", 0, (ref a: Complex<S>) => <Complex<S>>::asinh(a));
    op!(v, "Complex<S>::tanh", 0, (ref a: Complex<S>) => <Complex<S>>::tanh(a));
    op!(v, "Complex<S>::atanh", 0, (ref a: Complex<S>) => <Complex<S>>::atanh(a));
}
}
mod fl_1 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Complex<S>::cis", 0, (ref b: S) => <Complex<S>>::cis(b));
    op!(v, "<Complex<S> as Normed>::norm_squared", 0, (ref a: Complex<S>) => <Complex<S> as Normed>::norm_squared(&a));
    op!(v, "<Complex<S> as Normed>::norm", 0, (ref a: Complex<S>) => <Complex<S> as Normed>::norm(&a));
    op!(v, "<Complex<S> as Normed>::scale", 0, (ref a: Complex<S>, ref b: S) => <Complex<S> as Normed>::scale(&a, b));
    op!(v, "<Complex<S> as Normed>::scale_mut", INPLACE, (mut a: Complex<S>, ref b: S) => <Complex<S> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Complex<S> as Normed>::unscale", 0, (ref a: Complex<S>, ref b: S) => <Complex<S> as Normed>::unscale(&a, b));
    op!(v, "<Complex<S> as Normed>::unscale_mut", INPLACE, (mut a: Complex<S>, ref b: S) => <Complex<S> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Complex<S> as Normed>::normalize", 0, (ref a: Complex<S>) => <Complex<S> as Normed>::normalize(&a));
    op!(v, "<Complex<S> as Normed>::normalize_mut", INPLACE, (mut a: Complex<S>) => <Complex<S> as Normed>::normalize_mut(&mut a));
    op!(v, "<Complex<S> as Normed>::try_normalize", 0, (ref a: Complex<S>, ref b: S) => <Complex<S> as Normed>::try_normalize(&a, b));
    op!(v, "<Complex<S> as Normed>::try_normalize_mut", INPLACE, (mut a: Complex<S>, ref b: S) => <Complex<S> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Complex<S> as Normed>::distance_squared", 0, (ref a: Complex<S>, ref b: Complex<S>) => <Complex<S> as Normed>::distance_squared(&a, &b));
    op!(v, "<Complex<S> as Normed>::distance", 0, (ref a: Complex<S>, ref b: Complex<S>) => <Complex<S> as Normed>::distance(&a, &b));
    op!(v, "-Unit<Complex<S>>", 0, (ref a: Unit<Complex<S>>) => -a);
    op!(v, "-&Unit<Complex<S>>", 0, (ref a: Unit<Complex<S>>) => -&a);
    op!(v, "Euler<Radians<S>>::zero", 0, () => <Euler<Radians<S>>>::zero());
    op!(v, "Euler<Radians<S>>::is_zero", 0, (ref a: Euler<Radians<S>>) => <Euler<Radians<S>>>::is_zero(&a));
    op!(v, "Euler<Radians<S>>::to_matrix", 0, (ref a: Euler<Radians<S>>) => <Euler<Radians<S>>>::to_matrix(&a));
    op!(v, "Euler<Radians<S>>::to_affine_matrix", 0, (ref a: Euler<Radians<S>>) => <Euler<Radians<S>>>::to_affine_matrix(&a));
    op!(v, "Euler<Degrees<S>>::zero", 0, () => <Euler<Degrees<S>>>::zero());
    op!(v, "Euler<Degrees<S>>::is_zero", 0, (ref a: Euler<Degrees<S>>) => <Euler<Degrees<S>>>::is_zero(&a));
    op!(v, "Euler<Degrees<S>>::to_matrix", 0, (ref a: Euler<Degrees<S>>) => <Euler<Degrees<S>>>::to_matrix(&a));
    op!(v, "Euler<Degrees<S>>::to_affine_matrix", 0, (ref a: Euler<Degrees<S>>) => <Euler<Degrees<S>>>::to_affine_matrix(&a));
    op!(v, "Matrix<S, 3, 3>::from(Euler<Radians<S>>)", 0, (ref a: Euler<Radians<S>>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(Euler<Degrees<S>>)", 0, (ref a: Euler<Degrees<S>>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(&Euler<Radians<S>>)", 0, (ref a: Euler<Radians<S>>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Matrix<S, 3, 3>::from(&Euler<Degrees<S>>)", 0, (ref a: Euler<Degrees<S>>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::from(Euler<Radians<S>>)", 0, (ref a: Euler<Radians<S>>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(Euler<Degrees<S>>)", 0, (ref a: Euler<Degrees<S>>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(&Euler<Radians<S>>)", 0, (ref a: Euler<Radians<S>>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::from(&Euler<Degrees<S>>)", 0, (ref a: Euler<Degrees<S>>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Euler<Radians<S>>::from(Quaternion<S>)", 0, (ref a: Quaternion<S>) => <Euler<Radians<S>>>::from(a));
    op!(v, "Euler<Radians<S>>::from(&Quaternion<S>)", 0, (ref a: Quaternion<S>) => <Euler<Radians<S>>>::from(&a));
    op!(v, "Matrix<S, 1, 1>::lerp", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>, ref c: S) => <Matrix<S, 1, 1>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 1, 1>::is_finite", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::is_finite(&a));
    op!(v, "Matrix<S, 2, 2>::lerp", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>, ref c: S) => <Matrix<S, 2, 2>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 2, 2>::is_finite", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::is_finite(&a));
    op!(v, "Matrix<S, 3, 3>::lerp", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>, ref c: S) => <Matrix<S, 3, 3>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 3, 3>::is_finite", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::is_finite(&a));
    op!(v, "Matrix<S, 4, 4>::lerp", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>, ref c: S) => <Matrix<S, 4, 4>>::lerp(&a, &b, c));
}
}
mod fl_2 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 4>::is_finite", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::is_finite(&a));
    op!(v, "Matrix<S, 1, 2>::lerp", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>, ref c: S) => <Matrix<S, 1, 2>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 1, 2>::is_finite", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::is_finite(&a));
    op!(v, "Matrix<S, 1, 3>::lerp", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>, ref c: S) => <Matrix<S, 1, 3>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 1, 3>::is_finite", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::is_finite(&a));
    op!(v, "Matrix<S, 1, 4>::lerp", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>, ref c: S) => <Matrix<S, 1, 4>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 1, 4>::is_finite", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::is_finite(&a));
    op!(v, "Matrix<S, 2, 3>::lerp", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>, ref c: S) => <Matrix<S, 2, 3>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 2, 3>::is_finite", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::is_finite(&a));
    op!(v, "Matrix<S, 3, 2>::lerp", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>, ref c: S) => <Matrix<S, 3, 2>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 3, 2>::is_finite", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::is_finite(&a));
    op!(v, "Matrix<S, 2, 4>::lerp", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>, ref c: S) => <Matrix<S, 2, 4>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 2, 4>::is_finite", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::is_finite(&a));
    op!(v, "Matrix<S, 4, 2>::lerp", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>, ref c: S) => <Matrix<S, 4, 2>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 4, 2>::is_finite", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::is_finite(&a));
    op!(v, "Matrix<S, 3, 4>::lerp", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>, ref c: S) => <Matrix<S, 3, 4>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 3, 4>::is_finite", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::is_finite(&a));
    op!(v, "Matrix<S, 4, 3>::lerp", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>, ref c: S) => <Matrix<S, 4, 3>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 4, 3>::is_finite", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::is_finite(&a));
    op!(v, "Matrix<S, 4, 1>::lerp", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>, ref c: S) => <Matrix<S, 4, 1>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 4, 1>::is_finite", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::is_finite(&a));
    op!(v, "Matrix<S, 5, 5>::lerp", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>, ref c: S) => <Matrix<S, 5, 5>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 5, 5>::is_finite", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::is_finite(&a));
    op!(v, "Matrix<S, 6, 2>::lerp", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>, ref c: S) => <Matrix<S, 6, 2>>::lerp(&a, &b, c));
    op!(v, "Matrix<S, 6, 2>::is_finite", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::is_finite(&a));
    op!(v, "Matrix<S, 1, 1>::is_diagonal", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::is_diagonal(&a));
    op!(v, "Matrix<S, 1, 1>::is_symmetric", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::is_symmetric(&a));
    op!(v, "Matrix<S, 2, 2>::is_diagonal", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::is_diagonal(&a));
    op!(v, "Matrix<S, 2, 2>::is_symmetric", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::is_symmetric(&a));
    op!(v, "Matrix<S, 3, 3>::is_diagonal", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::is_diagonal(&a));
    op!(v, "Matrix<S, 3, 3>::is_symmetric", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::is_symmetric(&a));
    op!(v, "Matrix<S, 4, 4>::is_diagonal", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::is_diagonal(&a));
    op!(v, "Matrix<S, 4, 4>::is_symmetric", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::is_symmetric(&a));
    op!(v, "Matrix<S, 5, 5>::is_diagonal", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::is_diagonal(&a));
    op!(v, "Matrix<S, 5, 5>::is_symmetric", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::is_symmetric(&a));
    op!(v, "Matrix<S, 1, 1>::norm", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::norm(&a));
    op!(v, "Matrix<S, 1, 1>::magnitude", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::magnitude(&a));
    op!(v, "Matrix<S, 1, 1>::metric_distance", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 2, 2>::norm", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::norm(&a));
    op!(v, "Matrix<S, 2, 2>::magnitude", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::magnitude(&a));
}
}
mod fl_3 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 2, 2>::metric_distance", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 3, 3>::norm", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::norm(&a));
    op!(v, "Matrix<S, 3, 3>::magnitude", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::magnitude(&a));
    op!(v, "Matrix<S, 3, 3>::metric_distance", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 4, 4>::norm", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::norm(&a));
    op!(v, "Matrix<S, 4, 4>::magnitude", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::magnitude(&a));
    op!(v, "Matrix<S, 4, 4>::metric_distance", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 1, 2>::norm", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::norm(&a));
    op!(v, "Matrix<S, 1, 2>::magnitude", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::magnitude(&a));
    op!(v, "Matrix<S, 1, 2>::metric_distance", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => <Matrix<S, 1, 2>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 1, 3>::norm", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::norm(&a));
    op!(v, "Matrix<S, 1, 3>::magnitude", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::magnitude(&a));
    op!(v, "Matrix<S, 1, 3>::metric_distance", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => <Matrix<S, 1, 3>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 1, 4>::norm", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::norm(&a));
    op!(v, "Matrix<S, 1, 4>::magnitude", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::magnitude(&a));
    op!(v, "Matrix<S, 1, 4>::metric_distance", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => <Matrix<S, 1, 4>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 2, 3>::norm", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::norm(&a));
    op!(v, "Matrix<S, 2, 3>::magnitude", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::magnitude(&a));
    op!(v, "Matrix<S, 2, 3>::metric_distance", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => <Matrix<S, 2, 3>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 3, 2>::norm", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::norm(&a));
    op!(v, "Matrix<S, 3, 2>::magnitude", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::magnitude(&a));
    op!(v, "Matrix<S, 3, 2>::metric_distance", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => <Matrix<S, 3, 2>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 2, 4>::norm", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::norm(&a));
    op!(v, "Matrix<S, 2, 4>::magnitude", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::magnitude(&a));
    op!(v, "Matrix<S, 2, 4>::metric_distance", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => <Matrix<S, 2, 4>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 4, 2>::norm", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::norm(&a));
    op!(v, "Matrix<S, 4, 2>::magnitude", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::magnitude(&a));
    op!(v, "Matrix<S, 4, 2>::metric_distance", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => <Matrix<S, 4, 2>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 3, 4>::norm", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::norm(&a));
    op!(v, "Matrix<S, 3, 4>::magnitude", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::magnitude(&a));
    op!(v, "Matrix<S, 3, 4>::metric_distance", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => <Matrix<S, 3, 4>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 4, 3>::norm", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::norm(&a));
    op!(v, "Matrix<S, 4, 3>::magnitude", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::magnitude(&a));
    op!(v, "Matrix<S, 4, 3>::metric_distance", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => <Matrix<S, 4, 3>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 4, 1>::norm", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::norm(&a));
    op!(v, "Matrix<S, 4, 1>::magnitude", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::magnitude(&a));
    op!(v, "Matrix<S, 4, 1>::metric_distance", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => <Matrix<S, 4, 1>>::metric_distance(&a, &b));
    op!(v, "Matrix<S, 5, 5>::norm", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::norm(&a));
    op!(v, "Matrix<S, 5, 5>::magnitude", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::magnitude(&a));
    op!(v, "Matrix<S, 5, 5>::metric_distance", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => <Matrix<S, 5, 5>>::metric_distance(&a, &b));
}
}
mod fl_4 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 6, 2>::norm", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::norm(&a));
    op!(v, "Matrix<S, 6, 2>::magnitude", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::magnitude(&a));
    op!(v, "Matrix<S, 6, 2>::metric_distance", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => <Matrix<S, 6, 2>>::metric_distance(&a, &b));
    op!(v, "<Matrix<S, 1, 1> as Normed>::norm_squared", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 1, 1> as Normed>::norm", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 1, 1> as Normed>::scale", 0, (ref a: Matrix<S, 1, 1>, ref b: S) => <Matrix<S, 1, 1> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 1, 1> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: S) => <Matrix<S, 1, 1> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 1, 1> as Normed>::unscale", 0, (ref a: Matrix<S, 1, 1>, ref b: S) => <Matrix<S, 1, 1> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 1, 1> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: S) => <Matrix<S, 1, 1> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 1, 1> as Normed>::normalize", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 1, 1> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 1, 1> as Normed>::try_normalize", 0, (ref a: Matrix<S, 1, 1>, ref b: S) => <Matrix<S, 1, 1> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 1, 1> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 1, 1>, ref b: S) => <Matrix<S, 1, 1> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 1, 1> as Normed>::distance_squared", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => <Matrix<S, 1, 1> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 1, 1> as Normed>::distance", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => <Matrix<S, 1, 1> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 2, 2> as Normed>::norm_squared", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 2, 2> as Normed>::norm", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 2, 2> as Normed>::scale", 0, (ref a: Matrix<S, 2, 2>, ref b: S) => <Matrix<S, 2, 2> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 2, 2> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: S) => <Matrix<S, 2, 2> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 2, 2> as Normed>::unscale", 0, (ref a: Matrix<S, 2, 2>, ref b: S) => <Matrix<S, 2, 2> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 2, 2> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: S) => <Matrix<S, 2, 2> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 2, 2> as Normed>::normalize", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 2, 2> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 2, 2> as Normed>::try_normalize", 0, (ref a: Matrix<S, 2, 2>, ref b: S) => <Matrix<S, 2, 2> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 2, 2> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 2, 2>, ref b: S) => <Matrix<S, 2, 2> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 2, 2> as Normed>::distance_squared", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => <Matrix<S, 2, 2> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 2, 2> as Normed>::distance", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => <Matrix<S, 2, 2> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 3, 3> as Normed>::norm_squared", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 3, 3> as Normed>::norm", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 3, 3> as Normed>::scale", 0, (ref a: Matrix<S, 3, 3>, ref b: S) => <Matrix<S, 3, 3> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 3, 3> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: S) => <Matrix<S, 3, 3> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 3, 3> as Normed>::unscale", 0, (ref a: Matrix<S, 3, 3>, ref b: S) => <Matrix<S, 3, 3> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 3, 3> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: S) => <Matrix<S, 3, 3> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 3, 3> as Normed>::normalize", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 3, 3> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 3, 3> as Normed>::try_normalize", 0, (ref a: Matrix<S, 3, 3>, ref b: S) => <Matrix<S, 3, 3> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 3, 3> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 3, 3>, ref b: S) => <Matrix<S, 3, 3> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 3, 3> as Normed>::distance_squared", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => <Matrix<S, 3, 3> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 3, 3> as Normed>::distance", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => <Matrix<S, 3, 3> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 4, 4> as Normed>::norm_squared", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4> as Normed>::norm_squared(&a));
}
}
mod fl_5 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "<Matrix<S, 4, 4> as Normed>::norm", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 4, 4> as Normed>::scale", 0, (ref a: Matrix<S, 4, 4>, ref b: S) => <Matrix<S, 4, 4> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 4, 4> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: S) => <Matrix<S, 4, 4> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 4, 4> as Normed>::unscale", 0, (ref a: Matrix<S, 4, 4>, ref b: S) => <Matrix<S, 4, 4> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 4, 4> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: S) => <Matrix<S, 4, 4> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 4, 4> as Normed>::normalize", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 4, 4> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 4, 4> as Normed>::try_normalize", 0, (ref a: Matrix<S, 4, 4>, ref b: S) => <Matrix<S, 4, 4> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 4, 4> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 4, 4>, ref b: S) => <Matrix<S, 4, 4> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 4, 4> as Normed>::distance_squared", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => <Matrix<S, 4, 4> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 4, 4> as Normed>::distance", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => <Matrix<S, 4, 4> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 1, 2> as Normed>::norm_squared", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 1, 2> as Normed>::norm", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 1, 2> as Normed>::scale", 0, (ref a: Matrix<S, 1, 2>, ref b: S) => <Matrix<S, 1, 2> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 1, 2> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: S) => <Matrix<S, 1, 2> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 1, 2> as Normed>::unscale", 0, (ref a: Matrix<S, 1, 2>, ref b: S) => <Matrix<S, 1, 2> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 1, 2> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: S) => <Matrix<S, 1, 2> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 1, 2> as Normed>::normalize", 0, (ref a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 1, 2> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 1, 2>) => <Matrix<S, 1, 2> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 1, 2> as Normed>::try_normalize", 0, (ref a: Matrix<S, 1, 2>, ref b: S) => <Matrix<S, 1, 2> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 1, 2> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 1, 2>, ref b: S) => <Matrix<S, 1, 2> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 1, 2> as Normed>::distance_squared", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => <Matrix<S, 1, 2> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 1, 2> as Normed>::distance", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => <Matrix<S, 1, 2> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 1, 3> as Normed>::norm_squared", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 1, 3> as Normed>::norm", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 1, 3> as Normed>::scale", 0, (ref a: Matrix<S, 1, 3>, ref b: S) => <Matrix<S, 1, 3> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 1, 3> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: S) => <Matrix<S, 1, 3> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 1, 3> as Normed>::unscale", 0, (ref a: Matrix<S, 1, 3>, ref b: S) => <Matrix<S, 1, 3> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 1, 3> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: S) => <Matrix<S, 1, 3> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 1, 3> as Normed>::normalize", 0, (ref a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 1, 3> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 1, 3>) => <Matrix<S, 1, 3> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 1, 3> as Normed>::try_normalize", 0, (ref a: Matrix<S, 1, 3>, ref b: S) => <Matrix<S, 1, 3> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 1, 3> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 1, 3>, ref b: S) => <Matrix<S, 1, 3> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 1, 3> as Normed>::distance_squared", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => <Matrix<S, 1, 3> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 1, 3> as Normed>::distance", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => <Matrix<S, 1, 3> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 1, 4> as Normed>::norm_squared", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 1, 4> as Normed>::norm", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 1, 4> as Normed>::scale", 0, (ref a: Matrix<S, 1, 4>, ref b: S) => <Matrix<S, 1, 4> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 1, 4> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: S) => <Matrix<S, 1, 4> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 1, 4> as Normed>::unscale", 0, (ref a: Matrix<S, 1, 4>, ref b: S) => <Matrix<S, 1, 4> as Normed>::unscale(&a, b));
}
}
mod fl_6 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "<Matrix<S, 1, 4> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: S) => <Matrix<S, 1, 4> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 1, 4> as Normed>::normalize", 0, (ref a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 1, 4> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 1, 4>) => <Matrix<S, 1, 4> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 1, 4> as Normed>::try_normalize", 0, (ref a: Matrix<S, 1, 4>, ref b: S) => <Matrix<S, 1, 4> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 1, 4> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 1, 4>, ref b: S) => <Matrix<S, 1, 4> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 1, 4> as Normed>::distance_squared", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => <Matrix<S, 1, 4> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 1, 4> as Normed>::distance", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => <Matrix<S, 1, 4> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 2, 3> as Normed>::norm_squared", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 2, 3> as Normed>::norm", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 2, 3> as Normed>::scale", 0, (ref a: Matrix<S, 2, 3>, ref b: S) => <Matrix<S, 2, 3> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 2, 3> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: S) => <Matrix<S, 2, 3> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 2, 3> as Normed>::unscale", 0, (ref a: Matrix<S, 2, 3>, ref b: S) => <Matrix<S, 2, 3> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 2, 3> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: S) => <Matrix<S, 2, 3> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 2, 3> as Normed>::normalize", 0, (ref a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 2, 3> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 2, 3>) => <Matrix<S, 2, 3> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 2, 3> as Normed>::try_normalize", 0, (ref a: Matrix<S, 2, 3>, ref b: S) => <Matrix<S, 2, 3> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 2, 3> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 2, 3>, ref b: S) => <Matrix<S, 2, 3> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 2, 3> as Normed>::distance_squared", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => <Matrix<S, 2, 3> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 2, 3> as Normed>::distance", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => <Matrix<S, 2, 3> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 3, 2> as Normed>::norm_squared", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 3, 2> as Normed>::norm", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 3, 2> as Normed>::scale", 0, (ref a: Matrix<S, 3, 2>, ref b: S) => <Matrix<S, 3, 2> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 3, 2> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: S) => <Matrix<S, 3, 2> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 3, 2> as Normed>::unscale", 0, (ref a: Matrix<S, 3, 2>, ref b: S) => <Matrix<S, 3, 2> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 3, 2> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: S) => <Matrix<S, 3, 2> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 3, 2> as Normed>::normalize", 0, (ref a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 3, 2> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 3, 2>) => <Matrix<S, 3, 2> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 3, 2> as Normed>::try_normalize", 0, (ref a: Matrix<S, 3, 2>, ref b: S) => <Matrix<S, 3, 2> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 3, 2> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 3, 2>, ref b: S) => <Matrix<S, 3, 2> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 3, 2> as Normed>::distance_squared", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => <Matrix<S, 3, 2> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 3, 2> as Normed>::distance", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => <Matrix<S, 3, 2> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 2, 4> as Normed>::norm_squared", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 2, 4> as Normed>::norm", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 2, 4> as Normed>::scale", 0, (ref a: Matrix<S, 2, 4>, ref b: S) => <Matrix<S, 2, 4> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 2, 4> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: S) => <Matrix<S, 2, 4> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 2, 4> as Normed>::unscale", 0, (ref a: Matrix<S, 2, 4>, ref b: S) => <Matrix<S, 2, 4> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 2, 4> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: S) => <Matrix<S, 2, 4> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 2, 4> as Normed>::normalize", 0, (ref a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 2, 4> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 2, 4>) => <Matrix<S, 2, 4> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 2, 4> as Normed>::try_normalize", 0, (ref a: Matrix<S, 2, 4>, ref b: S) => <Matrix<S, 2, 4> as Normed>::try_normalize(&a, b));
}
}
mod fl_7 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "<Matrix<S, 2, 4> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 2, 4>, ref b: S) => <Matrix<S, 2, 4> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 2, 4> as Normed>::distance_squared", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => <Matrix<S, 2, 4> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 2, 4> as Normed>::distance", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => <Matrix<S, 2, 4> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 4, 2> as Normed>::norm_squared", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 4, 2> as Normed>::norm", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 4, 2> as Normed>::scale", 0, (ref a: Matrix<S, 4, 2>, ref b: S) => <Matrix<S, 4, 2> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 4, 2> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: S) => <Matrix<S, 4, 2> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 4, 2> as Normed>::unscale", 0, (ref a: Matrix<S, 4, 2>, ref b: S) => <Matrix<S, 4, 2> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 4, 2> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: S) => <Matrix<S, 4, 2> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 4, 2> as Normed>::normalize", 0, (ref a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 4, 2> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 4, 2>) => <Matrix<S, 4, 2> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 4, 2> as Normed>::try_normalize", 0, (ref a: Matrix<S, 4, 2>, ref b: S) => <Matrix<S, 4, 2> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 4, 2> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 4, 2>, ref b: S) => <Matrix<S, 4, 2> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 4, 2> as Normed>::distance_squared", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => <Matrix<S, 4, 2> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 4, 2> as Normed>::distance", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => <Matrix<S, 4, 2> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 3, 4> as Normed>::norm_squared", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 3, 4> as Normed>::norm", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 3, 4> as Normed>::scale", 0, (ref a: Matrix<S, 3, 4>, ref b: S) => <Matrix<S, 3, 4> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 3, 4> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: S) => <Matrix<S, 3, 4> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 3, 4> as Normed>::unscale", 0, (ref a: Matrix<S, 3, 4>, ref b: S) => <Matrix<S, 3, 4> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 3, 4> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: S) => <Matrix<S, 3, 4> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 3, 4> as Normed>::normalize", 0, (ref a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 3, 4> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 3, 4>) => <Matrix<S, 3, 4> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 3, 4> as Normed>::try_normalize", 0, (ref a: Matrix<S, 3, 4>, ref b: S) => <Matrix<S, 3, 4> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 3, 4> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 3, 4>, ref b: S) => <Matrix<S, 3, 4> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 3, 4> as Normed>::distance_squared", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => <Matrix<S, 3, 4> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 3, 4> as Normed>::distance", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => <Matrix<S, 3, 4> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 4, 3> as Normed>::norm_squared", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 4, 3> as Normed>::norm", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 4, 3> as Normed>::scale", 0, (ref a: Matrix<S, 4, 3>, ref b: S) => <Matrix<S, 4, 3> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 4, 3> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: S) => <Matrix<S, 4, 3> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 4, 3> as Normed>::unscale", 0, (ref a: Matrix<S, 4, 3>, ref b: S) => <Matrix<S, 4, 3> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 4, 3> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: S) => <Matrix<S, 4, 3> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 4, 3> as Normed>::normalize", 0, (ref a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 4, 3> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 4, 3>) => <Matrix<S, 4, 3> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 4, 3> as Normed>::try_normalize", 0, (ref a: Matrix<S, 4, 3>, ref b: S) => <Matrix<S, 4, 3> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 4, 3> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 4, 3>, ref b: S) => <Matrix<S, 4, 3> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 4, 3> as Normed>::distance_squared", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => <Matrix<S, 4, 3> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 4, 3> as Normed>::distance", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => <Matrix<S, 4, 3> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 4, 1> as Normed>::norm_squared", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1> as Normed>::norm_squared(&a));
}
}
mod fl_8 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "<Matrix<S, 4, 1> as Normed>::norm", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 4, 1> as Normed>::scale", 0, (ref a: Matrix<S, 4, 1>, ref b: S) => <Matrix<S, 4, 1> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 4, 1> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: S) => <Matrix<S, 4, 1> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 4, 1> as Normed>::unscale", 0, (ref a: Matrix<S, 4, 1>, ref b: S) => <Matrix<S, 4, 1> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 4, 1> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: S) => <Matrix<S, 4, 1> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 4, 1> as Normed>::normalize", 0, (ref a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 4, 1> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 4, 1>) => <Matrix<S, 4, 1> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 4, 1> as Normed>::try_normalize", 0, (ref a: Matrix<S, 4, 1>, ref b: S) => <Matrix<S, 4, 1> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 4, 1> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 4, 1>, ref b: S) => <Matrix<S, 4, 1> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 4, 1> as Normed>::distance_squared", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => <Matrix<S, 4, 1> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 4, 1> as Normed>::distance", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => <Matrix<S, 4, 1> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 5, 5> as Normed>::norm_squared", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 5, 5> as Normed>::norm", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 5, 5> as Normed>::scale", 0, (ref a: Matrix<S, 5, 5>, ref b: S) => <Matrix<S, 5, 5> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 5, 5> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: S) => <Matrix<S, 5, 5> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 5, 5> as Normed>::unscale", 0, (ref a: Matrix<S, 5, 5>, ref b: S) => <Matrix<S, 5, 5> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 5, 5> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: S) => <Matrix<S, 5, 5> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 5, 5> as Normed>::normalize", 0, (ref a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 5, 5> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 5, 5>) => <Matrix<S, 5, 5> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 5, 5> as Normed>::try_normalize", 0, (ref a: Matrix<S, 5, 5>, ref b: S) => <Matrix<S, 5, 5> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 5, 5> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 5, 5>, ref b: S) => <Matrix<S, 5, 5> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 5, 5> as Normed>::distance_squared", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => <Matrix<S, 5, 5> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 5, 5> as Normed>::distance", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => <Matrix<S, 5, 5> as Normed>::distance(&a, &b));
    op!(v, "<Matrix<S, 6, 2> as Normed>::norm_squared", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2> as Normed>::norm_squared(&a));
    op!(v, "<Matrix<S, 6, 2> as Normed>::norm", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2> as Normed>::norm(&a));
    op!(v, "<Matrix<S, 6, 2> as Normed>::scale", 0, (ref a: Matrix<S, 6, 2>, ref b: S) => <Matrix<S, 6, 2> as Normed>::scale(&a, b));
    op!(v, "<Matrix<S, 6, 2> as Normed>::scale_mut", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: S) => <Matrix<S, 6, 2> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Matrix<S, 6, 2> as Normed>::unscale", 0, (ref a: Matrix<S, 6, 2>, ref b: S) => <Matrix<S, 6, 2> as Normed>::unscale(&a, b));
    op!(v, "<Matrix<S, 6, 2> as Normed>::unscale_mut", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: S) => <Matrix<S, 6, 2> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Matrix<S, 6, 2> as Normed>::normalize", 0, (ref a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2> as Normed>::normalize(&a));
    op!(v, "<Matrix<S, 6, 2> as Normed>::normalize_mut", INPLACE, (mut a: Matrix<S, 6, 2>) => <Matrix<S, 6, 2> as Normed>::normalize_mut(&mut a));
    op!(v, "<Matrix<S, 6, 2> as Normed>::try_normalize", 0, (ref a: Matrix<S, 6, 2>, ref b: S) => <Matrix<S, 6, 2> as Normed>::try_normalize(&a, b));
    op!(v, "<Matrix<S, 6, 2> as Normed>::try_normalize_mut", INPLACE, (mut a: Matrix<S, 6, 2>, ref b: S) => <Matrix<S, 6, 2> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Matrix<S, 6, 2> as Normed>::distance_squared", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => <Matrix<S, 6, 2> as Normed>::distance_squared(&a, &b));
    op!(v, "<Matrix<S, 6, 2> as Normed>::distance", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => <Matrix<S, 6, 2> as Normed>::distance(&a, &b));
    op!(v, "Matrix<S, 1, 1>::try_inverse", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::try_inverse(&a));
    op!(v, "Matrix<S, 1, 1>::is_invertible", 0, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::is_invertible(&a));
    op!(v, "Matrix<S, 1, 1>::inverse", PARTIAL, (ref a: Matrix<S, 1, 1>) => <Matrix<S, 1, 1>>::inverse(&a));
    op!(v, "Matrix<S, 2, 2>::from_shear", 0, (ref b: S, ref c: Unit<Vector<S, 2>>, ref d: Unit<Vector<S, 2>>) => <Matrix<S, 2, 2>>::from_shear(b, &c, &d));
    op!(v, "Matrix<S, 2, 2>::from_angle", 0, (ref b: Radians<S>) => <Matrix<S, 2, 2>>::from_angle(b));
}
}
mod fl_9 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 2, 2>::from_angle [deg]", 0, (ref b: Degrees<S>) => <Matrix<S, 2, 2>>::from_angle(b));
    op!(v, "Matrix<S, 2, 2>::rotation_between", 0, (ref b: Vector<S, 2>, ref c: Vector<S, 2>) => <Matrix<S, 2, 2>>::rotation_between(&b, &c));
    op!(v, "Matrix<S, 2, 2>::rotation_between_axis", 0, (ref b: Unit<Vector<S, 2>>, ref c: Unit<Vector<S, 2>>) => <Matrix<S, 2, 2>>::rotation_between_axis(&b, &c));
    op!(v, "Matrix<S, 2, 2>::try_inverse", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::try_inverse(&a));
    op!(v, "Matrix<S, 2, 2>::is_invertible", 0, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::is_invertible(&a));
    op!(v, "Matrix<S, 2, 2>::inverse", PARTIAL, (ref a: Matrix<S, 2, 2>) => <Matrix<S, 2, 2>>::inverse(&a));
    op!(v, "Matrix<S, 3, 3>::from_shear", 0, (ref b: S, ref c: Unit<Vector<S, 3>>, ref d: Unit<Vector<S, 3>>) => <Matrix<S, 3, 3>>::from_shear(b, &c, &d));
    op!(v, "Matrix<S, 3, 3>::from_affine_shear", 0, (ref b: S, ref c: Point<S, 2>, ref d: Unit<Vector<S, 2>>, ref e: Unit<Vector<S, 2>>) => <Matrix<S, 3, 3>>::from_affine_shear(b, &c, &d, &e));
    op!(v, "Matrix<S, 3, 3>::from_affine_angle", 0, (ref b: Radians<S>) => <Matrix<S, 3, 3>>::from_affine_angle(b));
    op!(v, "Matrix<S, 3, 3>::from_affine_angle [deg]", 0, (ref b: Degrees<S>) => <Matrix<S, 3, 3>>::from_affine_angle(b));
    op!(v, "Matrix<S, 3, 3>::from_angle_x", 0, (ref b: Radians<S>) => <Matrix<S, 3, 3>>::from_angle_x(b));
    op!(v, "Matrix<S, 3, 3>::from_angle_x [deg]", 0, (ref b: Degrees<S>) => <Matrix<S, 3, 3>>::from_angle_x(b));
    op!(v, "Matrix<S, 3, 3>::from_angle_y", 0, (ref b: Radians<S>) => <Matrix<S, 3, 3>>::from_angle_y(b));
    op!(v, "Matrix<S, 3, 3>::from_angle_y [deg]", 0, (ref b: Degrees<S>) => <Matrix<S, 3, 3>>::from_angle_y(b));
    op!(v, "Matrix<S, 3, 3>::from_angle_z", 0, (ref b: Radians<S>) => <Matrix<S, 3, 3>>::from_angle_z(b));
    op!(v, "Matrix<S, 3, 3>::from_angle_z [deg]", 0, (ref b: Degrees<S>) => <Matrix<S, 3, 3>>::from_angle_z(b));
    op!(v, "Matrix<S, 3, 3>::from_axis_angle", 0, (ref b: Unit<Vector<S, 3>>, ref c: Radians<S>) => <Matrix<S, 3, 3>>::from_axis_angle(&b, c));
    op!(v, "Matrix<S, 3, 3>::from_axis_angle [deg]", 0, (ref b: Unit<Vector<S, 3>>, ref c: Degrees<S>) => <Matrix<S, 3, 3>>::from_axis_angle(&b, c));
    op!(v, "Matrix<S, 3, 3>::look_to_lh", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Matrix<S, 3, 3>>::look_to_lh(&b, &c));
    op!(v, "Matrix<S, 3, 3>::look_to_rh", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Matrix<S, 3, 3>>::look_to_rh(&b, &c));
    op!(v, "Matrix<S, 3, 3>::look_at_lh", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Matrix<S, 3, 3>>::look_at_lh(&b, &c, &d));
    op!(v, "Matrix<S, 3, 3>::look_at_rh", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Matrix<S, 3, 3>>::look_at_rh(&b, &c, &d));
    op!(v, "Matrix<S, 3, 3>::look_to_lh_inv", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Matrix<S, 3, 3>>::look_to_lh_inv(&b, &c));
    op!(v, "Matrix<S, 3, 3>::look_to_rh_inv", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Matrix<S, 3, 3>>::look_to_rh_inv(&b, &c));
    op!(v, "Matrix<S, 3, 3>::look_at_lh_inv", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Matrix<S, 3, 3>>::look_at_lh_inv(&b, &c, &d));
    op!(v, "Matrix<S, 3, 3>::look_at_rh_inv", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Matrix<S, 3, 3>>::look_at_rh_inv(&b, &c, &d));
    op!(v, "Matrix<S, 3, 3>::rotation_between", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Matrix<S, 3, 3>>::rotation_between(&b, &c));
    op!(v, "Matrix<S, 3, 3>::rotation_between_axis", 0, (ref b: Unit<Vector<S, 3>>, ref c: Unit<Vector<S, 3>>) => <Matrix<S, 3, 3>>::rotation_between_axis(&b, &c));
    op!(v, "Matrix<S, 3, 3>::try_inverse", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::try_inverse(&a));
    op!(v, "Matrix<S, 3, 3>::is_invertible", 0, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::is_invertible(&a));
    op!(v, "Matrix<S, 3, 3>::inverse", PARTIAL, (ref a: Matrix<S, 3, 3>) => <Matrix<S, 3, 3>>::inverse(&a));
    op!(v, "Matrix<S, 4, 4>::from_affine_shear", 0, (ref b: S, ref c: Point<S, 3>, ref d: Unit<Vector<S, 3>>, ref e: Unit<Vector<S, 3>>) => <Matrix<S, 4, 4>>::from_affine_shear(b, &c, &d, &e));
    op!(v, "Matrix<S, 4, 4>::from_affine_angle_x", 0, (ref b: Radians<S>) => <Matrix<S, 4, 4>>::from_affine_angle_x(b));
    op!(v, "Matrix<S, 4, 4>::from_affine_angle_x [deg]", 0, (ref b: Degrees<S>) => <Matrix<S, 4, 4>>::from_affine_angle_x(b));
    op!(v, "Matrix<S, 4, 4>::from_affine_angle_y", 0, (ref b: Radians<S>) => <Matrix<S, 4, 4>>::from_affine_angle_y(b));
    op!(v, "Matrix<S, 4, 4>::from_affine_angle_y [deg]", 0, (ref b: Degrees<S>) => <Matrix<S, 4, 4>>::from_affine_angle_y(b));
    op!(v, "Matrix<S, 4, 4>::from_affine_angle_z", 0, (ref b: Radians<S>) => <Matrix<S, 4, 4>>::from_affine_angle_z(b));
    op!(v, "Matrix<S, 4, 4>::from_affine_angle_z [deg]", 0, (ref b: Degrees<S>) => <Matrix<S, 4, 4>>::from_affine_angle_z(b));
    op!(v, "Matrix<S, 4, 4>::from_affine_axis_angle", 0, (ref b: Unit<Vector<S, 3>>, ref c: Radians<S>) => <Matrix<S, 4, 4>>::from_affine_axis_angle(&b, c));
    op!(v, "Matrix<S, 4, 4>::from_affine_axis_angle [deg]", 0, (ref b: Unit<Vector<S, 3>>, ref c: Degrees<S>) => <Matrix<S, 4, 4>>::from_affine_axis_angle(&b, c));
}
}
mod fl_10 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 4>::from_orthographic", 0, (ref b: S, ref c: S, ref d: S, ref e: S, ref f: S, ref g: S) => <Matrix<S, 4, 4>>::from_orthographic(b, c, d, e, f, g));
    op!(v, "Matrix<S, 4, 4>::from_perspective", 0, (ref b: S, ref c: S, ref d: S, ref e: S, ref f: S, ref g: S) => <Matrix<S, 4, 4>>::from_perspective(b, c, d, e, f, g));
    op!(v, "Matrix<S, 4, 4>::from_perspective_vfov", 0, (ref b: Radians<S>, ref c: S, ref d: S, ref e: S) => <Matrix<S, 4, 4>>::from_perspective_vfov(b, c, d, e));
    op!(v, "Matrix<S, 4, 4>::from_perspective_vfov [deg]", 0, (ref b: Degrees<S>, ref c: S, ref d: S, ref e: S) => <Matrix<S, 4, 4>>::from_perspective_vfov(b, c, d, e));
    op!(v, "Matrix<S, 4, 4>::look_to_lh", 0, (ref b: Point<S, 3>, ref c: Vector<S, 3>, ref d: Vector<S, 3>) => <Matrix<S, 4, 4>>::look_to_lh(&b, &c, &d));
    op!(v, "Matrix<S, 4, 4>::look_to_rh", 0, (ref b: Point<S, 3>, ref c: Vector<S, 3>, ref d: Vector<S, 3>) => <Matrix<S, 4, 4>>::look_to_rh(&b, &c, &d));
    op!(v, "Matrix<S, 4, 4>::look_at_lh", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Matrix<S, 4, 4>>::look_at_lh(&b, &c, &d));
    op!(v, "Matrix<S, 4, 4>::look_at_rh", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Matrix<S, 4, 4>>::look_at_rh(&b, &c, &d));
    op!(v, "Matrix<S, 4, 4>::look_to_lh_inv", 0, (ref b: Point<S, 3>, ref c: Vector<S, 3>, ref d: Vector<S, 3>) => <Matrix<S, 4, 4>>::look_to_lh_inv(&b, &c, &d));
    op!(v, "Matrix<S, 4, 4>::look_to_rh_inv", 0, (ref b: Point<S, 3>, ref c: Vector<S, 3>, ref d: Vector<S, 3>) => <Matrix<S, 4, 4>>::look_to_rh_inv(&b, &c, &d));
    op!(v, "Matrix<S, 4, 4>::look_at_lh_inv", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Matrix<S, 4, 4>>::look_at_lh_inv(&b, &c, &d));
    op!(v, "Matrix<S, 4, 4>::look_at_rh_inv", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Matrix<S, 4, 4>>::look_at_rh_inv(&b, &c, &d));
    op!(v, "Matrix<S, 4, 4>::try_inverse", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::try_inverse(&a));
    op!(v, "Matrix<S, 4, 4>::is_invertible", 0, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::is_invertible(&a));
    op!(v, "Matrix<S, 4, 4>::inverse", PARTIAL, (ref a: Matrix<S, 4, 4>) => <Matrix<S, 4, 4>>::inverse(&a));
    op!(v, "-Unit<Matrix<S, 1, 1>>", 0, (ref a: Unit<Matrix<S, 1, 1>>) => -a);
    op!(v, "-Unit<Matrix<S, 2, 2>>", 0, (ref a: Unit<Matrix<S, 2, 2>>) => -a);
    op!(v, "-Unit<Matrix<S, 3, 3>>", 0, (ref a: Unit<Matrix<S, 3, 3>>) => -a);
    op!(v, "-Unit<Matrix<S, 4, 4>>", 0, (ref a: Unit<Matrix<S, 4, 4>>) => -a);
    op!(v, "-Unit<Matrix<S, 1, 2>>", 0, (ref a: Unit<Matrix<S, 1, 2>>) => -a);
    op!(v, "-Unit<Matrix<S, 1, 3>>", 0, (ref a: Unit<Matrix<S, 1, 3>>) => -a);
    op!(v, "-Unit<Matrix<S, 1, 4>>", 0, (ref a: Unit<Matrix<S, 1, 4>>) => -a);
    op!(v, "-Unit<Matrix<S, 2, 3>>", 0, (ref a: Unit<Matrix<S, 2, 3>>) => -a);
    op!(v, "-Unit<Matrix<S, 3, 2>>", 0, (ref a: Unit<Matrix<S, 3, 2>>) => -a);
    op!(v, "-Unit<Matrix<S, 2, 4>>", 0, (ref a: Unit<Matrix<S, 2, 4>>) => -a);
    op!(v, "-Unit<Matrix<S, 4, 2>>", 0, (ref a: Unit<Matrix<S, 4, 2>>) => -a);
    op!(v, "-Unit<Matrix<S, 3, 4>>", 0, (ref a: Unit<Matrix<S, 3, 4>>) => -a);
    op!(v, "-Unit<Matrix<S, 4, 3>>", 0, (ref a: Unit<Matrix<S, 4, 3>>) => -a);
    op!(v, "-Unit<Matrix<S, 4, 1>>", 0, (ref a: Unit<Matrix<S, 4, 1>>) => -a);
    op!(v, "-Unit<Matrix<S, 5, 5>>", 0, (ref a: Unit<Matrix<S, 5, 5>>) => -a);
    op!(v, "-Unit<Matrix<S, 6, 2>>", 0, (ref a: Unit<Matrix<S, 6, 2>>) => -a);
    op!(v, "-&Unit<Matrix<S, 1, 1>>", 0, (ref a: Unit<Matrix<S, 1, 1>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 2, 2>>", 0, (ref a: Unit<Matrix<S, 2, 2>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 3, 3>>", 0, (ref a: Unit<Matrix<S, 3, 3>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 4, 4>>", 0, (ref a: Unit<Matrix<S, 4, 4>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 1, 2>>", 0, (ref a: Unit<Matrix<S, 1, 2>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 1, 3>>", 0, (ref a: Unit<Matrix<S, 1, 3>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 1, 4>>", 0, (ref a: Unit<Matrix<S, 1, 4>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 2, 3>>", 0, (ref a: Unit<Matrix<S, 2, 3>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 3, 2>>", 0, (ref a: Unit<Matrix<S, 3, 2>>) => -&a);
}
}
mod fl_11 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "-&Unit<Matrix<S, 2, 4>>", 0, (ref a: Unit<Matrix<S, 2, 4>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 4, 2>>", 0, (ref a: Unit<Matrix<S, 4, 2>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 3, 4>>", 0, (ref a: Unit<Matrix<S, 3, 4>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 4, 3>>", 0, (ref a: Unit<Matrix<S, 4, 3>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 4, 1>>", 0, (ref a: Unit<Matrix<S, 4, 1>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 5, 5>>", 0, (ref a: Unit<Matrix<S, 5, 5>>) => -&a);
    op!(v, "-&Unit<Matrix<S, 6, 2>>", 0, (ref a: Unit<Matrix<S, 6, 2>>) => -&a);
    op!(v, "Matrix<S, 3, 3>::from_euler_angles", 0, (ref b: Euler<Radians<S>>) => <Matrix<S, 3, 3>>::from_euler_angles(&b));
    op!(v, "Matrix<S, 3, 3>::from_euler_angles [deg]", 0, (ref b: Euler<Degrees<S>>) => <Matrix<S, 3, 3>>::from_euler_angles(&b));
    op!(v, "Matrix<S, 4, 4>::from_euler_angles", 0, (ref b: Euler<Radians<S>>) => <Matrix<S, 4, 4>>::from_euler_angles(&b));
    op!(v, "Matrix<S, 4, 4>::from_euler_angles [deg]", 0, (ref b: Euler<Degrees<S>>) => <Matrix<S, 4, 4>>::from_euler_angles(&b));
    op!(v, "Point<S, 1>::norm", 0, (ref a: Point<S, 1>) => <Point<S, 1>>::norm(&a));
    op!(v, "Point<S, 1>::metric_distance", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>) => <Point<S, 1>>::metric_distance(&a, &b));
    op!(v, "Point<S, 1>::magnitude", 0, (ref a: Point<S, 1>) => <Point<S, 1>>::magnitude(&a));
    op!(v, "Point<S, 1>::l2_norm", 0, (ref a: Point<S, 1>) => <Point<S, 1>>::l2_norm(&a));
    op!(v, "Point<S, 2>::norm", 0, (ref a: Point<S, 2>) => <Point<S, 2>>::norm(&a));
    op!(v, "Point<S, 2>::metric_distance", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>) => <Point<S, 2>>::metric_distance(&a, &b));
    op!(v, "Point<S, 2>::magnitude", 0, (ref a: Point<S, 2>) => <Point<S, 2>>::magnitude(&a));
    op!(v, "Point<S, 2>::l2_norm", 0, (ref a: Point<S, 2>) => <Point<S, 2>>::l2_norm(&a));
    op!(v, "Point<S, 3>::norm", 0, (ref a: Point<S, 3>) => <Point<S, 3>>::norm(&a));
    op!(v, "Point<S, 3>::metric_distance", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>) => <Point<S, 3>>::metric_distance(&a, &b));
    op!(v, "Point<S, 3>::magnitude", 0, (ref a: Point<S, 3>) => <Point<S, 3>>::magnitude(&a));
    op!(v, "Point<S, 3>::l2_norm", 0, (ref a: Point<S, 3>) => <Point<S, 3>>::l2_norm(&a));
    op!(v, "Point<S, 6>::norm", 0, (ref a: Point<S, 6>) => <Point<S, 6>>::norm(&a));
    op!(v, "Point<S, 6>::metric_distance", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>) => <Point<S, 6>>::metric_distance(&a, &b));
    op!(v, "Point<S, 6>::magnitude", 0, (ref a: Point<S, 6>) => <Point<S, 6>>::magnitude(&a));
    op!(v, "Point<S, 6>::l2_norm", 0, (ref a: Point<S, 6>) => <Point<S, 6>>::l2_norm(&a));
    op!(v, "<Point<S, 1> as Normed>::norm_squared", 0, (ref a: Point<S, 1>) => <Point<S, 1> as Normed>::norm_squared(&a));
    op!(v, "<Point<S, 1> as Normed>::norm", 0, (ref a: Point<S, 1>) => <Point<S, 1> as Normed>::norm(&a));
    op!(v, "<Point<S, 1> as Normed>::scale", 0, (ref a: Point<S, 1>, ref b: S) => <Point<S, 1> as Normed>::scale(&a, b));
    op!(v, "<Point<S, 1> as Normed>::scale_mut", INPLACE, (mut a: Point<S, 1>, ref b: S) => <Point<S, 1> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Point<S, 1> as Normed>::unscale", 0, (ref a: Point<S, 1>, ref b: S) => <Point<S, 1> as Normed>::unscale(&a, b));
    op!(v, "<Point<S, 1> as Normed>::unscale_mut", INPLACE, (mut a: Point<S, 1>, ref b: S) => <Point<S, 1> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Point<S, 1> as Normed>::normalize", 0, (ref a: Point<S, 1>) => <Point<S, 1> as Normed>::normalize(&a));
    op!(v, "<Point<S, 1> as Normed>::normalize_mut", INPLACE, (mut a: Point<S, 1>) => <Point<S, 1> as Normed>::normalize_mut(&mut a));
    op!(v, "<Point<S, 1> as Normed>::try_normalize", 0, (ref a: Point<S, 1>, ref b: S) => <Point<S, 1> as Normed>::try_normalize(&a, b));
    op!(v, "<Point<S, 1> as Normed>::try_normalize_mut", INPLACE, (mut a: Point<S, 1>, ref b: S) => <Point<S, 1> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Point<S, 1> as Normed>::distance_squared", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>) => <Point<S, 1> as Normed>::distance_squared(&a, &b));
    op!(v, "<Point<S, 1> as Normed>::distance", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>) => <Point<S, 1> as Normed>::distance(&a, &b));
    op!(v, "<Point<S, 2> as Normed>::norm_squared", 0, (ref a: Point<S, 2>) => <Point<S, 2> as Normed>::norm_squared(&a));
}
}
mod fl_12 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "<Point<S, 2> as Normed>::norm", 0, (ref a: Point<S, 2>) => <Point<S, 2> as Normed>::norm(&a));
    op!(v, "<Point<S, 2> as Normed>::scale", 0, (ref a: Point<S, 2>, ref b: S) => <Point<S, 2> as Normed>::scale(&a, b));
    op!(v, "<Point<S, 2> as Normed>::scale_mut", INPLACE, (mut a: Point<S, 2>, ref b: S) => <Point<S, 2> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Point<S, 2> as Normed>::unscale", 0, (ref a: Point<S, 2>, ref b: S) => <Point<S, 2> as Normed>::unscale(&a, b));
    op!(v, "<Point<S, 2> as Normed>::unscale_mut", INPLACE, (mut a: Point<S, 2>, ref b: S) => <Point<S, 2> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Point<S, 2> as Normed>::normalize", 0, (ref a: Point<S, 2>) => <Point<S, 2> as Normed>::normalize(&a));
    op!(v, "<Point<S, 2> as Normed>::normalize_mut", INPLACE, (mut a: Point<S, 2>) => <Point<S, 2> as Normed>::normalize_mut(&mut a));
    op!(v, "<Point<S, 2> as Normed>::try_normalize", 0, (ref a: Point<S, 2>, ref b: S) => <Point<S, 2> as Normed>::try_normalize(&a, b));
    op!(v, "<Point<S, 2> as Normed>::try_normalize_mut", INPLACE, (mut a: Point<S, 2>, ref b: S) => <Point<S, 2> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Point<S, 2> as Normed>::distance_squared", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>) => <Point<S, 2> as Normed>::distance_squared(&a, &b));
    op!(v, "<Point<S, 2> as Normed>::distance", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>) => <Point<S, 2> as Normed>::distance(&a, &b));
    op!(v, "<Point<S, 3> as Normed>::norm_squared", 0, (ref a: Point<S, 3>) => <Point<S, 3> as Normed>::norm_squared(&a));
    op!(v, "<Point<S, 3> as Normed>::norm", 0, (ref a: Point<S, 3>) => <Point<S, 3> as Normed>::norm(&a));
    op!(v, "<Point<S, 3> as Normed>::scale", 0, (ref a: Point<S, 3>, ref b: S) => <Point<S, 3> as Normed>::scale(&a, b));
    op!(v, "<Point<S, 3> as Normed>::scale_mut", INPLACE, (mut a: Point<S, 3>, ref b: S) => <Point<S, 3> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Point<S, 3> as Normed>::unscale", 0, (ref a: Point<S, 3>, ref b: S) => <Point<S, 3> as Normed>::unscale(&a, b));
    op!(v, "<Point<S, 3> as Normed>::unscale_mut", INPLACE, (mut a: Point<S, 3>, ref b: S) => <Point<S, 3> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Point<S, 3> as Normed>::normalize", 0, (ref a: Point<S, 3>) => <Point<S, 3> as Normed>::normalize(&a));
    op!(v, "<Point<S, 3> as Normed>::normalize_mut", INPLACE, (mut a: Point<S, 3>) => <Point<S, 3> as Normed>::normalize_mut(&mut a));
    op!(v, "<Point<S, 3> as Normed>::try_normalize", 0, (ref a: Point<S, 3>, ref b: S) => <Point<S, 3> as Normed>::try_normalize(&a, b));
    op!(v, "<Point<S, 3> as Normed>::try_normalize_mut", INPLACE, (mut a: Point<S, 3>, ref b: S) => <Point<S, 3> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Point<S, 3> as Normed>::distance_squared", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>) => <Point<S, 3> as Normed>::distance_squared(&a, &b));
    op!(v, "<Point<S, 3> as Normed>::distance", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>) => <Point<S, 3> as Normed>::distance(&a, &b));
    op!(v, "<Point<S, 6> as Normed>::norm_squared", 0, (ref a: Point<S, 6>) => <Point<S, 6> as Normed>::norm_squared(&a));
    op!(v, "<Point<S, 6> as Normed>::norm", 0, (ref a: Point<S, 6>) => <Point<S, 6> as Normed>::norm(&a));
    op!(v, "<Point<S, 6> as Normed>::scale", 0, (ref a: Point<S, 6>, ref b: S) => <Point<S, 6> as Normed>::scale(&a, b));
    op!(v, "<Point<S, 6> as Normed>::scale_mut", INPLACE, (mut a: Point<S, 6>, ref b: S) => <Point<S, 6> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Point<S, 6> as Normed>::unscale", 0, (ref a: Point<S, 6>, ref b: S) => <Point<S, 6> as Normed>::unscale(&a, b));
    op!(v, "<Point<S, 6> as Normed>::unscale_mut", INPLACE, (mut a: Point<S, 6>, ref b: S) => <Point<S, 6> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Point<S, 6> as Normed>::normalize", 0, (ref a: Point<S, 6>) => <Point<S, 6> as Normed>::normalize(&a));
    op!(v, "<Point<S, 6> as Normed>::normalize_mut", INPLACE, (mut a: Point<S, 6>) => <Point<S, 6> as Normed>::normalize_mut(&mut a));
    op!(v, "<Point<S, 6> as Normed>::try_normalize", 0, (ref a: Point<S, 6>, ref b: S) => <Point<S, 6> as Normed>::try_normalize(&a, b));
    op!(v, "<Point<S, 6> as Normed>::try_normalize_mut", INPLACE, (mut a: Point<S, 6>, ref b: S) => <Point<S, 6> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Point<S, 6> as Normed>::distance_squared", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>) => <Point<S, 6> as Normed>::distance_squared(&a, &b));
    op!(v, "<Point<S, 6> as Normed>::distance", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>) => <Point<S, 6> as Normed>::distance(&a, &b));
    op!(v, "-Unit<Point<S, 1>>", 0, (ref a: Unit<Point<S, 1>>) => -a);
    op!(v, "-Unit<Point<S, 2>>", 0, (ref a: Unit<Point<S, 2>>) => -a);
    op!(v, "-Unit<Point<S, 3>>", 0, (ref a: Unit<Point<S, 3>>) => -a);
    op!(v, "-Unit<Point<S, 6>>", 0, (ref a: Unit<Point<S, 6>>) => -a);
    op!(v, "-&Unit<Point<S, 1>>", 0, (ref a: Unit<Point<S, 1>>) => -&a);
}
}
mod fl_13 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "-&Unit<Point<S, 2>>", 0, (ref a: Unit<Point<S, 2>>) => -&a);
    op!(v, "-&Unit<Point<S, 3>>", 0, (ref a: Unit<Point<S, 3>>) => -&a);
    op!(v, "-&Unit<Point<S, 6>>", 0, (ref a: Unit<Point<S, 6>>) => -&a);
    op!(v, "Quaternion<S>::modulus", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::modulus(a));
    op!(v, "Quaternion<S>::norm", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::norm(&a));
    op!(v, "Quaternion<S>::metric_distance", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => <Quaternion<S>>::metric_distance(&a, &b));
    op!(v, "Quaternion<S>::magnitude", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::magnitude(&a));
    op!(v, "Quaternion<S>::l2_norm", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::l2_norm(&a));
    op!(v, "Quaternion<S>::from_axis_angle", 0, (ref b: Unit<Vector<S, 3>>, ref c: Radians<S>) => <Quaternion<S>>::from_axis_angle(&b, c));
    op!(v, "Quaternion<S>::from_axis_angle [deg]", 0, (ref b: Unit<Vector<S, 3>>, ref c: Degrees<S>) => <Quaternion<S>>::from_axis_angle(&b, c));
    op!(v, "Quaternion<S>::from_matrix", 0, (ref b: Matrix<S, 3, 3>) => <Quaternion<S>>::from_matrix(&b));
    op!(v, "Quaternion<S>::to_matrix", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::to_matrix(&a));
    op!(v, "Quaternion<S>::to_matrix_mut", INPLACE, (ref a: Quaternion<S>, mut b: Matrix<S, 3, 3>) => <Quaternion<S>>::to_matrix_mut(&a, &mut b));
    op!(v, "Quaternion<S>::to_affine_matrix", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::to_affine_matrix(&a));
    op!(v, "Quaternion<S>::to_affine_matrix_mut", INPLACE, (ref a: Quaternion<S>, mut b: Matrix<S, 4, 4>) => <Quaternion<S>>::to_affine_matrix_mut(&a, &mut b));
    op!(v, "Quaternion<S>::try_inverse", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::try_inverse(&a));
    op!(v, "Quaternion<S>::is_invertible", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::is_invertible(&a));
    op!(v, "Quaternion<S>::inverse", PARTIAL, (ref a: Quaternion<S>) => <Quaternion<S>>::inverse(&a));
    op!(v, "Quaternion<S>::arg", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::arg(&a));
    op!(v, "Quaternion<S>::exp", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::exp(&a));
    op!(v, "Quaternion<S>::ln", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::ln(&a));
    op!(v, "Quaternion<S>::powf", 0, (ref a: Quaternion<S>, ref b: S) => <Quaternion<S>>::powf(&a, b));
    op!(v, "Quaternion<S>::sqrt", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::sqrt(&a));
    op!(v, "Quaternion<S>::div_left", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => <Quaternion<S>>::div_left(&a, &b));
    op!(v, "Quaternion<S>::div_right", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => <Quaternion<S>>::div_right(&a, &b));
    op!(v, "Quaternion<S>::inner", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => <Quaternion<S>>::inner(&a, &b));
    op!(v, "Quaternion<S>::outer", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => <Quaternion<S>>::outer(&a, &b));
    op!(v, "Quaternion<S>::rotation_between", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Quaternion<S>>::rotation_between(&b, &c));
    op!(v, "Quaternion<S>::rotation_between_axis", 0, (ref b: Unit<Vector<S, 3>>, ref c: Unit<Vector<S, 3>>) => <Quaternion<S>>::rotation_between_axis(&b, &c));
    op!(v, "Quaternion<S>::look_to_lh", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Quaternion<S>>::look_to_lh(&b, &c));
    op!(v, "Quaternion<S>::look_to_rh", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Quaternion<S>>::look_to_rh(&b, &c));
    op!(v, "Quaternion<S>::look_at_lh", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Quaternion<S>>::look_at_lh(&b, &c, &d));
    op!(v, "Quaternion<S>::look_at_rh", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Quaternion<S>>::look_at_rh(&b, &c, &d));
    op!(v, "Quaternion<S>::look_to_lh_inv", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Quaternion<S>>::look_to_lh_inv(&b, &c));
    op!(v, "Quaternion<S>::look_to_rh_inv", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Quaternion<S>>::look_to_rh_inv(&b, &c));
    op!(v, "Quaternion<S>::look_at_lh_inv", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Quaternion<S>>::look_at_lh_inv(&b, &c, &d));
    op!(v, "Quaternion<S>::look_at_rh_inv", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Quaternion<S>>::look_at_rh_inv(&b, &c, &d));
    op!(v, "Quaternion<S>::lerp", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref c: S) => <Quaternion<S>>::lerp(&a, &b, c));
    op!(v, "Quaternion<S>::nlerp", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref c: S) => <Quaternion<S>>::nlerp(&a, &b, c));
    op!(v, "Quaternion<S>::slerp", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref c: S) => <Quaternion<S>>::slerp(&a, &b, c));
}
}
mod fl_14 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Quaternion<S>::is_finite", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::is_finite(&a));
    op!(v, "Quaternion<S>::project", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => <Quaternion<S>>::project(&a, &b));
    op!(v, "Quaternion<S>::reject", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => <Quaternion<S>>::reject(&a, &b));
    op!(v, "Quaternion<S>::polar_decomposition", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::polar_decomposition(&a));
    op!(v, "Quaternion<S>::from_polar_decomposition", 0, (ref b: S, ref c: Radians<S>, ref d: Unit<Vector<S, 3>>) => <Quaternion<S>>::from_polar_decomposition(b, c, &d));
    op!(v, "Quaternion<S>::cos", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::cos(&a));
    op!(v, "Quaternion<S>::acos", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::acos(&a));
    op!(v, "Quaternion<S>::sin", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::sin(&a));
    op!(v, "Quaternion<S>::asin", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::asin(&a));
    op!(v, "Quaternion<S>::tan", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::tan(&a));
    op!(v, "Quaternion<S>::atan", PARTIAL, (ref a: Quaternion<S>) => <Quaternion<S>>::atan(&a));
    op!(v, "Quaternion<S>::cosh", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::cosh(&a));
    op!(v, "Quaternion<S>::acosh", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::acosh(&a));
    op!(v, "Quaternion<S>::sinh", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::sinh(&a));
    op!(v, "Quaternion<S>::asinh", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::asinh(&a));
    op!(v, "Quaternion<S>::tanh", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::tanh(&a));
    op!(v, "Quaternion<S>::atanh", 0, (ref a: Quaternion<S>) => <Quaternion<S>>::atanh(&a));
    op!(v, "Matrix<S, 3, 3>::from(Quaternion<S>)", 0, (ref a: Quaternion<S>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(&Quaternion<S>)", 0, (ref a: Quaternion<S>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::from(Quaternion<S>)", 0, (ref a: Quaternion<S>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(&Quaternion<S>)", 0, (ref a: Quaternion<S>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Quaternion<S>::from(Matrix<S, 3, 3>)", 0, (ref a: Matrix<S, 3, 3>) => <Quaternion<S>>::from(a));
    op!(v, "Quaternion<S>::from(&Matrix<S, 3, 3>)", 0, (ref a: Matrix<S, 3, 3>) => <Quaternion<S>>::from(&a));
    op!(v, "Quaternion<S>::from(Vector<S, 4>)", 0, (ref a: Vector<S, 4>) => <Quaternion<S>>::from(a));
    op!(v, "Quaternion<S>::from(&Vector<S, 4>)", 0, (ref a: Vector<S, 4>) => <Quaternion<S>>::from(&a));
    op!(v, "<Quaternion<S> as Normed>::norm_squared", 0, (ref a: Quaternion<S>) => <Quaternion<S> as Normed>::norm_squared(&a));
    op!(v, "<Quaternion<S> as Normed>::norm", 0, (ref a: Quaternion<S>) => <Quaternion<S> as Normed>::norm(&a));
    op!(v, "<Quaternion<S> as Normed>::scale", 0, (ref a: Quaternion<S>, ref b: S) => <Quaternion<S> as Normed>::scale(&a, b));
    op!(v, "<Quaternion<S> as Normed>::scale_mut", INPLACE, (mut a: Quaternion<S>, ref b: S) => <Quaternion<S> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Quaternion<S> as Normed>::unscale", 0, (ref a: Quaternion<S>, ref b: S) => <Quaternion<S> as Normed>::unscale(&a, b));
    op!(v, "<Quaternion<S> as Normed>::unscale_mut", INPLACE, (mut a: Quaternion<S>, ref b: S) => <Quaternion<S> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Quaternion<S> as Normed>::normalize", 0, (ref a: Quaternion<S>) => <Quaternion<S> as Normed>::normalize(&a));
    op!(v, "<Quaternion<S> as Normed>::normalize_mut", INPLACE, (mut a: Quaternion<S>) => <Quaternion<S> as Normed>::normalize_mut(&mut a));
    op!(v, "<Quaternion<S> as Normed>::try_normalize", 0, (ref a: Quaternion<S>, ref b: S) => <Quaternion<S> as Normed>::try_normalize(&a, b));
    op!(v, "<Quaternion<S> as Normed>::try_normalize_mut", INPLACE, (mut a: Quaternion<S>, ref b: S) => <Quaternion<S> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Quaternion<S> as Normed>::distance_squared", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => <Quaternion<S> as Normed>::distance_squared(&a, &b));
    op!(v, "<Quaternion<S> as Normed>::distance", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => <Quaternion<S> as Normed>::distance(&a, &b));
    op!(v, "-Unit<Quaternion<S>>", 0, (ref a: Unit<Quaternion<S>>) => -a);
    op!(v, "-&Unit<Quaternion<S>>", 0, (ref a: Unit<Quaternion<S>>) => -&a);
    op!(v, "Vector<S, 1>::norm", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::norm(&a));
}
}
mod fl_15 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 1>::metric_distance", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => <Vector<S, 1>>::metric_distance(&a, &b));
    op!(v, "Vector<S, 1>::magnitude", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::magnitude(&a));
    op!(v, "Vector<S, 1>::l2_norm", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::l2_norm(&a));
    op!(v, "Vector<S, 1>::lp_norm", 0, (ref a: Vector<S, 1>, ref b: Small) => <Vector<S, 1>>::lp_norm(&a, b.0 as u32));
    op!(v, "Vector<S, 2>::norm", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::norm(&a));
    op!(v, "Vector<S, 2>::metric_distance", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => <Vector<S, 2>>::metric_distance(&a, &b));
    op!(v, "Vector<S, 2>::magnitude", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::magnitude(&a));
    op!(v, "Vector<S, 2>::l2_norm", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::l2_norm(&a));
    op!(v, "Vector<S, 2>::lp_norm", 0, (ref a: Vector<S, 2>, ref b: Small) => <Vector<S, 2>>::lp_norm(&a, b.0 as u32));
    op!(v, "Vector<S, 3>::norm", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::norm(&a));
    op!(v, "Vector<S, 3>::metric_distance", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => <Vector<S, 3>>::metric_distance(&a, &b));
    op!(v, "Vector<S, 3>::magnitude", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::magnitude(&a));
    op!(v, "Vector<S, 3>::l2_norm", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::l2_norm(&a));
    op!(v, "Vector<S, 3>::lp_norm", 0, (ref a: Vector<S, 3>, ref b: Small) => <Vector<S, 3>>::lp_norm(&a, b.0 as u32));
    op!(v, "Vector<S, 4>::norm", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::norm(&a));
    op!(v, "Vector<S, 4>::metric_distance", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => <Vector<S, 4>>::metric_distance(&a, &b));
    op!(v, "Vector<S, 4>::magnitude", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::magnitude(&a));
    op!(v, "Vector<S, 4>::l2_norm", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::l2_norm(&a));
    op!(v, "Vector<S, 4>::lp_norm", 0, (ref a: Vector<S, 4>, ref b: Small) => <Vector<S, 4>>::lp_norm(&a, b.0 as u32));
    op!(v, "Vector<S, 5>::norm", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::norm(&a));
    op!(v, "Vector<S, 5>::metric_distance", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => <Vector<S, 5>>::metric_distance(&a, &b));
    op!(v, "Vector<S, 5>::magnitude", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::magnitude(&a));
    op!(v, "Vector<S, 5>::l2_norm", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::l2_norm(&a));
    op!(v, "Vector<S, 5>::lp_norm", 0, (ref a: Vector<S, 5>, ref b: Small) => <Vector<S, 5>>::lp_norm(&a, b.0 as u32));
    op!(v, "Vector<S, 9>::norm", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::norm(&a));
    op!(v, "Vector<S, 9>::metric_distance", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => <Vector<S, 9>>::metric_distance(&a, &b));
    op!(v, "Vector<S, 9>::magnitude", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::magnitude(&a));
    op!(v, "Vector<S, 9>::l2_norm", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::l2_norm(&a));
    op!(v, "Vector<S, 9>::lp_norm", 0, (ref a: Vector<S, 9>, ref b: Small) => <Vector<S, 9>>::lp_norm(&a, b.0 as u32));
    op!(v, "Vector<S, 1>::is_finite", 0, (ref a: Vector<S, 1>) => <Vector<S, 1>>::is_finite(&a));
    op!(v, "Vector<S, 1>::lerp", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref c: S) => <Vector<S, 1>>::lerp(&a, &b, c));
    op!(v, "Vector<S, 1>::project", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => <Vector<S, 1>>::project(&a, &b));
    op!(v, "Vector<S, 1>::reflect", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => <Vector<S, 1>>::reflect(&a, &b));
    op!(v, "Vector<S, 1>::component_min", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => <Vector<S, 1>>::component_min(&a, &b));
    op!(v, "Vector<S, 1>::component_max", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => <Vector<S, 1>>::component_max(&a, &b));
    op!(v, "Vector<S, 2>::is_finite", 0, (ref a: Vector<S, 2>) => <Vector<S, 2>>::is_finite(&a));
    op!(v, "Vector<S, 2>::lerp", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref c: S) => <Vector<S, 2>>::lerp(&a, &b, c));
    op!(v, "Vector<S, 2>::project", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => <Vector<S, 2>>::project(&a, &b));
    op!(v, "Vector<S, 2>::reflect", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => <Vector<S, 2>>::reflect(&a, &b));
    op!(v, "Vector<S, 2>::component_min", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => <Vector<S, 2>>::component_min(&a, &b));
}
}
mod fl_16 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 2>::component_max", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => <Vector<S, 2>>::component_max(&a, &b));
    op!(v, "Vector<S, 3>::is_finite", 0, (ref a: Vector<S, 3>) => <Vector<S, 3>>::is_finite(&a));
    op!(v, "Vector<S, 3>::lerp", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref c: S) => <Vector<S, 3>>::lerp(&a, &b, c));
    op!(v, "Vector<S, 3>::project", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => <Vector<S, 3>>::project(&a, &b));
    op!(v, "Vector<S, 3>::reflect", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => <Vector<S, 3>>::reflect(&a, &b));
    op!(v, "Vector<S, 3>::component_min", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => <Vector<S, 3>>::component_min(&a, &b));
    op!(v, "Vector<S, 3>::component_max", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => <Vector<S, 3>>::component_max(&a, &b));
    op!(v, "Vector<S, 4>::is_finite", 0, (ref a: Vector<S, 4>) => <Vector<S, 4>>::is_finite(&a));
    op!(v, "Vector<S, 4>::lerp", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref c: S) => <Vector<S, 4>>::lerp(&a, &b, c));
    op!(v, "Vector<S, 4>::project", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => <Vector<S, 4>>::project(&a, &b));
    op!(v, "Vector<S, 4>::reflect", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => <Vector<S, 4>>::reflect(&a, &b));
    op!(v, "Vector<S, 4>::component_min", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => <Vector<S, 4>>::component_min(&a, &b));
    op!(v, "Vector<S, 4>::component_max", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => <Vector<S, 4>>::component_max(&a, &b));
    op!(v, "Vector<S, 5>::is_finite", 0, (ref a: Vector<S, 5>) => <Vector<S, 5>>::is_finite(&a));
    op!(v, "Vector<S, 5>::lerp", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref c: S) => <Vector<S, 5>>::lerp(&a, &b, c));
    op!(v, "Vector<S, 5>::project", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => <Vector<S, 5>>::project(&a, &b));
    op!(v, "Vector<S, 5>::reflect", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => <Vector<S, 5>>::reflect(&a, &b));
    op!(v, "Vector<S, 5>::component_min", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => <Vector<S, 5>>::component_min(&a, &b));
    op!(v, "Vector<S, 5>::component_max", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => <Vector<S, 5>>::component_max(&a, &b));
    op!(v, "Vector<S, 9>::is_finite", 0, (ref a: Vector<S, 9>) => <Vector<S, 9>>::is_finite(&a));
    op!(v, "Vector<S, 9>::lerp", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref c: S) => <Vector<S, 9>>::lerp(&a, &b, c));
    op!(v, "Vector<S, 9>::project", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => <Vector<S, 9>>::project(&a, &b));
    op!(v, "Vector<S, 9>::reflect", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => <Vector<S, 9>>::reflect(&a, &b));
    op!(v, "Vector<S, 9>::component_min", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => <Vector<S, 9>>::component_min(&a, &b));
    op!(v, "Vector<S, 9>::component_max", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => <Vector<S, 9>>::component_max(&a, &b));
    op!(v, "<Vector<S, 1> as Normed>::norm_squared", 0, (ref a: Vector<S, 1>) => <Vector<S, 1> as Normed>::norm_squared(&a));
    op!(v, "<Vector<S, 1> as Normed>::norm", 0, (ref a: Vector<S, 1>) => <Vector<S, 1> as Normed>::norm(&a));
    op!(v, "<Vector<S, 1> as Normed>::scale", 0, (ref a: Vector<S, 1>, ref b: S) => <Vector<S, 1> as Normed>::scale(&a, b));
    op!(v, "<Vector<S, 1> as Normed>::scale_mut", INPLACE, (mut a: Vector<S, 1>, ref b: S) => <Vector<S, 1> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Vector<S, 1> as Normed>::unscale", 0, (ref a: Vector<S, 1>, ref b: S) => <Vector<S, 1> as Normed>::unscale(&a, b));
    op!(v, "<Vector<S, 1> as Normed>::unscale_mut", INPLACE, (mut a: Vector<S, 1>, ref b: S) => <Vector<S, 1> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Vector<S, 1> as Normed>::normalize", 0, (ref a: Vector<S, 1>) => <Vector<S, 1> as Normed>::normalize(&a));
    op!(v, "<Vector<S, 1> as Normed>::normalize_mut", INPLACE, (mut a: Vector<S, 1>) => <Vector<S, 1> as Normed>::normalize_mut(&mut a));
    op!(v, "<Vector<S, 1> as Normed>::try_normalize", 0, (ref a: Vector<S, 1>, ref b: S) => <Vector<S, 1> as Normed>::try_normalize(&a, b));
    op!(v, "<Vector<S, 1> as Normed>::try_normalize_mut", INPLACE, (mut a: Vector<S, 1>, ref b: S) => <Vector<S, 1> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Vector<S, 1> as Normed>::distance_squared", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => <Vector<S, 1> as Normed>::distance_squared(&a, &b));
    op!(v, "<Vector<S, 1> as Normed>::distance", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => <Vector<S, 1> as Normed>::distance(&a, &b));
    op!(v, "<Vector<S, 2> as Normed>::norm_squared", 0, (ref a: Vector<S, 2>) => <Vector<S, 2> as Normed>::norm_squared(&a));
    op!(v, "<Vector<S, 2> as Normed>::norm", 0, (ref a: Vector<S, 2>) => <Vector<S, 2> as Normed>::norm(&a));
    op!(v, "<Vector<S, 2> as Normed>::scale", 0, (ref a: Vector<S, 2>, ref b: S) => <Vector<S, 2> as Normed>::scale(&a, b));
}
}
mod fl_17 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "<Vector<S, 2> as Normed>::scale_mut", INPLACE, (mut a: Vector<S, 2>, ref b: S) => <Vector<S, 2> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Vector<S, 2> as Normed>::unscale", 0, (ref a: Vector<S, 2>, ref b: S) => <Vector<S, 2> as Normed>::unscale(&a, b));
    op!(v, "<Vector<S, 2> as Normed>::unscale_mut", INPLACE, (mut a: Vector<S, 2>, ref b: S) => <Vector<S, 2> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Vector<S, 2> as Normed>::normalize", 0, (ref a: Vector<S, 2>) => <Vector<S, 2> as Normed>::normalize(&a));
    op!(v, "<Vector<S, 2> as Normed>::normalize_mut", INPLACE, (mut a: Vector<S, 2>) => <Vector<S, 2> as Normed>::normalize_mut(&mut a));
    op!(v, "<Vector<S, 2> as Normed>::try_normalize", 0, (ref a: Vector<S, 2>, ref b: S) => <Vector<S, 2> as Normed>::try_normalize(&a, b));
    op!(v, "<Vector<S, 2> as Normed>::try_normalize_mut", INPLACE, (mut a: Vector<S, 2>, ref b: S) => <Vector<S, 2> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Vector<S, 2> as Normed>::distance_squared", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => <Vector<S, 2> as Normed>::distance_squared(&a, &b));
    op!(v, "<Vector<S, 2> as Normed>::distance", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => <Vector<S, 2> as Normed>::distance(&a, &b));
    op!(v, "<Vector<S, 3> as Normed>::norm_squared", 0, (ref a: Vector<S, 3>) => <Vector<S, 3> as Normed>::norm_squared(&a));
    op!(v, "<Vector<S, 3> as Normed>::norm", 0, (ref a: Vector<S, 3>) => <Vector<S, 3> as Normed>::norm(&a));
    op!(v, "<Vector<S, 3> as Normed>::scale", 0, (ref a: Vector<S, 3>, ref b: S) => <Vector<S, 3> as Normed>::scale(&a, b));
    op!(v, "<Vector<S, 3> as Normed>::scale_mut", INPLACE, (mut a: Vector<S, 3>, ref b: S) => <Vector<S, 3> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Vector<S, 3> as Normed>::unscale", 0, (ref a: Vector<S, 3>, ref b: S) => <Vector<S, 3> as Normed>::unscale(&a, b));
    op!(v, "<Vector<S, 3> as Normed>::unscale_mut", INPLACE, (mut a: Vector<S, 3>, ref b: S) => <Vector<S, 3> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Vector<S, 3> as Normed>::normalize", 0, (ref a: Vector<S, 3>) => <Vector<S, 3> as Normed>::normalize(&a));
    op!(v, "<Vector<S, 3> as Normed>::normalize_mut", INPLACE, (mut a: Vector<S, 3>) => <Vector<S, 3> as Normed>::normalize_mut(&mut a));
    op!(v, "<Vector<S, 3> as Normed>::try_normalize", 0, (ref a: Vector<S, 3>, ref b: S) => <Vector<S, 3> as Normed>::try_normalize(&a, b));
    op!(v, "<Vector<S, 3> as Normed>::try_normalize_mut", INPLACE, (mut a: Vector<S, 3>, ref b: S) => <Vector<S, 3> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Vector<S, 3> as Normed>::distance_squared", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => <Vector<S, 3> as Normed>::distance_squared(&a, &b));
    op!(v, "<Vector<S, 3> as Normed>::distance", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => <Vector<S, 3> as Normed>::distance(&a, &b));
    op!(v, "<Vector<S, 4> as Normed>::norm_squared", 0, (ref a: Vector<S, 4>) => <Vector<S, 4> as Normed>::norm_squared(&a));
    op!(v, "<Vector<S, 4> as Normed>::norm", 0, (ref a: Vector<S, 4>) => <Vector<S, 4> as Normed>::norm(&a));
    op!(v, "<Vector<S, 4> as Normed>::scale", 0, (ref a: Vector<S, 4>, ref b: S) => <Vector<S, 4> as Normed>::scale(&a, b));
    op!(v, "<Vector<S, 4> as Normed>::scale_mut", INPLACE, (mut a: Vector<S, 4>, ref b: S) => <Vector<S, 4> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Vector<S, 4> as Normed>::unscale", 0, (ref a: Vector<S, 4>, ref b: S) => <Vector<S, 4> as Normed>::unscale(&a, b));
    op!(v, "<Vector<S, 4> as Normed>::unscale_mut", INPLACE, (mut a: Vector<S, 4>, ref b: S) => <Vector<S, 4> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Vector<S, 4> as Normed>::normalize", 0, (ref a: Vector<S, 4>) => <Vector<S, 4> as Normed>::normalize(&a));
    op!(v, "<Vector<S, 4> as Normed>::normalize_mut", INPLACE, (mut a: Vector<S, 4>) => <Vector<S, 4> as Normed>::normalize_mut(&mut a));
    op!(v, "<Vector<S, 4> as Normed>::try_normalize", 0, (ref a: Vector<S, 4>, ref b: S) => <Vector<S, 4> as Normed>::try_normalize(&a, b));
    op!(v, "<Vector<S, 4> as Normed>::try_normalize_mut", INPLACE, (mut a: Vector<S, 4>, ref b: S) => <Vector<S, 4> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Vector<S, 4> as Normed>::distance_squared", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => <Vector<S, 4> as Normed>::distance_squared(&a, &b));
    op!(v, "<Vector<S, 4> as Normed>::distance", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => <Vector<S, 4> as Normed>::distance(&a, &b));
    op!(v, "<Vector<S, 5> as Normed>::norm_squared", 0, (ref a: Vector<S, 5>) => <Vector<S, 5> as Normed>::norm_squared(&a));
    op!(v, "<Vector<S, 5> as Normed>::norm", 0, (ref a: Vector<S, 5>) => <Vector<S, 5> as Normed>::norm(&a));
    op!(v, "<Vector<S, 5> as Normed>::scale", 0, (ref a: Vector<S, 5>, ref b: S) => <Vector<S, 5> as Normed>::scale(&a, b));
    op!(v, "<Vector<S, 5> as Normed>::scale_mut", INPLACE, (mut a: Vector<S, 5>, ref b: S) => <Vector<S, 5> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Vector<S, 5> as Normed>::unscale", 0, (ref a: Vector<S, 5>, ref b: S) => <Vector<S, 5> as Normed>::unscale(&a, b));
    op!(v, "<Vector<S, 5> as Normed>::unscale_mut", INPLACE, (mut a: Vector<S, 5>, ref b: S) => <Vector<S, 5> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Vector<S, 5> as Normed>::normalize", 0, (ref a: Vector<S, 5>) => <Vector<S, 5> as Normed>::normalize(&a));
}
}
mod fl_18 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "<Vector<S, 5> as Normed>::normalize_mut", INPLACE, (mut a: Vector<S, 5>) => <Vector<S, 5> as Normed>::normalize_mut(&mut a));
    op!(v, "<Vector<S, 5> as Normed>::try_normalize", 0, (ref a: Vector<S, 5>, ref b: S) => <Vector<S, 5> as Normed>::try_normalize(&a, b));
    op!(v, "<Vector<S, 5> as Normed>::try_normalize_mut", INPLACE, (mut a: Vector<S, 5>, ref b: S) => <Vector<S, 5> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Vector<S, 5> as Normed>::distance_squared", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => <Vector<S, 5> as Normed>::distance_squared(&a, &b));
    op!(v, "<Vector<S, 5> as Normed>::distance", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => <Vector<S, 5> as Normed>::distance(&a, &b));
    op!(v, "<Vector<S, 9> as Normed>::norm_squared", 0, (ref a: Vector<S, 9>) => <Vector<S, 9> as Normed>::norm_squared(&a));
    op!(v, "<Vector<S, 9> as Normed>::norm", 0, (ref a: Vector<S, 9>) => <Vector<S, 9> as Normed>::norm(&a));
    op!(v, "<Vector<S, 9> as Normed>::scale", 0, (ref a: Vector<S, 9>, ref b: S) => <Vector<S, 9> as Normed>::scale(&a, b));
    op!(v, "<Vector<S, 9> as Normed>::scale_mut", INPLACE, (mut a: Vector<S, 9>, ref b: S) => <Vector<S, 9> as Normed>::scale_mut(&mut a, b));
    op!(v, "<Vector<S, 9> as Normed>::unscale", 0, (ref a: Vector<S, 9>, ref b: S) => <Vector<S, 9> as Normed>::unscale(&a, b));
    op!(v, "<Vector<S, 9> as Normed>::unscale_mut", INPLACE, (mut a: Vector<S, 9>, ref b: S) => <Vector<S, 9> as Normed>::unscale_mut(&mut a, b));
    op!(v, "<Vector<S, 9> as Normed>::normalize", 0, (ref a: Vector<S, 9>) => <Vector<S, 9> as Normed>::normalize(&a));
    op!(v, "<Vector<S, 9> as Normed>::normalize_mut", INPLACE, (mut a: Vector<S, 9>) => <Vector<S, 9> as Normed>::normalize_mut(&mut a));
    op!(v, "<Vector<S, 9> as Normed>::try_normalize", 0, (ref a: Vector<S, 9>, ref b: S) => <Vector<S, 9> as Normed>::try_normalize(&a, b));
    op!(v, "<Vector<S, 9> as Normed>::try_normalize_mut", INPLACE, (mut a: Vector<S, 9>, ref b: S) => <Vector<S, 9> as Normed>::try_normalize_mut(&mut a, b));
    op!(v, "<Vector<S, 9> as Normed>::distance_squared", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => <Vector<S, 9> as Normed>::distance_squared(&a, &b));
    op!(v, "<Vector<S, 9> as Normed>::distance", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => <Vector<S, 9> as Normed>::distance(&a, &b));
    op!(v, "-Unit<Vector<S, 1>>", 0, (ref a: Unit<Vector<S, 1>>) => -a);
    op!(v, "-Unit<Vector<S, 2>>", 0, (ref a: Unit<Vector<S, 2>>) => -a);
    op!(v, "-Unit<Vector<S, 3>>", 0, (ref a: Unit<Vector<S, 3>>) => -a);
    op!(v, "-Unit<Vector<S, 4>>", 0, (ref a: Unit<Vector<S, 4>>) => -a);
    op!(v, "-Unit<Vector<S, 5>>", 0, (ref a: Unit<Vector<S, 5>>) => -a);
    op!(v, "-Unit<Vector<S, 9>>", 0, (ref a: Unit<Vector<S, 9>>) => -a);
    op!(v, "-&Unit<Vector<S, 1>>", 0, (ref a: Unit<Vector<S, 1>>) => -&a);
    op!(v, "-&Unit<Vector<S, 2>>", 0, (ref a: Unit<Vector<S, 2>>) => -&a);
    op!(v, "-&Unit<Vector<S, 3>>", 0, (ref a: Unit<Vector<S, 3>>) => -&a);
    op!(v, "-&Unit<Vector<S, 4>>", 0, (ref a: Unit<Vector<S, 4>>) => -&a);
    op!(v, "-&Unit<Vector<S, 5>>", 0, (ref a: Unit<Vector<S, 5>>) => -&a);
    op!(v, "-&Unit<Vector<S, 9>>", 0, (ref a: Unit<Vector<S, 9>>) => -&a);
    op!(v, "Isometry<S, 2>::from_parts", 0, (ref b: Translation<S, 2>, ref c: Rotation<S, 2>) => <Isometry<S, 2>>::from_parts(&b, &c));
    op!(v, "Isometry<S, 2>::from_translation", 0, (ref b: Translation<S, 2>) => <Isometry<S, 2>>::from_translation(&b));
    op!(v, "Isometry<S, 2>::from_rotation", 0, (ref b: Rotation<S, 2>) => <Isometry<S, 2>>::from_rotation(&b));
    op!(v, "Isometry<S, 3>::from_parts", 0, (ref b: Translation<S, 3>, ref c: Rotation<S, 3>) => <Isometry<S, 3>>::from_parts(&b, &c));
    op!(v, "Isometry<S, 3>::from_translation", 0, (ref b: Translation<S, 3>) => <Isometry<S, 3>>::from_translation(&b));
    op!(v, "Isometry<S, 3>::from_rotation", 0, (ref b: Rotation<S, 3>) => <Isometry<S, 3>>::from_rotation(&b));
    op!(v, "Isometry<S, 2>::rotation", 0, (ref a: Isometry<S, 2>) => <Isometry<S, 2>>::rotation(&a));
    op!(v, "Isometry<S, 2>::translation", 0, (ref a: Isometry<S, 2>) => <Isometry<S, 2>>::translation(&a));
    op!(v, "Isometry<S, 2>::inverse", 0, (ref a: Isometry<S, 2>) => <Isometry<S, 2>>::inverse(&a));
    op!(v, "Isometry<S, 2>::inverse_mut", INPLACE|MULTI, (mut a: Isometry<S, 2>) => <Isometry<S, 2>>::inverse_mut(&mut a));
    op!(v, "Isometry<S, 2>::apply_point", 0, (ref a: Isometry<S, 2>, ref b: Point<S, 2>) => <Isometry<S, 2>>::apply_point(&a, &b));
}
}
mod fl_19 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Isometry<S, 2>::apply_vector", 0, (ref a: Isometry<S, 2>, ref b: Vector<S, 2>) => <Isometry<S, 2>>::apply_vector(&a, &b));
    op!(v, "Isometry<S, 2>::inverse_apply_point", 0, (ref a: Isometry<S, 2>, ref b: Point<S, 2>) => <Isometry<S, 2>>::inverse_apply_point(&a, &b));
    op!(v, "Isometry<S, 2>::inverse_apply_vector", 0, (ref a: Isometry<S, 2>, ref b: Vector<S, 2>) => <Isometry<S, 2>>::inverse_apply_vector(&a, &b));
    op!(v, "Isometry<S, 2>::identity", 0, () => <Isometry<S, 2>>::identity());
    op!(v, "Isometry<S, 3>::rotation", 0, (ref a: Isometry<S, 3>) => <Isometry<S, 3>>::rotation(&a));
    op!(v, "Isometry<S, 3>::translation", 0, (ref a: Isometry<S, 3>) => <Isometry<S, 3>>::translation(&a));
    op!(v, "Isometry<S, 3>::inverse", 0, (ref a: Isometry<S, 3>) => <Isometry<S, 3>>::inverse(&a));
    op!(v, "Isometry<S, 3>::inverse_mut", INPLACE|MULTI, (mut a: Isometry<S, 3>) => <Isometry<S, 3>>::inverse_mut(&mut a));
    op!(v, "Isometry<S, 3>::apply_point", 0, (ref a: Isometry<S, 3>, ref b: Point<S, 3>) => <Isometry<S, 3>>::apply_point(&a, &b));
    op!(v, "Isometry<S, 3>::apply_vector", 0, (ref a: Isometry<S, 3>, ref b: Vector<S, 3>) => <Isometry<S, 3>>::apply_vector(&a, &b));
    op!(v, "Isometry<S, 3>::inverse_apply_point", 0, (ref a: Isometry<S, 3>, ref b: Point<S, 3>) => <Isometry<S, 3>>::inverse_apply_point(&a, &b));
    op!(v, "Isometry<S, 3>::inverse_apply_vector", 0, (ref a: Isometry<S, 3>, ref b: Vector<S, 3>) => <Isometry<S, 3>>::inverse_apply_vector(&a, &b));
    op!(v, "Isometry<S, 3>::identity", 0, () => <Isometry<S, 3>>::identity());
    op!(v, "Isometry<S, 2>::to_affine_matrix", 0, (ref a: Isometry<S, 2>) => <Isometry<S, 2>>::to_affine_matrix(&a));
    op!(v, "Isometry<S, 2>::to_transform", 0, (ref a: Isometry<S, 2>) => <Isometry<S, 2>>::to_transform(&a));
    op!(v, "Isometry<S, 3>::to_affine_matrix", 0, (ref a: Isometry<S, 3>) => <Isometry<S, 3>>::to_affine_matrix(&a));
    op!(v, "Isometry<S, 3>::to_transform", 0, (ref a: Isometry<S, 3>) => <Isometry<S, 3>>::to_transform(&a));
    op!(v, "Matrix<S, 3, 3>::from(Isometry<S, 2>)", 0, (ref a: Isometry<S, 2>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(Isometry<S, 3>)", 0, (ref a: Isometry<S, 3>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(&Isometry<S, 2>)", 0, (ref a: Isometry<S, 2>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::from(&Isometry<S, 3>)", 0, (ref a: Isometry<S, 3>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Isometry<S, 2> * Point<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Point<S, 2>) => a * b);
    op!(v, "Isometry<S, 3> * Point<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Point<S, 3>) => a * b);
    op!(v, "Isometry<S, 2> * &Point<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Point<S, 2>) => a * &b);
    op!(v, "Isometry<S, 3> * &Point<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Point<S, 3>) => a * &b);
    op!(v, "&Isometry<S, 2> * Point<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Point<S, 2>) => &a * b);
    op!(v, "&Isometry<S, 3> * Point<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Point<S, 3>) => &a * b);
    op!(v, "&Isometry<S, 2> * &Point<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Point<S, 2>) => &a * &b);
    op!(v, "&Isometry<S, 3> * &Point<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Point<S, 3>) => &a * &b);
    op!(v, "Isometry<S, 2> * Vector<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Isometry<S, 3> * Vector<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Isometry<S, 2> * &Vector<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "Isometry<S, 3> * &Vector<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "&Isometry<S, 2> * Vector<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Isometry<S, 3> * Vector<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Isometry<S, 2> * &Vector<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Vector<S, 2>) => &a * &b);
    op!(v, "&Isometry<S, 3> * &Vector<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "Isometry<S, 2> * Isometry<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>) => a * b);
    op!(v, "Isometry<S, 3> * Isometry<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>) => a * b);
    op!(v, "Isometry<S, 2> * &Isometry<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>) => a * &b);
}
}
mod fl_20 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Isometry<S, 3> * &Isometry<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>) => a * &b);
    op!(v, "&Isometry<S, 2> * Isometry<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>) => &a * b);
    op!(v, "&Isometry<S, 3> * Isometry<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>) => &a * b);
    op!(v, "&Isometry<S, 2> * &Isometry<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>) => &a * &b);
    op!(v, "&Isometry<S, 3> * &Isometry<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>) => &a * &b);
    op!(v, "Isometry<S, 2>::from_angle_translation", 0, (ref b: Radians<S>, ref c: Vector<S, 2>) => <Isometry<S, 2>>::from_angle_translation(b, &c));
    op!(v, "Isometry<S, 2>::from_angle_translation [deg]", 0, (ref b: Degrees<S>, ref c: Vector<S, 2>) => <Isometry<S, 2>>::from_angle_translation(b, &c));
    op!(v, "Isometry<S, 2>::from_angle", 0, (ref b: Radians<S>) => <Isometry<S, 2>>::from_angle(b));
    op!(v, "Isometry<S, 2>::from_angle [deg]", 0, (ref b: Degrees<S>) => <Isometry<S, 2>>::from_angle(b));
    op!(v, "Isometry<S, 2>::rotation_between_axis", 0, (ref b: Unit<Vector<S, 2>>, ref c: Unit<Vector<S, 2>>) => <Isometry<S, 2>>::rotation_between_axis(&b, &c));
    op!(v, "Isometry<S, 2>::rotation_between", 0, (ref b: Vector<S, 2>, ref c: Vector<S, 2>) => <Isometry<S, 2>>::rotation_between(&b, &c));
    op!(v, "Isometry<S, 3>::from_axis_angle_translation", 0, (ref b: Unit<Vector<S, 3>>, ref c: Radians<S>, ref d: Vector<S, 3>) => <Isometry<S, 3>>::from_axis_angle_translation(&b, c, &d));
    op!(v, "Isometry<S, 3>::from_axis_angle_translation [deg]", 0, (ref b: Unit<Vector<S, 3>>, ref c: Degrees<S>, ref d: Vector<S, 3>) => <Isometry<S, 3>>::from_axis_angle_translation(&b, c, &d));
    op!(v, "Isometry<S, 3>::from_axis_angle", 0, (ref b: Unit<Vector<S, 3>>, ref c: Radians<S>) => <Isometry<S, 3>>::from_axis_angle(&b, c));
    op!(v, "Isometry<S, 3>::from_axis_angle [deg]", 0, (ref b: Unit<Vector<S, 3>>, ref c: Degrees<S>) => <Isometry<S, 3>>::from_axis_angle(&b, c));
    op!(v, "Isometry<S, 3>::from_angle_x", 0, (ref b: Radians<S>) => <Isometry<S, 3>>::from_angle_x(b));
    op!(v, "Isometry<S, 3>::from_angle_x [deg]", 0, (ref b: Degrees<S>) => <Isometry<S, 3>>::from_angle_x(b));
    op!(v, "Isometry<S, 3>::from_angle_y", 0, (ref b: Radians<S>) => <Isometry<S, 3>>::from_angle_y(b));
    op!(v, "Isometry<S, 3>::from_angle_y [deg]", 0, (ref b: Degrees<S>) => <Isometry<S, 3>>::from_angle_y(b));
    op!(v, "Isometry<S, 3>::from_angle_z", 0, (ref b: Radians<S>) => <Isometry<S, 3>>::from_angle_z(b));
    op!(v, "Isometry<S, 3>::from_angle_z [deg]", 0, (ref b: Degrees<S>) => <Isometry<S, 3>>::from_angle_z(b));
    op!(v, "Isometry<S, 3>::rotation_between", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Isometry<S, 3>>::rotation_between(&b, &c));
    op!(v, "Isometry<S, 3>::rotation_between_axis", 0, (ref b: Unit<Vector<S, 3>>, ref c: Unit<Vector<S, 3>>) => <Isometry<S, 3>>::rotation_between_axis(&b, &c));
    op!(v, "Isometry<S, 3>::look_to_lh", 0, (ref b: Point<S, 3>, ref c: Vector<S, 3>, ref d: Vector<S, 3>) => <Isometry<S, 3>>::look_to_lh(&b, &c, &d));
    op!(v, "Isometry<S, 3>::look_to_rh", 0, (ref b: Point<S, 3>, ref c: Vector<S, 3>, ref d: Vector<S, 3>) => <Isometry<S, 3>>::look_to_rh(&b, &c, &d));
    op!(v, "Isometry<S, 3>::look_at_lh", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Isometry<S, 3>>::look_at_lh(&b, &c, &d));
    op!(v, "Isometry<S, 3>::look_at_rh", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Isometry<S, 3>>::look_at_rh(&b, &c, &d));
    op!(v, "Isometry<S, 3>::look_to_lh_inv", 0, (ref b: Point<S, 3>, ref c: Vector<S, 3>, ref d: Vector<S, 3>) => <Isometry<S, 3>>::look_to_lh_inv(&b, &c, &d));
    op!(v, "Isometry<S, 3>::look_to_rh_inv", 0, (ref b: Point<S, 3>, ref c: Vector<S, 3>, ref d: Vector<S, 3>) => <Isometry<S, 3>>::look_to_rh_inv(&b, &c, &d));
    op!(v, "Isometry<S, 3>::look_at_lh_inv", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Isometry<S, 3>>::look_at_lh_inv(&b, &c, &d));
    op!(v, "Isometry<S, 3>::look_at_rh_inv", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Isometry<S, 3>>::look_at_rh_inv(&b, &c, &d));
    op!(v, "Rotation<S, 2> * Translation<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Translation<S, 2>) => a * b);
    op!(v, "Rotation<S, 3> * Translation<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Translation<S, 3>) => a * b);
    op!(v, "Rotation<S, 2> * &Translation<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Translation<S, 2>) => a * &b);
    op!(v, "Rotation<S, 3> * &Translation<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Translation<S, 3>) => a * &b);
    op!(v, "&Rotation<S, 2> * Translation<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Translation<S, 2>) => &a * b);
    op!(v, "&Rotation<S, 3> * Translation<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Translation<S, 3>) => &a * b);
    op!(v, "&Rotation<S, 2> * &Translation<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Translation<S, 2>) => &a * &b);
    op!(v, "&Rotation<S, 3> * &Translation<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Translation<S, 3>) => &a * &b);
    op!(v, "Translation<S, 2> * Rotation<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Rotation<S, 2>) => a * b);
}
}
mod fl_21 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Translation<S, 3> * Rotation<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Rotation<S, 3>) => a * b);
    op!(v, "Translation<S, 2> * &Rotation<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Rotation<S, 2>) => a * &b);
    op!(v, "Translation<S, 3> * &Rotation<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Rotation<S, 3>) => a * &b);
    op!(v, "&Translation<S, 2> * Rotation<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Rotation<S, 2>) => &a * b);
    op!(v, "&Translation<S, 3> * Rotation<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Rotation<S, 3>) => &a * b);
    op!(v, "&Translation<S, 2> * &Rotation<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Rotation<S, 2>) => &a * &b);
    op!(v, "&Translation<S, 3> * &Rotation<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Rotation<S, 3>) => &a * &b);
    op!(v, "Isometry<S, 2> * Translation<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Translation<S, 2>) => a * b);
    op!(v, "Isometry<S, 3> * Translation<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Translation<S, 3>) => a * b);
    op!(v, "Isometry<S, 2> * &Translation<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Translation<S, 2>) => a * &b);
    op!(v, "Isometry<S, 3> * &Translation<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Translation<S, 3>) => a * &b);
    op!(v, "&Isometry<S, 2> * Translation<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Translation<S, 2>) => &a * b);
    op!(v, "&Isometry<S, 3> * Translation<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Translation<S, 3>) => &a * b);
    op!(v, "&Isometry<S, 2> * &Translation<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Translation<S, 2>) => &a * &b);
    op!(v, "&Isometry<S, 3> * &Translation<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Translation<S, 3>) => &a * &b);
    op!(v, "Translation<S, 2> * Isometry<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Isometry<S, 2>) => a * b);
    op!(v, "Translation<S, 3> * Isometry<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Isometry<S, 3>) => a * b);
    op!(v, "Translation<S, 2> * &Isometry<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Isometry<S, 2>) => a * &b);
    op!(v, "Translation<S, 3> * &Isometry<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Isometry<S, 3>) => a * &b);
    op!(v, "&Translation<S, 2> * Isometry<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Isometry<S, 2>) => &a * b);
    op!(v, "&Translation<S, 3> * Isometry<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Isometry<S, 3>) => &a * b);
    op!(v, "&Translation<S, 2> * &Isometry<S, 2>", 0, (ref a: Translation<S, 2>, ref b: Isometry<S, 2>) => &a * &b);
    op!(v, "&Translation<S, 3> * &Isometry<S, 3>", 0, (ref a: Translation<S, 3>, ref b: Isometry<S, 3>) => &a * &b);
    op!(v, "Isometry<S, 2> * Rotation<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Rotation<S, 2>) => a * b);
    op!(v, "Isometry<S, 3> * Rotation<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Rotation<S, 3>) => a * b);
    op!(v, "Isometry<S, 2> * &Rotation<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Rotation<S, 2>) => a * &b);
    op!(v, "Isometry<S, 3> * &Rotation<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Rotation<S, 3>) => a * &b);
    op!(v, "&Isometry<S, 2> * Rotation<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Rotation<S, 2>) => &a * b);
    op!(v, "&Isometry<S, 3> * Rotation<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Rotation<S, 3>) => &a * b);
    op!(v, "&Isometry<S, 2> * &Rotation<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Rotation<S, 2>) => &a * &b);
    op!(v, "&Isometry<S, 3> * &Rotation<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Rotation<S, 3>) => &a * &b);
    op!(v, "Rotation<S, 2> * Isometry<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Isometry<S, 2>) => a * b);
    op!(v, "Rotation<S, 3> * Isometry<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Isometry<S, 3>) => a * b);
    op!(v, "Rotation<S, 2> * &Isometry<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Isometry<S, 2>) => a * &b);
    op!(v, "Rotation<S, 3> * &Isometry<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Isometry<S, 3>) => a * &b);
    op!(v, "&Rotation<S, 2> * Isometry<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Isometry<S, 2>) => &a * b);
    op!(v, "&Rotation<S, 3> * Isometry<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Isometry<S, 3>) => &a * b);
    op!(v, "&Rotation<S, 2> * &Isometry<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Isometry<S, 2>) => &a * &b);
    op!(v, "&Rotation<S, 3> * &Isometry<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Isometry<S, 3>) => &a * &b);
    op!(v, "Perspective3<S>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S, ref f: S, ref g: S) => <Perspective3<S>>::new(b, c, d, e, f, g));
}
}
mod fl_22 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Perspective3<S>::from_vfov", 0, (ref b: Radians<S>, ref c: S, ref d: S, ref e: S) => <Perspective3<S>>::from_vfov(b, c, d, e));
    op!(v, "Perspective3<S>::from_vfov [deg]", 0, (ref b: Degrees<S>, ref c: S, ref d: S, ref e: S) => <Perspective3<S>>::from_vfov(b, c, d, e));
    op!(v, "Perspective3<S>::aspect_ratio", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::aspect_ratio(&a));
    op!(v, "Perspective3<S>::vfov", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::vfov(&a));
    op!(v, "Perspective3<S>::near", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::near(&a));
    op!(v, "Perspective3<S>::far", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::far(&a));
    op!(v, "Perspective3<S>::right", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::right(&a));
    op!(v, "Perspective3<S>::left", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::left(&a));
    op!(v, "Perspective3<S>::top", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::top(&a));
    op!(v, "Perspective3<S>::bottom", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::bottom(&a));
    op!(v, "Perspective3<S>::matrix", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::matrix(&a));
    op!(v, "Perspective3<S>::view_unit_right", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::view_unit_right(&a));
    op!(v, "Perspective3<S>::view_unit_up", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::view_unit_up(&a));
    op!(v, "Perspective3<S>::view_unit_depth", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::view_unit_depth(&a));
    op!(v, "Perspective3<S>::view_unit_gaze", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::view_unit_gaze(&a));
    op!(v, "Perspective3<S>::clip_unit_right", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::clip_unit_right(&a));
    op!(v, "Perspective3<S>::clip_unit_up", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::clip_unit_up(&a));
    op!(v, "Perspective3<S>::clip_unit_depth", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::clip_unit_depth(&a));
    op!(v, "Perspective3<S>::clip_unit_gaze", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::clip_unit_gaze(&a));
    op!(v, "Perspective3<S>::clip_ndc_bounds", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::clip_ndc_bounds(&a));
    op!(v, "Perspective3<S>::project_point", 0, (ref a: Perspective3<S>, ref b: Point<S, 3>) => <Perspective3<S>>::project_point(&a, &b));
    op!(v, "Perspective3<S>::project_vector", 0, (ref a: Perspective3<S>, ref b: Vector<S, 3>) => <Perspective3<S>>::project_vector(&a, &b));
    op!(v, "Perspective3<S>::unproject_point", 0, (ref a: Perspective3<S>, ref b: Point<S, 3>) => <Perspective3<S>>::unproject_point(&a, &b));
    op!(v, "Perspective3<S>::unproject_vector", 0, (ref a: Perspective3<S>, ref b: Vector<S, 3>) => <Perspective3<S>>::unproject_vector(&a, &b));
    op!(v, "Perspective3<S>::to_projective_matrix", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::to_projective_matrix(&a));
    op!(v, "Perspective3<S>::to_transform", 0, (ref a: Perspective3<S>) => <Perspective3<S>>::to_transform(&a));
    op!(v, "Matrix<S, 4, 4>::from(Perspective3<S>)", 0, (ref a: Perspective3<S>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Perspective3<S> * Point<S, 3>", 0, (ref a: Perspective3<S>, ref b: Point<S, 3>) => a * b);
    op!(v, "Perspective3<S> * &Point<S, 3>", 0, (ref a: Perspective3<S>, ref b: Point<S, 3>) => a * &b);
    op!(v, "&Perspective3<S> * Point<S, 3>", 0, (ref a: Perspective3<S>, ref b: Point<S, 3>) => &a * b);
    op!(v, "&Perspective3<S> * &Point<S, 3>", 0, (ref a: Perspective3<S>, ref b: Point<S, 3>) => &a * &b);
    op!(v, "Perspective3<S> * Vector<S, 3>", 0, (ref a: Perspective3<S>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Perspective3<S> * &Vector<S, 3>", 0, (ref a: Perspective3<S>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "&Perspective3<S> * Vector<S, 3>", 0, (ref a: Perspective3<S>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Perspective3<S> * &Vector<S, 3>", 0, (ref a: Perspective3<S>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "Orthographic3<S>::new", 0, (ref b: S, ref c: S, ref d: S, ref e: S, ref f: S, ref g: S) => <Orthographic3<S>>::new(b, c, d, e, f, g));
    op!(v, "Orthographic3<S>::near", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::near(&a));
    op!(v, "Orthographic3<S>::far", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::far(&a));
    op!(v, "Orthographic3<S>::right", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::right(&a));
    op!(v, "Orthographic3<S>::left", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::left(&a));
}
}
mod fl_23 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Orthographic3<S>::top", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::top(&a));
    op!(v, "Orthographic3<S>::bottom", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::bottom(&a));
    op!(v, "Orthographic3<S>::matrix", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::matrix(&a));
    op!(v, "Orthographic3<S>::view_unit_right", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::view_unit_right(&a));
    op!(v, "Orthographic3<S>::view_unit_up", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::view_unit_up(&a));
    op!(v, "Orthographic3<S>::view_unit_depth", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::view_unit_depth(&a));
    op!(v, "Orthographic3<S>::view_unit_gaze", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::view_unit_gaze(&a));
    op!(v, "Orthographic3<S>::clip_unit_right", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::clip_unit_right(&a));
    op!(v, "Orthographic3<S>::clip_unit_up", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::clip_unit_up(&a));
    op!(v, "Orthographic3<S>::clip_unit_depth", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::clip_unit_depth(&a));
    op!(v, "Orthographic3<S>::clip_unit_gaze", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::clip_unit_gaze(&a));
    op!(v, "Orthographic3<S>::clip_ndc_bounds", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::clip_ndc_bounds(&a));
    op!(v, "Orthographic3<S>::project_point", 0, (ref a: Orthographic3<S>, ref b: Point<S, 3>) => <Orthographic3<S>>::project_point(&a, &b));
    op!(v, "Orthographic3<S>::project_vector", 0, (ref a: Orthographic3<S>, ref b: Vector<S, 3>) => <Orthographic3<S>>::project_vector(&a, &b));
    op!(v, "Orthographic3<S>::unproject_point", 0, (ref a: Orthographic3<S>, ref b: Point<S, 3>) => <Orthographic3<S>>::unproject_point(&a, &b));
    op!(v, "Orthographic3<S>::unproject_vector", 0, (ref a: Orthographic3<S>, ref b: Vector<S, 3>) => <Orthographic3<S>>::unproject_vector(&a, &b));
    op!(v, "Orthographic3<S>::to_projective_matrix", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::to_projective_matrix(&a));
    op!(v, "Orthographic3<S>::to_transform", 0, (ref a: Orthographic3<S>) => <Orthographic3<S>>::to_transform(&a));
    op!(v, "Matrix<S, 4, 4>::from(Orthographic3<S>)", 0, (ref a: Orthographic3<S>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Orthographic3<S> * Point<S, 3>", 0, (ref a: Orthographic3<S>, ref b: Point<S, 3>) => a * b);
    op!(v, "Orthographic3<S> * &Point<S, 3>", 0, (ref a: Orthographic3<S>, ref b: Point<S, 3>) => a * &b);
    op!(v, "&Orthographic3<S> * Point<S, 3>", 0, (ref a: Orthographic3<S>, ref b: Point<S, 3>) => &a * b);
    op!(v, "&Orthographic3<S> * &Point<S, 3>", 0, (ref a: Orthographic3<S>, ref b: Point<S, 3>) => &a * &b);
    op!(v, "Orthographic3<S> * Vector<S, 3>", 0, (ref a: Orthographic3<S>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Orthographic3<S> * &Vector<S, 3>", 0, (ref a: Orthographic3<S>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "&Orthographic3<S> * Vector<S, 3>", 0, (ref a: Orthographic3<S>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Orthographic3<S> * &Vector<S, 3>", 0, (ref a: Orthographic3<S>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "Reflection<S, 2>::from_normal_bias", 0, (ref b: Unit<Vector<S, 2>>, ref c: Point<S, 2>) => <Reflection<S, 2>>::from_normal_bias(&b, &c));
    op!(v, "Reflection<S, 2>::bias", 0, (ref a: Reflection<S, 2>) => <Reflection<S, 2>>::bias(&a));
    op!(v, "Reflection<S, 2>::normal", 0, (ref a: Reflection<S, 2>) => <Reflection<S, 2>>::normal(&a));
    op!(v, "Reflection<S, 3>::from_normal_bias", 0, (ref b: Unit<Vector<S, 3>>, ref c: Point<S, 3>) => <Reflection<S, 3>>::from_normal_bias(&b, &c));
    op!(v, "Reflection<S, 3>::bias", 0, (ref a: Reflection<S, 3>) => <Reflection<S, 3>>::bias(&a));
    op!(v, "Reflection<S, 3>::normal", 0, (ref a: Reflection<S, 3>) => <Reflection<S, 3>>::normal(&a));
    op!(v, "Reflection<S, 2>::apply_vector", 0, (ref a: Reflection<S, 2>, ref b: Vector<S, 2>) => <Reflection<S, 2>>::apply_vector(&a, &b));
    op!(v, "Reflection<S, 2>::apply_point", 0, (ref a: Reflection<S, 2>, ref b: Point<S, 2>) => <Reflection<S, 2>>::apply_point(&a, &b));
    op!(v, "Reflection<S, 2>::inverse_apply_vector", 0, (ref a: Reflection<S, 2>, ref b: Vector<S, 2>) => <Reflection<S, 2>>::inverse_apply_vector(&a, &b));
    op!(v, "Reflection<S, 2>::inverse_apply_point", 0, (ref a: Reflection<S, 2>, ref b: Point<S, 2>) => <Reflection<S, 2>>::inverse_apply_point(&a, &b));
    op!(v, "Reflection<S, 2>::inverse", 0, (ref a: Reflection<S, 2>) => <Reflection<S, 2>>::inverse(&a));
    op!(v, "Reflection<S, 3>::apply_vector", 0, (ref a: Reflection<S, 3>, ref b: Vector<S, 3>) => <Reflection<S, 3>>::apply_vector(&a, &b));
    op!(v, "Reflection<S, 3>::apply_point", 0, (ref a: Reflection<S, 3>, ref b: Point<S, 3>) => <Reflection<S, 3>>::apply_point(&a, &b));
}
}
mod fl_24 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Reflection<S, 3>::inverse_apply_vector", 0, (ref a: Reflection<S, 3>, ref b: Vector<S, 3>) => <Reflection<S, 3>>::inverse_apply_vector(&a, &b));
    op!(v, "Reflection<S, 3>::inverse_apply_point", 0, (ref a: Reflection<S, 3>, ref b: Point<S, 3>) => <Reflection<S, 3>>::inverse_apply_point(&a, &b));
    op!(v, "Reflection<S, 3>::inverse", 0, (ref a: Reflection<S, 3>) => <Reflection<S, 3>>::inverse(&a));
    op!(v, "Reflection<S, 2> * Point<S, 2>", 0, (ref a: Reflection<S, 2>, ref b: Point<S, 2>) => a * b);
    op!(v, "Reflection<S, 3> * Point<S, 3>", 0, (ref a: Reflection<S, 3>, ref b: Point<S, 3>) => a * b);
    op!(v, "Reflection<S, 2> * &Point<S, 2>", 0, (ref a: Reflection<S, 2>, ref b: Point<S, 2>) => a * &b);
    op!(v, "Reflection<S, 3> * &Point<S, 3>", 0, (ref a: Reflection<S, 3>, ref b: Point<S, 3>) => a * &b);
    op!(v, "&Reflection<S, 2> * Point<S, 2>", 0, (ref a: Reflection<S, 2>, ref b: Point<S, 2>) => &a * b);
    op!(v, "&Reflection<S, 3> * Point<S, 3>", 0, (ref a: Reflection<S, 3>, ref b: Point<S, 3>) => &a * b);
    op!(v, "&Reflection<S, 2> * &Point<S, 2>", 0, (ref a: Reflection<S, 2>, ref b: Point<S, 2>) => &a * &b);
    op!(v, "&Reflection<S, 3> * &Point<S, 3>", 0, (ref a: Reflection<S, 3>, ref b: Point<S, 3>) => &a * &b);
    op!(v, "Reflection<S, 2> * Vector<S, 2>", 0, (ref a: Reflection<S, 2>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Reflection<S, 3> * Vector<S, 3>", 0, (ref a: Reflection<S, 3>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Reflection<S, 2> * &Vector<S, 2>", 0, (ref a: Reflection<S, 2>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "Reflection<S, 3> * &Vector<S, 3>", 0, (ref a: Reflection<S, 3>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "&Reflection<S, 2> * Vector<S, 2>", 0, (ref a: Reflection<S, 2>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Reflection<S, 3> * Vector<S, 3>", 0, (ref a: Reflection<S, 3>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Reflection<S, 2> * &Vector<S, 2>", 0, (ref a: Reflection<S, 2>, ref b: Vector<S, 2>) => &a * &b);
    op!(v, "&Reflection<S, 3> * &Vector<S, 3>", 0, (ref a: Reflection<S, 3>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "Reflection<S, 2>::to_affine_matrix", 0, (ref a: Reflection<S, 2>) => <Reflection<S, 2>>::to_affine_matrix(&a));
    op!(v, "Reflection<S, 2>::to_transform", 0, (ref a: Reflection<S, 2>) => <Reflection<S, 2>>::to_transform(&a));
    op!(v, "Matrix<S, 3, 3>::from(Reflection<S, 2>)", 0, (ref a: Reflection<S, 2>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(&Reflection<S, 2>)", 0, (ref a: Reflection<S, 2>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Reflection<S, 3>::to_affine_matrix", 0, (ref a: Reflection<S, 3>) => <Reflection<S, 3>>::to_affine_matrix(&a));
    op!(v, "Reflection<S, 3>::to_transform", 0, (ref a: Reflection<S, 3>) => <Reflection<S, 3>>::to_transform(&a));
    op!(v, "Matrix<S, 4, 4>::from(Reflection<S, 3>)", 0, (ref a: Reflection<S, 3>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(&Reflection<S, 3>)", 0, (ref a: Reflection<S, 3>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Rotation<S, 2>::matrix", 0, (ref a: Rotation<S, 2>) => <Rotation<S, 2>>::matrix(&a));
    op!(v, "Rotation<S, 2>::inverse", 0, (ref a: Rotation<S, 2>) => <Rotation<S, 2>>::inverse(&a));
    op!(v, "Rotation<S, 2>::inverse_mut", INPLACE, (mut a: Rotation<S, 2>) => <Rotation<S, 2>>::inverse_mut(&mut a));
    op!(v, "Rotation<S, 2>::apply_vector", 0, (ref a: Rotation<S, 2>, ref b: Vector<S, 2>) => <Rotation<S, 2>>::apply_vector(&a, &b));
    op!(v, "Rotation<S, 2>::apply_point", 0, (ref a: Rotation<S, 2>, ref b: Point<S, 2>) => <Rotation<S, 2>>::apply_point(&a, &b));
    op!(v, "Rotation<S, 2>::inverse_apply_vector", 0, (ref a: Rotation<S, 2>, ref b: Vector<S, 2>) => <Rotation<S, 2>>::inverse_apply_vector(&a, &b));
    op!(v, "Rotation<S, 2>::inverse_apply_point", 0, (ref a: Rotation<S, 2>, ref b: Point<S, 2>) => <Rotation<S, 2>>::inverse_apply_point(&a, &b));
    op!(v, "Rotation<S, 2>::identity", 0, () => <Rotation<S, 2>>::identity());
    op!(v, "Rotation<S, 2>::to_matrix", 0, (ref a: Rotation<S, 2>) => <Rotation<S, 2>>::to_matrix(&a));
    op!(v, "Rotation<S, 3>::matrix", 0, (ref a: Rotation<S, 3>) => <Rotation<S, 3>>::matrix(&a));
    op!(v, "Rotation<S, 3>::inverse", 0, (ref a: Rotation<S, 3>) => <Rotation<S, 3>>::inverse(&a));
    op!(v, "Rotation<S, 3>::inverse_mut", INPLACE, (mut a: Rotation<S, 3>) => <Rotation<S, 3>>::inverse_mut(&mut a));
    op!(v, "Rotation<S, 3>::apply_vector", 0, (ref a: Rotation<S, 3>, ref b: Vector<S, 3>) => <Rotation<S, 3>>::apply_vector(&a, &b));
}
}
mod fl_25 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Rotation<S, 3>::apply_point", 0, (ref a: Rotation<S, 3>, ref b: Point<S, 3>) => <Rotation<S, 3>>::apply_point(&a, &b));
    op!(v, "Rotation<S, 3>::inverse_apply_vector", 0, (ref a: Rotation<S, 3>, ref b: Vector<S, 3>) => <Rotation<S, 3>>::inverse_apply_vector(&a, &b));
    op!(v, "Rotation<S, 3>::inverse_apply_point", 0, (ref a: Rotation<S, 3>, ref b: Point<S, 3>) => <Rotation<S, 3>>::inverse_apply_point(&a, &b));
    op!(v, "Rotation<S, 3>::identity", 0, () => <Rotation<S, 3>>::identity());
    op!(v, "Rotation<S, 3>::to_matrix", 0, (ref a: Rotation<S, 3>) => <Rotation<S, 3>>::to_matrix(&a));
    op!(v, "Rotation<S, 2>::to_affine_matrix", 0, (ref a: Rotation<S, 2>) => <Rotation<S, 2>>::to_affine_matrix(&a));
    op!(v, "Rotation<S, 2>::to_transform", 0, (ref a: Rotation<S, 2>) => <Rotation<S, 2>>::to_transform(&a));
    op!(v, "Rotation<S, 3>::to_affine_matrix", 0, (ref a: Rotation<S, 3>) => <Rotation<S, 3>>::to_affine_matrix(&a));
    op!(v, "Rotation<S, 3>::to_transform", 0, (ref a: Rotation<S, 3>) => <Rotation<S, 3>>::to_transform(&a));
    op!(v, "Matrix<S, 3, 3>::from(Rotation<S, 2>)", 0, (ref a: Rotation<S, 2>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(Rotation<S, 3>)", 0, (ref a: Rotation<S, 3>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(&Rotation<S, 2>)", 0, (ref a: Rotation<S, 2>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::from(&Rotation<S, 3>)", 0, (ref a: Rotation<S, 3>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Rotation<S, 2> * Vector<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Rotation<S, 3> * Vector<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Rotation<S, 2> * &Vector<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "Rotation<S, 3> * &Vector<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "&Rotation<S, 2> * Vector<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Rotation<S, 3> * Vector<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Rotation<S, 2> * &Vector<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Vector<S, 2>) => &a * &b);
    op!(v, "&Rotation<S, 3> * &Vector<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "Rotation<S, 2> * Point<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Point<S, 2>) => a * b);
    op!(v, "Rotation<S, 3> * Point<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Point<S, 3>) => a * b);
    op!(v, "Rotation<S, 2> * &Point<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Point<S, 2>) => a * &b);
    op!(v, "Rotation<S, 3> * &Point<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Point<S, 3>) => a * &b);
    op!(v, "&Rotation<S, 2> * Point<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Point<S, 2>) => &a * b);
    op!(v, "&Rotation<S, 3> * Point<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Point<S, 3>) => &a * b);
    op!(v, "&Rotation<S, 2> * &Point<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Point<S, 2>) => &a * &b);
    op!(v, "&Rotation<S, 3> * &Point<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Point<S, 3>) => &a * &b);
    op!(v, "Rotation<S, 2> * Rotation<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>) => a * b);
    op!(v, "Rotation<S, 3> * Rotation<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>) => a * b);
    op!(v, "Rotation<S, 2> * &Rotation<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>) => a * &b);
    op!(v, "Rotation<S, 3> * &Rotation<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>) => a * &b);
    op!(v, "&Rotation<S, 2> * Rotation<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>) => &a * b);
    op!(v, "&Rotation<S, 3> * Rotation<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>) => &a * b);
    op!(v, "&Rotation<S, 2> * &Rotation<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>) => &a * &b);
    op!(v, "&Rotation<S, 3> * &Rotation<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>) => &a * &b);
    op!(v, "Rotation<S, 2>::angle", 0, (ref a: Rotation<S, 2>) => <Rotation<S, 2>>::angle(&a));
    op!(v, "Rotation<S, 2>::from_angle", 0, (ref b: Radians<S>) => <Rotation<S, 2>>::from_angle(b));
    op!(v, "Rotation<S, 2>::from_angle [deg]", 0, (ref b: Degrees<S>) => <Rotation<S, 2>>::from_angle(b));
}
}
mod fl_26 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Rotation<S, 2>::rotation_between_axis", 0, (ref b: Unit<Vector<S, 2>>, ref c: Unit<Vector<S, 2>>) => <Rotation<S, 2>>::rotation_between_axis(&b, &c));
    op!(v, "Rotation<S, 2>::rotation_between", 0, (ref b: Vector<S, 2>, ref c: Vector<S, 2>) => <Rotation<S, 2>>::rotation_between(&b, &c));
    op!(v, "Rotation<S, 3>::angle", 0, (ref a: Rotation<S, 3>) => <Rotation<S, 3>>::angle(&a));
    op!(v, "Rotation<S, 3>::axis", 0, (ref a: Rotation<S, 3>) => <Rotation<S, 3>>::axis(&a));
    op!(v, "Rotation<S, 3>::axis_angle", 0, (ref a: Rotation<S, 3>) => <Rotation<S, 3>>::axis_angle(&a));
    op!(v, "Rotation<S, 3>::from_quaternion", 0, (ref b: Quaternion<S>) => <Rotation<S, 3>>::from_quaternion(&b));
    op!(v, "Rotation<S, 3>::from_axis_angle", 0, (ref b: Unit<Vector<S, 3>>, ref c: Radians<S>) => <Rotation<S, 3>>::from_axis_angle(&b, c));
    op!(v, "Rotation<S, 3>::from_axis_angle [deg]", 0, (ref b: Unit<Vector<S, 3>>, ref c: Degrees<S>) => <Rotation<S, 3>>::from_axis_angle(&b, c));
    op!(v, "Rotation<S, 3>::from_angle_x", 0, (ref b: Radians<S>) => <Rotation<S, 3>>::from_angle_x(b));
    op!(v, "Rotation<S, 3>::from_angle_x [deg]", 0, (ref b: Degrees<S>) => <Rotation<S, 3>>::from_angle_x(b));
    op!(v, "Rotation<S, 3>::from_angle_y", 0, (ref b: Radians<S>) => <Rotation<S, 3>>::from_angle_y(b));
    op!(v, "Rotation<S, 3>::from_angle_y [deg]", 0, (ref b: Degrees<S>) => <Rotation<S, 3>>::from_angle_y(b));
    op!(v, "Rotation<S, 3>::from_angle_z", 0, (ref b: Radians<S>) => <Rotation<S, 3>>::from_angle_z(b));
    op!(v, "Rotation<S, 3>::from_angle_z [deg]", 0, (ref b: Degrees<S>) => <Rotation<S, 3>>::from_angle_z(b));
    op!(v, "Rotation<S, 3>::look_to_lh", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Rotation<S, 3>>::look_to_lh(&b, &c));
    op!(v, "Rotation<S, 3>::look_to_rh", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Rotation<S, 3>>::look_to_rh(&b, &c));
    op!(v, "Rotation<S, 3>::look_at_lh", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Rotation<S, 3>>::look_at_lh(&b, &c, &d));
    op!(v, "Rotation<S, 3>::look_at_rh", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Rotation<S, 3>>::look_at_rh(&b, &c, &d));
    op!(v, "Rotation<S, 3>::look_to_lh_inv", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Rotation<S, 3>>::look_to_lh_inv(&b, &c));
    op!(v, "Rotation<S, 3>::look_to_rh_inv", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Rotation<S, 3>>::look_to_rh_inv(&b, &c));
    op!(v, "Rotation<S, 3>::look_at_lh_inv", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Rotation<S, 3>>::look_at_lh_inv(&b, &c, &d));
    op!(v, "Rotation<S, 3>::look_at_rh_inv", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Rotation<S, 3>>::look_at_rh_inv(&b, &c, &d));
    op!(v, "Rotation<S, 3>::rotation_between", 0, (ref b: Vector<S, 3>, ref c: Vector<S, 3>) => <Rotation<S, 3>>::rotation_between(&b, &c));
    op!(v, "Rotation<S, 3>::rotation_between_axis", 0, (ref b: Unit<Vector<S, 3>>, ref c: Unit<Vector<S, 3>>) => <Rotation<S, 3>>::rotation_between_axis(&b, &c));
    op!(v, "Rotation<S, 3>::from_euler_angles", 0, (ref b: Euler<Radians<S>>) => <Rotation<S, 3>>::from_euler_angles(&b));
    op!(v, "Rotation<S, 3>::from_euler_angles [deg]", 0, (ref b: Euler<Degrees<S>>) => <Rotation<S, 3>>::from_euler_angles(&b));
    op!(v, "Rotation<S, 3>::euler_angles", 0, (ref a: Rotation<S, 3>) => <Rotation<S, 3>>::euler_angles(&a));
    op!(v, "Rotation<S, 3>::from(Quaternion<S>)", 0, (ref a: Quaternion<S>) => <Rotation<S, 3>>::from(a));
    op!(v, "Rotation<S, 3>::from(&Quaternion<S>)", 0, (ref a: Quaternion<S>) => <Rotation<S, 3>>::from(&a));
    op!(v, "Quaternion<S>::from(Rotation<S, 3>)", 0, (ref a: Rotation<S, 3>) => <Quaternion<S>>::from(a));
    op!(v, "Quaternion<S>::from(&Rotation<S, 3>)", 0, (ref a: Rotation<S, 3>) => <Quaternion<S>>::from(&a));
    op!(v, "Rotation<S, 3>::from(Euler<Radians<S>>)", 0, (ref a: Euler<Radians<S>>) => <Rotation<S, 3>>::from(a));
    op!(v, "Rotation<S, 3>::from(Euler<Degrees<S>>)", 0, (ref a: Euler<Degrees<S>>) => <Rotation<S, 3>>::from(a));
    op!(v, "Rotation<S, 3>::from(&Euler<Radians<S>>)", 0, (ref a: Euler<Radians<S>>) => <Rotation<S, 3>>::from(&a));
    op!(v, "Rotation<S, 3>::from(&Euler<Degrees<S>>)", 0, (ref a: Euler<Degrees<S>>) => <Rotation<S, 3>>::from(&a));
    op!(v, "Scale<S, 2>::inverse", 0, (ref a: Scale<S, 2>) => <Scale<S, 2>>::inverse(&a));
    op!(v, "Scale<S, 2>::inverse_apply_vector", 0, (ref a: Scale<S, 2>, ref b: Vector<S, 2>) => <Scale<S, 2>>::inverse_apply_vector(&a, &b));
    op!(v, "Scale<S, 2>::inverse_apply_point", 0, (ref a: Scale<S, 2>, ref b: Point<S, 2>) => <Scale<S, 2>>::inverse_apply_point(&a, &b));
    op!(v, "Scale<S, 3>::inverse", 0, (ref a: Scale<S, 3>) => <Scale<S, 3>>::inverse(&a));
    op!(v, "Scale<S, 3>::inverse_apply_vector", 0, (ref a: Scale<S, 3>, ref b: Vector<S, 3>) => <Scale<S, 3>>::inverse_apply_vector(&a, &b));
}
}
mod fl_27 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Scale<S, 3>::inverse_apply_point", 0, (ref a: Scale<S, 3>, ref b: Point<S, 3>) => <Scale<S, 3>>::inverse_apply_point(&a, &b));
    op!(v, "Shear<S, 2>::from_shear", 0, (ref b: S, ref c: Unit<Vector<S, 2>>, ref d: Unit<Vector<S, 2>>) => <Shear<S, 2>>::from_shear(b, &c, &d));
    op!(v, "Shear<S, 2>::from_affine_shear", 0, (ref b: S, ref c: Point<S, 2>, ref d: Unit<Vector<S, 2>>, ref e: Unit<Vector<S, 2>>) => <Shear<S, 2>>::from_affine_shear(b, &c, &d, &e));
    op!(v, "Shear<S, 3>::from_shear", 0, (ref b: S, ref c: Unit<Vector<S, 3>>, ref d: Unit<Vector<S, 3>>) => <Shear<S, 3>>::from_shear(b, &c, &d));
    op!(v, "Shear<S, 3>::from_affine_shear", 0, (ref b: S, ref c: Point<S, 3>, ref d: Unit<Vector<S, 3>>, ref e: Unit<Vector<S, 3>>) => <Shear<S, 3>>::from_affine_shear(b, &c, &d, &e));
    op!(v, "Shear<S, 2>::to_affine_matrix", 0, (ref a: Shear<S, 2>) => <Shear<S, 2>>::to_affine_matrix(&a));
    op!(v, "Shear<S, 2>::to_transform", 0, (ref a: Shear<S, 2>) => <Shear<S, 2>>::to_transform(&a));
    op!(v, "Matrix<S, 3, 3>::from(Shear<S, 2>)", 0, (ref a: Shear<S, 2>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(&Shear<S, 2>)", 0, (ref a: Shear<S, 2>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Shear<S, 2> * Shear<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>) => a * b);
    op!(v, "Shear<S, 2> * &Shear<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>) => a * &b);
    op!(v, "&Shear<S, 2> * Shear<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>) => &a * b);
    op!(v, "&Shear<S, 2> * &Shear<S, 2>", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>) => &a * &b);
    op!(v, "Shear<S, 3>::to_affine_matrix", 0, (ref a: Shear<S, 3>) => <Shear<S, 3>>::to_affine_matrix(&a));
    op!(v, "Shear<S, 3>::to_transform", 0, (ref a: Shear<S, 3>) => <Shear<S, 3>>::to_transform(&a));
    op!(v, "Matrix<S, 4, 4>::from(Shear<S, 3>)", 0, (ref a: Shear<S, 3>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(&Shear<S, 3>)", 0, (ref a: Shear<S, 3>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Shear<S, 3> * Shear<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>) => a * b);
    op!(v, "Shear<S, 3> * &Shear<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>) => a * &b);
    op!(v, "&Shear<S, 3> * Shear<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>) => &a * b);
    op!(v, "&Shear<S, 3> * &Shear<S, 3>", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>) => &a * &b);
    op!(v, "Similarity<S, 2>::from_parts", 0, (ref b: Translation<S, 2>, ref c: Rotation<S, 2>, ref d: S) => <Similarity<S, 2>>::from_parts(&b, &c, d));
    op!(v, "Similarity<S, 2>::from_rotation", 0, (ref b: Rotation<S, 2>) => <Similarity<S, 2>>::from_rotation(&b));
    op!(v, "Similarity<S, 2>::from_scale", 0, (ref b: S) => <Similarity<S, 2>>::from_scale(b));
    op!(v, "Similarity<S, 2>::from_translation", 0, (ref b: Translation<S, 2>) => <Similarity<S, 2>>::from_translation(&b));
    op!(v, "Similarity<S, 2>::from_isometry", 0, (ref b: Isometry<S, 2>) => <Similarity<S, 2>>::from_isometry(&b));
    op!(v, "Similarity<S, 2>::scale", 0, (ref a: Similarity<S, 2>) => <Similarity<S, 2>>::scale(&a));
    op!(v, "Similarity<S, 2>::rotation", 0, (ref a: Similarity<S, 2>) => <Similarity<S, 2>>::rotation(&a));
    op!(v, "Similarity<S, 2>::translation", 0, (ref a: Similarity<S, 2>) => <Similarity<S, 2>>::translation(&a));
    op!(v, "Similarity<S, 2>::identity", 0, () => <Similarity<S, 2>>::identity());
    op!(v, "Similarity<S, 3>::from_parts", 0, (ref b: Translation<S, 3>, ref c: Rotation<S, 3>, ref d: S) => <Similarity<S, 3>>::from_parts(&b, &c, d));
    op!(v, "Similarity<S, 3>::from_rotation", 0, (ref b: Rotation<S, 3>) => <Similarity<S, 3>>::from_rotation(&b));
    op!(v, "Similarity<S, 3>::from_scale", 0, (ref b: S) => <Similarity<S, 3>>::from_scale(b));
    op!(v, "Similarity<S, 3>::from_translation", 0, (ref b: Translation<S, 3>) => <Similarity<S, 3>>::from_translation(&b));
    op!(v, "Similarity<S, 3>::from_isometry", 0, (ref b: Isometry<S, 3>) => <Similarity<S, 3>>::from_isometry(&b));
    op!(v, "Similarity<S, 3>::scale", 0, (ref a: Similarity<S, 3>) => <Similarity<S, 3>>::scale(&a));
    op!(v, "Similarity<S, 3>::rotation", 0, (ref a: Similarity<S, 3>) => <Similarity<S, 3>>::rotation(&a));
    op!(v, "Similarity<S, 3>::translation", 0, (ref a: Similarity<S, 3>) => <Similarity<S, 3>>::translation(&a));
    op!(v, "Similarity<S, 3>::identity", 0, () => <Similarity<S, 3>>::identity());
    op!(v, "Similarity<S, 2>::inverse", 0, (ref a: Similarity<S, 2>) => <Similarity<S, 2>>::inverse(&a));
}
}
mod fl_28 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Similarity<S, 2>::inverse_mut", INPLACE|MULTI, (mut a: Similarity<S, 2>) => <Similarity<S, 2>>::inverse_mut(&mut a));
    op!(v, "Similarity<S, 2>::inverse_apply_point", 0, (ref a: Similarity<S, 2>, ref b: Point<S, 2>) => <Similarity<S, 2>>::inverse_apply_point(&a, &b));
    op!(v, "Similarity<S, 2>::inverse_apply_vector", 0, (ref a: Similarity<S, 2>, ref b: Vector<S, 2>) => <Similarity<S, 2>>::inverse_apply_vector(&a, &b));
    op!(v, "Similarity<S, 2>::apply_point", 0, (ref a: Similarity<S, 2>, ref b: Point<S, 2>) => <Similarity<S, 2>>::apply_point(&a, &b));
    op!(v, "Similarity<S, 2>::apply_vector", 0, (ref a: Similarity<S, 2>, ref b: Vector<S, 2>) => <Similarity<S, 2>>::apply_vector(&a, &b));
    op!(v, "Similarity<S, 3>::inverse", 0, (ref a: Similarity<S, 3>) => <Similarity<S, 3>>::inverse(&a));
    op!(v, "Similarity<S, 3>::inverse_mut", INPLACE|MULTI, (mut a: Similarity<S, 3>) => <Similarity<S, 3>>::inverse_mut(&mut a));
    op!(v, "Similarity<S, 3>::inverse_apply_point", 0, (ref a: Similarity<S, 3>, ref b: Point<S, 3>) => <Similarity<S, 3>>::inverse_apply_point(&a, &b));
    op!(v, "Similarity<S, 3>::inverse_apply_vector", 0, (ref a: Similarity<S, 3>, ref b: Vector<S, 3>) => <Similarity<S, 3>>::inverse_apply_vector(&a, &b));
    op!(v, "Similarity<S, 3>::apply_point", 0, (ref a: Similarity<S, 3>, ref b: Point<S, 3>) => <Similarity<S, 3>>::apply_point(&a, &b));
    op!(v, "Similarity<S, 3>::apply_vector", 0, (ref a: Similarity<S, 3>, ref b: Vector<S, 3>) => <Similarity<S, 3>>::apply_vector(&a, &b));
    op!(v, "Similarity<S, 2>::to_affine_matrix", 0, (ref a: Similarity<S, 2>) => <Similarity<S, 2>>::to_affine_matrix(&a));
    op!(v, "Similarity<S, 2>::to_transform", 0, (ref a: Similarity<S, 2>) => <Similarity<S, 2>>::to_transform(&a));
    op!(v, "Similarity<S, 3>::to_affine_matrix", 0, (ref a: Similarity<S, 3>) => <Similarity<S, 3>>::to_affine_matrix(&a));
    op!(v, "Similarity<S, 3>::to_transform", 0, (ref a: Similarity<S, 3>) => <Similarity<S, 3>>::to_transform(&a));
    op!(v, "Matrix<S, 3, 3>::from(Similarity<S, 2>)", 0, (ref a: Similarity<S, 2>) => <Matrix<S, 3, 3>>::from(a));
    op!(v, "Matrix<S, 4, 4>::from(Similarity<S, 3>)", 0, (ref a: Similarity<S, 3>) => <Matrix<S, 4, 4>>::from(a));
    op!(v, "Matrix<S, 3, 3>::from(&Similarity<S, 2>)", 0, (ref a: Similarity<S, 2>) => <Matrix<S, 3, 3>>::from(&a));
    op!(v, "Matrix<S, 4, 4>::from(&Similarity<S, 3>)", 0, (ref a: Similarity<S, 3>) => <Matrix<S, 4, 4>>::from(&a));
    op!(v, "Similarity<S, 2> * Point<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Point<S, 2>) => a * b);
    op!(v, "Similarity<S, 3> * Point<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Point<S, 3>) => a * b);
    op!(v, "Similarity<S, 2> * &Point<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Point<S, 2>) => a * &b);
    op!(v, "Similarity<S, 3> * &Point<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Point<S, 3>) => a * &b);
    op!(v, "&Similarity<S, 2> * Point<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Point<S, 2>) => &a * b);
    op!(v, "&Similarity<S, 3> * Point<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Point<S, 3>) => &a * b);
    op!(v, "&Similarity<S, 2> * &Point<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Point<S, 2>) => &a * &b);
    op!(v, "&Similarity<S, 3> * &Point<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Point<S, 3>) => &a * &b);
    op!(v, "Similarity<S, 2> * Vector<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Vector<S, 2>) => a * b);
    op!(v, "Similarity<S, 3> * Vector<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Vector<S, 3>) => a * b);
    op!(v, "Similarity<S, 2> * &Vector<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Vector<S, 2>) => a * &b);
    op!(v, "Similarity<S, 3> * &Vector<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Vector<S, 3>) => a * &b);
    op!(v, "&Similarity<S, 2> * Vector<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Vector<S, 2>) => &a * b);
    op!(v, "&Similarity<S, 3> * Vector<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Vector<S, 3>) => &a * b);
    op!(v, "&Similarity<S, 2> * &Vector<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Vector<S, 2>) => &a * &b);
    op!(v, "&Similarity<S, 3> * &Vector<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Vector<S, 3>) => &a * &b);
    op!(v, "Similarity<S, 2> * Isometry<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Isometry<S, 2>) => a * b);
    op!(v, "Similarity<S, 3> * Isometry<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Isometry<S, 3>) => a * b);
    op!(v, "Similarity<S, 2> * &Isometry<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Isometry<S, 2>) => a * &b);
    op!(v, "Similarity<S, 3> * &Isometry<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Isometry<S, 3>) => a * &b);
    op!(v, "&Similarity<S, 2> * Isometry<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Isometry<S, 2>) => &a * b);
}
}
mod fl_29 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "&Similarity<S, 3> * Isometry<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Isometry<S, 3>) => &a * b);
    op!(v, "&Similarity<S, 2> * &Isometry<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Isometry<S, 2>) => &a * &b);
    op!(v, "&Similarity<S, 3> * &Isometry<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Isometry<S, 3>) => &a * &b);
    op!(v, "Similarity<S, 2> * Similarity<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>) => a * b);
    op!(v, "Similarity<S, 3> * Similarity<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>) => a * b);
    op!(v, "Similarity<S, 2> * &Similarity<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>) => a * &b);
    op!(v, "Similarity<S, 3> * &Similarity<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>) => a * &b);
    op!(v, "&Similarity<S, 2> * Similarity<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>) => &a * b);
    op!(v, "&Similarity<S, 3> * Similarity<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>) => &a * b);
    op!(v, "&Similarity<S, 2> * &Similarity<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>) => &a * &b);
    op!(v, "&Similarity<S, 3> * &Similarity<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>) => &a * &b);
    op!(v, "Similarity<S, 2>::from_angle", 0, (ref b: Radians<S>) => <Similarity<S, 2>>::from_angle(b));
    op!(v, "Similarity<S, 2>::from_angle [deg]", 0, (ref b: Degrees<S>) => <Similarity<S, 2>>::from_angle(b));
    op!(v, "Similarity<S, 3>::from_axis_angle", 0, (ref b: Unit<Vector<S, 3>>, ref c: Radians<S>) => <Similarity<S, 3>>::from_axis_angle(&b, c));
    op!(v, "Similarity<S, 3>::from_axis_angle [deg]", 0, (ref b: Unit<Vector<S, 3>>, ref c: Degrees<S>) => <Similarity<S, 3>>::from_axis_angle(&b, c));
    op!(v, "Similarity<S, 3>::look_to_lh", 0, (ref b: Point<S, 3>, ref c: Vector<S, 3>, ref d: Vector<S, 3>) => <Similarity<S, 3>>::look_to_lh(&b, &c, &d));
    op!(v, "Similarity<S, 3>::look_to_rh", 0, (ref b: Point<S, 3>, ref c: Vector<S, 3>, ref d: Vector<S, 3>) => <Similarity<S, 3>>::look_to_rh(&b, &c, &d));
    op!(v, "Similarity<S, 3>::look_at_lh", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Similarity<S, 3>>::look_at_lh(&b, &c, &d));
    op!(v, "Similarity<S, 3>::look_at_rh", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Similarity<S, 3>>::look_at_rh(&b, &c, &d));
    op!(v, "Similarity<S, 3>::look_to_lh_inv", 0, (ref b: Point<S, 3>, ref c: Vector<S, 3>, ref d: Vector<S, 3>) => <Similarity<S, 3>>::look_to_lh_inv(&b, &c, &d));
    op!(v, "Similarity<S, 3>::look_to_rh_inv", 0, (ref b: Point<S, 3>, ref c: Vector<S, 3>, ref d: Vector<S, 3>) => <Similarity<S, 3>>::look_to_rh_inv(&b, &c, &d));
    op!(v, "Similarity<S, 3>::look_at_lh_inv", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Similarity<S, 3>>::look_at_lh_inv(&b, &c, &d));
    op!(v, "Similarity<S, 3>::look_at_rh_inv", 0, (ref b: Point<S, 3>, ref c: Point<S, 3>, ref d: Vector<S, 3>) => <Similarity<S, 3>>::look_at_rh_inv(&b, &c, &d));
    op!(v, "Transform<S, 2, 3>::try_inverse", 0, (ref a: Transform<S, 2, 3>) => <Transform<S, 2, 3>>::try_inverse(&a));
    op!(v, "Transform<S, 2, 3>::inverse", PARTIAL, (ref a: Transform<S, 2, 3>) => <Transform<S, 2, 3>>::inverse(&a));
    op!(v, "Transform<S, 2, 3>::inverse_apply_vector", 0, (ref a: Transform<S, 2, 3>, ref b: Vector<S, 2>) => <Transform<S, 2, 3>>::inverse_apply_vector(&a, &b));
    op!(v, "Transform<S, 2, 3>::inverse_apply_point", PARTIAL, (ref a: Transform<S, 2, 3>, ref b: Point<S, 2>) => <Transform<S, 2, 3>>::inverse_apply_point(&a, &b));
    op!(v, "Transform<S, 3, 4>::try_inverse", 0, (ref a: Transform<S, 3, 4>) => <Transform<S, 3, 4>>::try_inverse(&a));
    op!(v, "Transform<S, 3, 4>::inverse", PARTIAL, (ref a: Transform<S, 3, 4>) => <Transform<S, 3, 4>>::inverse(&a));
    op!(v, "Transform<S, 3, 4>::inverse_apply_vector", 0, (ref a: Transform<S, 3, 4>, ref b: Vector<S, 3>) => <Transform<S, 3, 4>>::inverse_apply_vector(&a, &b));
    op!(v, "Transform<S, 3, 4>::inverse_apply_point", PARTIAL, (ref a: Transform<S, 3, 4>, ref b: Point<S, 3>) => <Transform<S, 3, 4>>::inverse_apply_point(&a, &b));
    op!(v, "Radians<S>::is_finite", 0, (ref a: Radians<S>) => <Radians<S>>::is_finite(a));
    op!(v, "Degrees<S>::is_finite", 0, (ref a: Degrees<S>) => <Degrees<S>>::is_finite(a));
    op!(v, "Radians<S>::from(Degrees<S>)", 0, (ref a: Degrees<S>) => <Radians<S>>::from(a));
    op!(v, "Degrees<S>::from(Radians<S>)", 0, (ref a: Radians<S>) => <Degrees<S>>::from(a));
    op!(v, "Degrees<S> / S", 0, (ref a: Degrees<S>, ref b: S) => a / b);
    op!(v, "&Degrees<S> / S", 0, (ref a: Degrees<S>, ref b: S) => &a / b);
    op!(v, "Degrees<S> / Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => a / b);
    op!(v, "Degrees<S> / &Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => a / &b);
    op!(v, "&Degrees<S> / Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => &a / b);
}
}
mod fl_30 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "&Degrees<S> / &Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => &a / &b);
    op!(v, "Degrees<S> % Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => a % b);
    op!(v, "Degrees<S> % &Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => a % &b);
    op!(v, "&Degrees<S> % Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => &a % b);
    op!(v, "&Degrees<S> % &Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => &a % &b);
    op!(v, "Degrees<S> /= S", INPLACE, (mut a: Degrees<S>, ref b: S) => a /= b);
    op!(v, "Degrees<S> %= Degrees<S>", INPLACE, (mut a: Degrees<S>, ref b: Degrees<S>) => a %= b);
    op!(v, "Radians<S> / S", 0, (ref a: Radians<S>, ref b: S) => a / b);
    op!(v, "&Radians<S> / S", 0, (ref a: Radians<S>, ref b: S) => &a / b);
    op!(v, "Radians<S> / Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => a / b);
    op!(v, "Radians<S> / &Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => a / &b);
    op!(v, "&Radians<S> / Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => &a / b);
    op!(v, "&Radians<S> / &Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => &a / &b);
    op!(v, "Radians<S> % Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => a % b);
    op!(v, "Radians<S> % &Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => a % &b);
    op!(v, "&Radians<S> % Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => &a % b);
    op!(v, "&Radians<S> % &Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => &a % &b);
    op!(v, "Radians<S> /= S", INPLACE, (mut a: Radians<S>, ref b: S) => a /= b);
    op!(v, "Radians<S> %= Radians<S>", INPLACE, (mut a: Radians<S>, ref b: Radians<S>) => a %= b);
    op!(v, "<Radians<S> as Angle>::zero", 0, () => <Radians<S> as Angle>::zero());
    op!(v, "<Radians<S> as Angle>::is_zero", 0, (ref a: Radians<S>) => <Radians<S> as Angle>::is_zero(a));
    op!(v, "<Radians<S> as Angle>::full_turn", 0, () => <Radians<S> as Angle>::full_turn());
    op!(v, "<Radians<S> as Angle>::sin", 0, (ref a: Radians<S>) => <Radians<S> as Angle>::sin(a));
    op!(v, "<Radians<S> as Angle>::cos", 0, (ref a: Radians<S>) => <Radians<S> as Angle>::cos(a));
    op!(v, "<Radians<S> as Angle>::tan", 0, (ref a: Radians<S>) => <Radians<S> as Angle>::tan(a));
    op!(v, "<Radians<S> as Angle>::asin", 0, (ref b: S) => <Radians<S> as Angle>::asin(b));
    op!(v, "<Radians<S> as Angle>::acos", 0, (ref b: S) => <Radians<S> as Angle>::acos(b));
    op!(v, "<Radians<S> as Angle>::atan", 0, (ref b: S) => <Radians<S> as Angle>::atan(b));
    op!(v, "<Radians<S> as Angle>::atan2", 0, (ref b: S, ref c: S) => <Radians<S> as Angle>::atan2(b, c));
    op!(v, "<Degrees<S> as Angle>::zero", 0, () => <Degrees<S> as Angle>::zero());
    op!(v, "<Degrees<S> as Angle>::is_zero", 0, (ref a: Degrees<S>) => <Degrees<S> as Angle>::is_zero(a));
    op!(v, "<Degrees<S> as Angle>::full_turn", 0, () => <Degrees<S> as Angle>::full_turn());
    op!(v, "<Degrees<S> as Angle>::sin", 0, (ref a: Degrees<S>) => <Degrees<S> as Angle>::sin(a));
    op!(v, "<Degrees<S> as Angle>::cos", 0, (ref a: Degrees<S>) => <Degrees<S> as Angle>::cos(a));
    op!(v, "<Degrees<S> as Angle>::tan", 0, (ref a: Degrees<S>) => <Degrees<S> as Angle>::tan(a));
    op!(v, "<Degrees<S> as Angle>::asin", 0, (ref b: S) => <Degrees<S> as Angle>::asin(b));
    op!(v, "<Degrees<S> as Angle>::acos", 0, (ref b: S) => <Degrees<S> as Angle>::acos(b));
    op!(v, "<Degrees<S> as Angle>::atan", 0, (ref b: S) => <Degrees<S> as Angle>::atan(b));
    op!(v, "<Degrees<S> as Angle>::atan2", 0, (ref b: S, ref c: S) => <Degrees<S> as Angle>::atan2(b, c));
    op!(v, "Rotation<S, 2> == Rotation<S, 2>", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>) => a == b);
}
}
mod fl_31 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Rotation<S, 2> != self", 0, (ref a: Rotation<S, 2>) => a != a.clone());
    op!(v, "Rotation<S, 2> render {}", RENDER, (ref a: Rotation<S, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Rotation<S, 2> render {:?}", RENDER, (ref a: Rotation<S, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Rotation<S, 2> render {:#?}", RENDER, (ref a: Rotation<S, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Rotation<S, 2> render {:.3}", RENDER, (ref a: Rotation<S, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Rotation<S, 2> render {:>14.2}", RENDER, (ref a: Rotation<S, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Rotation<S, 2> render {:+}", RENDER, (ref a: Rotation<S, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Rotation<S, 2> render {:#}", RENDER, (ref a: Rotation<S, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Rotation<S, 2> render {:09.1?}", RENDER, (ref a: Rotation<S, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Rotation<S, 2> render {:-<60.30}", RENDER, (ref a: Rotation<S, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Rotation<S, 2> clone", 0, (ref a: Rotation<S, 2>) => a.clone());
    op!(v, "Rotation<S, 3> == Rotation<S, 3>", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>) => a == b);
    op!(v, "Rotation<S, 3> != self", 0, (ref a: Rotation<S, 3>) => a != a.clone());
    op!(v, "Rotation<S, 3> render {}", RENDER, (ref a: Rotation<S, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Rotation<S, 3> render {:?}", RENDER, (ref a: Rotation<S, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Rotation<S, 3> render {:#?}", RENDER, (ref a: Rotation<S, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Rotation<S, 3> render {:.3}", RENDER, (ref a: Rotation<S, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Rotation<S, 3> render {:>14.2}", RENDER, (ref a: Rotation<S, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Rotation<S, 3> render {:+}", RENDER, (ref a: Rotation<S, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Rotation<S, 3> render {:#}", RENDER, (ref a: Rotation<S, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Rotation<S, 3> render {:09.1?}", RENDER, (ref a: Rotation<S, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Rotation<S, 3> render {:-<60.30}", RENDER, (ref a: Rotation<S, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Rotation<S, 3> clone", 0, (ref a: Rotation<S, 3>) => a.clone());
    op!(v, "Isometry<S, 2> == Isometry<S, 2>", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>) => a == b);
    op!(v, "Isometry<S, 2> != self", 0, (ref a: Isometry<S, 2>) => a != a.clone());
    op!(v, "Isometry<S, 2> render {}", RENDER, (ref a: Isometry<S, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Isometry<S, 2> render {:?}", RENDER, (ref a: Isometry<S, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Isometry<S, 2> render {:#?}", RENDER, (ref a: Isometry<S, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Isometry<S, 2> render {:.3}", RENDER, (ref a: Isometry<S, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Isometry<S, 2> render {:>14.2}", RENDER, (ref a: Isometry<S, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Isometry<S, 2> render {:+}", RENDER, (ref a: Isometry<S, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Isometry<S, 2> render {:#}", RENDER, (ref a: Isometry<S, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Isometry<S, 2> render {:09.1?}", RENDER, (ref a: Isometry<S, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Isometry<S, 2> render {:-<60.30}", RENDER, (ref a: Isometry<S, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Isometry<S, 2> clone", 0, (ref a: Isometry<S, 2>) => a.clone());
    op!(v, "Isometry<S, 3> == Isometry<S, 3>", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>) => a == b);
    op!(v, "Isometry<S, 3> != self", 0, (ref a: Isometry<S, 3>) => a != a.clone());
    op!(v, "Isometry<S, 3> render {}", RENDER, (ref a: Isometry<S, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Isometry<S, 3> render {:?}", RENDER, (ref a: Isometry<S, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Isometry<S, 3> render {:#?}", RENDER, (ref a: Isometry<S, 3>) => crate::sink::render(format_args!("{:#?}", a)));
}
}
mod fl_32 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Isometry<S, 3> render {:.3}", RENDER, (ref a: Isometry<S, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Isometry<S, 3> render {:>14.2}", RENDER, (ref a: Isometry<S, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Isometry<S, 3> render {:+}", RENDER, (ref a: Isometry<S, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Isometry<S, 3> render {:#}", RENDER, (ref a: Isometry<S, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Isometry<S, 3> render {:09.1?}", RENDER, (ref a: Isometry<S, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Isometry<S, 3> render {:-<60.30}", RENDER, (ref a: Isometry<S, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Isometry<S, 3> clone", 0, (ref a: Isometry<S, 3>) => a.clone());
    op!(v, "Similarity<S, 2> == Similarity<S, 2>", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>) => a == b);
    op!(v, "Similarity<S, 2> != self", 0, (ref a: Similarity<S, 2>) => a != a.clone());
    op!(v, "Similarity<S, 2> render {}", RENDER, (ref a: Similarity<S, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Similarity<S, 2> render {:?}", RENDER, (ref a: Similarity<S, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Similarity<S, 2> render {:#?}", RENDER, (ref a: Similarity<S, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Similarity<S, 2> render {:.3}", RENDER, (ref a: Similarity<S, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Similarity<S, 2> render {:>14.2}", RENDER, (ref a: Similarity<S, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Similarity<S, 2> render {:+}", RENDER, (ref a: Similarity<S, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Similarity<S, 2> render {:#}", RENDER, (ref a: Similarity<S, 2>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Similarity<S, 2> render {:09.1?}", RENDER, (ref a: Similarity<S, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Similarity<S, 2> render {:-<60.30}", RENDER, (ref a: Similarity<S, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Similarity<S, 2> clone", 0, (ref a: Similarity<S, 2>) => a.clone());
    op!(v, "Similarity<S, 3> == Similarity<S, 3>", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>) => a == b);
    op!(v, "Similarity<S, 3> != self", 0, (ref a: Similarity<S, 3>) => a != a.clone());
    op!(v, "Similarity<S, 3> render {}", RENDER, (ref a: Similarity<S, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Similarity<S, 3> render {:?}", RENDER, (ref a: Similarity<S, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Similarity<S, 3> render {:#?}", RENDER, (ref a: Similarity<S, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Similarity<S, 3> render {:.3}", RENDER, (ref a: Similarity<S, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Similarity<S, 3> render {:>14.2}", RENDER, (ref a: Similarity<S, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Similarity<S, 3> render {:+}", RENDER, (ref a: Similarity<S, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Similarity<S, 3> render {:#}", RENDER, (ref a: Similarity<S, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Similarity<S, 3> render {:09.1?}", RENDER, (ref a: Similarity<S, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Similarity<S, 3> render {:-<60.30}", RENDER, (ref a: Similarity<S, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Similarity<S, 3> clone", 0, (ref a: Similarity<S, 3>) => a.clone());
    op!(v, "Reflection<S, 2> == Reflection<S, 2>", 0, (ref a: Reflection<S, 2>, ref b: Reflection<S, 2>) => a == b);
    op!(v, "Reflection<S, 2> != self", 0, (ref a: Reflection<S, 2>) => a != a.clone());
    op!(v, "Reflection<S, 2> render {}", RENDER, (ref a: Reflection<S, 2>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Reflection<S, 2> render {:?}", RENDER, (ref a: Reflection<S, 2>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Reflection<S, 2> render {:#?}", RENDER, (ref a: Reflection<S, 2>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Reflection<S, 2> render {:.3}", RENDER, (ref a: Reflection<S, 2>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Reflection<S, 2> render {:>14.2}", RENDER, (ref a: Reflection<S, 2>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Reflection<S, 2> render {:+}", RENDER, (ref a: Reflection<S, 2>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Reflection<S, 2> render {:#}", RENDER, (ref a: Reflection<S, 2>) => crate::sink::render(format_args!("{:#}", a)));
}
}
mod fl_33 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Reflection<S, 2> render {:09.1?}", RENDER, (ref a: Reflection<S, 2>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Reflection<S, 2> render {:-<60.30}", RENDER, (ref a: Reflection<S, 2>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Reflection<S, 2> clone", 0, (ref a: Reflection<S, 2>) => a.clone());
    op!(v, "Reflection<S, 3> == Reflection<S, 3>", 0, (ref a: Reflection<S, 3>, ref b: Reflection<S, 3>) => a == b);
    op!(v, "Reflection<S, 3> != self", 0, (ref a: Reflection<S, 3>) => a != a.clone());
    op!(v, "Reflection<S, 3> render {}", RENDER, (ref a: Reflection<S, 3>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Reflection<S, 3> render {:?}", RENDER, (ref a: Reflection<S, 3>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Reflection<S, 3> render {:#?}", RENDER, (ref a: Reflection<S, 3>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Reflection<S, 3> render {:.3}", RENDER, (ref a: Reflection<S, 3>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Reflection<S, 3> render {:>14.2}", RENDER, (ref a: Reflection<S, 3>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Reflection<S, 3> render {:+}", RENDER, (ref a: Reflection<S, 3>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Reflection<S, 3> render {:#}", RENDER, (ref a: Reflection<S, 3>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Reflection<S, 3> render {:09.1?}", RENDER, (ref a: Reflection<S, 3>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Reflection<S, 3> render {:-<60.30}", RENDER, (ref a: Reflection<S, 3>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Reflection<S, 3> clone", 0, (ref a: Reflection<S, 3>) => a.clone());
    op!(v, "Radians<S> == Radians<S>", 0, (ref a: Radians<S>, ref b: Radians<S>) => a == b);
    op!(v, "Radians<S> != self", 0, (ref a: Radians<S>) => a != a.clone());
    op!(v, "Radians<S> render {}", RENDER, (ref a: Radians<S>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Radians<S> render {:?}", RENDER, (ref a: Radians<S>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Radians<S> render {:#?}", RENDER, (ref a: Radians<S>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Radians<S> render {:.3}", RENDER, (ref a: Radians<S>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Radians<S> render {:>14.2}", RENDER, (ref a: Radians<S>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Radians<S> render {:+}", RENDER, (ref a: Radians<S>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Radians<S> render {:#}", RENDER, (ref a: Radians<S>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Radians<S> render {:09.1?}", RENDER, (ref a: Radians<S>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Radians<S> render {:-<60.30}", RENDER, (ref a: Radians<S>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Radians<S> clone", 0, (ref a: Radians<S>) => a.clone());
    op!(v, "Degrees<S> == Degrees<S>", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => a == b);
    op!(v, "Degrees<S> != self", 0, (ref a: Degrees<S>) => a != a.clone());
    op!(v, "Degrees<S> render {}", RENDER, (ref a: Degrees<S>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Degrees<S> render {:?}", RENDER, (ref a: Degrees<S>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Degrees<S> render {:#?}", RENDER, (ref a: Degrees<S>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Degrees<S> render {:.3}", RENDER, (ref a: Degrees<S>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Degrees<S> render {:>14.2}", RENDER, (ref a: Degrees<S>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Degrees<S> render {:+}", RENDER, (ref a: Degrees<S>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Degrees<S> render {:#}", RENDER, (ref a: Degrees<S>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Degrees<S> render {:09.1?}", RENDER, (ref a: Degrees<S>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Degrees<S> render {:-<60.30}", RENDER, (ref a: Degrees<S>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Degrees<S> clone", 0, (ref a: Degrees<S>) => a.clone());
    op!(v, "Euler<Radians<S>> == Euler<Radians<S>>", 0, (ref a: Euler<Radians<S>>, ref b: Euler<Radians<S>>) => a == b);
}
}
mod fl_34 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Euler<Radians<S>> != self", 0, (ref a: Euler<Radians<S>>) => a != a.clone());
    op!(v, "Euler<Radians<S>> render {}", RENDER, (ref a: Euler<Radians<S>>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Euler<Radians<S>> render {:?}", RENDER, (ref a: Euler<Radians<S>>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Euler<Radians<S>> render {:#?}", RENDER, (ref a: Euler<Radians<S>>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Euler<Radians<S>> render {:.3}", RENDER, (ref a: Euler<Radians<S>>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Euler<Radians<S>> render {:>14.2}", RENDER, (ref a: Euler<Radians<S>>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Euler<Radians<S>> render {:+}", RENDER, (ref a: Euler<Radians<S>>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Euler<Radians<S>> render {:#}", RENDER, (ref a: Euler<Radians<S>>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Euler<Radians<S>> render {:09.1?}", RENDER, (ref a: Euler<Radians<S>>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Euler<Radians<S>> render {:-<60.30}", RENDER, (ref a: Euler<Radians<S>>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Euler<Radians<S>> clone", 0, (ref a: Euler<Radians<S>>) => a.clone());
    op!(v, "Euler<Degrees<S>> == Euler<Degrees<S>>", 0, (ref a: Euler<Degrees<S>>, ref b: Euler<Degrees<S>>) => a == b);
    op!(v, "Euler<Degrees<S>> != self", 0, (ref a: Euler<Degrees<S>>) => a != a.clone());
    op!(v, "Euler<Degrees<S>> render {}", RENDER, (ref a: Euler<Degrees<S>>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Euler<Degrees<S>> render {:?}", RENDER, (ref a: Euler<Degrees<S>>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Euler<Degrees<S>> render {:#?}", RENDER, (ref a: Euler<Degrees<S>>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Euler<Degrees<S>> render {:.3}", RENDER, (ref a: Euler<Degrees<S>>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Euler<Degrees<S>> render {:>14.2}", RENDER, (ref a: Euler<Degrees<S>>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Euler<Degrees<S>> render {:+}", RENDER, (ref a: Euler<Degrees<S>>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Euler<Degrees<S>> render {:#}", RENDER, (ref a: Euler<Degrees<S>>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Euler<Degrees<S>> render {:09.1?}", RENDER, (ref a: Euler<Degrees<S>>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Euler<Degrees<S>> render {:-<60.30}", RENDER, (ref a: Euler<Degrees<S>>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Euler<Degrees<S>> clone", 0, (ref a: Euler<Degrees<S>>) => a.clone());
    op!(v, "Perspective3<S> == Perspective3<S>", 0, (ref a: Perspective3<S>, ref b: Perspective3<S>) => a == b);
    op!(v, "Perspective3<S> != self", 0, (ref a: Perspective3<S>) => a != a.clone());
    op!(v, "Perspective3<S> render {}", RENDER, (ref a: Perspective3<S>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Perspective3<S> render {:?}", RENDER, (ref a: Perspective3<S>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Perspective3<S> render {:#?}", RENDER, (ref a: Perspective3<S>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Perspective3<S> render {:.3}", RENDER, (ref a: Perspective3<S>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Perspective3<S> render {:>14.2}", RENDER, (ref a: Perspective3<S>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Perspective3<S> render {:+}", RENDER, (ref a: Perspective3<S>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Perspective3<S> render {:#}", RENDER, (ref a: Perspective3<S>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Perspective3<S> render {:09.1?}", RENDER, (ref a: Perspective3<S>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Perspective3<S> render {:-<60.30}", RENDER, (ref a: Perspective3<S>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Perspective3<S> clone", 0, (ref a: Perspective3<S>) => a.clone());
    op!(v, "Orthographic3<S> == Orthographic3<S>", 0, (ref a: Orthographic3<S>, ref b: Orthographic3<S>) => a == b);
    op!(v, "Orthographic3<S> != self", 0, (ref a: Orthographic3<S>) => a != a.clone());
    op!(v, "Orthographic3<S> render {}", RENDER, (ref a: Orthographic3<S>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Orthographic3<S> render {:?}", RENDER, (ref a: Orthographic3<S>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Orthographic3<S> render {:#?}", RENDER, (ref a: Orthographic3<S>) => crate::sink::render(format_args!("{:#?}", a)));
}
}
mod fl_35 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Orthographic3<S> render {:.3}", RENDER, (ref a: Orthographic3<S>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Orthographic3<S> render {:>14.2}", RENDER, (ref a: Orthographic3<S>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Orthographic3<S> render {:+}", RENDER, (ref a: Orthographic3<S>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Orthographic3<S> render {:#}", RENDER, (ref a: Orthographic3<S>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Orthographic3<S> render {:09.1?}", RENDER, (ref a: Orthographic3<S>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Orthographic3<S> render {:-<60.30}", RENDER, (ref a: Orthographic3<S>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Orthographic3<S> clone", 0, (ref a: Orthographic3<S>) => a.clone());
    op!(v, "Unit<Vector<S, 3>> == Unit<Vector<S, 3>>", 0, (ref a: Unit<Vector<S, 3>>, ref b: Unit<Vector<S, 3>>) => a == b);
    op!(v, "Unit<Vector<S, 3>> != self", 0, (ref a: Unit<Vector<S, 3>>) => a != a.clone());
    op!(v, "Unit<Vector<S, 3>> render {}", RENDER, (ref a: Unit<Vector<S, 3>>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Unit<Vector<S, 3>> render {:?}", RENDER, (ref a: Unit<Vector<S, 3>>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Unit<Vector<S, 3>> render {:#?}", RENDER, (ref a: Unit<Vector<S, 3>>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Unit<Vector<S, 3>> render {:.3}", RENDER, (ref a: Unit<Vector<S, 3>>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Unit<Vector<S, 3>> render {:>14.2}", RENDER, (ref a: Unit<Vector<S, 3>>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Unit<Vector<S, 3>> render {:+}", RENDER, (ref a: Unit<Vector<S, 3>>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Unit<Vector<S, 3>> render {:#}", RENDER, (ref a: Unit<Vector<S, 3>>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Unit<Vector<S, 3>> render {:09.1?}", RENDER, (ref a: Unit<Vector<S, 3>>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Unit<Vector<S, 3>> render {:-<60.30}", RENDER, (ref a: Unit<Vector<S, 3>>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Unit<Vector<S, 3>> clone", 0, (ref a: Unit<Vector<S, 3>>) => a.clone());
    op!(v, "Unit<Quaternion<S>> == Unit<Quaternion<S>>", 0, (ref a: Unit<Quaternion<S>>, ref b: Unit<Quaternion<S>>) => a == b);
    op!(v, "Unit<Quaternion<S>> != self", 0, (ref a: Unit<Quaternion<S>>) => a != a.clone());
    op!(v, "Unit<Quaternion<S>> render {}", RENDER, (ref a: Unit<Quaternion<S>>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Unit<Quaternion<S>> render {:?}", RENDER, (ref a: Unit<Quaternion<S>>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Unit<Quaternion<S>> render {:#?}", RENDER, (ref a: Unit<Quaternion<S>>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Unit<Quaternion<S>> render {:.3}", RENDER, (ref a: Unit<Quaternion<S>>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Unit<Quaternion<S>> render {:>14.2}", RENDER, (ref a: Unit<Quaternion<S>>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Unit<Quaternion<S>> render {:+}", RENDER, (ref a: Unit<Quaternion<S>>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Unit<Quaternion<S>> render {:#}", RENDER, (ref a: Unit<Quaternion<S>>) => crate::sink::render(format_args!("{:#}", a)));
    op!(v, "Unit<Quaternion<S>> render {:09.1?}", RENDER, (ref a: Unit<Quaternion<S>>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Unit<Quaternion<S>> render {:-<60.30}", RENDER, (ref a: Unit<Quaternion<S>>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Unit<Quaternion<S>> clone", 0, (ref a: Unit<Quaternion<S>>) => a.clone());
    op!(v, "Unit<Complex<S>> == Unit<Complex<S>>", 0, (ref a: Unit<Complex<S>>, ref b: Unit<Complex<S>>) => a == b);
    op!(v, "Unit<Complex<S>> != self", 0, (ref a: Unit<Complex<S>>) => a != a.clone());
    op!(v, "Unit<Complex<S>> render {}", RENDER, (ref a: Unit<Complex<S>>) => crate::sink::render(format_args!("{}", a)));
    op!(v, "Unit<Complex<S>> render {:?}", RENDER, (ref a: Unit<Complex<S>>) => crate::sink::render(format_args!("{:?}", a)));
    op!(v, "Unit<Complex<S>> render {:#?}", RENDER, (ref a: Unit<Complex<S>>) => crate::sink::render(format_args!("{:#?}", a)));
    op!(v, "Unit<Complex<S>> render {:.3}", RENDER, (ref a: Unit<Complex<S>>) => crate::sink::render(format_args!("{:.3}", a)));
    op!(v, "Unit<Complex<S>> render {:>14.2}", RENDER, (ref a: Unit<Complex<S>>) => crate::sink::render(format_args!("{:>14.2}", a)));
    op!(v, "Unit<Complex<S>> render {:+}", RENDER, (ref a: Unit<Complex<S>>) => crate::sink::render(format_args!("{:+}", a)));
    op!(v, "Unit<Complex<S>> render {:#}", RENDER, (ref a: Unit<Complex<S>>) => crate::sink::render(format_args!("{:#}", a)));
}
}
mod fl_36 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Unit<Complex<S>> render {:09.1?}", RENDER, (ref a: Unit<Complex<S>>) => crate::sink::render(format_args!("{:09.1?}", a)));
    op!(v, "Unit<Complex<S>> render {:-<60.30}", RENDER, (ref a: Unit<Complex<S>>) => crate::sink::render(format_args!("{:-<60.30}", a)));
    op!(v, "Unit<Complex<S>> clone", 0, (ref a: Unit<Complex<S>>) => a.clone());
    op!(v, "Matrix<S, 1, 1>::apply_norm Fro", 0, (ref a: Matrix<S, 1, 1>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 1, 1>::apply_metric Fro", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 2, 2>::apply_norm Fro", 0, (ref a: Matrix<S, 2, 2>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 2, 2>::apply_metric Fro", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 3, 3>::apply_norm Fro", 0, (ref a: Matrix<S, 3, 3>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 3, 3>::apply_metric Fro", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 4, 4>::apply_norm Fro", 0, (ref a: Matrix<S, 4, 4>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 4, 4>::apply_metric Fro", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 1, 2>::apply_norm Fro", 0, (ref a: Matrix<S, 1, 2>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 1, 2>::apply_metric Fro", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 1, 3>::apply_norm Fro", 0, (ref a: Matrix<S, 1, 3>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 1, 3>::apply_metric Fro", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 1, 4>::apply_norm Fro", 0, (ref a: Matrix<S, 1, 4>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 1, 4>::apply_metric Fro", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 2, 3>::apply_norm Fro", 0, (ref a: Matrix<S, 2, 3>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 2, 3>::apply_metric Fro", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 3, 2>::apply_norm Fro", 0, (ref a: Matrix<S, 3, 2>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 3, 2>::apply_metric Fro", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 2, 4>::apply_norm Fro", 0, (ref a: Matrix<S, 2, 4>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 2, 4>::apply_metric Fro", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 4, 2>::apply_norm Fro", 0, (ref a: Matrix<S, 4, 2>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 4, 2>::apply_metric Fro", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 3, 4>::apply_norm Fro", 0, (ref a: Matrix<S, 3, 4>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 3, 4>::apply_metric Fro", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 4, 3>::apply_norm Fro", 0, (ref a: Matrix<S, 4, 3>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 4, 3>::apply_metric Fro", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 4, 1>::apply_norm Fro", 0, (ref a: Matrix<S, 4, 1>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 4, 1>::apply_metric Fro", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 5, 5>::apply_norm Fro", 0, (ref a: Matrix<S, 5, 5>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 5, 5>::apply_metric Fro", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Matrix<S, 6, 2>::apply_norm Fro", 0, (ref a: Matrix<S, 6, 2>) => a.apply_norm(&FrobeniusNorm::new()));
    op!(v, "Matrix<S, 6, 2>::apply_metric Fro", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => a.apply_metric_distance(&b, &FrobeniusNorm::new()));
    op!(v, "Vector<S, 1>::apply_norm L2Norm", 0, (ref a: Vector<S, 1>) => a.apply_norm(&L2Norm::new()));
    op!(v, "Vector<S, 1>::apply_metric L2Norm", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => a.apply_metric_distance(&b, &L2Norm::new()));
    op!(v, "Vector<S, 1>::apply_norm Lp", 0, (ref a: Vector<S, 1>, ref p: Small) => a.apply_norm(&LpNorm::new(p.0 as u32)));
    op!(v, "Vector<S, 1>::apply_metric Lp", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref p: Small) => a.apply_metric_distance(&b, &LpNorm::new(p.0 as u32)));
    op!(v, "Vector<S, 2>::apply_norm L2Norm", 0, (ref a: Vector<S, 2>) => a.apply_norm(&L2Norm::new()));
}
}
mod fl_37 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 2>::apply_metric L2Norm", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => a.apply_metric_distance(&b, &L2Norm::new()));
    op!(v, "Vector<S, 2>::apply_norm Lp", 0, (ref a: Vector<S, 2>, ref p: Small) => a.apply_norm(&LpNorm::new(p.0 as u32)));
    op!(v, "Vector<S, 2>::apply_metric Lp", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref p: Small) => a.apply_metric_distance(&b, &LpNorm::new(p.0 as u32)));
    op!(v, "Vector<S, 3>::apply_norm L2Norm", 0, (ref a: Vector<S, 3>) => a.apply_norm(&L2Norm::new()));
    op!(v, "Vector<S, 3>::apply_metric L2Norm", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => a.apply_metric_distance(&b, &L2Norm::new()));
    op!(v, "Vector<S, 3>::apply_norm Lp", 0, (ref a: Vector<S, 3>, ref p: Small) => a.apply_norm(&LpNorm::new(p.0 as u32)));
    op!(v, "Vector<S, 3>::apply_metric Lp", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref p: Small) => a.apply_metric_distance(&b, &LpNorm::new(p.0 as u32)));
    op!(v, "Vector<S, 4>::apply_norm L2Norm", 0, (ref a: Vector<S, 4>) => a.apply_norm(&L2Norm::new()));
    op!(v, "Vector<S, 4>::apply_metric L2Norm", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => a.apply_metric_distance(&b, &L2Norm::new()));
    op!(v, "Vector<S, 4>::apply_norm Lp", 0, (ref a: Vector<S, 4>, ref p: Small) => a.apply_norm(&LpNorm::new(p.0 as u32)));
    op!(v, "Vector<S, 4>::apply_metric Lp", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref p: Small) => a.apply_metric_distance(&b, &LpNorm::new(p.0 as u32)));
    op!(v, "Vector<S, 5>::apply_norm L2Norm", 0, (ref a: Vector<S, 5>) => a.apply_norm(&L2Norm::new()));
    op!(v, "Vector<S, 5>::apply_metric L2Norm", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => a.apply_metric_distance(&b, &L2Norm::new()));
    op!(v, "Vector<S, 5>::apply_norm Lp", 0, (ref a: Vector<S, 5>, ref p: Small) => a.apply_norm(&LpNorm::new(p.0 as u32)));
    op!(v, "Vector<S, 5>::apply_metric Lp", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref p: Small) => a.apply_metric_distance(&b, &LpNorm::new(p.0 as u32)));
    op!(v, "Vector<S, 9>::apply_norm L2Norm", 0, (ref a: Vector<S, 9>) => a.apply_norm(&L2Norm::new()));
    op!(v, "Vector<S, 9>::apply_metric L2Norm", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => a.apply_metric_distance(&b, &L2Norm::new()));
    op!(v, "Vector<S, 9>::apply_norm Lp", 0, (ref a: Vector<S, 9>, ref p: Small) => a.apply_norm(&LpNorm::new(p.0 as u32)));
    op!(v, "Vector<S, 9>::apply_metric Lp", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref p: Small) => a.apply_metric_distance(&b, &LpNorm::new(p.0 as u32)));
    op!(v, "Unit<Vector<S, 1>>::from_value", 0, (ref a: Vector<S, 1>) => Unit::from_value(a));
    op!(v, "Unit<Vector<S, 1>>::from_value_with_norm", 0, (ref a: Vector<S, 1>) => Unit::from_value_with_norm(a));
    op!(v, "Unit<Vector<S, 1>>::try_from_value", 0, (ref a: Vector<S, 1>, ref b: S) => Unit::try_from_value(a, b));
    op!(v, "Unit<Vector<S, 1>>::try_from_value_with_norm", 0, (ref a: Vector<S, 1>, ref b: S) => Unit::try_from_value_with_norm(a, b));
    op!(v, "Unit<Vector<S, 1>>::into_inner", 0, (ref a: Unit<Vector<S, 1>>) => a.into_inner());
    op!(v, "Unit<Vector<S, 2>>::from_value", 0, (ref a: Vector<S, 2>) => Unit::from_value(a));
    op!(v, "Unit<Vector<S, 2>>::from_value_with_norm", 0, (ref a: Vector<S, 2>) => Unit::from_value_with_norm(a));
    op!(v, "Unit<Vector<S, 2>>::try_from_value", 0, (ref a: Vector<S, 2>, ref b: S) => Unit::try_from_value(a, b));
    op!(v, "Unit<Vector<S, 2>>::try_from_value_with_norm", 0, (ref a: Vector<S, 2>, ref b: S) => Unit::try_from_value_with_norm(a, b));
    op!(v, "Unit<Vector<S, 2>>::into_inner", 0, (ref a: Unit<Vector<S, 2>>) => a.into_inner());
    op!(v, "Unit<Vector<S, 3>>::from_value", 0, (ref a: Vector<S, 3>) => Unit::from_value(a));
    op!(v, "Unit<Vector<S, 3>>::from_value_with_norm", 0, (ref a: Vector<S, 3>) => Unit::from_value_with_norm(a));
    op!(v, "Unit<Vector<S, 3>>::try_from_value", 0, (ref a: Vector<S, 3>, ref b: S) => Unit::try_from_value(a, b));
    op!(v, "Unit<Vector<S, 3>>::try_from_value_with_norm", 0, (ref a: Vector<S, 3>, ref b: S) => Unit::try_from_value_with_norm(a, b));
    op!(v, "Unit<Vector<S, 3>>::into_inner", 0, (ref a: Unit<Vector<S, 3>>) => a.into_inner());
    op!(v, "Unit<Vector<S, 4>>::from_value", 0, (ref a: Vector<S, 4>) => Unit::from_value(a));
    op!(v, "Unit<Vector<S, 4>>::from_value_with_norm", 0, (ref a: Vector<S, 4>) => Unit::from_value_with_norm(a));
    op!(v, "Unit<Vector<S, 4>>::try_from_value", 0, (ref a: Vector<S, 4>, ref b: S) => Unit::try_from_value(a, b));
    op!(v, "Unit<Vector<S, 4>>::try_from_value_with_norm", 0, (ref a: Vector<S, 4>, ref b: S) => Unit::try_from_value_with_norm(a, b));
    op!(v, "Unit<Vector<S, 4>>::into_inner", 0, (ref a: Unit<Vector<S, 4>>) => a.into_inner());
    op!(v, "Unit<Vector<S, 5>>::from_value", 0, (ref a: Vector<S, 5>) => Unit::from_value(a));
}
}
mod fl_38 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Unit<Vector<S, 5>>::from_value_with_norm", 0, (ref a: Vector<S, 5>) => Unit::from_value_with_norm(a));
    op!(v, "Unit<Vector<S, 5>>::try_from_value", 0, (ref a: Vector<S, 5>, ref b: S) => Unit::try_from_value(a, b));
    op!(v, "Unit<Vector<S, 5>>::try_from_value_with_norm", 0, (ref a: Vector<S, 5>, ref b: S) => Unit::try_from_value_with_norm(a, b));
    op!(v, "Unit<Vector<S, 5>>::into_inner", 0, (ref a: Unit<Vector<S, 5>>) => a.into_inner());
    op!(v, "Unit<Vector<S, 9>>::from_value", 0, (ref a: Vector<S, 9>) => Unit::from_value(a));
    op!(v, "Unit<Vector<S, 9>>::from_value_with_norm", 0, (ref a: Vector<S, 9>) => Unit::from_value_with_norm(a));
    op!(v, "Unit<Vector<S, 9>>::try_from_value", 0, (ref a: Vector<S, 9>, ref b: S) => Unit::try_from_value(a, b));
    op!(v, "Unit<Vector<S, 9>>::try_from_value_with_norm", 0, (ref a: Vector<S, 9>, ref b: S) => Unit::try_from_value_with_norm(a, b));
    op!(v, "Unit<Vector<S, 9>>::into_inner", 0, (ref a: Unit<Vector<S, 9>>) => a.into_inner());
    op!(v, "Unit<Quaternion<S>>::from_value", 0, (ref a: Quaternion<S>) => Unit::from_value(a));
    op!(v, "Unit<Quaternion<S>>::from_value_with_norm", 0, (ref a: Quaternion<S>) => Unit::from_value_with_norm(a));
    op!(v, "Unit<Quaternion<S>>::try_from_value", 0, (ref a: Quaternion<S>, ref b: S) => Unit::try_from_value(a, b));
    op!(v, "Unit<Quaternion<S>>::try_from_value_with_norm", 0, (ref a: Quaternion<S>, ref b: S) => Unit::try_from_value_with_norm(a, b));
    op!(v, "Unit<Quaternion<S>>::into_inner", 0, (ref a: Unit<Quaternion<S>>) => a.into_inner());
    op!(v, "Unit<Complex<S>>::from_value", 0, (ref a: Complex<S>) => Unit::from_value(a));
    op!(v, "Unit<Complex<S>>::from_value_with_norm", 0, (ref a: Complex<S>) => Unit::from_value_with_norm(a));
    op!(v, "Unit<Complex<S>>::try_from_value", 0, (ref a: Complex<S>, ref b: S) => Unit::try_from_value(a, b));
    op!(v, "Unit<Complex<S>>::try_from_value_with_norm", 0, (ref a: Complex<S>, ref b: S) => Unit::try_from_value_with_norm(a, b));
    op!(v, "Unit<Complex<S>>::into_inner", 0, (ref a: Unit<Complex<S>>) => a.into_inner());
    op!(v, "Unit<Matrix<S, 2, 2>>::from_value", 0, (ref a: Matrix<S, 2, 2>) => Unit::from_value(a));
    op!(v, "Unit<Matrix<S, 2, 2>>::from_value_with_norm", 0, (ref a: Matrix<S, 2, 2>) => Unit::from_value_with_norm(a));
    op!(v, "Unit<Matrix<S, 2, 2>>::try_from_value", 0, (ref a: Matrix<S, 2, 2>, ref b: S) => Unit::try_from_value(a, b));
    op!(v, "Unit<Matrix<S, 2, 2>>::try_from_value_with_norm", 0, (ref a: Matrix<S, 2, 2>, ref b: S) => Unit::try_from_value_with_norm(a, b));
    op!(v, "Unit<Matrix<S, 2, 2>>::into_inner", 0, (ref a: Unit<Matrix<S, 2, 2>>) => a.into_inner());
    op!(v, "Unit<Matrix<S, 3, 3>>::from_value", 0, (ref a: Matrix<S, 3, 3>) => Unit::from_value(a));
    op!(v, "Unit<Matrix<S, 3, 3>>::from_value_with_norm", 0, (ref a: Matrix<S, 3, 3>) => Unit::from_value_with_norm(a));
    op!(v, "Unit<Matrix<S, 3, 3>>::try_from_value", 0, (ref a: Matrix<S, 3, 3>, ref b: S) => Unit::try_from_value(a, b));
    op!(v, "Unit<Matrix<S, 3, 3>>::try_from_value_with_norm", 0, (ref a: Matrix<S, 3, 3>, ref b: S) => Unit::try_from_value_with_norm(a, b));
    op!(v, "Unit<Matrix<S, 3, 3>>::into_inner", 0, (ref a: Unit<Matrix<S, 3, 3>>) => a.into_inner());
    op!(v, "Unit<Matrix<S, 4, 4>>::from_value", 0, (ref a: Matrix<S, 4, 4>) => Unit::from_value(a));
    op!(v, "Unit<Matrix<S, 4, 4>>::from_value_with_norm", 0, (ref a: Matrix<S, 4, 4>) => Unit::from_value_with_norm(a));
    op!(v, "Unit<Matrix<S, 4, 4>>::try_from_value", 0, (ref a: Matrix<S, 4, 4>, ref b: S) => Unit::try_from_value(a, b));
    op!(v, "Unit<Matrix<S, 4, 4>>::try_from_value_with_norm", 0, (ref a: Matrix<S, 4, 4>, ref b: S) => Unit::try_from_value_with_norm(a, b));
    op!(v, "Unit<Matrix<S, 4, 4>>::into_inner", 0, (ref a: Unit<Matrix<S, 4, 4>>) => a.into_inner());
    op!(v, "Unit<Matrix<S, 2, 3>>::from_value", 0, (ref a: Matrix<S, 2, 3>) => Unit::from_value(a));
    op!(v, "Unit<Matrix<S, 2, 3>>::from_value_with_norm", 0, (ref a: Matrix<S, 2, 3>) => Unit::from_value_with_norm(a));
    op!(v, "Unit<Matrix<S, 2, 3>>::try_from_value", 0, (ref a: Matrix<S, 2, 3>, ref b: S) => Unit::try_from_value(a, b));
    op!(v, "Unit<Matrix<S, 2, 3>>::try_from_value_with_norm", 0, (ref a: Matrix<S, 2, 3>, ref b: S) => Unit::try_from_value_with_norm(a, b));
    op!(v, "Unit<Matrix<S, 2, 3>>::into_inner", 0, (ref a: Unit<Matrix<S, 2, 3>>) => a.into_inner());
    op!(v, "Vector<S, 1> abs_diff_all_eq", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref t: S) => a.abs_diff_all_eq(&b, &t));
}
}
mod fl_39 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 1> relative_all_eq", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Vector<S, 1> ulps_all_eq", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Vector<S, 1> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Vector<S, 1> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Vector<S, 1> AssertAbsDiffAllEq::debug", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Vector<S, 1> AssertRelativeAllEq::debug", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Vector<S, 1> AssertUlpsAllEq::debug", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Vector<S, 2> abs_diff_all_eq", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Vector<S, 2> relative_all_eq", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Vector<S, 2> ulps_all_eq", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Vector<S, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Vector<S, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Vector<S, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Vector<S, 2> AssertRelativeAllEq::debug", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Vector<S, 2> AssertUlpsAllEq::debug", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Vector<S, 3> abs_diff_all_eq", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Vector<S, 3> relative_all_eq", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Vector<S, 3> ulps_all_eq", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Vector<S, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Vector<S, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Vector<S, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Vector<S, 3> AssertRelativeAllEq::debug", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Vector<S, 3> AssertUlpsAllEq::debug", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Vector<S, 4> abs_diff_all_eq", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Vector<S, 4> relative_all_eq", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Vector<S, 4> ulps_all_eq", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Vector<S, 4> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Vector<S, 4> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Vector<S, 4> AssertAbsDiffAllEq::debug", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Vector<S, 4> AssertRelativeAllEq::debug", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Vector<S, 4> AssertUlpsAllEq::debug", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Vector<S, 5> abs_diff_all_eq", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Vector<S, 5> relative_all_eq", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Vector<S, 5> ulps_all_eq", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Vector<S, 5> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Vector<S, 5> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Vector<S, 5> AssertAbsDiffAllEq::debug", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Vector<S, 5> AssertRelativeAllEq::debug", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Vector<S, 5> AssertUlpsAllEq::debug", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Vector<S, 9> abs_diff_all_eq", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref t: S) => a.abs_diff_all_eq(&b, &t));
}
}
mod fl_40 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 9> relative_all_eq", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Vector<S, 9> ulps_all_eq", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Vector<S, 9> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Vector<S, 9> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Vector<S, 9> AssertAbsDiffAllEq::debug", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Vector<S, 9> AssertRelativeAllEq::debug", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Vector<S, 9> AssertUlpsAllEq::debug", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Point<S, 1> abs_diff_all_eq", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Point<S, 1> relative_all_eq", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Point<S, 1> ulps_all_eq", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Point<S, 1> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Point<S, 1> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Point<S, 1> AssertAbsDiffAllEq::debug", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Point<S, 1> AssertRelativeAllEq::debug", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Point<S, 1> AssertUlpsAllEq::debug", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Point<S, 2> abs_diff_all_eq", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Point<S, 2> relative_all_eq", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Point<S, 2> ulps_all_eq", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Point<S, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Point<S, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Point<S, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Point<S, 2> AssertRelativeAllEq::debug", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Point<S, 2> AssertUlpsAllEq::debug", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Point<S, 3> abs_diff_all_eq", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Point<S, 3> relative_all_eq", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Point<S, 3> ulps_all_eq", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Point<S, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Point<S, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Point<S, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Point<S, 3> AssertRelativeAllEq::debug", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Point<S, 3> AssertUlpsAllEq::debug", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Point<S, 6> abs_diff_all_eq", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Point<S, 6> relative_all_eq", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Point<S, 6> ulps_all_eq", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Point<S, 6> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Point<S, 6> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Point<S, 6> AssertAbsDiffAllEq::debug", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Point<S, 6> AssertRelativeAllEq::debug", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Point<S, 6> AssertUlpsAllEq::debug", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 1, 1> abs_diff_all_eq", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>, ref t: S) => a.abs_diff_all_eq(&b, &t));
}
}
mod fl_41 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 1> relative_all_eq", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 1, 1> ulps_all_eq", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 1, 1> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 1, 1> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 1, 1> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 1, 1> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 1, 1> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 2, 2> abs_diff_all_eq", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Matrix<S, 2, 2> relative_all_eq", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 2, 2> ulps_all_eq", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 2, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 2, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 2, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 2, 2> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 2, 2> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 3, 3> abs_diff_all_eq", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Matrix<S, 3, 3> relative_all_eq", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 3, 3> ulps_all_eq", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 3, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 3, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 3, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 3, 3> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 3, 3> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 4, 4> abs_diff_all_eq", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Matrix<S, 4, 4> relative_all_eq", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 4, 4> ulps_all_eq", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 4, 4> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 4, 4> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 4, 4> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 4, 4> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 4, 4> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 1, 2> abs_diff_all_eq", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Matrix<S, 1, 2> relative_all_eq", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 1, 2> ulps_all_eq", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 1, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 1, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 1, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 1, 2> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 1, 2> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 1, 3> abs_diff_all_eq", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
}
}
mod fl_42 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 1, 3> relative_all_eq", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 1, 3> ulps_all_eq", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 1, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 1, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 1, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 1, 3> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 1, 3> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 1, 4> abs_diff_all_eq", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Matrix<S, 1, 4> relative_all_eq", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 1, 4> ulps_all_eq", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 1, 4> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 1, 4> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 1, 4> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 1, 4> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 1, 4> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 2, 3> abs_diff_all_eq", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Matrix<S, 2, 3> relative_all_eq", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 2, 3> ulps_all_eq", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 2, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 2, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 2, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 2, 3> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 2, 3> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 3, 2> abs_diff_all_eq", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Matrix<S, 3, 2> relative_all_eq", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 3, 2> ulps_all_eq", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 3, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 3, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 3, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 3, 2> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 3, 2> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 2, 4> abs_diff_all_eq", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Matrix<S, 2, 4> relative_all_eq", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 2, 4> ulps_all_eq", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 2, 4> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 2, 4> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 2, 4> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 2, 4> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 2, 4> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 4, 2> abs_diff_all_eq", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
}
}
mod fl_43 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 4, 2> relative_all_eq", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 4, 2> ulps_all_eq", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 4, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 4, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 4, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 4, 2> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 4, 2> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 3, 4> abs_diff_all_eq", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Matrix<S, 3, 4> relative_all_eq", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 3, 4> ulps_all_eq", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 3, 4> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 3, 4> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 3, 4> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 3, 4> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 3, 4> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 4, 3> abs_diff_all_eq", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Matrix<S, 4, 3> relative_all_eq", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 4, 3> ulps_all_eq", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 4, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 4, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 4, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 4, 3> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 4, 3> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 4, 1> abs_diff_all_eq", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Matrix<S, 4, 1> relative_all_eq", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 4, 1> ulps_all_eq", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 4, 1> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 4, 1> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 4, 1> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 4, 1> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 4, 1> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 5, 5> abs_diff_all_eq", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Matrix<S, 5, 5> relative_all_eq", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 5, 5> ulps_all_eq", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 5, 5> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 5, 5> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 5, 5> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 5, 5> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 5, 5> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Matrix<S, 6, 2> abs_diff_all_eq", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
}
}
mod fl_44 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 6, 2> relative_all_eq", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Matrix<S, 6, 2> ulps_all_eq", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Matrix<S, 6, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Matrix<S, 6, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Matrix<S, 6, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 6, 2> AssertRelativeAllEq::debug", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 6, 2> AssertUlpsAllEq::debug", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Complex<S> abs_diff_all_eq", 0, (ref a: Complex<S>, ref b: Complex<S>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Complex<S> relative_all_eq", 0, (ref a: Complex<S>, ref b: Complex<S>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Complex<S> ulps_all_eq", 0, (ref a: Complex<S>, ref b: Complex<S>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Complex<S> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Complex<S>, ref b: Complex<S>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Complex<S> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Complex<S>, ref b: Complex<S>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Complex<S> AssertAbsDiffAllEq::debug", 0, (ref a: Complex<S>, ref b: Complex<S>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Complex<S> AssertRelativeAllEq::debug", 0, (ref a: Complex<S>, ref b: Complex<S>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Complex<S> AssertUlpsAllEq::debug", 0, (ref a: Complex<S>, ref b: Complex<S>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Quaternion<S> abs_diff_all_eq", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Quaternion<S> relative_all_eq", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Quaternion<S> ulps_all_eq", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Quaternion<S> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Quaternion<S> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Quaternion<S> AssertAbsDiffAllEq::debug", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Quaternion<S> AssertRelativeAllEq::debug", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Quaternion<S> AssertUlpsAllEq::debug", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Scale<S, 2> abs_diff_all_eq", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Scale<S, 2> relative_all_eq", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Scale<S, 2> ulps_all_eq", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Scale<S, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Scale<S, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Scale<S, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Scale<S, 2> AssertRelativeAllEq::debug", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Scale<S, 2> AssertUlpsAllEq::debug", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Scale<S, 3> abs_diff_all_eq", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Scale<S, 3> relative_all_eq", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Scale<S, 3> ulps_all_eq", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Scale<S, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Scale<S, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Scale<S, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Scale<S, 3> AssertRelativeAllEq::debug", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Scale<S, 3> AssertUlpsAllEq::debug", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Transform<S, 2, 3> abs_diff_all_eq", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
}
}
mod fl_45 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Transform<S, 2, 3> relative_all_eq", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Transform<S, 2, 3> ulps_all_eq", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Transform<S, 2, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Transform<S, 2, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Transform<S, 2, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Transform<S, 2, 3> AssertRelativeAllEq::debug", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Transform<S, 2, 3> AssertUlpsAllEq::debug", 0, (ref a: Transform<S, 2, 3>, ref b: Transform<S, 2, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Transform<S, 3, 4> abs_diff_all_eq", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Transform<S, 3, 4> relative_all_eq", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Transform<S, 3, 4> ulps_all_eq", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Transform<S, 3, 4> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Transform<S, 3, 4> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Transform<S, 3, 4> AssertAbsDiffAllEq::debug", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Transform<S, 3, 4> AssertRelativeAllEq::debug", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Transform<S, 3, 4> AssertUlpsAllEq::debug", 0, (ref a: Transform<S, 3, 4>, ref b: Transform<S, 3, 4>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Translation<S, 2> abs_diff_all_eq", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Translation<S, 2> relative_all_eq", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Translation<S, 2> ulps_all_eq", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Translation<S, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Translation<S, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Translation<S, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Translation<S, 2> AssertRelativeAllEq::debug", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Translation<S, 2> AssertUlpsAllEq::debug", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Translation<S, 3> abs_diff_all_eq", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Translation<S, 3> relative_all_eq", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Translation<S, 3> ulps_all_eq", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Translation<S, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Translation<S, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Translation<S, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Translation<S, 3> AssertRelativeAllEq::debug", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Translation<S, 3> AssertUlpsAllEq::debug", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Shear<S, 2> abs_diff_all_eq", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Shear<S, 2> relative_all_eq", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Shear<S, 2> ulps_all_eq", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Shear<S, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Shear<S, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Shear<S, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Shear<S, 2> AssertRelativeAllEq::debug", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Shear<S, 2> AssertUlpsAllEq::debug", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Shear<S, 3> abs_diff_all_eq", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
}
}
mod fl_46 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Shear<S, 3> relative_all_eq", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Shear<S, 3> ulps_all_eq", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Shear<S, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Shear<S, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Shear<S, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Shear<S, 3> AssertRelativeAllEq::debug", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Shear<S, 3> AssertUlpsAllEq::debug", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Rotation<S, 2> abs_diff_all_eq", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Rotation<S, 2> relative_all_eq", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Rotation<S, 2> ulps_all_eq", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Rotation<S, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Rotation<S, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Rotation<S, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Rotation<S, 2> AssertRelativeAllEq::debug", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Rotation<S, 2> AssertUlpsAllEq::debug", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Rotation<S, 3> abs_diff_all_eq", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Rotation<S, 3> relative_all_eq", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Rotation<S, 3> ulps_all_eq", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Rotation<S, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Rotation<S, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Rotation<S, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Rotation<S, 3> AssertRelativeAllEq::debug", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Rotation<S, 3> AssertUlpsAllEq::debug", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Isometry<S, 2> abs_diff_all_eq", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Isometry<S, 2> relative_all_eq", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Isometry<S, 2> ulps_all_eq", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Isometry<S, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Isometry<S, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Isometry<S, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Isometry<S, 2> AssertRelativeAllEq::debug", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Isometry<S, 2> AssertUlpsAllEq::debug", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Isometry<S, 3> abs_diff_all_eq", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Isometry<S, 3> relative_all_eq", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Isometry<S, 3> ulps_all_eq", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Isometry<S, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Isometry<S, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Isometry<S, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Isometry<S, 3> AssertRelativeAllEq::debug", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Isometry<S, 3> AssertUlpsAllEq::debug", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Similarity<S, 2> abs_diff_all_eq", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
}
}
mod fl_47 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Similarity<S, 2> relative_all_eq", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Similarity<S, 2> ulps_all_eq", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Similarity<S, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Similarity<S, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Similarity<S, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Similarity<S, 2> AssertRelativeAllEq::debug", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Similarity<S, 2> AssertUlpsAllEq::debug", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Similarity<S, 3> abs_diff_all_eq", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Similarity<S, 3> relative_all_eq", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Similarity<S, 3> ulps_all_eq", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Similarity<S, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Similarity<S, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Similarity<S, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Similarity<S, 3> AssertRelativeAllEq::debug", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Similarity<S, 3> AssertUlpsAllEq::debug", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Reflection<S, 2> abs_diff_all_eq", 0, (ref a: Reflection<S, 2>, ref b: Reflection<S, 2>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Reflection<S, 2> relative_all_eq", 0, (ref a: Reflection<S, 2>, ref b: Reflection<S, 2>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Reflection<S, 2> ulps_all_eq", 0, (ref a: Reflection<S, 2>, ref b: Reflection<S, 2>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Reflection<S, 2> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Reflection<S, 2>, ref b: Reflection<S, 2>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Reflection<S, 2> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Reflection<S, 2>, ref b: Reflection<S, 2>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Reflection<S, 2> AssertAbsDiffAllEq::debug", 0, (ref a: Reflection<S, 2>, ref b: Reflection<S, 2>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Reflection<S, 2> AssertRelativeAllEq::debug", 0, (ref a: Reflection<S, 2>, ref b: Reflection<S, 2>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Reflection<S, 2> AssertUlpsAllEq::debug", 0, (ref a: Reflection<S, 2>, ref b: Reflection<S, 2>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Reflection<S, 3> abs_diff_all_eq", 0, (ref a: Reflection<S, 3>, ref b: Reflection<S, 3>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Reflection<S, 3> relative_all_eq", 0, (ref a: Reflection<S, 3>, ref b: Reflection<S, 3>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Reflection<S, 3> ulps_all_eq", 0, (ref a: Reflection<S, 3>, ref b: Reflection<S, 3>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Reflection<S, 3> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Reflection<S, 3>, ref b: Reflection<S, 3>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Reflection<S, 3> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Reflection<S, 3>, ref b: Reflection<S, 3>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Reflection<S, 3> AssertAbsDiffAllEq::debug", 0, (ref a: Reflection<S, 3>, ref b: Reflection<S, 3>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Reflection<S, 3> AssertRelativeAllEq::debug", 0, (ref a: Reflection<S, 3>, ref b: Reflection<S, 3>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Reflection<S, 3> AssertUlpsAllEq::debug", 0, (ref a: Reflection<S, 3>, ref b: Reflection<S, 3>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Radians<S> abs_diff_all_eq", 0, (ref a: Radians<S>, ref b: Radians<S>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Radians<S> relative_all_eq", 0, (ref a: Radians<S>, ref b: Radians<S>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Radians<S> ulps_all_eq", 0, (ref a: Radians<S>, ref b: Radians<S>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Radians<S> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Radians<S>, ref b: Radians<S>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Radians<S> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Radians<S>, ref b: Radians<S>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Radians<S> AssertAbsDiffAllEq::debug", 0, (ref a: Radians<S>, ref b: Radians<S>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Radians<S> AssertRelativeAllEq::debug", 0, (ref a: Radians<S>, ref b: Radians<S>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Radians<S> AssertUlpsAllEq::debug", 0, (ref a: Radians<S>, ref b: Radians<S>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Degrees<S> abs_diff_all_eq", 0, (ref a: Degrees<S>, ref b: Degrees<S>, ref t: S) => a.abs_diff_all_eq(&b, &t));
}
}
mod fl_48 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Degrees<S> relative_all_eq", 0, (ref a: Degrees<S>, ref b: Degrees<S>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Degrees<S> ulps_all_eq", 0, (ref a: Degrees<S>, ref b: Degrees<S>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Degrees<S> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Degrees<S> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Degrees<S> AssertAbsDiffAllEq::debug", 0, (ref a: Degrees<S>, ref b: Degrees<S>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Degrees<S> AssertRelativeAllEq::debug", 0, (ref a: Degrees<S>, ref b: Degrees<S>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Degrees<S> AssertUlpsAllEq::debug", 0, (ref a: Degrees<S>, ref b: Degrees<S>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Euler<Radians<S>> abs_diff_all_eq", 0, (ref a: Euler<Radians<S>>, ref b: Euler<Radians<S>>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Euler<Radians<S>> relative_all_eq", 0, (ref a: Euler<Radians<S>>, ref b: Euler<Radians<S>>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Euler<Radians<S>> ulps_all_eq", 0, (ref a: Euler<Radians<S>>, ref b: Euler<Radians<S>>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Euler<Radians<S>> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Euler<Radians<S>>, ref b: Euler<Radians<S>>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Euler<Radians<S>> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Euler<Radians<S>>, ref b: Euler<Radians<S>>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Euler<Radians<S>> AssertAbsDiffAllEq::debug", 0, (ref a: Euler<Radians<S>>, ref b: Euler<Radians<S>>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Euler<Radians<S>> AssertRelativeAllEq::debug", 0, (ref a: Euler<Radians<S>>, ref b: Euler<Radians<S>>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Euler<Radians<S>> AssertUlpsAllEq::debug", 0, (ref a: Euler<Radians<S>>, ref b: Euler<Radians<S>>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Euler<Degrees<S>> abs_diff_all_eq", 0, (ref a: Euler<Degrees<S>>, ref b: Euler<Degrees<S>>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Euler<Degrees<S>> relative_all_eq", 0, (ref a: Euler<Degrees<S>>, ref b: Euler<Degrees<S>>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Euler<Degrees<S>> ulps_all_eq", 0, (ref a: Euler<Degrees<S>>, ref b: Euler<Degrees<S>>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Euler<Degrees<S>> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Euler<Degrees<S>>, ref b: Euler<Degrees<S>>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Euler<Degrees<S>> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Euler<Degrees<S>>, ref b: Euler<Degrees<S>>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Euler<Degrees<S>> AssertAbsDiffAllEq::debug", 0, (ref a: Euler<Degrees<S>>, ref b: Euler<Degrees<S>>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Euler<Degrees<S>> AssertRelativeAllEq::debug", 0, (ref a: Euler<Degrees<S>>, ref b: Euler<Degrees<S>>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Euler<Degrees<S>> AssertUlpsAllEq::debug", 0, (ref a: Euler<Degrees<S>>, ref b: Euler<Degrees<S>>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Perspective3<S> abs_diff_all_eq", 0, (ref a: Perspective3<S>, ref b: Perspective3<S>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Perspective3<S> relative_all_eq", 0, (ref a: Perspective3<S>, ref b: Perspective3<S>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Perspective3<S> ulps_all_eq", 0, (ref a: Perspective3<S>, ref b: Perspective3<S>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Perspective3<S> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Perspective3<S>, ref b: Perspective3<S>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Perspective3<S> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Perspective3<S>, ref b: Perspective3<S>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Perspective3<S> AssertAbsDiffAllEq::debug", 0, (ref a: Perspective3<S>, ref b: Perspective3<S>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Perspective3<S> AssertRelativeAllEq::debug", 0, (ref a: Perspective3<S>, ref b: Perspective3<S>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Perspective3<S> AssertUlpsAllEq::debug", 0, (ref a: Perspective3<S>, ref b: Perspective3<S>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Orthographic3<S> abs_diff_all_eq", 0, (ref a: Orthographic3<S>, ref b: Orthographic3<S>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Orthographic3<S> relative_all_eq", 0, (ref a: Orthographic3<S>, ref b: Orthographic3<S>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Orthographic3<S> ulps_all_eq", 0, (ref a: Orthographic3<S>, ref b: Orthographic3<S>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Orthographic3<S> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Orthographic3<S>, ref b: Orthographic3<S>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Orthographic3<S> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Orthographic3<S>, ref b: Orthographic3<S>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Orthographic3<S> AssertAbsDiffAllEq::debug", 0, (ref a: Orthographic3<S>, ref b: Orthographic3<S>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Orthographic3<S> AssertRelativeAllEq::debug", 0, (ref a: Orthographic3<S>, ref b: Orthographic3<S>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Orthographic3<S> AssertUlpsAllEq::debug", 0, (ref a: Orthographic3<S>, ref b: Orthographic3<S>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Unit<Vector<S, 3>> abs_diff_all_eq", 0, (ref a: Unit<Vector<S, 3>>, ref b: Unit<Vector<S, 3>>, ref t: S) => a.abs_diff_all_eq(&b, &t));
}
}
mod fl_49 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Unit<Vector<S, 3>> relative_all_eq", 0, (ref a: Unit<Vector<S, 3>>, ref b: Unit<Vector<S, 3>>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Unit<Vector<S, 3>> ulps_all_eq", 0, (ref a: Unit<Vector<S, 3>>, ref b: Unit<Vector<S, 3>>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Unit<Vector<S, 3>> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Unit<Vector<S, 3>>, ref b: Unit<Vector<S, 3>>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Unit<Vector<S, 3>> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Unit<Vector<S, 3>>, ref b: Unit<Vector<S, 3>>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Unit<Vector<S, 3>> AssertAbsDiffAllEq::debug", 0, (ref a: Unit<Vector<S, 3>>, ref b: Unit<Vector<S, 3>>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Unit<Vector<S, 3>> AssertRelativeAllEq::debug", 0, (ref a: Unit<Vector<S, 3>>, ref b: Unit<Vector<S, 3>>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Unit<Vector<S, 3>> AssertUlpsAllEq::debug", 0, (ref a: Unit<Vector<S, 3>>, ref b: Unit<Vector<S, 3>>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Unit<Quaternion<S>> abs_diff_all_eq", 0, (ref a: Unit<Quaternion<S>>, ref b: Unit<Quaternion<S>>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Unit<Quaternion<S>> relative_all_eq", 0, (ref a: Unit<Quaternion<S>>, ref b: Unit<Quaternion<S>>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Unit<Quaternion<S>> ulps_all_eq", 0, (ref a: Unit<Quaternion<S>>, ref b: Unit<Quaternion<S>>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Unit<Quaternion<S>> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Unit<Quaternion<S>>, ref b: Unit<Quaternion<S>>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Unit<Quaternion<S>> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Unit<Quaternion<S>>, ref b: Unit<Quaternion<S>>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Unit<Quaternion<S>> AssertAbsDiffAllEq::debug", 0, (ref a: Unit<Quaternion<S>>, ref b: Unit<Quaternion<S>>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Unit<Quaternion<S>> AssertRelativeAllEq::debug", 0, (ref a: Unit<Quaternion<S>>, ref b: Unit<Quaternion<S>>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Unit<Quaternion<S>> AssertUlpsAllEq::debug", 0, (ref a: Unit<Quaternion<S>>, ref b: Unit<Quaternion<S>>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Unit<Complex<S>> abs_diff_all_eq", 0, (ref a: Unit<Complex<S>>, ref b: Unit<Complex<S>>, ref t: S) => a.abs_diff_all_eq(&b, &t));
    op!(v, "Unit<Complex<S>> relative_all_eq", 0, (ref a: Unit<Complex<S>>, ref b: Unit<Complex<S>>, ref t: S, ref u: S) => a.relative_all_eq(&b, &t, &u));
    op!(v, "Unit<Complex<S>> ulps_all_eq", 0, (ref a: Unit<Complex<S>>, ref b: Unit<Complex<S>>, ref t: S) => a.ulps_all_eq(&b, &t, &S::default_max_ulps()));
    op!(v, "Unit<Complex<S>> AssertAbsDiffEq::debug_abs_diff", 0, (ref a: Unit<Complex<S>>, ref b: Unit<Complex<S>>) => DD(AssertAbsDiffEq::debug_abs_diff(&a, &b)));
    op!(v, "Unit<Complex<S>> AssertUlpsEq::debug_ulps_diff", 0, (ref a: Unit<Complex<S>>, ref b: Unit<Complex<S>>) => DD(AssertUlpsEq::debug_ulps_diff(&a, &b)));
    op!(v, "Unit<Complex<S>> AssertAbsDiffAllEq::debug", 0, (ref a: Unit<Complex<S>>, ref b: Unit<Complex<S>>, ref t: S) => DD(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&a, &b, &t)));
    op!(v, "Unit<Complex<S>> AssertRelativeAllEq::debug", 0, (ref a: Unit<Complex<S>>, ref b: Unit<Complex<S>>, ref t: S) => DD((AssertRelativeAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertRelativeAllEq::debug_relative_all_tolerance(&a, &b, &t))));
    op!(v, "Unit<Complex<S>> AssertUlpsAllEq::debug", 0, (ref a: Unit<Complex<S>>, ref b: Unit<Complex<S>>, ref t: S) => DD((AssertUlpsAllEq::debug_abs_diff_all_tolerance(&a, &b, &t), AssertUlpsAllEq::debug_ulps_all_tolerance(&a, &b, &S::default_max_ulps()))));
    op!(v, "Vector<S, 1> abs_diff_eq", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref t: Vector<S, 1>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Vector<S, 1> abs_diff_ne", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref t: Vector<S, 1>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Vector<S, 1> relative_eq", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref t: Vector<S, 1>, ref u: Vector<S, 1>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Vector<S, 1> AssertRelativeEq::debug", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref t: Vector<S, 1>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Vector<S, 1> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Vector<S, 1>, ref b: Vector<S, 1>, ref t: Vector<S, 1>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Vector<S, 2> abs_diff_eq", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref t: Vector<S, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Vector<S, 2> abs_diff_ne", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref t: Vector<S, 2>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Vector<S, 2> relative_eq", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref t: Vector<S, 2>, ref u: Vector<S, 2>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Vector<S, 2> AssertRelativeEq::debug", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref t: Vector<S, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Vector<S, 2> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Vector<S, 2>, ref b: Vector<S, 2>, ref t: Vector<S, 2>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Vector<S, 3> abs_diff_eq", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref t: Vector<S, 3>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Vector<S, 3> abs_diff_ne", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref t: Vector<S, 3>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Vector<S, 3> relative_eq", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref t: Vector<S, 3>, ref u: Vector<S, 3>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Vector<S, 3> AssertRelativeEq::debug", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref t: Vector<S, 3>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Vector<S, 3> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Vector<S, 3>, ref b: Vector<S, 3>, ref t: Vector<S, 3>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Vector<S, 4> abs_diff_eq", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref t: Vector<S, 4>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Vector<S, 4> abs_diff_ne", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref t: Vector<S, 4>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
}
}
mod fl_50 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Vector<S, 4> relative_eq", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref t: Vector<S, 4>, ref u: Vector<S, 4>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Vector<S, 4> AssertRelativeEq::debug", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref t: Vector<S, 4>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Vector<S, 4> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Vector<S, 4>, ref b: Vector<S, 4>, ref t: Vector<S, 4>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Vector<S, 5> abs_diff_eq", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref t: Vector<S, 5>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Vector<S, 5> abs_diff_ne", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref t: Vector<S, 5>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Vector<S, 5> relative_eq", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref t: Vector<S, 5>, ref u: Vector<S, 5>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Vector<S, 5> AssertRelativeEq::debug", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref t: Vector<S, 5>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Vector<S, 5> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Vector<S, 5>, ref b: Vector<S, 5>, ref t: Vector<S, 5>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Vector<S, 9> abs_diff_eq", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref t: Vector<S, 9>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Vector<S, 9> abs_diff_ne", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref t: Vector<S, 9>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Vector<S, 9> relative_eq", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref t: Vector<S, 9>, ref u: Vector<S, 9>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Vector<S, 9> AssertRelativeEq::debug", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref t: Vector<S, 9>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Vector<S, 9> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Vector<S, 9>, ref b: Vector<S, 9>, ref t: Vector<S, 9>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Point<S, 1> abs_diff_eq", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>, ref t: Vector<S, 1>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Point<S, 1> abs_diff_ne", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>, ref t: Vector<S, 1>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Point<S, 1> relative_eq", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>, ref t: Vector<S, 1>, ref u: Vector<S, 1>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Point<S, 1> AssertRelativeEq::debug", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>, ref t: Vector<S, 1>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Point<S, 1> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Point<S, 1>, ref b: Point<S, 1>, ref t: Vector<S, 1>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Point<S, 2> abs_diff_eq", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>, ref t: Vector<S, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Point<S, 2> abs_diff_ne", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>, ref t: Vector<S, 2>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Point<S, 2> relative_eq", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>, ref t: Vector<S, 2>, ref u: Vector<S, 2>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Point<S, 2> AssertRelativeEq::debug", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>, ref t: Vector<S, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Point<S, 2> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Point<S, 2>, ref b: Point<S, 2>, ref t: Vector<S, 2>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Point<S, 3> abs_diff_eq", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>, ref t: Vector<S, 3>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Point<S, 3> abs_diff_ne", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>, ref t: Vector<S, 3>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Point<S, 3> relative_eq", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>, ref t: Vector<S, 3>, ref u: Vector<S, 3>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Point<S, 3> AssertRelativeEq::debug", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>, ref t: Vector<S, 3>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Point<S, 3> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Point<S, 3>, ref b: Point<S, 3>, ref t: Vector<S, 3>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Point<S, 6> abs_diff_eq", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>, ref t: Vector<S, 6>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Point<S, 6> abs_diff_ne", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>, ref t: Vector<S, 6>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Point<S, 6> relative_eq", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>, ref t: Vector<S, 6>, ref u: Vector<S, 6>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Point<S, 6> AssertRelativeEq::debug", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>, ref t: Vector<S, 6>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Point<S, 6> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Point<S, 6>, ref b: Point<S, 6>, ref t: Vector<S, 6>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 1, 1> abs_diff_eq", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>, ref t: Matrix<S, 1, 1>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 1, 1> abs_diff_ne", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>, ref t: Matrix<S, 1, 1>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 1, 1> relative_eq", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>, ref t: Matrix<S, 1, 1>, ref u: Matrix<S, 1, 1>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 1, 1> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>, ref t: Matrix<S, 1, 1>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 1, 1> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 1, 1>, ref b: Matrix<S, 1, 1>, ref t: Matrix<S, 1, 1>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 2, 2> abs_diff_eq", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>, ref t: Matrix<S, 2, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 2, 2> abs_diff_ne", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>, ref t: Matrix<S, 2, 2>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
}
}
mod fl_51 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 2, 2> relative_eq", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>, ref t: Matrix<S, 2, 2>, ref u: Matrix<S, 2, 2>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 2, 2> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>, ref t: Matrix<S, 2, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 2, 2> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 2, 2>, ref b: Matrix<S, 2, 2>, ref t: Matrix<S, 2, 2>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 3, 3> abs_diff_eq", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>, ref t: Matrix<S, 3, 3>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 3, 3> abs_diff_ne", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>, ref t: Matrix<S, 3, 3>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 3, 3> relative_eq", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>, ref t: Matrix<S, 3, 3>, ref u: Matrix<S, 3, 3>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 3, 3> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>, ref t: Matrix<S, 3, 3>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 3, 3> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 3, 3>, ref b: Matrix<S, 3, 3>, ref t: Matrix<S, 3, 3>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 4, 4> abs_diff_eq", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>, ref t: Matrix<S, 4, 4>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 4, 4> abs_diff_ne", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>, ref t: Matrix<S, 4, 4>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 4, 4> relative_eq", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>, ref t: Matrix<S, 4, 4>, ref u: Matrix<S, 4, 4>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 4, 4> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>, ref t: Matrix<S, 4, 4>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 4, 4> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 4, 4>, ref b: Matrix<S, 4, 4>, ref t: Matrix<S, 4, 4>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 1, 2> abs_diff_eq", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>, ref t: Matrix<S, 1, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 1, 2> abs_diff_ne", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>, ref t: Matrix<S, 1, 2>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 1, 2> relative_eq", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>, ref t: Matrix<S, 1, 2>, ref u: Matrix<S, 1, 2>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 1, 2> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>, ref t: Matrix<S, 1, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 1, 2> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 1, 2>, ref b: Matrix<S, 1, 2>, ref t: Matrix<S, 1, 2>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 1, 3> abs_diff_eq", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>, ref t: Matrix<S, 1, 3>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 1, 3> abs_diff_ne", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>, ref t: Matrix<S, 1, 3>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 1, 3> relative_eq", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>, ref t: Matrix<S, 1, 3>, ref u: Matrix<S, 1, 3>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 1, 3> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>, ref t: Matrix<S, 1, 3>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 1, 3> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 1, 3>, ref b: Matrix<S, 1, 3>, ref t: Matrix<S, 1, 3>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 1, 4> abs_diff_eq", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>, ref t: Matrix<S, 1, 4>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 1, 4> abs_diff_ne", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>, ref t: Matrix<S, 1, 4>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 1, 4> relative_eq", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>, ref t: Matrix<S, 1, 4>, ref u: Matrix<S, 1, 4>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 1, 4> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>, ref t: Matrix<S, 1, 4>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 1, 4> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 1, 4>, ref b: Matrix<S, 1, 4>, ref t: Matrix<S, 1, 4>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 2, 3> abs_diff_eq", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>, ref t: Matrix<S, 2, 3>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 2, 3> abs_diff_ne", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>, ref t: Matrix<S, 2, 3>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 2, 3> relative_eq", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>, ref t: Matrix<S, 2, 3>, ref u: Matrix<S, 2, 3>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 2, 3> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>, ref t: Matrix<S, 2, 3>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 2, 3> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 2, 3>, ref b: Matrix<S, 2, 3>, ref t: Matrix<S, 2, 3>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 3, 2> abs_diff_eq", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>, ref t: Matrix<S, 3, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 3, 2> abs_diff_ne", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>, ref t: Matrix<S, 3, 2>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 3, 2> relative_eq", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>, ref t: Matrix<S, 3, 2>, ref u: Matrix<S, 3, 2>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 3, 2> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>, ref t: Matrix<S, 3, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 3, 2> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 3, 2>, ref b: Matrix<S, 3, 2>, ref t: Matrix<S, 3, 2>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 2, 4> abs_diff_eq", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>, ref t: Matrix<S, 2, 4>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 2, 4> abs_diff_ne", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>, ref t: Matrix<S, 2, 4>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
}
}
mod fl_52 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Matrix<S, 2, 4> relative_eq", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>, ref t: Matrix<S, 2, 4>, ref u: Matrix<S, 2, 4>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 2, 4> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>, ref t: Matrix<S, 2, 4>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 2, 4> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 2, 4>, ref b: Matrix<S, 2, 4>, ref t: Matrix<S, 2, 4>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 4, 2> abs_diff_eq", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>, ref t: Matrix<S, 4, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 4, 2> abs_diff_ne", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>, ref t: Matrix<S, 4, 2>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 4, 2> relative_eq", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>, ref t: Matrix<S, 4, 2>, ref u: Matrix<S, 4, 2>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 4, 2> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>, ref t: Matrix<S, 4, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 4, 2> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 4, 2>, ref b: Matrix<S, 4, 2>, ref t: Matrix<S, 4, 2>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 3, 4> abs_diff_eq", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>, ref t: Matrix<S, 3, 4>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 3, 4> abs_diff_ne", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>, ref t: Matrix<S, 3, 4>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 3, 4> relative_eq", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>, ref t: Matrix<S, 3, 4>, ref u: Matrix<S, 3, 4>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 3, 4> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>, ref t: Matrix<S, 3, 4>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 3, 4> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 3, 4>, ref b: Matrix<S, 3, 4>, ref t: Matrix<S, 3, 4>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 4, 3> abs_diff_eq", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>, ref t: Matrix<S, 4, 3>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 4, 3> abs_diff_ne", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>, ref t: Matrix<S, 4, 3>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 4, 3> relative_eq", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>, ref t: Matrix<S, 4, 3>, ref u: Matrix<S, 4, 3>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 4, 3> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>, ref t: Matrix<S, 4, 3>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 4, 3> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 4, 3>, ref b: Matrix<S, 4, 3>, ref t: Matrix<S, 4, 3>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 4, 1> abs_diff_eq", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>, ref t: Matrix<S, 4, 1>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 4, 1> abs_diff_ne", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>, ref t: Matrix<S, 4, 1>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 4, 1> relative_eq", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>, ref t: Matrix<S, 4, 1>, ref u: Matrix<S, 4, 1>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 4, 1> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>, ref t: Matrix<S, 4, 1>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 4, 1> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 4, 1>, ref b: Matrix<S, 4, 1>, ref t: Matrix<S, 4, 1>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 5, 5> abs_diff_eq", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>, ref t: Matrix<S, 5, 5>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 5, 5> abs_diff_ne", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>, ref t: Matrix<S, 5, 5>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 5, 5> relative_eq", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>, ref t: Matrix<S, 5, 5>, ref u: Matrix<S, 5, 5>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 5, 5> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>, ref t: Matrix<S, 5, 5>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 5, 5> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 5, 5>, ref b: Matrix<S, 5, 5>, ref t: Matrix<S, 5, 5>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Matrix<S, 6, 2> abs_diff_eq", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>, ref t: Matrix<S, 6, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Matrix<S, 6, 2> abs_diff_ne", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>, ref t: Matrix<S, 6, 2>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Matrix<S, 6, 2> relative_eq", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>, ref t: Matrix<S, 6, 2>, ref u: Matrix<S, 6, 2>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Matrix<S, 6, 2> AssertRelativeEq::debug", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>, ref t: Matrix<S, 6, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Matrix<S, 6, 2> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Matrix<S, 6, 2>, ref b: Matrix<S, 6, 2>, ref t: Matrix<S, 6, 2>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Complex<S> abs_diff_eq", 0, (ref a: Complex<S>, ref b: Complex<S>, ref t: Complex<S>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Complex<S> abs_diff_ne", 0, (ref a: Complex<S>, ref b: Complex<S>, ref t: Complex<S>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Complex<S> relative_eq", 0, (ref a: Complex<S>, ref b: Complex<S>, ref t: Complex<S>, ref u: Complex<S>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Complex<S> AssertRelativeEq::debug", 0, (ref a: Complex<S>, ref b: Complex<S>, ref t: Complex<S>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Complex<S> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Complex<S>, ref b: Complex<S>, ref t: Complex<S>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Quaternion<S> abs_diff_eq", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref t: Vector<S, 4>) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Quaternion<S> abs_diff_ne", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref t: Vector<S, 4>) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
}
}
mod fl_53 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Quaternion<S> relative_eq", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref t: Vector<S, 4>, ref u: Vector<S, 4>) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Quaternion<S> AssertRelativeEq::debug", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref t: Vector<S, 4>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Quaternion<S> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Quaternion<S>, ref b: Quaternion<S>, ref t: Vector<S, 4>) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Radians<S> abs_diff_eq", 0, (ref a: Radians<S>, ref b: Radians<S>, ref t: S) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Radians<S> abs_diff_ne", 0, (ref a: Radians<S>, ref b: Radians<S>, ref t: S) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Radians<S> relative_eq", 0, (ref a: Radians<S>, ref b: Radians<S>, ref t: S, ref u: S) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Radians<S> AssertRelativeEq::debug", 0, (ref a: Radians<S>, ref b: Radians<S>, ref t: S) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Radians<S> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Radians<S>, ref b: Radians<S>, ref t: S) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "Degrees<S> abs_diff_eq", 0, (ref a: Degrees<S>, ref b: Degrees<S>, ref t: S) => AbsDiffEq::abs_diff_eq(&a, &b, &t));
    op!(v, "Degrees<S> abs_diff_ne", 0, (ref a: Degrees<S>, ref b: Degrees<S>, ref t: S) => AbsDiffEq::abs_diff_ne(&a, &b, &t));
    op!(v, "Degrees<S> relative_eq", 0, (ref a: Degrees<S>, ref b: Degrees<S>, ref t: S, ref u: S) => RelativeEq::relative_eq(&a, &b, &t, &u));
    op!(v, "Degrees<S> AssertRelativeEq::debug", 0, (ref a: Degrees<S>, ref b: Degrees<S>, ref t: S) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &t), AssertRelativeEq::debug_relative_tolerance(&a, &b, &t))));
    op!(v, "Degrees<S> AssertAbsDiffEq::debug_tolerance", 0, (ref a: Degrees<S>, ref b: Degrees<S>, ref t: S) => DD(AssertAbsDiffEq::debug_abs_diff_tolerance(&a, &b, &t)));
    op!(v, "<Radians<S> as Angle>::sin_cos", 0, (ref a: Radians<S>) => <Radians<S> as Angle>::sin_cos(a));
    op!(v, "<Degrees<S> as Angle>::sin_cos", 0, (ref a: Degrees<S>) => <Degrees<S> as Angle>::sin_cos(a));
    op!(v, "<Radians<S> as Angle>::full_turn_div_2", 0, () => <Radians<S> as Angle>::full_turn_div_2());
    op!(v, "<Degrees<S> as Angle>::full_turn_div_2", 0, () => <Degrees<S> as Angle>::full_turn_div_2());
    op!(v, "<Radians<S> as Angle>::full_turn_div_4", 0, () => <Radians<S> as Angle>::full_turn_div_4());
    op!(v, "<Degrees<S> as Angle>::full_turn_div_4", 0, () => <Degrees<S> as Angle>::full_turn_div_4());
    op!(v, "<Radians<S> as Angle>::full_turn_div_6", 0, () => <Radians<S> as Angle>::full_turn_div_6());
    op!(v, "<Degrees<S> as Angle>::full_turn_div_6", 0, () => <Degrees<S> as Angle>::full_turn_div_6());
    op!(v, "<Radians<S> as Angle>::full_turn_div_8", 0, () => <Radians<S> as Angle>::full_turn_div_8());
    op!(v, "<Degrees<S> as Angle>::full_turn_div_8", 0, () => <Degrees<S> as Angle>::full_turn_div_8());
    op!(v, "<Radians<S> as Angle>::normalize", 0, (ref a: Radians<S>) => <Radians<S> as Angle>::normalize(a));
    op!(v, "<Degrees<S> as Angle>::normalize", 0, (ref a: Degrees<S>) => <Degrees<S> as Angle>::normalize(a));
    op!(v, "<Radians<S> as Angle>::normalize_signed", 0, (ref a: Radians<S>) => <Radians<S> as Angle>::normalize_signed(a));
    op!(v, "<Degrees<S> as Angle>::normalize_signed", 0, (ref a: Degrees<S>) => <Degrees<S> as Angle>::normalize_signed(a));
    op!(v, "<Radians<S> as Angle>::opposite", 0, (ref a: Radians<S>) => <Radians<S> as Angle>::opposite(a));
    op!(v, "<Degrees<S> as Angle>::opposite", 0, (ref a: Degrees<S>) => <Degrees<S> as Angle>::opposite(a));
    op!(v, "<Radians<S> as Angle>::bisect", 0, (ref a: Radians<S>, ref b: Radians<S>) => <Radians<S> as Angle>::bisect(a, b));
    op!(v, "<Degrees<S> as Angle>::bisect", 0, (ref a: Degrees<S>, ref b: Degrees<S>) => <Degrees<S> as Angle>::bisect(a, b));
    op!(v, "<Radians<S> as Angle>::csc", 0, (ref a: Radians<S>) => <Radians<S> as Angle>::csc(a));
    op!(v, "<Degrees<S> as Angle>::csc", 0, (ref a: Degrees<S>) => <Degrees<S> as Angle>::csc(a));
    op!(v, "<Radians<S> as Angle>::cot", 0, (ref a: Radians<S>) => <Radians<S> as Angle>::cot(a));
    op!(v, "<Degrees<S> as Angle>::cot", 0, (ref a: Degrees<S>) => <Degrees<S> as Angle>::cot(a));
    op!(v, "<Radians<S> as Angle>::sec", 0, (ref a: Radians<S>) => <Radians<S> as Angle>::sec(a));
    op!(v, "<Degrees<S> as Angle>::sec", 0, (ref a: Degrees<S>) => <Degrees<S> as Angle>::sec(a));
    op!(v, "SimdScalarFloat::floor", 0, (ref a: S) => <S as SimdScalarFloat>::floor(a));
    op!(v, "SimdScalarFloat::ceil", 0, (ref a: S) => <S as SimdScalarFloat>::ceil(a));
    op!(v, "SimdScalarFloat::round", 0, (ref a: S) => <S as SimdScalarFloat>::round(a));
}
}
mod fl_54 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "SimdScalarFloat::trunc", 0, (ref a: S) => <S as SimdScalarFloat>::trunc(a));
    op!(v, "SimdScalarFloat::fract", 0, (ref a: S) => <S as SimdScalarFloat>::fract(a));
    op!(v, "SimdScalarFloat::mul_add", 0, (ref a: S, ref b: S, ref c: S) => <S as SimdScalarFloat>::mul_add(a, b, c));
    op!(v, "SimdScalarFloat::hypot", 0, (ref a: S, ref b: S) => <S as SimdScalarFloat>::hypot(a, b));
    op!(v, "SimdScalarFloat::recip", 0, (ref a: S) => <S as SimdScalarFloat>::recip(a));
    op!(v, "SimdScalarFloat::atan2", 0, (ref a: S, ref b: S) => <S as SimdScalarFloat>::atan2(a, b));
    op!(v, "SimdScalarFloat::sin_cos", 0, (ref a: S) => <S as SimdScalarFloat>::sin_cos(a));
    op!(v, "SimdScalarFloat::sin", 0, (ref a: S) => <S as SimdScalarFloat>::sin(a));
    op!(v, "SimdScalarFloat::cos", 0, (ref a: S) => <S as SimdScalarFloat>::cos(a));
    op!(v, "SimdScalarFloat::tan", 0, (ref a: S) => <S as SimdScalarFloat>::tan(a));
    op!(v, "SimdScalarFloat::asin", 0, (ref a: S) => <S as SimdScalarFloat>::asin(a));
    op!(v, "SimdScalarFloat::acos", 0, (ref a: S) => <S as SimdScalarFloat>::acos(a));
    op!(v, "SimdScalarFloat::atan", 0, (ref a: S) => <S as SimdScalarFloat>::atan(a));
    op!(v, "SimdScalarFloat::sinh", 0, (ref a: S) => <S as SimdScalarFloat>::sinh(a));
    op!(v, "SimdScalarFloat::cosh", 0, (ref a: S) => <S as SimdScalarFloat>::cosh(a));
    op!(v, "SimdScalarFloat::tanh", 0, (ref a: S) => <S as SimdScalarFloat>::tanh(a));
    op!(v, "SimdScalarFloat::asinh", 0, (ref a: S) => <S as SimdScalarFloat>::asinh(a));
    op!(v, "SimdScalarFloat::acosh", 0, (ref a: S) => <S as SimdScalarFloat>::acosh(a));
    op!(v, "SimdScalarFloat::atanh", 0, (ref a: S) => <S as SimdScalarFloat>::atanh(a));
    op!(v, "SimdScalarFloat::sinh_cosh", 0, (ref a: S) => <S as SimdScalarFloat>::sinh_cosh(a));
    op!(v, "SimdScalarFloat::log", 0, (ref a: S, ref b: S) => <S as SimdScalarFloat>::log(a, b));
    op!(v, "SimdScalarFloat::log2", 0, (ref a: S) => <S as SimdScalarFloat>::log2(a));
    op!(v, "SimdScalarFloat::log10", 0, (ref a: S) => <S as SimdScalarFloat>::log10(a));
    op!(v, "SimdScalarFloat::ln", 0, (ref a: S) => <S as SimdScalarFloat>::ln(a));
    op!(v, "SimdScalarFloat::ln_1p", 0, (ref a: S) => <S as SimdScalarFloat>::ln_1p(a));
    op!(v, "SimdScalarFloat::sqrt", 0, (ref a: S) => <S as SimdScalarFloat>::sqrt(a));
    op!(v, "SimdScalarFloat::cbrt", 0, (ref a: S) => <S as SimdScalarFloat>::cbrt(a));
    op!(v, "SimdScalarFloat::exp", 0, (ref a: S) => <S as SimdScalarFloat>::exp(a));
    op!(v, "SimdScalarFloat::exp2", 0, (ref a: S) => <S as SimdScalarFloat>::exp2(a));
    op!(v, "SimdScalarFloat::exp_m1", 0, (ref a: S) => <S as SimdScalarFloat>::exp_m1(a));
    op!(v, "SimdScalarFloat::powi", 0, (ref a: S, ref b: Small) => <S as SimdScalarFloat>::powi(a, b.0 as i32));
    op!(v, "SimdScalarFloat::powf", 0, (ref a: S, ref b: S) => <S as SimdScalarFloat>::powf(a, b));
    op!(v, "SimdScalarFloat::is_finite", 0, (ref a: S) => <S as SimdScalarFloat>::is_finite(a));
    op!(v, "SimdScalarFloat::is_infinite", 0, (ref a: S) => <S as SimdScalarFloat>::is_infinite(a));
    op!(v, "SimdScalarFloat::is_nan", 0, (ref a: S) => <S as SimdScalarFloat>::is_nan(a));
    op!(v, "SimdScalarFloat::is_normal", 0, (ref a: S) => <S as SimdScalarFloat>::is_normal(a));
    op!(v, "SimdScalarFloat::is_subnormal", 0, (ref a: S) => <S as SimdScalarFloat>::is_subnormal(a));
    op!(v, "SimdScalarFloat::min_positive_value", 0, () => <S as SimdScalarFloat>::min_positive_value());
    op!(v, "SimdScalarFloat::pi", 0, () => <S as SimdScalarFloat>::pi());
    op!(v, "SimdScalarFloat::two_pi", 0, () => <S as SimdScalarFloat>::two_pi());
}
}
mod fl_55 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "SimdScalarFloat::frac_pi_2", 0, () => <S as SimdScalarFloat>::frac_pi_2());
    op!(v, "SimdScalarFloat::frac_pi_3", 0, () => <S as SimdScalarFloat>::frac_pi_3());
    op!(v, "SimdScalarFloat::frac_pi_4", 0, () => <S as SimdScalarFloat>::frac_pi_4());
    op!(v, "SimdScalarFloat::frac_pi_6", 0, () => <S as SimdScalarFloat>::frac_pi_6());
    op!(v, "SimdScalarFloat::frac_pi_8", 0, () => <S as SimdScalarFloat>::frac_pi_8());
    op!(v, "SimdScalarFloat::frac_1_pi", 0, () => <S as SimdScalarFloat>::frac_1_pi());
    op!(v, "SimdScalarFloat::frac_2_pi", 0, () => <S as SimdScalarFloat>::frac_2_pi());
    op!(v, "SimdScalarFloat::frac_2_sqrt_pi", 0, () => <S as SimdScalarFloat>::frac_2_sqrt_pi());
    op!(v, "SimdScalarFloat::e", 0, () => <S as SimdScalarFloat>::e());
    op!(v, "SimdScalarFloat::log2_e", 0, () => <S as SimdScalarFloat>::log2_e());
    op!(v, "SimdScalarFloat::log10_e", 0, () => <S as SimdScalarFloat>::log10_e());
    op!(v, "SimdScalarFloat::ln_2", 0, () => <S as SimdScalarFloat>::ln_2());
    op!(v, "SimdScalarFloat::ln_10", 0, () => <S as SimdScalarFloat>::ln_10());
    op!(v, "SimdScalarFloat::sqrt_2", 0, () => <S as SimdScalarFloat>::sqrt_2());
    op!(v, "SimdScalarFloat::frac_1_sqrt_2", 0, () => <S as SimdScalarFloat>::frac_1_sqrt_2());
    op!(v, "SimdScalarFloat::nan", 0, () => <S as SimdScalarFloat>::nan());
    op!(v, "SimdScalarFloat::infinity", 0, () => <S as SimdScalarFloat>::infinity());
    op!(v, "SimdScalarFloat::neg_infinity", 0, () => <S as SimdScalarFloat>::neg_infinity());
    op!(v, "SimdScalarFloat::neg_zero", 0, () => <S as SimdScalarFloat>::neg_zero());
    op!(v, "SimdScalarFloat::machine_epsilon", 0, () => <S as SimdScalarFloat>::machine_epsilon());
    op!(v, "SimdScalarBounded::min_value", 0, () => <S as SimdScalarBounded>::min_value());
    op!(v, "SimdScalarBounded::max_value", 0, () => <S as SimdScalarBounded>::max_value());
    op!(v, "Translation<S, 2> abs_diff_eq", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>, ref t: Vector<S, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &TranslationTol::from(t)));
    op!(v, "Translation<S, 2> relative_eq", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>, ref t: Vector<S, 2>) => RelativeEq::relative_eq(&a, &b, &TranslationTol::from(t), &TranslationTol::from(t)));
    op!(v, "Translation<S, 2> AssertRelativeEq::debug", 0, (ref a: Translation<S, 2>, ref b: Translation<S, 2>, ref t: Vector<S, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &TranslationTol::from(t)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &TranslationTol::from(t)))));
    op!(v, "Translation<S, 3> abs_diff_eq", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>, ref t: Vector<S, 3>) => AbsDiffEq::abs_diff_eq(&a, &b, &TranslationTol::from(t)));
    op!(v, "Translation<S, 3> relative_eq", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>, ref t: Vector<S, 3>) => RelativeEq::relative_eq(&a, &b, &TranslationTol::from(t), &TranslationTol::from(t)));
    op!(v, "Translation<S, 3> AssertRelativeEq::debug", 0, (ref a: Translation<S, 3>, ref b: Translation<S, 3>, ref t: Vector<S, 3>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &TranslationTol::from(t)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &TranslationTol::from(t)))));
    op!(v, "Scale<S, 2> abs_diff_eq", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>, ref t: Vector<S, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &ScaleTol::from(t)));
    op!(v, "Scale<S, 2> relative_eq", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>, ref t: Vector<S, 2>) => RelativeEq::relative_eq(&a, &b, &ScaleTol::from(t), &ScaleTol::from(t)));
    op!(v, "Scale<S, 2> AssertRelativeEq::debug", 0, (ref a: Scale<S, 2>, ref b: Scale<S, 2>, ref t: Vector<S, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &ScaleTol::from(t)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &ScaleTol::from(t)))));
    op!(v, "Scale<S, 3> abs_diff_eq", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>, ref t: Vector<S, 3>) => AbsDiffEq::abs_diff_eq(&a, &b, &ScaleTol::from(t)));
    op!(v, "Scale<S, 3> relative_eq", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>, ref t: Vector<S, 3>) => RelativeEq::relative_eq(&a, &b, &ScaleTol::from(t), &ScaleTol::from(t)));
    op!(v, "Scale<S, 3> AssertRelativeEq::debug", 0, (ref a: Scale<S, 3>, ref b: Scale<S, 3>, ref t: Vector<S, 3>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &ScaleTol::from(t)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &ScaleTol::from(t)))));
    op!(v, "Rotation<S, 2> abs_diff_eq", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>, ref t: Matrix<S, 2, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &RotationTol::from(t)));
    op!(v, "Rotation<S, 2> relative_eq", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>, ref t: Matrix<S, 2, 2>) => RelativeEq::relative_eq(&a, &b, &RotationTol::from(t), &RotationTol::from(t)));
    op!(v, "Rotation<S, 2> AssertRelativeEq::debug", 0, (ref a: Rotation<S, 2>, ref b: Rotation<S, 2>, ref t: Matrix<S, 2, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &RotationTol::from(t)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &RotationTol::from(t)))));
    op!(v, "Rotation<S, 3> abs_diff_eq", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>, ref t: Matrix<S, 3, 3>) => AbsDiffEq::abs_diff_eq(&a, &b, &RotationTol::from(t)));
    op!(v, "Rotation<S, 3> relative_eq", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>, ref t: Matrix<S, 3, 3>) => RelativeEq::relative_eq(&a, &b, &RotationTol::from(t), &RotationTol::from(t)));
    op!(v, "Rotation<S, 3> AssertRelativeEq::debug", 0, (ref a: Rotation<S, 3>, ref b: Rotation<S, 3>, ref t: Matrix<S, 3, 3>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &RotationTol::from(t)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &RotationTol::from(t)))));
}
}
mod fl_56 {
use super::*;
#[inline(never)]
pub fn reg<S: Fl>(v: &mut Vec<Op>) {
    op!(v, "Perspective3<S> abs_diff_eq", 0, (ref a: Perspective3<S>, ref b: Perspective3<S>, ref t: Matrix<S, 4, 4>) => AbsDiffEq::abs_diff_eq(&a, &b, &Perspective3Tol::from(t)));
    op!(v, "Perspective3<S> relative_eq", 0, (ref a: Perspective3<S>, ref b: Perspective3<S>, ref t: Matrix<S, 4, 4>) => RelativeEq::relative_eq(&a, &b, &Perspective3Tol::from(t), &Perspective3Tol::from(t)));
    op!(v, "Perspective3<S> AssertRelativeEq::debug", 0, (ref a: Perspective3<S>, ref b: Perspective3<S>, ref t: Matrix<S, 4, 4>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &Perspective3Tol::from(t)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &Perspective3Tol::from(t)))));
    op!(v, "Orthographic3<S> abs_diff_eq", 0, (ref a: Orthographic3<S>, ref b: Orthographic3<S>, ref t: Matrix<S, 4, 4>) => AbsDiffEq::abs_diff_eq(&a, &b, &Orthographic3Tol::from(t)));
    op!(v, "Orthographic3<S> relative_eq", 0, (ref a: Orthographic3<S>, ref b: Orthographic3<S>, ref t: Matrix<S, 4, 4>) => RelativeEq::relative_eq(&a, &b, &Orthographic3Tol::from(t), &Orthographic3Tol::from(t)));
    op!(v, "Orthographic3<S> AssertRelativeEq::debug", 0, (ref a: Orthographic3<S>, ref b: Orthographic3<S>, ref t: Matrix<S, 4, 4>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &Orthographic3Tol::from(t)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &Orthographic3Tol::from(t)))));
    op!(v, "Isometry<S, 2> abs_diff_eq", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>, ref t0: Vector<S, 2>, ref t1: Matrix<S, 2, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &IsometryTol::from_parts(t0, t1)));
    op!(v, "Isometry<S, 2> relative_eq", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>, ref t0: Vector<S, 2>, ref t1: Matrix<S, 2, 2>) => RelativeEq::relative_eq(&a, &b, &IsometryTol::from_parts(t0, t1), &IsometryTol::from_parts(t0, t1)));
    op!(v, "Isometry<S, 2> AssertRelativeEq::debug", 0, (ref a: Isometry<S, 2>, ref b: Isometry<S, 2>, ref t0: Vector<S, 2>, ref t1: Matrix<S, 2, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &IsometryTol::from_parts(t0, t1)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &IsometryTol::from_parts(t0, t1)))));
    op!(v, "Similarity<S, 2> abs_diff_eq", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>, ref t0: Vector<S, 2>, ref t1: Matrix<S, 2, 2>, ref t2: S) => AbsDiffEq::abs_diff_eq(&a, &b, &SimilarityTol::from_parts(t0, t1, t2)));
    op!(v, "Similarity<S, 2> relative_eq", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>, ref t0: Vector<S, 2>, ref t1: Matrix<S, 2, 2>, ref t2: S) => RelativeEq::relative_eq(&a, &b, &SimilarityTol::from_parts(t0, t1, t2), &SimilarityTol::from_parts(t0, t1, t2)));
    op!(v, "Similarity<S, 2> AssertRelativeEq::debug", 0, (ref a: Similarity<S, 2>, ref b: Similarity<S, 2>, ref t0: Vector<S, 2>, ref t1: Matrix<S, 2, 2>, ref t2: S) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &SimilarityTol::from_parts(t0, t1, t2)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &SimilarityTol::from_parts(t0, t1, t2)))));
    op!(v, "Reflection<S, 2> abs_diff_eq", 0, (ref a: Reflection<S, 2>, ref b: Reflection<S, 2>, ref t0: Vector<S, 2>, ref t1: Vector<S, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &ReflectionTol::from_parts(t0, t1)));
    op!(v, "Reflection<S, 2> relative_eq", 0, (ref a: Reflection<S, 2>, ref b: Reflection<S, 2>, ref t0: Vector<S, 2>, ref t1: Vector<S, 2>) => RelativeEq::relative_eq(&a, &b, &ReflectionTol::from_parts(t0, t1), &ReflectionTol::from_parts(t0, t1)));
    op!(v, "Reflection<S, 2> AssertRelativeEq::debug", 0, (ref a: Reflection<S, 2>, ref b: Reflection<S, 2>, ref t0: Vector<S, 2>, ref t1: Vector<S, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &ReflectionTol::from_parts(t0, t1)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &ReflectionTol::from_parts(t0, t1)))));
    op!(v, "Shear<S, 2> abs_diff_eq", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>, ref t0: S, ref t1: Vector<S, 2>, ref t2: Vector<S, 2>, ref t3: Vector<S, 2>) => AbsDiffEq::abs_diff_eq(&a, &b, &ShearTol::from_parts(t0, t1, t2, t3)));
    op!(v, "Shear<S, 2> relative_eq", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>, ref t0: S, ref t1: Vector<S, 2>, ref t2: Vector<S, 2>, ref t3: Vector<S, 2>) => RelativeEq::relative_eq(&a, &b, &ShearTol::from_parts(t0, t1, t2, t3), &ShearTol::from_parts(t0, t1, t2, t3)));
    op!(v, "Shear<S, 2> AssertRelativeEq::debug", 0, (ref a: Shear<S, 2>, ref b: Shear<S, 2>, ref t0: S, ref t1: Vector<S, 2>, ref t2: Vector<S, 2>, ref t3: Vector<S, 2>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &ShearTol::from_parts(t0, t1, t2, t3)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &ShearTol::from_parts(t0, t1, t2, t3)))));
    op!(v, "Isometry<S, 3> abs_diff_eq", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>, ref t0: Vector<S, 3>, ref t1: Matrix<S, 3, 3>) => AbsDiffEq::abs_diff_eq(&a, &b, &IsometryTol::from_parts(t0, t1)));
    op!(v, "Isometry<S, 3> relative_eq", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>, ref t0: Vector<S, 3>, ref t1: Matrix<S, 3, 3>) => RelativeEq::relative_eq(&a, &b, &IsometryTol::from_parts(t0, t1), &IsometryTol::from_parts(t0, t1)));
    op!(v, "Isometry<S, 3> AssertRelativeEq::debug", 0, (ref a: Isometry<S, 3>, ref b: Isometry<S, 3>, ref t0: Vector<S, 3>, ref t1: Matrix<S, 3, 3>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &IsometryTol::from_parts(t0, t1)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &IsometryTol::from_parts(t0, t1)))));
    op!(v, "Similarity<S, 3> abs_diff_eq", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>, ref t0: Vector<S, 3>, ref t1: Matrix<S, 3, 3>, ref t2: S) => AbsDiffEq::abs_diff_eq(&a, &b, &SimilarityTol::from_parts(t0, t1, t2)));
    op!(v, "Similarity<S, 3> relative_eq", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>, ref t0: Vector<S, 3>, ref t1: Matrix<S, 3, 3>, ref t2: S) => RelativeEq::relative_eq(&a, &b, &SimilarityTol::from_parts(t0, t1, t2), &SimilarityTol::from_parts(t0, t1, t2)));
    op!(v, "Similarity<S, 3> AssertRelativeEq::debug", 0, (ref a: Similarity<S, 3>, ref b: Similarity<S, 3>, ref t0: Vector<S, 3>, ref t1: Matrix<S, 3, 3>, ref t2: S) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &SimilarityTol::from_parts(t0, t1, t2)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &SimilarityTol::from_parts(t0, t1, t2)))));
    op!(v, "Reflection<S, 3> abs_diff_eq", 0, (ref a: Reflection<S, 3>, ref b: Reflection<S, 3>, ref t0: Vector<S, 3>, ref t1: Vector<S, 3>) => AbsDiffEq::abs_diff_eq(&a, &b, &ReflectionTol::from_parts(t0, t1)));
    op!(v, "Reflection<S, 3> relative_eq", 0, (ref a: Reflection<S, 3>, ref b: Reflection<S, 3>, ref t0: Vector<S, 3>, ref t1: Vector<S, 3>) => RelativeEq::relative_eq(&a, &b, &ReflectionTol::from_parts(t0, t1), &ReflectionTol::from_parts(t0, t1)));
    op!(v, "Reflection<S, 3> AssertRelativeEq::debug", 0, (ref a: Reflection<S, 3>, ref b: Reflection<S, 3>, ref t0: Vector<S, 3>, ref t1: Vector<S, 3>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &ReflectionTol::from_parts(t0, t1)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &ReflectionTol::from_parts(t0, t1)))));
    op!(v, "Shear<S, 3> abs_diff_eq", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>, ref t0: S, ref t1: Vector<S, 3>, ref t2: Vector<S, 3>, ref t3: Vector<S, 3>) => AbsDiffEq::abs_diff_eq(&a, &b, &ShearTol::from_parts(t0, t1, t2, t3)));
    op!(v, "Shear<S, 3> relative_eq", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>, ref t0: S, ref t1: Vector<S, 3>, ref t2: Vector<S, 3>, ref t3: Vector<S, 3>) => RelativeEq::relative_eq(&a, &b, &ShearTol::from_parts(t0, t1, t2, t3), &ShearTol::from_parts(t0, t1, t2, t3)));
    op!(v, "Shear<S, 3> AssertRelativeEq::debug", 0, (ref a: Shear<S, 3>, ref b: Shear<S, 3>, ref t0: S, ref t1: Vector<S, 3>, ref t2: Vector<S, 3>, ref t3: Vector<S, 3>) => DD((AssertRelativeEq::debug_abs_diff_tolerance(&a, &b, &ShearTol::from_parts(t0, t1, t2, t3)), AssertRelativeEq::debug_relative_tolerance(&a, &b, &ShearTol::from_parts(t0, t1, t2, t3)))));
}
}
pub fn reg_fl<S: Fl>(v: &mut Vec<Op>) {
    fl_0::reg::<S>(v);
    fl_1::reg::<S>(v);
    fl_2::reg::<S>(v);
    fl_3::reg::<S>(v);
    fl_4::reg::<S>(v);
    fl_5::reg::<S>(v);
    fl_6::reg::<S>(v);
    fl_7::reg::<S>(v);
    fl_8::reg::<S>(v);
    fl_9::reg::<S>(v);
    fl_10::reg::<S>(v);
    fl_11::reg::<S>(v);
    fl_12::reg::<S>(v);
    fl_13::reg::<S>(v);
    fl_14::reg::<S>(v);
    fl_15::reg::<S>(v);
    fl_16::reg::<S>(v);
    fl_17::reg::<S>(v);
    fl_18::reg::<S>(v);
    fl_19::reg::<S>(v);
    fl_20::reg::<S>(v);
    fl_21::reg::<S>(v);
    fl_22::reg::<S>(v);
    fl_23::reg::<S>(v);
    fl_24::reg::<S>(v);
    fl_25::reg::<S>(v);
    fl_26::reg::<S>(v);
    fl_27::reg::<S>(v);
    fl_28::reg::<S>(v);
    fl_29::reg::<S>(v);
    fl_30::reg::<S>(v);
    fl_31::reg::<S>(v);
    fl_32::reg::<S>(v);
    fl_33::reg::<S>(v);
    fl_34::reg::<S>(v);
    fl_35::reg::<S>(v);
    fl_36::reg::<S>(v);
    fl_37::reg::<S>(v);
    fl_38::reg::<S>(v);
    fl_39::reg::<S>(v);
    fl_40::reg::<S>(v);
    fl_41::reg::<S>(v);
    fl_42::reg::<S>(v);
    fl_43::reg::<S>(v);
    fl_44::reg::<S>(v);
    fl_45::reg::<S>(v);
    fl_46::reg::<S>(v);
    fl_47::reg::<S>(v);
    fl_48::reg::<S>(v);
    fl_49::reg::<S>(v);
    fl_50::reg::<S>(v);
    fl_51::reg::<S>(v);
    fl_52::reg::<S>(v);
    fl_53::reg::<S>(v);
    fl_54::reg::<S>(v);
    fl_55::reg::<S>(v);
    fl_56::reg::<S>(v);
}
pub mod pr_f64 {
use super::*;
type S = f64;
pub fn reg(v: &mut Vec<Op>) {
    op!(v, "S * Vector<S, 1>", 0, (ref a: S, ref b: Vector<S, 1>) => a * b);
    op!(v, "S * &Vector<S, 1>", 0, (ref a: S, ref b: Vector<S, 1>) => a * &b);
    op!(v, "S * Vector<S, 2>", 0, (ref a: S, ref b: Vector<S, 2>) => a * b);
    op!(v, "S * &Vector<S, 2>", 0, (ref a: S, ref b: Vector<S, 2>) => a * &b);
    op!(v, "S * Vector<S, 3>", 0, (ref a: S, ref b: Vector<S, 3>) => a * b);
    op!(v, "S * &Vector<S, 3>", 0, (ref a: S, ref b: Vector<S, 3>) => a * &b);
    op!(v, "S * Vector<S, 4>", 0, (ref a: S, ref b: Vector<S, 4>) => a * b);
    op!(v, "S * &Vector<S, 4>", 0, (ref a: S, ref b: Vector<S, 4>) => a * &b);
    op!(v, "S * Vector<S, 5>", 0, (ref a: S, ref b: Vector<S, 5>) => a * b);
    op!(v, "S * &Vector<S, 5>", 0, (ref a: S, ref b: Vector<S, 5>) => a * &b);
    op!(v, "S * Vector<S, 9>", 0, (ref a: S, ref b: Vector<S, 9>) => a * b);
    op!(v, "S * &Vector<S, 9>", 0, (ref a: S, ref b: Vector<S, 9>) => a * &b);
    op!(v, "S * Matrix<S, 1, 1>", 0, (ref a: S, ref b: Matrix<S, 1, 1>) => a * b);
    op!(v, "S * &Matrix<S, 1, 1>", 0, (ref a: S, ref b: Matrix<S, 1, 1>) => a * &b);
    op!(v, "S * Matrix<S, 2, 2>", 0, (ref a: S, ref b: Matrix<S, 2, 2>) => a * b);
    op!(v, "S * &Matrix<S, 2, 2>", 0, (ref a: S, ref b: Matrix<S, 2, 2>) => a * &b);
    op!(v, "S * Matrix<S, 3, 3>", 0, (ref a: S, ref b: Matrix<S, 3, 3>) => a * b);
    op!(v, "S * &Matrix<S, 3, 3>", 0, (ref a: S, ref b: Matrix<S, 3, 3>) => a * &b);
    op!(v, "S * Matrix<S, 4, 4>", 0, (ref a: S, ref b: Matrix<S, 4, 4>) => a * b);
    op!(v, "S * &Matrix<S, 4, 4>", 0, (ref a: S, ref b: Matrix<S, 4, 4>) => a * &b);
    op!(v, "S * Matrix<S, 1, 2>", 0, (ref a: S, ref b: Matrix<S, 1, 2>) => a * b);
    op!(v, "S * &Matrix<S, 1, 2>", 0, (ref a: S, ref b: Matrix<S, 1, 2>) => a * &b);
    op!(v, "S * Matrix<S, 1, 3>", 0, (ref a: S, ref b: Matrix<S, 1, 3>) => a * b);
    op!(v, "S * &Matrix<S, 1, 3>", 0, (ref a: S, ref b: Matrix<S, 1, 3>) => a * &b);
    op!(v, "S * Matrix<S, 1, 4>", 0, (ref a: S, ref b: Matrix<S, 1, 4>) => a * b);
    op!(v, "S * &Matrix<S, 1, 4>", 0, (ref a: S, ref b: Matrix<S, 1, 4>) => a * &b);
    op!(v, "S * Matrix<S, 2, 3>", 0, (ref a: S, ref b: Matrix<S, 2, 3>) => a * b);
    op!(v, "S * &Matrix<S, 2, 3>", 0, (ref a: S, ref b: Matrix<S, 2, 3>) => a * &b);
    op!(v, "S * Matrix<S, 3, 2>", 0, (ref a: S, ref b: Matrix<S, 3, 2>) => a * b);
    op!(v, "S * &Matrix<S, 3, 2>", 0, (ref a: S, ref b: Matrix<S, 3, 2>) => a * &b);
    op!(v, "S * Matrix<S, 2, 4>", 0, (ref a: S, ref b: Matrix<S, 2, 4>) => a * b);
    op!(v, "S * &Matrix<S, 2, 4>", 0, (ref a: S, ref b: Matrix<S, 2, 4>) => a * &b);
    op!(v, "S * Matrix<S, 4, 2>", 0, (ref a: S, ref b: Matrix<S, 4, 2>) => a * b);
    op!(v, "S * &Matrix<S, 4, 2>", 0, (ref a: S, ref b: Matrix<S, 4, 2>) => a * &b);
    op!(v, "S * Matrix<S, 3, 4>", 0, (ref a: S, ref b: Matrix<S, 3, 4>) => a * b);
    op!(v, "S * &Matrix<S, 3, 4>", 0, (ref a: S, ref b: Matrix<S, 3, 4>) => a * &b);
    op!(v, "S * Matrix<S, 4, 3>", 0, (ref a: S, ref b: Matrix<S, 4, 3>) => a * b);
    op!(v, "S * &Matrix<S, 4, 3>", 0, (ref a: S, ref b: Matrix<S, 4, 3>) => a * &b);
    op!(v, "S * Matrix<S, 4, 1>", 0, (ref a: S, ref b: Matrix<S, 4, 1>) => a * b);
    op!(v, "S * &Matrix<S, 4, 1>", 0, (ref a: S, ref b: Matrix<S, 4, 1>) => a * &b);
    op!(v, "S * Matrix<S, 5, 5>", 0, (ref a: S, ref b: Matrix<S, 5, 5>) => a * b);
    op!(v, "S * &Matrix<S, 5, 5>", 0, (ref a: S, ref b: Matrix<S, 5, 5>) => a * &b);
    op!(v, "S * Matrix<S, 6, 2>", 0, (ref a: S, ref b: Matrix<S, 6, 2>) => a * b);
    op!(v, "S * &Matrix<S, 6, 2>", 0, (ref a: S, ref b: Matrix<S, 6, 2>) => a * &b);
    op!(v, "S * Quaternion<S>", 0, (ref a: S, ref b: Quaternion<S>) => a * b);
    op!(v, "S * &Quaternion<S>", 0, (ref a: S, ref b: Quaternion<S>) => a * &b);
    op!(v, "S * Point<S, 1>", 0, (ref a: S, ref b: Point<S, 1>) => a * b);
    op!(v, "S * Point<S, 2>", 0, (ref a: S, ref b: Point<S, 2>) => a * b);
    op!(v, "S * Point<S, 3>", 0, (ref a: S, ref b: Point<S, 3>) => a * b);
    op!(v, "S * Point<S, 6>", 0, (ref a: S, ref b: Point<S, 6>) => a * b);
    op!(v, "S + Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a + b);
    op!(v, "S + &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a + &b);
    op!(v, "S - Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a - b);
    op!(v, "S - &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a - &b);
    op!(v, "S * Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a * b);
    op!(v, "S * &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a * &b);
    op!(v, "S / Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a / b);
    op!(v, "S / &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a / &b);
}
}
pub mod pr_f32 {
use super::*;
type S = f32;
pub fn reg(v: &mut Vec<Op>) {
    op!(v, "S * Vector<S, 1>", 0, (ref a: S, ref b: Vector<S, 1>) => a * b);
    op!(v, "S * &Vector<S, 1>", 0, (ref a: S, ref b: Vector<S, 1>) => a * &b);
    op!(v, "S * Vector<S, 2>", 0, (ref a: S, ref b: Vector<S, 2>) => a * b);
    op!(v, "S * &Vector<S, 2>", 0, (ref a: S, ref b: Vector<S, 2>) => a * &b);
    op!(v, "S * Vector<S, 3>", 0, (ref a: S, ref b: Vector<S, 3>) => a * b);
    op!(v, "S * &Vector<S, 3>", 0, (ref a: S, ref b: Vector<S, 3>) => a * &b);
    op!(v, "S * Vector<S, 4>", 0, (ref a: S, ref b: Vector<S, 4>) => a * b);
    op!(v, "S * &Vector<S, 4>", 0, (ref a: S, ref b: Vector<S, 4>) => a * &b);
    op!(v, "S * Vector<S, 5>", 0, (ref a: S, ref b: Vector<S, 5>) => a * b);
    op!(v, "S * &Vector<S, 5>", 0, (ref a: S, ref b: Vector<S, 5>) => a * &b);
    op!(v, "S * Vector<S, 9>", 0, (ref a: S, ref b: Vector<S, 9>) => a * b);
    op!(v, "S * &Vector<S, 9>", 0, (ref a: S, ref b: Vector<S, 9>) => a * &b);
    op!(v, "S * Matrix<S, 1, 1>", 0, (ref a: S, ref b: Matrix<S, 1, 1>) => a * b);
    op!(v, "S * &Matrix<S, 1, 1>", 0, (ref a: S, ref b: Matrix<S, 1, 1>) => a * &b);
    op!(v, "S * Matrix<S, 2, 2>", 0, (ref a: S, ref b: Matrix<S, 2, 2>) => a * b);
    op!(v, "S * &Matrix<S, 2, 2>", 0, (ref a: S, ref b: Matrix<S, 2, 2>) => a * &b);
    op!(v, "S * Matrix<S, 3, 3>", 0, (ref a: S, ref b: Matrix<S, 3, 3>) => a * b);
    op!(v, "S * &Matrix<S, 3, 3>", 0, (ref a: S, ref b: Matrix<S, 3, 3>) => a * &b);
    op!(v, "S * Matrix<S, 4, 4>", 0, (ref a: S, ref b: Matrix<S, 4, 4>) => a * b);
    op!(v, "S * &Matrix<S, 4, 4>", 0, (ref a: S, ref b: Matrix<S, 4, 4>) => a * &b);
    op!(v, "S * Matrix<S, 1, 2>", 0, (ref a: S, ref b: Matrix<S, 1, 2>) => a * b);
    op!(v, "S * &Matrix<S, 1, 2>", 0, (ref a: S, ref b: Matrix<S, 1, 2>) => a * &b);
    op!(v, "S * Matrix<S, 1, 3>", 0, (ref a: S, ref b: Matrix<S, 1, 3>) => a * b);
    op!(v, "S * &Matrix<S, 1, 3>", 0, (ref a: S, ref b: Matrix<S, 1, 3>) => a * &b);
    op!(v, "S * Matrix<S, 1, 4>", 0, (ref a: S, ref b: Matrix<S, 1, 4>) => a * b);
    op!(v, "S * &Matrix<S, 1, 4>", 0, (ref a: S, ref b: Matrix<S, 1, 4>) => a * &b);
    op!(v, "S * Matrix<S, 2, 3>", 0, (ref a: S, ref b: Matrix<S, 2, 3>) => a * b);
    op!(v, "S * &Matrix<S, 2, 3>", 0, (ref a: S, ref b: Matrix<S, 2, 3>) => a * &b);
    op!(v, "S * Matrix<S, 3, 2>", 0, (ref a: S, ref b: Matrix<S, 3, 2>) => a * b);
    op!(v, "S * &Matrix<S, 3, 2>", 0, (ref a: S, ref b: Matrix<S, 3, 2>) => a * &b);
    op!(v, "S * Matrix<S, 2, 4>", 0, (ref a: S, ref b: Matrix<S, 2, 4>) => a * b);
    op!(v, "S * &Matrix<S, 2, 4>", 0, (ref a: S, ref b: Matrix<S, 2, 4>) => a * &b);
    op!(v, "S * Matrix<S, 4, 2>", 0, (ref a: S, ref b: Matrix<S, 4, 2>) => a * b);
    op!(v, "S * &Matrix<S, 4, 2>", 0, (ref a: S, ref b: Matrix<S, 4, 2>) => a * &b);
    op!(v, "S * Matrix<S, 3, 4>", 0, (ref a: S, ref b: Matrix<S, 3, 4>) => a * b);
    op!(v, "S * &Matrix<S, 3, 4>", 0, (ref a: S, ref b: Matrix<S, 3, 4>) => a * &b);
    op!(v, "S * Matrix<S, 4, 3>", 0, (ref a: S, ref b: Matrix<S, 4, 3>) => a * b);
    op!(v, "S * &Matrix<S, 4, 3>", 0, (ref a: S, ref b: Matrix<S, 4, 3>) => a * &b);
    op!(v, "S * Matrix<S, 4, 1>", 0, (ref a: S, ref b: Matrix<S, 4, 1>) => a * b);
    op!(v, "S * &Matrix<S, 4, 1>", 0, (ref a: S, ref b: Matrix<S, 4, 1>) => a * &b);
    op!(v, "S * Matrix<S, 5, 5>", 0, (ref a: S, ref b: Matrix<S, 5, 5>) => a * b);
    op!(v, "S * &Matrix<S, 5, 5>", 0, (ref a: S, ref b: Matrix<S, 5, 5>) => a * &b);
    op!(v, "S * Matrix<S, 6, 2>", 0, (ref a: S, ref b: Matrix<S, 6, 2>) => a * b);
    op!(v, "S * &Matrix<S, 6, 2>", 0, (ref a: S, ref b: Matrix<S, 6, 2>) => a * &b);
    op!(v, "S * Quaternion<S>", 0, (ref a: S, ref b: Quaternion<S>) => a * b);
    op!(v, "S * &Quaternion<S>", 0, (ref a: S, ref b: Quaternion<S>) => a * &b);
    op!(v, "S * Point<S, 1>", 0, (ref a: S, ref b: Point<S, 1>) => a * b);
    op!(v, "S * Point<S, 2>", 0, (ref a: S, ref b: Point<S, 2>) => a * b);
    op!(v, "S * Point<S, 3>", 0, (ref a: S, ref b: Point<S, 3>) => a * b);
    op!(v, "S * Point<S, 6>", 0, (ref a: S, ref b: Point<S, 6>) => a * b);
    op!(v, "S + Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a + b);
    op!(v, "S + &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a + &b);
    op!(v, "S - Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a - b);
    op!(v, "S - &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a - &b);
    op!(v, "S * Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a * b);
    op!(v, "S * &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a * &b);
    op!(v, "S / Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a / b);
    op!(v, "S / &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a / &b);
}
}
pub mod pr_i32 {
use super::*;
type S = i32;
pub fn reg(v: &mut Vec<Op>) {
    op!(v, "S * Vector<S, 1>", 0, (ref a: S, ref b: Vector<S, 1>) => a * b);
    op!(v, "S * &Vector<S, 1>", 0, (ref a: S, ref b: Vector<S, 1>) => a * &b);
    op!(v, "S * Vector<S, 2>", 0, (ref a: S, ref b: Vector<S, 2>) => a * b);
    op!(v, "S * &Vector<S, 2>", 0, (ref a: S, ref b: Vector<S, 2>) => a * &b);
    op!(v, "S * Vector<S, 3>", 0, (ref a: S, ref b: Vector<S, 3>) => a * b);
    op!(v, "S * &Vector<S, 3>", 0, (ref a: S, ref b: Vector<S, 3>) => a * &b);
    op!(v, "S * Vector<S, 4>", 0, (ref a: S, ref b: Vector<S, 4>) => a * b);
    op!(v, "S * &Vector<S, 4>", 0, (ref a: S, ref b: Vector<S, 4>) => a * &b);
    op!(v, "S * Vector<S, 5>", 0, (ref a: S, ref b: Vector<S, 5>) => a * b);
    op!(v, "S * &Vector<S, 5>", 0, (ref a: S, ref b: Vector<S, 5>) => a * &b);
    op!(v, "S * Vector<S, 9>", 0, (ref a: S, ref b: Vector<S, 9>) => a * b);
    op!(v, "S * &Vector<S, 9>", 0, (ref a: S, ref b: Vector<S, 9>) => a * &b);
    op!(v, "S * Matrix<S, 1, 1>", 0, (ref a: S, ref b: Matrix<S, 1, 1>) => a * b);
    op!(v, "S * &Matrix<S, 1, 1>", 0, (ref a: S, ref b: Matrix<S, 1, 1>) => a * &b);
    op!(v, "S * Matrix<S, 2, 2>", 0, (ref a: S, ref b: Matrix<S, 2, 2>) => a * b);
    op!(v, "S * &Matrix<S, 2, 2>", 0, (ref a: S, ref b: Matrix<S, 2, 2>) => a * &b);
    op!(v, "S * Matrix<S, 3, 3>", 0, (ref a: S, ref b: Matrix<S, 3, 3>) => a * b);
    op!(v, "S * &Matrix<S, 3, 3>", 0, (ref a: S, ref b: Matrix<S, 3, 3>) => a * &b);
    op!(v, "S * Matrix<S, 4, 4>", 0, (ref a: S, ref b: Matrix<S, 4, 4>) => a * b);
    op!(v, "S * &Matrix<S, 4, 4>", 0, (ref a: S, ref b: Matrix<S, 4, 4>) => a * &b);
    op!(v, "S * Matrix<S, 1, 2>", 0, (ref a: S, ref b: Matrix<S, 1, 2>) => a * b);
    op!(v, "S * &Matrix<S, 1, 2>", 0, (ref a: S, ref b: Matrix<S, 1, 2>) => a * &b);
    op!(v, "S * Matrix<S, 1, 3>", 0, (ref a: S, ref b: Matrix<S, 1, 3>) => a * b);
    op!(v, "S * &Matrix<S, 1, 3>", 0, (ref a: S, ref b: Matrix<S, 1, 3>) => a * &b);
    op!(v, "S * Matrix<S, 1, 4>", 0, (ref a: S, ref b: Matrix<S, 1, 4>) => a * b);
    op!(v, "S * &Matrix<S, 1, 4>", 0, (ref a: S, ref b: Matrix<S, 1, 4>) => a * &b);
    op!(v, "S * Matrix<S, 2, 3>", 0, (ref a: S, ref b: Matrix<S, 2, 3>) => a * b);
    op!(v, "S * &Matrix<S, 2, 3>", 0, (ref a: S, ref b: Matrix<S, 2, 3>) => a * &b);
    op!(v, "S * Matrix<S, 3, 2>", 0, (ref a: S, ref b: Matrix<S, 3, 2>) => a * b);
    op!(v, "S * &Matrix<S, 3, 2>", 0, (ref a: S, ref b: Matrix<S, 3, 2>) => a * &b);
    op!(v, "S * Matrix<S, 2, 4>", 0, (ref a: S, ref b: Matrix<S, 2, 4>) => a * b);
    op!(v, "S * &Matrix<S, 2, 4>", 0, (ref a: S, ref b: Matrix<S, 2, 4>) => a * &b);
    op!(v, "S * Matrix<S, 4, 2>", 0, (ref a: S, ref b: Matrix<S, 4, 2>) => a * b);
    op!(v, "S * &Matrix<S, 4, 2>", 0, (ref a: S, ref b: Matrix<S, 4, 2>) => a * &b);
    op!(v, "S * Matrix<S, 3, 4>", 0, (ref a: S, ref b: Matrix<S, 3, 4>) => a * b);
    op!(v, "S * &Matrix<S, 3, 4>", 0, (ref a: S, ref b: Matrix<S, 3, 4>) => a * &b);
    op!(v, "S * Matrix<S, 4, 3>", 0, (ref a: S, ref b: Matrix<S, 4, 3>) => a * b);
    op!(v, "S * &Matrix<S, 4, 3>", 0, (ref a: S, ref b: Matrix<S, 4, 3>) => a * &b);
    op!(v, "S * Matrix<S, 4, 1>", 0, (ref a: S, ref b: Matrix<S, 4, 1>) => a * b);
    op!(v, "S * &Matrix<S, 4, 1>", 0, (ref a: S, ref b: Matrix<S, 4, 1>) => a * &b);
    op!(v, "S * Matrix<S, 5, 5>", 0, (ref a: S, ref b: Matrix<S, 5, 5>) => a * b);
    op!(v, "S * &Matrix<S, 5, 5>", 0, (ref a: S, ref b: Matrix<S, 5, 5>) => a * &b);
    op!(v, "S * Matrix<S, 6, 2>", 0, (ref a: S, ref b: Matrix<S, 6, 2>) => a * b);
    op!(v, "S * &Matrix<S, 6, 2>", 0, (ref a: S, ref b: Matrix<S, 6, 2>) => a * &b);
    op!(v, "S * Quaternion<S>", 0, (ref a: S, ref b: Quaternion<S>) => a * b);
    op!(v, "S * &Quaternion<S>", 0, (ref a: S, ref b: Quaternion<S>) => a * &b);
    op!(v, "S * Point<S, 1>", 0, (ref a: S, ref b: Point<S, 1>) => a * b);
    op!(v, "S * Point<S, 2>", 0, (ref a: S, ref b: Point<S, 2>) => a * b);
    op!(v, "S * Point<S, 3>", 0, (ref a: S, ref b: Point<S, 3>) => a * b);
    op!(v, "S * Point<S, 6>", 0, (ref a: S, ref b: Point<S, 6>) => a * b);
    op!(v, "S + Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a + b);
    op!(v, "S + &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a + &b);
    op!(v, "S - Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a - b);
    op!(v, "S - &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a - &b);
    op!(v, "S * Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a * b);
    op!(v, "S * &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a * &b);
    op!(v, "S / Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a / b);
    op!(v, "S / &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a / &b);
}
}
pub mod pr_u32 {
use super::*;
type S = u32;
pub fn reg(v: &mut Vec<Op>) {
    op!(v, "S * Vector<S, 1>", 0, (ref a: S, ref b: Vector<S, 1>) => a * b);
    op!(v, "S * &Vector<S, 1>", 0, (ref a: S, ref b: Vector<S, 1>) => a * &b);
    op!(v, "S * Vector<S, 2>", 0, (ref a: S, ref b: Vector<S, 2>) => a * b);
    op!(v, "S * &Vector<S, 2>", 0, (ref a: S, ref b: Vector<S, 2>) => a * &b);
    op!(v, "S * Vector<S, 3>", 0, (ref a: S, ref b: Vector<S, 3>) => a * b);
    op!(v, "S * &Vector<S, 3>", 0, (ref a: S, ref b: Vector<S, 3>) => a * &b);
    op!(v, "S * Vector<S, 4>", 0, (ref a: S, ref b: Vector<S, 4>) => a * b);
    op!(v, "S * &Vector<S, 4>", 0, (ref a: S, ref b: Vector<S, 4>) => a * &b);
    op!(v, "S * Vector<S, 5>", 0, (ref a: S, ref b: Vector<S, 5>) => a * b);
    op!(v, "S * &Vector<S, 5>", 0, (ref a: S, ref b: Vector<S, 5>) => a * &b);
    op!(v, "S * Vector<S, 9>", 0, (ref a: S, ref b: Vector<S, 9>) => a * b);
    op!(v, "S * &Vector<S, 9>", 0, (ref a: S, ref b: Vector<S, 9>) => a * &b);
    op!(v, "S * Matrix<S, 1, 1>", 0, (ref a: S, ref b: Matrix<S, 1, 1>) => a * b);
    op!(v, "S * &Matrix<S, 1, 1>", 0, (ref a: S, ref b: Matrix<S, 1, 1>) => a * &b);
    op!(v, "S * Matrix<S, 2, 2>", 0, (ref a: S, ref b: Matrix<S, 2, 2>) => a * b);
    op!(v, "S * &Matrix<S, 2, 2>", 0, (ref a: S, ref b: Matrix<S, 2, 2>) => a * &b);
    op!(v, "S * Matrix<S, 3, 3>", 0, (ref a: S, ref b: Matrix<S, 3, 3>) => a * b);
    op!(v, "S * &Matrix<S, 3, 3>", 0, (ref a: S, ref b: Matrix<S, 3, 3>) => a * &b);
    op!(v, "S * Matrix<S, 4, 4>", 0, (ref a: S, ref b: Matrix<S, 4, 4>) => a * b);
    op!(v, "S * &Matrix<S, 4, 4>", 0, (ref a: S, ref b: Matrix<S, 4, 4>) => a * &b);
    op!(v, "S * Matrix<S, 1, 2>", 0, (ref a: S, ref b: Matrix<S, 1, 2>) => a * b);
    op!(v, "S * &Matrix<S, 1, 2>", 0, (ref a: S, ref b: Matrix<S, 1, 2>) => a * &b);
    op!(v, "S * Matrix<S, 1, 3>", 0, (ref a: S, ref b: Matrix<S, 1, 3>) => a * b);
    op!(v, "S * &Matrix<S, 1, 3>", 0, (ref a: S, ref b: Matrix<S, 1, 3>) => a * &b);
    op!(v, "S * Matrix<S, 1, 4>", 0, (ref a: S, ref b: Matrix<S, 1, 4>) => a * b);
    op!(v, "S * &Matrix<S, 1, 4>", 0, (ref a: S, ref b: Matrix<S, 1, 4>) => a * &b);
    op!(v, "S * Matrix<S, 2, 3>", 0, (ref a: S, ref b: Matrix<S, 2, 3>) => a * b);
    op!(v, "S * &Matrix<S, 2, 3>", 0, (ref a: S, ref b: Matrix<S, 2, 3>) => a * &b);
    op!(v, "S * Matrix<S, 3, 2>", 0, (ref a: S, ref b: Matrix<S, 3, 2>) => a * b);
    op!(v, "S * &Matrix<S, 3, 2>", 0, (ref a: S, ref b: Matrix<S, 3, 2>) => a * &b);
    op!(v, "S * Matrix<S, 2, 4>", 0, (ref a: S, ref b: Matrix<S, 2, 4>) => a * b);
    op!(v, "S * &Matrix<S, 2, 4>", 0, (ref a: S, ref b: Matrix<S, 2, 4>) => a * &b);
    op!(v, "S * Matrix<S, 4, 2>", 0, (ref a: S, ref b: Matrix<S, 4, 2>) => a * b);
    op!(v, "S * &Matrix<S, 4, 2>", 0, (ref a: S, ref b: Matrix<S, 4, 2>) => a * &b);
    op!(v, "S * Matrix<S, 3, 4>", 0, (ref a: S, ref b: Matrix<S, 3, 4>) => a * b);
    op!(v, "S * &Matrix<S, 3, 4>", 0, (ref a: S, ref b: Matrix<S, 3, 4>) => a * &b);
    op!(v, "S * Matrix<S, 4, 3>", 0, (ref a: S, ref b: Matrix<S, 4, 3>) => a * b);
    op!(v, "S * &Matrix<S, 4, 3>", 0, (ref a: S, ref b: Matrix<S, 4, 3>) => a * &b);
    op!(v, "S * Matrix<S, 4, 1>", 0, (ref a: S, ref b: Matrix<S, 4, 1>) => a * b);
    op!(v, "S * &Matrix<S, 4, 1>", 0, (ref a: S, ref b: Matrix<S, 4, 1>) => a * &b);
    op!(v, "S * Matrix<S, 5, 5>", 0, (ref a: S, ref b: Matrix<S, 5, 5>) => a * b);
    op!(v, "S * &Matrix<S, 5, 5>", 0, (ref a: S, ref b: Matrix<S, 5, 5>) => a * &b);
    op!(v, "S * Matrix<S, 6, 2>", 0, (ref a: S, ref b: Matrix<S, 6, 2>) => a * b);
    op!(v, "S * &Matrix<S, 6, 2>", 0, (ref a: S, ref b: Matrix<S, 6, 2>) => a * &b);
    op!(v, "S * Quaternion<S>", 0, (ref a: S, ref b: Quaternion<S>) => a * b);
    op!(v, "S * &Quaternion<S>", 0, (ref a: S, ref b: Quaternion<S>) => a * &b);
    op!(v, "S * Point<S, 1>", 0, (ref a: S, ref b: Point<S, 1>) => a * b);
    op!(v, "S * Point<S, 2>", 0, (ref a: S, ref b: Point<S, 2>) => a * b);
    op!(v, "S * Point<S, 3>", 0, (ref a: S, ref b: Point<S, 3>) => a * b);
    op!(v, "S * Point<S, 6>", 0, (ref a: S, ref b: Point<S, 6>) => a * b);
    op!(v, "S + Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a + b);
    op!(v, "S + &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a + &b);
    op!(v, "S - Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a - b);
    op!(v, "S - &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a - &b);
    op!(v, "S * Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a * b);
    op!(v, "S * &Complex<S>", 0, (ref a: S, ref b: Complex<S>) => a * &b);
}
}
