//! `SimF64`: an `f64` whose every operation is an event of the simulator.  The arithmetic itself is
//! the library's own implementation for `f64` (crate cglinalg_numeric), so that code runs for real.
use crate::hook::{ev, ev0};
use approx_cmp::*;
use cglinalg_numeric::*;
use core::cmp::Ordering;
use core::fmt;
use core::ops::*;

#[repr(transparent)]
#[derive(Copy, Clone)]
pub struct SimF64(pub f64);

impl fmt::Debug for SimF64 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        crate::sink::component_fmt()?;
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for SimF64 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        crate::sink::component_fmt()?;
        fmt::Display::fmt(&self.0, f)
    }
}
impl PartialEq for SimF64 {
    fn eq(&self, o: &SimF64) -> bool {
        ev0();
        self.0 == o.0
    }
}
impl PartialOrd for SimF64 {
    fn partial_cmp(&self, o: &SimF64) -> Option<Ordering> {
        ev0();
        self.0.partial_cmp(&o.0)
    }
}
macro_rules! bin {
    ($($Tr:ident $f:ident $Tra:ident $fa:ident),*) => {$(
        impl $Tr for SimF64 { type Output = SimF64; fn $f(self, o: SimF64) -> SimF64 { SimF64(ev($Tr::$f(self.0, o.0))) } }
        impl $Tra for SimF64 { fn $fa(&mut self, o: SimF64) { let r = ev($Tr::$f(self.0, o.0)); self.0 = r; } }
    )*};
}
bin!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign, Rem rem RemAssign rem_assign);
impl Neg for SimF64 {
    type Output = SimF64;
    fn neg(self) -> SimF64 {
        SimF64(ev(-self.0))
    }
}
impl num_traits::Zero for SimF64 {
    fn zero() -> Self {
        ev0();
        SimF64(0.0)
    }
    fn is_zero(&self) -> bool {
        ev0();
        self.0 == 0.0
    }
}
impl num_traits::One for SimF64 {
    fn one() -> Self {
        ev0();
        SimF64(1.0)
    }
}
impl num_traits::Num for SimF64 {
    type FromStrRadixErr = <f64 as num_traits::Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        <f64 as num_traits::Num>::from_str_radix(s, r).map(SimF64)
    }
}
impl num_traits::ToPrimitive for SimF64 {
    fn to_i64(&self) -> Option<i64> {
        ev0();
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        ev0();
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        ev0();
        Some(self.0)
    }
    fn to_f32(&self) -> Option<f32> {
        ev0();
        self.0.to_f32()
    }
    fn to_i32(&self) -> Option<i32> {
        ev0();
        self.0.to_i32()
    }
    fn to_u32(&self) -> Option<u32> {
        ev0();
        self.0.to_u32()
    }
}
impl num_traits::NumCast for SimF64 {
    fn from<T: num_traits::ToPrimitive>(n: T) -> Option<Self> {
        ev0();
        n.to_f64().map(SimF64)
    }
}
impl num_traits::Signed for SimF64 {
    fn abs(&self) -> Self {
        SimF64(ev(num_traits::Signed::abs(&self.0)))
    }
    fn abs_sub(&self, o: &Self) -> Self {
        SimF64(ev(num_traits::Signed::abs_sub(&self.0, &o.0)))
    }
    fn signum(&self) -> Self {
        SimF64(ev(num_traits::Signed::signum(&self.0)))
    }
    fn is_positive(&self) -> bool {
        ev0();
        num_traits::Signed::is_positive(&self.0)
    }
    fn is_negative(&self) -> bool {
        ev0();
        num_traits::Signed::is_negative(&self.0)
    }
}
impl SimdScalarSigned for SimF64 {
    fn is_sign_positive(self) -> bool {
        ev0();
        SimdScalarSigned::is_sign_positive(self.0)
    }
    fn is_sign_negative(self) -> bool {
        ev0();
        SimdScalarSigned::is_sign_negative(self.0)
    }
    fn copysign(self, s: Self) -> Self {
        SimF64(ev(SimdScalarSigned::copysign(self.0, s.0)))
    }
    fn signum(self) -> Self {
        SimF64(ev(SimdScalarSigned::signum(self.0)))
    }
    fn abs(self) -> Self {
        SimF64(ev(SimdScalarSigned::abs(self.0)))
    }
}
impl SimdScalarOrd for SimF64 {
    fn max(self, o: Self) -> Self {
        SimF64(ev(SimdScalarOrd::max(self.0, o.0)))
    }
    fn min(self, o: Self) -> Self {
        SimF64(ev(SimdScalarOrd::min(self.0, o.0)))
    }
    fn clamp(self, a: Self, b: Self) -> Self {
        SimF64(ev(SimdScalarOrd::clamp(self.0, a.0, b.0)))
    }
}
impl SimdScalarBounded for SimF64 {
    fn min_value() -> Self {
        SimF64(<f64 as SimdScalarBounded>::min_value())
    }
    fn max_value() -> Self {
        SimF64(<f64 as SimdScalarBounded>::max_value())
    }
}
impl SimdScalarCmp for SimF64 {
    type IntegerRepr = u64;
    fn default_epsilon() -> Self {
        SimF64(<f64 as SimdScalarCmp>::default_epsilon())
    }
    fn default_max_ulps() -> u64 {
        <f64 as SimdScalarCmp>::default_max_ulps()
    }
}
macro_rules! un {
    ($($f:ident)*) => { $( fn $f(self) -> Self { SimF64(ev(<f64 as SimdScalarFloat>::$f(self.0))) } )* };
}
macro_rules! bi {
    ($($f:ident)*) => { $( fn $f(self, o: Self) -> Self { SimF64(ev(<f64 as SimdScalarFloat>::$f(self.0, o.0))) } )* };
}
macro_rules! tst {
    ($($f:ident)*) => { $( fn $f(self) -> bool { ev0(); <f64 as SimdScalarFloat>::$f(self.0) } )* };
}
macro_rules! cst {
    ($($f:ident)*) => { $( fn $f() -> Self { ev0(); SimF64(<f64 as SimdScalarFloat>::$f()) } )* };
}
impl SimdScalarFloat for SimF64 {
    un!(floor ceil round trunc fract recip sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh log2 log10 ln ln_1p sqrt cbrt exp exp2 exp_m1);
    bi!(hypot atan2 log powf);
    tst!(is_finite is_infinite is_nan is_normal is_subnormal);
    cst!(min_positive_value pi two_pi frac_pi_2 frac_pi_3 frac_pi_4 frac_pi_6 frac_pi_8 frac_1_pi frac_2_pi frac_2_sqrt_pi e log2_e log10_e ln_2 ln_10 sqrt_2 frac_1_sqrt_2 nan infinity neg_infinity neg_zero machine_epsilon);
    fn mul_add(self, a: Self, b: Self) -> Self {
        SimF64(ev(<f64 as SimdScalarFloat>::mul_add(self.0, a.0, b.0)))
    }
    fn powi(self, n: i32) -> Self {
        SimF64(ev(<f64 as SimdScalarFloat>::powi(self.0, n)))
    }
    fn sin_cos(self) -> (Self, Self) {
        let (s, c) = <f64 as SimdScalarFloat>::sin_cos(self.0);
        (SimF64(ev(s)), SimF64(ev(c)))
    }
    fn sinh_cosh(self) -> (Self, Self) {
        let (s, c) = <f64 as SimdScalarFloat>::sinh_cosh(self.0);
        (SimF64(ev(s)), SimF64(ev(c)))
    }
}
impl AbsDiffEq for SimF64 {
    type Tolerance = SimF64;
    fn abs_diff_eq(&self, o: &Self, t: &SimF64) -> bool {
        ev0();
        AbsDiffEq::abs_diff_eq(&self.0, &o.0, &t.0)
    }
}
impl AbsDiffAllEq for SimF64 {
    type AllTolerance = SimF64;
    fn abs_diff_all_eq(&self, o: &Self, t: &SimF64) -> bool {
        ev0();
        AbsDiffAllEq::abs_diff_all_eq(&self.0, &o.0, &t.0)
    }
}
impl AssertAbsDiffEq for SimF64 {
    type DebugAbsDiff = SimF64;
    type DebugTolerance = SimF64;
    fn debug_abs_diff(&self, o: &Self) -> SimF64 {
        SimF64(ev(AssertAbsDiffEq::debug_abs_diff(&self.0, &o.0)))
    }
    fn debug_abs_diff_tolerance(&self, o: &Self, t: &SimF64) -> SimF64 {
        SimF64(ev(AssertAbsDiffEq::debug_abs_diff_tolerance(&self.0, &o.0, &t.0)))
    }
}
impl AssertAbsDiffAllEq for SimF64 {
    type AllDebugTolerance = SimF64;
    fn debug_abs_diff_all_tolerance(&self, o: &Self, t: &SimF64) -> SimF64 {
        SimF64(ev(AssertAbsDiffAllEq::debug_abs_diff_all_tolerance(&self.0, &o.0, &t.0)))
    }
}
impl RelativeEq for SimF64 {
    type Tolerance = SimF64;
    fn relative_eq(&self, o: &Self, t: &SimF64, r: &SimF64) -> bool {
        ev0();
        RelativeEq::relative_eq(&self.0, &o.0, &t.0, &r.0)
    }
}
impl RelativeAllEq for SimF64 {
    type AllTolerance = SimF64;
    fn relative_all_eq(&self, o: &Self, t: &SimF64, r: &SimF64) -> bool {
        ev0();
        RelativeAllEq::relative_all_eq(&self.0, &o.0, &t.0, &r.0)
    }
}
impl AssertRelativeEq for SimF64 {
    type DebugAbsDiff = SimF64;
    type DebugTolerance = SimF64;
    fn debug_abs_diff(&self, o: &Self) -> SimF64 {
        SimF64(ev(AssertRelativeEq::debug_abs_diff(&self.0, &o.0)))
    }
    fn debug_abs_diff_tolerance(&self, o: &Self, t: &SimF64) -> SimF64 {
        SimF64(ev(AssertRelativeEq::debug_abs_diff_tolerance(&self.0, &o.0, &t.0)))
    }
    fn debug_relative_tolerance(&self, o: &Self, t: &SimF64) -> SimF64 {
        SimF64(ev(AssertRelativeEq::debug_relative_tolerance(&self.0, &o.0, &t.0)))
    }
}
impl AssertRelativeAllEq for SimF64 {
    type AllDebugTolerance = SimF64;
    fn debug_abs_diff_all_tolerance(&self, o: &Self, t: &SimF64) -> SimF64 {
        SimF64(ev(AssertRelativeAllEq::debug_abs_diff_all_tolerance(&self.0, &o.0, &t.0)))
    }
    fn debug_relative_all_tolerance(&self, o: &Self, t: &SimF64) -> SimF64 {
        SimF64(ev(AssertRelativeAllEq::debug_relative_all_tolerance(&self.0, &o.0, &t.0)))
    }
}
impl UlpsEq for SimF64 {
    type Tolerance = SimF64;
    type UlpsTolerance = u64;
    fn ulps_eq(&self, o: &Self, t: &SimF64, u: &u64) -> bool {
        ev0();
        UlpsEq::ulps_eq(&self.0, &o.0, &t.0, u)
    }
}
impl UlpsAllEq for SimF64 {
    type AllTolerance = SimF64;
    type AllUlpsTolerance = u64;
    fn ulps_all_eq(&self, o: &Self, t: &SimF64, u: &u64) -> bool {
        ev0();
        UlpsAllEq::ulps_all_eq(&self.0, &o.0, &t.0, u)
    }
}
impl AssertUlpsEq for SimF64 {
    type DebugAbsDiff = SimF64;
    type DebugUlpsDiff = Option<u64>;
    type DebugTolerance = SimF64;
    type DebugUlpsTolerance = u64;
    fn debug_abs_diff(&self, o: &Self) -> SimF64 {
        SimF64(ev(AssertUlpsEq::debug_abs_diff(&self.0, &o.0)))
    }
    fn debug_ulps_diff(&self, o: &Self) -> Option<u64> {
        ev0();
        AssertUlpsEq::debug_ulps_diff(&self.0, &o.0)
    }
    fn debug_abs_diff_tolerance(&self, o: &Self, t: &SimF64) -> SimF64 {
        SimF64(ev(AssertUlpsEq::debug_abs_diff_tolerance(&self.0, &o.0, &t.0)))
    }
    fn debug_ulps_tolerance(&self, o: &Self, u: &u64) -> u64 {
        ev0();
        AssertUlpsEq::debug_ulps_tolerance(&self.0, &o.0, u)
    }
}
impl AssertUlpsAllEq for SimF64 {
    type AllDebugTolerance = SimF64;
    type AllDebugUlpsTolerance = u64;
    fn debug_abs_diff_all_tolerance(&self, o: &Self, t: &SimF64) -> SimF64 {
        SimF64(ev(AssertUlpsAllEq::debug_abs_diff_all_tolerance(&self.0, &o.0, &t.0)))
    }
    fn debug_ulps_all_tolerance(&self, o: &Self, u: &u64) -> u64 {
        ev0();
        AssertUlpsAllEq::debug_ulps_all_tolerance(&self.0, &o.0, u)
    }
}
