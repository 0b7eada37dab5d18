//! Scalar kinds, operand generation from argument words, and result digests.
use crate::ctx::Ctx;
use crate::rng::mix;
pub use crate::simf::SimF64;
use cglinalg_core::*;
use cglinalg_numeric::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SK {
    Sim,
    F64,
    F32,
    I32,
    U32,
    I64,
    U8,
}
impl SK {
    pub fn name(self) -> &'static str {
        match self {
            SK::Sim => "sim",
            SK::F64 => "f64",
            SK::F32 => "f32",
            SK::I32 => "i32",
            SK::U32 => "u32",
            SK::I64 => "i64",
            SK::U8 => "u8",
        }
    }
    pub fn is_float(self) -> bool {
        matches!(self, SK::Sim | SK::F64 | SK::F32)
    }
}
pub trait Sc: SimdScalar + Send + Sync + Gen + Dig + 'static {
    const KIND: SK;
    fn of(w: f64) -> Self;
    fn word(&self) -> u64;
}
pub trait Sg: Sc + SimdScalarSigned + SimdScalarOrd {}
pub trait Fl: Sg + SimdScalarFloat {}
impl<T: Sc + SimdScalarSigned + SimdScalarOrd> Sg for T {}
impl<T: Sg + SimdScalarFloat> Fl for T {}

fn canon(f: f64) -> u64 {
    if f.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        f.to_bits()
    }
}
impl Sc for SimF64 {
    const KIND: SK = SK::Sim;
    fn of(w: f64) -> Self {
        SimF64(w)
    }
    fn word(&self) -> u64 {
        canon(self.0)
    }
}
impl Sc for f64 {
    const KIND: SK = SK::F64;
    fn of(w: f64) -> Self {
        w
    }
    fn word(&self) -> u64 {
        canon(*self)
    }
}
impl Sc for f32 {
    const KIND: SK = SK::F32;
    fn of(w: f64) -> Self {
        w as f32
    }
    fn word(&self) -> u64 {
        canon(*self as f64)
    }
}
macro_rules! int_sc {
    ($($t:ident $k:ident),*) => {$(
        impl Sc for $t {
            const KIND: SK = SK::$k;
            fn of(w: f64) -> Self {
                if w >= 1e100 { return <$t>::MAX; }
                if w <= -1e100 { return <$t>::MIN; }
                (w.clamp(-1e9, 1e9) as i64) as $t
            }
            fn word(&self) -> u64 { *self as u64 }
        }
    )*};
}
int_sc!(i32 I32, u32 U32, i64 I64, u8 U8);

/// Operands are built from the argument words of the plan only.
pub trait Gen: Sized {
    fn gen(c: &mut Ctx) -> Self;
}
/// Small structured choices derived from one argument word; the word 1.0 always gives 0.
pub fn sel(w: f64, n: u64) -> u64 {
    if w == 1.0 {
        0
    } else {
        mix(w.to_bits()) % n
    }
}
fn clean(a: f64) -> f64 {
    if a.is_finite() && a.abs() < 1e100 {
        a
    } else {
        1.0
    }
}
/// the largest vector in the catalogue
pub const VW: usize = 9;
pub fn vec_words(c: &mut Ctx, n: usize) -> [f64; VW] {
    let s = c.selw();
    let mut v = [0.0; VW];
    for x in v.iter_mut().take(n) {
        *x = c.word();
    }
    match sel(s, 10) {
        6 if n > 0 => {
            let k = sel(v[0], n as u64) as usize;
            let m = v[0];
            v = [0.0; VW];
            v[k] = m;
        }
        7 => v = c.last,
        8 => {
            let m = v[0];
            for i in 0..n {
                v[i] = -c.last[i] * m;
            }
        }
        9 => v = [0.0; VW],
        _ => {}
    }
    c.last = v;
    v
}
pub fn unit_words(c: &mut Ctx, n: usize) -> [f64; VW] {
    let v = vec_words(c, n);
    let s = c.selw();
    if sel(s, 9) == 8 {
        return v; // deliberately not of unit length
    }
    let mut u = [0.0; VW];
    let mut q = 0.0;
    for i in 0..n {
        u[i] = clean(v[i]);
        q += u[i] * u[i];
    }
    let m = q.sqrt();
    if m < 1e-100 {
        u = [0.0; VW];
        u[sel(s, n as u64) as usize] = 1.0;
        return u;
    }
    for x in u.iter_mut() {
        *x /= m;
    }
    u
}
pub fn angle_word(c: &mut Ctx) -> f64 {
    let w = c.word();
    match sel(w, 3) {
        1 => ((sel(w, 49) as f64) - 24.0) * core::f64::consts::PI / 12.0,
        _ => w,
    }
}
macro_rules! gen_dig_s {
    ($($t:ident),*) => {$(
        impl Gen for $t { fn gen(c: &mut Ctx) -> Self { <$t as Sc>::of(c.word()) } }
        impl Dig for $t { fn dig(&self, out: &mut Vec<u64>) { out.push(Sc::word(self)) } }
    )*};
}
gen_dig_s!(SimF64, f64, f32, i32, u32, i64, u8);
pub struct Small(pub i64);
impl Gen for Small {
    fn gen(c: &mut Ctx) -> Small {
        let w = c.word();
        Small(match sel(w, 12) {
            8 => i32::MIN as i64,
            9 => i32::MAX as i64,
            10 => -1,
            11 => 0,
            7 => (clean(w).abs() * 7.0 % 1000.0) as i64,
            _ => {
                let k = clean(w);
                (k.abs() % 41.0) as i64 * if k < 0.0 { -1 } else { 1 }
            }
        })
    }
}
macro_rules! gen_arr {
    ($($n:literal),*) => {$( impl<S: Sc> Gen for [S; $n] { fn gen(c: &mut Ctx) -> Self { core::array::from_fn(|_| S::of(c.word())) } } )*};
}
gen_arr!(1, 2, 3, 4, 5, 6, 8, 9, 12, 16);
macro_rules! gen_arr2 {
    ($($r:literal $n:literal),*) => {$(
        impl<S: Sc> Gen for [[S; $r]; $n] { fn gen(c: &mut Ctx) -> Self { core::array::from_fn(|_| core::array::from_fn(|_| S::of(c.word()))) } }
        impl<S: Sc> Gen for [Vector<S, $r>; $n] { fn gen(c: &mut Ctx) -> Self { core::array::from_fn(|_| Gen::gen(c)) } }
    )*};
}
gen_arr2!(1 1, 2 2, 3 3, 4 4, 1 2, 1 3, 1 4, 2 3, 3 2, 2 4, 4 2, 3 4, 4 3, 2 1, 3 1, 4 1, 5 5, 6 2, 2 6);
impl<S: Sc> Gen for (S,) {
    fn gen(c: &mut Ctx) -> Self {
        (Gen::gen(c),)
    }
}
impl<S: Sc> Gen for (S, S) {
    fn gen(c: &mut Ctx) -> Self {
        (Gen::gen(c), Gen::gen(c))
    }
}
impl<S: Sc> Gen for (S, S, S) {
    fn gen(c: &mut Ctx) -> Self {
        (Gen::gen(c), Gen::gen(c), Gen::gen(c))
    }
}
impl<S: Sc> Gen for (S, S, S, S) {
    fn gen(c: &mut Ctx) -> Self {
        (Gen::gen(c), Gen::gen(c), Gen::gen(c), Gen::gen(c))
    }
}
impl<S: Sc, const N: usize> Gen for Vector<S, N> {
    fn gen(c: &mut Ctx) -> Self {
        let v = vec_words(c, N);
        Vector::from(core::array::from_fn::<S, N, _>(|i| S::of(v[i])))
    }
}
impl<S: Sc, const N: usize> Gen for Point<S, N> {
    fn gen(c: &mut Ctx) -> Self {
        let v = vec_words(c, N);
        Point::from(core::array::from_fn::<S, N, _>(|i| S::of(v[i])))
    }
}
impl<S: Sc> Gen for Complex<S> {
    fn gen(c: &mut Ctx) -> Self {
        let v = vec_words(c, 2);
        Complex::new(S::of(v[0]), S::of(v[1]))
    }
}
impl<S: Sc> Gen for Quaternion<S> {
    fn gen(c: &mut Ctx) -> Self {
        let s = c.selw();
        let v = match sel(s, 4) {
            1 => unit_words(c, 4),
            2 => {
                let mut v = vec_words(c, 4);
                v[0] = 0.0;
                v
            }
            3 => {
                let v = vec_words(c, 4);
                let mut u = [0.0; VW];
                u[0] = v[0];
                u
            }
            _ => vec_words(c, 4),
        };
        Quaternion::new(S::of(v[0]), S::of(v[1]), S::of(v[2]), S::of(v[3]))
    }
}
impl<S: Sc, const R: usize, const C: usize> Gen for Matrix<S, R, C> {
    fn gen(c: &mut Ctx) -> Self {
        let s = c.selw();
        let mut m = [[0.0f64; R]; C];
        for col in m.iter_mut() {
            for x in col.iter_mut() {
                *x = c.word();
            }
        }
        match sel(s, 12) {
            6 => {
                for (i, col) in m.iter_mut().enumerate() {
                    for (j, x) in col.iter_mut().enumerate() {
                        *x = if i == j { 1.0 } else { 0.0 };
                    }
                }
            }
            7 => {
                for (i, col) in m.iter_mut().enumerate() {
                    for (j, x) in col.iter_mut().enumerate() {
                        if i != j {
                            *x = 0.0;
                        }
                    }
                }
            }
            8 if C > 1 => m[C - 1] = m[0],
            9 => {
                for i in 0..C {
                    for j in 0..R {
                        if j < C && i < R && j > i {
                            let t = m[j][i];
                            m[i][j] = t;
                        }
                    }
                }
            }
            10 if R == C && R >= 2 => {
                let a = m[0][0];
                let (sn, cs) = if a.is_finite() { a.sin_cos() } else { (0.0, 1.0) };
                for (i, col) in m.iter_mut().enumerate() {
                    for (j, x) in col.iter_mut().enumerate() {
                        *x = if i == j { 1.0 } else { 0.0 };
                    }
                }
                m[0][0] = cs;
                m[0][1] = sn;
                m[1][0] = -sn;
                m[1][1] = cs;
            }
            11 if R == C && R >= 2 => {
                for i in 0..C {
                    m[i][R - 1] = if i == C - 1 { 1.0 } else { 0.0 };
                }
            }
            _ => {}
        }
        Matrix::from(m.map(|col| col.map(S::of)))
    }
}
impl<S: Sc> Gen for Radians<S> {
    fn gen(c: &mut Ctx) -> Self {
        Radians(S::of(angle_word(c)))
    }
}
impl<S: Sc> Gen for Degrees<S> {
    fn gen(c: &mut Ctx) -> Self {
        Degrees(S::of(angle_word(c) * (180.0 / core::f64::consts::PI)))
    }
}
impl<A: Gen> Gen for Euler<A> {
    fn gen(c: &mut Ctx) -> Self {
        Euler::new(A::gen(c), A::gen(c), A::gen(c))
    }
}
impl<S: Sc, const N: usize> Gen for Unit<Vector<S, N>> {
    fn gen(c: &mut Ctx) -> Self {
        let v = unit_words(c, N);
        Unit::from_value_unchecked(Vector::from(core::array::from_fn::<S, N, _>(|i| S::of(v[i]))))
    }
}
impl<S: Sc, const N: usize> Gen for Unit<Point<S, N>> {
    fn gen(c: &mut Ctx) -> Self {
        let v = unit_words(c, N);
        Unit::from_value_unchecked(Point::from(core::array::from_fn::<S, N, _>(|i| S::of(v[i]))))
    }
}
impl<S: Sc> Gen for Unit<Quaternion<S>> {
    fn gen(c: &mut Ctx) -> Self {
        let v = unit_words(c, 4);
        Unit::from_value_unchecked(Quaternion::new(S::of(v[0]), S::of(v[1]), S::of(v[2]), S::of(v[3])))
    }
}
impl<S: Sc> Gen for Unit<Complex<S>> {
    fn gen(c: &mut Ctx) -> Self {
        let v = unit_words(c, 2);
        Unit::from_value_unchecked(Complex::new(S::of(v[0]), S::of(v[1])))
    }
}
impl<S: Sc, const R: usize, const C: usize> Gen for Unit<Matrix<S, R, C>> {
    fn gen(c: &mut Ctx) -> Self {
        Unit::from_value_unchecked(Gen::gen(c))
    }
}
impl<S: Sg, const N: usize> Gen for Translation<S, N> {
    fn gen(c: &mut Ctx) -> Self {
        Translation::from_vector(&Gen::gen(c))
    }
}
impl<S: Sc, const N: usize> Gen for Scale<S, N> {
    fn gen(c: &mut Ctx) -> Self {
        Scale::from_nonuniform_scale(&Gen::gen(c))
    }
}
impl<S: Fl> Gen for Rotation<S, 2> {
    fn gen(c: &mut Ctx) -> Self {
        Rotation2::from_angle(<Radians<S>>::gen(c))
    }
}
impl<S: Fl> Gen for Rotation<S, 3> {
    fn gen(c: &mut Ctx) -> Self {
        let u: Unit<Vector<S, 3>> = Gen::gen(c);
        Rotation3::from_axis_angle(&u, <Radians<S>>::gen(c))
    }
}
impl<S: Fl> Gen for Isometry<S, 2> {
    fn gen(c: &mut Ctx) -> Self {
        Isometry::from_parts(&Gen::gen(c), &Gen::gen(c))
    }
}
impl<S: Fl> Gen for Isometry<S, 3> {
    fn gen(c: &mut Ctx) -> Self {
        Isometry::from_parts(&Gen::gen(c), &Gen::gen(c))
    }
}
impl<S: Fl> Gen for Similarity<S, 2> {
    fn gen(c: &mut Ctx) -> Self {
        Similarity::from_parts(&Gen::gen(c), &Gen::gen(c), S::of(c.word()))
    }
}
impl<S: Fl> Gen for Similarity<S, 3> {
    fn gen(c: &mut Ctx) -> Self {
        Similarity::from_parts(&Gen::gen(c), &Gen::gen(c), S::of(c.word()))
    }
}
impl<S: Fl, const N: usize> Gen for Reflection<S, N> {
    fn gen(c: &mut Ctx) -> Self {
        Reflection::from_normal_bias(&Gen::gen(c), &Gen::gen(c))
    }
}
impl<S: Sc> Gen for Transform<S, 2, 3> {
    fn gen(c: &mut Ctx) -> Self {
        Transform::from_matrix_unchecked(Gen::gen(c))
    }
}
impl<S: Sc> Gen for Transform<S, 3, 4> {
    fn gen(c: &mut Ctx) -> Self {
        Transform::from_matrix_unchecked(Gen::gen(c))
    }
}
impl<S: Sg> Gen for Shear<S, 2> {
    fn gen(c: &mut Ctx) -> Self {
        let s = c.selw();
        let f = S::of(c.word());
        match sel(s, 2) {
            0 => Shear::<S, 2>::from_shear_xy(f),
            _ => Shear::<S, 2>::from_shear_yx(f),
        }
    }
}
impl<S: Sg> Gen for Shear<S, 3> {
    fn gen(c: &mut Ctx) -> Self {
        let s = c.selw();
        let f = S::of(c.word());
        match sel(s, 6) {
            0 => Shear::<S, 3>::from_shear_xy(f),
            1 => Shear::<S, 3>::from_shear_xz(f),
            2 => Shear::<S, 3>::from_shear_yx(f),
            3 => Shear::<S, 3>::from_shear_yz(f),
            4 => Shear::<S, 3>::from_shear_zx(f),
            _ => Shear::<S, 3>::from_shear_zy(f),
        }
    }
}
impl<S: Fl> Gen for Perspective3<S> {
    fn gen(c: &mut Ctx) -> Self {
        let s = c.selw();
        let w: [f64; 6] = core::array::from_fn(|_| c.word());
        match sel(s, 3) {
            2 => Perspective3::new(S::of(w[0]), S::of(w[1]), S::of(w[2]), S::of(w[3]), S::of(w[4]), S::of(w[5])),
            1 => {
                let f: [f64; 4] = core::array::from_fn(|i| clean(w[i]).abs() % 7.0 + 0.1);
                Perspective3::from_vfov(Radians(S::of(f[0] % 3.0)), S::of(f[1]), S::of(f[2]), S::of(f[2] + f[3]))
            }
            _ => {
                let f: [f64; 6] = core::array::from_fn(|i| clean(w[i]).abs() % 7.0 + 0.1);
                Perspective3::new(S::of(-f[0]), S::of(f[1]), S::of(-f[2]), S::of(f[3]), S::of(f[4]), S::of(f[4] + f[5]))
            }
        }
    }
}
impl<S: Fl> Gen for Orthographic3<S> {
    fn gen(c: &mut Ctx) -> Self {
        let s = c.selw();
        let w: [f64; 6] = core::array::from_fn(|_| c.word());
        match sel(s, 3) {
            2 => Orthographic3::new(S::of(w[0]), S::of(w[1]), S::of(w[2]), S::of(w[3]), S::of(w[4]), S::of(w[5])),
            _ => {
                let f: [f64; 6] = core::array::from_fn(|i| clean(w[i]).abs() % 7.0 + 0.1);
                Orthographic3::new(S::of(-f[0]), S::of(f[1]), S::of(-f[2]), S::of(f[3]), S::of(f[4]), S::of(f[4] + f[5]))
            }
        }
    }
}

/// Result digests: the exact component values (NaN payloads unified).
pub trait Dig {
    fn dig(&self, out: &mut Vec<u64>);
}
/// Types that are nothing but scalars of kind `S`: read back as raw components.
pub fn raw<S: Sc, T>(t: &T, out: &mut Vec<u64>) {
    let n = core::mem::size_of::<T>() / core::mem::size_of::<S>();
    let p = t as *const T as *const S;
    for i in 0..n {
        out.push(unsafe { core::ptr::read_unaligned(p.add(i)) }.word());
    }
}
macro_rules! dig_raw {
    ($([$($g:tt)*] $t:ty),* $(,)?) => {$( impl<$($g)*> Dig for $t { fn dig(&self, out: &mut Vec<u64>) { raw::<S, $t>(self, out) } } )*};
}
dig_raw!(
    [S: Sc, const N: usize] Vector<S, N>, [S: Sc, const N: usize] Point<S, N>, [S: Sc, const R: usize, const C: usize] Matrix<S, R, C>,
    [S: Sc] Complex<S>, [S: Sc] Quaternion<S>, [S: Sc] Radians<S>, [S: Sc] Degrees<S>,
    [S: Sc, const N: usize] Translation<S, N>, [S: Sc, const N: usize] Scale<S, N>, [S: Sc, const N: usize] Shear<S, N>,
    [S: Sc, const N: usize] Rotation<S, N>, [S: Sc, const N: usize] Reflection<S, N>, [S: Sc, const N: usize] Isometry<S, N>,
    [S: Sc, const N: usize] Similarity<S, N>, [S: Sc] Transform<S, 2, 3>, [S: Sc] Transform<S, 3, 4>, [S: Sc] Perspective3<S>, [S: Sc] Orthographic3<S>,
);
impl<A: Dig> Dig for Euler<A> {
    fn dig(&self, out: &mut Vec<u64>) {
        self.x.dig(out);
        self.y.dig(out);
        self.z.dig(out);
    }
}
impl<T: Dig> Dig for Unit<T> {
    fn dig(&self, out: &mut Vec<u64>) {
        // repr(transparent) wrapper: read through it
        let t: &T = self.as_ref();
        t.dig(out)
    }
}
impl<T: Dig> Dig for Option<T> {
    fn dig(&self, out: &mut Vec<u64>) {
        match self {
            None => out.push(0x4e4f_4e45),
            Some(t) => {
                out.push(0x534f_4d45);
                t.dig(out)
            }
        }
    }
}
impl<T: Dig + ?Sized> Dig for &T {
    fn dig(&self, out: &mut Vec<u64>) {
        (**self).dig(out)
    }
}
impl<T: Dig> Dig for [T] {
    fn dig(&self, out: &mut Vec<u64>) {
        for t in self {
            t.dig(out)
        }
    }
}
impl<T: Dig, const N: usize> Dig for [T; N] {
    fn dig(&self, out: &mut Vec<u64>) {
        for t in self {
            t.dig(out)
        }
    }
}
impl Dig for () {
    fn dig(&self, _: &mut Vec<u64>) {}
}
impl Dig for bool {
    fn dig(&self, out: &mut Vec<u64>) {
        out.push(*self as u64)
    }
}
impl Dig for usize {
    fn dig(&self, out: &mut Vec<u64>) {
        out.push(*self as u64)
    }
}
impl Dig for u64 {
    fn dig(&self, out: &mut Vec<u64>) {
        out.push(*self)
    }
}
impl Dig for Small {
    fn dig(&self, out: &mut Vec<u64>) {
        out.push(self.0 as u64)
    }
}
macro_rules! dig_tup {
    ($($($t:ident)+),*) => {$( impl<$($t: Dig),+> Dig for ($($t,)+) { #[allow(non_snake_case)] fn dig(&self, out: &mut Vec<u64>) { let ($($t,)+) = self; $($t.dig(out);)+ } } )*};
}
dig_tup!(A, A B, A B C, A B C D);

/// A position inside a dimension of length `N`.
pub struct Idx<const N: usize>(pub usize);
impl<const N: usize> Gen for Idx<N> {
    fn gen(c: &mut Ctx) -> Self {
        let w = c.word();
        Idx(sel(w, N as u64) as usize)
    }
}
/// A result that can only be looked at through `Debug`.
pub struct DD<T>(pub T);
impl<T: core::fmt::Debug> Dig for DD<T> {
    fn dig(&self, out: &mut Vec<u64>) {
        crate::sink::render(format_args!("{:?}", self.0)).dig(out)
    }
}
