//! The types of the library with their requests, for the edit-history engine.
use crate::hist::*;
use crate::sc::{Fl, Sc, Sg, SimF64};
use crate::views_gen as vg;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use std::sync::OnceLock;

macro_rules! cast1 {
    ($d:ident, $t:ident) => {
        $d.read(concat!("try_cast::<", stringify!($t), ">"), 0, |v, _| match v.try_cast::<$t>() { Some(w) => Got::Val(w.flat().iter().map(|e| *e as i64 as u64).collect()), None => Got::Empty }, |m, _| int_want(cast_want(m, $t::MIN as f64, $t::MAX as f64)));
    };
}
macro_rules! casts {
    ($d:ident) => {
        cast1!($d, i8);
        cast1!($d, u8);
        cast1!($d, i16);
        cast1!($d, u16);
        cast1!($d, i32);
        cast1!($d, u32);
        // contents near the limits of those types
        $d.edit("= near a cast limit", 0, |v, p| { let k = p.xi(0) as usize % v.flat().len(); v.put(k, limit_word(p)); Got::Done }, |m, p| { let k = p.xi(0) as usize % m.len(); m[k] = limit_word(p); Want::Done });
    };
}
/// Requests of types with a norm.
macro_rules! normed {
    ($d:ident) => {
        $d.paired("scale_mut", |v, p| { v.scale_mut(p.s()); Got::Done }, |v, p| v.scale(p.s()), |m, p| { let ok = ordinary(m) && ordinary(&[p.s()]); each(m, |a| a * p.s()); if ok { Want::Near } else { Want::Any } });
        $d.paired("unscale_mut", |v, p| { v.unscale_mut(p.s()); Got::Done }, |v, p| v.unscale(p.s()), |m, p| { let ok = ordinary(m) && ordinary(&[p.s()]) && f(p.s()) != 0.0; each(m, |a| a / p.s()); if ok { Want::Near } else { Want::Any } });
        $d.paired("normalize_mut", |v, _| { let n = v.normalize_mut(); val(&[n]) }, |v, _| v.normalize(), |m, _| { let n = norm_of(m); let ok = ordinary(m) && n > 0.0; normalised(m); if ok { Want::Tol(words(&[E::e_of(n)])) } else { Want::Any } });
        $d.read("norm()", 0, |v, _| val(&[v.norm()]), |m, _| if ordinary(m) { Want::Tol(words(&[E::e_of(norm_of(m))])) } else { Want::Any });
        $d.edit("try_normalize_mut", 0, |v, p| { let t = threshold(&v.flat(), p).0; match v.try_normalize_mut(t) { Some(n) => val(&[n]), None => Got::Empty } }, |m, p| match threshold(m, p).1 { None => Want::Any, Some(true) => Want::Empty, Some(false) => { let n = norm_of(m); normalised(m); Want::Tol(words(&[E::e_of(n)])) } });
        $d.read("try_normalize", 0, |v, p| { let t = threshold(&v.flat(), p).0; match v.try_normalize(t) { Some(n) => val(&n.flat()), None => Got::Empty } }, |m, p| match threshold(m, p).1 { None => Want::Any, Some(true) => Want::Empty, Some(false) => { let mut w = m.clone(); normalised(&mut w); Want::Tol(words(&w)) } });
        $d.read("Unit::try_from_value", 0, |v, p| { let t = threshold(&v.flat(), p).0; match Unit::try_from_value(*v, t) { Some(n) => val(&n.into_inner().flat()), None => Got::Empty } }, |m, p| match threshold(m, p).1 { None => Want::Any, Some(true) => Want::Empty, Some(false) => { let mut w = m.clone(); normalised(&mut w); Want::Tol(words(&w)) } });
        $d.read("Unit::try_from_value_with_norm", 0, |v, p| { let t = threshold(&v.flat(), p).0; match Unit::try_from_value_with_norm(*v, t) { Some((n, l)) => { let mut o = words(&n.into_inner().flat()); o.push(l.e_word()); Got::Val(o) }, None => Got::Empty } }, |m, p| match threshold(m, p).1 { None => Want::Any, Some(true) => Want::Empty, Some(false) => { let n = norm_of(m); let mut w = m.clone(); normalised(&mut w); w.push(E::e_of(n)); Want::Tol(words(&w)) } });
        $d.edit("times a power of two", 0, |v, p| { let w = v.flat(); for i in 0..w.len() { v.put(i, w[i] * power::<E>(p)); } Got::Done }, |m, p| { each(m, |a| a * power::<E>(p)) });
        $d.edit("= (3, 4, 0..)", 0, |v, p| { let s = v.flat().len(); let w = axis_words::<E>(p, s); for i in 0..s { v.put(i, w[i]); } Got::Done }, |m, p| { *m = axis_words(p, m.len()); Want::Done });
    };
}
/// The components of any component type, in order.
pub trait Flat<E> {
    fn flat(&self) -> Vec<E>;
    fn put(&mut self, i: usize, e: E);
}
impl<E: Copy, const N: usize> Flat<E> for Vector<E, N> {
    fn flat(&self) -> Vec<E> {
        let t: &[E; N] = self.as_ref();
        t.to_vec()
    }
    fn put(&mut self, i: usize, e: E) {
        let t: &mut [E; N] = self.as_mut();
        t[i] = e;
    }
}
impl<E: Copy, const N: usize> Flat<E> for Point<E, N> {
    fn flat(&self) -> Vec<E> {
        let t: &[E; N] = self.as_ref();
        t.to_vec()
    }
    fn put(&mut self, i: usize, e: E) {
        let t: &mut [E; N] = self.as_mut();
        t[i] = e;
    }
}
impl<E: Copy, const R: usize, const C: usize> Flat<E> for Matrix<E, R, C> {
    fn flat(&self) -> Vec<E> {
        let t: &[[E; R]; C] = self.as_ref();
        t.iter().flatten().copied().collect()
    }
    fn put(&mut self, i: usize, e: E) {
        let t: &mut [[E; R]; C] = self.as_mut();
        t[i / R][i % R] = e;
    }
}
impl<E: Copy> Flat<E> for Complex<E> {
    fn flat(&self) -> Vec<E> {
        let t: &[E; 2] = self.as_ref();
        t.to_vec()
    }
    fn put(&mut self, i: usize, e: E) {
        let t: &mut [E; 2] = self.as_mut();
        t[i] = e;
    }
}
impl<E: Copy> Flat<E> for Quaternion<E> {
    fn flat(&self) -> Vec<E> {
        let t: &[E; 4] = self.as_ref();
        t.to_vec()
    }
    fn put(&mut self, i: usize, e: E) {
        let t: &mut [E; 4] = self.as_mut();
        t[i] = e;
    }
}
fn pos1<E: El>(m: &mut Vec<E>, p: &Par<E>, set: bool) -> Want {
    let i = p.ix(0, m.len());
    if i >= m.len() {
        return Want::Panic;
    }
    if set {
        m[i] = p.s();
        Want::Done
    } else {
        Want::Val(words(&[m[i]]))
    }
}
fn rng<E: El>(m: &mut Vec<E>, a: usize, b: usize, p: &Par<E>, set: bool) -> Want {
    if a > b || b > m.len() {
        return Want::Panic;
    }
    if set {
        for i in a..b {
            m[i] = p.w[i - a];
        }
        Want::Done
    } else {
        Want::Val(words(&m[a..b]))
    }
}
/// Requests of every type that is indexed like one array.
macro_rules! linear {
    ($d:ident, $n:expr) => {
        linear!($d, $n, V)
    };
    ($d:ident, $n:expr, $x:ident) => {
        $d.edit("v[i] =", 1, |v, p| { v[p.ix(0, $n)] = p.s(); Got::Done }, |m, p| pos1(m, p, true));
        $d.read("v[i]", 1, |v, p| val(&[v[p.ix(0, $n)]]), |m, p| pos1(m, p, false));
        $d.edit("v[a..b] =", 3, |v, p| { let (a, b) = p.range($n); let t = &mut v[a..b]; let k = t.len().min(60); t[..k].copy_from_slice(&p.w[..k]); Got::Done }, |m, p| { let (a, b) = p.range($n); rng(m, a, b, p, true) });
        $d.read("v[a..b]", 3, |v, p| { let (a, b) = p.range($n); val(&v[a..b]) }, |m, p| { let (a, b) = p.range($n); rng(m, a, b, p, false) });
        $d.edit("v[..b] =", 1, |v, p| { let b = p.ix(0, $n + 1); let t = &mut v[..b]; let k = t.len().min(60); t[..k].copy_from_slice(&p.w[..k]); Got::Done }, |m, p| { let b = p.ix(0, $n + 1); rng(m, 0, b, p, true) });
        $d.read("v[..b]", 1, |v, p| val(&v[..p.ix(0, $n + 1)]), |m, p| { let b = p.ix(0, $n + 1); rng(m, 0, b, p, false) });
        $d.edit("v[a..] =", 1, |v, p| { let a = p.ix(0, $n + 1); let t = &mut v[a..]; let k = t.len().min(60); t[..k].copy_from_slice(&p.w[..k]); Got::Done }, |m, p| { let a = p.ix(0, $n + 1); let n = m.len(); rng(m, a, n, p, true) });
        $d.read("v[a..]", 1, |v, p| val(&v[p.ix(0, $n + 1)..]), |m, p| { let a = p.ix(0, $n + 1); let n = m.len(); rng(m, a, n, p, false) });
        $d.edit("v[..] =", 0, |v, p| { v[..].copy_from_slice(&p.w[..$n]); Got::Done }, |m, p| { *m = p.vals($n); Want::Done });
        $d.read("v[..]", 0, |v, _| val(&v[..]), |m, _| Want::Val(words(m)));
        $d.edit("v[i] <-> v[j] through v[..]", 2, |v, p| { let (i, j) = (p.ix(0, $n), p.ix(1, $n)); v[..].swap(i, j); Got::Done }, |m, p| { let (i, j) = (p.ix(0, $n), p.ix(1, $n)); if i >= $n || j >= $n { return Want::Panic; } m.swap(i, j); Want::Done });
        common!($d, $n);
        $d.edit("as_mut::<[S; N]>()[i] =", 1, |v, p| { let t: &mut [E; $n] = v.as_mut(); t[p.ix(0, $n)] = p.s(); Got::Done }, |m, p| pos1(m, p, true));
        $d.read("as_ref::<[S; N]>()", 0, |v, _| { let t: &[E; $n] = v.as_ref(); val(t) }, |m, _| Want::Val(words(m)));
    };
}
/// Requests every component type has.
macro_rules! common {
    ($d:ident, $n:expr) => {
        $d.read("as_slice()", 0, |v, _| val(v.as_slice()), |m, _| Want::Val(words(m)));
        $d.read("as_ptr()", 0, |v, _| { let q = v.as_ptr(); let t: Vec<E> = (0..$n).map(|i| unsafe { *q.add(i) }).collect(); val(&t) }, |m, _| Want::Val(words(m)));
        $d.edit("*as_mut_ptr().add(i) =", 0, |v, p| { unsafe { *v.as_mut_ptr().add((p.xi(0) % $n as u64) as usize) = p.s() }; Got::Done }, |m, p| { m[(p.xi(0) % $n as u64) as usize] = p.s(); Want::Done });
        $d.read("len(), is_empty()", 0, |v, _| Got::Val(vec![v.len() as u64, v.is_empty() as u64]), |m, _| Want::Val(vec![m.len() as u64, 0]));
        $d.read("clone()", 0, |v, _| val(&v.clone().flat()), |m, _| Want::Val(words(m)));
        $d.edit("= map(replace one)", 0, |v, p| { let k = p.xi(0) as usize % $n; let s = p.s(); let mut i = 0; *v = v.map(|e| { let r = if i == k { s } else { e }; i += 1; r }); Got::Done }, |m, p| { let k = p.xi(0) as usize % $n; m[k] = p.s(); Want::Done });
    };
}
fn vec_def<E: El, const N: usize>() -> Def<Vector<E, N>, E> {
    let mut d = Def { name: format!("Vector{}<{}>", N, E::NAME), n: N, make: |w: &[E]| Vector::from(core::array::from_fn::<E, N, _>(|i| w[i])), get: |v: &Vector<E, N>| v.flat(), reqs: vec![], tame: false, tol: false };
    linear!(d, N);
    d.edit("as_mut::<[[S; N]; 1]>()[0][i] =", 1, |v, p| { let t: &mut [[E; N]; 1] = v.as_mut(); t[0][p.ix(0, N)] = p.s(); Got::Done }, |m, p| pos1(m, p, true));
    d.read("as_ref::<[[S; N]; 1]>()", 0, |v, _| { let t: &[[E; N]; 1] = v.as_ref(); val(&t[0]) }, |m, _| Want::Val(words(m)));
    d.read("shape()", 0, |v, _| Got::Val(vec![v.shape().0 as u64, v.shape().1 as u64]), |_, _| Want::Val(vec![N as u64, 1]));
    d.edit("= from_fill", 0, |v, p| { *v = Vector::from_fill(p.s()); Got::Done }, |m, p| { m.fill(p.s()); Want::Done });
    d.edit("= from([S; N])", 0, |v, p| { *v = Vector::from(p.arr::<N>()); Got::Done }, |m, p| { *m = p.vals(N); Want::Done });
    d.edit("= from(&[S; N])", 0, |v, p| { *v = Vector::from(&p.arr::<N>()); Got::Done }, |m, p| { *m = p.vals(N); Want::Done });
    d.edit("= *<&Vector>::from(&[S; N])", 0, |v, p| { let t = p.arr::<N>(); let q: &Vector<E, N> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(N); Want::Done });
    d
}
fn point_def<E: El, const N: usize>() -> Def<Point<E, N>, E> {
    let mut d = Def { name: format!("Point{}<{}>", N, E::NAME), n: N, make: |w: &[E]| Point::from(core::array::from_fn::<E, N, _>(|i| w[i])), get: |v: &Point<E, N>| v.flat(), reqs: vec![], tame: false, tol: false };
    linear!(d, N);
    d.read("shape()", 0, |v, _| Got::Val(vec![v.shape().0 as u64, v.shape().1 as u64]), |_, _| Want::Val(vec![N as u64, 1]));
    d.edit("= from_fill", 0, |v, p| { *v = Point::from_fill(p.s()); Got::Done }, |m, p| { m.fill(p.s()); Want::Done });
    d.edit("= from([S; N])", 0, |v, p| { *v = Point::from(p.arr::<N>()); Got::Done }, |m, p| { *m = p.vals(N); Want::Done });
    d.edit("= from(&[S; N])", 0, |v, p| { *v = Point::from(&p.arr::<N>()); Got::Done }, |m, p| { *m = p.vals(N); Want::Done });
    d.edit("= *<&Point>::from(&[S; N])", 0, |v, p| { let t = p.arr::<N>(); let q: &Point<E, N> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(N); Want::Done });
    d
}
fn complex_def<E: El + Sc>() -> Def<Complex<E>, E> {
    let mut d = Def { name: format!("Complex<{}>", E::NAME), n: 2, make: |w: &[E]| Complex::new(w[0], w[1]), get: |v: &Complex<E>| v.flat(), reqs: vec![], tame: false, tol: false };
    linear!(d, 2);
    d.edit(".re =", 0, |v, p| { v.re = p.s(); Got::Done }, |m, p| { m[0] = p.s(); Want::Done });
    d.edit(".im =", 0, |v, p| { v.im = p.s(); Got::Done }, |m, p| { m[1] = p.s(); Want::Done });
    d.read(".re, .im, real(), imaginary()", 0, |v, _| val(&[v.re, v.im, v.real(), v.imaginary()]), |m, _| Want::Val(words(&[m[0], m[1], m[0], m[1]])));
    d.edit("as_mut::<tuple>().0 =", 0, |v, p| { let t: &mut (E, E) = v.as_mut(); t.0 = p.s(); Got::Done }, |m, p| { m[0] = p.s(); Want::Done });
    d.edit("as_mut::<tuple>().1 =", 0, |v, p| { let t: &mut (E, E) = v.as_mut(); t.1 = p.s(); Got::Done }, |m, p| { m[1] = p.s(); Want::Done });
    d.read("as_ref::<tuple>()", 0, |v, _| { let t: &(E, E) = v.as_ref(); val(&[t.0, t.1]) }, |m, _| Want::Val(words(m)));
    d.edit("= new", 0, |v, p| { *v = Complex::new(p.w[0], p.w[1]); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= from((S, S))", 0, |v, p| { *v = Complex::from((p.w[0], p.w[1])); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= from(&(S, S))", 0, |v, p| { *v = Complex::from(&(p.w[0], p.w[1])); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= from([S; 2])", 0, |v, p| { *v = Complex::from(p.arr::<2>()); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= from(&[S; 2])", 0, |v, p| { *v = Complex::from(&p.arr::<2>()); Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= *<&Complex>::from(&[S; 2])", 0, |v, p| { let t = p.arr::<2>(); let q: &Complex<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d.edit("= *<&Complex>::from(&(S, S))", 0, |v, p| { let t = (p.w[0], p.w[1]); let q: &Complex<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(2); Want::Done });
    d
}
fn quat_def<E: El + Sc>() -> Def<Quaternion<E>, E> {
    let mut d = Def { name: format!("Quaternion<{}>", E::NAME), n: 4, make: |w: &[E]| Quaternion::new(w[0], w[1], w[2], w[3]), get: |v: &Quaternion<E>| v.flat(), reqs: vec![], tame: false, tol: false };
    linear!(d, 4);
    d.edit(".s =", 0, |q, p| { q.s = p.s(); Got::Done }, |m, p| { m[0] = p.s(); Want::Done });
    d.edit(".v =", 0, |q, p| { q.v = Vector3::new(p.w[0], p.w[1], p.w[2]); Got::Done }, |m, p| { m[1..].copy_from_slice(&p.w[..3]); Want::Done });
    d.edit(".v[i] =", 1, |q, p| { q.v[p.ix(0, 3)] = p.s(); Got::Done }, |m, p| { let i = p.ix(0, 3); if i >= 3 { return Want::Panic; } m[1 + i] = p.s(); Want::Done });
    d.edit(".v.x =", 0, |q, p| { q.v.x = p.s(); Got::Done }, |m, p| { m[1] = p.s(); Want::Done });
    d.edit(".v.y =", 0, |q, p| { q.v.y = p.s(); Got::Done }, |m, p| { m[2] = p.s(); Want::Done });
    d.edit(".v.z =", 0, |q, p| { q.v.z = p.s(); Got::Done }, |m, p| { m[3] = p.s(); Want::Done });
    d.read(".s, .v", 0, |q, _| val(&[q.s, q.v.x, q.v.y, q.v.z]), |m, _| Want::Val(words(m)));
    d.read("scalar(), vector()", 0, |q, _| val(&[q.scalar(), q.vector()[0], q.vector()[1], q.vector()[2]]), |m, _| Want::Val(words(m)));
    d.read("shape()", 0, |v, _| Got::Val(vec![v.shape().0 as u64, v.shape().1 as u64]), |_, _| Want::Val(vec![4, 1]));
    d.edit("as_mut::<tuple>().k =", 0, |v, p| { let t: &mut (E, E, E, E) = v.as_mut(); *(match p.xi(0) % 4 { 0 => &mut t.0, 1 => &mut t.1, 2 => &mut t.2, _ => &mut t.3 }) = p.s(); Got::Done }, |m, p| { m[p.xi(0) as usize % 4] = p.s(); Want::Done });
    d.read("as_ref::<tuple>()", 0, |v, _| { let t: &(E, E, E, E) = v.as_ref(); val(&[t.0, t.1, t.2, t.3]) }, |m, _| Want::Val(words(m)));
    d.edit("= new", 0, |v, p| { *v = Quaternion::new(p.w[0], p.w[1], p.w[2], p.w[3]); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("= from_parts", 0, |v, p| { *v = Quaternion::from_parts(p.w[0], Vector3::new(p.w[1], p.w[2], p.w[3])); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("= from_fill", 0, |v, p| { *v = Quaternion::from_fill(p.s()); Got::Done }, |m, p| { m.fill(p.s()); Want::Done });
    d.edit("= from(tuple)", 0, |v, p| { *v = Quaternion::from((p.w[0], p.w[1], p.w[2], p.w[3])); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("= from(&tuple)", 0, |v, p| { *v = Quaternion::from(&(p.w[0], p.w[1], p.w[2], p.w[3])); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("= from([S; 4])", 0, |v, p| { *v = Quaternion::from(p.arr::<4>()); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("= from(&[S; 4])", 0, |v, p| { *v = Quaternion::from(&p.arr::<4>()); Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("= *<&Quaternion>::from(&[S; 4])", 0, |v, p| { let t = p.arr::<4>(); let q: &Quaternion<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d.edit("= *<&Quaternion>::from(&tuple)", 0, |v, p| { let t = (p.w[0], p.w[1], p.w[2], p.w[3]); let q: &Quaternion<E> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    d
}
fn mat_def<E: El, const R: usize, const C: usize>() -> Def<Matrix<E, R, C>, E> {
    let mut d = Def {
        name: format!("Matrix{}x{}<{}>", R, C, E::NAME),
        n: R * C,
        make: |w: &[E]| Matrix::from(core::array::from_fn::<[E; R], C, _>(|c| core::array::from_fn(|r| w[c * R + r]))),
        get: |v: &Matrix<E, R, C>| v.flat(),
        reqs: vec![],
        tame: false,
        tol: false,
    };
    macro_rules! cr {
        ($p:ident) => {
            ($p.ix(0, C), $p.ix(1, R))
        };
    }
    fn at<E: El>(m: &mut [E], c: usize, r: usize, nr: usize, nc: usize, s: Option<E>) -> Want {
        if c >= nc || r >= nr {
            return Want::Panic;
        }
        match s {
            Some(s) => {
                m[c * nr + r] = s;
                Want::Done
            }
            None => Want::Val(words(&[m[c * nr + r]])),
        }
    }
    d.edit("m[c][r] =", 2, |v, p| { let (c, r) = cr!(p); v[c][r] = p.s(); Got::Done }, |m, p| { let (c, r) = cr!(p); at(m, c, r, R, C, Some(p.s())) });
    d.read("m[c][r]", 2, |v, p| { let (c, r) = cr!(p); val(&[v[c][r]]) }, |m, p| { let (c, r) = cr!(p); at(m, c, r, R, C, None) });
    d.edit("m[(c, r)] =", 2, |v, p| { let (c, r) = cr!(p); v[(c, r)] = p.s(); Got::Done }, |m, p| { let (c, r) = cr!(p); at(m, c, r, R, C, Some(p.s())) });
    d.read("m[(c, r)]", 2, |v, p| { let (c, r) = cr!(p); val(&[v[(c, r)]]) }, |m, p| { let (c, r) = cr!(p); at(m, c, r, R, C, None) });
    d.edit("m[c] =", 1, |v, p| { v[p.ix(0, C)] = Vector::from(p.arr::<R>()); Got::Done }, |m, p| { let c = p.ix(0, C); if c >= C { return Want::Panic; } m[c * R..(c + 1) * R].copy_from_slice(&p.w[..R]); Want::Done });
    d.read("m[c]", 1, |v, p| val(&v[p.ix(0, C)].flat()), |m, p| { let c = p.ix(0, C); if c >= C { return Want::Panic; } Want::Val(words(&m[c * R..(c + 1) * R])) });
    d.edit("m[c][a..b] =", 1, |v, p| { let c = p.ix(0, C); let (mut a, mut b) = ((p.xi(1) % (R as u64 + 1)) as usize, (p.xi(2) % (R as u64 + 1)) as usize); if a > b { core::mem::swap(&mut a, &mut b); } v[c][a..b].copy_from_slice(&p.w[..b - a]); Got::Done }, |m, p| { let c = p.ix(0, C); if c >= C { return Want::Panic; } let (mut a, mut b) = ((p.xi(1) % (R as u64 + 1)) as usize, (p.xi(2) % (R as u64 + 1)) as usize); if a > b { core::mem::swap(&mut a, &mut b); } for i in a..b { m[c * R + i] = p.w[i - a]; } Want::Done });
    d.read("row(r)", 1, |v, p| val(&v.row(p.ix(0, R)).flat()), |m, p| { let r = p.ix(0, R); if r >= R { return Want::Panic; } let t: Vec<E> = (0..C).map(|c| m[c * R + r]).collect(); Want::Val(words(&t)) });
    d.read("all rows", 0, |v, _| { let mut o = vec![]; for r in 0..R { o.extend(words(&v.row(r).flat())); } Got::Val(o) }, |m, _| { let mut o = vec![]; for r in 0..R { for c in 0..C { o.push(m[c * R + r].e_word()); } } Want::Val(o) });
    d.read("column(c)", 1, |v, p| val(&v.column(p.ix(0, C)).flat()), |m, p| { let c = p.ix(0, C); if c >= C { return Want::Panic; } Want::Val(words(&m[c * R..(c + 1) * R])) });
    d.read("all columns", 0, |v, _| { let mut o = vec![]; for c in 0..C { o.extend(words(&v.column(c).flat())); } Got::Val(o) }, |m, _| Want::Val(words(m)));
    d.edit("swap_rows", 2, |v, p| { v.swap_rows(p.ix(0, R), p.ix(1, R)); Got::Done }, |m, p| { let (a, b) = (p.ix(0, R), p.ix(1, R)); if a >= R || b >= R { return Want::Panic; } for c in 0..C { m.swap(c * R + a, c * R + b); } Want::Done });
    d.edit("swap_columns", 2, |v, p| { v.swap_columns(p.ix(0, C), p.ix(1, C)); Got::Done }, |m, p| { let (a, b) = (p.ix(0, C), p.ix(1, C)); if a >= C || b >= C { return Want::Panic; } for r in 0..R { m.swap(a * R + r, b * R + r); } Want::Done });
    d.edit("swap", 4, |v, p| { v.swap((p.ix(0, C), p.ix(1, R)), (p.ix(2, C), p.ix(3, R))); Got::Done }, |m, p| { let (a, b, c, e) = (p.ix(0, C), p.ix(1, R), p.ix(2, C), p.ix(3, R)); if a >= C || b >= R || c >= C || e >= R { return Want::Panic; } m.swap(a * R + b, c * R + e); Want::Done });
        d.read("shape()", 0, |v, _| Got::Val(vec![v.shape().0 as u64, v.shape().1 as u64]), |_, _| Want::Val(vec![R as u64, C as u64]));
    d.read("is_square()", 0, |v, _| Got::Val(vec![v.is_square() as u64]), |_, _| Want::Val(vec![(R == C) as u64]));
    d.edit("= from_fill", 0, |v, p| { *v = Matrix::from_fill(p.s()); Got::Done }, |m, p| { m.fill(p.s()); Want::Done });
    d.edit("= from_columns", 0, |v, p| { *v = Matrix::from_columns(&core::array::from_fn::<Vector<E, R>, C, _>(|c| Vector::from(core::array::from_fn::<E, R, _>(|r| p.w[c * R + r])))); Got::Done }, |m, p| { *m = p.vals(R * C); Want::Done });
    d.edit("= from_rows", 0, |v, p| { *v = Matrix::from_rows(&core::array::from_fn::<Vector<E, C>, R, _>(|r| Vector::from(core::array::from_fn::<E, C, _>(|c| p.w[c * R + r])))); Got::Done }, |m, p| { *m = p.vals(R * C); Want::Done });
    d.edit("= from([[S; R]; C])", 0, |v, p| { *v = Matrix::from(core::array::from_fn::<[E; R], C, _>(|c| core::array::from_fn(|r| p.w[c * R + r]))); Got::Done }, |m, p| { *m = p.vals(R * C); Want::Done });
    d.edit("= *<&Matrix>::from(&[[S; R]; C])", 0, |v, p| { let t = core::array::from_fn::<[E; R], C, _>(|c| core::array::from_fn(|r| p.w[c * R + r])); let q: &Matrix<E, R, C> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(R * C); Want::Done });
    d.edit("= *<&Matrix>::from(&[Vector; C])", 0, |v, p| { let t = core::array::from_fn::<Vector<E, R>, C, _>(|c| Vector::from(core::array::from_fn::<E, R, _>(|r| p.w[c * R + r]))); let q: &Matrix<E, R, C> = From::from(&t); *v = *q; Got::Done }, |m, p| { *m = p.vals(R * C); Want::Done });
    d.edit("as_mut::<[[S; R]; C]>()[c][r] =", 2, |v, p| { let (c, r) = cr!(p); let t: &mut [[E; R]; C] = v.as_mut(); t[c][r] = p.s(); Got::Done }, |m, p| { let (c, r) = cr!(p); at(m, c, r, R, C, Some(p.s())) });
    d.edit("as_mut::<[Vector; C]>()[c][r] =", 2, |v, p| { let (c, r) = cr!(p); let t: &mut [Vector<E, R>; C] = v.as_mut(); t[c][r] = p.s(); Got::Done }, |m, p| { let (c, r) = cr!(p); at(m, c, r, R, C, Some(p.s())) });
    d.read("as_ref::<[[S; R]; C]>()", 0, |v, _| { let t: &[[E; R]; C] = v.as_ref(); Got::Val(t.iter().flatten().map(|e| e.e_word()).collect()) }, |m, _| Want::Val(words(m)));
    d.read("as_ref::<[Vector; C]>()", 0, |v, _| { let t: &[Vector<E, R>; C] = v.as_ref(); Got::Val(t.iter().flat_map(|e| words(&e.flat())).collect()) }, |m, _| Want::Val(words(m)));
    d
}

fn zip<E: El>(m: &mut Vec<E>, w: &[E], g: impl Fn(E, E) -> E) -> Want {
    for (a, b) in m.iter_mut().zip(w) {
        *a = g(*a, *b);
    }
    Want::Done
}
fn each<E: El>(m: &mut Vec<E>, g: impl Fn(E) -> E) -> Want {
    for a in m.iter_mut() {
        *a = g(*a);
    }
    Want::Done
}
/// A divisor that integers accept too.
fn dv<E: El>(p: &Par<E>) -> E {
    if E::FLOAT {
        p.s()
    } else {
        let x = f(p.s()).abs();
        E::e_of(if x < 1.0 { 3.0 } else { x })
    }
}
/// One of the four by-value and by-reference spellings of a binary operation.
macro_rules! spell {
    ($k:expr, $a:expr, $op:tt, $b:expr) => {
        match $k % 4 {
            0 => *$a $op $b,
            1 => *$a $op &$b,
            2 => $a $op $b,
            _ => $a $op &$b,
        }
    };
}
macro_rules! spell_s {
    ($k:expr, $a:expr, $op:tt, $b:expr) => {
        match $k % 2 {
            0 => *$a $op $b,
            _ => $a $op $b,
        }
    };
}
/// Compound assignments of component types with an addition of their own kind.
macro_rules! sums {
    ($d:ident, $n:expr, $mk:expr) => {
        $d.paired("+=", |v, p| { let w = $mk(p); if p.xi(4) % 2 == 0 { *v += w } else { *v += &w } Got::Done }, |v, p| { let w = $mk(p); spell!(p.xi(3), v, +, w) }, |m, p| zip(m, &p.w, |a, b| a + b));
        $d.paired("-=", |v, p| { let w = $mk(p); if p.xi(4) % 2 == 0 { *v -= w } else { *v -= &w } Got::Done }, |v, p| { let w = $mk(p); spell!(p.xi(3), v, -, w) }, |m, p| zip(m, &p.w, |a, b| a - b));
        $d.paired("+= itself", |v, _| { let w = *v; *v += w; Got::Done }, |v, p| spell!(p.xi(3), v, +, *v), |m, _| each(m, |a| a + a));
        $d.paired("-= itself", |v, _| { let w = *v; *v -= &w; Got::Done }, |v, p| spell!(p.xi(3), v, -, *v), |m, _| each(m, |a| a - a));
    };
}
macro_rules! scalings {
    ($d:ident) => {
        $d.paired("*= S", |v, p| { *v *= p.s(); Got::Done }, |v, p| spell_s!(p.xi(3), v, *, p.s()), |m, p| each(m, |a| a * p.s()));
        $d.paired("/= S", |v, p| { *v /= dv(p); Got::Done }, |v, p| spell_s!(p.xi(3), v, /, dv(p)), |m, p| { let r = ordinary(m) && ordinary(&[p.s()]); each(m, |a| a / dv(p)); if !E::FLOAT { Want::Done } else if r && f(p.s()) != 0.0 { Want::Near } else { Want::Any } });
        $d.paired("%= S", |v, p| { *v %= dv(p); Got::Done }, |v, p| spell_s!(p.xi(3), v, %, dv(p)), |m, p| each(m, |a| a % dv(p)));
    };
}
/// The same with the scalar behind a reference.
macro_rules! scalings_by_ref {
    ($d:ident) => {
        $d.paired("*= &S", |v, p| { *v *= &p.s(); Got::Done }, |v, p| spell_s!(p.xi(3), v, *, &p.s()), |m, p| each(m, |a| a * p.s()));
        $d.paired("/= &S", |v, p| { *v /= &dv(p); Got::Done }, |v, p| spell_s!(p.xi(3), v, /, &dv(p)), |m, p| { let r = ordinary(m) && ordinary(&[p.s()]); each(m, |a| a / dv(p)); if !E::FLOAT { Want::Done } else if r && f(p.s()) != 0.0 { Want::Near } else { Want::Any } });
        $d.paired("%= &S", |v, p| { *v %= &dv(p); Got::Done }, |v, p| spell_s!(p.xi(3), v, %, &dv(p)), |m, p| each(m, |a| a % dv(p)));
    };
}
macro_rules! products {
    ($d:ident, $n:expr, $mk:expr) => {
        $d.paired("neg_mut", |v, _| { v.neg_mut(); Got::Done }, |v, p| if p.xi(3) % 2 == 0 { -*v } else { -v }, |m, _| each(m, |a| -a));
        $d.paired("component_mul_assign", |v, p| { v.component_mul_assign(&$mk(p)); Got::Done }, |v, p| v.component_mul(&$mk(p)), |m, p| zip(m, &p.w, |a, b| a * b));
        $d.paired("component_mul_assign by itself", |v, _| { let w = *v; v.component_mul_assign(&w); Got::Done }, |v, _| v.component_mul(v), |m, _| each(m, |a| a * a));
    };
}
fn vec_num<E: El + Sg, const N: usize>(d: &mut Def<Vector<E, N>, E>) {
    fn mk<E: El, const N: usize>(p: &Par<E>) -> Vector<E, N> {
        Vector::from(p.arr::<N>())
    }
    sums!(d, N, mk::<E, N>);
    scalings!(d);
    products!(d, N, mk::<E, N>);
    casts!(d);
    d.read("from_diagonal(v)", 0, |v, _| val(&Matrix::<E, N, N>::from_diagonal(v).flat()), |m, _| { let n = m.len(); let mut o = vec![E::e_of(0.0); n * n]; for i in 0..n { o[i * n + i] = m[i]; } Want::Val(words(&o)) });
    d.read("point from_vector(v).to_vector()", 0, |v, _| val(&Point::from_vector(v).to_vector().flat()), |m, _| Want::Val(words(m)));
}
fn point_num<E: El + Sg, const N: usize>(d: &mut Def<Point<E, N>, E>) {
    fn mk<E: El, const N: usize>(p: &Par<E>) -> Vector<E, N> {
        Vector::from(p.arr::<N>())
    }
    d.paired("+= Vector", |v, p| { let w = mk::<E, N>(p); if p.xi(4) % 2 == 0 { *v += w } else { *v += &w } Got::Done }, |v, p| { let w = mk::<E, N>(p); spell!(p.xi(3), v, +, w) }, |m, p| zip(m, &p.w, |a, b| a + b));
    d.paired("-= Vector", |v, p| { let w = mk::<E, N>(p); if p.xi(4) % 2 == 0 { *v -= w } else { *v -= &w } Got::Done }, |v, p| { let w = mk::<E, N>(p); spell!(p.xi(3), v, -, w) }, |m, p| zip(m, &p.w, |a, b| a - b));
    scalings!(d);
    casts!(d);
    d.read("p - q", 0, |v, p| { let q = Point::from(p.arr::<N>()); val(&spell!(p.xi(3), &*v, -, q).flat()) }, |m, p| { let t: Vec<E> = m.iter().zip(&p.w).map(|(a, b)| *a - *b).collect(); Want::Val(words(&t)) });
    d.read("to_vector()", 0, |v, _| val(&v.to_vector().flat()), |m, _| Want::Val(words(m)));
    d.edit("= from_vector", 0, |v, p| { *v = Point::from_vector(&mk::<E, N>(p)); Got::Done }, |m, p| { *m = p.vals(N); Want::Done });
}
fn complex_num<E: El + Sg>(d: &mut Def<Complex<E>, E>) {
    fn mk<E: El + Sc>(p: &Par<E>) -> Complex<E> {
        Complex::new(p.w[0], p.w[1])
    }
    sums!(d, 2, mk::<E>);
    scalings!(d);
    scalings_by_ref!(d);
    d.paired("+= S", |v, p| { if p.xi(4) % 2 == 0 { *v += p.s() } else { *v += &p.s() } Got::Done }, |v, p| match p.xi(3) % 4 { 0 => *v + p.s(), 1 => *v + &p.s(), 2 => v + p.s(), _ => v + &p.s() }, |m, p| { m[0] = m[0] + p.s(); Want::Done });
    d.paired("-= S", |v, p| { if p.xi(4) % 2 == 0 { *v -= p.s() } else { *v -= &p.s() } Got::Done }, |v, p| match p.xi(3) % 4 { 0 => *v - p.s(), 1 => *v - &p.s(), 2 => v - p.s(), _ => v - &p.s() }, |m, p| { m[0] = m[0] - p.s(); Want::Done });
    casts!(d);
    d.edit("= conjugate()", 0, |v, _| { *v = v.conjugate(); Got::Done }, |m, _| { m[1] = -m[1]; Want::Done });
    d.edit("= -z", 0, |v, p| { *v = if p.xi(3) % 2 == 0 { -*v } else { -&*v }; Got::Done }, |m, _| each(m, |a| -a));
    d.paired("*= Complex", |v, p| { let w = mk(p); if p.xi(4) % 2 == 0 { *v *= w } else { *v *= &w } Got::Done }, |v, p| { let w = mk(p); spell!(p.xi(3), v, *, w) }, |m, p| {
        let ok = ordinary(m) && ordinary(&p.w[..2]);
        let (a, b, c, e) = (m[0], m[1], p.w[0], p.w[1]);
        *m = vec![a * c - b * e, a * e + b * c];
        if !E::FLOAT { Want::Done } else if ok { Want::Near } else { Want::Any }
    });
}
fn complex_fl<E: El + Fl>(d: &mut Def<Complex<E>, E>) {
    fn mk<E: El + Sc>(p: &Par<E>) -> Complex<E> {
        Complex::new(p.w[0], p.w[1])
    }
    d.paired("/= Complex", |v, p| { let w = mk(p); if p.xi(4) % 2 == 0 { *v /= w } else { *v /= &w } Got::Done }, |v, p| { let w = mk(p); spell!(p.xi(3), v, /, w) }, |m, p| {
        let ok = ordinary(m) && ordinary(&p.w[..2]) && norm_of(&p.w[..2]) > 0.0;
        let (a, b, c, e) = (f(m[0]), f(m[1]), f(p.w[0]), f(p.w[1]));
        let q = c * c + e * e;
        *m = vec![E::e_of((a * c + b * e) / q), E::e_of((b * c - a * e) / q)];
        if ok { Want::Near } else { Want::Any }
    });
    normed!(d);
    d.read("try_inverse", 0, |v, _| match v.try_inverse() { Some(w) => val(&w.flat()), None => Got::Empty }, |m, _| {
        let (m, k) = match scaled_ints(m, 1000.0, 2) { Some(x) => x, None => return Want::Any };
        let (a, b) = (f(m[0]), f(m[1]));
        let q = (a * a + b * b) * 2f64.powi(k);
        if q == 0.0 { Want::Empty } else { Want::Tol(words(&[E::e_of(a / q), E::e_of(-b / q)])) }
    });
}
fn quat_num<E: El + Sg>(d: &mut Def<Quaternion<E>, E>) {
    fn mk<E: El + Sc>(p: &Par<E>) -> Quaternion<E> {
        Quaternion::new(p.w[0], p.w[1], p.w[2], p.w[3])
    }
    sums!(d, 4, mk::<E>);
    scalings!(d);
    casts!(d);
    d.paired("*= S (against q * &S)", |v, p| { *v *= p.s(); Got::Done }, |v, p| spell_s!(p.xi(3), v, *, &p.s()), |m, p| each(m, |a| a * p.s()));
    d.edit("= q / &S", 0, |v, p| { *v = spell_s!(p.xi(3), &*v, /, &dv(p)); Got::Done }, |m, p| { let r = ordinary(m) && ordinary(&[p.s()]); each(m, |a| a / dv(p)); if !E::FLOAT { Want::Done } else if r && f(p.s()) != 0.0 { Want::Near } else { Want::Any } });
    d.edit("= q % &S", 0, |v, p| { *v = spell_s!(p.xi(3), &*v, %, &dv(p)); Got::Done }, |m, p| each(m, |a| a % dv(p)));
    d.paired("conjugate_mut", |v, _| { v.conjugate_mut(); Got::Done }, |v, _| v.conjugate(), |m, _| { for a in m[1..].iter_mut() { *a = -*a; } Want::Done });
    d.edit("= -q", 0, |v, p| { *v = if p.xi(3) % 2 == 0 { -*v } else { -&*v }; Got::Done }, |m, _| each(m, |a| -a));
}
fn quat_fl<E: El + Fl>(d: &mut Def<Quaternion<E>, E>) {
    d.edit("= from(Vector4)", 0, |v, p| { let t = Vector4::from(p.arr::<4>()); *v = if p.xi(3) % 2 == 0 { Quaternion::from(t) } else { Quaternion::from(&t) }; Got::Done }, |m, p| { *m = p.vals(4); Want::Done });
    normed!(d);
    d.read("try_inverse", 0, |v, _| match v.try_inverse() { Some(w) => val(&w.flat()), None => Got::Empty }, |m, _| {
        let (m, k) = match scaled_ints(m, 1000.0, 2) { Some(x) => x, None => return Want::Any };
        let t: Vec<f64> = m.iter().map(|e| f(*e)).collect();
        let q: f64 = t.iter().map(|x| x * x).sum::<f64>() * 2f64.powi(k);
        if q == 0.0 { return Want::Empty; }
        // quaternions at or below the resolution of their scalar count as singular
        if k < if E::NAME == "f32" { -20 } else { -50 } { return Want::Any; }
        Want::Tol(words(&[E::e_of(t[0] / q), E::e_of(-t[1] / q), E::e_of(-t[2] / q), E::e_of(-t[3] / q)]))
    });
    d.read("div_left, div_right", 0, |v, p| {
        let w = divisor(p, 4);
        let w = Quaternion::new(w[0], w[1], w[2], w[3]);
        match if p.xi(1) % 2 == 0 { v.div_left(&w) } else { v.div_right(&w) } { Some(w) => val(&w.flat()), None => Got::Empty }
    }, |m, p| {
        let w = divisor(p, 4);
        if !small_ints(&w, 1000.0) || !ordinary(m) { return Want::Any; }
        if w.iter().all(|e| f(*e) == 0.0) { Want::Empty } else { Want::Some }
    });
}
/// A divisor for a request that is refused for zero: small whole numbers, often zero.
fn divisor<E: El>(p: &Par<E>, n: usize) -> Vec<E> {
    let k = p.xi(0);
    (0..n).map(|i| E::e_of(if k % 3 == 0 { 0.0 } else { ((k >> (4 + 3 * i)) % 8) as f64 - 3.0 + if i == 0 && k % 7 == 0 { 4.0 } else { 0.0 } })).collect()
}
fn mat_num<E: El + Sg, const R: usize, const C: usize>(d: &mut Def<Matrix<E, R, C>, E>) {
    fn mk<E: El, const R: usize, const C: usize>(p: &Par<E>) -> Matrix<E, R, C> {
        Matrix::from(core::array::from_fn::<[E; R], C, _>(|c| core::array::from_fn(|r| p.w[c * R + r])))
    }
    sums!(d, R * C, mk::<E, R, C>);
    scalings!(d);
    products!(d, R * C, mk::<E, R, C>);
    casts!(d);
    d.read("transpose()", 0, |v, _| val(&v.transpose().flat()), |m, _| { let mut o = vec![]; for r in 0..R { for c in 0..C { o.push(m[c * R + r].e_word()); } } Want::Val(o) });
    d.read("transpose().transpose()", 0, |v, _| val(&v.transpose().transpose().flat()), |m, _| Want::Val(words(m)));
}
fn sq_num<E: El + Sg, const N: usize>(d: &mut Def<Matrix<E, N, N>, E>) {
    d.paired("transpose_mut", |v, _| { v.transpose_mut(); Got::Done }, |v, _| v.transpose(), |m, _| { for c in 0..N { for r in 0..c { m.swap(c * N + r, r * N + c); } } Want::Done });
    d.read("diagonal()", 0, |v, _| val(&v.diagonal().flat()), |m, _| Want::Val((0..N).map(|i| m[i * N + i].e_word()).collect()));
    d.edit("= from_diagonal", 0, |v, p| { *v = Matrix::from_diagonal(&Vector::from(p.arr::<N>())); Got::Done }, |m, p| { m.fill(E::e_of(0.0)); for i in 0..N { m[i * N + i] = p.w[i]; } Want::Done });
    d.edit("= from_diagonal_value", 0, |v, p| { *v = Matrix::from_diagonal_value(p.s()); Got::Done }, |m, p| { m.fill(E::e_of(0.0)); for i in 0..N { m[i * N + i] = p.s(); } Want::Done });
    d.edit("= identity, zero", 0, |v, p| { *v = if p.xi(3) % 2 == 0 { Matrix::identity() } else { Matrix::zero() }; Got::Done }, |m, p| { m.fill(E::e_of(0.0)); if p.xi(3) % 2 == 0 { for i in 0..N { m[i * N + i] = E::e_of(1.0); } } Want::Done });
}
/// All components whole and small enough for exact determinants.
pub fn small_ints<E: El>(m: &[E], lim: f64) -> bool {
    let lim = if E::NAME == "f32" { lim.min(8.0) } else { lim };
    m.iter().all(|e| { let x = f(*e); x.fract() == 0.0 && x.abs() <= lim })
}
/// Components that are small whole numbers times one power of two: those numbers and the exponent.
/// `deg` is the degree of the products formed from them, which must neither overflow nor underflow.
pub fn scaled_ints<E: El>(m: &[E], lim: f64, deg: i32) -> Option<(Vec<E>, i32)> {
    let mut k = i32::MAX;
    for e in m {
        let x = f(*e);
        if !x.is_finite() || x != 0.0 && !x.is_normal() {
            return None;
        }
        if x != 0.0 {
            let b = x.to_bits();
            let frac = (b & ((1 << 52) - 1)) | 1 << 52;
            k = k.min(((b >> 52) & 0x7ff) as i32 - 1075 + frac.trailing_zeros() as i32);
        }
    }
    if k == i32::MAX || k >= 0 && small_ints(m, lim) {
        return if small_ints(m, lim) { Some((m.to_vec(), 0)) } else { None };
    }
    let bound = if E::NAME == "f32" { 80 } else { 800 };
    if (k * deg).abs() > bound || k.abs() > bound {
        return None;
    }
    let v: Vec<E> = m.iter().map(|e| E::e_of(f(*e) * 2f64.powi(-k))).collect();
    if small_ints(&v, lim) {
        Some((v, k))
    } else {
        None
    }
}
fn power<E: El>(p: &Par<E>) -> E {
    let k = if E::NAME == "f32" { [6, 14, 19, -6, -14, -19] } else { [8, 54, 130, -8, -54, -130] }[p.xi(0) as usize % 6];
    E::e_of(2f64.powi(k))
}
fn det_of(a: &[i128], n: usize) -> i128 {
    if n == 1 {
        return a[0];
    }
    let mut s = 0;
    for c in 0..n {
        s += if c % 2 == 0 { 1 } else { -1 } * a[c * n] * det_of(&minor(a, n, c, 0), n - 1);
    }
    s
}
fn minor(a: &[i128], n: usize, c0: usize, r0: usize) -> Vec<i128> {
    let mut o = vec![];
    for c in 0..n {
        for r in 0..n {
            if c != c0 && r != r0 {
                o.push(a[c * n + r]);
            }
        }
    }
    o
}
fn ints<E: El>(m: &[E]) -> Vec<i128> {
    m.iter().map(|e| f(*e) as i128).collect()
}
/// What the optional inverse has to give, where that can be decided exactly.
fn inverse_want<E: El>(m: &[E], n: usize) -> Want {
    let (m, k2) = match scaled_ints(m, 40.0, n as i32) {
        Some(x) => x,
        None => return Want::Any,
    };
    let a = ints(&m);
    let d = det_of(&a, n);
    if d == 0 {
        return Want::Empty;
    }
    let mut o = vec![E::e_of(0.0); n * n];
    for c in 0..n {
        for r in 0..n {
            let k = if n == 1 { 1 } else { det_of(&minor(&a, n, c, r), n - 1) };
            let k = if (c + r) % 2 == 0 { k } else { -k };
            // the cofactor of (c, r) goes to (r, c)
            o[r * n + c] = E::e_of(k as f64 / d as f64 * 2f64.powi(-k2));
        }
    }
    Want::Tol(words(&o))
}
macro_rules! square_fl {
    ($d:ident, $n:expr) => {
        $d.read("try_inverse", 0, |v, _| match v.try_inverse() { Some(w) => val(&w.flat()), None => Got::Empty }, |m, _| inverse_want(m, $n));
        $d.read("is_invertible", 0, |v, _| Got::Val(vec![v.is_invertible() as u64]), |m, _| if !small_ints(m, 40.0) { Want::Any } else { match inverse_want(m, $n) { Want::Any => Want::Any, Want::Empty => Want::Val(vec![0]), _ => Want::Val(vec![1]) } });
        $d.read("determinant", 0, |v, _| val(&[v.determinant()]), |m, _| if small_ints(m, 40.0) { Want::Val(words(&[E::e_of(det_of(&ints(m), $n) as f64)])) } else { Want::Any });
        // a request that is refused for exactly these matrices: equal or multiple columns or rows, or a zero one
        $d.edit("make singular", 0, |v, p| {
            let (a, b) = (p.xi(0) as usize % $n, p.xi(1) as usize % $n);
            let k = E::e_of((p.xi(2) % 3) as f64 - 1.0);
            if p.xi(3) % 2 == 0 {
                for i in 0..$n { let e = if a == b { E::e_of(0.0) } else { v[a][i] * k }; v[b][i] = e; }
            } else {
                for i in 0..$n { let e = if a == b { E::e_of(0.0) } else { v[i][a] * k }; v[i][b] = e; }
            }
            Got::Done
        }, |m, p| {
            let (a, b) = (p.xi(0) as usize % $n, p.xi(1) as usize % $n);
            let k = E::e_of((p.xi(2) % 3) as f64 - 1.0);
            for i in 0..$n {
                let (s, t) = if p.xi(3) % 2 == 0 { (a * $n + i, b * $n + i) } else { (i * $n + a, i * $n + b) };
                m[t] = if a == b { E::e_of(0.0) } else { m[s] * k };
            }
            Want::Done
        });
    };
}
/// What thresholds a normalisation is tried with, and whether it has to be refused.
fn threshold<E: El>(m: &[E], p: &Par<E>) -> (E, Option<bool>) {
    let n = norm_of(m);
    let ok = ordinary(m);
    let k = p.xi(1) % 11;
    match k {
        // a norm is never at or below a negative number, and always at or below infinity
        9 => return (E::e_of(if n.is_finite() && n > 0.0 { -n * 0.75 } else { -1.0 }), if ok && n > 0.0 { Some(false) } else { None }),
        10 => return (E::e_of(f64::INFINITY), if ok { Some(true) } else { None }),
        _ => {}
    }
    let (t, r) = match k {
        0 => (n * 0.5, n == 0.0),
        1 => (n * 2.0, true),
        2 => (0.0, n == 0.0),
        3 => (n * 1.01, true),
        4 => (n * 0.99, n == 0.0),
        5 => (1.0, n <= 1.0),
        6 => (1e-3, n <= 1e-3),
        _ => match exact_norm(m) {
            Some(e) => (e, true),
            None => (n * 1.5, true),
        },
    };
    let clear = k != 5 && k != 6 || (n / t - 1.0).abs() > 1e-3 || exact_norm(m).is_some() && k == 5;
    (E::e_of(if t.is_finite() { t } else { 1.0 }), if ok && clear && (t == 0.0 || n == 0.0 || ordinary(&[E::e_of(t)])) { Some(r) } else { None })
}
fn normalised<E: El>(m: &mut Vec<E>) {
    let n = norm_of(m);
    each(m, |a| E::e_of(f(a) / n));
}
/// Contents whose norm is exact: axis vectors, 3-4-5 triples, zero.
fn axis_words<E: El>(p: &Par<E>, n: usize) -> Vec<E> {
    let mut w = vec![E::e_of(0.0); n];
    let (i, j) = (p.xi(0) as usize % n, p.xi(2) as usize % n);
    match p.xi(3) % 4 {
        0 => {}
        1 => w[i] = E::e_of((p.xi(4) % 9) as f64 - 4.0),
        _ => {
            w[i] = E::e_of(if p.xi(4) % 2 == 0 { 3.0 } else { -3.0 });
            if i != j {
                w[j] = E::e_of(if p.xi(4) % 3 == 0 { 4.0 } else { -4.0 });
            }
        }
    }
    w
}
/// A cast has to be refused exactly when the whole part of some component does not fit.
fn cast_want<E: El>(m: &[E], lo: f64, hi: f64) -> Want {
    let mut o = vec![];
    for e in m {
        let x = f(*e);
        if !x.is_finite() || x.trunc() < lo || x.trunc() > hi {
            return Want::Empty;
        }
        o.push(x.trunc() as i64 as u64);
    }
    Want::Val(o)
}
fn int_want(w: Want) -> Want {
    match w {
        Want::Val(v) => Want::Ints(v),
        w => w,
    }
}
fn limit_word<E: El>(p: &Par<E>) -> E {
    let l = [127.0, -128.0, 255.0, 0.0, 32767.0, -32768.0, 65535.0, 2147483647.0, -2147483648.0, 4294967295.0];
    let d = [0.0, 0.5, -0.5, 1.0, -1.0, 0.999, -0.999, 1.001, -1.001];
    let x = l[p.xi(1) as usize % l.len()] + d[p.xi(2) as usize % d.len()];
    E::e_of(if p.xi(3) % 37 == 0 { f64::NAN } else if p.xi(3) % 41 == 0 { f64::INFINITY } else { x })
}
fn vec4_toq<E: El + Fl>(d: &mut Def<Vector4<E>, E>) {
    d.read("Quaternion::from(v)", 0, |v, p| val(&if p.xi(3) % 2 == 0 { Quaternion::from(*v) } else { Quaternion::from(&*v) }.flat()), |m, _| Want::Val(words(m)));
}
fn vec_fl<E: El + Fl, const N: usize>(d: &mut Def<Vector<E, N>, E>) {
    normed!(d);
}
fn point_fl<E: El + Fl, const N: usize>(d: &mut Def<Point<E, N>, E>) {
    normed!(d);
}
fn mat_fl<E: El + Fl, const R: usize, const C: usize>(d: &mut Def<Matrix<E, R, C>, E>) {
    normed!(d);
}
/// Requests between neighbouring dimensions.
macro_rules! grow {
    ($d:ident, $V:ident, $n:literal, $W:ident) => {
        $d.read("extend(s)", 0, |v, p| val(&v.extend(p.s()).flat()), |m, p| { let mut t = m.clone(); t.push(p.s()); Want::Val(words(&t)) });
        $d.read("extend(s).contract()", 0, |v, p| val(&v.extend(p.s()).contract().flat()), |m, _| Want::Val(words(m)));
    };
}
macro_rules! shrink {
    ($d:ident) => {
        $d.read("contract()", 0, |v, _| val(&v.contract().flat()), |m, _| Want::Val(words(&m[..m.len() - 1])));
    };
}
macro_rules! homog_up {
    ($d:ident, $last:expr) => {
        $d.read("to_homogeneous()", 0, |v, _| val(&v.to_homogeneous().flat()), |m, _| { let mut t = m.clone(); t.push(E::e_of($last)); Want::Val(words(&t)) });
    };
}
macro_rules! homog_down {
    ($d:ident, $P:ident) => {
        $d.read("from_homogeneous()", 0, |v, _| match v.from_homogeneous() { Some(w) => val(&w.flat()), None => Got::Empty }, |m, _| { let l = f(m[m.len() - 1]); if l.is_nan() { Want::Any } else if l != 0.0 { Want::Empty } else { Want::Val(words(&m[..m.len() - 1])) } });
        $d.read("Point::from_homogeneous(v)", 0, |v, _| match $P::from_homogeneous(v) { Some(w) => val(&w.flat()), None => Got::Empty }, |m, _| {
            let l = f(m[m.len() - 1]);
            if l.is_nan() { return Want::Any; }
            if l == 0.0 { return Want::Empty; }
            let t: Vec<E> = m[..m.len() - 1].iter().map(|a| E::e_of(f(*a) / l)).collect();
            if E::FLOAT && ordinary(m) { Want::Tol(words(&t)) } else { Want::Some }
        });
        $d.edit("last = 0", 0, |v, p| { let n = v.flat().len(); v.put(n - 1, E::e_of(if p.xi(0) % 2 == 0 { 0.0 } else { -0.0 })); Got::Done }, |m, _| { let n = m.len(); m[n - 1] = E::e_of(0.0); Want::Done });
    };
}
macro_rules! embed {
    ($d:ident, $n:literal, $W:ident, $k:literal) => {
        $d.read(concat!(stringify!($W), "::from(m)"), 0, |v, p| val(&if p.xi(3) % 2 == 0 { $W::from(*v) } else { $W::from(&*v) }.flat()), |m, _| {
            let mut t = vec![E::e_of(0.0); $k * $k];
            for c in 0..$k { for r in 0..$k { t[c * $k + r] = if c < $n && r < $n { m[c * $n + r] } else if c == r { E::e_of(1.0) } else { E::e_of(0.0) }; } }
            Want::Val(words(&t))
        });
    };
}
fn tamed<E: El>(e: E) -> f64 {
    let x = f(e);
    if x.is_finite() && x.abs() < 1e3 && (x == 0.0 || x.abs() > 1e-3) {
        x
    } else {
        0.5
    }
}
fn rot2<E: El + Fl>(w: &[E]) -> Rotation2<E> {
    Rotation2::from_angle(Radians(E::e_of(tamed(w[0]))))
}
fn rot3<E: El + Fl>(w: &[E]) -> Rotation3<E> {
    let mut a = [tamed(w[1]), tamed(w[2]), tamed(w[3])];
    if a.iter().all(|x| x.abs() < 1e-3) {
        a = [1.0, 0.0, 0.0];
    }
    let n = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt();
    let u = Unit::from_value_unchecked(Vector3::new(E::e_of(a[0] / n), E::e_of(a[1] / n), E::e_of(a[2] / n)));
    Rotation3::from_axis_angle(&u, Radians(E::e_of(tamed(w[0]))))
}
fn tr<E: El + Fl, const N: usize>(w: &[E]) -> Translation<E, N> {
    Translation::from_vector(&Vector::from(core::array::from_fn::<E, N, _>(|i| E::e_of(tamed(w[4 + i])))))
}
fn sc_of<E: El>(w: &[E]) -> E {
    let x = tamed(w[7]);
    E::e_of(if x.abs() < 1e-2 || x.abs() > 100.0 { 2.0 } else { x })
}
fn mul_m(a: &[f64], b: &[f64], n: usize) -> Vec<f64> {
    let mut o = vec![0.0; n * n];
    for c in 0..n {
        for r in 0..n {
            o[c * n + r] = (0..n).map(|k| a[k * n + r] * b[c * n + k]).sum();
        }
    }
    o
}
fn mul_v(a: &[f64], b: &[f64], n: usize) -> Vec<f64> {
    (0..n).map(|r| (0..n).map(|k| a[k * n + r] * b[k]).sum()).collect()
}
fn tp(a: &[f64], n: usize) -> Vec<f64> {
    (0..n * n).map(|i| a[(i % n) * n + i / n]).collect()
}
fn fs<E: El>(m: &[E]) -> Vec<f64> {
    m.iter().map(|e| f(*e)).collect()
}
fn es<E: El>(m: &[f64]) -> Vec<E> {
    m.iter().map(|x| E::e_of(*x)).collect()
}
/// The affine matrix of translation t, linear part a.
fn affine(t: &[f64], a: &[f64], n: usize) -> Vec<f64> {
    let mut o = vec![];
    for c in 0..n {
        o.extend_from_slice(&a[c * n..(c + 1) * n]);
        o.push(0.0);
    }
    o.extend_from_slice(t);
    o.push(1.0);
    o
}
macro_rules! trafo {
    ($n:literal, $fnname:ident, $rot:ident, $T:ident, $R:ident, $I:ident, $S:ident, $X:ident, $M:ident, $P:ident, $V:ident) => {
        fn $fnname<E: El + Fl>(out: &mut Vec<&'static dyn Subject>) {
            const N: usize = $n;
            // translations
            let mut d: Def<$T<E>, E> = Def { name: format!("{}<{}>", stringify!($T), E::NAME), n: N, make: |w: &[E]| Translation::from_vector(&Vector::from(core::array::from_fn::<E, N, _>(|i| w[i]))), get: |v: &$T<E>| v.vector().flat(), reqs: vec![], tame: false, tol: false };
            d.paired("inverse_mut", |v, _| { v.inverse_mut(); Got::Done }, |v, _| v.inverse(), |m, _| each(m, |a| -a));
            d.edit("= from_vector", 0, |v, p| { *v = Translation::from_vector(&Vector::from(p.arr::<N>())); Got::Done }, |m, p| { *m = p.vals(N); Want::Done });
            d.edit("= t * u", 0, |v, p| { let w = Translation::from_vector(&Vector::from(p.arr::<N>())); *v = spell!(p.xi(3), &*v, *, w); Got::Done }, |m, p| { let ok = ordinary(m) && ordinary(&p.w[..N]); zip(m, &p.w, |a, b| a + b); if ok { Want::Near } else { Want::Any } });
            d.read("vector(), to_vector(), as_ref()", 0, |v, _| { let mut o = words(&v.vector().flat()); o.extend(words(&v.to_vector().flat())); let r: &Vector<E, N> = v.as_ref(); o.extend(words(&r.flat())); Got::Val(o) }, |m, _| { let mut o = words(m); o.extend(words(m)); o.extend(words(m)); Want::Val(o) });
            d.read("to_affine_matrix()", 0, |v, p| { let t = match p.xi(3) % 4 { 0 => v.to_affine_matrix(), 1 => $M::from(*v), 2 => $M::from(&*v), _ => v.to_transform().to_matrix() }; val(&t.flat()) }, |m, _| { let mut id = vec![0.0; N * N]; for i in 0..N { id[i * N + i] = 1.0; } Want::Val(words(&es::<E>(&affine(&fs(m), &id, N)))) });
            out.push(Box::leak(Box::new(d)));
            // rotations
            let mut d: Def<$R<E>, E> = Def { name: format!("{}<{}>", stringify!($R), E::NAME), n: N * N, make: |w: &[E]| $rot(w), get: |v: &$R<E>| v.matrix().flat(), reqs: vec![], tame: true, tol: true };
            d.paired("inverse_mut", |v, _| { v.inverse_mut(); Got::Done }, |v, _| v.inverse(), |m, _| { *m = es(&tp(&fs(m), N)); Want::Near });
            d.edit("= from_angle", 0, |v, p| { *v = $rot(&p.w); Got::Done }, |m, p| { *m = $rot(&p.w).matrix().flat(); Want::Near });
            d.edit("= r * q", 0, |v, p| { let w = $rot(&p.w); *v = spell!(p.xi(3), &*v, *, w); Got::Done }, |m, p| { let w = fs(&$rot(&p.w).matrix().flat()); *m = es(&mul_m(&fs(m), &w, N)); Want::Near });
            d.read("matrix(), to_matrix(), as_ref()", 0, |v, _| { let mut o = words(&v.matrix().flat()); o.extend(words(&v.to_matrix().flat())); let r: &Matrix<E, N, N> = v.as_ref(); o.extend(words(&r.flat())); Got::Val(o) }, |m, _| { let mut o = words(m); o.extend(words(m)); o.extend(words(m)); Want::Tol(o) });
            d.read("to_affine_matrix()", 0, |v, p| { let t = match p.xi(3) % 4 { 0 => v.to_affine_matrix(), 1 => $M::from(*v), 2 => $M::from(&*v), _ => v.to_transform().to_matrix() }; val(&t.flat()) }, |m, _| Want::Tol(words(&es::<E>(&affine(&[0.0; N], &fs(m), N)))));
            out.push(Box::leak(Box::new(d)));
            // isometries: translation, then rotation
            let mut d: Def<$I<E>, E> = Def { name: format!("{}<{}>", stringify!($I), E::NAME), n: N + N * N, make: |w: &[E]| $I::from_parts(&tr::<E, N>(&par_words(w)), &$rot(w)), get: |v: &$I<E>| { let mut o = v.translation().vector().flat(); o.extend_from_slice(&v.rotation().matrix().flat()); o }, reqs: vec![], tame: true, tol: true };
            d.paired("inverse_mut", |v, _| { v.inverse_mut(); Got::Done }, |v, _| v.inverse(), |m, _| { let g = fs(m); let rt = tp(&g[N..], N); let t: Vec<f64> = mul_v(&rt, &g[..N], N).iter().map(|x| -x).collect(); *m = es(&[t, rt].concat()); Want::Near });
            d.edit("= from_parts", 0, |v, p| { *v = $I::from_parts(&tr::<E, N>(&p.w), &$rot(&p.w)); Got::Done }, |m, p| { *m = [tr::<E, N>(&p.w).vector().flat(), $rot(&p.w).matrix().flat()].concat(); Want::Near });
            d.edit("= i * j", 0, |v, p| { let w = $I::from_parts(&tr::<E, N>(&p.w), &$rot(&p.w)); *v = spell!(p.xi(3), &*v, *, w); Got::Done }, |m, p| { let g = fs(m); let q = fs(&$rot(&p.w).matrix().flat()); let u = fs(&tr::<E, N>(&p.w).vector().flat()); let mut t = mul_v(&g[N..], &u, N); for i in 0..N { t[i] += g[i]; } *m = es(&[t, mul_m(&g[N..], &q, N)].concat()); if ordinary(&m[..N]) || m[..N].iter().all(|e| f(*e).abs() < 1e6) { Want::Near } else { Want::Any } });
            d.read("to_affine_matrix()", 0, |v, p| { let t = match p.xi(3) % 4 { 0 => v.to_affine_matrix(), 1 => $M::from(*v), 2 => $M::from(&*v), _ => v.to_transform().to_matrix() }; val(&t.flat()) }, |m, _| { let g = fs(m); Want::Tol(words(&es::<E>(&affine(&g[..N], &g[N..], N)))) });
            out.push(Box::leak(Box::new(d)));
            // similarities: translation, rotation, scale
            let mut d: Def<$S<E>, E> = Def { name: format!("{}<{}>", stringify!($S), E::NAME), n: N + N * N + 1, make: |w: &[E]| $S::from_parts(&tr::<E, N>(&par_words(w)), &$rot(w), sc_of(&par_words(w))), get: |v: &$S<E>| { let mut o = v.translation().vector().flat(); o.extend_from_slice(&v.rotation().matrix().flat()); o.push(v.scale()); o }, reqs: vec![], tame: true, tol: true };
            d.paired("inverse_mut", |v, _| { v.inverse_mut(); Got::Done }, |v, _| v.inverse(), |m, _| { let g = fs(m); let s = 1.0 / g[N + N * N]; let rt = tp(&g[N..N + N * N], N); let t: Vec<f64> = mul_v(&rt, &g[..N], N).iter().map(|x| -x * s).collect(); *m = es(&[t, rt, vec![s]].concat()); Want::Near });
            d.edit("= from_parts", 0, |v, p| { *v = $S::from_parts(&tr::<E, N>(&p.w), &$rot(&p.w), sc_of(&p.w)); Got::Done }, |m, p| { *m = [tr::<E, N>(&p.w).vector().flat(), $rot(&p.w).matrix().flat(), vec![sc_of(&p.w)]].concat(); Want::Near });
            d.read("to_affine_matrix()", 0, |v, p| { let t = match p.xi(3) % 4 { 0 => v.to_affine_matrix(), 1 => $M::from(*v), 2 => $M::from(&*v), _ => v.to_transform().to_matrix() }; val(&t.flat()) }, |m, _| { let g = fs(m); let s = g[N + N * N]; let a: Vec<f64> = g[N..N + N * N].iter().map(|x| x * s).collect(); Want::Tol(words(&es::<E>(&affine(&g[..N], &a, N)))) });
            out.push(Box::leak(Box::new(d)));
            // general transformations
            let mut d: Def<$X<E>, E> = Def { name: format!("{}<{}>", stringify!($X), E::NAME), n: (N + 1) * (N + 1), make: |w: &[E]| $X::from_matrix_unchecked($M::from(core::array::from_fn::<[E; N + 1], { N + 1 }, _>(|c| core::array::from_fn(|r| w[c * (N + 1) + r])))), get: |v: &$X<E>| v.matrix().flat(), reqs: vec![], tame: false, tol: false };
            const K: usize = N + 1;
            d.edit("matrix_mut()[c][r] =", 2, |v, p| { let (c, r) = (p.ix(0, K), p.ix(1, K)); v.matrix_mut()[c][r] = p.s(); Got::Done }, |m, p| { let (c, r) = (p.ix(0, K), p.ix(1, K)); if c >= K || r >= K { return Want::Panic; } m[c * K + r] = p.s(); Want::Done });
            d.edit("matrix_mut() =", 0, |v, p| { *v.matrix_mut() = $M::from(core::array::from_fn::<[E; K], K, _>(|c| core::array::from_fn(|r| p.w[c * K + r]))); Got::Done }, |m, p| { *m = p.vals(K * K); Want::Done });
            d.edit("matrix_mut().swap_rows", 2, |v, p| { v.matrix_mut().swap_rows(p.ix(0, K), p.ix(1, K)); Got::Done }, |m, p| { let (a, b) = (p.ix(0, K), p.ix(1, K)); if a >= K || b >= K { return Want::Panic; } for c in 0..K { m.swap(c * K + a, c * K + b); } Want::Done });
            d.edit("matrix_mut().transpose_mut()", 0, |v, _| { v.matrix_mut().transpose_mut(); Got::Done }, |m, _| { for c in 0..K { for r in 0..c { m.swap(c * K + r, r * K + c); } } Want::Done });
            d.edit("= identity", 0, |v, _| { *v = $X::identity(); Got::Done }, |m, _| { for c in 0..K { for r in 0..K { m[c * K + r] = E::e_of((c == r) as u64 as f64); } } Want::Done });
            d.edit("= small whole numbers", 0, |v, p| { *v.matrix_mut() = $M::from(core::array::from_fn::<[E; K], K, _>(|c| core::array::from_fn(|r| small(p, c * K + r)))); Got::Done }, |m, p| { *m = (0..K * K).map(|i| small(p, i)).collect(); Want::Done });
            d.edit("times a power of two", 0, |v, p| { for c in 0..K { for r in 0..K { v.matrix_mut()[c][r] *= power::<E>(p); } } Got::Done }, |m, p| { each(m, |a| a * power::<E>(p)) });
            d.read("matrix(), to_matrix(), as_ref(), from", 0, |v, _| { let mut o = words(&v.matrix().flat()); o.extend(words(&v.to_matrix().flat())); let r: &$M<E> = v.as_ref(); o.extend(words(&r.flat())); o.extend(words(&$M::from(*v).flat())); o.extend(words(&$M::from(&*v).flat())); Got::Val(o) }, |m, _| { let mut o = words(m); for _ in 0..4 { o.extend(words(m)); } Want::Val(o) });
            d.read("try_inverse", 0, |v, _| match v.try_inverse() { Some(w) => val(&w.matrix().flat()), None => Got::Empty }, |m, _| inverse_want(m, K));
            d.read("inverse_apply_vector", 0, |v, p| match v.inverse_apply_vector(&$V::from(p.arr::<N>())) { Some(w) => val(&w.flat()), None => Got::Empty }, |m, _| match inverse_want(m, K) { Want::Tol(_) => Want::Some, w => w });
            d.read("inverse_apply_point", 0, |v, p| match v.inverse_apply_point(&$P::from(p.arr::<N>())) { Some(w) => val(&w.flat()), None => Got::Empty }, |m, _| match inverse_want(m, K) { Want::Tol(_) => Want::Any, w => w });
            out.push(Box::leak(Box::new(d)));
        }
    };
}
fn small<E: El>(p: &Par<E>, i: usize) -> E {
    E::e_of((crate::rng::mix(p.xi(0) ^ (i as u64) << 7) % 9) as f64 - 4.0)
}
/// `make` gets as many words as there are components; the parts look at up to eight.
fn par_words<E: El>(w: &[E]) -> Vec<E> {
    (0..8).map(|i| w[i % w.len()]).collect()
}
trafo!(2, trafo2, rot2, Translation2, Rotation2, Isometry2, Similarity2, Transform2, Matrix3x3, Point2, Vector2);
trafo!(3, trafo3, rot3, Translation3, Rotation3, Isometry3, Similarity3, Transform3, Matrix4x4, Point3, Vector3);

macro_rules! angle_def {
    ($f:ident, $A:ident) => {
        fn $f<E: El + Fl>() -> Def<$A<E>, E> {
            let mut d: Def<$A<E>, E> = Def { name: format!("{}<{}>", stringify!($A), E::NAME), n: 1, make: |w: &[E]| $A(w[0]), get: |v: &$A<E>| vec![v.0], reqs: vec![], tame: false, tol: false };
            d.paired("+=", |v, p| { *v += $A(p.s()); Got::Done }, |v, p| spell!(p.xi(3), v, +, $A(p.s())), |m, p| each(m, |a| a + p.s()));
            d.paired("-=", |v, p| { *v -= $A(p.s()); Got::Done }, |v, p| spell!(p.xi(3), v, -, $A(p.s())), |m, p| each(m, |a| a - p.s()));
            d.paired("*= S", |v, p| { *v *= p.s(); Got::Done }, |v, p| spell_s!(p.xi(3), v, *, p.s()), |m, p| each(m, |a| a * p.s()));
            d.paired("/= S", |v, p| { *v /= p.s(); Got::Done }, |v, p| spell_s!(p.xi(3), v, /, p.s()), |m, p| { let r = ordinary(m) && ordinary(&[p.s()]) && f(p.s()) != 0.0; each(m, |a| a / p.s()); if r { Want::Near } else { Want::Any } });
            d.paired("%= angle", |v, p| { *v %= $A(p.s()); Got::Done }, |v, p| spell!(p.xi(3), v, %, $A(p.s())), |m, p| each(m, |a| a % p.s()));
            d.edit("= -a", 0, |v, p| { *v = if p.xi(3) % 2 == 0 { -*v } else { -&*v }; Got::Done }, |m, _| each(m, |a| -a));
            d.edit(".0 =", 0, |v, p| { v.0 = p.s(); Got::Done }, |m, p| { m[0] = p.s(); Want::Done });
            d.read("angle / angle", 0, |v, p| val(&[*v / $A(p.s())]), |m, p| if ordinary(m) && ordinary(&[p.s()]) && f(p.s()) != 0.0 { Want::Tol(words(&[m[0] / p.s()])) } else { Want::Any });
            d.read("clone()", 0, |v, _| val(&[v.clone().0]), |m, _| Want::Val(words(m)));
            d.read("==", 0, |v, p| Got::Val(vec![(*v == $A(p.s())) as u64, (*v != $A(p.s())) as u64]), |m, p| Want::Val(vec![(m[0] == p.s()) as u64, (m[0] != p.s()) as u64]));
            d
        }
    };
}
angle_def!(radians_def, Radians);
angle_def!(degrees_def, Degrees);
fn quat_into3<E: El + Fl>(d: &mut Def<Matrix3x3<E>, E>) {
    d.paired("= q.to_matrix_mut", |v, p| { let q = Quaternion::new(p.w[0], p.w[1], p.w[2], p.w[3]); q.to_matrix_mut(v); Got::Done }, |_, p| Quaternion::new(p.w[0], p.w[1], p.w[2], p.w[3]).to_matrix(), |m, p| { let q = Quaternion::new(p.w[0], p.w[1], p.w[2], p.w[3]); *m = q.to_matrix().flat(); if ordinary(&p.w[..4]) { Want::Near } else { Want::Any } });
}
fn quat_into4<E: El + Fl>(d: &mut Def<Matrix4x4<E>, E>) {
    d.paired("= q.to_affine_matrix_mut", |v, p| { let q = Quaternion::new(p.w[0], p.w[1], p.w[2], p.w[3]); q.to_affine_matrix_mut(v); Got::Done }, |_, p| Quaternion::new(p.w[0], p.w[1], p.w[2], p.w[3]).to_affine_matrix(), |m, p| { let q = Quaternion::new(p.w[0], p.w[1], p.w[2], p.w[3]); *m = q.to_affine_matrix().flat(); if ordinary(&p.w[..4]) { Want::Near } else { Want::Any } });
}
fn leak<V: Copy + PartialEq + 'static, E: El>(out: &mut Vec<&'static dyn Subject>, d: Def<V, E>) {
    out.push(Box::leak(Box::new(d)));
}
/// 0: structure only, 1: signed arithmetic, 2: floating point
macro_rules! level {
    (tag, $($t:tt)*) => {};
    (num, num: $($t:tt)*) => { $($t)* };
    (num, fl: $($t:tt)*) => {};
    (fl, $k:ident: $($t:tt)*) => { $($t)* };
}
macro_rules! kind {
    ($out:ident, $E:ty, $lv:ident) => {{
        type E = $E;
        macro_rules! m {
            ($f:ident, $r:literal, $c:literal) => {{
                let mut d = mat_def::<E, $r, $c>();
                vg::$f(&mut d); common!(d, ($r * $c));
                level!($lv, num: mat_num::<E, $r, $c>(&mut d););
                level!($lv, fl: mat_fl::<E, $r, $c>(&mut d););
                leak($out, d);
            }};
        }
        {
            let mut d = vec_def::<E, 1>();
            vg::vector1(&mut d);
            level!($lv, num: vec_num::<E, 1>(&mut d); grow!(d, Vector1, 1, Vector2); homog_up!(d, 0.0););
            level!($lv, fl: vec_fl::<E, 1>(&mut d););
            leak($out, d);
            let mut d = vec_def::<E, 2>();
            vg::vector2(&mut d);
            level!($lv, num: vec_num::<E, 2>(&mut d); grow!(d, Vector2, 2, Vector3); shrink!(d); homog_up!(d, 0.0); homog_down!(d, Point1););
            level!($lv, fl: vec_fl::<E, 2>(&mut d););
            leak($out, d);
            let mut d = vec_def::<E, 3>();
            vg::vector3(&mut d);
            level!($lv, num: vec_num::<E, 3>(&mut d); grow!(d, Vector3, 3, Vector4); shrink!(d); homog_up!(d, 0.0); homog_down!(d, Point2););
            level!($lv, fl: vec_fl::<E, 3>(&mut d););
            leak($out, d);
            let mut d = vec_def::<E, 4>();
            vg::vector4(&mut d);
            level!($lv, num: vec_num::<E, 4>(&mut d); shrink!(d); homog_down!(d, Point3); vec4_to3(&mut d););
            level!($lv, fl: vec_fl::<E, 4>(&mut d); vec4_toq(&mut d););
            leak($out, d);
            macro_rules! big_vec {
                ($n:literal) => {{
                    let mut d = vec_def::<E, $n>();
                    level!($lv, num: vec_num::<E, $n>(&mut d););
                    level!($lv, fl: vec_fl::<E, $n>(&mut d););
                    leak($out, d);
                }};
            }
            big_vec!(5);
            big_vec!(9);
            big_vec!(17);
            {
                let mut d = point_def::<E, 6>();
                level!($lv, num: point_num::<E, 6>(&mut d););
                level!($lv, fl: point_fl::<E, 6>(&mut d););
                leak($out, d);
            }
            {
                let mut d = mat_def::<E, 5, 5>();
                level!($lv, num: mat_num::<E, 5, 5>(&mut d); sq_num::<E, 5>(&mut d););
                level!($lv, fl: mat_fl::<E, 5, 5>(&mut d););
                leak($out, d);
            }
            {
                let mut d = mat_def::<E, 7, 7>();
                level!($lv, num: mat_num::<E, 7, 7>(&mut d); sq_num::<E, 7>(&mut d););
                level!($lv, fl: mat_fl::<E, 7, 7>(&mut d););
                leak($out, d);
            }
            {
                let mut d = mat_def::<E, 2, 6>();
                level!($lv, num: mat_num::<E, 2, 6>(&mut d););
                level!($lv, fl: mat_fl::<E, 2, 6>(&mut d););
                leak($out, d);
            }
            {
                let mut d = mat_def::<E, 6, 2>();
                level!($lv, num: mat_num::<E, 6, 2>(&mut d););
                level!($lv, fl: mat_fl::<E, 6, 2>(&mut d););
                leak($out, d);
            }
            {
                let mut d = mat_def::<E, 4, 1>();
                common!(d, 4);
                level!($lv, num: mat_num::<E, 4, 1>(&mut d););
                level!($lv, fl: mat_fl::<E, 4, 1>(&mut d););
                leak($out, d);
            }
            let mut d = point_def::<E, 1>();
            vg::point1(&mut d);
            level!($lv, num: point_num::<E, 1>(&mut d); grow!(d, Point1, 1, Point2); homog_up!(d, 1.0););
            level!($lv, fl: point_fl::<E, 1>(&mut d););
            leak($out, d);
            let mut d = point_def::<E, 2>();
            vg::point2(&mut d);
            level!($lv, num: point_num::<E, 2>(&mut d); grow!(d, Point2, 2, Point3); shrink!(d); homog_up!(d, 1.0););
            level!($lv, fl: point_fl::<E, 2>(&mut d););
            leak($out, d);
            let mut d = point_def::<E, 3>();
            vg::point3(&mut d);
            level!($lv, num: point_num::<E, 3>(&mut d); shrink!(d); homog_up!(d, 1.0););
            level!($lv, fl: point_fl::<E, 3>(&mut d););
            leak($out, d);
            level!($lv, num: {
            let mut d = complex_def::<E>();
            complex_num::<E>(&mut d);
            level!($lv, fl: complex_fl::<E>(&mut d););
            leak($out, d);
            });
            level!($lv, num: {
            let mut d = quat_def::<E>();
            quat_num::<E>(&mut d);
            level!($lv, fl: quat_fl::<E>(&mut d););
            leak($out, d);
            });
            let mut d = mat_def::<E, 1, 1>();
            vg::matrix1x1(&mut d); common!(d, 1);
            level!($lv, num: mat_num::<E, 1, 1>(&mut d); sq_num::<E, 1>(&mut d););
            level!($lv, fl: mat_fl::<E, 1, 1>(&mut d); square_fl!(d, 1););
            leak($out, d);
            let mut d = mat_def::<E, 2, 2>();
            vg::matrix2x2(&mut d); common!(d, 4);
            level!($lv, num: mat_num::<E, 2, 2>(&mut d); sq_num::<E, 2>(&mut d); embed!(d, 2, Matrix3x3, 3); embed!(d, 2, Matrix4x4, 4););
            level!($lv, fl: mat_fl::<E, 2, 2>(&mut d); square_fl!(d, 2););
            leak($out, d);
            let mut d = mat_def::<E, 3, 3>();
            vg::matrix3x3(&mut d); common!(d, 9);
            level!($lv, num: mat_num::<E, 3, 3>(&mut d); sq_num::<E, 3>(&mut d); embed!(d, 3, Matrix4x4, 4););
            level!($lv, fl: mat_fl::<E, 3, 3>(&mut d); square_fl!(d, 3); quat_into3(&mut d););
            leak($out, d);
            let mut d = mat_def::<E, 4, 4>();
            vg::matrix4x4(&mut d); common!(d, 16);
            level!($lv, num: mat_num::<E, 4, 4>(&mut d); sq_num::<E, 4>(&mut d););
            level!($lv, fl: mat_fl::<E, 4, 4>(&mut d); square_fl!(d, 4); quat_into4(&mut d););
            leak($out, d);
            m!(matrix1x2, 1, 2);
            m!(matrix1x3, 1, 3);
            m!(matrix1x4, 1, 4);
            m!(matrix2x3, 2, 3);
            m!(matrix3x2, 3, 2);
            m!(matrix2x4, 2, 4);
            m!(matrix4x2, 4, 2);
            m!(matrix3x4, 3, 4);
            m!(matrix4x3, 4, 3);
        }
        level!($lv, fl: trafo2::<E>($out); trafo3::<E>($out); leak($out, radians_def::<E>()); leak($out, degrees_def::<E>()););
    }};
}
fn vec4_to3<E: El + Sg>(d: &mut Def<Vector4<E>, E>) {
    d.read("Vector3::from(v)", 0, |v, p| val(&if p.xi(3) % 2 == 0 { Vector3::from(*v) } else { Vector3::from(&*v) }.flat()), |m, _| Want::Val(words(&m[..3])));
}
pub fn subjects() -> &'static [&'static dyn Subject] {
    static L: OnceLock<Vec<&'static dyn Subject>> = OnceLock::new();
    L.get_or_init(|| {
        let mut v: Vec<&'static dyn Subject> = vec![];
        let out = &mut v;
        kind!(out, Tag, tag);
        kind!(out, SimF64, fl);
        kind!(out, f64, fl);
        kind!(out, f32, fl);
        kind!(out, i32, num);
        v
    })
}
pub fn find(n: &str) -> Option<&'static dyn Subject> {
    subjects().iter().find(|s| s.name() == n).copied()
}
