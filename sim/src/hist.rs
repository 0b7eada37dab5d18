//! Edit histories of one value against a plain array of components (C08, C09).
//!
//! A `Def` is one concrete type with its requests (edits, reads, constructors).  Every request has the
//! real call and a model of it on the component array; the model also says when the request has to be
//! refused.  Requests take all parameters from the plan step.
use crate::ctx::Out;
use crate::hook::{self, SimBudget, SimCrash};
use crate::sc::{Sc, SimF64, SK};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A component without arithmetic and without an all-zero value.
#[repr(transparent)]
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Tag(pub core::num::NonZeroU32);

pub trait El: Copy + PartialEq + core::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    const FLOAT: bool;
    fn e_of(w: f64) -> Self;
    fn e_word(&self) -> u64;
}
impl El for Tag {
    const NAME: &'static str = "tag";
    const FLOAT: bool = false;
    fn e_of(w: f64) -> Tag {
        Tag(core::num::NonZeroU32::new((crate::rng::mix(w.to_bits()) >> 33) as u32 | 1).unwrap())
    }
    fn e_word(&self) -> u64 {
        self.0.get() as u64
    }
}
macro_rules! el {
    ($($t:ident $n:literal $f:literal),*) => {$(
        impl El for $t {
            const NAME: &'static str = $n;
            const FLOAT: bool = $f;
            fn e_of(w: f64) -> $t { <$t as Sc>::of(w) }
            fn e_word(&self) -> u64 { <$t as Sc>::word(self) }
        }
    )*};
}
el!(SimF64 "sim" true, f64 "f64" true, f32 "f32" true, i32 "i32" false, u32 "u32" false);

#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Done,
    Val(Vec<u64>),
    Empty,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Done,
    /// done, components within rounding of the model's
    Near,
    Val(Vec<u64>),
    Tol(Vec<u64>),
    /// integers, whatever the component type is
    Ints(Vec<u64>),
    /// some answer, whose content is not judged here
    Some,
    Empty,
    Panic,
    /// outside what the statement decides (special values)
    Any,
}
pub struct Par<E> {
    pub x: Vec<i64>,
    pub w: Vec<E>,
    pub raw: Vec<f64>,
}
impl<E: El> Par<E> {
    pub fn new(x: &[i64], args: &[f64]) -> Par<E> {
        let mut raw = args.to_vec();
        let n = raw.len();
        // large shapes take more words than a step has
        raw.extend((n..64).map(|i| if n == 0 { 1.0 } else { args[(i * 5 + 2) % n] }));
        Par { x: x.to_vec(), w: raw.iter().map(|w| E::e_of(*w)).collect(), raw }
    }
    pub fn xi(&self, i: usize) -> u64 {
        self.x.get(i).copied().unwrap_or(0) as u64
    }
    /// which position parameter is to be outside (0: none)
    pub fn out(&self) -> u64 {
        self.xi(6)
    }
    /// the k-th position parameter, below n unless it is the one to be outside
    pub fn ix(&self, k: usize, n: usize) -> usize {
        let s = self.xi(k);
        if self.out() == k as u64 + 1 || self.out() == 9 {
            outside(s, n)
        } else if self.out() == 10 {
            // all positions outside, and the same
            outside(self.xi(0), n)
        } else {
            (s % n as u64) as usize
        }
    }
    pub fn s(&self) -> E {
        self.w[if self.w.len() > 16 { 16 } else { 0 }]
    }
    pub fn vals(&self, n: usize) -> Vec<E> {
        self.w[..n].to_vec()
    }
    pub fn arr<const N: usize>(&self) -> [E; N] {
        core::array::from_fn(|i| self.w[i])
    }
    /// a range within 0..=n, or one that is not
    pub fn range(&self, n: usize) -> (usize, usize) {
        let (mut a, mut b) = ((self.xi(0) % (n as u64 + 1)) as usize, (self.xi(1) % (n as u64 + 1)) as usize);
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        match self.out() {
            1 => {
                let o = outside(self.xi(0), n + 1);
                (a, o)
            }
            2 | 9 | 10 => {
                let o = outside(self.xi(1), n + 1);
                (o, o)
            }
            3 if n > 0 => ((a + 1).min(n).max(1), a.min(n - 1)),
            _ => (a, b),
        }
    }
}
/// Some position that is not below n.
pub fn outside(s: u64, n: usize) -> usize {
    let k = (s >> 8) as usize % n.max(1);
    match s % 16 {
        0..=3 => n,
        4 | 5 => n + 1,
        6 => n + k,
        7 => 2 * n + k,
        8 => 15 + n,
        9 => 256 + k,
        10 => 65536 + k,
        11 => (1 << 32) + k,
        // positions whose byte offset wraps around to an inside one
        12 => (1 << 61) + k,
        13 => (1 << 62) + k,
        14 => usize::MAX - k,
        _ => (1 << 63) + k,
    }
}
pub fn words<E: El>(v: &[E]) -> Vec<u64> {
    v.iter().map(|e| e.e_word()).collect()
}
pub fn val<E: El>(v: &[E]) -> Got {
    Got::Val(words(v))
}
/// Components in the order a swizzle name spells them.
pub fn swizzled<E: El>(m: &[E], names: &str) -> Vec<E> {
    names.chars().map(|c| m["xyzw".find(c).unwrap()]).collect()
}
pub type RealFn<V, E> = fn(&mut V, &Par<E>) -> Got;
pub type ModelFn<E> = fn(&mut Vec<E>, &Par<E>) -> Want;
pub type PairFn<V, E> = fn(&V, &Par<E>) -> V;
pub struct Req<V, E> {
    pub name: String,
    pub kind: RK,
    pub real: RealFn<V, E>,
    pub model: ModelFn<E>,
    /// the value-returning counterpart of an edit
    pub pair: Option<PairFn<V, E>>,
    /// number of position parameters that can be outside
    pub outs: u64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RK {
    Edit,
    /// constructs from the parameters or reads the value; changes nothing
    Read,
}
pub struct Def<V, E> {
    pub name: String,
    pub n: usize,
    pub make: fn(&[E]) -> V,
    pub get: fn(&V) -> Vec<E>,
    pub reqs: Vec<Req<V, E>>,
    /// content is drawn from ordinary values (orthonormal parts etc. are built by `make`)
    pub tame: bool,
    pub tol: bool,
}
impl<V: 'static, E: El> Def<V, E> {
    pub fn edit(&mut self, name: &str, outs: u64, real: RealFn<V, E>, model: ModelFn<E>) {
        self.reqs.push(Req { name: name.into(), kind: RK::Edit, real, model, pair: None, outs });
    }
    pub fn paired(
        &mut self,
        name: &str,
        real: RealFn<V, E>,
        pair: PairFn<V, E>,
        model: ModelFn<E>,
    ) {
        self.reqs.push(Req { name: name.into(), kind: RK::Edit, real, model, pair: Some(pair), outs: 0 });
    }
    pub fn read(&mut self, name: &str, outs: u64, real: RealFn<V, E>, model: ModelFn<E>) {
        self.reqs.push(Req { name: name.into(), kind: RK::Read, real, model, pair: None, outs });
    }
}
/// Run the real call in the armed window.
pub fn window(f: &mut dyn FnMut() -> Got) -> Result<Got, Out> {
    let mut r = None;
    hook::arm();
    let c = catch_unwind(AssertUnwindSafe(|| r = Some(f())));
    hook::disarm();
    match c {
        Ok(()) => Ok(r.unwrap()),
        Err(p) => Err(if p.is::<SimCrash>() {
            Out::Crash
        } else if p.is::<SimBudget>() {
            Out::Budget
        } else if let Some(s) = p.downcast_ref::<&str>() {
            Out::Panic(s.to_string())
        } else if let Some(s) = p.downcast_ref::<String>() {
            Out::Panic(s.clone())
        } else {
            Out::Panic("?".into())
        }),
    }
}
pub fn is_sim<E: El>() -> bool {
    E::NAME == "sim"
}
fn unzero(w: u64) -> u64 {
    if w == 1 << 63 {
        0
    } else {
        w
    }
}
/// Same component?  (the sign of a zero is not part of the comparison)
pub fn same_word<E: El>(a: u64, b: u64) -> bool {
    if E::FLOAT {
        unzero(a) == unzero(b)
    } else {
        a == b
    }
}
pub fn near_word<E: El>(a: u64, b: u64, scale: f64) -> bool {
    if !E::FLOAT {
        return a == b;
    }
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    if x.is_nan() || y.is_nan() {
        return x.is_nan() == y.is_nan();
    }
    let e = if E::NAME == "f32" { 2e-4 } else { 1e-9 };
    x == y || (x - y).abs() <= e * x.abs().max(y.abs()).max(scale)
}
pub fn same_words<E: El>(a: &[u64], b: &[u64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_word::<E>(*x, *y))
}
pub fn near_words<E: El>(a: &[u64], b: &[u64]) -> bool {
    let mut m = 0f64;
    for w in a.iter().chain(b) {
        let x = f64::from_bits(*w).abs();
        if E::FLOAT && x.is_finite() {
            m = m.max(x);
        }
    }
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near_word::<E>(*x, *y, m))
}
pub fn show_words<E: El>(v: &[u64]) -> String {
    v.iter().map(|w| if E::FLOAT { format!("{:?}", f64::from_bits(*w)) } else { format!("{}", *w as i64) }).collect::<Vec<_>>().join(" ")
}
/// Ordinary magnitudes, for which rounding is all that can differ.
pub fn ordinary<E: El>(v: &[E]) -> bool {
    let (lo, hi) = if E::NAME == "f32" { (1e-9, 1e9) } else { (1e-50, 1e50) };
    v.iter().all(|e| {
        let x = f64::from_bits(e.e_word());
        x == 0.0 || (x.is_finite() && x.abs() > lo && x.abs() < hi)
    })
}
pub fn f<E: El>(e: E) -> f64 {
    if E::FLOAT {
        f64::from_bits(e.e_word())
    } else {
        e.e_word() as i64 as f64
    }
}
pub fn norm_of<E: El>(v: &[E]) -> f64 {
    v.iter().map(|e| f(*e) * f(*e)).sum::<f64>().sqrt()
}
/// The norm, if it can be computed without any rounding.
pub fn exact_norm<E: El>(v: &[E]) -> Option<f64> {
    let lim = if E::NAME == "f32" { 1000.0 } else { 1e6 };
    let mut q = 0f64;
    for e in v {
        let x = f(*e);
        if x.fract() != 0.0 || !(x.abs() < lim) {
            return None;
        }
        q += x * x;
    }
    let r = q.sqrt();
    if r.fract() == 0.0 && r * r == q {
        Some(r)
    } else {
        None
    }
}

/// What the property modules need from a definition, whatever its types are.
pub trait Subject: Sync {
    fn name(&self) -> &str;
    fn reqs(&self) -> Vec<(String, RK, u64)>;
    fn tame(&self) -> bool;
    fn kind(&self) -> &'static str;
    fn start(&'static self, args: &[f64]) -> Box<dyn Live>;
}
/// One value under test.
pub trait Live {
    /// Do one request; `judge` decides how strictly.
    fn step(&mut self, req: &str, x: &[i64], args: &[f64], judge: Judge) -> StepOut;
    /// Read through every view.
    fn audit(&mut self, x: &[i64], args: &[f64]) -> Option<String>;
    fn content(&self) -> u64;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Judge {
    /// content against the model (C08)
    Content,
    /// refusals and their effects only (C09)
    Refusal,
}
#[derive(Default, Debug)]
pub struct StepOut {
    pub bad: Option<(String, String)>,
    pub refused: bool,
    pub interrupted: bool,
    pub events: u64,
    pub skipped: bool,
    /// outcome and content afterwards
    pub out: u64,
    /// the model leaves this case open (special values)
    pub open: bool,
}
/// The value between guard words, next to another value that nobody is supposed to touch.
#[repr(C)]
struct Arena<V> {
    g0: [u64; 6],
    v: V,
    g1: [u64; 6],
    other: V,
    g2: [u64; 6],
}
struct LiveV<V: 'static, E: El> {
    d: &'static Def<V, E>,
    a: Box<Arena<V>>,
    /// the same history without the refused requests
    twin: V,
    model: Vec<E>,
    guard: u64,
}
fn bytes_of<T>(t: &T) -> &[u8] {
    unsafe { core::slice::from_raw_parts(t as *const T as *const u8, core::mem::size_of::<T>()) }
}
impl<V: Copy + PartialEq + 'static, E: El> LiveV<V, E> {
    fn guards(&self) -> u64 {
        let mut h = 0;
        for b in [bytes_of(&self.a.g0), bytes_of(&self.a.g1), bytes_of(&self.a.other), bytes_of(&self.a.g2)] {
            h = crate::rng::mix(h ^ crate::rng::hash_bytes(b));
        }
        h
    }
    fn find(&self, n: &str) -> Option<&'static Req<V, E>> {
        self.d.reqs.iter().find(|r| r.name == n)
    }
    fn words(&self) -> Vec<u64> {
        words(&(self.d.get)(&self.a.v))
    }
    fn eqs(&self, par: &Par<E>) -> Option<String> {
        let again = (self.d.make)(&self.model);
        let refl = self.model.iter().all(|e| e == e);
        if self.d.tol {
            return None;
        }
        if (self.a.v == again) != refl || (again == self.a.v) != refl || (self.a.v != again) == refl {
            return Some(format!("comparing with an equal value gives {}, expected {refl}", self.a.v == again));
        }
        let k = (par.xi(2) % self.d.n as u64) as usize;
        if self.model[k] != par.s() {
            let mut m = self.model.clone();
            m[k] = par.s();
            let o = (self.d.make)(&m);
            if self.a.v == o || o == self.a.v || !(self.a.v != o) {
                return Some(format!("comparing with a value that differs in component {k} says equal"));
            }
        }
        None
    }
}
impl<V: Copy + PartialEq + 'static, E: El> Live for LiveV<V, E> {
    fn step(&mut self, name: &str, x: &[i64], args: &[f64], judge: Judge) -> StepOut {
        let mut so = StepOut::default();
        let r = match self.find(name) {
            Some(r) => r,
            None => {
                so.skipped = true;
                return so;
            }
        };
        let par = Par::<E>::new(x, args);
        let before = self.a.v;
        let mut m = self.model.clone();
        let want = (r.model)(&mut m, &par);
        so.open = want == Want::Any;
        let paired = match (&r.pair, judge) {
            (Some(p), Judge::Content) => catch_unwind(AssertUnwindSafe(|| p(&self.a.v, &par))).ok(),
            _ => None,
        };
        let v = &mut self.a.v as *mut V;
        crate::common::paint(par.xi(5));
        let got = window(&mut || (r.real)(unsafe { &mut *v }, &par));
        so.events = hook::th().events;
        let id = format!("{}/{}", self.d.name, name);
        let bad = |c: &str, d: String| Some((c.to_string(), format!("{id} {:?}: {d}", &par.x)));
        if self.guards() != self.guard {
            so.bad = bad("neighbour-changed", "memory next to the value was changed".into());
            return so;
        }
        let unchanged = bytes_of(&self.a.v) == bytes_of(&before);
        match &got {
            Err(Out::Panic(m)) if crate::common::overflowed(m) => {
                so.interrupted = true;
                self.model = (self.d.get)(&self.a.v);
                self.twin = self.a.v;
                return so;
            }
            Err(Out::Crash) => {
                so.interrupted = true;
                // whatever is there now is what every view has to report from here on
                self.model = (self.d.get)(&self.a.v);
                self.twin = self.a.v;
                return so;
            }
            Err(Out::Budget) => {
                so.bad = bad("stuck", "did not finish".into());
                return so;
            }
            _ => {}
        }
        let refused = matches!(got, Err(_) | Ok(Got::Empty));
        so.refused = refused;
        so.out = match &got {
            Ok(Got::Val(v)) => v.iter().fold(3u64, |h, w| crate::rng::mix(h.rotate_left(9) ^ w)),
            _ => 1 + refused as u64,
        };
        so.out = crate::rng::mix(so.out ^ self.content());
        if judge == Judge::Refusal {
            if refused && !unchanged {
                so.bad = bad("refused-but-changed", format!("the request was refused, but the value changed from {:?} to {:?}", words(&(self.d.get)(&before)).iter().map(|w| f64::from_bits(*w)).collect::<Vec<_>>(), self.words().iter().map(|w| f64::from_bits(*w)).collect::<Vec<_>>()));
                return so;
            }
            if r.kind == RK::Read && !unchanged {
                so.bad = bad("read-changed", "a request that only reads changed the value".into());
                return so;
            }
            match (&want, &got) {
                (Want::Any, _) => {}
                (Want::Panic, Err(Out::Panic(_))) => {}
                (Want::Panic, g) => so.bad = bad("not-refused", format!("a position outside the value was answered with {g:?}")),
                (Want::Empty, Ok(Got::Empty)) => {}
                (Want::Empty, g) => so.bad = bad("not-refused", format!("a request that cannot be honoured was answered with {g:?} (value {})", show_words::<E>(&words(&(self.d.get)(&before))))),
                (_, Ok(Got::Empty)) | (_, Err(_)) => so.bad = bad("refused-wrongly", format!("a request that can be honoured was refused: {got:?} (value {})", show_words::<E>(&words(&(self.d.get)(&before))))),
                _ => {}
            }
            if so.bad.is_some() {
                return so;
            }
            if !refused && r.kind == RK::Edit {
                // the twin never sees the refused requests
                let mut t = self.twin;
                hook::th().faults.clear();
                let g2 = window(&mut || (r.real)(&mut t, &par));
                self.twin = t;
                let w2 = words(&(self.d.get)(&self.twin));
                if g2 != got || w2 != self.words() {
                    so.bad = bad("later-differs", format!("after refused requests the same edit gives {} but without them {}", show_words::<E>(&self.words()), show_words::<E>(&w2)));
                }
            }
            self.model = (self.d.get)(&self.a.v);
            return so;
        }
        // content
        let now = self.words();
        match (&want, &got) {
            (Want::Any, _) => {
                // still the same as the value-returning form, whatever that makes of it
                let simple = matches!(name, "normalize_mut" | "scale_mut" | "unscale_mut") && ordinary(&(self.d.get)(&before)) && ordinary(&par.w);
                if let (Some(p), Ok(_), true) = (&paired, &got, simple) {
                    let pw = words(&(self.d.get)(p));
                    if !near_words::<E>(&pw, &now) {
                        so.bad = bad("pair-differs", format!("in place gives {} but the value-returning form gives {}", show_words::<E>(&now), show_words::<E>(&pw)));
                        return so;
                    }
                }
                self.model = (self.d.get)(&self.a.v);
                return so;
            }
            (Want::Panic, Err(Out::Panic(_))) | (Want::Empty, Ok(Got::Empty)) => {}
            (Want::Done, Ok(Got::Done)) | (Want::Near, Ok(Got::Done)) => {}
            (Want::Near, Ok(Got::Val(_))) => {}
            (Want::Val(a), Ok(Got::Val(b))) if same_words::<E>(a, b) => {}
            (Want::Tol(a), Ok(Got::Val(b))) if near_words::<E>(a, b) => {}
            (Want::Ints(a), Ok(Got::Val(b))) if a == b => {}
            (Want::Some, Ok(Got::Val(_))) => {}
            (Want::Val(a), Ok(Got::Val(b))) | (Want::Tol(a), Ok(Got::Val(b))) => {
                so.bad = bad("reads-wrong", format!("reports {} where the components say {}", show_words::<E>(b), show_words::<E>(a)));
                return so;
            }
            (w, g) => {
                so.bad = bad("wrong-outcome", format!("{g:?} where {w:?} was expected"));
                return so;
            }
        }
        let near = matches!(want, Want::Near | Want::Tol(_)) || self.d.tol;
        let mw = words(&m);
        if near {
            if !near_words::<E>(&mw, &now) {
                so.bad = bad("content", format!("the value holds {} but the array holds {}", show_words::<E>(&now), show_words::<E>(&mw)));
                return so;
            }
            self.model = (self.d.get)(&self.a.v);
        } else {
            if !same_words::<E>(&mw, &now) {
                so.bad = bad("content", format!("the value holds {} but the array holds {}", show_words::<E>(&now), show_words::<E>(&mw)));
                return so;
            }
            self.model = m;
        }
        if let Some(p) = paired {
            let pw = words(&(self.d.get)(&p));
            if !(if near { near_words::<E>(&pw, &now) } else { same_words::<E>(&pw, &now) }) {
                so.bad = bad("pair-differs", format!("in place gives {} but the value-returning form gives {}", show_words::<E>(&now), show_words::<E>(&pw)));
                return so;
            }
        }
        if let Some(d) = self.eqs(&par) {
            so.bad = bad("equality", d);
        }
        so
    }
    fn audit(&mut self, x: &[i64], args: &[f64]) -> Option<String> {
        for r in self.d.reqs.iter().filter(|r| r.kind == RK::Read) {
            let par = Par::<E>::new(x, args);
            let mut m = self.model.clone();
            let want = (r.model)(&mut m, &par);
            let v = &mut self.a.v as *mut V;
            let got = catch_unwind(AssertUnwindSafe(|| (r.real)(unsafe { &mut *v }, &par)));
            let ok = match (&want, &got) {
                (_, Err(e)) if e.downcast_ref::<&str>().map(|m| crate::common::overflowed(m)).unwrap_or(false) => true,
                (Want::Any, _) => true,
                (Want::Val(a), Ok(Got::Val(b))) => same_words::<E>(a, b),
                (Want::Tol(a), Ok(Got::Val(b))) => near_words::<E>(a, b),
                (Want::Ints(a), Ok(Got::Val(b))) => a == b,
                (Want::Some, Ok(Got::Val(_))) => true,
                (Want::Empty, Ok(Got::Empty)) => true,
                (Want::Done, Ok(Got::Done)) => true,
                _ => false,
            };
            if !ok {
                return Some(format!("{}/{}: reports {:?} where the components say {:?}", self.d.name, r.name, got.ok(), want));
            }
        }
        if !same_words::<E>(&self.words(), &words(&self.model)) {
            return Some(format!("{}: reading changed the value", self.d.name));
        }
        if self.guards() != self.guard {
            return Some(format!("{}: memory next to the value was changed", self.d.name));
        }
        None
    }
    fn content(&self) -> u64 {
        let mut h = 0u64;
        for w in self.words() {
            h = crate::rng::mix(h.rotate_left(7) ^ w);
        }
        h
    }
}
unsafe impl<V, E> Sync for Def<V, E> {}
unsafe impl<V, E> Send for Def<V, E> {}
impl<V: Copy + PartialEq + 'static, E: El> Subject for Def<V, E> {
    fn name(&self) -> &str {
        &self.name
    }
    fn reqs(&self) -> Vec<(String, RK, u64)> {
        self.reqs.iter().map(|r| (r.name.clone(), r.kind, r.outs)).collect()
    }
    fn tame(&self) -> bool {
        self.tame
    }
    fn kind(&self) -> &'static str {
        E::NAME
    }
    fn start(&'static self, args: &[f64]) -> Box<dyn Live> {
        let par = Par::<E>::new(&[], args);
        let v = (self.make)(&par.vals(self.n));
        let o: Vec<E> = (0..self.n).map(|i| E::e_of(7.0 + i as f64)).collect();
        let a = Box::new(Arena { g0: [0xa5a5_1111; 6], v, g1: [0x5a5a_2222; 6], other: (self.make)(&o), g2: [0x3c3c_3333; 6] });
        let model = (self.get)(&a.v);
        let mut l = LiveV { d: self, a, twin: v, model, guard: 0 };
        l.guard = l.guards();
        Box::new(l)
    }
}
#[allow(dead_code)]
pub fn sk_of(n: &str) -> SK {
    match n {
        "sim" => SK::Sim,
        "f32" => SK::F32,
        "i32" => SK::I32,
        _ => SK::F64,
    }
}
