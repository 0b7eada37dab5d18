//! C03: the caller's function or conversion: called once per component, may panic or refuse anywhere.
use crate::hook::SimCrash;
use crate::plan::*;
use crate::rng::{hash_bytes, mix, Palette, Rng};
use crate::run::*;
use cglinalg_core::*;
use core::num::{NonZeroU32, NonZeroU64};
use num_traits::{NumCast, ToPrimitive};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        level: "fault_enumeration",
        runs: |t| if t == Tier::Quick { 200_000 } else { 700_000 },
        gen,
        exec,
        rule: "A run takes one operation with a caller-supplied function (component-wise map, fallible cast, user norm or distance, Unit of a user type), one shape, one element type (owning, reference, non-zero, zero-sized, plain ...) and seeded content, runs it undisturbed and then once for every call of the function with a fault at exactly that call: a panic, a refusal (casts), or a re-entrant use of the same operation. A ledger follows every result from creation to release. Non-trivial: the fault fired.",
        measure: "distinct (operation, shape, element type, fault kind, call number, content) executions, by 64-bit hash",
        unit: "calls of the caller's function",
        cpu_ms: 10_000,
    }
}
// ---------------------------------------------------------------- ledger
#[derive(Default)]
struct Ledger {
    made: Vec<u32>,
    fabricated: u32,
    zst_made: i64,
    zst_dropped: i64,
}
thread_local! {
    static LED: RefCell<Ledger> = RefCell::new(Ledger::default());
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static SEEN: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static AT: Cell<u64> = const { Cell::new(0) };
    static MODE: Cell<u8> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static NEST: Cell<Option<fn()>> = const { Cell::new(None) };
}
const NONE: u8 = 0;
const PANIC: u8 = 1;
const REFUSE: u8 = 2;
const REENTER: u8 = 3;
const SRC_PANIC: u8 = 4;
fn reset(mode: u8, at: u64) {
    CALLS.set(0);
    SEEN.with(|s| s.borrow_mut().clear());
    MODE.set(mode);
    AT.set(at);
    FIRED.set(false);
}
/// One call of the caller's function with component `bits`; false means refuse.
fn called(bits: u64) -> bool {
    CALLS.set(CALLS.get() + 1);
    SEEN.with(|s| s.borrow_mut().push(bits));
    if MODE.get() != NONE && CALLS.get() == AT.get() {
        match MODE.get() {
            PANIC => {
                FIRED.set(true);
                std::panic::resume_unwind(Box::new(SimCrash));
            }
            REFUSE => {
                FIRED.set(true);
                return false;
            }
            REENTER => {
                FIRED.set(true);
                if let Some(n) = NEST.get() {
                    let save = (CALLS.get(), SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())), MODE.get(), AT.get());
                    reset(NONE, 0);
                    n();
                    CALLS.set(save.0);
                    SEEN.with(|s| *s.borrow_mut() = save.1);
                    MODE.set(save.2);
                    AT.set(save.3);
                    FIRED.set(true);
                }
            }
            _ => {}
        }
    }
    true
}
// ---------------------------------------------------------------- element types
/// A result of the caller's function; remembers which component it was made from.
trait Trk: Sized + 'static {
    const NAME: &'static str;
    fn make(bits: u64) -> Self;
    /// None: this type cannot remember
    fn tag(&self) -> Option<u64>;
}
const MAGIC: u64 = 0x600d_600d_600d_600d;
struct Owner {
    magic: u64,
    id: usize,
    bits: u64,
}
impl Drop for Owner {
    fn drop(&mut self) {
        LED.with(|l| {
            let mut l = l.borrow_mut();
            if self.magic != MAGIC || self.id >= l.made.len() {
                l.fabricated += 1;
            } else {
                l.made[self.id] += 1;
            }
        });
        self.magic = 0xdead;
    }
}
impl Trk for Owner {
    const NAME: &'static str = "owner";
    fn make(bits: u64) -> Self {
        LED.with(|l| {
            let mut l = l.borrow_mut();
            l.made.push(0);
            Owner { magic: MAGIC, id: l.made.len() - 1, bits }
        })
    }
    fn tag(&self) -> Option<u64> {
        if self.magic != MAGIC {
            return Some(!self.bits);
        }
        Some(self.bits)
    }
}
impl Trk for Box<Owner> {
    const NAME: &'static str = "box";
    fn make(bits: u64) -> Self {
        Box::new(Owner::make(bits))
    }
    fn tag(&self) -> Option<u64> {
        (**self).tag()
    }
}
impl Trk for Option<Owner> {
    const NAME: &'static str = "option";
    fn make(bits: u64) -> Self {
        Some(Owner::make(bits))
    }
    fn tag(&self) -> Option<u64> {
        self.as_ref().map(|o| o.tag().unwrap()).or(Some(0xbad))
    }
}
struct Zst;
impl Drop for Zst {
    fn drop(&mut self) {
        LED.with(|l| l.borrow_mut().zst_dropped += 1);
    }
}
impl Trk for Zst {
    const NAME: &'static str = "zero-sized";
    fn make(_: u64) -> Self {
        LED.with(|l| l.borrow_mut().zst_made += 1);
        Zst
    }
    fn tag(&self) -> Option<u64> {
        None
    }
}
impl Trk for String {
    const NAME: &'static str = "string";
    fn make(bits: u64) -> Self {
        format!("{bits:016x}")
    }
    fn tag(&self) -> Option<u64> {
        u64::from_str_radix(self, 16).ok().or(Some(0xbad))
    }
}
#[derive(Clone, Copy, PartialEq)]
struct Nz(NonZeroU64);
impl Trk for Nz {
    const NAME: &'static str = "non-zero";
    fn make(bits: u64) -> Self {
        Nz(NonZeroU64::new(bits ^ 0x5a5a_0000_0000_0001).unwrap_or(NonZeroU64::MAX))
    }
    fn tag(&self) -> Option<u64> {
        Some(self.0.get() ^ 0x5a5a_0000_0000_0001)
    }
}
#[derive(Clone, Copy, PartialEq)]
struct Rf(&'static u64);
impl Trk for Rf {
    const NAME: &'static str = "reference";
    fn make(bits: u64) -> Self {
        Rf(Box::leak(Box::new(bits)))
    }
    fn tag(&self) -> Option<u64> {
        Some(*self.0)
    }
}
impl Trk for f64 {
    const NAME: &'static str = "f64";
    fn make(bits: u64) -> Self {
        f64::from_bits(bits)
    }
    fn tag(&self) -> Option<u64> {
        Some(self.to_bits())
    }
}
/// bigger than any register, more strictly aligned than a number
#[repr(align(32))]
#[derive(Clone, Copy, PartialEq)]
struct Wide([u64; 12]);
impl Trk for Wide {
    const NAME: &'static str = "wide";
    fn make(bits: u64) -> Self {
        Wide([bits; 12])
    }
    fn tag(&self) -> Option<u64> {
        if self.0.iter().all(|x| *x == self.0[0]) {
            Some(self.0[0])
        } else {
            Some(!self.0[0])
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
#[repr(u8)]
enum Shape {
    A = 3,
    B = 5,
    C = 7,
}
impl Trk for Shape {
    const NAME: &'static str = "enum";
    fn make(bits: u64) -> Self {
        match mix(bits) % 3 {
            0 => Shape::A,
            1 => Shape::B,
            _ => Shape::C,
        }
    }
    fn tag(&self) -> Option<u64> {
        None
    }
}
macro_rules! numcast {
    ($($t:ty),*) => {$(
        impl ToPrimitive for $t {
            fn to_i64(&self) -> Option<i64> { None }
            fn to_u64(&self) -> Option<u64> { None }
        }
        impl NumCast for $t {
            fn from<T: ToPrimitive>(n: T) -> Option<Self> {
                let b = n.to_f64()?.to_bits();
                if called(b) { Some(<$t as Trk>::make(b)) } else { None }
            }
        }
    )*};
}
numcast!(Owner, Zst, Nz, Rf, Wide, Shape);
/// Box, Option and String cannot implement foreign traits here; a wrapper can.
struct Own2(Box<Owner>);
impl Trk for Own2 {
    const NAME: &'static str = "boxed";
    fn make(bits: u64) -> Self {
        Own2(Box::new(Owner::make(bits)))
    }
    fn tag(&self) -> Option<u64> {
        self.0.tag()
    }
}
struct Txt(String);
impl Trk for Txt {
    const NAME: &'static str = "text";
    fn make(bits: u64) -> Self {
        Txt(String::make(bits))
    }
    fn tag(&self) -> Option<u64> {
        self.0.tag()
    }
}
numcast!(Own2, Txt);
/// A component that is not a number.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Tag {
    bits: u64,
    no: NonZeroU32,
}
/// A component whose own conversion can panic.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Num(f64);
impl ToPrimitive for Num {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        if MODE.get() == SRC_PANIC && CALLS.get() + 1 == AT.get() {
            FIRED.set(true);
            std::panic::resume_unwind(Box::new(SimCrash));
        }
        Some(self.0)
    }
}
impl NumCast for Num {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_f64().map(Num)
    }
}
trait Srcs: Copy + 'static {
    const NAME: &'static str;
    fn of(w: f64, k: usize) -> Self;
    fn bits(&self) -> u64;
}
impl Srcs for Tag {
    const NAME: &'static str = "tag";
    fn of(w: f64, k: usize) -> Self {
        Tag { bits: mix(mix(w.to_bits()).wrapping_add(k as u64)), no: NonZeroU32::new(k as u32 + 1).unwrap() }
    }
    fn bits(&self) -> u64 {
        mix(self.bits ^ self.no.get() as u64)
    }
}
impl Srcs for f64 {
    const NAME: &'static str = "f64";
    fn of(w: f64, _: usize) -> Self {
        w
    }
    fn bits(&self) -> u64 {
        self.to_bits()
    }
}
impl Srcs for Num {
    const NAME: &'static str = "num";
    fn of(w: f64, k: usize) -> Self {
        Num(f64::from_bits(mix(mix(w.to_bits()).wrapping_add(k as u64)) & 0x7fef_ffff_ffff_ffff))
    }
    fn bits(&self) -> u64 {
        self.0.to_bits()
    }
}
fn slots<V, S>(v: &V) -> &[S] {
    let n = if core::mem::size_of::<S>() == 0 { 0 } else { core::mem::size_of::<V>() / core::mem::size_of::<S>() };
    unsafe { core::slice::from_raw_parts(v as *const V as *const S, n) }
}
fn bytes<V>(v: &V) -> Vec<u8> {
    unsafe { core::slice::from_raw_parts(v as *const V as *const u8, core::mem::size_of::<V>()) }.to_vec()
}
// ---------------------------------------------------------------- cases
struct Case {
    name: String,
    n: usize,
    /// fault kinds that apply
    modes: &'static [u8],
    run: fn(&[f64], u8, u64) -> Result<(), (&'static str, String)>,
}
type Res = Result<(), (&'static str, String)>;
fn balance() -> Result<(), String> {
    LED.with(|l| {
        let mut l = l.borrow_mut();
        let l = std::mem::take(&mut *l);
        if l.fabricated > 0 {
            return Err(format!("{} value(s) nobody made were released", l.fabricated));
        }
        for (i, n) in l.made.iter().enumerate() {
            if *n != 1 {
                return Err(format!("result {i} was released {n} times"));
            }
        }
        if l.zst_made != l.zst_dropped {
            return Err(format!("{} results made, {} released", l.zst_made, l.zst_dropped));
        }
        Ok(())
    })
}
/// Judge one execution. `r`: Err = unwound; Ok(None) = refused; Ok(Some) = tags of the result.
fn judge(mode: u8, at: u64, want: &[u64], r: Result<Option<Vec<Option<u64>>>, Box<dyn std::any::Any + Send>>, unique: bool, cast: bool) -> Res {
    let calls = CALLS.get();
    let fired = FIRED.get();
    let n = want.len() as u64;
    let seen = SEEN.with(|s| s.borrow().clone());
    if unique {
        for (i, b) in seen.iter().enumerate() {
            if !want.contains(b) {
                return Err(("wrong-argument", format!("call {} got {b:#x}, which is no component of the source", i + 1)));
            }
            if seen[..i].contains(b) {
                return Err(("called-twice", format!("call {} repeats component {}", i + 1, want.iter().position(|w| w == b).unwrap())));
            }
        }
    } else {
        let mut left = want.to_vec();
        for (i, b) in seen.iter().enumerate() {
            match left.iter().position(|w| w == b) {
                Some(k) => {
                    left.remove(k);
                }
                None => return Err(("wrong-argument", format!("call {} got {b:#x} once more than the source holds it", i + 1))),
            }
        }
    }
    match r {
        Err(e) => {
            if !e.is::<SimCrash>() {
                let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
                return Err(("panic", format!("panicked by itself: {m}")));
            }
            if mode == PANIC && calls != at {
                return Err(("called-after-panic", format!("{calls} calls although call {at} panicked")));
            }
        }
        Ok(got) => {
            if (mode == PANIC || mode == SRC_PANIC) && fired {
                return Err(("panic-swallowed", format!("the panic at call {at} did not reach the caller")));
            }
            match got {
                None => {
                    if !(cast && mode == REFUSE && fired) {
                        return Err(("refused", "no result although nothing was refused".into()));
                    }
                    if calls > n {
                        return Err(("called-twice", format!("{calls} calls for {n} components")));
                    }
                }
                Some(tags) => {
                    if mode == REFUSE && fired {
                        return Err(("refusal-ignored", format!("call {at} refused, but there is a result")));
                    }
                    if calls != n {
                        return Err(("call-count", format!("{calls} calls for {n} components")));
                    }
                    for (k, t) in tags.iter().enumerate() {
                        if let Some(t) = t {
                            if *t != want[k] {
                                return Err(("wrong-position", format!("result {k} does not come from component {k}")));
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
fn map_run<S: Srcs, T: Trk, V: Copy, W>(src: V, mode: u8, at: u64, unique: bool, nest: fn(), f: fn(&V, &mut dyn FnMut(S) -> T) -> W) -> Res {
    let want: Vec<u64> = slots::<V, S>(&src).iter().map(|s| s.bits()).collect();
    let before = bytes(&src);
    reset(mode, at);
    NEST.set(Some(nest));
    let r = catch_unwind(AssertUnwindSafe(|| {
        f(&src, &mut |s: S| {
            let b = s.bits();
            called(b);
            T::make(b)
        })
    }));
    MODE.set(NONE);
    let r = match r {
        Ok(w) => {
            let tags = slots::<W, T>(&w).iter().map(|t| t.tag()).collect();
            drop(w);
            Ok(Some(tags))
        }
        Err(e) => Err(e),
    };
    judge(mode, at, &want, r, unique, false)?;
    if bytes(&src) != before {
        return Err(("source-modified", "the source value changed".into()));
    }
    Ok(())
}
fn cast_run<S: Srcs, T: Trk, V: Copy, W>(src: V, mode: u8, at: u64, unique: bool, nest: fn(), f: fn(&V) -> Option<W>) -> Res {
    let want: Vec<u64> = slots::<V, S>(&src).iter().map(|s| s.bits()).collect();
    let before = bytes(&src);
    reset(mode, at);
    NEST.set(Some(nest));
    let r = catch_unwind(AssertUnwindSafe(|| f(&src)));
    MODE.set(NONE);
    let r = match r {
        Ok(Some(w)) => {
            let tags = slots::<W, T>(&w).iter().map(|t| t.tag()).collect();
            drop(w);
            Ok(Some(tags))
        }
        Ok(None) => Ok(None),
        Err(e) => Err(e),
    };
    judge(mode, at, &want, r, unique, true)?;
    if bytes(&src) != before {
        return Err(("source-modified", "the source value changed".into()));
    }
    Ok(())
}
fn w_at(w: &[f64], k: usize) -> f64 {
    w.get(k).copied().unwrap_or(1.0)
}
/// Build a value of `n` components of `S` directly in memory (all value types are plain arrays).
fn build<V: Copy, S: Srcs>(w: &[f64]) -> V {
    let n = core::mem::size_of::<V>() / core::mem::size_of::<S>();
    let mut v = core::mem::MaybeUninit::<V>::zeroed();
    let p = v.as_mut_ptr() as *mut S;
    for k in 0..n {
        unsafe { p.add(k).write(S::of(w_at(w, k), k)) };
    }
    unsafe { v.assume_init() }
}
const MAPM: &[u8] = &[PANIC, REENTER];
const CASTM: &[u8] = &[PANIC, REFUSE, REENTER, SRC_PANIC];
const CALLM: &[u8] = &[PANIC];

macro_rules! shapes {
    ($m:ident!($($a:tt)*)) => {
        $m!($($a)*; Vector 1; Vector 2; Vector 3; Vector 4; Point 1; Point 2; Point 3; Complex; Quaternion;
            Matrix 1 1; Matrix 2 2; Matrix 3 3; Matrix 4 4; Matrix 1 2; Matrix 1 3; Matrix 1 4; Matrix 2 3; Matrix 3 2; Matrix 2 4; Matrix 4 2;
            Matrix 3 4; Matrix 4 3; Matrix 2 1; Matrix 3 1; Matrix 4 1; Vector 5; Vector 9; Point 6; Matrix 5 5; Matrix 6 2);
    };
}
fn add_map<S: Srcs, T: Trk>(v: &mut Vec<Case>) {
    macro_rules! each {
        (; $($t:ident $($n:literal)*);* $(;)?) => {$({
            fn nest<S: Srcs, T: Trk>() {
                let src: $t<S $(, $n)*> = build::<_, S>(&[3.0, 4.0, 5.0, 6.0]);
                let k = slots::<_, S>(&src).len() as u64;
                let mut i = 0u64;
                let r = src.map(|s: S| { i += 1; T::make(s.bits()) });
                assert!(i == k);
                for (a, b) in slots::<_, T>(&r).iter().zip(slots::<_, S>(&src)) {
                    if let Some(t) = a.tag() { assert!(t == b.bits()); }
                }
            }
            v.push(Case {
                name: format!("map:{}{}:{}->{}", stringify!($t), stringify!(<$($n),*>).replace(' ', ""), S::NAME, T::NAME),
                n: core::mem::size_of::<$t<S $(, $n)*>>() / core::mem::size_of::<S>(),
                modes: MAPM,
                run: |w, mode, at| {
                    let src: $t<S $(, $n)*> = build::<_, S>(w);
                    map_run::<S, T, $t<S $(, $n)*>, $t<T $(, $n)*>>(src, mode, at, S::NAME != "f64", nest::<S, T>, |v, f| v.map(f))
                },
            });
        })*};
    }
    shapes!(each!());
}
fn add_cast<S: Srcs + NumCast, T: Trk + NumCast>(v: &mut Vec<Case>) {
    macro_rules! each {
        (; $($t:ident $($n:literal)*);* $(;)?) => {$({
            fn nest<S: Srcs + NumCast, T: Trk + NumCast>() {
                let src: $t<S $(, $n)*> = build::<_, S>(&[3.0, 4.0, 5.0, 6.0]);
                let r = src.try_cast::<T>().expect("nested cast refused");
                for (a, b) in slots::<_, T>(&r).iter().zip(slots::<_, S>(&src)) {
                    if let Some(t) = a.tag() { assert!(t == b.bits()); }
                }
            }
            v.push(Case {
                name: format!("try_cast:{}{}:{}->{}", stringify!($t), stringify!(<$($n),*>).replace(' ', ""), S::NAME, T::NAME),
                n: core::mem::size_of::<$t<S $(, $n)*>>() / core::mem::size_of::<S>(),
                modes: CASTM,
                run: |w, mode, at| {
                    let src: $t<S $(, $n)*> = build::<_, S>(w);
                    cast_run::<S, T, $t<S $(, $n)*>, $t<T $(, $n)*>>(src, mode, at, S::NAME != "f64", nest::<S, T>, |v| v.try_cast::<T>())
                },
            });
        })*};
    }
    shapes!(each!());
}
// ---------------------------------------------------------------- user norms
struct MyNorm;
fn note<V>(v: &V) -> u64 {
    let b = bytes(v);
    hash_bytes(&b)
}
impl<V> Norm<V> for MyNorm {
    type Output = f64;
    fn norm(&self, v: &V) -> f64 {
        called(note(v));
        let _own = Owner::make(1);
        f64::from_bits(note(v) & 0x7fef_ffff_ffff_ffff)
    }
    fn metric_distance(&self, a: &V, b: &V) -> f64 {
        called(mix(note(a)) ^ note(b));
        let _own = Owner::make(1);
        f64::from_bits((mix(note(a)) ^ note(b)) & 0x7fef_ffff_ffff_ffff)
    }
}
fn call_once(mode: u8, at: u64, want: u64, f: &dyn Fn() -> f64) -> Res {
    reset(mode, at);
    NEST.set(None);
    let r = catch_unwind(AssertUnwindSafe(f));
    MODE.set(NONE);
    let val = r.map(|x| {
        if x.to_bits() == want & 0x7fef_ffff_ffff_ffff {
            Some(vec![Some(want)])
        } else {
            Some(vec![Some(!want)])
        }
    });
    judge(mode, at, &[want], val, true, false)
}
fn add_norm(v: &mut Vec<Case>) {
    macro_rules! each {
        (; $($t:ident $($n:literal)*);* $(;)?) => {$({
            v.push(Case {
                name: format!("apply_norm:{}{}", stringify!($t), stringify!(<$($n),*>).replace(' ', "")), n: 1, modes: CALLM,
                run: |w, mode, at| {
                    let a: $t<f64 $(, $n)*> = build::<_, f64>(w);
                    call_once(mode, at, note(&a), &|| a.apply_norm(&MyNorm))
                },
            });
            v.push(Case {
                name: format!("apply_metric_distance:{}{}", stringify!($t), stringify!(<$($n),*>).replace(' ', "")), n: 1, modes: CALLM,
                run: |w, mode, at| {
                    let a: $t<f64 $(, $n)*> = build::<_, f64>(w);
                    let b: $t<f64 $(, $n)*> = build::<_, f64>(&w[w.len() / 2..]);
                    call_once(mode, at, mix(note(&a)) ^ note(&b), &|| a.apply_metric_distance(&b, &MyNorm))
                },
            });
        })*};
    }
    each!(; Vector 1; Vector 2; Vector 3; Vector 4; Matrix 1 1; Matrix 2 2; Matrix 3 3; Matrix 4 4; Matrix 2 3; Matrix 3 2; Matrix 4 2; Matrix 1 4; Matrix 3 1);
}
// ---------------------------------------------------------------- Unit of a user type
struct Mine {
    own: Owner,
    x: f64,
}
fn mine(x: f64) -> Mine {
    Mine { own: Owner::make(x.to_bits()), x }
}
impl Normed for Mine {
    type Output = f64;
    fn norm_squared(&self) -> f64 {
        called(1);
        self.x * self.x
    }
    fn norm(&self) -> f64 {
        called(2);
        self.x.abs()
    }
    fn scale(&self, s: f64) -> Self {
        called(3);
        mine(self.x * s)
    }
    fn scale_mut(&mut self, s: f64) {
        called(4);
        self.x *= s
    }
    fn unscale(&self, s: f64) -> Self {
        called(5);
        mine(self.x / s)
    }
    fn unscale_mut(&mut self, s: f64) {
        called(6);
        self.x /= s
    }
    fn normalize(&self) -> Self {
        called(7);
        mine(self.x.signum())
    }
    fn normalize_mut(&mut self) -> f64 {
        called(8);
        let n = self.x.abs();
        self.x = self.x.signum();
        n
    }
    fn try_normalize(&self, t: f64) -> Option<Self> {
        called(9);
        if self.x.abs() > t { Some(mine(self.x.signum())) } else { None }
    }
    fn try_normalize_mut(&mut self, t: f64) -> Option<f64> {
        called(10);
        let n = self.x.abs();
        if n > t {
            self.x = self.x.signum();
            Some(n)
        } else {
            None
        }
    }
    fn distance_squared(&self, o: &Self) -> f64 {
        called(11);
        (self.x - o.x) * (self.x - o.x)
    }
    fn distance(&self, o: &Self) -> f64 {
        called(12);
        (self.x - o.x).abs()
    }
}
fn unit_run(w: &[f64], mode: u8, at: u64, f: fn(Mine, f64) -> Option<(f64, Option<f64>)>) -> Res {
    let mut x = w_at(w, 0);
    if !x.is_finite() || x == 0.0 || x.abs() > 1e100 || x.abs() < 1e-100 {
        x = 3.5;
    }
    let t = if w_at(w, 1) > 0.0 { x.abs() * 0.5 } else { x.abs() * 2.0 };
    let big = t < x.abs();
    reset(mode, at);
    NEST.set(None);
    let m = mine(x);
    let r = catch_unwind(AssertUnwindSafe(|| f(m, t)));
    MODE.set(NONE);
    match r {
        Err(e) if e.is::<SimCrash>() => {
            if CALLS.get() != at {
                return Err(("called-after-panic", format!("{} calls although call {at} panicked", CALLS.get())));
            }
        }
        Err(_) => return Err(("panic", "panicked by itself".into())),
        Ok(v) => {
            if FIRED.get() && mode == PANIC {
                return Err(("panic-swallowed", format!("the panic at call {at} did not reach the caller")));
            }
            match v {
                Some((y, n)) => {
                    if y != x.signum() || n.map(|n| (n - x.abs()).abs() > 1e-9 * x.abs()).unwrap_or(false) {
                        return Err(("wrong-position", format!("unit of {x} is {y} with norm {n:?}")));
                    }
                }
                None if big => return Err(("refused", format!("{x} refused at threshold {t}"))),
                None => {}
            }
        }
    }
    Ok(())
}
fn add_unit(v: &mut Vec<Case>) {
    fn out(u: Unit<Mine>) -> f64 {
        let m = u.into_inner();
        let x = m.x;
        drop(m.own);
        x
    }
    let mut p = |name: &str, run: fn(&[f64], u8, u64) -> Res| v.push(Case { name: format!("unit:{name}"), n: 4, modes: CALLM, run });
    p("from_value", |w, m, a| unit_run(w, m, a, |v, _| Some((out(Unit::from_value(v)), None))));
    p("from_value_with_norm", |w, m, a| {
        unit_run(w, m, a, |v, _| {
            let (u, n) = Unit::from_value_with_norm(v);
            Some((out(u), Some(n)))
        })
    });
    p("try_from_value", |w, m, a| unit_run(w, m, a, |v, t| Unit::try_from_value(v, t).map(|u| (out(u), None))));
    p("try_from_value_with_norm", |w, m, a| unit_run(w, m, a, |v, t| Unit::try_from_value_with_norm(v, t).map(|(u, n)| (out(u), Some(n)))));
}
fn cases() -> &'static Vec<Case> {
    static C: OnceLock<Vec<Case>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        add_map::<Tag, Owner>(&mut v);
        add_map::<Tag, Box<Owner>>(&mut v);
        add_map::<Tag, Option<Owner>>(&mut v);
        add_map::<Tag, Zst>(&mut v);
        add_map::<Tag, String>(&mut v);
        add_map::<Tag, Nz>(&mut v);
        add_map::<Tag, Rf>(&mut v);
        add_map::<Tag, Wide>(&mut v);
        add_map::<Tag, Shape>(&mut v);
        add_map::<Tag, f64>(&mut v);
        add_map::<f64, Owner>(&mut v);
        add_map::<f64, f64>(&mut v);
        add_map::<f64, Nz>(&mut v);
        add_cast::<Num, Owner>(&mut v);
        add_cast::<Num, Own2>(&mut v);
        add_cast::<Num, Zst>(&mut v);
        add_cast::<Num, Txt>(&mut v);
        add_cast::<Num, Nz>(&mut v);
        add_cast::<Num, Rf>(&mut v);
        add_cast::<Num, Wide>(&mut v);
        add_cast::<Num, Shape>(&mut v);
        add_cast::<f64, Owner>(&mut v);
        add_norm(&mut v);
        add_unit(&mut v);
        v
    })
}
fn gen(r: &mut Rng, run: u64, _t: Tier) -> Plan {
    let cs = cases();
    let idx: Vec<usize> = (0..cs.len()).collect();
    let c = &cs[crate::common::theme(&idx, 3, run)];
    let mut p = Plan::default();
    let mut prev: Option<Vec<f64>> = None;
    for _ in 0..1 + r.below(3) {
        let pal = Palette::new(r);
        let mut w = pal.words(r, 20);
        if let Some(q) = &prev {
            // the same content again, or nearly
            if r.chance(1, 3) {
                w = q.clone();
            }
        }
        prev = Some(w.clone());
        p.steps.push(Step::new(&c.name, w));
    }
    p
}
fn mode_name(m: u8) -> &'static str {
    match m {
        PANIC => "panic",
        REFUSE => "refuse",
        REENTER => "reenter",
        SRC_PANIC => "component-panic",
        _ => "none",
    }
}
fn exec(p: &Plan, rep: &mut Rep) {
    let cs = cases();
    for (i, s) in p.steps.iter().enumerate() {
        let c = match cs.iter().find(|c| c.name == s.op) {
            Some(c) => c,
            None => continue,
        };
        let pinned: Vec<(u8, u64)> = p.faults.iter().filter(|f| f.step == i).map(|f| ([PANIC, REFUSE, REENTER, SRC_PANIC].into_iter().find(|m| mode_name(*m) == f.kind).unwrap_or(NONE), f.at)).collect();
        let points: Vec<(u8, u64)> = if pinned.is_empty() {
            let mut v = vec![(NONE, 0)];
            for m in c.modes {
                for at in 1..=c.n as u64 {
                    v.push((*m, at));
                }
            }
            v.push((NONE, 0));
            v
        } else {
            pinned
        };
        for (mode, at) in points {
            let r = (c.run)(&s.args, mode, at);
            rep.evals += 1;
            rep.events += CALLS.get();
            let r = r.and_then(|_| balance().map_err(|m| ("release", m)));
            if let Err((class, d)) = r {
                let mut pin = p.clone();
                pin.faults = vec![Fault { step: i, at, kind: mode_name(mode).into(), val: 0 }];
                return rep.fail(class, format!("step {i} {} with fault {} at call {at}: {d}", s.op, mode_name(mode)), Some(pin));
            }
            if FIRED.get() {
                rep.count(&format!("fault: {}", mode_name(mode)), 1);
                let mut h = hash_bytes(s.op.as_bytes()) ^ mode as u64 ^ at << 8;
                for a in &s.args {
                    h = mix(h ^ a.to_bits());
                }
                rep.state(h);
            } else {
                rep.count("undisturbed executions", 1);
            }
        }
    }
}
