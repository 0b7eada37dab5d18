//! One simulated call: operands from the plan, the armed window around the real library call, and
//! what was observed.
use crate::hook::{self, SimBudget, SimCrash};
use crate::sc::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const INPLACE: u32 = 1;
pub const PARTIAL: u32 = 2;
/// not subject to the per-component old-or-new rule (several dependent updates)
pub const MULTI: u32 = 4;
/// allocates by design of the harness (positive control)
pub const CONTROL: u32 = 8;
pub const RENDER: u32 = 16;

#[derive(Clone, Copy)]
pub struct Op {
    pub name: &'static str,
    pub sk: SK,
    pub flags: u32,
    pub run: fn(&mut Ctx),
}
impl Op {
    pub fn full(&self) -> String {
        format!("{}:{}", self.sk.name(), self.name)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok,
    Crash,
    Budget,
    Panic(String),
}
pub struct Ctx<'a> {
    pub args: &'a [f64],
    pub pos: usize,
    pub last: [f64; VW],
    /// later arguments repeat the first one, more or less (see next_arg)
    mirror: u64,
    argno: u32,
    first_end: usize,
    arg_start: usize,
    pub res: Vec<u64>,
    pub pre: Vec<u64>,
    pub post: Vec<u64>,
    pub out: Out,
    pub events: u64,
    /// repetitions asked for
    pub many: u64,
    /// repetition whose result differed
    pub odd_one: Option<u64>,
    pub second: Vec<u64>,
}
impl<'a> Ctx<'a> {
    pub fn new(args: &'a [f64]) -> Ctx<'a> {
        let mirror = if args.len() == 64 { crate::sc::sel(args[63], 30) } else { 0 };
        Ctx { args, pos: 0, last: [1.0; VW], mirror, argno: 0, first_end: 0, arg_start: 0, res: Vec::new(), pre: Vec::new(), post: Vec::new(), out: Out::Ok, events: 0, many: 0, odd_one: None, second: Vec::new() }
    }
    pub fn word(&mut self) -> f64 {
        self.word2(true)
    }
    /// a word that selects the form of an operand
    pub fn selw(&mut self) -> f64 {
        self.word2(false)
    }
    /// Large operands take more words than the plan has; the words are then used again.
    fn arg_at(&self, i: usize) -> f64 {
        let n = self.args.len();
        let j = if i >= n && n == 64 { (i * 7 + 3) % 62 } else { i };
        self.args.get(j).copied().unwrap_or(1.0)
    }
    fn word2(&mut self, value: bool) -> f64 {
        let w = self.arg_at(self.pos);
        let k = self.pos - self.arg_start;
        self.pos += 1;
        if self.argno > 1 && (1..=12).contains(&self.mirror) && k < self.first_end {
            let b = self.args.get(k).copied().unwrap_or(1.0);
            if !value {
                return b;
            }
            // nearly equal or nearly opposite to the first argument
            let eps = [0.0, 1e-16, 1e-12, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 2e-3, 5e-3, 1e-2, 0.1][(self.mirror - 1) as usize];
            let m = crate::rng::mix(w.to_bits() ^ self.args[62].to_bits() ^ k as u64);
            let noise = (m >> 12) as f64 / (1u64 << 51) as f64 - 1.0;
            let x = b + eps * noise * if b.is_finite() && b != 0.0 { b.abs().min(1e100) } else { 1.0 };
            return if crate::sc::sel(self.args[62], 4) == 3 { -x } else { x };
        }
        w
    }
    /// Operands are drawn one after another; this marks where the next one starts.
    pub fn next_arg(&mut self) {
        if self.argno == 1 {
            self.first_end = self.pos;
        }
        self.argno += 1;
        self.arg_start = self.pos;
    }
    #[inline(never)]
    pub fn watch_raw(&mut self, p: *const u8, n: usize) {
        let t = hook::th();
        hook::watch_add(t, p, n);
    }
    pub fn watch<T>(&mut self, t: &T) {
        self.watch_raw(t as *const T as *const u8, core::mem::size_of::<T>());
    }
    pub fn hold<T: Dig>(&mut self, t: &T) {
        t.dig(&mut self.pre);
    }
    pub fn after<T: Dig>(&mut self, t: &T) {
        t.dig(&mut self.post);
    }
    #[inline(always)]
    pub fn call<R: Dig>(&mut self, mut f: impl FnMut() -> R) -> Option<R> {
        let mut r: Option<R> = None;
        // the library call itself; nothing else of the harness runs inside the window
        self.call_dyn(&mut || r = Some(f()));
        if self.many > 0 {
            self.repeat(&mut |out| f().dig(out));
        }
        r
    }
    /// Repeat a call that has no in-place operand and compare every result with the first.
    #[inline(never)]
    fn repeat(&mut self, f: &mut dyn FnMut(&mut Vec<u64>)) {
        if self.out != Out::Ok {
            return;
        }
        let mut first = Vec::new();
        let mut cur = Vec::new();
        let many = self.many;
        let mut off = None;
        let _ = catch_unwind(AssertUnwindSafe(|| {
            f(&mut first);
            for k in 2..many {
                cur.clear();
                off = Some(k);
                f(&mut cur);
                if cur != first {
                    return;
                }
            }
            off = None;
        }));
        self.odd_one = off;
        self.second = first;
    }
    #[inline(never)]
    pub fn call_dyn(&mut self, f: &mut dyn FnMut()) {
        hook::arm();
        let r = catch_unwind(AssertUnwindSafe(f));
        hook::disarm();
        self.events = hook::th().events;
        if let Err(p) = r {
            self.caught(p);
        }
    }
    #[inline(never)]
    fn caught(&mut self, p: Box<dyn std::any::Any + Send>) {
        self.out = if p.is::<SimCrash>() {
            Out::Crash
        } else if p.is::<SimBudget>() {
            Out::Budget
        } else if let Some(s) = p.downcast_ref::<&str>() {
            Out::Panic(s.to_string())
        } else if let Some(s) = p.downcast_ref::<String>() {
            Out::Panic(s.clone())
        } else {
            Out::Panic("?".into())
        };
    }
    #[inline(never)]
    pub fn done(&mut self) {
        hook::th().watch.clear();
    }
    pub fn digest<R: Dig>(&mut self, r: &Option<R>) {
        if let Some(v) = r {
            v.dig(&mut self.res);
        }
    }
}
/// What one executed call looked like from outside.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub out: Out,
    pub res: Vec<u64>,
    pub pre: Vec<u64>,
    pub post: Vec<u64>,
    pub events: u64,
    pub broken: Option<u64>,
    pub fired: u32,
}
pub fn run_op(op: &Op, args: &[f64]) -> Obs {
    run_op_many(op, args, 0).0
}
pub fn run_op_many(op: &Op, args: &[f64], many: u64) -> (Obs, Option<u64>, Vec<u64>) {
    let mut c = Ctx::new(args);
    c.many = if op.flags & INPLACE != 0 { 0 } else { many };
    {
        let t = hook::th();
        t.watch.clear();
        t.watch_broken = None;
        t.fired = 0;
        t.fidx = 0;
    }
    crate::world::displaced(&mut || (op.run)(&mut c));
    c.done();
    if many > 0 && op.flags & INPLACE != 0 && c.out == Out::Ok {
        // in-place calls are repeated on operands built anew each time
        for k in 2..many {
            let mut d = Ctx::new(args);
            (op.run)(&mut d);
            d.done();
            if d.out != Out::Ok || d.res != c.res || d.post != c.post {
                c.odd_one = Some(k);
                break;
            }
        }
        c.second = c.res.clone();
    }
    let t = hook::th();
    (Obs { out: c.out, res: c.res, pre: c.pre, post: c.post, events: c.events, broken: t.watch_broken.take(), fired: t.fired }, c.odd_one, c.second)
}
impl Obs {
    pub fn bytes(&self) -> Vec<u8> {
        let mut w: Vec<u64> = vec![];
        let (k, m) = match &self.out {
            Out::Ok => (0, ""),
            Out::Crash => (1, ""),
            Out::Budget => (2, ""),
            Out::Panic(s) => (3, s.as_str()),
        };
        w.push(k);
        w.push(self.events);
        w.push(self.broken.map(|x| x + 1).unwrap_or(0));
        w.push(self.fired as u64);
        for v in [&self.res, &self.pre, &self.post] {
            w.push(v.len() as u64);
            w.extend_from_slice(v);
        }
        let mut b: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
        b.extend_from_slice(m.as_bytes());
        b
    }
    pub fn parse(b: &[u8]) -> Obs {
        let mut p = 0;
        let mut w = || {
            let v = u64::from_le_bytes(b[p..p + 8].try_into().unwrap());
            p += 8;
            v
        };
        let k = w();
        let events = w();
        let br = w();
        let fired = w() as u32;
        let mut vs = vec![];
        for _ in 0..3 {
            let n = w();
            vs.push((0..n).map(|_| w()).collect::<Vec<u64>>());
        }
        let m = String::from_utf8_lossy(&b[p..]).into_owned();
        let out = match k {
            0 => Out::Ok,
            1 => Out::Crash,
            2 => Out::Budget,
            _ => Out::Panic(m),
        };
        let post = vs.pop().unwrap();
        let pre = vs.pop().unwrap();
        let res = vs.pop().unwrap();
        Obs { out, res, pre, post, events, broken: if br > 0 { Some(br - 1) } else { None }, fired }
    }
    /// Same observable outcome?  (panic messages are not compared)
    pub fn same(&self, o: &Obs) -> bool {
        std::mem::discriminant(&self.out) == std::mem::discriminant(&o.out) && self.res == o.res && self.post == o.post
    }
    pub fn hash(&self) -> u64 {
        let mut h = self.out == Out::Ok;
        let mut x = h as u64;
        h = false;
        let _ = h;
        for w in self.res.iter().chain(self.post.iter()) {
            x = crate::rng::mix(x.rotate_left(5) ^ w);
        }
        x
    }
    pub fn show(&self) -> String {
        let f = |v: &Vec<u64>| v.iter().map(|w| format!("{:?}", f64::from_bits(*w))).collect::<Vec<_>>().join(" ");
        format!("{:?} result[{}] operands-after[{}]", self.out, f(&self.res), f(&self.post))
    }
}

#[macro_export]
macro_rules! opk {
    (ref $c:ident $a:ident) => { $c.watch(&$a); };
    (mut $c:ident $a:ident) => { $c.hold(&$a); };
}
#[macro_export]
macro_rules! opz {
    (ref $c:ident $a:ident) => {};
    (mut $c:ident $a:ident) => { $c.after(&$a); };
}
#[macro_export]
macro_rules! op {
    ($v:ident, $name:expr, $fl:expr, ($($k:tt $a:ident : $t:ty),*) => $e:expr) => {
        $v.push(Op {
            name: $name,
            sk: S::KIND,
            flags: $fl,
            #[allow(unused_mut, unused_parens)]
            run: |c: &mut Ctx| {
                $( c.next_arg(); let mut $a: $t = <$t as Gen>::gen(c); )*
                $( $crate::opk!($k c $a); )*
                let r = c.call(|| $e);
                c.digest(&r);
                $( $crate::opz!($k c $a); )*
                c.done();
            },
        })
    };
}
