//! The seam every scalar operation of the simulated number type goes through, plus the per-thread
//! fault state.  One real thread runs at a time (see sched.rs), so plain statics are enough.
use std::cell::Cell;

pub const MAXTH: usize = 8;
thread_local! {
    pub static TID: Cell<usize> = const { Cell::new(0) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FK {
    Panic,
    Poison,
    Nest,
}
#[derive(Clone, Copy, Debug)]
pub struct Armed {
    pub at: u64,
    pub kind: FK,
    pub val: u64,
}
#[derive(Clone, Copy)]
pub struct Watch {
    ptr: *const u8,
    len: usize,
    hash: u64,
}
pub struct Th {
    pub armed: bool,
    pub events: u64,
    pub budget: u64,
    pub faults: Vec<Armed>,
    pub fidx: usize,
    pub watch: Vec<Watch>,
    pub watch_broken: Option<u64>,
    pub fired: u32,
    pub depth: u32,
    pub nest: Option<fn(u64)>,
    pub allocs: u64,
    pub max_events: u64,
    /// the simulated surroundings, and how often something looked at them (see world.rs)
    pub world: u64,
    pub looked: u64,
}
impl Th {
    const fn new() -> Th {
        Th {
            armed: false,
            events: 0,
            budget: 1 << 40,
            faults: Vec::new(),
            fidx: 0,
            watch: Vec::new(),
            watch_broken: None,
            fired: 0,
            depth: 0,
            nest: None,
            allocs: 0,
            max_events: 0,
            world: 0,
            looked: 0,
        }
    }
}
static mut THS: [Th; MAXTH] = [const { Th::new() }; MAXTH];
#[inline]
pub fn th() -> &'static mut Th {
    let t = TID.with(|t| t.get());
    th_of(t)
}
#[inline]
pub fn th_of(t: usize) -> &'static mut Th {
    unsafe { &mut *std::ptr::addr_of_mut!(THS).cast::<Th>().add(t) }
}
/// Set when events must also be preemption points.
pub static mut SCHED_ON: bool = false;
/// Set when calls run with the trap flag (instruction-granular preemption).
pub static mut STEP_ON: bool = false;

/// Payloads of the panics the simulator itself raises.
pub struct SimCrash;
pub struct SimBudget;

#[inline]
pub fn ev(r: f64) -> f64 {
    let t = th();
    if !t.armed {
        return r;
    }
    slow(t, r)
}
pub fn ev0() {
    let t = th();
    if t.armed {
        // constants and comparisons: an event, but there is no result to poison
        let _ = slow(t, 0.0);
    }
}
pub fn fnv(ptr: *const u8, len: usize) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut i = 0;
    unsafe {
        while i + 8 <= len {
            h = (h ^ std::ptr::read_unaligned(ptr.add(i) as *const u64)).wrapping_mul(0x100000001b3);
            h ^= h >> 29;
            i += 8;
        }
        while i < len {
            h = (h ^ *ptr.add(i) as u64).wrapping_mul(0x100000001b3);
            i += 1;
        }
    }
    h
}
pub fn check_watch(t: &mut Th) {
    if t.watch_broken.is_none() {
        for w in t.watch.iter() {
            if fnv(w.ptr, w.len) != w.hash {
                t.watch_broken = Some(t.events);
                return;
            }
        }
    }
}
pub fn watch_add(t: &mut Th, ptr: *const u8, len: usize) {
    let hash = fnv(ptr, len);
    t.watch.push(Watch { ptr, len, hash });
}
#[inline(never)]
fn slow(t: &mut Th, r: f64) -> f64 {
    t.events += 1;
    if t.events > t.budget {
        t.armed = false;
        std::panic::resume_unwind(Box::new(SimBudget));
    }
    if !t.watch.is_empty() {
        check_watch(t);
    }
    let mut r = r;
    while t.fidx < t.faults.len() && t.faults[t.fidx].at <= t.events {
        let f = t.faults[t.fidx];
        t.fidx += 1;
        if f.at < t.events {
            continue;
        }
        t.fired += 1;
        match f.kind {
            FK::Panic => {
                t.armed = false;
                std::panic::resume_unwind(Box::new(SimCrash));
            }
            FK::Poison => r = f64::from_bits(f.val),
            FK::Nest => {
                if let Some(n) = t.nest {
                    if t.depth < 3 {
                        t.armed = false;
                        let save = (t.events, t.budget, std::mem::take(&mut t.watch), t.watch_broken.take(), std::mem::take(&mut t.faults), t.fidx, t.fired);
                        t.depth += 1;
                        n(f.val);
                        t.depth -= 1;
                        t.events = save.0;
                        t.budget = save.1;
                        t.watch = save.2;
                        t.watch_broken = save.3;
                        t.faults = save.4;
                        t.fidx = save.5;
                        t.fired = save.6;
                        t.armed = true;
                    }
                }
            }
        }
    }
    unsafe {
        if SCHED_ON && !STEP_ON {
            crate::sched::point();
        }
    }
    r
}
/// Begin the window in which faults may fire.
#[inline(never)]
pub fn arm() {
    let t = th();
    t.events = 0;
    t.looked = 0;
    t.armed = true;
    crate::alloc::arm();
    unsafe {
        if STEP_ON {
            crate::step::on();
        }
    }
}
#[inline(never)]
pub fn disarm() {
    unsafe {
        if STEP_ON {
            crate::step::off();
        }
    }
    crate::alloc::disarm();
    let t = th();
    t.armed = false;
    if t.events > t.max_events {
        t.max_events = t.events;
    }
    if !t.watch.is_empty() {
        check_watch(t);
    }
}
