//! Cooperative scheduling of real threads: exactly one thread holds the baton; at every point (a
//! scalar operation, or a machine instruction in step mode) the plan may pass it to another thread.
use crate::hook::{self, TID};
use crate::sys::*;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};

const MAIN: u32 = 1000;
static CUR: AtomicU32 = AtomicU32::new(MAIN);
static POS: AtomicU64 = AtomicU64::new(0);
static BEAT: AtomicU64 = AtomicU64::new(0);
static DONE: [AtomicBool; hook::MAXTH] = [const { AtomicBool::new(false) }; hook::MAXTH];
static OSID: [AtomicU32; hook::MAXTH] = [const { AtomicU32::new(0) }; hook::MAXTH];
static mut SW: Vec<(u64, u32)> = Vec::new();
static mut SWI: usize = 0;
static mut TAKEN: u64 = 0;
static mut TRACE: u64 = 0;
static mut HOT: Vec<(u64, u32)> = Vec::new();
static mut HOTN: u64 = 0;
static mut HOT_TAKEN: u64 = 0;
/// how often each thread has been about to touch shared data
static mut HOT_BY: [u64; hook::MAXTH] = [0; hook::MAXTH];
pub fn hot_by(t: usize) -> u64 {
    unsafe { HOT_BY[t % hook::MAXTH] }
}

fn me() -> u32 {
    TID.with(|t| t.get()) as u32
}
fn wait_for_baton(who: u32) {
    loop {
        let c = CUR.load(SeqCst);
        if c == who {
            return;
        }
        futex(&CUR, 128, c, std::ptr::null());
    }
}
fn give(to: u32) {
    CUR.store(to, SeqCst);
    futex(&CUR, 129, i32::MAX as u32, std::ptr::null());
}
#[inline(never)]
pub fn point() {
    let pos = POS.fetch_add(1, SeqCst) + 1;
    unsafe {
        let sw = &*std::ptr::addr_of!(SW);
        while SWI < sw.len() && sw[SWI].0 <= pos {
            let t = sw[SWI].1;
            SWI += 1;
            if t != me() && (t as usize) < hook::MAXTH && !DONE[t as usize].load(SeqCst) {
                TAKEN += 1;
                TRACE = crate::rng::mix(TRACE ^ pos.wrapping_mul(31) ^ t as u64);
                let m = me();
                give(t);
                wait_for_baton(m);
            }
        }
    }
}
/// The next instruction touches state that calls could share: the plan may pass the baton here too.
#[inline(never)]
pub fn hot() {
    unsafe {
        HOTN += 1;
        HOT_BY[me() as usize % hook::MAXTH] += 1;
        let hs = &*std::ptr::addr_of!(HOT);
        if let Some(&(_, t)) = hs.iter().find(|x| x.0 == HOTN) {
            if t != me() && (t as usize) < hook::MAXTH && !DONE[t as usize].load(SeqCst) {
                TAKEN += 1;
                HOT_TAKEN += 1;
                TRACE = crate::rng::mix(TRACE ^ HOTN.wrapping_mul(131) ^ t as u64);
                let m = me();
                give(t);
                wait_for_baton(m);
            }
        }
    }
}
fn state_of(tid: u32) -> u8 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(')').next().and_then(|x| x.trim().bytes().next()).unwrap_or(b'?')
}
pub struct Outcome {
    pub points: u64,
    pub switches: u64,
    pub trace: u64,
    pub hot_points: u64,
    pub hot_taken: u64,
    /// this thread was stuck in the kernel, waiting for something another thread has to do
    pub blocked: Option<u32>,
}
/// Run `body(tid)` on `n` threads under the plan's switches.
pub fn run(n: usize, first: u32, gaps: u64, switches: &[(u64, u32)], hot: &[(u64, u32)], body: &'static (dyn Fn(usize) + Sync)) -> Outcome {
    unsafe {
        SW = switches.to_vec();
        SWI = 0;
        TAKEN = 0;
        TRACE = 0;
        HOT = hot.to_vec();
        HOTN = 0;
        HOT_TAKEN = 0;
        HOT_BY = [0; hook::MAXTH];
        hook::SCHED_ON = true;
    }
    POS.store(0, SeqCst);
    for i in 0..hook::MAXTH {
        DONE[i].store(i >= n, SeqCst);
        OSID[i].store(0, SeqCst);
    }
    let mut hs = vec![];
    for i in 0..n {
        // threads that came and went in between, so that the identities of the others are not consecutive
        for _ in 0..(gaps >> (4 * i)) & 15 {
            if let Ok(h) = std::thread::Builder::new().stack_size(64 << 10).spawn(|| {}) {
                let _ = h.join();
            }
        }
        hs.push(std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
            TID.with(|t| t.set(i));
            OSID[i].store(gettid(), SeqCst);
            futex(&OSID[i], 129, 8, std::ptr::null());
            wait_for_baton(i as u32);
            body(i);
            BEAT.fetch_add(1, SeqCst);
            DONE[i].store(true, SeqCst);
            let next = (0..n).find(|&k| !DONE[k].load(SeqCst)).map(|k| k as u32).unwrap_or(MAIN);
            give(next);
        }));
    }
    for i in 0..n {
        while OSID[i].load(SeqCst) == 0 {
            futex(&OSID[i], 128, 0, std::ptr::null());
        }
    }
    give((first as usize % n) as u32);
    let mut still = 0;
    let mut last = (u64::MAX, 0);
    let mut blocked = None;
    loop {
        let c = CUR.load(SeqCst);
        if c == MAIN {
            break;
        }
        let ts = [0i64, 20_000_000];
        futex(&CUR, 128, c, &ts);
        if CUR.load(SeqCst) == c && c != MAIN {
            let now = (POS.load(SeqCst), c);
            let st = state_of(OSID[c as usize].load(SeqCst));
            if now == last && st == b'S' {
                still += 1;
            } else {
                still = 0;
            }
            last = now;
            if still >= 20 {
                blocked = Some(c);
                break;
            }
        }
    }
    unsafe {
        hook::SCHED_ON = false;
    }
    if blocked.is_none() {
        for h in hs {
            if let Ok(h) = h {
                let _ = h.join();
            }
        }
    }
    unsafe { Outcome { points: POS.load(SeqCst), switches: TAKEN, trace: TRACE, hot_points: HOTN, hot_taken: HOT_TAKEN, blocked } }
}
