//! Pieces shared by the property modules.
#[cfg(feature = "ops")]
use crate::cat::cat;
use crate::ctx::*;
use crate::hook::{self, Armed, FK};
use crate::plan::*;
use crate::rng::{Palette, Rng};
use crate::sys;
#[cfg(feature = "ops")]
use crate::sc::SK;

pub const WORDS: usize = 64;

/// Visit the catalogue in a seed-dependent order, every entry equally often.
pub fn theme(list: &[usize], seed: u64, run: u64) -> usize {
    let n = list.len() as u64;
    let round = run / n;
    let mut r = Rng::new(seed ^ 0x7e3e, round);
    let mut mul = r.next() % n;
    let gcd = |mut a: u64, mut b: u64| {
        while b > 0 {
            let t = a % b;
            a = b;
            b = t;
        }
        a
    };
    while mul == 0 || gcd(mul, n) != 1 {
        mul = r.next() % n;
    }
    let add = r.next() % n;
    list[(((run % n) as u128 * mul as u128 + add as u128) % n as u128) as usize]
}
#[cfg(feature = "ops")]
pub fn select(f: impl Fn(&Op) -> bool) -> Vec<usize> {
    cat().ops.iter().enumerate().filter(|(_, o)| f(o)).map(|(i, _)| i).collect()
}
/// Functions (not operators) that exist for floating point only: the ones with roots, angles, cases and thresholds inside.
#[cfg(feature = "ops")]
pub fn deep() -> &'static [usize] {
    static D: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let whole: std::collections::HashSet<&str> = cat().ops.iter().filter(|o| o.sk == SK::I32).map(|o| o.name).collect();
        select(|o| matches!(o.sk, SK::Sim | SK::F64 | SK::F32) && o.flags & RENDER == 0 && o.name.contains("::") && !whole.contains(o.name))
    })
}
/// Change one or two words.
pub fn mutate(r: &mut Rng, p: &Palette, a: &[f64]) -> Vec<f64> {
    let mut v = a.to_vec();
    let used = 20.min(v.len());
    for _ in 0..1 + r.below(2) {
        let i = r.below(used as u64) as usize;
        v[i] = match r.below(4) {
            0 => -v[i],
            1 => f64::from_bits(v[i].to_bits().wrapping_add(1)),
            _ => p.word(r),
        };
    }
    v
}
/// Write a pattern over the unused part of the stack, so that reading memory nobody wrote shows.
#[inline(never)]
pub fn paint(seed: u64) {
    crate::world::set(seed);
    let mut a = [0u64; 1024];
    for (i, x) in a.iter_mut().enumerate() {
        *x = seed.wrapping_mul(i as u64 | 1);
    }
    std::hint::black_box(&mut a);
}
pub fn set_faults(f: Vec<Armed>, budget: u64) {
    let t = hook::th();
    let mut f = f;
    f.sort_by_key(|x| x.at);
    t.faults = f;
    t.fidx = 0;
    t.budget = budget;
}
pub fn armed_for(p: &Plan, step: usize) -> Vec<Armed> {
    p.faults
        .iter()
        .filter(|f| f.step == step)
        .filter_map(|f| {
            let kind = match f.kind.as_str() {
                "panic" => FK::Panic,
                "poison" => FK::Poison,
                "nest" => FK::Nest,
                _ => return None,
            };
            Some(Armed { at: f.at, kind, val: f.val })
        })
        .collect()
}
/// The call alone in a fresh process.
pub fn alone(op: &Op, args: &[f64]) -> Result<Obs, sys::Died> {
    sys::isolated(3000, 30000, &mut || {
        set_faults(vec![], 1 << 20);
        paint(0);
        run_op(op, args).bytes()
    })
    .map(|b| Obs::parse(&b))
}
/// The smallest integer divided by minus one: no answer, and the machine says so.
pub fn overflowed(m: &str) -> bool {
    m.starts_with("attempt to divide with overflow") || m.starts_with("attempt to calculate the remainder with overflow")
}
pub fn panic_msg(o: &Out) -> &str {
    match o {
        Out::Panic(s) => s,
        _ => "",
    }
}
/// Quiet panic hook: ends the fault window at once, because unwinding is not the library's code.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        crate::step::off();
        crate::alloc::disarm();
        hook::th().armed = false;
        let _ = i;
    }));
}
