//! C06: the result of a call depends only on its arguments - not on what came before, not on what
//! is in progress, not on how often it was made.
use crate::cat::cat;
use crate::common::*;
use crate::ctx::*;
use crate::hook;
use crate::plan::*;
use crate::rng::{hash_bytes, Palette, Rng};
use crate::run::*;
use crate::sc::SK;
use crate::sys;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        runs: |t| if t == Tier::Quick { 110_000 } else { 1_600_000 },
        gen,
        exec,
        rule: "A run is a seeded history of 2-12 calls around one catalogue entry (same call, same call with one argument word changed, other calls on the same type, other scalar kinds), with seeded panics inside calls, nested calls made from inside scalar operations, stack garbage, and up to 70,000 repetitions; every call is compared bit for bit with the same call alone in a fresh process. A history is non-trivial if at least two library calls ran in it.",
        measure: "distinct (sequence of calls, fault kinds and outcomes) histories, by 64-bit hash",
        unit: "scalar operations of the simulated scalar",
        cpu_ms: 90_000,
    }
}
fn kind_swap(name: &str, r: &mut Rng) -> String {
    let k = ["sim", "f64", "f32"];
    match name.split_once(':') {
        Some((_, n)) => format!("{}:{}", r.pick(&k), n),
        None => name.into(),
    }
}
fn gen(r: &mut Rng, run: u64, tier: Tier) -> Plan {
    let c = cat();
    let mut p = Plan::default();
    let all: Vec<usize> = (0..c.ops.len()).collect();
    let pal = Palette::new(r);
    if run % 3 == 0 {
        // one long history, in two orders
        p.steps.push(Step { tid: 0, op: c.ops[theme(&all, 13, run / 3)].full(), args: vec![], x: vec![(r.next() >> 2) as i64] });
        p.set("orders", 160);
        return p;
    }
    if run % 6 == 2 {
        // repetition: one call, again and again, then many others of its kind, a relative, and the call once more
        let native: Vec<usize> = select(|o| o.sk != SK::Sim);
        let op = &c.ops[if run % 18 == 14 { theme(&deep().iter().copied().filter(|&i| c.ops[i].sk != SK::Sim).collect::<Vec<_>>(), 16, run / 18) } else { theme(&native, 11, run / 6) }];
        let n = if tier == Tier::Quick { *r.pick(&[70_000, 70_000, 70_000, 70_000, 70_000, 70_000, 70_000, 70_000, 70_000, 1_100_000]) } else { *r.pick(&[70_000, 140_000, 300_000, 1_100_000, 3_000_000]) };
        let n = if op.flags & INPLACE != 0 { n / 3 } else { n };
        let n = if op.flags & RENDER != 0 { 3_000 } else { n };
        let a = pal.words(r, WORDS);
        let mut s = Step::new(&op.full(), a.clone());
        s.x = vec![n, if op.flags & RENDER != 0 { 12 } else { 150 }, (r.next() >> 2) as i64];
        p.steps.push(s);
        p.steps.push(Step::new(&op.full(), mutate(r, &pal, &a)));
        p.steps.push(Step::new(&op.full(), a));
        return p;
    }
    let ti = if run % 12 == 10 { theme(deep(), 17, run / 12) } else { theme(&all, 12, run / 6 * 3 + [0, 0, 0, 0, 1, 2][(run % 6) as usize]) };
    let th = &c.ops[ti];
    let mut last = pal.words(r, WORDS);
    let n = 2 + r.below(9);
    for _ in 0..n {
        let (name, args) = match r.below(20) {
            0..=2 => (th.full(), last.clone()),
            3..=7 => (th.full(), mutate(r, &pal, &last)),
            8..=11 => (th.full(), pal.words(r, WORDS)),
            12..=14 => (c.ops[c.related(r, ti)].full(), last.clone()),
            15..=16 => (c.ops[c.related(r, ti)].full(), pal.words(r, WORDS)),
            17 => (kind_swap(&th.full(), r), last.clone()),
            _ => (r.pick(&c.ops).full(), pal.words(r, WORDS)),
        };
        let mut s = Step::new(&name, args.clone());
        if r.chance(1, 10) {
            s.x = vec![2 + r.below(40) as i64];
        }
        p.steps.push(s);
        last = args;
    }
    let n = p.steps.len();
    for i in 0..n {
        if r.chance(1, 4) {
            p.faults.push(Fault { step: i, at: 1 + r.below(40), kind: "panic".into(), val: 0 });
        } else if r.chance(1, 3) {
            for _ in 0..1 + r.below(3) {
                p.faults.push(Fault { step: i, at: 1 + r.below(30), kind: "nest".into(), val: r.below(n as u64) });
            }
        }
    }
    p
}
/// how often each further argument set is repeated
const EACH: u64 = 300;
struct Ready {
    op: Op,
    args: Vec<f64>,
    base: Obs,
}
static mut READY: Vec<Option<Ready>> = Vec::new();
static mut NESTED: (u64, Option<String>) = (0, None);
fn nest(i: u64) {
    unsafe {
        let rd = &*std::ptr::addr_of!(READY);
        let ns = &mut *std::ptr::addr_of_mut!(NESTED);
        if let Some(Some(r)) = rd.get(i as usize) {
            ns.0 += 1;
            let o = run_op(&r.op, &r.args);
            if !o.same(&r.base) && ns.1.is_none() {
                ns.1 = Some(format!("nested call {} gave {} but alone it gives {}", r.op.full(), o.show(), r.base.show()));
            }
        }
    }
}
fn varied(seed: u64, m: u64) -> Vec<Vec<f64>> {
    let mut r = Rng::new(seed, 77);
    let mut out: Vec<Vec<f64>> = vec![];
    for _ in 0..m {
        let pal = if r.chance(1, 2) { Palette::tame(&mut r) } else { Palette::new(&mut r) };
        let a = match r.below(3) {
            0 if !out.is_empty() => {
                let b = r.pick(&out).clone();
                mutate(&mut r, &pal, &b)
            }
            _ => pal.words(&mut r, WORDS),
        };
        out.push(a);
    }
    out
}
/// operation, arguments, and the scalar operation at which it is interrupted (0: it is not)
type Call = (Op, Vec<f64>, u64);
/// Run the listed calls in the given order, in a fresh process.
fn in_order(calls: &[Call], order: &[usize]) -> Option<Vec<Obs>> {
    let b = sys::isolated(10_000, 30_000, &mut || {
        let mut all = vec![];
        for &i in order {
            let f = calls[i].2;
            set_faults(if f > 0 { vec![hook::Armed { at: f, kind: hook::FK::Panic, val: 0 }] } else { vec![] }, 1 << 20);
            // where in the history it is decides in what surroundings the call is made
            paint(order[0] as u64 * 7919 + i as u64);
            let o = run_op(&calls[i].0, &calls[i].1).bytes();
            all.extend_from_slice(&(o.len() as u64).to_le_bytes());
            all.extend_from_slice(&o);
        }
        all
    })
    .ok()?;
    let mut out: Vec<Option<Obs>> = vec![None; calls.len()];
    let mut p = 0;
    for &i in order {
        let n = u64::from_le_bytes(b[p..p + 8].try_into().unwrap()) as usize;
        out[i] = Some(Obs::parse(&b[p + 8..p + 8 + n]));
        p += 8 + n;
    }
    out.into_iter().collect()
}
/// A long history in two different orders: every call has to give the same in both.
fn orders(p: &Plan, rep: &mut Rep) {
    let c = cat();
    let st = &p.steps[0];
    let ti = match c.ops.iter().position(|o| o.full() == st.op) {
        Some(i) => i,
        None => return,
    };
    let mut r = Rng::new(st.xi(0) as u64, 5);
    let m = p.get("orders") as u64;
    let mut sets = varied(st.xi(0) as u64, m);
    let mut calls = vec![];
    for _ in 0..m {
        let op = match r.below(10) {
            0..=3 => c.ops[ti],
            4..=8 => c.ops[c.related(&mut r, ti)],
            _ => *r.pick(&c.ops),
        };
        let a = if r.chance(1, 4) { r.pick(&sets).clone() } else { sets.pop().unwrap_or_default() };
        let f = if op.sk == SK::Sim && r.chance(1, 6) { 1 + r.below(40) } else { 0 };
        calls.push((op, a, f));
        if sets.is_empty() {
            break;
        }
    }
    let n = calls.len();
    let fwd: Vec<usize> = (0..n).collect();
    let mut bwd = fwd.clone();
    for i in (1..n).rev() {
        bwd.swap(i, r.below(i as u64 + 1) as usize);
    }
    let (a, b) = match (in_order(&calls, &fwd), in_order(&calls, &bwd)) {
        (Some(a), Some(b)) => (a, b),
        (Some(_), None) | (None, Some(_)) => {
            return rep.fail("stuck-in-one-order", format!("a history of {n} calls around {} finishes in one order and not in another", st.op), None);
        }
        _ => return rep.count("histories ended by a stuck call (judged by C07)", 1),
    };
    rep.evals += 2 * n as u64;
    rep.count("calls compared between two orders of one history", n as u64);
    rep.count("fault: call interrupted by a panic", a.iter().filter(|o| o.out == Out::Crash).count() as u64);
    for i in 0..n {
        rep.events += a[i].events;
        if !a[i].same(&b[i]) {
            // an explicit history that shows it
            let one = in_order(&calls[i..i + 1], &[0]);
            let f = one.map(|o| !o[0].same(&a[i])).unwrap_or(true);
            let ord = if f { &fwd } else { &bwd };
            let mut q = Plan::default();
            for &k in ord {
                q.steps.push(Step::new(&calls[k].0.full(), calls[k].1.clone()));
                if calls[k].2 > 0 {
                    q.faults.push(Fault { step: q.steps.len() - 1, at: calls[k].2, kind: "panic".into(), val: 0 });
                }
                if k == i {
                    break;
                }
            }
            return rep.fail("result-differs/order", format!("{} gave {} in one order of the history and {} in another", calls[i].0.full(), a[i].show(), b[i].show()), if calls[i].2 == 0 { Some(q) } else { None });
        }
    }
    let mut h = 0u64;
    for i in 0..n {
        h = crate::rng::mix(h.rotate_left(9) ^ hash_bytes(calls[bwd[i]].0.full().as_bytes()) ^ a[i].hash());
    }
    rep.count("history length", 2 * n as u64);
    rep.state(h);
}
/// Rounding mode, flush-to-zero and exception masks of this thread.
fn float_env() -> u32 {
    let mut sse = 0u32;
    let mut x87 = 0u16;
    unsafe {
        std::arch::asm!("stmxcsr [{0}]", "fnstcw [{1}]", in(reg) &mut sse, in(reg) &mut x87, options(nostack));
    }
    (sse & 0xffc0) | (x87 as u32) << 16
}
fn exec(p: &Plan, rep: &mut Rep) {
    if p.get("orders") > 0 && p.steps.len() == 1 {
        return orders(p, rep);
    }
    let c = cat();
    let mut memo: std::collections::HashMap<u64, Option<Obs>> = Default::default();
    let mut rd: Vec<Option<Ready>> = vec![];
    for s in &p.steps {
        let op = match c.find(&s.op) {
            Some(o) => *o,
            None => {
                rd.push(None);
                continue;
            }
        };
        let mut key: Vec<u8> = s.op.as_bytes().to_vec();
        for a in &s.args {
            key.extend_from_slice(&a.to_bits().to_le_bytes());
        }
        let b = memo.entry(hash_bytes(&key)).or_insert_with(|| alone(&op, &s.args).ok()).clone();
        rd.push(b.map(|base| Ready { op, args: s.args.clone(), base }));
    }
    unsafe { READY = rd };
    let rd = unsafe { &*std::ptr::addr_of!(READY) };
    hook::th().nest = Some(nest);
    let mut h = 0u64;
    let mut ncalls = 0;
    for (i, s) in p.steps.iter().enumerate() {
        let r = match &rd[i] {
            Some(r) => r,
            None => continue,
        };
        let times = s.xi(0).max(1) as u64;
        if times > 1000 && r.op.sk != SK::Sim {
            let more = varied(s.xi(2) as u64, s.xi(1).max(0) as u64);
            let calls: Vec<Call> = more.into_iter().map(|a| (r.op, a, 0)).collect();
            let fwd: Vec<usize> = (0..calls.len()).collect();
            let before = if calls.is_empty() { None } else { in_order(&calls, &fwd) };
            set_faults(vec![], 1 << 40);
            paint(p.run);
            let (o, odd, second) = run_op_many(&r.op, &r.args, times);
            rep.evals += times;
            rep.count("calls repeated in one process", times);
            if !o.same(&r.base) || (o.out == Out::Ok && second != r.base.res) {
                return rep.fail("result-differs/first", format!("step {i} {} gave {} but alone it gives {}", s.op, o.show(), r.base.show()), None);
            }
            if let Some(k) = odd {
                return rep.fail("result-differs/repeat", format!("step {i} {}: repetition {k} of the same call gave a different result", s.op), None);
            }
            if let Some(b) = before {
                for k in (0..calls.len()).rev() {
                    paint(k as u64);
                    let (o, odd, second) = run_op_many(&r.op, &calls[k].1, EACH);
                    rep.evals += EACH;
                    let off = odd.is_some() || (o.out == Out::Ok && second != b[k].res);
                    if !o.same(&b[k]) || off {
                        let mut q = Plan::default();
                        let mut s0 = s.clone();
                        s0.x.truncate(1);
                        q.steps.push(s0);
                        for j in (k..calls.len()).rev() {
                            let mut sj = Step::new(&s.op, calls[j].1.clone());
                            sj.x = vec![1001];
                            q.steps.push(sj);
                        }
                        return rep.fail("result-differs/after-repeats", format!("step {i} {}: after {times} calls a call with other arguments{} gave {} but early in a process it gives {}", s.op, if off { " (repeated)" } else { "" }, o.show(), b[k].show()), Some(q));
                    }
                }
                rep.count("calls with other arguments after the repetitions", calls.len() as u64);
            }
            ncalls += 2;
            h = crate::rng::mix(h ^ hash_bytes(s.op.as_bytes()) ^ o.hash());
            continue;
        }
        let times = if times > 1000 { times / 40 } else { times };
        for k in 0..times {
            let f = if r.op.sk == SK::Sim { armed_for(p, i) } else { vec![] };
            let crash = f.iter().any(|x| x.kind == hook::FK::Panic);
            let nests = f.iter().any(|x| x.kind == hook::FK::Nest);
            set_faults(f, 1 << 20);
            paint(p.run.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(i as u64 + k));
            let env = float_env();
            let o = run_op(&r.op, &r.args);
            let left = float_env();
            let fired = o.fired;
            if left != env {
                return rep.fail("float-environment", format!("step {i} {}: the processor's floating-point control word was {env:x} before the call and is {left:x} after it, so later results depend on it", s.op), None);
            }
            rep.evals += 1;
            rep.events += o.events;
            ncalls += 1;
            h = crate::rng::mix(h.rotate_left(9) ^ hash_bytes(s.op.as_bytes()) ^ fired as u64);
            if crash && fired > 0 && o.out == Out::Crash {
                rep.count("fault: call interrupted by a panic", 1);
                continue;
            }
            if nests && fired > 0 {
                rep.count("fault: nested call made from inside a call", fired as u64);
            }
            let ns = unsafe { &mut *std::ptr::addr_of_mut!(NESTED) };
            if let Some(d) = ns.1.take() {
                return rep.fail("nested-differs", format!("step {i} {}: {d}", s.op), None);
            }
            if !o.same(&r.base) {
                return rep.fail("result-differs", format!("step {i} {} gave {} but alone in a fresh process it gives {}", s.op, o.show(), r.base.show()), None);
            }
            if matches!(o.out, Out::Panic(_)) {
                rep.count("calls refused by a documented panic", 1);
            }
        }
    }
    rep.count("history length", ncalls);
    if ncalls >= 2 {
        rep.state(h);
    }
}
