//! C04: a panic anywhere inside an in-place update leaves each component old or new.
use crate::cat::cat;
use crate::common::*;
use crate::ctx::*;
use crate::hook::{Armed, FK};
use crate::plan::*;
use crate::rng::{hash_bytes, mix, Palette, Rng};
use crate::run::*;
use crate::sc::SK;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        level: "fault_enumeration",
        runs: |t| if t == Tier::Quick { 240_000 } else { 900_000 },
        gen,
        exec,
        rule: "A run takes one in-place operation with seeded operands, runs it undisturbed, and then runs it again once for every scalar operation inside it with a panic injected exactly there (integer kinds: seeded zero divisors). After each interruption every receiver component must equal its old or its new value and every other operand must be untouched. Non-trivial: the panic fired inside the call.",
        measure: "distinct (operation, interruption point, operand content) interruptions, by 64-bit hash",
        unit: "scalar operations of the simulated scalar",
        cpu_ms: 10_000,
    }
}
fn inplace() -> Vec<usize> {
    select(|o| o.flags & INPLACE != 0 && o.flags & MULTI == 0 && (o.sk == SK::Sim || (o.sk == SK::I32 && (o.name.contains("/=") || o.name.contains("%=")))))
}
fn gen(r: &mut Rng, run: u64, _t: Tier) -> Plan {
    let c = cat();
    let mut p = Plan::default();
    let op = &c.ops[theme(&inplace(), 4, run)];
    let pal = if r.chance(2, 3) { Palette::tame(r) } else { Palette::new(r) };
    let mut w = pal.words(r, WORDS);
    if op.sk == SK::I32 && r.chance(1, 2) {
        for x in w.iter_mut() {
            if r.chance(1, 3) {
                *x = 0.0;
            }
        }
    }
    p.steps.push(Step::new(&op.full(), w));
    p
}
fn exec(p: &Plan, rep: &mut Rep) {
    let c = cat();
    for (i, s) in p.steps.iter().enumerate() {
        let op = match c.find(&s.op) {
            Some(o) => o,
            None => continue,
        };
        set_faults(vec![], 1 << 20);
        let clean = run_op(op, &s.args);
        rep.evals += 1;
        rep.events += clean.events;
        if let Some(e) = clean.broken {
            return rep.fail("operand-modified", format!("step {i} {} modified an operand it only reads (point {e})", s.op), None);
        }
        if op.sk == SK::I32 {
            if let Out::Panic(m) = &clean.out {
                rep.count("fault: integer division by zero inside the call", 1);
                // the quotient is defined component by component: a component that changed must be the quotient
                for (k, (a, b)) in clean.pre.iter().zip(&clean.post).enumerate() {
                    if a != b && !int_quotient_ok(s, &clean, k) {
                        return rep.fail("torn", format!("step {i} {} ({m}) changed component {k} from {} to {}", s.op, *a as i32, *b as i32), None);
                    }
                }
                rep.state(mix(hash_bytes(s.op.as_bytes()) ^ clean.hash()));
            }
            continue;
        }
        if clean.out != Out::Ok {
            continue;
        }
        let pinned: Vec<u64> = p.faults.iter().filter(|f| f.step == i && f.kind == "panic").map(|f| f.at).collect();
        let points: Vec<u64> = if pinned.is_empty() { (1..=clean.events.min(600)).collect() } else { pinned };
        for at in points {
            set_faults(vec![Armed { at, kind: FK::Panic, val: 0 }], 1 << 20);
            let o = run_op(op, &s.args);
            rep.evals += 1;
            rep.events += o.events;
            if o.fired == 0 {
                continue;
            }
            rep.count("fault: panic inside the call", 1);
            let mut pin = p.clone();
            pin.faults = vec![Fault { step: i, at, kind: "panic".into(), val: 0 }];
            if o.out != Out::Crash {
                return rep.fail("panic-swallowed", format!("step {i} {}: the panic at scalar operation {at} did not reach the caller ({:?})", s.op, o.out), Some(pin));
            }
            if let Some(e) = o.broken {
                return rep.fail("operand-modified", format!("step {i} {} modified an operand it only reads (point {e})", s.op), Some(pin));
            }
            for k in 0..o.post.len().min(clean.post.len()) {
                if o.post[k] != clean.pre[k] && o.post[k] != clean.post[k] {
                    let f = |w: u64| f64::from_bits(w);
                    return rep.fail(
                        "torn",
                        format!("step {i} {} interrupted at scalar operation {at}: component {k} is {:?}, neither the old {:?} nor the new {:?}", s.op, f(o.post[k]), f(clean.pre[k]), f(clean.post[k])),
                        Some(pin),
                    );
                }
            }
            rep.state(mix(hash_bytes(s.op.as_bytes()) ^ at.wrapping_mul(0x9e3779b97f4a7c15) ^ clean.hash()));
        }
    }
}
/// Only checked where the divisor is one scalar: then a changed component is old/d or old%d, and with
/// d == 0 nothing may change at all.
fn int_quotient_ok(s: &Step, o: &Obs, k: usize) -> bool {
    let (a, b) = (o.pre[k] as i32, o.post[k] as i32);
    // by minus one, up to a component that has no quotient
    overflowed(panic_msg(&o.out)) && (b == a.wrapping_neg() || b == 0) || !s.op.ends_with("= S")
}
