//! C02: no operation needs the heap.
use crate::alloc;
use crate::cat::cat;
use crate::common::*;
use crate::ctx::*;
use crate::plan::*;
use crate::rng::{hash_bytes, mix, Palette, Rng};
use crate::run::*;
use std::sync::atomic::Ordering::Relaxed;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        runs: |t| if t == Tier::Quick { 330_000 } else { 1_200_000 },
        gen,
        exec,
        rule: "A run makes 8 calls of one catalogue entry with seeded arguments, each twice: undisturbed, and (before or after that) with an allocator that refuses every request (or every request after the first k) made during the call. The second call has to complete with the identical result. Non-trivial: the call completed in refusing mode.",
        measure: "distinct (call, result) pairs completed with the allocator refusing, by 64-bit hash",
        unit: "scalar operations of the simulated scalar",
        cpu_ms: 10_000,
    }
}
fn gen(r: &mut Rng, run: u64, _t: Tier) -> Plan {
    let c = cat();
    let mut p = Plan::default();
    let all: Vec<usize> = (0..c.ops.len()).collect();
    let name = c.ops[if run % 3 == 2 { theme(deep(), 14, run / 3) } else { theme(&all, 2, run / 3 * 2 + run % 3) }].full();
    for i in 0..8 {
        let pal = Palette::new(r);
        p.steps.push(Step::new(&name, pal.words(r, WORDS)));
        p.faults.push(Fault { step: i, at: (i == 0 || r.chance(1, 8)) as u64, kind: "refuse-allocation".into(), val: if r.chance(3, 4) { 0 } else { 1 + r.below(3) } });
    }
    p
}
fn exec(p: &Plan, rep: &mut Rep) {
    let c = cat();
    for (i, s) in p.steps.iter().enumerate() {
        let op = match c.find(&s.op) {
            Some(o) => o,
            None => continue,
        };
        set_faults(vec![], 1 << 20);
        alloc::ENABLED.store(false, Relaxed);
        let (skip, cold) = match p.faults.iter().find(|f| f.step == i) {
            Some(f) => (f.val, f.at == 1),
            None => continue,
        };
        // cold: the refused call comes first, so that nothing an earlier call set up can help it
        let warm = if cold { None } else { Some(run_op(op, &s.args)) };
        if cold {
            // panicking may allocate: only calls known (from a separate process) to complete are judged
            match alone(op, &s.args) {
                Ok(o) if o.out == Out::Ok => {}
                _ => {
                    rep.count("calls that end in a documented panic (not judged)", 1);
                    continue;
                }
            }
        }
        if let Some(w) = &warm {
            if w.out != Out::Ok {
                rep.count("calls that end in a documented panic (not judged)", 1);
                continue;
            }
        }
        alloc::SKIP.store(skip, Relaxed);
        alloc::REQUESTS.store(0, Relaxed);
        alloc::REFUSE.store(true, Relaxed);
        alloc::ENABLED.store(true, Relaxed);
        let o = run_op(op, &s.args);
        alloc::ENABLED.store(false, Relaxed);
        alloc::REFUSE.store(false, Relaxed);
        let n = alloc::REQUESTS.load(Relaxed);
        let clean = match warm {
            Some(w) => w,
            None => run_op(op, &s.args),
        };
        rep.evals += 2;
        rep.events += clean.events;
        if clean.out != Out::Ok && o.out != Out::Ok {
            rep.count("calls that end in a documented panic (not judged)", 1);
            continue;
        }
        rep.count(if cold { "refused call made first" } else { "refused call made after an undisturbed one" }, 1);
        rep.count("fault: calls made with the allocator refusing", 1);
        rep.count("allocation requests seen", n);
        if !o.same(&clean) {
            return rep.fail("result-differs", format!("step {i} {} gave {} with a refusing allocator ({n} requests) but {} otherwise", s.op, o.show(), clean.show()), None);
        }
        rep.state(mix(hash_bytes(s.op.as_bytes()) ^ o.hash()));
    }
}
