//! C07: bounded work, and only the documented panics, whatever the numbers are or become.
use crate::cat::cat;
use crate::common::*;
use crate::ctx::*;
use crate::plan::*;
use crate::rng::{hash_bytes, mix, Palette, Rng, SPECIALS};
use crate::run::*;
use crate::sc::SK;

pub const BUDGET: u64 = 6000;
pub fn prop() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        runs: |t| if t == Tier::Quick { 800_000 } else { 1_500_000 },
        gen,
        exec,
        rule: "A run makes 12 calls of one catalogue entry with seeded arguments (NaN, infinities, zeros, subnormals, extremes, integer extremes, structured matrices) and, for the simulated scalar, up to 4 seeded arithmetic faults that replace intermediate results by NaN, an infinity, zero, a subnormal or a huge value. A call that exceeds 6000 scalar operations, its processor time, or panics outside the documented cases is a violation. Non-trivial: a fault fired or an argument was special.",
        measure: "distinct (call, number of scalar operations, outcome, fault positions) executions, by 64-bit hash",
        unit: "scalar operations of the simulated scalar",
        cpu_ms: 4_000,
    }
}
const POISON: [f64; 14] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e308, -1e308, 5e-324, 1.0, -1.0, 1e-160, 0.5, 2.0, 1e16];
fn gen(r: &mut Rng, run: u64, _t: Tier) -> Plan {
    let c = cat();
    let mut p = Plan::default();
    let all: Vec<usize> = (0..c.ops.len()).collect();
    // two thirds of the runs on the simulated scalar, where faults can be injected
    let ti = if run % 5 >= 3 {
        theme(deep(), 18, run / 5 * 2 + run % 5 - 3)
    } else if run % 2 == 0 { theme(&select(|o| o.sk == SK::Sim), 7, run / 2) } else { theme(&all, 8, run / 2) };
    let name = c.ops[ti].full();
    let sim = c.ops[ti].sk == SK::Sim;
    for i in 0..12 {
        let pal = Palette::new(r);
        let mut w = pal.words(r, WORDS);
        if r.chance(1, 4) {
            let v = *r.pick(&SPECIALS);
            for _ in 0..1 + r.below(4) {
                let k = r.below(16) as usize;
                w[k] = v;
            }
        }
        p.steps.push(Step::new(&name, w));
        if sim && r.chance(2, 3) {
            for _ in 0..1 + r.below(4) {
                let at = 1 + if r.chance(1, 2) { r.below(12) } else { r.below(200) };
                p.faults.push(Fault { step: i, at, kind: "poison".into(), val: r.pick(&POISON).to_bits() });
            }
        }
    }
    p
}
/// The call that says whether the partial operation has an answer.
fn guard(name: &str) -> Option<String> {
    if name.ends_with("::inverse") {
        return Some(name.replace("::inverse", "::try_inverse"));
    }
    None
}
fn allowed_int(o: &Out) -> bool {
    let m = panic_msg(o);
    m.starts_with("attempt to divide") || m.starts_with("attempt to calculate the remainder")
}
fn exec(p: &Plan, rep: &mut Rep) {
    let c = cat();
    for (i, s) in p.steps.iter().enumerate() {
        let op = match c.find(&s.op) {
            Some(o) => o,
            None => continue,
        };
        let f = if op.sk == SK::Sim { armed_for(p, i) } else { vec![] };
        let nf = f.len();
        set_faults(f, BUDGET);
        let o = run_op(op, &s.args);
        rep.evals += 1;
        rep.events += o.events;
        rep.count("fault: intermediate result replaced", o.fired as u64);
        if !op.sk.is_float() && o.out != Out::Ok {
            rep.count("integer division by zero", 1);
        }
        match &o.out {
            Out::Ok => {}
            Out::Budget => return rep.fail("no-progress", format!("step {i} {} did more than {BUDGET} scalar operations", s.op), None),
            Out::Crash => {}
            Out::Panic(m) if !op.sk.is_float() && m.ends_with("with overflow") => {}
            Out::Panic(m) => {
                // clamping to an empty range is an error for integers only
                let partial = op.flags & PARTIAL != 0 && !(op.sk.is_float() && op.name == "SimdScalarOrd::clamp");
                if op.sk.is_float() || partial {
                    if !partial {
                        return rep.fail("panic", format!("step {i} {} panicked: {m}", s.op), None);
                    }
                    rep.count("documented panics", 1);
                    if nf == 0 {
                        if let Some(g) = crate::guards::name_of(op).and_then(|g| c.guards.get(&g)) {
                            set_faults(vec![], BUDGET);
                            let q = run_op(g, &s.args);
                            if q.out == Out::Ok && q.res.first() == Some(&1) {
                                return rep.fail("panic-although-answerable", format!("step {i} {} panicked ({m}) although these arguments have an answer", s.op), None);
                            }
                        }
                        if let Some(g) = guard(&s.op).and_then(|g| c.find(&g)) {
                            set_faults(vec![], BUDGET);
                            let q = run_op(g, &s.args);
                            if q.out == Out::Ok && q.res.first() == Some(&0x534f_4d45) {
                                return rep.fail("panic-although-answerable", format!("step {i} {} panicked ({m}) although {} has an answer", s.op, g.full()), None);
                            }
                        }
                    }
                } else if !allowed_int(&o.out) {
                    return rep.fail("panic", format!("step {i} {} panicked: {m}", s.op), None);
                }
            }
        }
        let mut h = hash_bytes(s.op.as_bytes()) ^ o.events.wrapping_mul(0x9e3779b97f4a7c15) ^ matches!(o.out, Out::Ok) as u64;
        if nf > 0 && o.fired > 0 {
            for f in p.faults.iter().filter(|f| f.step == i && f.at <= o.events) {
                h = mix(h ^ f.at ^ f.val);
            }
        } else {
            h = mix(h ^ o.hash());
        }
        rep.state(h);
    }
}
