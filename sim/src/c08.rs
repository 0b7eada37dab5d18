//! C08: histories of in-place edits against a plain array of components.
use crate::common::*;
use crate::hist::*;
use crate::hist_defs::{find, subjects};
use crate::plan::*;
use crate::rng::{hash_bytes, mix, Palette, Rng};
use crate::run::*;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        level: "seeded_simulation",
        runs: |t| if t == Tier::Quick { 400_000 } else { 2_400_000 },
        gen,
        exec,
        rule: "A run takes one type and one component kind (a tag without arithmetic, the simulated scalar, f64, f32, i32) and plays a seeded history of 6-40 edits and reads on one value, most of them well-formed, some refused and - for the simulated scalar - some interrupted by a panic at a seeded scalar operation. Beside it a plain array of components is edited by the model of each request. After every edit the components, the value-returning counterpart and comparisons must agree with the array; at seeded points and at the end every read of the type is made and must report the array. An interrupted edit re-reads the array from the value (C04 decides what it may hold). Non-trivial: at least one edit was applied.",
        measure: "distinct (request, content after it) pairs, by 64-bit hash",
        unit: "scalar operations of the simulated scalar",
        cpu_ms: 10_000,
    }
}
pub fn requests() -> &'static Vec<(usize, usize)> {
    static L: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
    L.get_or_init(|| subjects().iter().enumerate().flat_map(|(i, s)| (0..s.reqs().len()).map(move |k| (i, k))).collect())
}
/// Contents: ordinary numbers, special ones, or small whole ones.
pub fn palette(r: &mut Rng, tame: bool) -> Box<dyn Fn(&mut Rng, usize) -> Vec<f64>> {
    match r.below(if tame { 6 } else { 8 }) {
        0..=2 => {
            let p = Palette::tame(r);
            Box::new(move |r, n| p.words(r, n))
        }
        3..=5 => {
            let k = 1 + r.below(6) as i64;
            Box::new(move |r, n| (0..n).map(|_| r.range(-k, k) as f64).collect())
        }
        _ => {
            let p = Palette::new(r);
            Box::new(move |r, n| p.words(r, n))
        }
    }
}
pub fn step_for(r: &mut Rng, sub: &dyn Subject, req: &(String, RK, u64), words: Vec<f64>, out_num: u64, out_den: u64) -> Step {
    let mut s = Step::new(&format!("{}/{}", sub.name(), req.0), words);
    s.x = (0..6).map(|_| (r.next() >> 2) as i64).collect();
    let out = if req.2 > 0 && r.chance(out_num, out_den) {
        if req.2 >= 2 && r.chance(1, 6) {
            9 + r.below(2)
        } else {
            1 + r.below(req.2)
        }
    } else {
        0
    };
    s.x.push(out as i64);
    s
}
fn gen(r: &mut Rng, run: u64, _t: Tier) -> Plan {
    let all = requests();
    let idx: Vec<usize> = (0..all.len()).collect();
    let (si, fi) = all[theme(&idx, 8, run)];
    let sub = subjects()[si];
    let reqs = sub.reqs();
    let mut p = Plan::default();
    let pal = palette(r, sub.tame());
    p.steps.push(Step::new(&format!("{}/start", sub.name()), pal(r, 20)));
    let edits: Vec<usize> = (0..reqs.len()).filter(|i| reqs[*i].1 == RK::Edit).collect();
    let m = if r.chance(1, 4) { 40 } else { 14 };
    let n = 4 + r.below(m);
    let faulty = sub.kind() == "sim" && r.chance(1, 3);
    for i in 0..n {
        let k = match r.below(8) {
            0 => fi,
            1 | 2 => r.below(reqs.len() as u64) as usize,
            _ => *r.pick(&edits),
        };
        let k = if i == n / 2 { fi } else { k };
        let w = pal(r, 20);
        let s = step_for(r, sub, &reqs[k], w, 1, 12);
        p.steps.push(s);
        if faulty && r.chance(1, 3) {
            p.faults.push(Fault { step: p.steps.len() - 1, at: 1 + r.below(14), kind: "panic".into(), val: 0 });
        }
        if r.chance(1, 8) {
            let mut s = Step::new(&format!("{}/audit", sub.name()), pal(r, 20));
            s.x = (0..6).map(|_| (r.next() >> 2) as i64).collect();
            p.steps.push(s);
        }
    }
    let mut s = Step::new(&format!("{}/audit", sub.name()), pal(r, 20));
    s.x = (0..6).map(|_| (r.next() >> 2) as i64).collect();
    p.steps.push(s);
    p
}
pub fn split(op: &str) -> Option<(&str, &str)> {
    let i = op.find(">/")?;
    Some((&op[..i + 1], &op[i + 2..]))
}
fn exec(p: &Plan, rep: &mut Rep) {
    let mut live: Option<Box<dyn Live>> = None;
    for (i, s) in p.steps.iter().enumerate() {
        let (name, req) = match split(&s.op) {
            Some(x) => x,
            None => continue,
        };
        set_faults(vec![], 1 << 20);
        if req == "start" || live.is_none() {
            live = find(name).map(|d| d.start(&s.args));
            if req == "start" {
                continue;
            }
        }
        let l = match live.as_mut() {
            Some(l) => l,
            None => continue,
        };
        if req == "audit" {
            rep.evals += 1;
            rep.count("reads through every view", 1);
            if let Some(d) = l.audit(&s.x, &s.args) {
                return rep.fail("reads-wrong", format!("step {i} {d}"), None);
            }
            continue;
        }
        set_faults(armed_for(p, i), 1 << 20);
        let so = l.step(req, &s.x, &s.args, Judge::Content);
        set_faults(vec![], 1 << 20);
        if so.skipped {
            continue;
        }
        rep.evals += 1;
        rep.events += so.events;
        if so.open {
            rep.count("left open by the model (special values)", 1);
        }
        if so.refused {
            rep.count("fault: refused request in the history", 1);
        }
        if so.interrupted {
            rep.count("fault: panic inside an edit of the history", 1);
        }
        if let Some((c, d)) = so.bad {
            return rep.fail(&c, format!("step {i} {d}"), None);
        }
        rep.state(mix(hash_bytes(s.op.as_bytes()) ^ l.content()));
    }
}
