//! C09: a refused request changes nothing, and exactly the requests that cannot be honoured are refused.
use crate::common::*;
use crate::hist::*;
use crate::hist_defs::{find, subjects};
use crate::plan::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::run::*;
use crate::c08::{palette, requests, split, step_for};
use crate::sys;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        level: "seeded_simulation",
        runs: |t| if t == Tier::Quick { 300_000 } else { 1_500_000 },
        gen,
        exec,
        rule: "A run takes one type and component kind and plays a seeded history of 4-30 requests on one value, about half of which cannot be honoured: positions outside the value up to the extremes of the index type, normalisation at or below the threshold, casts that do not fit, singular inverses, homogeneous points at infinity. The model of each request says whether it has to be refused. A refusal must leave the value, the guard words around it and a neighbouring value bit-for-bit unchanged. The same history without the refused requests is then played in a fresh process, and every honoured request must give the same outcome and content there. Non-trivial: at least one request was refused.",
        measure: "distinct (request, refused or not, content) triples, by 64-bit hash",
        unit: "scalar operations of the simulated scalar",
        cpu_ms: 10_000,
    }
}
/// Requests that can be refused.
fn refusable(r: &(String, RK, u64)) -> bool {
    r.2 > 0 || r.0.starts_with("try_") || r.0.starts_with("Unit::try") || r.0.contains("from_homogeneous") || r.0.starts_with("div_") || r.0.starts_with("inverse_apply") || r.0 == "is_invertible"
}
fn prepares(r: &(String, RK, u64)) -> bool {
    r.0 == "make singular" || r.0 == "= near a cast limit" || r.0 == "last = 0" || r.0.starts_with("= (3, 4") || r.0 == "= small whole numbers" || r.0.starts_with("= from_diagonal") || r.0 == "times a power of two"
}
fn focus() -> &'static Vec<(usize, usize)> {
    static L: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
    L.get_or_init(|| requests().iter().copied().filter(|(s, k)| refusable(&subjects()[*s].reqs()[*k])).collect())
}
fn gen(r: &mut Rng, run: u64, _t: Tier) -> Plan {
    let all = focus();
    let idx: Vec<usize> = (0..all.len()).collect();
    let (si, fi) = all[theme(&idx, 9, run)];
    let sub = subjects()[si];
    let reqs = sub.reqs();
    let mut p = Plan::default();
    let pal = palette(r, sub.tame());
    p.steps.push(Step::new(&format!("{}/start", sub.name()), pal(r, 20)));
    let edits: Vec<usize> = (0..reqs.len()).filter(|i| reqs[*i].1 == RK::Edit).collect();
    let preps: Vec<usize> = (0..reqs.len()).filter(|i| prepares(&reqs[*i])).collect();
    let refus: Vec<usize> = (0..reqs.len()).filter(|i| refusable(&reqs[*i])).collect();
    let m = if r.chance(1, 4) { 28 } else { 10 };
    let n = 3 + r.below(m);
    for _ in 0..n {
        let k = match r.below(10) {
            0..=2 => fi,
            3..=5 => *r.pick(&refus),
            6 | 7 if !preps.is_empty() => *r.pick(&preps),
            _ => *r.pick(&edits),
        };
        let w = pal(r, 20);
        let s = step_for(r, sub, &reqs[k], w, 3, 5);
        p.steps.push(s);
    }
    p
}
struct Played {
    outs: Vec<(usize, bool, u64)>,
    bad: Option<(String, String)>,
    events: u64,
}
fn play(p: &Plan, skip: &[bool]) -> Played {
    let mut live: Option<Box<dyn Live>> = None;
    let mut o = Played { outs: vec![], bad: None, events: 0 };
    for (i, s) in p.steps.iter().enumerate() {
        let (name, req) = match split(&s.op) {
            Some(x) => x,
            None => continue,
        };
        set_faults(vec![], 1 << 20);
        if req == "start" || live.is_none() {
            live = find(name).map(|d| d.start(&s.args));
            if req == "start" {
                continue;
            }
        }
        let l = match live.as_mut() {
            Some(l) => l,
            None => continue,
        };
        if skip.get(i).copied().unwrap_or(false) {
            continue;
        }
        let so = l.step(req, &s.x, &s.args, Judge::Refusal);
        if so.skipped {
            continue;
        }
        o.events += so.events;
        if let Some((c, d)) = so.bad {
            o.bad = Some((c, format!("step {i} {d}")));
            return o;
        }
        o.outs.push((i, so.refused, so.out));
    }
    o
}
fn exec(p: &Plan, rep: &mut Rep) {
    let a = play(p, &[]);
    rep.evals += a.outs.len() as u64;
    rep.events += a.events;
    let mut skip = vec![false; p.steps.len()];
    let mut any = false;
    for (i, refused, out) in &a.outs {
        skip[*i] = *refused;
        any |= *refused;
        if *refused {
            rep.count("fault: request refused", 1);
        }
        rep.state(mix(hash_bytes(p.steps[*i].op.as_bytes()) ^ out.wrapping_add(*refused as u64)));
    }
    if let Some((c, d)) = a.bad {
        return rep.fail(&c, d, None);
    }
    if !any {
        return;
    }
    // the same history in a fresh process, without the requests that were refused
    let b = sys::isolated(5_000, 30_000, &mut || {
        let b = play(p, &skip);
        let mut o = vec![];
        for (i, r, h) in &b.outs {
            for w in [*i as u64, *r as u64, *h] {
                o.extend_from_slice(&w.to_le_bytes());
            }
        }
        o
    });
    let b: Vec<(usize, bool, u64)> = match b {
        Ok(b) => b.chunks_exact(24).map(|c| {
            let w = |k: usize| u64::from_le_bytes(c[k * 8..k * 8 + 8].try_into().unwrap());
            (w(0) as usize, w(1) != 0, w(2))
        }).collect(),
        Err(d) => return rep.fail(&d.class(), format!("the history without the refused requests ended abnormally: {d:?}"), None),
    };
    let kept: Vec<&(usize, bool, u64)> = a.outs.iter().filter(|o| !o.1).collect();
    for (x, y) in kept.iter().zip(&b) {
        if **x != *y {
            return rep.fail("later-differs", format!("step {} {} does not give the same in a process where the refused requests were never made", x.0, p.steps[x.0].op), None);
        }
    }
    if kept.len() != b.len() {
        return rep.fail("later-differs", "without the refused requests the history goes differently".into(), None);
    }
}
