//! Orchestration: a fixed set of seeded runs spread over worker processes, each run in a fresh fork;
//! the first violation is minimised, written as a replay file, and re-run to confirm it.
use crate::plan::*;
use crate::rng::Rng;
use crate::sys;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub runs: fn(Tier) -> u64,
    pub gen: fn(&mut Rng, u64, Tier) -> Plan,
    pub exec: fn(&Plan, &mut Rep),
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    /// what a state hash stands for
    pub measure: &'static str,
    pub unit: &'static str,
    pub cpu_ms: u64,
}
pub const WALL_MS: u64 = 60_000;

pub fn plan_for(p: &Prop, seed: u64, run: u64, tier: Tier) -> Plan {
    let mut r = Rng::new(seed, run ^ crate::rng::hash_bytes(p.id.as_bytes()));
    let mut pl = (p.gen)(&mut r, run, tier);
    pl.prop = p.id.into();
    pl.seed = seed;
    pl.run = run;
    pl
}
/// Execute one plan in a fresh fork.
pub fn execute(p: &Prop, pl: &Plan) -> Rep {
    let r = sys::isolated(p.cpu_ms, WALL_MS, &mut || {
        let mut rep = Rep::default();
        (p.exec)(pl, &mut rep);
        rep.bytes()
    });
    match r {
        Ok(b) => Rep::parse(&b),
        Err(d) => {
            let mut rep = Rep::default();
            rep.fail(&d.class(), format!("the simulated process ended abnormally: {d:?}"), None);
            rep
        }
    }
}
fn family(c: &str) -> &str {
    c.split('/').next().unwrap_or(c)
}
/// The same violation again?  (abnormal ends have to repeat too)
fn same(p: &Prop, pl: &Plan, class: &str) -> Option<Viol> {
    let v = execute(p, pl).viol?;
    if family(&v.class) == family(class) {
        Some(v)
    } else {
        None
    }
}
pub fn shrink(p: &Prop, start: Plan, v: Viol, secs: u64) -> (Plan, Viol, u64) {
    let t0 = Instant::now();
    let mut best = v.plan.clone().unwrap_or(start.clone());
    let class = v.class.clone();
    let mut bv = v;
    let mut tries = 0u64;
    let fix = |pl: &mut Plan, s: &Plan| {
        pl.prop = s.prop.clone();
        pl.seed = s.seed;
        pl.run = s.run;
    };
    fix(&mut best, &start);
    // the pinned plan must fail by itself, else keep the original
    match same(p, &best, &class) {
        Some(n) => bv = n,
        None => best = start.clone(),
    }
    let mut tryit = |cand: Plan, best: &mut Plan, bv: &mut Viol| -> bool {
        if t0.elapsed().as_secs() >= secs || cand == *best || cand.size() >= best.size() {
            return false;
        }
        tries += 1;
        if let Some(n) = same(p, &cand, &class) {
            *best = cand;
            *bv = n;
            return true;
        }
        false
    };
    loop {
        let before = best.size();
        // whole chunks of steps, then single steps
        let mut k = best.steps.len() / 2;
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.steps.len() && best.steps.len() > 1 {
                let mut c = best.clone();
                for _ in 0..k {
                    if c.steps.len() > 1 {
                        c = c.drop_step(i.min(c.steps.len() - 1));
                    }
                }
                if !tryit(c, &mut best, &mut bv) {
                    i += 1;
                }
            }
            k /= 2;
        }
        let mut i = 0;
        while i < best.faults.len() {
            let mut c = best.clone();
            c.faults.remove(i);
            if !tryit(c, &mut best, &mut bv) {
                i += 1;
            }
        }
        let mut k = best.sched.len() / 2;
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.sched.len() {
                let mut c = best.clone();
                c.sched.drain(i..i + k);
                if !tryit(c, &mut best, &mut bv) {
                    i += 1;
                }
            }
            k /= 2;
        }
        for s in 0..best.steps.len() {
            let n = best.steps[s].args.len();
            for keep in [0, n / 4, n / 2, 3 * n / 4] {
                let mut c = best.clone();
                c.steps[s].args.truncate(keep);
                if tryit(c, &mut best, &mut bv) {
                    break;
                }
            }
            while best.steps[s].args.last().is_some() {
                let mut c = best.clone();
                c.steps[s].args.pop();
                if !tryit(c, &mut best, &mut bv) {
                    break;
                }
            }
            for a in 0..best.steps[s].args.len() {
                if best.steps[s].args[a].to_bits() != 1f64.to_bits() {
                    let mut c = best.clone();
                    c.steps[s].args[a] = 1.0;
                    tryit(c, &mut best, &mut bv);
                }
            }
        }
        if best.size() >= before || t0.elapsed().as_secs() >= secs {
            break;
        }
    }
    // make the faults of the minimal failing run explicit
    if let Some(mut pin) = bv.plan.clone() {
        fix(&mut pin, &start);
        if let Some(n) = same(p, &pin, &class) {
            best = pin;
            bv = n;
        }
    }
    (best, bv, tries)
}
#[derive(Default)]
pub struct Totals {
    pub runs: u64,
    pub evals: u64,
    pub events: u64,
    pub counts: BTreeMap<String, u64>,
    pub distinct: u64,
    pub digest: u64,
    pub nontriv: u64,
}
fn worker(p: &Prop, seed: u64, tier: Tier, k: u64, w: u64, runs: u64, stop: *mut u64, deadline: Instant, out: &PathBuf) {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    let stop = unsafe { &*(stop as *const AtomicU64) };
    let mut t = Totals::default();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut i = k;
    let mut fail = None;
    while i < runs && i < stop.load(SeqCst) && Instant::now() < deadline {
        let pl = plan_for(p, seed, i, tier);
        let mut rep = execute(p, &pl);
        if let Some(v) = &rep.viol {
            // an abnormal end is believed only when it repeats
            if v.detail.starts_with("the simulated process ended") {
                let again = execute(p, &pl);
                if again.viol.as_ref().map(|x| &x.class) != Some(&v.class) {
                    rep = again;
                }
            }
        }
        t.runs += 1;
        t.evals += rep.evals;
        t.events += rep.events;
        t.digest ^= crate::rng::mix(rep.digest ^ i);
        for (a, b) in &rep.counts {
            *t.counts.entry(a.clone()).or_insert(0) += b;
        }
        if seen.len() < 3_000_000 {
            for h in rep.hashes {
                seen.insert(h);
            }
        }
        if let Some(v) = rep.viol {
            stop.fetch_min(i, SeqCst);
            fail = Some((i, v));
            break;
        }
        i += w;
    }
    let mut s = String::new();
    let _ = writeln!(s, "{} {} {} {}", t.runs, t.evals, t.events, t.digest);
    for (a, b) in &t.counts {
        let _ = writeln!(s, "c\t{a}\t{b}");
    }
    if let Some((i, v)) = fail {
        let _ = writeln!(s, "v\t{}\t{}\t{}", i, v.class, v.detail.replace('\n', "\\n").replace('\t', " "));
        if let Some(pl) = v.plan {
            std::fs::write(out.join(format!("pin{k}")), pl.text("", "")).unwrap();
        }
    }
    std::fs::write(out.join(format!("s{k}")), s).unwrap();
    let mut b = Vec::with_capacity(seen.len() * 8);
    for h in seen {
        b.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(out.join(format!("h{k}")), b).unwrap();
}
pub struct Found {
    pub run: u64,
    pub viol: Viol,
}
pub fn sweep(p: &Prop, seed: u64, tier: Tier, runs: u64, w: u64, cap_s: u64) -> (Totals, Option<Found>) {
    let dir = std::env::temp_dir().join(format!("cgsim-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let stop = sys::shared(4096) as *mut u64;
    unsafe { stop.write_volatile(u64::MAX) };
    let deadline = Instant::now() + std::time::Duration::from_secs(cap_s);
    let mut pids = vec![];
    for k in 0..w {
        let pid = sys::fork_raw();
        if pid == 0 {
            sys::die_with_parent();
            sys::quiet_stderr();
            worker(p, seed, tier, k, w, runs, stop, deadline, &dir);
            unsafe { sys::_exit(0) };
        }
        pids.push(pid);
    }
    let mut bad = false;
    for pid in pids {
        if sys::wait(pid) != 0 {
            bad = true;
        }
    }
    let mut t = Totals::default();
    let mut found: Option<Found> = None;
    let mut all: HashSet<u64> = HashSet::new();
    for k in 0..w {
        let s = match std::fs::read_to_string(dir.join(format!("s{k}"))) {
            Ok(s) => s,
            Err(_) => continue,
        };
        let mut it = s.lines();
        let f: Vec<u64> = it.next().unwrap_or("0 0 0 0").split(' ').map(|x| x.parse().unwrap_or(0)).collect();
        t.runs += f[0];
        t.evals += f[1];
        t.events += f[2];
        t.digest ^= f[3];
        for l in it {
            let c: Vec<&str> = l.split('\t').collect();
            if c[0] == "c" {
                *t.counts.entry(c[1].into()).or_insert(0) += c[2].parse::<u64>().unwrap_or(0);
            } else if c[0] == "v" {
                let run: u64 = c[1].parse().unwrap_or(0);
                if found.as_ref().map(|x| run < x.run).unwrap_or(true) {
                    let pin = std::fs::read_to_string(dir.join(format!("pin{k}"))).ok().and_then(|x| Plan::parse(&x)).map(|x| x.0);
                    found = Some(Found { run, viol: Viol { class: c[2].into(), detail: c[3].into(), plan: pin } });
                }
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("h{k}"))) {
            for c in b.chunks_exact(8) {
                all.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    t.distinct = all.len() as u64;
    let _ = std::fs::remove_dir_all(&dir);
    if bad {
        eprintln!("a worker process failed");
        std::process::exit(3);
    }
    (t, found)
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn evidence(p: &Prop, tier: Tier, seed: u64, t: &Totals, wall: f64, samples: &[String], viols: u64, known: &[String], extra: &[(&str, String)]) {
    let mut s = String::from("{\n");
    let _ = writeln!(s, " \"property\": {},", js(p.id));
    let _ = writeln!(s, " \"tier\": {},", js(if tier == Tier::Quick { "quick" } else { "thorough" }));
    let _ = writeln!(s, " \"seed\": {seed},\n \"level\": {},", js(p.level));
    let _ = writeln!(s, " \"coverage\": {{");
    let _ = writeln!(s, "  \"evaluations\": {},", t.evals);
    let _ = writeln!(s, "  \"distinct_nontrivial\": {},", t.distinct);
    let _ = writeln!(s, "  \"rule\": {},", js(&format!("{} Distinct cases are counted as: {}.", p.rule, p.measure)));
    let _ = writeln!(s, "  \"simulated_runs\": {},", t.runs);
    let _ = writeln!(s, "  \"runs_per_hour\": {},", (t.runs as f64 / wall.max(1e-9) * 3600.0) as u64);
    let _ = writeln!(s, "  \"seeds_per_hour\": {},", (t.runs as f64 / wall.max(1e-9) * 3600.0) as u64);
    let _ = writeln!(s, "  \"simulated_time\": {},", js(&format!("{} {} (the library has no clock: simulated time is counted in scheduling/fault points passed)", t.events, p.unit)));
    let _ = writeln!(s, "  \"history_digest\": {},", js(&format!("{:016x}", t.digest)));
    let _ = writeln!(s, "  \"counters\": {{");
    let n = t.counts.len();
    for (i, (k, v)) in t.counts.iter().enumerate() {
        let _ = writeln!(s, "   {}: {}{}", js(k), v, if i + 1 < n { "," } else { "" });
    }
    let _ = writeln!(s, "  }},");
    for (k, v) in extra {
        let _ = writeln!(s, "  {}: {},", js(k), v);
    }
    let _ = writeln!(s, "  \"real_components\": [\"cglinalg_core\", \"cglinalg_transform\", \"cglinalg_trigonometry\", \"cglinalg_numeric\", \"num-traits\", \"core::fmt\"],");
    let _ = writeln!(s, "  \"stubbed_components\": [\"approx_cmp (offline stand-in)\", \"scalar type SimF64 (f64 arithmetic behind a fault/scheduling seam) in the runs marked sim\", \"global allocator, output sinks, thread scheduler: simulator\"],");
    let _ = writeln!(s, "  \"known_findings_seen\": [{}],", known.iter().map(|k| js(k)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(s, "  \"samples\": [{}]", samples.iter().map(|k| js(k)).collect::<Vec<_>>().join(",\n   "));
    let _ = writeln!(s, " }},");
    let _ = writeln!(s, " \"assumptions\": [\"arithmetic of the host's f32/f64 and of num-traits/libm is trusted\", \"approx_cmp is replaced by an offline stand-in with the same interface\", \"x86-64 Linux\"],");
    let _ = writeln!(s, " \"wall_s\": {wall:.3},\n \"violations\": {viols}\n}}");
    std::fs::create_dir_all("evidence").unwrap();
    std::fs::write(format!("evidence/{}.json", p.id), s).unwrap();
}
