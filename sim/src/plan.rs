//! The explicit form of one simulated run: what is called, with what, which faults fire where, and
//! which thread runs when.  A replay file is exactly this.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub tid: u32,
    pub op: String,
    pub args: Vec<f64>,
    pub x: Vec<i64>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub step: usize,
    pub at: u64,
    pub kind: String,
    pub val: u64,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub sets: BTreeMap<String, i64>,
    pub steps: Vec<Step>,
    pub faults: Vec<Fault>,
    pub sched: Vec<(u64, u32)>,
}
impl Step {
    pub fn new(op: &str, args: Vec<f64>) -> Step {
        Step { tid: 0, op: op.to_string(), args, x: vec![] }
    }
    pub fn xi(&self, i: usize) -> i64 {
        self.x.get(i).copied().unwrap_or(0)
    }
}
impl Plan {
    pub fn get(&self, k: &str) -> i64 {
        self.sets.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.sets.insert(k.into(), v);
    }
    pub fn text(&self, class: &str, note: &str) -> String {
        let mut s = String::from("cgsim-replay v1\n");
        let _ = writeln!(s, "property\t{}\nseed\t{}\nrun\t{}\nclass\t{}", self.prop, self.seed, self.run, class);
        for l in note.lines() {
            let _ = writeln!(s, "note\t{l}");
        }
        for (k, v) in &self.sets {
            let _ = writeln!(s, "set\t{k}\t{v}");
        }
        for st in &self.steps {
            let _ = write!(s, "step\t{}\t{}\t", st.tid, st.op);
            for (i, a) in st.args.iter().enumerate() {
                let _ = write!(s, "{}{:x}", if i > 0 { " " } else { "" }, a.to_bits());
            }
            s.push('\t');
            for (i, a) in st.x.iter().enumerate() {
                let _ = write!(s, "{}{}", if i > 0 { " " } else { "" }, a);
            }
            s.push('\t');
            // readable form, ignored when read back
            for (i, a) in st.args.iter().enumerate() {
                let _ = write!(s, "{}{:?}", if i > 0 { "," } else { "# " }, a);
            }
            s.push('\n');
        }
        for f in &self.faults {
            let _ = writeln!(s, "fault\t{}\t{}\t{}\t{:x}", f.step, f.at, f.kind, f.val);
        }
        for (p, t) in &self.sched {
            let _ = writeln!(s, "switch\t{p}\t{t}");
        }
        s
    }
    /// One line for people: the calls (first few argument words), faults and switches.
    pub fn brief(&self) -> String {
        let mut s = format!("seed {} run {}", self.seed, self.run);
        for (k, v) in &self.sets {
            let _ = write!(s, " {k}={v}");
        }
        for st in &self.steps {
            let _ = write!(s, "; T{} {}", st.tid, st.op);
            if !st.args.is_empty() {
                let a: Vec<String> = st.args.iter().take(6).map(|x| format!("{x:?}")).collect();
                let _ = write!(s, " ({}{})", a.join(","), if st.args.len() > 6 { ",.." } else { "" });
            }
            if !st.x.is_empty() {
                let _ = write!(s, " {:?}", &st.x[..st.x.len().min(8)]);
            }
            if s.len() > 1500 {
                s.push_str(" ...");
                break;
            }
        }
        for f in self.faults.iter().take(12) {
            let _ = write!(s, "; fault {} in step {} at {}", f.kind, f.step, f.at);
        }
        if !self.sched.is_empty() {
            let w: Vec<String> = self.sched.iter().take(16).map(|x| format!("{}->T{}", x.0, x.1)).collect();
            let _ = write!(s, "; switches {}", w.join(" "));
        }
        s
    }
    pub fn parse(t: &str) -> Option<(Plan, String)> {
        let mut p = Plan::default();
        let mut class = String::new();
        let mut it = t.lines();
        if it.next()? != "cgsim-replay v1" {
            return None;
        }
        for l in it {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "property" => p.prop = f.get(1)?.to_string(),
                "seed" => p.seed = f.get(1)?.parse().ok()?,
                "run" => p.run = f.get(1)?.parse().ok()?,
                "class" => class = f.get(1)?.to_string(),
                "set" => {
                    p.sets.insert(f.get(1)?.to_string(), f.get(2)?.parse().ok()?);
                }
                "step" => {
                    let mut args = vec![];
                    for a in f.get(3)?.split(' ').filter(|x| !x.is_empty()) {
                        args.push(f64::from_bits(u64::from_str_radix(a, 16).ok()?));
                    }
                    let mut x = vec![];
                    for a in f.get(4)?.split(' ').filter(|x| !x.is_empty()) {
                        x.push(a.parse().ok()?);
                    }
                    p.steps.push(Step { tid: f.get(1)?.parse().ok()?, op: f.get(2)?.to_string(), args, x });
                }
                "fault" => p.faults.push(Fault {
                    step: f.get(1)?.parse().ok()?,
                    at: f.get(2)?.parse().ok()?,
                    kind: f.get(3)?.to_string(),
                    val: u64::from_str_radix(f.get(4)?, 16).ok()?,
                }),
                "switch" => p.sched.push((f.get(1)?.parse().ok()?, f.get(2)?.parse().ok()?)),
                _ => {}
            }
        }
        Some((p, class))
    }
    pub fn drop_step(&self, i: usize) -> Plan {
        let mut p = self.clone();
        p.steps.remove(i);
        p.faults.retain(|f| f.step != i);
        for f in p.faults.iter_mut() {
            if f.step > i {
                f.step -= 1;
            }
        }
        p
    }
    pub fn size(&self) -> usize {
        self.steps.len() * 1000
            + self.faults.len() * 200
            + self.sched.len() * 50
            + self.steps.iter().map(|s| s.args.iter().filter(|a| **a != 1.0).count() * 2 + s.args.len()).sum::<usize>()
    }
}
/// What a run found.
#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
    pub plan: Option<Plan>,
}
/// What a run reports.
#[derive(Clone, Debug, Default)]
pub struct Rep {
    pub evals: u64,
    pub events: u64,
    pub digest: u64,
    pub counts: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub viol: Option<Viol>,
}
impl Rep {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn mixin(&mut self, w: u64) {
        self.digest = crate::rng::mix(self.digest.rotate_left(7) ^ w);
    }
    pub fn state(&mut self, h: u64) {
        self.hashes.push(h);
        self.mixin(h);
    }
    pub fn fail(&mut self, class: &str, detail: String, plan: Option<Plan>) {
        if self.viol.is_none() {
            self.viol = Some(Viol { class: class.into(), detail, plan });
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = Vec::with_capacity(256);
        for w in [self.evals, self.events, self.digest, self.counts.len() as u64, self.hashes.len() as u64] {
            b.extend_from_slice(&w.to_le_bytes());
        }
        for (k, v) in &self.counts {
            b.extend_from_slice(&(k.len() as u64).to_le_bytes());
            b.extend_from_slice(k.as_bytes());
            b.extend_from_slice(&v.to_le_bytes());
        }
        for h in &self.hashes {
            b.extend_from_slice(&h.to_le_bytes());
        }
        if let Some(v) = &self.viol {
            let pt = v.plan.as_ref().map(|p| p.text("", "")).unwrap_or_default();
            for s in [&v.class, &v.detail, &pt] {
                b.extend_from_slice(&(s.len() as u64).to_le_bytes());
                b.extend_from_slice(s.as_bytes());
            }
        }
        b
    }
    pub fn parse(b: &[u8]) -> Rep {
        let mut p = 0;
        let w = |p: &mut usize| {
            let v = u64::from_le_bytes(b[*p..*p + 8].try_into().unwrap());
            *p += 8;
            v
        };
        let mut r = Rep { evals: w(&mut p), events: w(&mut p), digest: w(&mut p), ..Default::default() };
        let (nc, nh) = (w(&mut p), w(&mut p));
        for _ in 0..nc {
            let n = w(&mut p) as usize;
            let k = String::from_utf8_lossy(&b[p..p + n]).into_owned();
            p += n;
            let v = w(&mut p);
            r.counts.insert(k, v);
        }
        for _ in 0..nh {
            let h = w(&mut p);
            r.hashes.push(h);
        }
        if p < b.len() {
            let mut s = || {
                let n = w(&mut p) as usize;
                let t = String::from_utf8_lossy(&b[p..p + n]).into_owned();
                p += n;
                t
            };
            let (class, detail, pt) = (s(), s(), s());
            r.viol = Some(Viol { class, detail, plan: Plan::parse(&pt).map(|x| x.0) });
        }
        r
    }
}
