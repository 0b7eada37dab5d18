//! C01: rendering into sinks that fail.
use crate::ctx::*;
use crate::hook::SimCrash;
use crate::plan::*;
use crate::rng::{hash_bytes, mix, Palette, Rng};
use crate::run::*;
use crate::sc::*;
use crate::sink;
use cglinalg_core::*;
use cglinalg_transform::*;
use cglinalg_trigonometry::*;
use core::fmt::{self, Write as _};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        runs: |t| if t == Tier::Quick { 300_000 } else { 2_000_000 },
        gen,
        exec,
        rule: "A run renders 8 values (type, scalar kind, format and content seeded) into simulated sinks: character sinks whose k-th write fails for good, fails once, panics or re-enters the library, sinks of n bytes that take part of the write that overflows them or refuse it whole, byte sinks with short writes, interruptions, would-block, zero-length writes and hard errors, and components whose own formatting fails. Positions are drawn over all writes/bytes of the actual rendering. Non-trivial: the fault fired.",
        measure: "distinct (type, kind, format, fault kind, position, text accepted) renderings, by 64-bit hash",
        unit: "writes offered to simulated sinks",
        cpu_ms: 10_000,
    }
}
type Sinkf<'a> = &'a mut dyn FnMut(fmt::Arguments, &[String]);
struct Case {
    name: String,
    sk: SK,
    run: fn(&mut Ctx, usize, Sinkf),
    /// components appear in storage order
    ordered: bool,
}
const SPECS: [&str; 16] = ["{}", "{:?}", "{:#?}", "{:.3}", "{:>14.2}", "{:+}", "{:<9?}", "{:08.1?}", "{:#}", "{:^7.0}", "{:-<70.40}", "{:#.2?}", "{:x?}", "{:300}", "{:<+012.4}", "{:w$.19}"];
fn comps<T, S: Sc + fmt::Display + fmt::Debug>(t: &T, spec: usize) -> Vec<String> {
    if spec > 2 {
        return vec![];
    }
    let n = core::mem::size_of::<T>() / core::mem::size_of::<S>();
    let p = t as *const T as *const S;
    (0..n)
        .map(|i| {
            let s = unsafe { core::ptr::read_unaligned(p.add(i)) };
            if spec == 0 {
                format!("{s}")
            } else {
                format!("{s:?}")
            }
        })
        .collect()
}
fn go<T: Gen + fmt::Display + fmt::Debug, S: Sc + fmt::Display + fmt::Debug>(c: &mut Ctx, spec: usize, k: Sinkf) {
    let a = T::gen(c);
    let m = comps::<T, S>(&a, spec);
    match spec {
        0 => k(format_args!("{}", a), &m),
        1 => k(format_args!("{:?}", a), &m),
        2 => k(format_args!("{:#?}", a), &m),
        3 => k(format_args!("{:.3}", a), &m),
        4 => k(format_args!("{:>14.2}", a), &m),
        5 => k(format_args!("{:+}", a), &m),
        6 => k(format_args!("{:<9?}", a), &m),
        7 => k(format_args!("{:08.1?}", a), &m),
        8 => k(format_args!("{:#}", a), &m),
        9 => k(format_args!("{:^7.0}", a), &m),
        10 => k(format_args!("{:-<70.40}", a), &m),
        11 => k(format_args!("{:#.2?}", a), &m),
        12 => k(format_args!("{:x?}", a), &m),
        13 => k(format_args!("{:300}", a), &m),
        14 => k(format_args!("{:<+012.4}", a), &m),
        _ => k(format_args!("{:1$.2$}", a, m.len() + 5, 19), &m),
    }
}
/// Named-coordinate views have `Debug` only.
fn view<T: Gen + core::ops::Deref<Target = V>, V: fmt::Debug, S: Sc + fmt::Display + fmt::Debug>(c: &mut Ctx, spec: usize, k: Sinkf) {
    let a = T::gen(c);
    let m = comps::<T, S>(&a, if spec == 0 { 1 } else { spec });
    let v: &V = &a;
    match spec {
        2 => k(format_args!("{:#?}", v), &m),
        4 => k(format_args!("{:>14.2?}", v), &[]),
        _ => k(format_args!("{:?}", v), if spec <= 2 { &m } else { &[] }),
    }
}
fn add<S: Sc + fmt::Display + fmt::Debug>(v: &mut Vec<Case>) {
    macro_rules! t {
        ($o:expr; $($t:ty),* $(,)?) => { $( v.push(Case { name: format!("{}:{}", S::KIND.name(), stringify!($t).replace(' ', "")), sk: S::KIND, run: go::<$t, S>, ordered: $o }); )* };
    }
    t!(true; Vector<S, 0>, Point<S, 0>, Matrix<S, 0, 0>, Matrix<S, 0, 2>, Matrix<S, 2, 0>, Vector<S, 1>, Vector<S, 2>, Vector<S, 3>, Vector<S, 4>, Point<S, 1>, Point<S, 2>, Point<S, 3>,
        Matrix<S, 1, 1>, Matrix<S, 2, 2>, Matrix<S, 3, 3>, Matrix<S, 4, 4>, Matrix<S, 1, 2>, Matrix<S, 1, 3>, Matrix<S, 1, 4>,
        Matrix<S, 2, 3>, Matrix<S, 3, 2>, Matrix<S, 2, 4>, Matrix<S, 4, 2>, Matrix<S, 3, 4>, Matrix<S, 4, 3>,
        Matrix<S, 2, 1>, Matrix<S, 3, 1>, Matrix<S, 4, 1>, Vector<S, 5>, Vector<S, 9>, Point<S, 6>, Matrix<S, 5, 5>, Matrix<S, 6, 2>,
        Complex<S>, Quaternion<S>, Radians<S>, Degrees<S>, Euler<Radians<S>>, Euler<Degrees<S>>,
        Unit<Vector<S, 2>>, Unit<Vector<S, 3>>, Unit<Vector<S, 4>>, Unit<Complex<S>>, Unit<Quaternion<S>>, Unit<Matrix<S, 2, 2>>, Unit<Point<S, 3>>,
        Scale<S, 2>, Scale<S, 3>, Transform<S, 2, 3>, Transform<S, 3, 4>);
}
fn add_sg<S: Sg + fmt::Display + fmt::Debug>(v: &mut Vec<Case>) {
    macro_rules! t {
        ($o:expr; $($t:ty),* $(,)?) => { $( v.push(Case { name: format!("{}:{}", S::KIND.name(), stringify!($t).replace(' ', "")), sk: S::KIND, run: go::<$t, S>, ordered: $o }); )* };
    }
    t!(true; Translation<S, 2>, Translation<S, 3>);
    t!(false; Shear<S, 2>, Shear<S, 3>);
}
fn add_fl<S: Fl + fmt::Display + fmt::Debug>(v: &mut Vec<Case>) {
    macro_rules! t {
        ($o:expr; $($t:ty),* $(,)?) => { $( v.push(Case { name: format!("{}:{}", S::KIND.name(), stringify!($t).replace(' ', "")), sk: S::KIND, run: go::<$t, S>, ordered: $o }); )* };
    }
    t!(true; Rotation<S, 2>, Rotation<S, 3>);
    t!(false; Isometry<S, 2>, Isometry<S, 3>, Similarity<S, 2>, Similarity<S, 3>, Reflection<S, 2>, Reflection<S, 3>, Perspective3<S>, Orthographic3<S>);
    macro_rules! w {
        ($($t:ty),* $(,)?) => { $( v.push(Case { name: format!("{}:view-of-{}", S::KIND.name(), stringify!($t).replace(' ', "")), sk: S::KIND, run: view::<$t, _, S>, ordered: true }); )* };
    }
    w!(Vector<S, 1>, Vector<S, 2>, Vector<S, 3>, Vector<S, 4>, Point<S, 1>, Point<S, 2>, Point<S, 3>, Quaternion<S>, Matrix<S, 2, 2>, Matrix<S, 3, 3>, Matrix<S, 4, 4>);
}
fn cases() -> &'static Vec<Case> {
    static C: OnceLock<Vec<Case>> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        add::<SimF64>(&mut v);
        add_sg::<SimF64>(&mut v);
        add_fl::<SimF64>(&mut v);
        add::<f64>(&mut v);
        add_sg::<f64>(&mut v);
        add_fl::<f64>(&mut v);
        add::<f32>(&mut v);
        add_fl::<f32>(&mut v);
        add::<i32>(&mut v);
        add_sg::<i32>(&mut v);
        add::<u32>(&mut v);
        v
    })
}
const KINDS: [&str; 13] = [
    "write-fails", "write-fails-once", "full-partial", "full-refuse", "sink-panics", "sink-reenters", "io-short", "io-short-error", "io-would-block", "io-zero", "io-full",
    "component-error", "none",
];
fn gen(r: &mut Rng, run: u64, _t: Tier) -> Plan {
    let cs = cases();
    let n = (cs.len() * SPECS.len()) as u64;
    let mut p = Plan::default();
    let base = run % n;
    for i in 0..8u64 {
        // the first half follows the theme, the rest wander
        let j = if i < 4 { base } else { r.below(n) };
        let c = &cs[(j as usize) % cs.len()];
        let spec = (j as usize) / cs.len();
        let pal = Palette::new(r);
        let mut s = Step::new(&c.name, pal.words(r, 24));
        s.x = vec![spec as i64];
        p.steps.push(s);
        let nf = if r.chance(1, 8) { 2 } else { 1 };
        for _ in 0..nf {
            let k = if c.sk == SK::Sim { r.below(13) } else { *r.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12]) };
            p.faults.push(Fault { step: i as usize, at: r.below(1 << 20), kind: KINDS[k as usize].into(), val: r.next() });
        }
    }
    p
}
/// A simulated sink; `text` is what it accepted.
struct Sim<'a> {
    text: Vec<u8>,
    writes: u64,
    erred: bool,
    faults: &'a [(String, u64, u64)],
    broken: bool,
    fired: u64,
    rng: Rng,
    reenter: &'a mut dyn FnMut(),
}
impl<'a> Sim<'a> {
    fn err(&mut self) -> fmt::Result {
        self.erred = true;
        Err(fmt::Error)
    }
}
impl<'a> fmt::Write for Sim<'a> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.writes += 1;
        if self.broken {
            return self.err();
        }
        let fs = self.faults;
        for (kind, at, _) in fs {
            match kind.as_str() {
                "write-fails" if self.writes == *at => {
                    self.fired += 1;
                    self.broken = true;
                    return self.err();
                }
                "write-fails-once" if self.writes == *at => {
                    self.fired += 1;
                    return self.err();
                }
                "full-partial" if self.text.len() as u64 + s.len() as u64 > *at => {
                    self.fired += 1;
                    self.broken = true;
                    let n = *at as usize - (self.text.len()).min(*at as usize);
                    self.text.extend_from_slice(&s.as_bytes()[..n]);
                    return self.err();
                }
                "full-refuse" if self.text.len() as u64 + s.len() as u64 > *at => {
                    self.fired += 1;
                    return self.err();
                }
                "sink-panics" if self.writes == *at => {
                    self.fired += 1;
                    std::panic::resume_unwind(Box::new(SimCrash));
                }
                "sink-reenters" if self.writes % (1 + *at % 5) == 0 => {
                    self.fired += 1;
                    (self.reenter)();
                }
                _ => {}
            }
        }
        self.text.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
impl<'a> io::Write for Sim<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        if self.broken {
            self.erred = true;
            return Err(io::Error::from(io::ErrorKind::BrokenPipe));
        }
        let mut n = b.len();
        let fs = self.faults;
        for (kind, at, _) in fs {
            if !kind.starts_with("io-") {
                continue;
            }
            // every faulty byte sink also writes short and is interrupted
            if self.rng.chance(1, 4) {
                self.fired += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            if n > 1 && self.rng.chance(1, 2) {
                self.fired += 1;
                n = 1 + self.rng.below(n as u64 - 1) as usize;
            }
            let have = self.text.len() as u64;
            let hit = have + n as u64 > *at;
            match kind.as_str() {
                "io-short-error" | "io-would-block" | "io-zero" | "io-full" if hit => {
                    if have < *at {
                        n = (*at - have) as usize;
                    } else {
                        self.fired += 1;
                        self.erred = true;
                        return match kind.as_str() {
                            "io-zero" => Ok(0),
                            "io-would-block" => Err(io::Error::from(io::ErrorKind::WouldBlock)),
                            "io-full" => {
                                self.broken = true;
                                Err(io::Error::from_raw_os_error(28))
                            }
                            _ => {
                                self.broken = true;
                                Err(io::Error::from_raw_os_error(5))
                            }
                        };
                    }
                }
                _ => {}
            }
        }
        self.text.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Count {
    t: String,
    n: u64,
}
impl fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.n += 1;
        self.t.push_str(s);
        Ok(())
    }
}
fn find_in_order(text: &str, comps: &[String], ordered: bool) -> Result<(), String> {
    let start = if ordered { text.find(['[', '{', '(']).unwrap_or(0) } else { 0 };
    // types without brackets put the components first
    let mut at = if ordered && comps.len() > 2 { start } else { 0 };
    if comps.len() == 4 && !text.starts_with(|c: char| c.is_alphabetic() && c != 'N' && c != 'i') {
        at = 0;
    }
    for c in comps {
        match text[at..].find(c.as_str()) {
            Some(k) => {
                if ordered {
                    at += k + c.len();
                }
            }
            None => return Err(c.clone()),
        }
    }
    Ok(())
}
fn exec(p: &Plan, rep: &mut Rep) {
    let cs = cases();
    for (i, s) in p.steps.iter().enumerate() {
        let c = match cs.iter().find(|c| c.name == s.op) {
            Some(c) => c,
            None => continue,
        };
        let spec = (s.xi(0).max(0) as usize).min(SPECS.len() - 1);
        let what = format!("step {i} {} as {}", s.op, SPECS[spec]);
        let mut bad: Option<(&str, String)> = None;
        let mut cx = Ctx::new(&s.args);
        let pf: Vec<Fault> = p.faults.iter().filter(|f| f.step == i).cloned().collect();
        let rep2 = &mut *rep;
        let bad2 = &mut bad;
        (c.run)(&mut cx, spec, &mut |a, comps| {
            let mut fail = |class: &'static str, d: String| {
                if bad2.is_none() {
                    *bad2 = Some((class, d));
                }
            };
            sink::fail_component(0);
            let mut full = Count { t: String::new(), n: 0 };
            match catch_unwind(AssertUnwindSafe(|| full.write_fmt(a))) {
                Err(e) => return fail("panic", format!("{what}: rendering into a healthy sink panicked: {}", msg(&e))),
                Ok(Err(_)) => return fail("error-invented", format!("{what}: rendering into a healthy sink reported an error")),
                Ok(Ok(())) => {}
            }
            rep2.evals += 1;
            if let Err(m) = find_in_order(&full.t, comps, c.ordered) {
                return fail("incomplete", format!("{what}: component {m:?} is missing from {:?}", full.t));
            }
            let n = full.n;
            let len = full.t.len() as u64;
            // positions are taken modulo the real number of writes or bytes
            let fs: Vec<(String, u64, u64)> = pf
                .iter()
                .map(|f| {
                    let at = match f.kind.as_str() {
                        "write-fails" | "write-fails-once" | "sink-panics" => 1 + f.at % n.max(1),
                        "sink-reenters" => f.at,
                        "component-error" => 1 + f.at % 17,
                        _ => f.at % len.max(1),
                    };
                    (f.kind.clone(), at, f.val)
                })
                .collect();
            if fs.is_empty() {
                return;
            }
            let io = fs.iter().any(|f| f.0.starts_with("io-"));
            let seed = fs[0].2;
            let mut nested_bad = None;
            let full_ref = &full.t;
            let mut depth = 0;
            let mut reenter = || {
                if depth > 0 {
                    return;
                }
                depth += 1;
                let left = sink::component_left();
                sink::fail_component(0);
                // the same value rendered from inside the sink, once healthy and once failing
                let mut t = Count { t: String::new(), n: 0 };
                let r = catch_unwind(AssertUnwindSafe(|| t.write_fmt(a)));
                match r {
                    Ok(Ok(())) if t.t == *full_ref => {}
                    _ => nested_bad = Some(t.t),
                }
                let mut none = || {};
                let ff = [("write-fails".to_string(), 1 + seed % n.max(1), 0)];
                let mut q = Sim { text: vec![], writes: 0, erred: false, faults: &ff, broken: false, fired: 0, rng: Rng::new(1, 1), reenter: &mut none };
                let _ = catch_unwind(AssertUnwindSafe(|| fmt::Write::write_fmt(&mut q, a)));
                sink::fail_component(left);
                depth -= 1;
            };
            let mut sim = Sim { text: vec![], writes: 0, erred: false, faults: &fs, broken: false, fired: 0, rng: Rng::new(seed, 5), reenter: &mut reenter };
            let mut comp = 0u64;
            if !io {
                for f in &fs {
                    if f.0 == "component-error" {
                        sink::fail_component(f.1 as u32);
                        comp = f.1;
                    }
                }
            }
            let r = catch_unwind(AssertUnwindSafe(|| if io { io::Write::write_fmt(&mut sim, a).is_ok() } else { fmt::Write::write_fmt(&mut sim, a).is_ok() }));
            let comp_fired = comp > 0 && sink::component_left() == 0;
            sink::fail_component(0);
            let (text, erred, fired, writes) = (std::mem::take(&mut sim.text), sim.erred, sim.fired, sim.writes);
            drop(sim);
            rep2.events += writes;
            rep2.evals += 1;
            let mut any = fired > 0;
            for f in &fs {
                rep2.count(&format!("fault: {} planned", f.0), 1);
            }
            if fired > 0 {
                rep2.count("fault: fired (sink)", fired);
            }
            if comp_fired {
                any = true;
                rep2.count("fault: fired (component formatting)", 1);
            }
            let shown = String::from_utf8_lossy(&text).into_owned();
            match r {
                Err(e) => {
                    if e.is::<SimCrash>() {
                        rep2.count("sink panics that reached the caller", 1);
                    } else {
                        return fail("panic", format!("{what}: panicked when the sink failed after {shown:?}: {}", msg(&e)));
                    }
                }
                Ok(ok) => {
                    if fs.iter().any(|f| f.0 == "sink-panics") && fired > 0 && !erred && !comp_fired && fs.len() == 1 {
                        return fail("panic-swallowed", format!("{what}: the panic of the sink did not reach the caller"));
                    }
                    if (erred || comp_fired) && ok {
                        return fail("error-lost", format!("{what}: an output error was reported as success; accepted {shown:?}"));
                    }
                    if !erred && !comp_fired && !ok {
                        return fail("error-invented", format!("{what}: an error was reported although nothing failed; accepted {shown:?}"));
                    }
                    if ok && text != full.t.as_bytes() {
                        return fail("text-differs", format!("{what}: delivered {shown:?} instead of {:?}", full.t));
                    }
                }
            }
            if !full.t.as_bytes().starts_with(&text) {
                return fail("not-a-prefix", format!("{what}: the sink accepted {shown:?}, not a prefix of {:?}", full.t));
            }
            if let Some(t) = nested_bad {
                return fail("nested-differs", format!("{what}: rendered from inside the sink gives {t:?} instead of {:?}", full.t));
            }
            // nothing lingers
            let mut again = Count { t: String::new(), n: 0 };
            match catch_unwind(AssertUnwindSafe(|| again.write_fmt(a))) {
                Ok(Ok(())) if again.t == full.t => {}
                _ => return fail("later-rendering-differs", format!("{what}: after a failed rendering a healthy one gives {:?} instead of {:?}", again.t, full.t)),
            }
            rep2.evals += 1;
            if any {
                let mut h = hash_bytes(s.op.as_bytes()) ^ spec as u64;
                for f in &fs {
                    h = mix(h ^ hash_bytes(f.0.as_bytes()) ^ f.1);
                }
                rep2.state(mix(h ^ hash_bytes(&text)));
            } else {
                rep2.count("renderings whose fault position was not reached", 1);
            }
        });
        if let Some((class, d)) = bad {
            return rep.fail(class, d, None);
        }
    }
}
fn msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
