//! C05: what other threads do makes no difference; nobody waits for anybody.
use crate::cat::cat;
use crate::common::*;
use crate::ctx::*;
use crate::hook;
use crate::plan::*;
use crate::rng::{hash_bytes, mix, Palette, Rng};
use crate::run::*;
use crate::sc::SK;
use crate::sched;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        runs: |t| if t == Tier::Quick { 64_000 } else { 1_000_000 },
        gen,
        exec,
        rule: "A run is 2-4 real threads making 1-4 calls each (mostly the same catalogue entry with different arguments) under a seeded schedule that switches threads between scalar operations (simulated scalar) or between single machine instructions (native f64/f32/i32/u32, trap flag). Every result is compared bit for bit with the same call alone in a fresh process, shared operands are checked at every scheduling point, and a thread that waits or spins is reported. A schedule is non-trivial if at least one switch took effect in the middle of a call.",
        measure: "distinct (calls, taken switch positions and targets) interleavings, by 64-bit hash",
        unit: "scheduling points (scalar operations or machine instructions)",
        cpu_ms: 30_000,
    }
}
pub fn step_mode() -> bool {
    static W: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *W.get_or_init(crate::step::works)
}
fn gen(r: &mut Rng, run: u64, _t: Tier) -> Plan {
    let c = cat();
    let mut p = Plan::default();
    let native = run % 2 == 1 && step_mode();
    let list = if native { select(|o| matches!(o.sk, SK::F64) && o.flags & RENDER == 0) } else { select(|o| o.sk == SK::Sim) };
    let mut ti = theme(&list, 5, run / 2);
    if native && run % 4 == 3 {
        let d: Vec<usize> = deep().iter().copied().filter(|&i| c.ops[i].sk == SK::F64).collect();
        ti = theme(&d, 15, run / 4);
    }
    if native && r.chance(1, 4) {
        // the other native kinds
        let other = select(|o| matches!(o.sk, SK::F32 | SK::I32 | SK::U32) && o.flags & RENDER == 0);
        ti = *r.pick(&other);
    }
    let shown = native && r.chance(1, 24);
    if shown {
        // renderings, the longest calls there are
        let other = select(|o| o.sk == SK::F64 && o.flags & RENDER != 0 && !o.name.contains('.'));
        if !other.is_empty() {
            ti = *r.pick(&other);
        }
    }
    let th = &c.ops[ti];
    let n = 2 + r.below(3) as u32;
    let pal = Palette::new(r);
    p.set("step", native as i64);
    p.set("more", native as i64);
    let mut last = pal.words(r, WORDS);
    for t in 0..n {
        let k = 1 + r.below(if native { 2 } else { 4 });
        for _ in 0..k {
            let (op, args) = match r.below(10) {
                0..=1 => (ti, last.clone()),
                2..=4 => (ti, mutate(r, &pal, &last)),
                5..=7 => (ti, pal.words(r, WORDS)),
                _ => (c.related(r, ti), pal.words(r, WORDS)),
            };
            if native && c.ops[op].flags & RENDER != 0 && (!shown || c.ops[op].name.contains('.')) {
                continue;
            }
            last = args.clone();
            let mut s = Step::new(&c.ops[op].full(), args);
            s.tid = t;
            p.steps.push(s);
        }
    }
    let _ = th;
    p.set("first", r.below(n as u64) as i64);
    let gap = *r.pick(if native { &[1u64, 4, 12, 40, 100, 300] } else { &[1u64, 1, 2, 4, 10, 30] });
    let mut pos = r.below(*r.clone().pick(if native { &[10, 100, 500] } else { &[2, 6, 40] }));
    for _ in 0..1 + r.below(50) {
        pos += 1 + r.below(2 * gap);
        p.sched.push((pos, r.below(n as u64) as u32));
    }
    if native {
        // preemptions aimed at instructions that touch shared data, wherever they turn out to be
        let dens = 1 + r.below(4);
        for k in 1..=40 {
            if r.chance(dens, 5) {
                p.faults.push(Fault { step: 0, at: k, kind: "hot".into(), val: r.below(n as u64) });
            }
        }
    }
    p
}
struct Job {
    op: Op,
    args: Vec<f64>,
    base: Obs,
    got: Option<Obs>,
    hot: u64,
    step: usize,
}
static mut JOBS: Vec<Vec<Job>> = Vec::new();
static mut STEPPING: bool = false;
/// Machine instructions one call may take before it is suspected of waiting for another thread.
static mut BUDGET: u64 = 0;
const SUSPECT: u64 = 400_000;
/// More instructions than this altogether are not stepped through.
const TOO_LONG: u64 = 1_500_000;
fn body(t: usize) {
    let jobs = unsafe { &mut *std::ptr::addr_of_mut!(JOBS) };
    for j in jobs[t].iter_mut() {
        set_faults(vec![], if unsafe { STEPPING } { unsafe { BUDGET } } else { 1 << 20 });
        paint(t as u64 + 77);
        let h = sched::hot_by(t);
        let o = run_op(&j.op, &j.args);
        j.got = Some(o);
        j.hot = sched::hot_by(t) - h;
    }
}
fn exec(p: &Plan, rep: &mut Rep) {
    if let Some(d) = not_thread_safe() {
        return rep.fail("not-shareable", d, None);
    }
    let mut base: Vec<Option<Obs>> = vec![];
    for s in &p.steps {
        base.push(cat().find(&s.op).and_then(|op| alone(op, &s.args).ok()));
    }
    let native = p.get("step") == 1;
    if !native {
        let _ = once(p, &base, rep);
        return;
    }
    // the planned schedule in a fork, so that more can follow from the same clean state
    let (r, hot) = once_in_fork(p, &base);
    merge(rep, r);
    if rep.viol.is_some() || p.get("more") == 0 {
        return;
    }
    let panics = base.iter().flatten().any(|b| b.out != Out::Ok);
    if !panics && hot.iter().any(|&h| h > PER_CALL) {
        focus(p, &hot, rep);
    }
}
/// Instructions of the harness itself that touch writable data of the process, per call.
const PER_CALL: u64 = 1;
/// A call touches writable data that calls could share: search for a pair of calls and a schedule
/// where that matters, with other arguments and with preemptions at exactly those instructions.
fn focus(p: &Plan, hot: &[u64], rep: &mut Rep) {
    rep.count("runs given extra schedules (calls touch shared data)", 1);
    let mut r = Rng::new(p.seed ^ 0xc05, p.run);
    let i = (0..hot.len()).max_by_key(|&i| hot[i]).unwrap();
    let op = p.steps[i].op.clone();
    let mut pool: Vec<(Step, Option<Obs>, u64)> = vec![];
    // arguments for which this operation does touch it
    let mut cands: Vec<Step> = p.steps.iter().filter(|s| s.op == op).cloned().collect();
    for k in 0..60 {
        let mut s = p.steps[i].clone();
        let pal = Palette::new(&mut r);
        s.args = if k % 3 == 0 { mutate(&mut r, &pal, &s.args) } else { pal.words(&mut r, WORDS) };
        cands.push(s);
    }
    for mut s in cands {
        s.tid = 0;
        let b = cat().find(&s.op).and_then(|op| alone(op, &s.args).ok());
        if b.as_ref().map(|b| b.out != Out::Ok).unwrap_or(true) {
            continue;
        }
        let mut q = Plan { steps: vec![s.clone()], ..p.clone() };
        q.sched.clear();
        q.faults.clear();
        q.set("more", 0);
        q.set("first", 0);
        let (x, h) = once_in_fork(&q, &[b.clone()]);
        let h = h.first().copied().unwrap_or(0);
        merge(rep, x);
        if rep.viol.is_some() {
            rep.viol.as_mut().unwrap().plan = Some(q);
            return;
        }
        if h > PER_CALL {
            pool.push((s, b, h));
        }
        if pool.len() >= 24 {
            break;
        }
    }
    if pool.is_empty() {
        return;
    }
    for k in 0..176 {
        // one call is suspended in the middle while another thread makes many
        let crowd = if k >= 160 { *r.pick(&[6, 18, 40, 70]) } else { 0 };
        let n = if k % 4 == 3 && crowd == 0 { 3 } else { 2 };
        let mut q = p.clone();
        q.set("more", 0);
        q.sched.clear();
        q.faults.clear();
        q.steps.clear();
        q.set("first", 0);
        let mut base = vec![];
        let mut total = 0;
        let one = r.below(pool.len() as u64) as usize;
        for t in 0..n {
            let calls = match (crowd, t) {
                (0, _) => 1 + r.below(2),
                (_, 0) => 1,
                _ => crowd,
            };
            for _ in 0..calls {
                // sometimes everybody makes the same call
                let (s, b, h) = &pool[if k % 5 == 4 { one } else { r.below(pool.len() as u64) as usize }];
                let mut s = s.clone();
                s.tid = t;
                q.steps.push(s);
                base.push(b.clone());
                total += h;
            }
        }
        if r.chance(1, 2) {
            q.set("gaps", r.next() as i64 & 0xffff);
        }
        if crowd > 0 {
            q.faults.push(Fault { step: 0, at: 1 + r.below(2 * total / (1 + crowd) + 1), kind: "hot".into(), val: 1 });
        } else if k % 2 == 0 {
            // one thread stops at one instruction, the others run to their end
            q.faults.push(Fault { step: 0, at: 1 + r.below(total.min(60)), kind: "hot".into(), val: 1 });
        } else {
            let dens = 1 + r.below(6);
            for k in 1..=(2 * total).min(120) {
                if r.chance(dens, 8) {
                    q.faults.push(Fault { step: 0, at: k, kind: "hot".into(), val: r.below(n as u64) });
                }
            }
        }
        let (mut x, _) = once_in_fork(&q, &base);
        if let Some(v) = &mut x.viol {
            v.plan = Some(q);
        }
        merge(rep, x);
        if rep.viol.is_some() {
            return;
        }
    }
}
fn merge(rep: &mut Rep, r: Rep) {
    rep.evals += r.evals;
    rep.events += r.events;
    for (k, v) in &r.counts {
        rep.count(k, *v);
    }
    for h in &r.hashes {
        rep.state(*h);
    }
    rep.mixin(r.digest);
    if rep.viol.is_none() {
        rep.viol = r.viol;
    }
}
/// One schedule from a clean state; also how often each step was about to touch shared data.
fn once_in_fork(p: &Plan, base: &[Option<Obs>]) -> (Rep, Vec<u64>) {
    match attempt(p, base, SUSPECT) {
        Err(crate::sys::Died::Exit(77) | crate::sys::Died::Cpu) => {
            // waiting, or just long?  how long is each call when nothing else runs?
            let mut most = 0;
            let mut all = 0;
            for (s, b) in p.steps.iter().zip(base) {
                let mut q = Plan { steps: vec![s.clone()], ..p.clone() };
                q.steps[0].tid = 0;
                q.sched.clear();
                q.faults.clear();
                q.set("first", 0);
                let n = attempt(&q, &[b.clone()], 1 << 40).map(|(r, _)| r.events).unwrap_or(TOO_LONG);
                most = n.max(most);
                all += n;
                if all >= TOO_LONG {
                    let mut rep = Rep::default();
                    rep.count("schedules not judged: the calls are too long to step through", 1);
                    return (rep, vec![0; p.steps.len()]);
                }
            }
            verdict(attempt(p, base, (8 * most).max(SUSPECT)))
        }
        x => verdict(x),
    }
}
fn verdict(r: Result<(Rep, Vec<u64>), crate::sys::Died>) -> (Rep, Vec<u64>) {
    match r {
        Ok(x) => x,
        Err(d) => {
            let mut rep = Rep::default();
            rep.fail(&d.class(), format!("the simulated process ended abnormally: {d:?}"), None);
            (rep, vec![])
        }
    }
}
fn attempt(p: &Plan, base: &[Option<Obs>], budget: u64) -> Result<(Rep, Vec<u64>), crate::sys::Died> {
    unsafe { BUDGET = budget };
    let r = crate::sys::isolated(20_000, WALL_MS, &mut || {
        let mut rep = Rep::default();
        let hot = once(p, base, &mut rep);
        let mut b = (hot.len() as u64).to_le_bytes().to_vec();
        for h in hot {
            b.extend(h.to_le_bytes());
        }
        b.extend(rep.bytes());
        b
    });
    r.map(|b| {
        let w = |i: usize| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        let n = w(0) as usize;
        (Rep::parse(&b[8 + 8 * n..]), (1..=n).map(w).collect())
    })
}
/// One schedule; returns, per step, how many instructions touched writable data of the process.
fn once(p: &Plan, base: &[Option<Obs>], rep: &mut Rep) -> Vec<u64> {
    let c = cat();
    let n = (p.steps.iter().map(|s| s.tid).max().unwrap_or(0) as usize + 1).min(hook::MAXTH);
    let mut jobs: Vec<Vec<Job>> = (0..n).map(|_| vec![]).collect();
    let mut h = 0;
    for (i, (s, b)) in p.steps.iter().zip(base).enumerate() {
        if let (Some(op), Some(base)) = (c.find(&s.op), b) {
            h = mix(h ^ hash_bytes(s.op.as_bytes()) ^ s.tid as u64);
            jobs[s.tid as usize % n].push(Job { op: *op, args: s.args.clone(), base: base.clone(), got: None, hot: 0, step: i });
        }
    }
    let native = p.get("step") == 1;
    unsafe {
        JOBS = jobs;
        STEPPING = native;
        hook::STEP_ON = native;
    }
    if native {
        crate::step::install();
    }
    let hot: Vec<(u64, u32)> = p.faults.iter().filter(|f| f.kind == "hot").map(|f| (f.at, f.val as u32)).collect();
    let out = sched::run(n, p.get("first") as u32, p.get("gaps") as u64, &p.sched, &hot, &body);
    unsafe { hook::STEP_ON = false };
    rep.events += out.points;
    rep.count(if native { "schedules at instruction granularity" } else { "schedules at scalar-operation granularity" }, 1);
    rep.count("fault: preemption in the middle of a call", out.switches);
    rep.count("probe: instructions touching writable shared data", out.hot_points);
    rep.count("fault: preemption aimed at shared data", out.hot_taken);
    if let Some(t) = out.blocked {
        rep.fail("blocked", format!("thread {t} waits inside a library call while the other threads are suspended"), None);
        return vec![];
    }
    let jobs = unsafe { &*std::ptr::addr_of!(JOBS) };
    for (t, l) in jobs.iter().enumerate() {
        for j in l {
            rep.evals += 1;
            let mut bad = None;
            match &j.got {
                None => bad = Some(("lost", format!("thread {t}: {} did not finish", j.op.full()))),
                Some(g) => {
                    if let Some(e) = g.broken {
                        bad = Some(("operand-modified", format!("thread {t}: {} modified an operand it was given by shared reference (seen at point {e})", j.op.full())));
                    } else if !g.same(&j.base) {
                        bad = Some(("result-differs", format!("thread {t}: {} gave {} but alone it gives {}", j.op.full(), g.show(), j.base.show())));
                    }
                }
            }
            if let Some((c, d)) = bad {
                rep.fail(c, d, None);
                return vec![];
            }
        }
    }
    rep.mixin(out.trace);
    if out.switches > 0 {
        rep.state(mix(h ^ out.trace));
    }
    let mut per = vec![0; p.steps.len()];
    for l in jobs {
        for j in l {
            per[j.step] = j.hot;
        }
    }
    per
}
mod probe {
    use core::marker::PhantomData;
    pub struct P<T: ?Sized>(pub PhantomData<T>);
    pub trait No {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    impl<T: ?Sized> No for P<T> {}
    pub struct S<T: ?Sized>(pub PhantomData<T>);
    pub struct Y<T: ?Sized>(pub PhantomData<T>);
    impl<T: ?Sized> No for S<T> {}
    impl<T: ?Sized> No for Y<T> {}
    impl<T: ?Sized + Send> S<T> {
        pub const SEND: bool = true;
    }
    impl<T: ?Sized + Sync> Y<T> {
        pub const SYNC: bool = true;
    }
}
/// Every value type can be moved to and shared between threads.
fn not_thread_safe() -> Option<String> {
    use cglinalg_core::*;
    use cglinalg_transform::*;
    use cglinalg_trigonometry::*;
    #[allow(unused_imports)]
    use probe::No;
    macro_rules! all {
        ($($t:ty),* $(,)?) => {$(
            if !probe::S::<$t>::SEND { return Some(format!("{} cannot be moved to another thread", stringify!($t))); }
            if !probe::Y::<$t>::SYNC { return Some(format!("{} cannot be shared between threads", stringify!($t))); }
        )*};
    }
    all!(
        Vector1<f64>, Vector2<f64>, Vector3<f64>, Vector4<f64>, Point1<f64>, Point2<f64>, Point3<f64>, Matrix1x1<f64>, Matrix2x2<f64>, Matrix3x3<f64>, Matrix4x4<f64>, Matrix2x3<f64>,
        Matrix3x2<f64>, Matrix3x4<f64>, Matrix4x3<f64>, Matrix2x4<f64>, Matrix4x2<f64>, Matrix1x4<f64>, Complex<f64>, Quaternion<f64>, Radians<f64>, Degrees<f64>, Euler<Radians<f64>>,
        Unit<Vector3<f64>>, Unit<Quaternion<f64>>, Translation2<f64>, Translation3<f64>, Rotation2<f64>, Rotation3<f64>, Scale2<f64>, Scale3<f64>, Shear2<f64>, Shear3<f64>, Reflection2<f64>,
        Reflection3<f64>, Isometry2<f64>, Isometry3<f64>, Similarity2<f64>, Similarity3<f64>, Transform2<f64>, Transform3<f64>, Perspective3<f64>, Orthographic3<f64>, L1Norm, L2Norm, LinfNorm, LpNorm,
        L1MatrixNorm, FrobeniusNorm, LinfMatrixNorm, TranslationTol<f64, 2>, RotationTol<f64, 3>, IsometryTol<f64, 3>, SimilarityTol<f64, 3>,
        Vector3<i32>, Matrix3x3<i32>, Vector3<String>,
    );
    None
}
