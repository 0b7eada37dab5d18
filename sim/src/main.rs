#![cfg_attr(not(all(feature = "ops", feature = "hist")), allow(dead_code, unused_macros))]
#![allow(unknown_lints, suspicious_runtime_symbol_definitions)]
#[macro_use]
mod ctx;
mod alloc;
#[cfg(feature = "ops")]
mod c01;
#[cfg(feature = "ops")]
mod c02;
#[cfg(feature = "ops")]
mod c03;
#[cfg(feature = "ops")]
mod c04;
#[cfg(feature = "ops")]
mod c05;
#[cfg(feature = "ops")]
mod c06;
#[cfg(feature = "ops")]
mod c07;
#[cfg(feature = "hist")]
mod c08;
#[cfg(feature = "hist")]
mod c09;
#[cfg(feature = "ops")]
mod cat;
mod common;
#[cfg(feature = "hist")]
mod hist;
#[cfg(feature = "hist")]
mod hist_defs;
#[cfg(feature = "ops")]
mod guards;
mod hook;
#[cfg(feature = "ops")]
mod ops_gen;
mod plan;
mod rng;
mod run;
mod sc;
mod sched;
mod simf;
mod sink;
mod step;
mod sys;
mod world;
#[cfg(feature = "hist")]
mod views_gen;
use run::*;
use std::time::Instant;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn props() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "ops")]
    v.extend([c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop()]);
    #[cfg(feature = "hist")]
    v.extend([c08::prop(), c09::prop()]);
    v
}
fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    common::install_panic_hook();
    #[cfg(feature = "ops")]
    let _ = cat::cat();
    #[cfg(feature = "hist")]
    let _ = hist_defs::subjects();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("show") => {
            let p = props().into_iter().find(|p| p.id == a[2]).expect("property");
            let run: u64 = a[3].parse().unwrap();
            print!("{}", plan_for(&p, env_u64("VERIF_SEED").unwrap_or(1), run, tier()).text("", ""));
            0
        }
        Some("one") => {
            let p = props().into_iter().find(|p| p.id == a[2]).expect("property");
            let run: u64 = a[3].parse().unwrap();
            let pl = plan_for(&p, env_u64("VERIF_SEED").unwrap_or(1), run, tier());
            let t = Instant::now();
            println!("{:?} {:?}", execute(&p, &pl), t.elapsed());
            0
        }
        #[cfg(feature = "ops")]
        Some("cover") => {
            // every catalogue entry in this process (used with an instrumented build to see what is never reached)
            let n: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(40);
            for (i, o) in cat::cat().ops.iter().enumerate() {
                let mut r = rng::Rng::new(7, i as u64);
                for _ in 0..n {
                    let pal = rng::Palette::new(&mut r);
                    common::set_faults(vec![], 1 << 20);
                    let _ = ctx::run_op(o, &pal.words(&mut r, common::WORDS));
                }
            }
            0
        }
        #[cfg(feature = "ops")]
        Some("ops") => {
            for o in &cat::cat().ops {
                println!("{}\t{}", o.full(), o.flags);
            }
            0
        }
        _ => {
            eprintln!("usage: cgsim check ID | replay FILE | show ID RUN | one ID RUN | ops");
            2
        }
    };
    std::process::exit(code);
}
fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn check(id: &str) -> i32 {
    let p = match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let seed = env_u64("VERIF_SEED").unwrap_or(1);
    let tier = tier();
    let runs = env_u64("CGSIM_RUNS").unwrap_or((p.runs)(tier));
    let w = env_u64("CGSIM_WORKERS").unwrap_or(8);
    let cap = env_u64("CGSIM_CAP_S").unwrap_or(if tier == Tier::Quick { 400 } else { 5400 });
    let t0 = Instant::now();
    let (tot, found) = sweep(&p, seed, tier, runs, w, cap);
    let samples: Vec<String> = (0..3).map(|i| plan_for(&p, seed, i * (runs / 3).max(1), tier).brief()).collect();
    let wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut viols = 0;
    if let Some(f) = found {
        let start = plan_for(&p, seed, f.run, tier);
        let first = f.viol.clone();
        sys::quiet_stderr();
        let (best, v, tries) = shrink(&p, start, f.viol, 60);
        let root = std::env::current_dir().unwrap();
        let dir = root.join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}-{}-{}.replay", p.id, seed, f.run));
        std::fs::write(&path, best.text(&v.class, &v.detail)).unwrap();
        let again = execute(&p, &best).viol;
        println!("violation class {} in run {} (seed {seed}): {}", first.class, f.run, first.detail);
        println!("minimised ({tries} tries) to {} step(s), {} fault(s), {} switch(es): {}", best.steps.len(), best.faults.len(), best.sched.len(), v.detail);
        println!("replay reproduces: {}", again.map(|x| x.class == v.class).unwrap_or(false));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
        viols = 1;
    }
    evidence(&p, tier, seed, &tot, wall, &samples, viols, &[], &[]);
    println!(
        "{} {:?}: {} runs, {} calls judged, {} distinct, {} points, digest {:016x}, {:.1}s",
        p.id, tier, tot.runs, tot.evals, tot.distinct, tot.events, tot.digest, wall
    );
    code
}
fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let (pl, class) = plan::Plan::parse(&t).expect("replay file format");
    let p = props().into_iter().find(|p| p.id == pl.prop).expect("property");
    let r = execute(&p, &pl);
    match r.viol {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("recorded class: {class}");
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
