//! The catalogue of concrete calls, for every scalar kind.
use crate::ctx::Op;
use crate::sc::*;
use std::collections::HashMap;
use std::sync::OnceLock;

pub struct Cat {
    pub ops: Vec<Op>,
    pub by: HashMap<String, usize>,
    /// whether partial operations have an answer (guards.rs)
    pub guards: HashMap<String, Op>,
    /// indices per receiver/type family, for thematic histories
    pub fam: HashMap<String, Vec<usize>>,
}
fn floats<S: Fl>(v: &mut Vec<Op>) {
    crate::ops_gen::reg_sc::<S>(v);
    crate::ops_gen::reg_sg::<S>(v);
    crate::ops_gen::reg_fl::<S>(v);
}
/// The type a call is mainly about.
pub fn family(o: &Op) -> String {
    let n = o.name.trim_start_matches(['&', '-', '<']);
    let e = n.find(|c: char| !(c.is_alphanumeric())).unwrap_or(n.len());
    format!("{}:{}", o.sk.name(), &n[..e])
}
pub fn cat() -> &'static Cat {
    static C: OnceLock<Cat> = OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        floats::<SimF64>(&mut v);
        floats::<f64>(&mut v);
        floats::<f32>(&mut v);
        crate::ops_gen::reg_sc::<i32>(&mut v);
        crate::ops_gen::reg_sg::<i32>(&mut v);
        crate::ops_gen::reg_sc::<u32>(&mut v);
        crate::ops_gen::pr_f64::reg(&mut v);
        crate::ops_gen::pr_f32::reg(&mut v);
        crate::ops_gen::pr_i32::reg(&mut v);
        crate::ops_gen::pr_u32::reg(&mut v);
        let mut by = HashMap::new();
        let mut fam: HashMap<String, Vec<usize>> = HashMap::new();
        for (i, o) in v.iter().enumerate() {
            by.insert(o.full(), i);
            fam.entry(family(o)).or_default().push(i);
        }
        let mut g = vec![];
        crate::guards::reg::<SimF64>(&mut g);
        crate::guards::reg::<f64>(&mut g);
        crate::guards::reg::<f32>(&mut g);
        crate::guards::reg::<i32>(&mut g);
        crate::guards::reg::<u32>(&mut g);
        crate::guards::reg_fl::<SimF64>(&mut g);
        crate::guards::reg_fl::<f64>(&mut g);
        crate::guards::reg_fl::<f32>(&mut g);
        crate::guards::reg_int::<i32>(&mut g);
        let guards = g.into_iter().map(|o| (o.full(), o)).collect();
        Cat { ops: v, by, guards, fam }
    })
}
impl Cat {
    pub fn find(&self, n: &str) -> Option<&Op> {
        self.by.get(n).map(|&i| &self.ops[i])
    }
    pub fn related(&self, r: &mut crate::rng::Rng, i: usize) -> usize {
        *r.pick(&self.fam[&family(&self.ops[i])])
    }
}
