//! One scenario per property: a workload, a fault mix and an oracle over real generated types.
use crate::bv::Bv;
use crate::fault::{NO_PLAN, Plan};
use crate::glue;
use crate::meta::{Dut, Meta, TypeEntry};
use crate::op::{K, Op, Out, St};
use crate::rng::{Fnv, Rng};
use crate::step::Step;
use std::collections::{BTreeMap, HashSet};

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c11;
mod c12;
pub mod c13;
mod c14;
pub mod c15;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: &'static str,
    pub msg: String,
}
pub fn viol<T>(class: &'static str, msg: String) -> Result<T, Viol> {
    Err(Viol { class, msg })
}
pub type R = Result<(), Viol>;

#[derive(Default)]
pub struct Stats {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub kinds: BTreeMap<&'static str, u64>,
    pub ops: u64,
    pub checks: u64,
    pub states: HashSet<u64>,
    pub known: BTreeMap<String, u64>,
}
pub struct Ctx {
    pub stats: Stats,
    pub dig: Fnv,
    pub trace: Option<Vec<String>>,
}
impl Ctx {
    pub fn new() -> Ctx {
        Ctx { stats: Stats::default(), dig: Fnv::new(), trace: None }
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.stats.faults.entry(k).or_default() += 1;
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.stats.probes.entry(k).or_default() += 1;
    }
    pub fn known(&mut self, k: String) {
        *self.stats.known.entry(k).or_default() += 1;
    }
    pub fn check(&mut self) {
        self.stats.checks += 1;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f());
        }
    }
    /// Runs one real operation.
    pub fn run(&mut self, d: &mut dyn Dut, op: &Op, plan: Plan) -> glue::Ran {
        let r = glue::run(d, op, plan);
        self.stats.ops += 1;
        *self.stats.kinds.entry(op.k.name()).or_default() += 1;
        let raw = d.raw();
        self.dig.u64(op.k as u64);
        self.dig.u64(r.out.st as u64);
        if let Some(v) = &r.out.v {
            self.dig.bytes(v.bytes());
        }
        self.dig.bytes(r.out.text.as_bytes());
        self.dig.bytes(&r.out.buf[..r.out.blen]);
        self.dig.bytes(raw.bytes());
        let mut h = Fnv::new();
        h.bytes(d.meta().name.as_bytes()); h.u64(d.meta().nbits as u64 * 16 + d.meta().array as u64 * 4 + d.meta().heap as u64 * 2 + d.meta().ignored as u64);
        h.bytes(raw.bytes());
        if self.stats.states.len() < 4_000_000 {
            self.stats.states.insert(h.0);
        }
        if let Some(t) = &mut self.trace {
            t.push(format!("      {} -> {}  state={}", op.text(), r.out.short(), raw.text()));
        }
        r
    }
    pub fn plain(&mut self, d: &mut dyn Dut, op: &Op) -> Out {
        self.run(d, op, NO_PLAN).out
    }
}
impl Default for Ctx {
    fn default() -> Self {
        Self::new()
    }
}

pub trait Scen {
    fn describe(&self) -> String;
    fn propose(&mut self, r: &mut Rng) -> Step;
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R;
    fn finish(&mut self, _c: &mut Ctx) -> R {
        Ok(())
    }
    fn max_steps(&self) -> usize;
}

pub fn make(prop: &str, types: &'static [TypeEntry], cfg: &mut Rng) -> Option<Box<dyn Scen>> {
    Some(match prop {
        "C01" => Box::new(c01::S::new(types, cfg)),
        "C02" => Box::new(c02::S::new(types, cfg)),
        "C03" => Box::new(c03::S::new(types, cfg)),
        "C04" => Box::new(c04::S::new(types, cfg)),
        "C05" => Box::new(c05::S::new(types, cfg)),
        "C06" => Box::new(c06::S::new(types, cfg)),
        "C07" => Box::new(c07::S::new(types, cfg)),
        "C08" => Box::new(c08::S::new(types, cfg)),
        "C09" => Box::new(c09::S::new(types, cfg)),
        "C11" => Box::new(c11::S::new(types, cfg)),
        "C12" => Box::new(c12::S::new(types, cfg)),
        "C13" => Box::new(c13::S::new(cfg)),
        "C15" => Box::new(c15::S::new(cfg)),
        "C14" => c14::make(types, cfg),
        _ => return None,
    })
}

pub fn pick_type(types: &'static [TypeEntry], r: &mut Rng, p: impl Fn(&Meta) -> bool) -> TypeEntry {
    let v: Vec<&TypeEntry> = types.iter().filter(|t| p(t.meta)).collect();
    assert!(!v.is_empty(), "no suitable type");
    **r.pick(&v)
}
pub fn title(t: &TypeEntry) -> String {
    format!("{} ({}, {} bits, {} fields)", t.meta.name, t.meta.storage(), t.meta.nbits, t.meta.fields.len())
}
/// A starting value: power-on, or an imported random image.
pub fn start(t: &TypeEntry, r: &mut Rng) -> Box<dyn Dut> {
    let raw = match r.below(3) {
        0 => crate::model::power_on(t.meta, true),
        1 => crate::model::power_on(t.meta, false),
        _ => {
            let v = crate::opgen::rand_bv(r, t.meta.nbits);
            normalised(t.meta, &v)
        }
    };
    (t.make)(&raw)
}
pub fn normalised(m: &Meta, v: &Bv) -> Bv {
    let mut s = *v;
    for f in m.fields {
        let x = f.norm(&v.slice(f.off, f.bits));
        s.put(f.off, &x);
    }
    s
}
/// Equal bits, or equal values for fields of non-injective custom types.
pub fn same_value(m: &Meta, a: &Bv, b: &Bv) -> Option<String> {
    for (i, f) in m.fields.iter().enumerate() {
        let (x, y) = (m.get(a, i), m.get(b, i));
        if x != y && (f.injective() || f.norm(&x) != f.norm(&y)) {
            return Some(format!("field {} (bits {}..{}): {} instead of {}", f.name, f.off, f.off + f.bits, x.text(), y.text()));
        }
    }
    None
}
/// Bits that differ outside a mask.
pub fn outside(a: &Bv, b: &Bv, mask: &Bv) -> Option<u32> {
    (0..a.n).find(|i| a.get(*i) != b.get(*i) && !mask.get(*i))
}
pub fn bad_panic(o: &Out, op: &Op) -> R {
    if matches!(o.st, St::Panic | St::Injected) {
        return viol("panic", format!("{} panicked: {}", op.text(), o.text));
    }
    Ok(())
}
pub fn is_single(k: K) -> bool {
    matches!(k, K::Set | K::ClearF | K::ClearFDef | K::InvertF)
}
