//! Flag enums as codes on a lossy link and in the memory of nodes that restart.
use super::*;
use crate::step::Act;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::OnceLock;

/// A real `#[bitflag]` enum and what its declaration says.
pub struct FlagEntry {
    pub name: &'static str,
    pub decl: &'static str,
    pub bits: u32,
    pub from_le: bool,
    pub into_le: bool,
    /// Variant an undeclared code stands for.
    pub base: usize,
    /// Discriminant of each variant.
    pub table: &'static [u128],
    pub dec: fn(u128) -> usize,
    pub enc: fn(usize) -> u128,
}
static FLAGS: OnceLock<Vec<&'static FlagEntry>> = OnceLock::new();
pub fn register(v: Vec<&'static FlagEntry>) {
    let _ = FLAGS.set(v);
}
pub fn any() -> bool {
    FLAGS.get().is_some_and(|v| !v.is_empty())
}

impl FlagEntry {
    fn order(&self, v: u128, little: bool) -> u128 {
        if little { v.swap_bytes() >> (128 - self.bits) } else { v }
    }
    fn code(&self, i: usize) -> u128 {
        self.order(self.table[i], self.into_le)
    }
    fn meaning(&self, code: u128) -> usize {
        let d = self.order(code, self.from_le);
        self.table.iter().position(|t| *t == d).unwrap_or(self.base)
    }
    fn mask(&self) -> u128 {
        u128::MAX >> (128 - self.bits)
    }
}

struct Node {
    cur: usize,
    /// Code last written to the node's own memory.
    mem: u128,
    /// Nothing touched the memory since.
    clean: bool,
}
struct Msg {
    code: u128,
    /// Variant that was sent, while the message is intact.
    sent: Option<usize>,
}
pub struct S {
    e: &'static FlagEntry,
    nodes: Vec<Node>,
    link: Vec<Msg>,
    rate: u32,
    steps: usize,
}
impl S {
    pub fn new(r: &mut Rng) -> S {
        let v = FLAGS.get().expect("no flag enums");
        let e = v[r.idx(v.len())];
        let n = 2 + r.idx(3);
        let nodes = (0..n).map(|_| { let cur = r.idx(e.table.len()); Node { cur, mem: e.code(cur), clean: true } }).collect();
        S { e, nodes, link: vec![], rate: *r.pick(&[0, 10, 30, 50]), steps: 20 + r.idx(50) }
    }
    fn enc(&self, i: usize, c: &mut Ctx) -> Result<u128, Viol> {
        c.stats.ops += 1;
        *c.stats.kinds.entry("into_bits").or_default() += 1;
        c.check();
        let e = self.e;
        let Ok(code) = catch_unwind(AssertUnwindSafe(|| (e.enc)(i))) else {
            return viol("panic", format!("into_bits of variant {i} of {} panicked", e.name));
        };
        c.dig.u64(i as u64);
        c.dig.bytes(&code.to_le_bytes());
        c.log(|| format!("      V{i}.into_bits() = {code:#x}"));
        if code != e.code(i) {
            return viol("wrong-code", format!("V{i} = {:#x} encodes as {code:#x} instead of {:#x}", e.table[i], e.code(i)));
        }
        Ok(code)
    }
    fn dec(&self, code: u128, c: &mut Ctx) -> Result<usize, Viol> {
        c.stats.ops += 1;
        *c.stats.kinds.entry("from_bits").or_default() += 1;
        c.check();
        let e = self.e;
        let Ok(i) = catch_unwind(AssertUnwindSafe(|| (e.dec)(code))) else {
            return viol("panic", format!("from_bits({code:#x}) of {} panicked", e.name));
        };
        c.dig.u64(i as u64);
        let mut h = Fnv::new();
        h.bytes(e.name.as_bytes());
        h.bytes(&code.to_le_bytes());
        c.stats.states.insert(h.0);
        c.log(|| format!("      from_bits({code:#x}) = V{i}"));
        if i != e.meaning(code) {
            return viol("wrong-variant", format!("{code:#x} decodes as V{i} instead of V{}", e.meaning(code)));
        }
        if e.order(code, e.from_le) != e.table[i] {
            c.probe("undeclared code read as the base variant");
        }
        Ok(i)
    }
}
impl Scen for S {
    fn describe(&self) -> String {
        format!("{} (u{}, {} variants) nodes={}", self.e.name, self.e.bits, self.e.table.len(), self.nodes.len())
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        let t = r.idx(self.nodes.len()) as u32;
        let q = if self.link.is_empty() { 0 } else { r.idx(self.link.len()) as u32 };
        if r.chance(self.rate, 100) {
            return match r.below(8) {
                0 => Step::new(Act::Drop, t).with(q, 0),
                1 => Step::new(Act::Duplicate, t).with(q, 0),
                2 | 3 => Step::new(Act::Flip, t).with(q, r.below(self.e.bits as u64) as u32),
                4 => Step::new(Act::Tear, t).with(r.below(self.e.bits as u64) as u32, 0),
                // foreign traffic: a peer of the other byte order, noise
                5 => Step::new(Act::Import, t).with(r.idx(self.e.table.len()) as u32, 0),
                6 => Step::new(Act::Import, t).with(r.next() as u32, 1 + r.below(3) as u32),
                _ => Step::new(Act::Restart, t),
            };
        }
        match r.below(5) {
            0 => Step::new(Act::Modify, t).with(r.idx(self.e.table.len()) as u32, 0),
            1 => Step::new(Act::Restart, t),
            2 | 3 => Step::new(Act::Send, t),
            _ => Step::new(Act::Deliver, t).with(q, 0),
        }
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        let t = s.t as usize % self.nodes.len();
        let e = self.e;
        let q = s.a as usize;
        match s.act {
            Act::Modify => {
                let i = q % e.table.len();
                let code = self.enc(i, c)?;
                self.nodes[t] = Node { cur: i, mem: code, clean: true };
            }
            Act::Send => {
                let i = self.nodes[t].cur;
                let code = self.enc(i, c)?;
                self.link.push(Msg { code, sent: Some(i) });
                if self.link.len() > 12 {
                    self.link.remove(0);
                }
            }
            Act::Deliver => {
                if q >= self.link.len() {
                    return Ok(());
                }
                let m = self.link.remove(q);
                if q > 0 {
                    c.fault("message reordered");
                }
                let i = self.dec(m.code, c)?;
                if let (Some(v), true) = (m.sent, e.from_le == e.into_le) {
                    c.check();
                    if v != i {
                        return viol("variant-changed", format!("V{v} was sent, V{i} arrived"));
                    }
                }
                let mem = self.enc(i, c)?;
                self.nodes[t] = Node { cur: i, mem, clean: true };
            }
            Act::Drop => {
                if q < self.link.len() {
                    self.link.remove(q);
                    c.fault("message lost");
                }
            }
            Act::Duplicate => {
                if q < self.link.len() {
                    let m = Msg { code: self.link[q].code, sent: self.link[q].sent };
                    self.link.push(m);
                    c.fault("message duplicated");
                }
            }
            Act::Flip => {
                if q < self.link.len() {
                    self.link[q].code ^= 1 << (s.b % e.bits);
                    self.link[q].sent = None;
                    c.fault("bit of a code flipped");
                }
            }
            Act::Import => {
                let code = match s.b {
                    0 => e.order(e.code(q % e.table.len()), true),
                    1 => (mix(s.a as u64) as u128 | (mix(s.a as u64 + 1) as u128) << 64) & e.mask(),
                    2 => (s.a % 260) as u128 & e.mask(),
                    _ => e.mask() - (s.a % 260) as u128 % (e.mask() / 2),
                };
                c.fault("foreign code on the link");
                self.link.push(Msg { code, sent: None });
            }
            Act::Tear => {
                self.nodes[t].mem ^= 1 << (s.a % e.bits);
                self.nodes[t].clean = false;
                c.fault("bit of a stored code flipped");
            }
            Act::Restart => {
                c.fault("node restarted from its stored code");
                let i = self.dec(self.nodes[t].mem, c)?;
                if self.nodes[t].clean && e.from_le == e.into_le {
                    c.check();
                    if i != self.nodes[t].cur {
                        return viol("variant-changed", format!("V{} was stored, V{i} was loaded", self.nodes[t].cur));
                    }
                }
                self.nodes[t].cur = i;
                self.nodes[t].mem = self.enc(i, c)?;
                self.nodes[t].clean = true;
            }
            _ => {}
        }
        Ok(())
    }
    /// Faults stop: one node announces its mode, everybody adopts it and repeats it.
    fn finish(&mut self, c: &mut Ctx) -> R {
        if self.e.from_le != self.e.into_le {
            return Ok(());
        }
        let v = self.nodes[0].cur;
        let mut code = self.enc(v, c)?;
        for k in 1..self.nodes.len() {
            let i = self.dec(code, c)?;
            c.check();
            if i != v {
                return viol("no-agreement", format!("node {k} ends with V{i}, node 0 announced V{v}"));
            }
            code = self.enc(i, c)?;
        }
        Ok(())
    }
}
fn mix(a: u64) -> u64 {
    crate::rng::mix(a, 77)
}
