//! Owners of disjoint fields share one word: load / modify / publish under a seeded scheduler.
use super::*;
use crate::model;
use crate::opgen;
use crate::step::Act;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Cas,
    Lock,
    Direct,
}
struct Owner {
    fields: Vec<usize>,
    local: Option<Box<dyn Dut>>,
    loaded: Bv,
    intended: Vec<Option<Bv>>,
    crashed: bool,
    stalled: u32,
    published: u32,
}
pub struct S {
    t: TypeEntry,
    mode: Mode,
    shared: Box<dyn Dut>,
    want: Bv,
    owners: Vec<Owner>,
    lock: Option<usize>,
    fault_rate: u32,
    steps: usize,
}
impl S {
    pub fn new(types: &'static [TypeEntry], r: &mut Rng) -> S {
        let t = pick_type(types, r, |m| m.fields.iter().filter(|f| f.has_setter()).count() >= 2);
        let m = t.meta;
        let ws: Vec<usize> = (0..m.fields.len()).filter(|i| m.fields[*i].has_setter()).collect();
        let n = (2 + r.idx(4)).min(ws.len());
        let mut owners: Vec<Owner> = (0..n)
            .map(|_| Owner {
                fields: vec![],
                local: None,
                loaded: Bv::zero(m.nbits),
                intended: vec![None; m.fields.len()],
                crashed: false,
                stalled: 0,
                published: 0,
            })
            .collect();
        for (k, i) in ws.iter().enumerate() {
            let o = if k < n { k } else { r.idx(n) };
            owners[o].fields.push(*i);
        }
        let mode = *r.pick(&[Mode::Cas, Mode::Cas, Mode::Lock, Mode::Direct]);
        let shared = start(&t, r);
        let want = shared.raw();
        S { t, mode, shared, want, owners, lock: None, fault_rate: *r.pick(&[0, 5, 15, 30]), steps: 20 + r.idx(60) }
    }
    fn owner_mask(&self, o: usize) -> Bv {
        let mut k = Bv::zero(self.t.meta.nbits);
        for i in &self.owners[o].fields {
            let f = &self.t.meta.fields[*i];
            k.put(f.off, &Bv::ones(f.bits));
        }
        k
    }
    fn gen_mod(&self, r: &mut Rng, o: usize) -> Op {
        let m = self.t.meta;
        let fi = *r.pick(&self.owners[o].fields);
        let f = &m.fields[fi];
        let mut op = Op::new(K::Set);
        match r.below(8) {
            0 if m.has(K::ClearF) => op.k = K::ClearF,
            1 if m.has(K::ClearFDef) && f.default.is_some() => op.k = K::ClearFDef,
            2 if m.has(K::InvertF) => op.k = K::InvertF,
            _ => {
                op.c = r.chance(1, 3);
                op.v = opgen::field_value(r, f);
            }
        }
        op.f = fi as u32;
        op
    }
    /// Runs one field operation on a value and checks it touches its field only.
    fn modify(m: &Meta, d: &mut dyn Dut, op: &Op, c: &mut Ctx) -> Result<Option<Bv>, Viol> {
        let fi = op.f as usize;
        let f = &m.fields[fi];
        let pre = d.raw();
        let o = c.plain(d, op);
        bad_panic(&o, op)?;
        let post = d.raw();
        let mut k = Bv::zero(m.nbits);
        k.put(f.off, &Bv::ones(f.bits));
        c.check();
        if let Some(b) = outside(&pre, &post, &k) {
            let who = m.owner(b).map(|i| m.fields[i].name).unwrap_or("?");
            return viol("neighbour-disturbed", format!("{} changed bit {b} of field {who}: {} -> {}", op.text(), pre.text(), post.text()));
        }
        let new = m.get(&post, fi);
        if o.st == St::Err {
            if new != m.get(&pre, fi) {
                return viol("refused-write-took-effect", format!("{} failed but changed its field", op.text()));
            }
            return Ok(None);
        }
        let mut un = op.clone();
        un.c = false;
        let e = model::expect(m, &pre, &un);
        let w = m.get(&e.st, fi);
        if new != w && (f.injective() || f.norm(&new) != f.norm(&w)) {
            return viol("wrong-field-value", format!("{}: field {} holds {} instead of {}", op.text(), f.name, new.text(), w.text()));
        }
        Ok(Some(new))
    }
    fn check_word(&self, c: &mut Ctx) -> R {
        c.check();
        let w = self.shared.raw();
        if w != self.want {
            let m = self.t.meta;
            let i = (0..m.fields.len()).find(|i| m.get(&w, *i) != m.get(&self.want, *i)).unwrap_or(0);
            return viol("lost-update", format!("shared word {} but owners published {} (field {})", w.text(), self.want.text(), m.fields[i].name));
        }
        Ok(())
    }
}
impl Scen for S {
    fn describe(&self) -> String {
        let mode = match self.mode {
            Mode::Cas => "compare-and-swap",
            Mode::Lock => "lock",
            Mode::Direct => "operation-level interleaving",
        };
        format!("{} owners={} mode={} fields={:?}", title(&self.t), self.owners.len(), mode, self.owners.iter().map(|o| &o.fields).collect::<Vec<_>>())
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        let o = r.idx(self.owners.len());
        let t = o as u32;
        if r.chance(self.fault_rate, 200) {
            return match r.below(3) {
                0 => Step::new(Act::Crash, t),
                1 => Step::new(Act::SpuriousFail, t),
                _ => Step::new(Act::Stall, t).with(1 + r.below(6) as u32, 0),
            };
        }
        if self.owners[o].crashed {
            return Step::new(Act::Restart, t);
        }
        if r.chance(1, 8) {
            let w = [1u8; 32];
            let mut s = Step::op(t, opgen::any(r, self.t.meta, &w, opgen::is_read));
            s.act = Act::Read;
            return s;
        }
        let have = self.owners[o].local.is_some();
        let mut s = Step::op(t, self.gen_mod(r, o));
        match self.mode {
            Mode::Direct => s.act = Act::Modify,
            Mode::Cas => {
                if !have {
                    return Step::new(Act::Load, t);
                }
                if r.chance(1, 2) {
                    return Step::new(Act::Publish, t);
                }
                s.act = Act::Modify;
            }
            Mode::Lock => {
                if self.lock != Some(o) {
                    return Step::new(Act::Lock, t);
                }
                if r.chance(1, 3) {
                    return Step::new(Act::Unlock, t);
                }
                s.act = Act::Modify;
            }
        }
        s
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        let o = s.t as usize;
        if o >= self.owners.len() {
            return Ok(());
        }
        if self.owners[o].stalled > 0 && s.act != Act::Crash {
            self.owners[o].stalled -= 1;
            c.probe("step of a stalled owner skipped");
            return Ok(());
        }
        let m = self.t.meta;
        match s.act {
            Act::Stall => {
                c.fault("owner stall");
                if self.owners[o].local.is_some() {
                    c.probe("stall between load and publish");
                }
                self.owners[o].stalled = s.a;
            }
            Act::Crash => {
                c.fault("owner crash");
                if self.owners[o].local.is_some() {
                    c.probe("crash between load and publish");
                }
                let w = &mut self.owners[o];
                w.local = None;
                w.crashed = true;
                w.stalled = 0;
                for x in w.intended.iter_mut() {
                    *x = None;
                }
                if self.lock == Some(o) {
                    // robust lock: the update so far stays, the lock is released
                    self.lock = None;
                    c.probe("crash while holding the lock");
                }
            }
            Act::Restart => self.owners[o].crashed = false,
            Act::Load => {
                if self.owners[o].crashed || self.mode != Mode::Cas {
                    return Ok(());
                }
                let raw = self.shared.raw();
                let w = &mut self.owners[o];
                w.loaded = raw;
                w.local = Some(self.shared.of_raw(&raw));
                for x in w.intended.iter_mut() {
                    *x = None;
                }
            }
            Act::Modify => {
                let Some(op) = &s.op else { return Ok(()) };
                if self.owners[o].crashed || !self.owners[o].fields.contains(&(op.f as usize)) {
                    return Ok(());
                }
                match self.mode {
                    Mode::Cas => {
                        let Some(mut d) = self.owners[o].local.take() else { return Ok(()) };
                        let v = Self::modify(m, d.as_mut(), op, c)?;
                        self.owners[o].local = Some(d);
                        if v.is_some() {
                            self.owners[o].intended[op.f as usize] = v;
                        }
                    }
                    _ => {
                        if self.mode == Mode::Lock && self.lock != Some(o) {
                            return Ok(());
                        }
                        if let Some(v) = Self::modify(m, self.shared.as_mut(), op, c)? {
                            self.want.put(m.fields[op.f as usize].off, &v);
                            self.owners[o].published += 1;
                        }
                        self.check_word(c)?;
                    }
                }
            }
            Act::Publish | Act::SpuriousFail => {
                let Some(d) = self.owners[o].local.take() else { return Ok(()) };
                let cur = self.shared.raw();
                if s.act == Act::SpuriousFail {
                    c.fault("spurious compare-and-swap failure");
                    return Ok(());
                }
                if cur != self.owners[o].loaded {
                    c.fault("lost compare-and-swap race");
                    return Ok(());
                }
                let new = d.raw();
                c.check();
                if let Some(b) = outside(&cur, &new, &self.owner_mask(o)) {
                    return viol("neighbour-disturbed", format!("publication of owner {o} changes bit {b} it does not own"));
                }
                self.shared = self.shared.of_raw(&new);
                for i in 0..m.fields.len() {
                    if let Some(v) = self.owners[o].intended[i] {
                        self.want.put(m.fields[i].off, &v);
                    }
                }
                self.owners[o].published += 1;
                c.probe("successful publication");
                self.check_word(c)?;
            }
            Act::Lock => {
                if self.mode == Mode::Lock && !self.owners[o].crashed && self.lock.is_none() {
                    self.lock = Some(o);
                }
            }
            Act::Unlock => {
                if self.lock == Some(o) {
                    self.lock = None;
                }
            }
            Act::Read => {
                let Some(op) = &s.op else { return Ok(()) };
                let d: &mut dyn Dut = match self.owners[o].local.as_mut() {
                    Some(d) => d.as_mut(),
                    None => self.shared.as_mut(),
                };
                let pre = d.raw();
                let out = c.plain(d, op);
                c.check();
                if d.raw() != pre {
                    return viol("read-changes-word", format!("{}: {} -> {}", op.text(), pre.text(), d.raw().text()));
                }
                if op.k == K::Get {
                    let e = model::expect(m, &pre, op);
                    if let Some(x) = model::diff_out(m, op, &out, &e) {
                        return viol("wrong-field-value", format!("{}: {x}", op.text()));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    /// Once faults stop every owner makes progress: one uncontended round each.
    fn finish(&mut self, c: &mut Ctx) -> R {
        let m = self.t.meta;
        self.lock = None;
        for o in 0..self.owners.len() {
            let fi = self.owners[o].fields[0];
            let f = &m.fields[fi];
            let mut op = Op::new(K::Set);
            op.f = fi as u32;
            op.v = f.decoded(&m.get(&self.want, fi).not());
            let mut d = self.shared.of_raw(&self.shared.raw());
            if let Some(v) = Self::modify(m, d.as_mut(), &op, c)? {
                self.want.put(f.off, &v);
            }
            self.shared = d;
            self.check_word(c)?;
            let mut g = Op::new(K::Get);
            g.f = fi as u32;
            if f.has_getter() {
                let e = model::expect(m, &self.want, &g);
                let out = c.plain(self.shared.as_mut(), &g);
                if let Some(x) = model::diff_out(m, &g, &out, &e) {
                    return viol("wrong-field-value", format!("{}: {x}", g.text()));
                }
            }
        }
        Ok(())
    }
}
