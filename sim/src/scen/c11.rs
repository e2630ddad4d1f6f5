//! Replicas of one layout over different storage, fed by one log, with crashes and state transfer.
use super::*;
use crate::meta::FK;
use crate::model::{image, little};
use crate::opgen;
use crate::step::Act;
use std::collections::HashMap;

struct Rep {
    t: TypeEntry,
    d: Option<Box<dyn Dut>>,
    at: usize,
}
#[derive(Clone, PartialEq)]
struct Seen {
    st: St,
    v: Option<Bv>,
    text: String,
    raw: Bv,
    /// Caller buffer of a slice export.
    buf: Vec<u8>,
    by: usize,
}
pub struct S {
    reps: Vec<Rep>,
    log: Vec<Op>,
    seen: HashMap<usize, Seen>,
    debug: bool,
    slices: bool,
    w: [u8; 32],
    rate: u32,
    steps: usize,
    init: Bv,
}
/// Integer-backed types have no slice forms.
fn slice_form(k: K) -> bool {
    matches!(k, K::IntoSlice | K::FromSlice)
}
impl S {
    pub fn new(types: &'static [TypeEntry], r: &mut Rng) -> S {
        let t0 = pick_type(types, r, |m| m.group > 0 && !m.faulty());
        let g = t0.meta.group;
        let all: Vec<TypeEntry> = types.iter().filter(|t| t.meta.group == g).copied().collect();
        let init = match r.below(2) {
            0 => crate::model::power_on(t0.meta, true),
            _ => {
                let v = opgen::rand_bv(r, t0.meta.nbits);
                normalised(t0.meta, &v)
            }
        };
        let slices = all.iter().all(|t| t.meta.array);
        let debug = slices || all.iter().all(|t| !t.meta.array) || !t0.meta.fields.iter().any(|f| matches!(f.fk, FK::Arr));
        let reps: Vec<Rep> = all.iter().map(|t| Rep { t: *t, d: Some((t.make)(&init)), at: 0 }).collect();
        S { reps, log: vec![], seen: HashMap::new(), debug, slices, w: opgen::weights(r), rate: *r.pick(&[0, 5, 12]), steps: 30 + r.idx(80), init }
    }
    /// The log speaks of stored bits; each storage kind has its own image of them.
    fn localise(m: &Meta, op: &Op) -> Op {
        let mut o = op.clone();
        match op.k {
            K::From => o.v = image(m, &op.v, little(op.e, m.from_le)),
            K::FromTrait => o.v = image(m, &op.v, m.from_le),
            _ => {}
        }
        o
    }
    fn canonical(m: &Meta, op: &Op, o: &Out, raw: Bv, by: usize) -> Seen {
        let v = match op.k {
            K::Into => o.v.map(|v| image(m, &v, little(op.e, m.into_le))),
            K::IntoTrait => o.v.map(|v| image(m, &v, m.into_le)),
            _ => o.v,
        };
        Seen { st: o.st, v, text: o.text.clone(), raw, buf: o.buf[..o.blen].to_vec(), by }
    }
    fn deliver(&mut self, k: usize, c: &mut Ctx) -> R {
        let i = self.reps[k].at;
        if i >= self.log.len() {
            return Ok(());
        }
        let m = self.reps[k].t.meta;
        let Some(mut d) = self.reps[k].d.take() else { return Ok(()) };
        let op = self.log[i].clone();
        let lo = Self::localise(m, &op);
        let mut o = c.plain(d.as_mut(), &lo);
        if o.st == St::Panic {
            o.text.clear();
        }
        let now = Self::canonical(m, &op, &o, d.raw(), k);
        self.reps[k].d = Some(d);
        self.reps[k].at += 1;
        c.check();
        match self.seen.get(&i) {
            None => {
                self.seen.insert(i, now);
            }
            Some(old) => {
                let a = self.reps[old.by].t.meta.storage();
                let b = m.storage();
                if old.st != now.st || old.v != now.v || old.text != now.text {
                    return viol("results-diverge", format!("{}: {a} gives {:?} {:?} {}, {b} gives {:?} {:?} {}", op.text(), old.st, old.v, old.text, now.st, now.v, now.text));
                }
                if old.buf != now.buf {
                    return viol("results-diverge", format!("{}: {a} exports {:02x?}, {b} exports {:02x?}", op.text(), old.buf, now.buf));
                }
                if old.raw != now.raw {
                    return viol("states-diverge", format!("{}: {a} holds {}, {b} holds {}", op.text(), old.raw.text(), now.raw.text()));
                }
            }
        }
        Ok(())
    }
}
impl Scen for S {
    fn describe(&self) -> String {
        format!("replicas: {}", self.reps.iter().map(|r| title(&r.t)).collect::<Vec<_>>().join("; "))
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        let n = self.reps.len();
        let k = r.idx(n) as u32;
        if r.chance(self.rate, 100) {
            return Step::new(Act::Crash, k);
        }
        if self.reps[k as usize].d.is_none() {
            return Step::new(Act::Catchup, k).with(r.idx(n) as u32, 1 + r.below(2) as u32);
        }
        if r.chance(1, 3) {
            let (dbg, sl) = (self.debug, self.slices);
            let op = opgen::any(r, self.reps[0].t.meta, &self.w, |k| (sl || !slice_form(k)) && (dbg || k != K::Debug));
            return Step { act: Act::Append, t: 0, a: 0, b: 0, plan: NO_PLAN, op: Some(op) };
        }
        Step::new(Act::Deliver, k)
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        let k = s.t as usize;
        if k >= self.reps.len() {
            return Ok(());
        }
        match s.act {
            Act::Append => {
                if let Some(op) = &s.op {
                    self.log.push(op.clone());
                }
            }
            Act::Deliver => self.deliver(k, c)?,
            Act::Crash => {
                if self.reps[k].d.take().is_some() {
                    c.fault("replica crash");
                }
            }
            Act::Catchup => {
                // state transfer from another replica, or replay from the initial state
                if self.reps[k].d.is_some() {
                    return Ok(());
                }
                let src = s.a as usize % self.reps.len();
                let m = self.reps[k].t.meta;
                let ok = m.has(K::From) && m.has(K::Into);
                match (ok, src != k, self.reps[src].d.take()) {
                    (true, true, Some(mut sd)) => {
                        c.fault("state transfer between replicas");
                        let sm = self.reps[src].t.meta;
                        let mut ex = Op::new(K::Into);
                        ex.e = s.b as u8;
                        let v = c.plain(sd.as_mut(), &ex).v;
                        let sraw = sd.raw();
                        self.reps[src].d = Some(sd);
                        let Some(v) = v else { return Ok(()) };
                        let raw = image(sm, &v, s.b == 1);
                        let mut im = Op::new(K::From);
                        im.e = s.b as u8;
                        im.v = image(m, &raw, s.b == 1);
                        let mut d = (self.reps[k].t.make)(&Bv::zero(m.nbits));
                        c.plain(d.as_mut(), &im);
                        c.check();
                        if same_value(m, &d.raw(), &sraw).is_some() {
                            return viol("states-diverge", format!("after state transfer from {}: {} instead of {}", sm.storage(), d.raw().text(), sraw.text()));
                        }
                        // non-injective customs may be normalised by the transfer; keep the exact bits
                        self.reps[k].d = Some((self.reps[k].t.make)(&sraw));
                        self.reps[k].at = self.reps[src].at;
                    }
                    (_, _, x) => {
                        if src != k {
                            self.reps[src].d = x;
                        }
                        c.fault("replica restarts from the initial state and replays the log");
                        self.reps[k].d = Some((self.reps[k].t.make)(&self.init));
                        self.reps[k].at = 0;
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    /// Faults stop: every replica catches up with the whole log.
    fn finish(&mut self, c: &mut Ctx) -> R {
        for k in 0..self.reps.len() {
            if self.reps[k].d.is_none() {
                self.reps[k].d = Some((self.reps[k].t.make)(&self.init));
                self.reps[k].at = 0;
            }
            while self.reps[k].at < self.log.len() {
                self.deliver(k, c)?;
            }
        }
        Ok(())
    }
}
