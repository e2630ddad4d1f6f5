//! A replica evaluated by the compiler and replicas that run, restart from its snapshots and catch up.
use super::*;
use crate::glue::GUARD;
use crate::meta::Bake;
use crate::model;
use crate::step::Act;
use std::sync::OnceLock;

struct B {
    b: &'static Bake,
    ops: Vec<Op>,
}
static BAKES: OnceLock<Vec<B>> = OnceLock::new();
pub fn register(v: Vec<&'static Bake>) {
    let v = v.into_iter().map(|b| B { b, ops: b.ops.iter().map(|t| Op::parse(&mut t.split_whitespace()).expect("bad operation")).collect() }).collect();
    let _ = BAKES.set(v);
}

pub struct S {
    h: &'static B,
    reps: Vec<(Box<dyn Dut>, usize)>,
    rate: u32,
    steps: usize,
}
impl S {
    pub fn new(r: &mut Rng) -> S {
        let v = BAKES.get().expect("no baked histories");
        let h = &v[r.idx(v.len())];
        let n = 1 + r.idx(3);
        let reps = (0..n).map(|_| ((h.b.make)(&(h.b.raw)(0)), 0)).collect();
        S { h, reps, rate: *r.pick(&[0, 5, 15, 30]), steps: 10 + r.idx(40) }
    }
    fn deliver(&mut self, t: usize, c: &mut Ctx) -> R {
        let h = self.h;
        let (d, at) = &mut self.reps[t];
        let k = *at;
        if k >= h.ops.len() {
            return Ok(());
        }
        let op = &h.ops[k];
        let m = h.b.meta;
        let pre = d.raw();
        let o = c.plain(d.as_mut(), op);
        bad_panic(&o, op)?;
        *at += 1;
        let (st, v) = (h.b.res)(k);
        let want = (h.b.raw)(k + 1);
        c.check();
        if d.raw() != want {
            return viol("compile-time-state-differs", format!("{} on {}: run time {}, compile time {}", op.text(), pre.text(), d.raw().text(), want.text()));
        }
        let ran = match o.st {
            St::Ok => 1,
            St::Err => 2,
            _ => 0,
        };
        let rv = if o.blen > 0 { Bv::from_bytes(&o.buf[GUARD..o.blen - GUARD]) } else { o.v.unwrap_or(Bv::zero(0)) };
        c.check();
        if ran != st || rv != v {
            return viol("compile-time-result-differs", format!("{} on {}: run time {ran} {}, compile time {st} {}", op.text(), pre.text(), rv.text(), v.text()));
        }
        c.check();
        if let Some(x) = model::diff(m, &want, &model::expect(m, &pre, op).st) {
            return viol("wrong-compile-time-state", format!("{} on {}: {x}", op.text(), pre.text()));
        }
        Ok(())
    }
}
impl Scen for S {
    fn describe(&self) -> String {
        let m = self.h.b.meta;
        format!("{} ({}, {} bits) history of {} operations, {} replicas", m.name, m.storage(), m.nbits, self.h.ops.len(), self.reps.len())
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        let t = r.idx(self.reps.len()) as u32;
        if r.chance(self.rate, 100) {
            return Step::new(Act::Restart, t).with(r.idx(self.h.ops.len() + 1) as u32, 0);
        }
        Step::new(Act::Deliver, t)
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        let t = s.t as usize % self.reps.len();
        match s.act {
            Act::Restart => {
                c.fault("replica restarted from a compile-time snapshot");
                let k = s.a as usize % (self.h.ops.len() + 1);
                self.reps[t] = ((self.h.b.make)(&(self.h.b.raw)(k)), k);
            }
            Act::Deliver => self.deliver(t, c)?,
            _ => {}
        }
        Ok(())
    }
    /// Faults stop: every replica catches up with the whole history.
    fn finish(&mut self, c: &mut Ctx) -> R {
        for t in 0..self.reps.len() {
            while self.reps[t].1 < self.h.ops.len() {
                self.deliver(t, c)?;
            }
        }
        Ok(())
    }
}
