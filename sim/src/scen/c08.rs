//! Debug formatting into sinks that fail at any byte or write call.
use super::*;
use crate::model::debug_text;
use crate::opgen;
use crate::step::Act;

pub struct S {
    t: TypeEntry,
    d: Box<dyn Dut>,
    w: [u8; 32],
    rate: u32,
    steps: usize,
}
impl S {
    pub fn new(types: &'static [TypeEntry], r: &mut Rng) -> S {
        let t = pick_type(types, r, |m| !m.faulty() && m.has(K::Debug));
        let d = start(&t, r);
        S { t, d, w: opgen::weights(r), rate: *r.pick(&[30, 60, 80]), steps: 15 + r.idx(40) }
    }
}
impl Scen for S {
    fn describe(&self) -> String {
        title(&self.t)
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        if r.chance(2, 5) {
            return Step::op(0, opgen::any(r, self.t.meta, &self.w, |k| !opgen::is_read(k)));
        }
        let mut op = Op::new(K::Debug);
        op.d = r.chance(1, 2);
        let mut s = Step::op(r.below(3) as u32, op.clone());
        if r.chance(self.rate, 100) {
            let mut d2 = self.d.of_raw(&self.d.raw());
            let o = glue::run(d2.as_mut(), &op, NO_PLAN);
            if r.chance(1, 2) {
                s.plan.sink = r.below(o.out.text.len() as u64 + 1) as u32;
            } else {
                s.plan.sink_call = 1 + r.below(o.counts.sink_calls as u64 + 1) as u32;
            }
        }
        s
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        if s.act != Act::Op {
            return Ok(());
        }
        let Some(op) = &s.op else { return Ok(()) };
        if op.k != K::Debug {
            c.plain(self.d.as_mut(), op);
            return Ok(());
        }
        let pre = self.d.raw();
        let full = debug_text(self.t.meta, &pre, op.d);
        let r = c.run(self.d.as_mut(), op, s.plan);
        let o = r.out;
        bad_panic(&o, op)?;
        c.check();
        if self.d.raw() != pre {
            return viol("format-changes-value", format!("{} -> {}", pre.text(), self.d.raw().text()));
        }
        let must_fail = (s.plan.sink as usize) < full.len() || (s.plan.sink_call > 0 && s.plan.sink_call <= r.counts.sink_calls);
        if !must_fail {
            if o.st != St::Ok || o.text != full {
                return viol("wrong-text", format!("on {}: {:?} instead of {:?}", pre.text(), o.text, full));
            }
            return Ok(());
        }
        c.fault(if s.plan.sink_call > 0 { "sink write call refused" } else { "sink full" });
        if o.st != St::Err {
            return viol("sink-failure-swallowed", format!("formatting into a failing sink returned {:?}", o.st));
        }
        if !full.starts_with(&o.text) {
            return viol("not-a-prefix", format!("{:?} is not a prefix of {:?}", o.text, full));
        }
        if s.plan.sink_call == 0 && o.text.len() != s.plan.sink as usize {
            return viol("not-a-prefix", format!("sink of {} bytes received {:?}", s.plan.sink, o.text));
        }
        // the sink recovers
        let o2 = c.plain(self.d.as_mut(), op);
        if o2.st != St::Ok || o2.text != full {
            return viol("wrong-text", format!("after a sink failure: {:?} instead of {:?}", o2.text, full));
        }
        Ok(())
    }
}
