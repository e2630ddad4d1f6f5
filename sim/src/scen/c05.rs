//! Conversions of custom fields panic at an arbitrary call; fields never tear.
use super::*;
use crate::model;
use crate::opgen;
use crate::step::Act;

pub struct S {
    t: TypeEntry,
    d: Box<dyn Dut>,
    clients: usize,
    w: [u8; 32],
    rate: u32,
    steps: usize,
}
impl S {
    pub fn new(types: &'static [TypeEntry], r: &mut Rng) -> S {
        let t = pick_type(types, r, |m| m.faulty());
        let d = start(&t, r);
        S { t, d, clients: 1 + r.idx(3), w: opgen::weights(r), rate: *r.pick(&[20, 50, 80]), steps: 12 + r.idx(50) }
    }
}
impl Scen for S {
    fn describe(&self) -> String {
        format!("{} clients={}", title(&self.t), self.clients)
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        let t = r.idx(self.clients) as u32;
        let m = self.t.meta;
        let op = opgen::any(r, m, &self.w, |_| true);
        let mut s = Step::op(t, op);
        if r.chance(self.rate, 100) {
            // place the fault inside the operation: count its conversions on a copy first
            let mut d2 = self.d.of_raw(&self.d.raw());
            let n = glue::run(d2.as_mut(), s.op.as_ref().unwrap(), NO_PLAN).counts.convs;
            if n > 0 {
                s.plan.conv_at = 1 + r.below(n as u64) as u32;
            }
        }
        s
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        if s.act != Act::Op {
            return Ok(());
        }
        let m = self.t.meta;
        let Some(op) = &s.op else { return Ok(()) };
        let pre = self.d.raw();
        self.d.set_ign(9);
        let r = c.run(self.d.as_mut(), op, s.plan);
        if r.out.st == St::NA {
            return Ok(());
        }
        if r.out.st == St::Panic {
            return viol("panic", format!("{} panicked: {}", op.text(), r.out.text));
        }
        if r.out.st != St::Injected {
            return Ok(());
        }
        c.fault(if s.plan.conv_at > 0 { "conversion panic at k-th call" } else { "conversion panic on a poisoned pattern" });
        if s.plan.conv_at > 1 {
            c.probe("panic after the first conversion of an operation");
        }
        let post = self.d.raw();
        let e = model::expect(m, &pre, op);
        c.check();
        let whole = opgen::is_read(op.k) || is_single(op.k) || opgen::is_create(op.k);
        if whole && post != pre {
            return viol("unwound-operation-had-effect", format!("{} unwound: {} -> {}", op.text(), pre.text(), post.text()));
        }
        let bitop = matches!(op.k, K::SetBit | K::SetRange);
        for (i, f) in m.fields.iter().enumerate() {
            let (a, b) = (m.get(&pre, i), m.get(&post, i));
            // (one that is not one-to-one may be stored again in another spelling)
            if a == b || (!whole && !f.injective() && f.norm(&a) == f.norm(&b)) {
                continue;
            }
            c.probe("field assigned before the unwind");
            let ok = e.stages.iter().any(|(k, v)| *k == i && (*v == b || (!f.injective() && f.norm(v) == f.norm(&b)))) || (bitop && m.get(&e.st, i) == b);
            if !ok {
                return viol("torn-field", format!("{} unwound: field {} holds {}, neither its old value {} nor an assigned one", op.text(), f.name, b.text(), a.text()));
            }
        }
        if self.d.ign() != if m.ignored { 9 } else { 0 } {
            return viol("torn-field", format!("{} unwound and changed an ignored field", op.text()));
        }
        // still usable: repeat without the fault
        if s.plan.conv_at > 0 {
            let mut clean = self.d.of_raw(&pre);
            let want = c.plain(clean.as_mut(), op);
            if want.st == St::Injected {
                return Ok(());
            }
            let partial = self.d.raw();
            let got = c.plain(self.d.as_mut(), op);
            if !matches!(op.k, K::InvertAll | K::InvertF) && (self.d.raw() != clean.raw() || got.st != want.st || got.v != want.v) {
                return viol("retry-differs", format!("{} repeated after the unwind gives {} state {}, normally {} state {}", op.text(), got.short(), self.d.raw().text(), want.short(), clean.raw().text()));
            }
            let mut fresh = self.d.of_raw(&partial);
            c.plain(fresh.as_mut(), op);
            if fresh.raw() != self.d.raw() {
                return viol("retry-differs", format!("{} repeated after the unwind gives state {}, a fresh value with the same bits {}", op.text(), self.d.raw().text(), fresh.raw().text()));
            }
        }
        Ok(())
    }
}
