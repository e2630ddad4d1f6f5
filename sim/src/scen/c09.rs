//! The allocator refuses requests in the middle of operations.
use super::*;
use crate::opgen;
use crate::step::Act;

pub struct S {
    t: TypeEntry,
    d: Box<dyn Dut>,
    w: [u8; 32],
    rate: u32,
    steps: usize,
}
impl S {
    pub fn new(types: &'static [TypeEntry], r: &mut Rng) -> S {
        let heap = r.chance(1, 2);
        let t = pick_type(types, r, |m| !m.faulty() && (m.heap || !heap));
        let d = start(&t, r);
        S { t, d, w: opgen::weights(r), rate: *r.pick(&[40, 70, 95]), steps: 15 + r.idx(50) }
    }
}
impl Scen for S {
    fn describe(&self) -> String {
        title(&self.t)
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        let op = opgen::any(r, self.t.meta, &self.w, |_| true);
        let mut s = Step::op(r.below(3) as u32, op);
        if r.chance(self.rate, 100) {
            if r.chance(2, 3) {
                s.plan.alloc_all = true;
            } else {
                s.plan.alloc_at = 1 + r.below(4) as u32;
            }
        }
        s
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        if s.act != Act::Op {
            return Ok(());
        }
        let Some(op) = &s.op else { return Ok(()) };
        let m = self.t.meta;
        let pre = self.d.raw();
        let faulted = s.plan.alloc_all || s.plan.alloc_at > 0;
        if !faulted {
            c.plain(self.d.as_mut(), op);
            return Ok(());
        }
        // what the operation does when memory is plentiful
        let mut twin = self.d.of_raw(&pre);
        let want = c.plain(twin.as_mut(), op);
        if want.st == St::NA || want.st == St::Panic {
            return Ok(());
        }
        let before = crate::fault::live();
        let r = glue::run(self.d.as_mut(), op, s.plan);
        let leaked = crate::fault::live() - before - if r.out.text.is_empty() { 0 } else { 1 };
        c.stats.ops += 1;
        c.dig.u64(r.out.st as u64);
        c.dig.u64(r.counts.allocs as u64);
        c.dig.bytes(self.d.raw().bytes());
        c.check();
        let o = r.out;
        c.log(|| format!("      {} -> {} allocs={} refused={}", op.text(), o.short(), r.counts.allocs, r.counts.refused));
        if r.counts.refused > 0 {
            c.fault("allocation refused");
        } else if s.plan.alloc_all {
            c.fault("operation run with an allocator that refuses everything");
        }
        let may = m.heap && opgen::is_create(op.k);
        if matches!(o.st, St::Injected | St::Panic) {
            if !may {
                return viol("needs-allocation", format!("{} on a {} bitfield does not complete when allocation fails", op.text(), m.storage()));
            }
            c.probe("creation refused");
            if self.d.raw() != pre {
                return viol("refused-creation-had-effect", format!("{}: {} -> {}", op.text(), pre.text(), self.d.raw().text()));
            }
            if leaked != 0 {
                return viol("leak", format!("{}: {leaked} allocations left after a refused creation", op.text()));
            }
            return Ok(());
        }
        if !may && r.counts.allocs > 0 {
            return viol("allocates", format!("{} on a {} bitfield asked for memory {} times", op.text(), m.storage(), r.counts.allocs));
        }
        if o.st != want.st || o.v != want.v || o.text != want.text || o.buf[..o.blen] != want.buf[..want.blen] || self.d.raw() != twin.raw() {
            return viol("different-result-without-memory", format!("{}: {} state {}, normally {} state {}", op.text(), o.short(), self.d.raw().text(), want.short(), twin.raw().text()));
        }
        if leaked != 0 {
            return viol("leak", format!("{}: {leaked} allocations left", op.text()));
        }
        Ok(())
    }
}
