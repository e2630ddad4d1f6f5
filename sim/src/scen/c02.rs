//! Interleaved clients issue arbitrary operations; everything refines a plain bit vector.
use super::*;
use crate::model;
use crate::opgen;
use crate::step::Act;

struct Slot {
    d: Box<dyn Dut>,
    m: Bv,
    ign: u64,
}
pub struct S {
    t: TypeEntry,
    slots: Vec<Slot>,
    clients: usize,
    w: [u8; 32],
    crash: u32,
    steps: usize,
    consts_done: bool,
}
impl S {
    pub fn new(types: &'static [TypeEntry], r: &mut Rng) -> S {
        let t = pick_type(types, r, |m| !m.faulty());
        let n = 1 + r.idx(3);
        let slots = (0..n)
            .map(|_| {
                let d = start(&t, r);
                let m = d.raw();
                Slot { d, m, ign: 0 }
            })
            .collect();
        S { t, slots, clients: 1 + r.idx(4), w: opgen::weights(r), crash: *r.pick(&[0, 2, 6]), steps: 15 + r.idx(60), consts_done: false }
    }
}
impl Scen for S {
    fn describe(&self) -> String {
        format!("{} values={} clients={}", title(&self.t), self.slots.len(), self.clients)
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        let t = r.idx(self.clients) as u32;
        let slot = r.idx(self.slots.len()) as u32;
        if r.chance(self.crash, 100) && self.t.meta.has(K::From) && self.t.meta.has(K::Into) {
            return Step::new(Act::Restart, t).with(slot, 1 + r.below(2) as u32);
        }
        Step::op(t, opgen::any(r, self.t.meta, &self.w, |_| true)).with(slot, 0)
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        let m = self.t.meta;
        if !self.consts_done {
            self.consts_done = true;
            for (i, b, o) in self.slots[0].d.consts() {
                c.check();
                if m.fields[i].bits != b || m.fields[i].off != o {
                    return viol("wrong-layout-constant", format!("field {}: constants say {b} bits at {o}, declared {} at {}", m.fields[i].name, m.fields[i].bits, m.fields[i].off));
                }
            }
        }
        let k = (s.a as usize).min(self.slots.len() - 1);
        let sl = &mut self.slots[k];
        match s.act {
            Act::Op => {
                let Some(op) = &s.op else { return Ok(()) };
                if m.ignored && !opgen::is_create(op.k) {
                    sl.ign = sl.ign.wrapping_mul(31).wrapping_add(7) & 0xffff_ffff;
                    sl.d.set_ign(sl.ign);
                }
                let pre = sl.d.raw();
                let o = c.plain(sl.d.as_mut(), op);
                if o.st == St::NA {
                    return Ok(());
                }
                bad_panic(&o, op)?;
                let e = model::expect(m, &sl.m, op);
                c.check();
                if let Some(x) = model::diff_out(m, op, &o, &e) {
                    return viol("wrong-result", format!("{} on {}: {x}", op.text(), pre.text()));
                }
                let want = if o.st == St::Err { sl.m } else { e.st };
                let real = sl.d.raw();
                if let Some(x) = model::diff(m, &real, &want) {
                    return viol("wrong-state", format!("{} on {}: {x}", op.text(), pre.text()));
                }
                sl.m = real;
                if m.ignored {
                    let want = if e.fresh && o.st != St::Err { 0 } else { sl.ign };
                    if sl.d.ign() != want {
                        return viol("ignored-field-touched", format!("{}: ignored field holds {} instead of {want}", op.text(), sl.d.ign()));
                    }
                    sl.ign = want;
                }
            }
            Act::Restart => {
                // crash: only the exported image survives
                c.fault("crash and restart from image");
                let mut ex = Op::new(K::Into);
                ex.e = s.b as u8;
                let o = c.plain(sl.d.as_mut(), &ex);
                bad_panic(&o, &ex)?;
                let e = model::expect(m, &sl.m, &ex);
                if let Some(x) = model::diff_out(m, &ex, &o, &e) {
                    return viol("wrong-result", format!("{}: {x}", ex.text()));
                }
                let mut im = Op::new(K::From);
                im.e = s.b as u8;
                im.v = o.v.unwrap_or(Bv::zero(m.nbits));
                let mut d = sl.d.of_raw(&Bv::zero(m.nbits));
                let o = c.plain(d.as_mut(), &im);
                bad_panic(&o, &im)?;
                let e = model::expect(m, &Bv::zero(m.nbits), &im);
                if let Some(x) = model::diff(m, &d.raw(), &e.st) {
                    return viol("wrong-state", format!("{}: {x}", im.text()));
                }
                sl.m = d.raw();
                sl.d = d;
                sl.ign = 0;
            }
            _ => {}
        }
        Ok(())
    }
    fn finish(&mut self, c: &mut Ctx) -> R {
        let m = self.t.meta;
        for sl in &mut self.slots {
            for i in 0..m.fields.len() {
                for k in [K::Get, K::Inverted] {
                    if !m.fields[i].has_getter() || !m.has(k) {
                        continue;
                    }
                    let mut op = Op::new(k);
                    op.f = i as u32;
                    let o = c.plain(sl.d.as_mut(), &op);
                    if o.st == St::NA {
                        continue;
                    }
                    bad_panic(&o, &op)?;
                    let e = model::expect(m, &sl.m, &op);
                    c.check();
                    if let Some(x) = model::diff_out(m, &op, &o, &e) {
                        return viol("wrong-result", format!("{} on {}: {x}", op.text(), sl.m.text()));
                    }
                }
            }
        }
        Ok(())
    }
}
