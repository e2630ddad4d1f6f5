//! Hostile clients against protected and hidden bits, with a noninterference twin.
use super::*;
use crate::opgen;
use crate::step::Act;

pub struct S {
    t: TypeEntry,
    d: Box<dyn Dut>,
    clients: usize,
    w: [u8; 32],
    sup: u32,
    steps: usize,
}
impl S {
    pub fn new(types: &'static [TypeEntry], r: &mut Rng) -> S {
        let t = pick_type(types, r, |m| !m.faulty() && m.fields.iter().any(|f| !f.has_setter() || !f.readable()));
        let raw = opgen::rand_bv(r, t.meta.nbits);
        let d = (t.make)(&normalised(t.meta, &raw));
        S { t, d, clients: 1 + r.idx(4), w: opgen::weights(r), sup: *r.pick(&[0, 3, 10]), steps: 15 + r.idx(60) }
    }
    fn prot(&self) -> Bv {
        self.t.meta.mask(|f| !f.has_setter())
    }
}
/// May change protected bits: construction, whole-value clears.
fn privileged(op: &Op) -> bool {
    matches!(op.k, K::New | K::DefaultTrait | K::From | K::FromTrait | K::FromSlice | K::Build | K::ClearAll)
}
fn reapplies_defaults(op: &Op) -> bool {
    op.k == K::WriteDefaults || (op.k == K::Write && op.d)
}
impl Scen for S {
    fn describe(&self) -> String {
        format!("{} protected={} hidden={}", title(&self.t), self.prot().text(), self.t.meta.mask(|f| !f.readable()).text())
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        let t = r.idx(self.clients) as u32;
        let m = self.t.meta;
        if r.chance(self.sup, 100) {
            // the supervisor (re)constructs the word
            if r.chance(1, 3) && m.has(K::From) && m.has(K::Into) {
                return Step::new(Act::Restart, 99);
            }
            return Step::op(99, opgen::any(r, m, &self.w, |k| opgen::is_create(k) || k == K::ClearAll || k == K::WriteDefaults));
        }
        if r.chance(2, 5) {
            let k = *r.pick(&[K::GetBit, K::GetRange]);
            if let Some(op) = opgen::of_kind(r, m, k) {
                // twin: hidden bits replaced by another pattern
                return Step { act: Act::Twin, t, a: r.next() as u32, b: 0, plan: NO_PLAN, op: Some(op) };
            }
        }
        let w = self.w;
        Step::op(t, opgen::any(r, m, &w, |k| !opgen::is_create(k) && k != K::ClearAll && k != K::WriteDefaults))
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        let m = self.t.meta;
        let prot = self.prot();
        match s.act {
            Act::Restart => {
                c.fault("crash and restart from image");
                let mut ex = Op::new(K::Into);
                ex.e = 1;
                if let Some(v) = c.plain(self.d.as_mut(), &ex).v {
                    let mut im = Op::new(K::From);
                    im.e = 1;
                    im.v = v;
                    c.plain(self.d.as_mut(), &im);
                }
            }
            Act::Op => {
                let Some(op) = &s.op else { return Ok(()) };
                let pre = self.d.raw();
                let o = c.plain(self.d.as_mut(), op);
                if o.st == St::NA || privileged(op) {
                    return Ok(());
                }
                let post = self.d.raw();
                let mut may = prot.not();
                if reapplies_defaults(op) {
                    for f in m.fields {
                        if f.default.is_some() {
                            may.put(f.off, &Bv::ones(f.bits));
                        }
                    }
                }
                c.check();
                if let Some(b) = (0..m.nbits).find(|b| {
                    let i = m.owner(*b).unwrap();
                    let f = &m.fields[i];
                    pre.get(*b) != post.get(*b) && !may.get(*b) && (f.injective() || f.norm(&m.get(&pre, i)) != f.norm(&m.get(&post, i)))
                }) {
                    let f = &m.fields[m.owner(b).unwrap()];
                    return viol("protected-bit-changed", format!("{} changed bit {b} of protected field {} ({:?}, reserved={}): {} -> {}", op.text(), f.name, f.acc, f.reserved, pre.text(), post.text()));
                }
            }
            Act::Twin => {
                let Some(op) = &s.op else { return Ok(()) };
                let raw = self.d.raw();
                let mut twin = raw;
                let mut rr = Rng(s.a as u64);
                let mut hidden = Bv::zero(m.nbits);
                for f in m.fields {
                    if !f.readable() {
                        hidden.put(f.off, &Bv::ones(f.bits));
                        let v = opgen::rand_bv(&mut rr, f.bits);
                        twin.put(f.off, &v);
                    }
                }
                let mut d2 = self.d.of_raw(&twin);
                let a = c.plain(self.d.as_mut(), op);
                let b = c.plain(d2.as_mut(), op);
                if a.st == St::NA {
                    return Ok(());
                }
                c.check();
                if a.st != b.st || a.v != b.v {
                    return viol("hidden-bits-leak", format!("{}: {} with hidden bits {}, {} with {}", op.text(), a.short(), raw.text(), b.short(), twin.text()));
                }
                let (lo, len) = if op.k == K::GetBit { (op.o, 1) } else { (op.o, op.l) };
                if !crate::model::in_range(m, lo, len) {
                    return Ok(());
                }
                let touches = (0..len).any(|i| hidden.get(lo + i));
                if touches && op.c && a.st != St::Err {
                    return viol("checked-read-of-hidden-bits-succeeds", format!("{}: {}", op.text(), a.short()));
                }
                if touches {
                    c.probe("read touching hidden bits");
                }
                if let (false, Some(v)) = (op.c, &a.v) {
                    for i in 0..len {
                        if hidden.get(lo + i) && v.get(i) {
                            return viol("hidden-bits-leak", format!("{}: bit {i} of the result is set", op.text()));
                        }
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}
