//! Resets and reboots at arbitrary points of arbitrary histories.
use super::*;
use crate::model;
use crate::opgen;
use crate::step::Act;

pub struct S {
    t: TypeEntry,
    d: Box<dyn Dut>,
    clients: usize,
    w: [u8; 32],
    steps: usize,
}
fn is_reset(op: &Op) -> bool {
    match op.k {
        K::New | K::DefaultTrait | K::ClearAll | K::WriteDefaults | K::ClearF | K::ClearFDef => true,
        K::Build => op.ws.is_empty(),
        _ => with_defaults(op),
    }
}
/// An import or a write that also re-applies the defaults: only those fields are judged here.
fn with_defaults(op: &Op) -> bool {
    op.d && matches!(op.k, K::Write | K::From | K::FromSlice)
}
impl S {
    pub fn new(types: &'static [TypeEntry], r: &mut Rng) -> S {
        let t = pick_type(types, r, |m| !m.faulty());
        let d = start(&t, r);
        S { t, d, clients: 1 + r.idx(3), w: opgen::weights(r), steps: 15 + r.idx(50) }
    }
}
impl Scen for S {
    fn describe(&self) -> String {
        format!("{} clients={}", title(&self.t), self.clients)
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        let t = r.idx(self.clients) as u32;
        let m = self.t.meta;
        if r.chance(2, 5) {
            let k = *r.pick(&[K::New, K::DefaultTrait, K::ClearAll, K::ClearAll, K::WriteDefaults, K::ClearF, K::ClearFDef, K::Build, K::Write, K::From, K::FromSlice]);
            if let Some(mut op) = opgen::of_kind(r, m, k) {
                op.ws.clear();
                if matches!(k, K::Write | K::From | K::FromSlice) {
                    op.d = true;
                }
                let mut s = Step::op(t, op);
                s.act = Act::Reset;
                return s;
            }
        }
        Step::op(t, opgen::any(r, m, &self.w, |k| !opgen::is_read(k)))
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        let m = self.t.meta;
        let Some(op) = &s.op else { return Ok(()) };
        let pre = self.d.raw();
        let o = c.plain(self.d.as_mut(), op);
        if o.st == St::NA || !is_reset(op) {
            return Ok(());
        }
        c.fault("reset in mid-history");
        bad_panic(&o, op)?;
        let post = self.d.raw();
        let e = model::expect(m, &pre, op);
        c.check();
        if with_defaults(op) {
            if o.st == St::Err {
                return Ok(());
            }
            for (i, f) in m.fields.iter().enumerate() {
                if f.default.is_some() {
                    let (a, b) = (m.get(&post, i), m.get(&e.st, i));
                    if a != b && (f.injective() || f.norm(&a) != f.norm(&b)) {
                        return viol("default-not-reapplied", format!("{} on {}: field {} holds {} instead of {}", op.text(), pre.text(), f.name, a.text(), b.text()));
                    }
                }
            }
            return Ok(());
        }
        if o.st == St::Err {
            return viol("reset-refused", op.text());
        }
        if let Some(x) = model::diff(m, &post, &e.st) {
            return viol("wrong-reset-state", format!("{} on {}: {x}", op.text(), pre.text()));
        }
        Ok(())
    }
    /// All the roads to the power-on state lead to one value.
    fn finish(&mut self, c: &mut Ctx) -> R {
        let m = self.t.meta;
        for d in [true, false] {
            let mut first: Option<(Bv, String)> = None;
            for (n, k) in [K::New, K::Build, K::Build, K::ClearAll, K::DefaultTrait].into_iter().enumerate() {
                if !m.has(k) || (k == K::DefaultTrait && !d) {
                    continue;
                }
                let mut op = Op::new(k);
                op.d = d;
                op.e = (n == 2) as u8;
                let mut x = self.d.of_raw(&self.d.raw());
                let o = c.plain(x.as_mut(), &op);
                if o.st == St::NA {
                    continue;
                }
                c.check();
                match &first {
                    None => first = Some((x.raw(), op.text())),
                    Some((r, t)) => {
                        if x.raw() != *r {
                            return viol("power-on-states-differ", format!("{} gives {}, {t} gives {}", op.text(), x.raw().text(), r.text()));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
