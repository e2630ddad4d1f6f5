//! Checked operations anywhere in a history: exact refusal, no effect when refused.
use super::*;
use crate::model::{self, Ex};
use crate::opgen;
use crate::step::Act;

pub struct S {
    t: TypeEntry,
    d: Box<dyn Dut>,
    clients: usize,
    w: [u8; 32],
    steps: usize,
}
const CHECKED: [K; 8] = [K::Set, K::SetBit, K::GetBit, K::SetRange, K::GetRange, K::FromSlice, K::IntoSlice, K::Build];
impl S {
    pub fn new(types: &'static [TypeEntry], r: &mut Rng) -> S {
        let t = pick_type(types, r, |m| !m.faulty());
        let d = start(&t, r);
        S { t, d, clients: 1 + r.idx(4), w: opgen::weights(r), steps: 15 + r.idx(60) }
    }
}
impl Scen for S {
    fn describe(&self) -> String {
        format!("{} clients={}", title(&self.t), self.clients)
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        let t = r.idx(self.clients) as u32;
        let m = self.t.meta;
        if r.chance(3, 4) {
            let k = *r.pick(&CHECKED);
            if let Some(mut op) = opgen::of_kind(r, m, k) {
                op.c = true;
                for w in &mut op.ws {
                    w.c = true;
                }
                return Step::op(t, op);
            }
        }
        if r.chance(1, 20) && m.has(K::From) && m.has(K::Into) {
            return Step::new(Act::Restart, t);
        }
        Step::op(t, opgen::any(r, m, &self.w, |_| true))
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        let m = self.t.meta;
        if s.act == Act::Restart {
            c.fault("crash and restart from image");
            let mut ex = Op::new(K::Into);
            ex.e = 1;
            if let Some(v) = c.plain(self.d.as_mut(), &ex).v {
                let mut im = Op::new(K::From);
                im.e = 1;
                im.v = v;
                c.plain(self.d.as_mut(), &im);
            }
            return Ok(());
        }
        let Some(op) = &s.op else { return Ok(()) };
        let checked = CHECKED.contains(&op.k) && if op.k == K::Build { !op.ws.is_empty() && op.ws.iter().all(|w| w.c) } else { op.c };
        if !checked {
            c.plain(self.d.as_mut(), op);
            return Ok(());
        }
        let pre = self.d.raw();
        self.d.set_ign(5);
        let o = c.plain(self.d.as_mut(), op);
        if o.st == St::NA {
            return Ok(());
        }
        bad_panic(&o, op)?;
        let e = model::expect(m, &pre, op);
        let want_err = match &e.ex {
            Ex::Err => true,
            Ex::Maybe { may_ok, .. } => !*may_ok,
            Ex::Buf(st, _) => *st == St::Err,
            _ => false,
        };
        let either = e.ex == Ex::OkOrErr || matches!(e.ex, Ex::Maybe { may_ok: true, .. });
        c.check();
        if !either && (o.st == St::Err) != want_err {
            return viol(
                if want_err { "accepted-what-must-be-refused" } else { "refused-what-must-be-accepted" },
                format!("{} on {} returned {}", op.text(), pre.text(), o.short()),
            );
        }
        let post = self.d.raw();
        if o.st == St::Err {
            c.fault("refused operation");
            if post != pre || self.d.ign() != if m.ignored { 5 } else { 0 } {
                return viol("refused-operation-had-effect", format!("{}: {} -> {}", op.text(), pre.text(), post.text()));
            }
            if op.k == K::IntoSlice {
                let mut clean = Out::new();
                crate::glue::buffer(op, &mut clean);
                if clean.buf[..clean.blen] != o.buf[..o.blen] {
                    return viol("refused-export-wrote-buffer", format!("{}: {}", op.text(), o.short()));
                }
            }
            return Ok(());
        }
        // accepted: same effect and result as the unchecked counterpart
        let mut un = op.clone();
        un.c = false;
        for w in &mut un.ws {
            w.c = false;
        }
        let mut d2 = self.d.of_raw(&pre);
        let o2 = c.plain(d2.as_mut(), &un);
        if o2.st == St::Panic {
            return viol("panic", format!("{} panicked: {}", un.text(), o2.text));
        }
        if d2.raw() != post || o2.v != o.v || o2.buf[..o2.blen] != o.buf[..o.blen] {
            return viol("checked-differs-from-unchecked", format!("{} on {}: {} state {}, unchecked {} state {}", op.text(), pre.text(), o.short(), post.text(), o2.short(), d2.raw().text()));
        }
        Ok(())
    }
}
