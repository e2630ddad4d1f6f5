//! Stored images rot; corruption stays inside the fields it hits.
use super::*;
use crate::meta::FK;
use crate::opgen;
use crate::step::Act;

pub struct S {
    t: TypeEntry,
    d: Box<dyn Dut>,
    /// Stored image: bytes, byte order, stored bits, corruption in stored-bit coordinates.
    disk: Option<(Bv, u8, Bv, Bv)>,
    w: [u8; 32],
    steps: usize,
}
impl S {
    pub fn new(types: &'static [TypeEntry], r: &mut Rng) -> S {
        let t = pick_type(types, r, |m| !m.faulty() && m.has(K::From) && m.has(K::Into));
        let d = start(&t, r);
        S { t, d, disk: None, w: opgen::weights(r), steps: 15 + r.idx(50) }
    }
    fn get(d: &mut dyn Dut, i: usize, c: &mut Ctx) -> Out {
        let mut g = Op::new(K::Get);
        g.f = i as u32;
        c.plain(d, &g)
    }
}
impl Scen for S {
    fn describe(&self) -> String {
        title(&self.t)
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        if self.disk.is_none() || r.chance(1, 6) {
            return Step::new(Act::Store, 0).with(1 + r.below(2) as u32, 0);
        }
        match r.below(6) {
            0 => Step::op(0, opgen::any(r, self.t.meta, &self.w, |k| !opgen::is_read(k))),
            1 | 2 | 3 => {
                // one bit, a burst, or a random byte
                let m = self.t.meta;
                let bit = if r.chance(1, 3) {
                    let f = r.pick(m.fields);
                    *r.pick(&[f.off, f.off + f.bits - 1])
                } else {
                    r.below(m.nbits as u64) as u32
                };
                Step::new(Act::Flip, 0).with(bit, *r.pick(&[1, 1, 1, 2, 8, 13]))
            }
            _ => Step::new(Act::Import, 0).with(r.below(6) as u32, r.below(2) as u32),
        }
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        let m = self.t.meta;
        let n = m.nbits as usize / 8;
        match s.act {
            Act::Op => {
                if let Some(op) = &s.op {
                    c.plain(self.d.as_mut(), op);
                }
            }
            Act::Store => {
                let mut ex = Op::new(K::Into);
                ex.e = s.a as u8;
                let raw = self.d.raw();
                if let Some(v) = c.plain(self.d.as_mut(), &ex).v {
                    self.disk = Some((v, s.a as u8, raw, Bv::zero(m.nbits)));
                }
            }
            Act::Flip => {
                // `a` addresses stored bits; the image byte carrying it depends on the byte order
                if let Some((v, e, _, dirt)) = &mut self.disk {
                    for k in 0..s.b {
                        let bit = s.a + k;
                        if bit >= m.nbits {
                            break;
                        }
                        c.fault("bit flip in stored image");
                        let direct = if m.array { *e == 1 } else { *e == 2 };
                        let p = (bit / 8) as usize;
                        let i = if direct { p } else { n - 1 - p };
                        v.b[i] ^= 1 << (bit % 8);
                        dirt.flip(bit);
                    }
                }
            }
            Act::Import => {
                let Some((v, e, raw, dirt)) = self.disk else { return Ok(()) };
                let mut op = Op::new(K::From);
                op.e = e;
                op.v = v;
                op.d = s.b == 1;
                match s.a {
                    1 if m.from_le == (e == 1) => op.e = 0,
                    2 if m.has(K::FromTrait) && m.from_le == (e == 1) && !op.d => {
                        op.k = K::FromTrait;
                        op.e = 0;
                    }
                    3 | 4 if m.has(K::FromSlice) => {
                        op.k = K::FromSlice;
                        op.c = s.a == 4;
                        op.l = n as u32;
                    }
                    _ => {}
                }
                let mut good = self.d.of_raw(&normalised(m, &raw));
                let mut bad = self.d.of_raw(&Bv::zero(m.nbits));
                let o = c.plain(bad.as_mut(), &op);
                bad_panic(&o, &op)?;
                if o.st == St::Err {
                    return viol("import-refused", op.text());
                }
                let (a, b) = (good.raw(), bad.raw());
                let mut hit = raw;
                for i in 0..m.nbits {
                    if dirt.get(i) {
                        hit.flip(i);
                    }
                }
                for (i, f) in m.fields.iter().enumerate() {
                    let flipped = !m.get(&dirt, i).is_zero();
                    if flipped {
                        c.probe("corrupted field imported");
                    }
                    c.check();
                    if op.d {
                        if let Some(dv) = f.default_bits() {
                            let x = m.get(&b, i);
                            if x != dv && (f.injective() || f.norm(&x) != f.norm(&dv)) {
                                return viol("default-not-healed", format!("{}: field {} holds {} instead of its default {}", op.text(), f.name, x.text(), dv.text()));
                            }
                            c.probe("with-defaults import heals");
                            continue;
                        }
                    }
                    if !flipped {
                        let (x, y) = (m.get(&b, i), m.get(&a, i));
                        if x != y && (f.injective() || f.norm(&x) != f.norm(&y)) {
                            return viol("corruption-spread", format!("{}: field {} was not hit but holds {} instead of {}", op.text(), f.name, x.text(), y.text()));
                        }
                    }
                    if !f.has_getter() {
                        continue;
                    }
                    let gb = Self::get(bad.as_mut(), i, c);
                    if gb.st == St::Panic {
                        return viol("panic", format!("reading field {} after {} panicked: {}", f.name, op.text(), gb.text));
                    }
                    if !flipped {
                        let ga = Self::get(good.as_mut(), i, c);
                        if ga.v != gb.v {
                            return viol("corruption-spread", format!("{}: field {} was not hit but reads {} instead of {}", op.text(), f.name, gb.short(), ga.short()));
                        }
                    }
                    if let FK::Cust(cu) = f.fk {
                        if let Some((base, all)) = cu.flags {
                            let x = m.get(&hit, i).u128();
                            if !all.contains(&x) {
                                c.probe("undefined flag encoding imported");
                                if gb.v.map(|v| v.u128()) != Some(base) {
                                    return viol("undefined-flag-not-base", format!("{}: field {} encoding {x:#x} reads {} instead of the base {base:#x}", op.text(), f.name, gb.short()));
                                }
                            }
                        }
                    }
                }
                self.d = bad;
            }
            _ => {}
        }
        Ok(())
    }
}
