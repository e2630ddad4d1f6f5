//! Images cross crashes (torn writes), links (reordering, loss, duplication) and short buffers.
use super::*;
use crate::model::{image, little};
use crate::opgen;
use crate::step::Act;

#[derive(Clone)]
struct Img {
    bytes: Bv,
    /// 1 little, 2 big.
    e: u8,
    /// Stored bits these bytes stand for.
    truth: Bv,
}
pub struct S {
    t: TypeEntry,
    nodes: Vec<Box<dyn Dut>>,
    disk: Vec<Option<Img>>,
    link: Vec<Img>,
    w: [u8; 32],
    rate: u32,
    steps: usize,
}
impl S {
    pub fn new(types: &'static [TypeEntry], r: &mut Rng) -> S {
        let t = pick_type(types, r, |m| !m.faulty() && m.has(K::From) && m.has(K::Into));
        let nodes = (0..1 + r.idx(3)).map(|_| start(&t, r)).collect();
        S { t, nodes, disk: vec![None; 2], link: vec![], w: opgen::weights(r), rate: *r.pick(&[10, 30, 50]), steps: 20 + r.idx(60) }
    }
    /// Export node t in byte order e through form b.
    fn export(&mut self, t: usize, e: u8, form: u32, c: &mut Ctx) -> Result<Option<Img>, Viol> {
        let m = self.t.meta;
        let (form, tail) = (form & 7, form >> 3 & 0x1ff);
        let raw = self.nodes[t].raw();
        let mut op = Op::new(K::Into);
        op.e = e;
        if form == 1 && little(0, m.into_le) == (e == 1) {
            op.e = 0;
        }
        if form == 2 && m.has(K::IntoTrait) && m.into_le == (e == 1) {
            op.k = K::IntoTrait;
        }
        if form >= 3 && m.has(K::IntoSlice) {
            op.k = K::IntoSlice;
            op.c = form == 4;
            op.l = m.nbits / 8 + if form >= 5 { tail } else { 0 };
            op.v = Bv::of(8, 0x5a);
        }
        let o = c.plain(self.nodes[t].as_mut(), &op);
        bad_panic(&o, &op)?;
        c.check();
        if self.nodes[t].raw() != raw {
            return viol("export-changes-value", op.text());
        }
        let bytes = if op.k == K::IntoSlice {
            let mut clean = Out::new();
            crate::glue::buffer(&op, &mut clean);
            let n = m.nbits as usize / 8;
            let g = crate::glue::GUARD;
            for i in 0..o.blen {
                if (i < g || i >= g + n) && o.buf[i] != clean.buf[i] {
                    return viol("export-writes-outside", format!("{}: byte {i} (slice starts at {g}, value has {n} bytes)", op.text()));
                }
            }
            Bv::from_bytes(&o.buf[g..g + n])
        } else {
            match o.v {
                Some(v) => v,
                None => return Ok(None),
            }
        };
        Ok(Some(Img { bytes, e, truth: raw }))
    }
    /// Import an image into node t; the result must hold `truth`.
    fn import(&mut self, t: usize, im: &Img, form: u32, what: &str, c: &mut Ctx) -> R {
        let m = self.t.meta;
        let (form, tail) = (form & 7, form >> 3 & 0x1ff);
        let mut op = Op::new(K::From);
        op.e = im.e;
        op.v = im.bytes;
        if form == 1 && m.from_le == (im.e == 1) {
            op.e = 0;
        }
        if form == 2 && m.has(K::FromTrait) && m.from_le == (im.e == 1) {
            op.k = K::FromTrait;
            op.e = 0;
        }
        if form >= 3 && m.has(K::FromSlice) {
            op.k = K::FromSlice;
            op.c = form == 4;
            op.l = m.nbits / 8;
            if form >= 5 {
                // the image lies at the start of a longer buffer
                let n = op.l as usize;
                op.l = (op.l + tail).min(crate::bv::W as u32);
                op.c = tail % 2 == 1;
                op.v.n = op.l * 8;
                for i in n..op.l as usize {
                    op.v.b[i] = 0xb7u8.wrapping_mul(i as u8) ^ tail as u8;
                }
                c.fault("image in a longer buffer");
            }
        }
        let o = c.plain(self.nodes[t].as_mut(), &op);
        bad_panic(&o, &op)?;
        c.check();
        if o.st == St::Err {
            return viol("import-refused", format!("{what}: {}", op.text()));
        }
        if let Some(x) = same_value(m, &self.nodes[t].raw(), &im.truth) {
            return viol("image-misread", format!("{what}: {}: {x}", op.text()));
        }
        Ok(())
    }
    /// Which stored byte an image byte stands for.
    fn pos(&self, e: u8, i: usize) -> usize {
        let n = self.t.meta.nbits as usize / 8;
        let direct = if self.t.meta.array { e == 1 } else { e == 2 };
        if direct { i } else { n - 1 - i }
    }
}
impl Scen for S {
    fn describe(&self) -> String {
        format!("{} nodes={}", title(&self.t), self.nodes.len())
    }
    fn max_steps(&self) -> usize {
        self.steps
    }
    fn propose(&mut self, r: &mut Rng) -> Step {
        let t = r.idx(self.nodes.len()) as u32;
        let n = self.t.meta.nbits / 8;
        let tail = match r.below(3) {
            0 => 1 + r.below(4) as u32,
            1 => n * (1 + r.below(4) as u32) + r.below(2) as u32,
            _ => r.below(2 * n as u64 + 2) as u32,
        };
        // low bits: the form; above: by how much a slice exceeds the value
        let form = r.below(6) as u32 | tail.min(0x1ff) << 3;
        if r.chance(self.rate, 100) {
            return match r.below(8) {
                0 | 1 => Step::new(Act::Tear, t).with(r.next() as u32, form | (r.below(2) as u32) << 12 | (r.below(4) as u32) << 16),
                2 => Step::new(Act::Truncate, t).with(r.below(n as u64 + 1) as u32, r.below(2) as u32 | (r.below(2) as u32) << 8),
                3 => Step::new(Act::Export, t).with(if r.chance(1, 3) { n + tail } else { r.below(n as u64 + 4) as u32 }, r.below(4) as u32),
                4 => Step::new(Act::Crash, t).with(r.below(2) as u32, form),
                5 => Step::new(Act::Duplicate, t),
                6 => Step::new(Act::Drop, t).with(r.next() as u32, 0),
                _ => Step::new(Act::Crash, t).with(r.below(2) as u32, form),
            };
        }
        match r.below(6) {
            0 => Step::new(Act::Store, t).with(r.below(2) as u32 | (r.below(2) as u32) << 8, form),
            1 => Step::new(Act::Send, t).with(1 + r.below(2) as u32, form),
            2 => Step::new(Act::Deliver, t).with(r.next() as u32, form),
            3 if self.t.meta.has(K::Write) => Step::new(Act::Import, t).with(r.below(3) as u32, r.below(2) as u32),
            _ => Step::op(t, opgen::any(r, self.t.meta, &self.w, |k| !opgen::is_read(k))),
        }
    }
    fn apply(&mut self, s: &Step, c: &mut Ctx) -> R {
        let m = self.t.meta;
        let t = (s.t as usize).min(self.nodes.len() - 1);
        let n = m.nbits as usize / 8;
        match s.act {
            Act::Op => {
                if let Some(op) = &s.op {
                    c.plain(self.nodes[t].as_mut(), op);
                }
            }
            Act::Store => {
                let slot = (s.a & 1) as usize;
                let e = 1 + (s.a >> 8 & 1) as u8;
                if let Some(im) = self.export(t, e, s.b, c)? {
                    self.disk[slot] = Some(im);
                }
            }
            Act::Tear => {
                // a crash during an overwrite: only some bytes of the new image reach the disk
                let slot = (s.b >> 12 & 1) as usize;
                let Some(old) = self.disk[slot].clone() else { return Ok(()) };
                let Some(new) = self.export(t, old.e, s.b & 0xfff, c)? else { return Ok(()) };
                c.fault("torn write");
                let mut rr = Rng(s.a as u64);
                let cut = rr.idx(n + 1);
                let mut im = old.clone();
                for i in 0..n {
                    let arrives = match s.b >> 16 {
                        0 => i < cut,
                        1 => i >= cut,
                        2 => i / 4 % 2 == (cut % 2),
                        _ => rr.chance(1, 2),
                    };
                    if arrives {
                        im.bytes.b[i] = new.bytes.b[i];
                        let p = self.pos(old.e, i);
                        im.truth.b[p] = new.truth.b[p];
                    }
                }
                self.disk[slot] = Some(im.clone());
                // the machine comes back and reads what is there
                self.import(t, &im, s.b & 0xfff, "torn image", c)?;
            }
            Act::Crash => {
                c.fault("crash and restart from stored image");
                let slot = (s.a & 1) as usize;
                if let Some(im) = self.disk[slot].clone() {
                    self.import(t, &im, s.b, "stored image", c)?;
                }
            }
            Act::Send => {
                if let Some(im) = self.export(t, s.a as u8, s.b, c)? {
                    if self.link.len() < 16 {
                        self.link.push(im);
                    }
                }
            }
            Act::Deliver => {
                if self.link.is_empty() {
                    return Ok(());
                }
                let k = s.a as usize % self.link.len();
                if k > 0 {
                    c.fault("reordered delivery");
                }
                let im = self.link.remove(k);
                self.import(t, &im, s.b, "delivered image", c)?;
            }
            Act::Duplicate => {
                if let Some(im) = self.link.last().cloned() {
                    c.fault("duplicated message");
                    self.link.push(im);
                }
            }
            Act::Drop => {
                if !self.link.is_empty() {
                    c.fault("lost message");
                    let k = s.a as usize % self.link.len();
                    self.link.remove(k);
                }
            }
            Act::Truncate => {
                // a short slice: the missing bytes read as zero
                if !m.has(K::FromSlice) {
                    return Ok(());
                }
                let slot = (s.b & 1) as usize;
                let Some(im) = self.disk[slot].clone() else { return Ok(()) };
                let k = (s.a as usize).min(n);
                let mut truth = im.truth;
                for i in k..n {
                    let p = self.pos(im.e, i);
                    truth.b[p] = 0;
                }
                let mut op = Op::new(K::FromSlice);
                op.e = if s.b >> 8 & 1 == 1 && m.from_le == (im.e == 1) { 0 } else { im.e };
                op.l = k as u32;
                op.v = Bv::from_bytes(&im.bytes.b[..k]);
                if k < n {
                    c.fault("truncated image");
                }
                let o = c.plain(self.nodes[t].as_mut(), &op);
                bad_panic(&o, &op)?;
                c.check();
                if let Some(x) = same_value(m, &self.nodes[t].raw(), &truth) {
                    return viol("short-image-misread", format!("{}: {x}", op.text()));
                }
            }
            Act::Export => {
                // a short (or long) caller buffer
                if !m.has(K::IntoSlice) {
                    return Ok(());
                }
                let mut op = Op::new(K::IntoSlice);
                op.l = s.a;
                op.e = if s.b >= 3 { 0 } else { s.b as u8 };
                op.v = Bv::of(8, 0xc3);
                let raw = self.nodes[t].raw();
                let o = c.plain(self.nodes[t].as_mut(), &op);
                bad_panic(&o, &op)?;
                let img = image(m, &raw, little(op.e, m.into_le));
                let mut clean = Out::new();
                let l = crate::glue::buffer(&op, &mut clean);
                if l < n {
                    c.fault("short caller buffer");
                }
                let g = crate::glue::GUARD;
                let k = l.min(n);
                c.check();
                for i in 0..o.blen {
                    let inside = i >= g && i < g + k;
                    let want = if inside { img.b[i - g] } else { clean.buf[i] };
                    if o.buf[i] != want {
                        let class = if inside { "short-export-wrong-bytes" } else { "export-writes-outside" };
                        return viol(class, format!("{}: buffer byte {i} is {:02x} instead of {want:02x}", op.text(), o.buf[i]));
                    }
                }
            }
            Act::Import => {
                // write form of the same endianness: writable fields take the stored value
                if !m.has(K::Write) {
                    return Ok(());
                }
                let e = s.a as u8;
                if e == 0 && m.write_le != m.into_le {
                    return Ok(());
                }
                let src = s.b as usize % self.nodes.len();
                let raw = self.nodes[src].raw();
                let mut ex = Op::new(K::Into);
                ex.e = e;
                let o = c.plain(self.nodes[src].as_mut(), &ex);
                let Some(v) = o.v else { return Ok(()) };
                let mut wr = Op::new(K::Write);
                wr.e = e;
                wr.v = v;
                let mut d = self.nodes[t].of_raw(&raw);
                let o = c.plain(d.as_mut(), &wr);
                bad_panic(&o, &wr)?;
                c.check();
                if let Some(x) = same_value(m, &d.raw(), &raw) {
                    // known: write_*_bytes of array-backed types take the bytes in the opposite order
                    if m.array {
                        let mut want = raw;
                        let rev = raw.rev();
                        for f in m.fields {
                            if f.has_setter() {
                                want.put(f.off, &f.norm(&rev.slice(f.off, f.bits)));
                            }
                        }
                        if same_value(m, &d.raw(), &want).is_none() {
                            c.known("array-backed write_{,le_,be_}bytes takes bytes in the opposite order of into_{,le_,be_}bytes".to_string());
                            return Ok(());
                        }
                    }
                    return viol("image-misread", format!("{}: {x}", wr.text()));
                }
            }
            _ => {}
        }
        Ok(())
    }
}
