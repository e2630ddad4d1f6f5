//! Reference model: a plain bit vector with the declared fields laid over it.
use crate::bv::Bv;
use crate::glue::GUARD;
use crate::meta::{FK, Meta};
use crate::op::{BUF, K, Op, Out, St};

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Unit,
    Val(Bv),
    Ok,
    OkVal(Bv),
    Err,
    Text(String),
    Buf(St, Vec<u8>),
    /// Succeeds (with the modelled effect) or is refused (without any).
    OkOrErr,
    /// A read touching bits whose readability is unspecified: refused if checked and `may_err`;
    /// otherwise the value, with some of the masked bits possibly hidden.
    Maybe { v: Bv, mask: Bv, checked: bool, may_ok: bool },
}

pub struct Expect {
    pub st: Bv,
    /// Every value the operation assigns, in order.
    pub stages: Vec<(usize, Bv)>,
    pub ex: Ex,
    /// The operation replaces the whole value (ignored fields get their default).
    pub fresh: bool,
}

/// Image bytes <-> stored bits. `little`: the byte order asked for.
pub fn image(m: &Meta, raw: &Bv, little: bool) -> Bv {
    let direct = if m.array { little } else { !little };
    if direct { *raw } else { raw.rev() }
}
/// `write_*` on array-backed types numbers bytes the other way round (pinned by the test suite).
pub fn write_image(m: &Meta, v: &Bv, little: bool) -> Bv {
    let direct = !little;
    let _ = m;
    if direct { *v } else { v.rev() }
}

pub fn little(e: u8, configured: bool) -> bool {
    match e {
        1 => true,
        2 => false,
        _ => configured,
    }
}

pub fn zero_of(m: &Meta, i: usize) -> Bv {
    let f = &m.fields[i];
    f.norm(&Bv::zero(f.bits))
}
pub fn power_on(m: &Meta, defaults: bool) -> Bv {
    let mut s = Bv::zero(m.nbits);
    for (i, f) in m.fields.iter().enumerate() {
        let v = match f.default_bits() {
            Some(d) if defaults || f.reserved => d,
            _ => zero_of(m, i),
        };
        s.put(f.off, &v);
    }
    s
}
pub fn apply_defaults(m: &Meta, s: &mut Bv) {
    for f in m.fields {
        if let Some(d) = f.default_bits() {
            s.put(f.off, &d);
        }
    }
}

pub fn debug_text(m: &Meta, st: &Bv, alt: bool) -> String {
    let mut s = String::from(m.name);
    s.push_str(if alt { " {\n" } else { " { " });
    for (i, f) in m.fields.iter().enumerate() {
        if !alt && i > 0 {
            s.push_str(", ");
        }
        if alt {
            s.push_str("    ");
        }
        s.push_str(f.name);
        s.push_str(": ");
        let v = m.get(st, i);
        if matches!(f.fk, FK::Arr) && m.array {
            let n = (f.tybits / 8) as usize;
            if alt && n == 0 {
                s.push_str("[]");
            } else if alt {
                s.push_str("[\n");
                for k in 0..n {
                    s.push_str(&format!("        {},\n", v.b[k]));
                }
                s.push_str("    ]");
            } else {
                s.push('[');
                for k in 0..n {
                    if k > 0 {
                        s.push_str(", ");
                    }
                    s.push_str(&v.b[k].to_string());
                }
                s.push(']');
            }
        } else {
            s.push_str(&v.u128().to_string());
        }
        if alt {
            s.push_str(",\n");
        }
    }
    s.push_str(if alt { "}" } else { " }" });
    s
}

/// Is the range inside the bitfield?
pub fn in_range(m: &Meta, o: u32, l: u32) -> bool {
    o < m.nbits && l <= m.nbits - o
}
fn all(mask: &Bv, o: u32, l: u32) -> bool {
    (0..l).all(|i| mask.get(o + i))
}

pub fn expect(m: &Meta, st: &Bv, op: &Op) -> Expect {
    let mut s = *st;
    let mut stages: Vec<(usize, Bv)> = Vec::new();
    let mut fresh = false;
    let mut put = |s: &mut Bv, i: usize, v: Bv| {
        let v = v.zext(m.fields[i].bits);
        s.put(m.fields[i].off, &v);
        stages.push((i, v));
    };
    let fi = op.f as usize;
    let wm = m.writable_mask();
    let rm = m.readable_mask();
    let mm = m.mask(|f| f.unspecified_read());
    let ex = match op.k {
        K::Set => {
            let f = &m.fields[fi];
            if op.c && !f.fits(&op.v) {
                Ex::Err
            } else {
                put(&mut s, fi, op.v.zext(f.bits));
                if op.c { Ex::Ok } else { Ex::Unit }
            }
        }
        K::Get | K::Inverted => {
            let f = &m.fields[fi];
            let mut v = m.get(st, fi);
            if op.k == K::Inverted {
                v = v.not();
            }
            Ex::Val(f.decoded(&v))
        }
        K::ClearF => {
            let z = zero_of(m, fi);
            put(&mut s, fi, z);
            Ex::Unit
        }
        K::ClearFDef => {
            put(&mut s, fi, m.fields[fi].default_bits().unwrap());
            Ex::Unit
        }
        K::InvertF => {
            let v = m.fields[fi].norm(&m.get(st, fi).not());
            put(&mut s, fi, v);
            Ex::Unit
        }
        K::SetBit => {
            let ok = op.o < m.nbits && wm.get(op.o);
            if ok {
                s.set(op.o, op.d);
            }
            match (op.c, ok) {
                (false, _) => Ex::Unit,
                (true, true) => Ex::Ok,
                (true, false) => Ex::Err,
            }
        }
        K::GetBit => {
            let ok = op.o < m.nbits && rm.get(op.o);
            let v = Bv::of(1, (ok && st.get(op.o)) as u128);
            if ok && mm.get(op.o) {
                Ex::Maybe { v, mask: Bv::of(1, 1), checked: op.c, may_ok: true }
            } else {
                match (op.c, ok) {
                    (false, _) => Ex::Val(v),
                    (true, true) => Ex::OkVal(v),
                    (true, false) => Ex::Err,
                }
            }
        }
        K::SetRange => {
            let ok = in_range(m, op.o, op.l);
            if !op.c {
                if ok {
                    for i in 0..op.l {
                        if wm.get(op.o + i) {
                            s.set(op.o + i, op.v.get(i));
                        }
                    }
                }
                Ex::Unit
            } else if !ok || !all(&wm, op.o, op.l) {
                Ex::Err
            } else {
                s.put(op.o, &op.v.slice(0, op.l));
                if op.v.slice(0, op.l).zext(m.nbits) == op.v { Ex::Ok } else { Ex::OkOrErr }
            }
        }
        K::GetRange => {
            let ok = in_range(m, op.o, op.l);
            let mut v = Bv::zero(m.nbits);
            if ok {
                for i in 0..op.l {
                    if rm.get(op.o + i) {
                        v.set(i, st.get(op.o + i));
                    }
                }
            }
            if ok && (0..op.l).any(|i| mm.get(op.o + i)) {
                let mut mask = Bv::zero(m.nbits);
                for i in 0..op.l {
                    mask.set(i, mm.get(op.o + i));
                }
                Ex::Maybe { v, mask, checked: op.c, may_ok: all(&rm, op.o, op.l) }
            } else if !op.c {
                Ex::Val(v)
            } else if !ok || !all(&rm, op.o, op.l) {
                Ex::Err
            } else {
                Ex::OkVal(v)
            }
        }
        K::Write => {
            let b = write_image(m, &op.v, little(op.e, m.write_le));
            for (i, f) in m.fields.iter().enumerate() {
                if f.has_setter() {
                    let v = f.norm(&b.slice(f.off, f.bits));
                    put(&mut s, i, v);
                }
            }
            if op.d {
                for (i, f) in m.fields.iter().enumerate() {
                    if let Some(d) = f.default_bits() {
                        put(&mut s, i, d);
                    }
                }
            }
            Ex::Unit
        }
        K::WriteDefaults => {
            for (i, f) in m.fields.iter().enumerate() {
                if let Some(d) = f.default_bits() {
                    put(&mut s, i, d);
                }
            }
            Ex::Unit
        }
        K::ClearAll => {
            for i in 0..m.fields.len() {
                let z = zero_of(m, i);
                put(&mut s, i, z);
            }
            for (i, f) in m.fields.iter().enumerate() {
                if let Some(d) = f.default_bits() {
                    if op.d || f.reserved {
                        put(&mut s, i, d);
                    }
                }
            }
            Ex::Unit
        }
        K::InvertAll => {
            for (i, f) in m.fields.iter().enumerate() {
                if f.has_setter() {
                    let v = f.norm(&m.get(st, i).not());
                    put(&mut s, i, v);
                }
            }
            Ex::Unit
        }
        K::Into => Ex::Val(image(m, st, little(op.e, m.into_le))),
        K::IntoTrait => Ex::Val(image(m, st, m.into_le)),
        K::IntoSlice => {
            let mut o = Out::new();
            let l = crate::glue::buffer(op, &mut o);
            let img = image(m, st, little(op.e, m.into_le));
            let n = img.nbytes();
            let mut b = o.buf[..o.blen].to_vec();
            let short = l < n;
            if !(op.c && short) {
                let k = l.min(n);
                b[GUARD..GUARD + k].copy_from_slice(&img.b[..k]);
            }
            Ex::Buf(if !op.c { St::Unit } else if short { St::Err } else { St::Ok }, b)
        }
        K::Debug => Ex::Text(debug_text(m, st, op.d)),
        K::CloneSwap => Ex::Unit,
        K::New => {
            s = power_on(m, op.d);
            fresh = true;
            Ex::Unit
        }
        K::DefaultTrait => {
            s = power_on(m, true);
            fresh = true;
            Ex::Unit
        }
        K::From | K::FromTrait | K::FromSlice => {
            let n = m.nbits as usize / 8;
            let (img, bad) = match op.k {
                K::FromSlice => {
                    let sl = crate::glue::slice_of(op);
                    let mut b = Bv::zero(m.nbits);
                    let k = sl.len().min(n);
                    b.b[..k].copy_from_slice(&sl[..k]);
                    (b, op.c && sl.len() < n)
                }
                _ => (op.v, false),
            };
            if bad {
                Ex::Err
            } else {
                let e = if op.k == K::FromTrait { 0 } else { op.e };
                let b = image(m, &img, little(e, m.from_le));
                s = Bv::zero(m.nbits);
                for f in m.fields {
                    let v = f.norm(&b.slice(f.off, f.bits));
                    s.put(f.off, &v);
                }
                if op.d && op.k != K::FromTrait {
                    apply_defaults(m, &mut s);
                }
                fresh = true;
                if op.k == K::FromSlice && op.c { Ex::Ok } else { Ex::Unit }
            }
        }
        K::Build => {
            let mut b = power_on(m, op.d);
            let mut bad = false;
            let mut checked = false;
            for w in &op.ws {
                let f = &m.fields[w.f as usize];
                if w.c {
                    checked = true;
                    if !f.fits(&w.v) {
                        bad = true;
                        break;
                    }
                }
                b.put(f.off, &w.v.zext(f.bits));
            }
            if bad {
                Ex::Err
            } else {
                s = b;
                fresh = true;
                let _ = checked;
                Ex::Ok
            }
        }
    };
    Expect { st: s, stages, ex, fresh }
}

/// Compares stored bits; fields of custom types whose conversion is not one-to-one are compared as
/// values of that type (an operation may rewrite them through that conversion).
pub fn diff(m: &Meta, real: &Bv, want: &Bv) -> Option<String> {
    if real == want {
        return None;
    }
    for (i, f) in m.fields.iter().enumerate() {
        let (a, b) = (m.get(real, i), m.get(want, i));
        if a == b {
            continue;
        }
        if !f.injective() && f.norm(&a) == f.norm(&b) {
            continue;
        }
        return Some(format!("field {} holds {} instead of {}", f.name, a.text(), b.text()));
    }
    None
}

/// Compares what the operation returned.
pub fn diff_out(m: &Meta, op: &Op, out: &Out, e: &Expect) -> Option<String> {
    let ok = match &e.ex {
        Ex::Unit => out.st == St::Unit,
        Ex::Val(v) => out.st == St::Unit && out.v.as_ref() == Some(v),
        Ex::Ok => out.st == St::Ok,
        Ex::OkVal(v) => out.st == St::Ok && out.v.as_ref() == Some(v),
        Ex::Err => out.st == St::Err,
        Ex::Text(t) => out.st == St::Ok && out.text == *t,
        Ex::Buf(s, b) => out.st == *s && out.buf[..out.blen] == b[..],
        Ex::OkOrErr => matches!(out.st, St::Ok | St::Err),
        Ex::Maybe { v, mask, checked, may_ok } => {
            let same = |x: &Bv| (0..v.n).all(|i| x.get(i) == v.get(i) || (mask.get(i) && !x.get(i)));
            match (checked, out.st, &out.v) {
                (false, St::Unit, Some(x)) => same(x),
                (true, St::Err, _) => true,
                (true, St::Ok, Some(x)) => *may_ok && same(x),
                _ => false,
            }
        }
    };
    let _ = (m, op, BUF);
    if ok { None } else { Some(format!("returned {} instead of {:?}", out.short(), e.ex)) }
}
