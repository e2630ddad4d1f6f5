//! Seeded choice of operations and arguments.
use crate::bv::Bv;
use crate::meta::{FK, Field, Meta};
use crate::op::{ALL_K, K, Op, Wi};
use crate::rng::Rng;

pub fn rand_bv(r: &mut Rng, n: u32) -> Bv {
    let mut v = Bv::zero(n);
    match r.below(11) {
        0 => {}
        1 => v = Bv::ones(n),
        4 => {
            // a small or a left-aligned number
            let k = 1 + r.below(n.max(1) as u64) as u32;
            let x = rand_bytes(r, k);
            let at = if r.chance(1, 2) { 0 } else { n.saturating_sub(k) };
            if k <= n {
                v.put(at, &x);
            }
        }
        5 => {
            // bytes that repeat, vanish or are full
            let p = r.next() as u8;
            for k in 0..v.nbytes() {
                v.b[k] = *r.pick(&[0, 0xff, p, p, 0x80, 1]);
            }
            v = v.zext(n);
        }
        2 => {
            if n > 0 {
                v.set(r.below(n as u64) as u32, true);
            }
        }
        3 => {
            v = Bv::ones(n);
            if n > 0 {
                v.set(r.below(n as u64) as u32, false);
            }
        }
        _ => v = rand_bytes(r, n),
    }
    v
}
fn rand_bytes(r: &mut Rng, n: u32) -> Bv {
    let mut v = Bv::zero(n);
    for k in 0..v.nbytes() {
        v.b[k] = r.next() as u8;
    }
    v.zext(n)
}
/// Clears bits above n (Bv::zext does it via slice).
pub fn field_value(r: &mut Rng, f: &Field) -> Bv {
    let n = f.tybits;
    let b = f.bits;
    match f.fk {
        FK::Bool => Bv::of(1, r.below(2) as u128),
        FK::I => match r.below(10) {
            0 => Bv::zero(n),
            1 => Bv::ones(n),                                  // -1
            2 => Bv::ones(b - 1).zext(n),                      // max that fits
            3 => Bv::ones(b - 1).zext(n).not(),                // min that fits
            4 if b < n => plus_one(&Bv::ones(b - 1).zext(n)),  // max + 1
            5 if b < n => plus_one(&Bv::ones(b - 1).zext(n)).not(), // min - 1
            6 => Bv::ones(n - 1).zext(n),
            7 => rand_bv(r, b).sext(n),
            _ => rand_bv(r, n),
        },
        FK::Cust(c) => {
            if let (Some(p), true) = (c.poison, r.chance(1, 4)) {
                return Bv::of(n, p);
            }
            if !c.injective {
                return if !c.pats.is_empty() && r.chance(1, 2) { Bv::of(n, *r.pick(c.pats)) } else { f.decoded(&rand_bv(r, b)) };
            }
            sized(r, n, b)
        }
        _ => sized(r, n, b),
    }
}
fn plus_one(v: &Bv) -> Bv {
    let mut r = *v;
    for i in 0..v.n {
        if r.get(i) {
            r.set(i, false);
        } else {
            r.set(i, true);
            break;
        }
    }
    r
}
fn sized(r: &mut Rng, n: u32, b: u32) -> Bv {
    match r.below(8) {
        0 => Bv::zero(n),
        1 => Bv::ones(b).zext(n),
        2 if b < n => {
            let mut v = Bv::zero(n);
            v.set(b, true);
            v
        }
        3 if b < n => {
            let mut v = rand_bv(r, b).zext(n);
            v.set(r.range(b, n - 1), true);
            v
        }
        4 => rand_bv(r, n),
        _ => rand_bv(r, b).zext(n),
    }
}
pub fn fitting_value(r: &mut Rng, f: &Field) -> Bv {
    for _ in 0..20 {
        let v = field_value(r, f);
        if f.fits(&v) {
            return v;
        }
    }
    f.decoded(&Bv::zero(f.bits))
}

pub fn offset(r: &mut Rng, m: &Meta) -> u32 {
    match r.below(12) {
        0 => m.nbits,
        1 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, m.nbits + 1, m.nbits + 7, m.nbits * 2]),
        2 | 3 | 4 => {
            let f = r.pick(m.fields);
            *r.pick(&[f.off, f.off + f.bits - 1, (f.off + f.bits).min(m.nbits), f.off.saturating_sub(1)])
        }
        _ => r.below(m.nbits as u64) as u32,
    }
}
pub fn length(r: &mut Rng, m: &Meta, o: u32) -> u32 {
    let rest = m.nbits.saturating_sub(o);
    match r.below(12) {
        0 => 0,
        1 => rest,
        2 => rest + 1,
        3 => m.nbits,
        4 => *r.pick(&[u32::MAX, u32::MAX - o, (u32::MAX - o).wrapping_add(1), 1 << 31, m.nbits + 1]),
        5 | 6 => {
            let f = r.pick(m.fields);
            f.bits
        }
        7 => {
            // up to the end of some field after o
            let f = r.pick(m.fields);
            (f.off + f.bits).saturating_sub(o)
        }
        _ => r.below(rest as u64 + 1) as u32,
    }
}

/// Which kinds a run prefers (swarm): a random weight per kind.
pub fn weights(r: &mut Rng) -> [u8; 32] {
    let mut w = [0u8; 32];
    for x in w.iter_mut() {
        *x = *r.pick(&[0, 1, 1, 2, 4, 8]);
    }
    w
}

pub fn pick_field(r: &mut Rng, m: &Meta, p: impl Fn(&Field) -> bool) -> Option<u32> {
    let n = m.fields.iter().filter(|f| p(f)).count();
    if n == 0 {
        return None;
    }
    let k = r.idx(n);
    m.fields.iter().enumerate().filter(|(_, f)| p(f)).nth(k).map(|x| x.0 as u32)
}

/// An operation of this kind with seeded arguments, if the type has one.
pub fn of_kind(r: &mut Rng, m: &Meta, k: K) -> Option<Op> {
    if !m.has(k) {
        return None;
    }
    let mut op = Op::new(k);
    match k {
        K::Set => {
            op.f = pick_field(r, m, |f| f.has_setter())?;
            op.c = r.chance(1, 2);
            op.v = field_value(r, &m.fields[op.f as usize]);
        }
        K::Get | K::Inverted => op.f = pick_field(r, m, |f| f.has_getter())?,
        K::ClearF | K::InvertF => op.f = pick_field(r, m, |f| f.has_setter())?,
        K::ClearFDef => op.f = pick_field(r, m, |f| f.has_setter() && f.default.is_some())?,
        K::SetBit => {
            op.o = offset(r, m);
            op.d = r.chance(1, 2);
            op.c = r.chance(1, 2);
        }
        K::GetBit => {
            op.o = offset(r, m);
            op.c = r.chance(1, 2);
        }
        K::SetRange => {
            op.o = offset(r, m);
            op.l = length(r, m, op.o);
            op.c = r.chance(1, 2);
            op.v = rand_bv(r, m.nbits);
            if op.l < m.nbits && r.chance(1, 2) {
                op.v = op.v.zext(op.l).zext(m.nbits);
            }
        }
        K::GetRange => {
            op.o = offset(r, m);
            op.l = length(r, m, op.o);
            op.c = r.chance(1, 2);
        }
        K::Write => {
            op.e = r.below(3) as u8;
            op.d = r.chance(1, 3);
            op.v = image_value(r, m);
        }
        K::WriteDefaults | K::InvertAll | K::IntoTrait | K::CloneSwap | K::DefaultTrait => {}
        K::ClearAll | K::New => op.d = r.chance(1, 2),
        K::Into => op.e = r.below(3) as u8,
        K::IntoSlice => {
            op.e = r.below(3) as u8;
            op.c = r.chance(1, 2);
            op.l = slice_len(r, m);
            op.v = Bv::of(8, r.next() as u128);
        }
        K::Debug => op.d = r.chance(1, 2),
        K::From => {
            op.e = r.below(3) as u8;
            op.d = r.chance(1, 3);
            op.v = image_value(r, m);
        }
        K::FromTrait => op.v = image_value(r, m),
        K::FromSlice => {
            op.e = r.below(3) as u8;
            op.d = r.chance(1, 3);
            op.c = r.chance(1, 2);
            op.l = slice_len(r, m).min(crate::bv::W as u32);
            op.v = rand_bv(r, op.l * 8);
        }
        K::Build => {
            op.d = r.chance(1, 2);
            op.e = r.below(2) as u8;
            let n = r.below(6);
            for _ in 0..n {
                let f = pick_field(r, m, |f| !f.reserved && f.acc != crate::meta::Acc::Na)?;
                let fd = &m.fields[f as usize];
                let v = if r.chance(2, 3) { fitting_value(r, fd) } else { field_value(r, fd) };
                op.ws.push(Wi { f, c: r.chance(1, 2), v });
            }
        }
    }
    Some(op)
}
fn slice_len(r: &mut Rng, m: &Meta) -> u32 {
    let n = m.nbits / 8;
    match r.below(7) {
        0 => 0,
        1 => n,
        2 => n - 1,
        3 => n + 1,
        4 => n + r.below(8) as u32,
        5 => n * (2 + r.below(3) as u32) + r.below(3) as u32,
        _ => r.below(n as u64 + 1) as u32,
    }
    .min(crate::bv::W as u32)
}
/// A whole-value image; sometimes carries a poison pattern in one field.
pub fn image_value(r: &mut Rng, m: &Meta) -> Bv {
    let mut v = rand_bv(r, m.nbits);
    if r.chance(1, 4) {
        for f in m.fields {
            if let FK::Cust(c) = f.fk {
                if let Some(p) = c.poison {
                    if r.chance(1, 2) {
                        v.put(f.off, &Bv::of(f.bits, p));
                    }
                }
            }
        }
    }
    v
}
/// Any operation, by weight.
pub fn any(r: &mut Rng, m: &Meta, w: &[u8; 32], p: impl Fn(K) -> bool) -> Op {
    for _ in 0..40 {
        let total: u64 = ALL_K.iter().filter(|k| p(**k)).map(|k| w[*k as usize] as u64 + 1).sum();
        let mut x = r.below(total);
        for k in ALL_K.iter().filter(|k| p(**k)) {
            let q = w[*k as usize] as u64 + 1;
            if x < q {
                if let Some(op) = of_kind(r, m, *k) {
                    return op;
                }
                break;
            }
            x -= q;
        }
    }
    let mut op = Op::new(K::Get);
    op.f = pick_field(r, m, |f| f.has_getter()).unwrap_or(u32::MAX);
    if op.f == u32::MAX {
        op = Op::new(K::CloneSwap);
    }
    op
}
pub fn is_read(k: K) -> bool {
    matches!(k, K::Get | K::Inverted | K::GetBit | K::GetRange | K::Into | K::IntoTrait | K::IntoSlice | K::Debug)
}
/// Replaces the whole value by a new one.
pub fn is_create(k: K) -> bool {
    matches!(k, K::New | K::DefaultTrait | K::From | K::FromTrait | K::FromSlice | K::Build | K::CloneSwap)
}
