//! What the generated adapters use to call the real API.
use crate::bv::Bv;
use crate::fault;
use crate::meta::Dut;
use crate::op::{BUF, Op, Out, St};

/// Conversion between a field's API type and its bits, independent of the code under test.
pub trait Val {
    const N: u32;
    fn mk(v: &Bv) -> Self;
    fn rd(&self) -> Bv;
}
macro_rules! ints {
    ($($t:ty, $u:ty);*) => { $(
        impl Val for $t {
            const N: u32 = <$t>::BITS;
            fn mk(v: &Bv) -> Self { v.u128() as $t }
            fn rd(&self) -> Bv { Bv::of(<$t>::BITS, *self as $u as u128) }
        }
    )* };
}
ints!(u8, u8; u16, u16; u32, u32; u64, u64; u128, u128; i8, u8; i16, u16; i32, u32; i64, u64; i128, u128);
impl Val for bool {
    const N: u32 = 1;
    fn mk(v: &Bv) -> Self {
        v.get(0)
    }
    fn rd(&self) -> Bv {
        Bv::of(1, *self as u128)
    }
}
impl<const N: usize> Val for [u8; N] {
    const N: u32 = N as u32 * 8;
    fn mk(v: &Bv) -> Self {
        v.arr()
    }
    fn rd(&self) -> Bv {
        Bv::from_bytes(self)
    }
}

/// Runs the real call with the fault plan armed.
#[macro_export]
macro_rules! w {
    ($e:expr) => {{
        $crate::arm();
        let r = $e;
        $crate::disarm();
        r
    }};
}

/// Longest text: an array of one byte per line, and names.
pub const TEXT: usize = 16384 + (crate::bv::W - 288) * 24;
pub struct Sink {
    pub b: [u8; TEXT],
    pub n: usize,
}
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let (budget, refuse) = fault::sink_plan();
        if refuse != 0 {
            return Err(core::fmt::Error);
        }
        for c in s.as_bytes() {
            if self.n as u32 >= budget || self.n >= self.b.len() {
                return Err(core::fmt::Error);
            }
            self.b[self.n] = *c;
            self.n += 1;
        }
        Ok(())
    }
}
pub fn debug<T: core::fmt::Debug>(x: &T, alt: bool, out: &mut Out) {
    use core::fmt::Write;
    let mut s = Sink { b: [0; TEXT], n: 0 };
    let r = if alt { w!(write!(s, "{:#?}", x)) } else { w!(write!(s, "{:?}", x)) };
    out.res(r);
    out.text = String::from_utf8_lossy(&s.b[..s.n]).into_owned();
}

pub const GUARD: usize = 8;
/// The caller's buffer for a slice export, filled with a pattern.
pub fn buffer(op: &Op, out: &mut Out) -> usize {
    let l = (op.l as usize).min(BUF - 2 * GUARD);
    let p = op.v.b[0];
    for (i, x) in out.buf.iter_mut().enumerate() {
        *x = p.wrapping_add((i as u8).wrapping_mul(29));
    }
    out.blen = l + 2 * GUARD;
    l
}
pub fn slice_of(op: &Op) -> &[u8] {
    &op.v.b[..(op.l as usize).min(op.v.b.len())]
}

pub struct Ran {
    pub out: Out,
    pub counts: fault::Counts,
}
/// One operation of the real code under one fault plan.
pub fn run(d: &mut dyn Dut, op: &Op, plan: fault::Plan) -> Ran {
    let mut out = Out::new();
    fault::begin(plan);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.exec(op, &mut out)));
    let counts = fault::end();
    if let Err(p) = r {
        out.v = None;
        out.st = St::Panic;
        if p.is::<fault::Injected>() {
            out.st = St::Injected;
        } else if let Some(s) = p.downcast_ref::<&str>() {
            if *s == fault::MARK {
                out.st = St::Injected;
            } else {
                out.text = s.to_string();
            }
        } else if let Some(s) = p.downcast_ref::<String>() {
            out.text = s.clone();
        }
    }
    Ran { out, counts }
}
