//! What a declaration says, written down independently of the code under test.
use crate::bv::Bv;
use crate::op::{Op, Out};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    Rw,
    Ro,
    Wo,
    Na,
}

pub struct Cust {
    pub name: &'static str,
    /// Width of the integer taken and returned by the conversions.
    pub raw: u32,
    /// into_bits(from_bits(x)), according to the declaration.
    pub norm: fn(u128) -> u128,
    /// norm is the identity.
    pub injective: bool,
    /// Conversions panic on this pattern (const-capable fault point).
    pub poison: Option<u128>,
    /// Conversions call `fault::tick`.
    pub ticks: bool,
    /// Declared base pattern of a flag enum and its declared patterns.
    pub flags: Option<(u128, &'static [u128])>,
    /// Codes of a type with only a few values.
    pub pats: &'static [u128],
}

#[derive(Clone, Copy)]
pub enum FK {
    Bool,
    U,
    I,
    Arr,
    Cust(&'static Cust),
}

pub struct Field {
    pub name: &'static str,
    pub fk: FK,
    pub tybits: u32,
    pub bits: u32,
    pub off: u32,
    pub acc: Acc,
    pub reserved: bool,
    pub default: Option<&'static [u8]>,
}

impl Field {
    pub fn has_setter(&self) -> bool {
        !self.reserved && matches!(self.acc, Acc::Rw | Acc::Wo)
    }
    pub fn has_getter(&self) -> bool {
        !self.reserved && matches!(self.acc, Acc::Rw | Acc::Ro)
    }
    pub fn readable(&self) -> bool {
        matches!(self.acc, Acc::Rw | Acc::Ro)
    }
    /// Whether bit reads reveal it is not specified: reserved without a default.
    pub fn unspecified_read(&self) -> bool {
        self.reserved && self.default.is_none()
    }
    pub fn norm(&self, v: &Bv) -> Bv {
        match self.fk {
            FK::Cust(c) => Bv::of(self.bits, (c.norm)(v.u128())),
            _ => *v,
        }
    }
    /// The value of the field's type that these bits of the field stand for (its code may be wider
    /// than the field).
    pub fn decoded(&self, v: &Bv) -> Bv {
        match self.fk {
            FK::Cust(c) => Bv::of(self.tybits, (c.norm)(v.u128())),
            FK::I => v.sext(self.tybits),
            _ => v.zext(self.tybits),
        }
    }
    pub fn injective(&self) -> bool {
        match self.fk {
            FK::Cust(c) => c.injective,
            _ => true,
        }
    }
    pub fn default_bits(&self) -> Option<Bv> {
        self.default.map(|d| Bv::bits_of(self.bits, d))
    }
    /// Does a value of the field's type fit the field's width?
    pub fn fits(&self, v: &Bv) -> bool {
        let t = v.zext(self.bits);
        match self.fk {
            FK::I => t.sext(self.tybits) == *v,
            _ => t.zext(v.n) == *v,
        }
    }
}

pub struct Meta {
    pub name: &'static str,
    pub decl: &'static str,
    /// Replica group (same layout, different storage); 0: none.
    pub group: u32,
    pub nbits: u32,
    pub array: bool,
    pub heap: bool,
    pub ignored: bool,
    pub copy: bool,
    /// Configured endians: true = little.
    pub from_le: bool,
    pub into_le: bool,
    pub write_le: bool,
    /// Operation kinds this declaration provides (bit per `K`).
    pub ops: u64,
    pub fields: &'static [Field],
}

impl Meta {
    pub fn storage(&self) -> &'static str {
        match (self.array, self.heap, self.ignored) {
            (false, _, false) => "int",
            (false, _, true) => "int+ignored",
            (true, false, false) => "array",
            (true, false, true) => "array+ignored",
            (true, true, false) => "heap",
            (true, true, true) => "heap+ignored",
        }
    }
    pub fn writable_mask(&self) -> Bv {
        self.mask(|f| f.has_setter())
    }
    pub fn readable_mask(&self) -> Bv {
        self.mask(|f| f.readable())
    }
    pub fn mask(&self, p: impl Fn(&Field) -> bool) -> Bv {
        let mut m = Bv::zero(self.nbits);
        for f in self.fields {
            if p(f) {
                m.put(f.off, &Bv::ones(f.bits));
            }
        }
        m
    }
    pub fn has(&self, k: crate::op::K) -> bool {
        self.ops >> (k as u32) & 1 != 0
    }
    pub fn get(&self, raw: &Bv, f: usize) -> Bv {
        raw.slice(self.fields[f].off, self.fields[f].bits)
    }
    pub fn faulty(&self) -> bool {
        self.fields.iter().any(|f| match f.fk {
            FK::Cust(c) => c.ticks || c.poison.is_some(),
            _ => false,
        })
    }
    pub fn owner(&self, bit: u32) -> Option<usize> {
        self.fields.iter().position(|f| bit >= f.off && bit < f.off + f.bits)
    }
}

/// A value of the real generated type behind one dispatch function.
pub trait Dut {
    fn meta(&self) -> &'static Meta;
    fn exec(&mut self, op: &Op, out: &mut Out);
    /// The stored bits, lowest first (documented internal value).
    fn raw(&self) -> Bv;
    /// A value with these stored bits (documented internal value, not the API).
    fn of_raw(&self, raw: &Bv) -> Box<dyn Dut>;
    /// Contents of the ignored field, if any.
    /// (field, NAME_BITS, NAME_OFFSET) of every field that has such constants.
    fn consts(&self) -> Vec<(usize, u32, u32)>;
    fn ign(&self) -> u64;
    fn set_ign(&mut self, v: u64);
}

#[derive(Clone, Copy)]
pub struct TypeEntry {
    pub meta: &'static Meta,
    pub make: fn(&Bv) -> Box<dyn Dut>,
}

/// A history evaluated by the compiler: stored bits before and after every operation, and results.
pub struct Bake {
    pub meta: &'static Meta,
    pub make: fn(&Bv) -> Box<dyn Dut>,
    pub ops: &'static [&'static str],
    pub raw: fn(usize) -> Bv,
    /// (0 nothing, 1 accepted, 2 refused; result bits)
    pub res: fn(usize) -> (u8, Bv),
}
