//! Operations of the public API of a generated type, in one uniform, serialisable shape.
use crate::bv::Bv;

macro_rules! kinds {
    ($($k:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
        pub enum K { $($k),* }
        pub const ALL_K: &[K] = &[$(K::$k),*];
        impl K {
            pub fn name(self) -> &'static str { match self { $(K::$k => stringify!($k)),* } }
            pub fn parse(s: &str) -> Option<K> { match s { $(stringify!($k) => Some(K::$k),)* _ => None } }
        }
    };
}
kinds!(
    Set, Get, Inverted, ClearF, ClearFDef, InvertF, SetBit, GetBit, SetRange, GetRange, Write,
    WriteDefaults, ClearAll, InvertAll, Into, IntoTrait, IntoSlice, Debug, CloneSwap, New,
    DefaultTrait, From, FromTrait, FromSlice, Build
);

#[derive(Clone, PartialEq, Debug)]
pub struct Wi {
    pub f: u32,
    pub c: bool,
    pub v: Bv,
}

/// `f` field, `o` offset, `l` length, `e` endian form (0 configured, 1 little, 2 big),
/// `d` with defaults / alternate / bit value, `c` checked, `v` value or image, `ws` builder steps.
#[derive(Clone, PartialEq)]
pub struct Op {
    pub k: K,
    pub f: u32,
    pub o: u32,
    pub l: u32,
    pub e: u8,
    pub d: bool,
    pub c: bool,
    pub v: Bv,
    pub ws: Vec<Wi>,
}

impl Op {
    pub fn new(k: K) -> Op {
        Op { k, f: 0, o: 0, l: 0, e: 0, d: false, c: false, v: Bv::zero(0), ws: Vec::new() }
    }
    pub fn text(&self) -> String {
        let mut s = format!(
            "{} f={} o={} l={} e={} d={} c={} v={}",
            self.k.name(),
            self.f,
            self.o,
            self.l,
            self.e,
            self.d as u8,
            self.c as u8,
            self.v.text()
        );
        for w in &self.ws {
            s.push_str(&format!(" w={},{},{}", w.f, w.c as u8, w.v.text()));
        }
        s
    }
    pub fn parse<'a>(it: &mut impl Iterator<Item = &'a str>) -> Option<Op> {
        let mut op = Op::new(K::parse(it.next()?)?);
        for t in it {
            let (k, v) = t.split_once('=')?;
            match k {
                "f" => op.f = v.parse().ok()?,
                "o" => op.o = v.parse().ok()?,
                "l" => op.l = v.parse().ok()?,
                "e" => op.e = v.parse().ok()?,
                "d" => op.d = v == "1",
                "c" => op.c = v == "1",
                "v" => op.v = Bv::parse(v)?,
                "w" => {
                    let mut p = v.splitn(3, ',');
                    op.ws.push(Wi {
                        f: p.next()?.parse().ok()?,
                        c: p.next()? == "1",
                        v: Bv::parse(p.next()?)?,
                    });
                }
                _ => return None,
            }
        }
        Some(op)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    /// Completed, nothing to report.
    Unit,
    Ok,
    Err,
    /// This type has no such operation.
    NA,
    /// Unwound by an injected fault.
    Injected,
    /// Unwound for any other reason.
    Panic,
}

pub const BUF: usize = crate::bv::W + 32;

/// What an operation returned.
#[derive(Clone)]
pub struct Out {
    pub st: St,
    pub v: Option<Bv>,
    pub text: String,
    /// Caller buffer after a slice export (with canaries), `blen` valid bytes.
    pub buf: [u8; BUF],
    pub blen: usize,
}

impl Out {
    pub fn new() -> Out {
        Out { st: St::Unit, v: None, text: String::new(), buf: [0; BUF], blen: 0 }
    }
    pub fn unit(&mut self) {
        self.st = St::Unit;
    }
    pub fn val(&mut self, v: Bv) {
        self.v = Some(v);
    }
    pub fn res<T, E>(&mut self, r: Result<T, E>) -> Option<T> {
        match r {
            Ok(x) => {
                self.st = St::Ok;
                Some(x)
            }
            Err(_) => {
                self.st = St::Err;
                None
            }
        }
    }
    pub fn short(&self) -> String {
        let mut s = format!("{:?}", self.st);
        if let Some(v) = &self.v {
            s.push(' ');
            s.push_str(&v.text());
        }
        if !self.text.is_empty() {
            s.push_str(&format!(" {:?}", self.text));
        }
        if self.blen > 0 {
            s.push_str(&format!(" buf={:02x?}", &self.buf[..self.blen]));
        }
        s
    }
}
impl Default for Out {
    fn default() -> Self {
        Self::new()
    }
}
