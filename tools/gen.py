#!/usr/bin/env python3
"""Seeded generator of declarations under test.

Writes, for every declaration, the `#[bitfield]` source the real macros expand, a description of
what the declaration says (computed here, never read back from the macros) and the adapter that
lets the simulator call the generated API. usage: gen.py PROP SEED OUTDIR NCRATES PER_CRATE
"""
import os
import random
import sys

INTS = [8, 16, 32, 64, 128]
SIZES = [1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8, 9, 11, 12, 15, 16, 16, 17, 17, 19, 20, 24, 31, 32, 33, 40, 48, 63, 64]
BIG = [65, 72, 96, 100, 127, 128, 129, 200, 255, 256, 257, 264, 272, 280]
NAMES = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "value", "mask", "this", "val", "offset", "index", "raw",
         "flag", "mode", "speed", "x", "y", "z", "q", "k", "len", "field", "data", "src", "dst", "lo", "hi", "mid", "i",
         "source", "result", "byte", "start", "shift", "inv", "acc", "state", "kind", "count", "ready", "err", "id",
         "r#type", "r#match", "r#fn", "r#in", "res", "out", "builder", "r#box"]


GIANT = [290, 400, 511, 512, 513, 600, 1023, 1024, 1025, 2049, 4097, 8191, 8193, 8200, 8321, 8390]


def extreme(seed):
    """Seeds of the round with very large bitfields and very many fields."""
    return isinstance(seed, int) and seed % 1000 >= 900


def mask(n):
    return (1 << n) - 1


class Cust:
    def __init__(self, name, raw, body, norm="|x| x", injective=True, poison=None, ticks=False, flags=None,
                 patterns=None, const=True, of=None, maxbits=None, minbits=1, variants=None, narrow=None):
        self.name, self.raw, self.body, self.norm, self.injective = name, raw, body, norm, injective
        self.poison, self.ticks, self.flags, self.patterns, self.const = poison, ticks, flags, patterns, const
        self.of, self.variants = of, variants
        self.maxbits = maxbits or raw
        self.minbits = minbits
        # Fields down to this width cannot hold every code: the ones that do not fit are cut or refused.
        self.narrow = narrow or minbits


VAL = """impl Val for {n} {{ const N: u32 = {r}; fn mk(v: &Bv) -> Self {{ {n}::of(v.u128() as u{r}) }} fn rd(&self) -> Bv {{ Bv::of({r}, self.bits_() as u128) }} }}
"""


def transparent(n, r):
    return Cust(n, r, f"""#[derive(Clone, Copy)] pub struct {n}(u{r});
impl {n} {{ pub const fn of(v: u{r}) -> Self {{ {n}(v) }} pub const fn bits_(&self) -> u{r} {{ self.0 }}
 pub const fn from_bits(b: u{r}) -> Self {{ {n}(b) }} pub const fn into_bits(self) -> u{r} {{ self.0 }} }}
""")


def xored(n, r, k):
    return Cust(n, r, f"""#[derive(Clone, Copy)] pub struct {n}(u{r});
impl {n} {{ pub const fn of(v: u{r}) -> Self {{ {n}(v ^ {k:#x}) }} pub const fn bits_(&self) -> u{r} {{ self.0 ^ {k:#x} }}
 pub const fn from_bits(b: u{r}) -> Self {{ {n}(b ^ {k:#x}) }} pub const fn into_bits(self) -> u{r} {{ self.0 ^ {k:#x} }} }}
""")


def split(n, r):
    """A struct with several members, as in the documentation."""
    h = r // 2
    return Cust(n, r, f"""#[derive(Clone, Copy)] pub struct {n} {{ hi: u{r}, lo: u{r} }}
impl {n} {{ pub const fn of(v: u{r}) -> Self {{ {n} {{ hi: v >> {h}, lo: v & {mask(h):#x} }} }} pub const fn bits_(&self) -> u{r} {{ self.hi << {h} | self.lo }}
 pub const fn from_bits(b: u{r}) -> Self {{ {n} {{ lo: b & {mask(h):#x}, hi: b >> {h} }} }} pub const fn into_bits(self) -> u{r} {{ self.lo | self.hi << {h} }} }}
""")


def folding(n, r, table, other, narrow=None):
    """Non-injective: listed patterns stand for themselves, anything else for `other`.

    `other` may be wider than the field, if what is left of it still stands for it.
    """
    arms = " ".join(f"{p:#x} => {n}::V{i}," for i, p in enumerate(table))
    back = " ".join(f"{n}::V{i} => {p:#x}," for i, p in enumerate(table))
    o = table.index(other)
    vs = ", ".join(f"V{i}" for i in range(len(table)))
    nm = "|x| match x { " + " ".join(f"{p:#x} => {p:#x}," for p in table) + f" _ => {other:#x} }}"
    return Cust(n, r, f"""#[derive(Clone, Copy)] pub enum {n} {{ {vs} }}
impl {n} {{ pub const fn of(v: u{r}) -> Self {{ match v {{ {arms} _ => {n}::V{o} }} }} pub const fn bits_(&self) -> u{r} {{ match self {{ {back} }} }}
 pub const fn from_bits(b: u{r}) -> Self {{ match b {{ {arms} _ => {n}::V{o} }} }} pub const fn into_bits(self) -> u{r} {{ match self {{ {back} }} }} }}
""", norm=nm, injective=False, patterns=table, minbits=max(max(p.bit_length() for p in table), 1),
                variants={p: f"{n}::V{i}" for i, p in enumerate(table)}, narrow=narrow or max(1, other.bit_length()))


def marked(p, base, style, other):
    """Attributes of a variant: the fallback is `#[base]`, else `#[default]`; `#[base]` wins over `#[default]`."""
    if p == base:
        return {"base": "#[base] ", "default": "#[default] ", "both": "#[base] ", "same": "#[base] #[default] "}[style]
    return "#[default] " if style == "both" and p == other else ""


def flags(n, r, table, base, style="base", copy=True):
    """A real #[bitflag] enum."""
    other = next(p for p in table if p != base)
    vs = ", ".join(marked(p, base, style, other) + f"V{i} = {p:#x}" for i, p in enumerate(table))
    arms = " ".join(f"{p:#x} => {n}::V{i}," for i, p in enumerate(table))
    back = " ".join(f"{n}::V{i} => {p:#x}," for i, p in enumerate(table))
    o = table.index(base)
    nm = "|x| match x { " + " ".join(f"{p:#x} => {p:#x}," for p in table) + f" _ => {base:#x} }}"
    ders = ["Debug"] + (["Default"] if style in ("default", "both", "same") else []) + ([] if copy else ["Clone", "Copy"])
    args = "" if copy else ", copy = false"
    c = Cust(n, r, f"""#[bitflag(u{r}{args})] #[derive({", ".join(ders)})] pub enum {n} {{ {vs} }}
impl {n} {{ pub const fn of(v: u{r}) -> Self {{ match v {{ {arms} _ => {n}::V{o} }} }} pub const fn bits_(&self) -> u{r} {{ match self {{ {back} }} }} }}
""", norm=nm, injective=False, patterns=table, flags=(base, table), minbits=max(max(p.bit_length() for p in table), 1))
    c.variants = {p: f"{n}::V{i}" for i, p in enumerate(table)}
    c.narrow = max(1, base.bit_length())
    return c


def swap(v, r):
    return int.from_bytes(v.to_bytes(r // 8, "little"), "big")


def le_flags(n, r, table, base):
    """from little / into little: the pattern in the field is the byte-swapped discriminant."""
    vs = ", ".join((("#[base] " if p == base else "") + f"V{i} = {p:#x}") for i, p in enumerate(table))
    sw = [swap(p, r) for p in table]
    arms = " ".join(f"{p:#x} => {n}::V{i}," for i, p in enumerate(sw))
    back = " ".join(f"{n}::V{i} => {p:#x}," for i, p in enumerate(sw))
    o = table.index(base)
    sb = swap(base, r)
    nm = "|x| match x { " + " ".join(f"{p:#x} => {p:#x}," for p in sw) + f" _ => {sb:#x} }}"
    return Cust(n, r, f"""#[bitflag(u{r}, from_endian = little, into_endian = little)] #[derive(Debug)] pub enum {n} {{ {vs} }}
impl {n} {{ pub const fn of(v: u{r}) -> Self {{ match v {{ {arms} _ => {n}::V{o} }} }} pub const fn bits_(&self) -> u{r} {{ match self {{ {back} }} }} }}
""", norm=nm, injective=False, patterns=sw, flags=(sb, sw), minbits=r, variants={p: f"{n}::V{i}" for i, p in enumerate(sw)})


def nested(n, r, args, fields, minbits=1):
    """A real nested #[bitfield]; little-endian conversions swap the bytes of the stored integer."""
    sw = ".swap_bytes()" if "little" in args else ""
    return Cust(n, r, f"""#[bitfield(u{r}{args})] pub struct {n} {{ {fields} }}
impl {n} {{ pub const fn of(v: u{r}) -> Self {{ {n}(v{sw}) }} pub const fn bits_(&self) -> u{r} {{ self.0{sw} }} }}
""", minbits=minbits)


def poison(n, r, p):
    return Cust(n, r, f"""#[derive(Clone, Copy)] pub struct {n}(u{r});
impl {n} {{ pub const fn of(v: u{r}) -> Self {{ {n}(v) }} pub const fn bits_(&self) -> u{r} {{ self.0 }}
 pub const fn from_bits(b: u{r}) -> Self {{ if b == {p:#x} {{ panic!("VSIM-INJECTED") }} {n}(b) }}
 pub const fn into_bits(self) -> u{r} {{ if self.0 == {p:#x} {{ panic!("VSIM-INJECTED") }} self.0 }} }}
""", poison=p, minbits=p.bit_length())


def ticking(n, r, k):
    return Cust(n, r, f"""#[derive(Clone, Copy)] pub struct {n}(u{r});
impl {n} {{ pub const fn of(v: u{r}) -> Self {{ {n}(v ^ {k:#x}) }} pub const fn bits_(&self) -> u{r} {{ self.0 ^ {k:#x} }}
 pub fn from_bits(b: u{r}) -> Self {{ simcore::fault::tick(); {n}(b ^ {k:#x}) }}
 pub fn into_bits(self) -> u{r} {{ simcore::fault::tick(); self.0 ^ {k:#x} }} }}
""", ticks=True, const=False)


def fickle(n, r, m):
    """Non-injective and ticking: the bits of `m` are not part of the value."""
    k = mask(r) ^ m
    return Cust(n, r, f"""#[derive(Clone, Copy)] pub struct {n}(u{r});
impl {n} {{ pub const fn of(v: u{r}) -> Self {{ {n}(v & {k:#x}) }} pub const fn bits_(&self) -> u{r} {{ self.0 }}
 pub fn from_bits(b: u{r}) -> Self {{ simcore::fault::tick(); {n}(b & {k:#x}) }}
 pub fn into_bits(self) -> u{r} {{ simcore::fault::tick(); self.0 }} }}
""", norm=f"|x| x & {k:#x}", injective=False, ticks=True, const=False)


CUSTS = [
    transparent("Tr8", 8), transparent("Tr16", 16), transparent("Tr32", 32), transparent("Tr64", 64), transparent("Tr128", 128),
    xored("Xr8", 8, 0x5A), xored("Xr16", 16, 0xA5C3), xored("Xr32", 32, 0xDEADBEEF), xored("Xr64", 64, 0x0123456789ABCDEF),
    xored("Xr128", 128, 0x0F1E2D3C4B5A69788796A5B4C3D2E1F0),
    split("Sp8", 8), split("Sp16", 16), split("Sp32", 32),
    folding("Fo2", 8, [0, 1, 2], 1), folding("Fz8", 8, [3, 1, 6], 3), folding("Fo16", 16, [0, 0x2A5, 0x13], 0),
    folding("Wf8", 8, [0, 1, 0xF6], 0xF6, 2), folding("Wz16", 16, [1, 2, 0xABC6], 0xABC6, 3), folding("Wx64", 64, [0, 3, 0xF0E1D2C3B4A59687 & ~7 | 4], 0xF0E1D2C3B4A59687 & ~7 | 4, 3),
    flags("Fl8", 8, [0, 1, 2, 3], 0), flags("Fb8", 8, [1, 2, 4, 0xB], 2), flags("Fw16", 16, [0, 0x1234, 0x00FF], 0x00FF),
    flags("Fx32", 32, [0x10, 0x80001, 7], 7), flags("Fy64", 64, [0, 0x1_0000_0001, 9], 0), flags("Fk128", 128, [0, 5, (1 << 70) + 1], 5),
    flags("Fd8", 8, [3, 5, 6, 0], 5, "default"), flags("Fc8", 8, [0, 1, 3], 3, "both"), flags("Fs16", 16, [0x101, 2, 0x1FF], 2, "same", False),
    flags("Fo32", 32, [0, 1], 1, "default", False),
    le_flags("Le16", 16, [0x0102, 0x0304, 0], 0x0304), le_flags("Le32", 32, [0, 0xA0B0C0D, 1], 0),
    nested("Ne8", 8, "", "#[bits(3)] a: u8, #[bits(5)] b: u8"),
    nested("Ne16", 16, ", order = msb", "#[bits(5)] a: u8, #[bits(11)] b: u16"),
    nested("Ne32", 32, "", "a: u8, #[bits(12)] b: u16, #[bits(12)] c: i16"),
    nested("Nl16", 16, ", from_endian = little, into_endian = little", "a: u8, b: u8", minbits=16),
]
FAULTY = [poison("Po8", 8, 0x15), poison("Pq16", 16, 0x0A5), poison("Pr32", 32, 0x101), poison("Ps64", 64, 0x3),
          ticking("Ti8", 8, 0x33), ticking("Ti16", 16, 0xC3A5), ticking("Ti32", 32, 0x89ABCDEF), ticking("Ti64", 64, 0x1122334455667788),
          fickle("Tf8", 8, 2), fickle("Tf32", 32, 0x1010101)]


class Field:
    pass


def lit(r, v):
    s = r.choice(["d", "x", "b", "o", "X", "_"])
    if s == "d":
        return str(v)
    if s == "x":
        return hex(v)
    if s == "b":
        return bin(v)
    if s == "o":
        return oct(v)
    if s == "X":
        return "0x" + format(v, "X")
    h = format(v, "x")
    return "0x" + "_".join([h[max(0, i - 4):i] for i in range(len(h), 0, -4)][::-1])


def widths(r, n, style, arr_ok):
    """Split n bits."""
    out = []
    left = n
    while left > 0:
        if style == "single":
            w = left
        elif style == "bools":
            w = 1
        elif style == "nibbles":
            w = 4
        elif style == "bytes":
            w = 8
        elif style == "words":
            w = r.choice([8, 16, 32, 64])
        elif style == "odd":
            w = r.choice([1, 2, 3, 5, 7, 9, 11, 13, 15, 17])
        elif style == "wide":
            w = r.choice([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 136])
        elif style == "many":
            w = r.choice([1, 1, 1, 2, 3])
        elif style == "giant":
            w = r.choice([1, 2, 3, 7, 8, 13, 64, 128, 129, 1000, 2048, 4097, left // 2 or 1, left // 3 or 1, max(1, left - 5), max(1, left - 128), max(1, left - 128)])
        elif style == "huge":
            w = r.choice([1, 2, 3, 7, 8, 9, 15, max(1, left - 3), max(1, left - 1), left // 2 or 1])
        else:
            w = r.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 12, 14, 16, 16, 20, 24, 29, 32, 40, 48, 56, 64, 72, 96, 128, 130])
        w = min(w, left)
        if w > 128 and not arr_ok:
            w = 128
        out.append(w)
        left -= w
    # bound the number of fields
    cap = 300 if style.startswith("many") else 20 if r.random() < 0.93 else 40
    while len(out) > cap:
        i = r.randrange(len(out) - 1)
        if out[i] + out[i + 1] <= 128 or arr_ok:
            out[i:i + 2] = [out[i] + out[i + 1]]
        else:
            cap += 1
    return out


def byte_widths(n):
    return (n + 7) // 8


class Decl:
    """One declaration: storage-independent layout plus storage and features."""
    pass


def make_fields(r, nbits, opts, names_used=None):
    style = r.choice(opts.get("styles") or ["mixed"] * 6 + ["single", "bools", "nibbles", "bytes", "words", "odd", "odd", "wide", "huge"])
    ws = widths(r, nbits, style, True)
    r.shuffle(ws)
    fs = []
    names = NAMES[:]
    r.shuffle(names)
    if len(ws) > len(names):
        names = [f"f{i}" for i in range(len(ws))] + names
    blank = 0
    for w in ws:
        f = Field()
        f.bits = w
        kinds = []
        if w == 1:
            kinds += ["bool"] * 4
        if w <= 128:
            kinds += ["u"] * 8 + ["i"] * opts.get("signed", 4)
        kinds += ["arr"] * (opts.get("arr", 2) if w > 1 else 0)
        if w > 64:
            kinds += ["arr"] * 4
        if w > 128:
            kinds = ["arr"]
        cs = [c for c in opts["custs"] if c.minbits <= w <= c.maxbits]
        if r.random() < 0.3:
            cs = [c for c in opts["custs"] if c.narrow <= w <= c.maxbits]
        if cs:
            kinds += ["cust"] * opts.get("cust", 5)
        f.kind = r.choice(kinds)
        f.cust = None
        if f.kind == "bool":
            f.ty, f.tybits = "bool", 1
        elif f.kind in "ui":
            c = [x for x in INTS if x >= w]
            t = c[0] if r.random() < 0.75 else r.choice(c)
            f.ty, f.tybits = f"{f.kind}{t}", t
        elif f.kind == "arr":
            n = byte_widths(w)
            if r.random() < 0.2 and n < (284 if nbits <= 2240 else 8440):
                n += r.choice([1, 1, 2])
            f.ty, f.tybits = f"[u8; {n}]", 8 * n
        else:
            small = [x for x in cs if x.raw == min(y.raw for y in cs)]
            f.cust = r.choice(small if r.random() < 0.6 else cs)
            f.ty, f.tybits = f.cust.name, f.cust.raw
        f.acc = r.choices(["rw", "ro", "wo", "na"], opts.get("acc", [70, 10, 8, 5]))[0]
        f.reserved = r.random() < opts.get("reserved", 0.08)
        if f.reserved:
            f.acc = "rw"
            if r.random() < 0.4:
                f.name = "__"
                blank += 1
            else:
                f.name = "_" + names.pop().removeprefix("r#")
        else:
            f.name = names.pop()
        f.ident, f.name = f.name, f.name.removeprefix("r#")
        f.explicit = f.bits != f.tybits or f.kind == "cust" or r.random() < 0.4
        f.default = None
        f.dseed = r.random()
        if r.random() < opts.get("default", 0.4):
            f.default = gen_default(r, f)
        f.form = r.choice(["lit"] * 5 + ["const"] * 2 + ["fn"])
        f.spill = r.random() < 0.3
        f.vis = r.choice(["", "pub ", "pub ", "pub(crate) ", "pub(crate) ", "pub(super) ", "pub(in crate) ", "pub(in super) "] + ([] if opts.get("noign") else ["pub(in super::super) "]))
        f.doc = r.random() < 0.1
        fs.append(f)
    if not any((not f.reserved and f.acc == "rw") for f in fs):
        f = r.choice(fs)
        f.acc = "rw"
        if f.reserved:
            f.reserved = False
            f.ident = names.pop()
            f.name = f.ident.removeprefix("r#")
    return fs


def gen_default(r, f):
    """Bits of the default (fits the field)."""
    w = f.bits
    if f.cust is not None:
        if f.cust.patterns:
            c = [p for p in f.cust.patterns if p.bit_length() <= w]
            return r.choice(c)
        v = r.getrandbits(w)
        if f.cust.poison is not None and v == f.cust.poison:
            v ^= 1
        return v
    if w > 2300:
        return r.choice([0, None, r.getrandbits(w)])
    return r.choice([1, mask(w), r.getrandbits(w), r.getrandbits(w), 1 << (w - 1), 0])


def has_setter(f):
    return not f.reserved and f.acc in ("rw", "wo")


def has_getter(f):
    return not f.reserved and f.acc in ("rw", "ro")


def default_src(f, d, consts, k):
    """Source text of the default; may add a constant.

    A default given as a constant, a call or a custom value may be wider than its field (a literal
    may not); like any other value, it is then cut to the width of the field.
    """
    v = f.default
    w = f.bits
    r = random.Random(f.dseed)
    extra = (r.getrandbits(f.tybits - w) << w) if f.spill and f.tybits > w and f.kind != "arr" else 0
    form = f.form
    if f.kind == "arr":
        if d.array:
            n = f.tybits // 8
            bs = [(v >> (8 * i)) & 255 for i in range(n)]
            txt = "[" + ", ".join(lit(r, b) for b in bs) + "]"
            if form == "const" and has_setter(f):
                consts.append(f"pub const D{k}: {f.ty} = {txt};")
                return f"D{k}"
            return txt
        return lit(r, v)
    if f.kind == "bool":
        t = "true" if v else "false"
    elif f.kind == "i":
        neg = v >> (w - 1) & 1
        t = "-" + lit(r, (1 << w) - v) if neg else lit(r, v)
        if r.random() < 0.15:
            t += r.choice(["", "_"]) + f.ty
        if extra and form != "lit":
            t = f"{v | extra:#x}u{f.tybits} as {f.ty}"
    elif f.kind == "u":
        t = lit(r, v | extra if form != "lit" else v)
        if r.random() < 0.15:
            t += r.choice(["", "_"]) + f.ty
    else:
        if f.cust.injective and f.cust.poison is None:
            v |= extra
        t = f"{f.cust.name}::of({lit(r, v)})"
        if f.cust.variants and v in f.cust.variants and r.random() < 0.5:
            t = f.cust.variants[v]
            if form == "lit":
                return t
        if form == "lit":
            form = "const"
        if form == "fn":
            return t
    if form == "const":
        n = f"D{k}" + r.choice(["", "", "", "_F32", "_u8"])
        consts.append(f"pub const {n}: {f.ty} = {t};")
        return n
    if form == "fn":
        consts.append(f"pub const fn dv{k}() -> {f.ty} {{ {t} }}")
        return f"dv{k}()"
    return t


FEATS = ["new", "from_into_bits", "from_traits", "default", "debug", "builder", "write_bit_ops", "clear_bit_ops",
         "set_get_bit_ops", "invert_bit_ops"]


def features(r, need, p=0.12):
    """Which feature groups are on, and the attribute text that says so."""
    on = {f: True for f in FEATS}
    txt = []
    if r.random() < p:
        k = r.choice(["master", "some", "some", "some"])
        if k == "master" and not (set(need) & {"write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops"} == set(need) and False):
            txt.append("bit_ops = false")
            for f in FEATS[6:]:
                if f in need or r.random() < 0.5:
                    txt.append(f"{f} = true")
                else:
                    on[f] = False
        else:
            for f in FEATS:
                if f not in need and r.random() < 0.3:
                    on[f] = False
                    txt.append(f"{f} = false")
    elif r.random() < 0.1:
        txt.append(r.choice(["bit_ops = true", "new = true", "builder = true", "copy = true", "toggle_bit_ops = true"]))
    return on, txt


OPS = ["Set", "Get", "Inverted", "ClearF", "ClearFDef", "InvertF", "SetBit", "GetBit", "SetRange", "GetRange", "Write",
       "WriteDefaults", "ClearAll", "InvertAll", "Into", "IntoTrait", "IntoSlice", "Debug", "CloneSwap", "New",
       "DefaultTrait", "From", "FromTrait", "FromSlice", "Build"]


def ops_mask(d):
    on = d.on
    s = {"Set", "Get"}
    if on["invert_bit_ops"]:
        s |= {"Inverted", "InvertF", "InvertAll"}
    if on["clear_bit_ops"]:
        s |= {"ClearF", "ClearFDef", "ClearAll"}
    if on["set_get_bit_ops"]:
        s |= {"SetBit", "GetBit", "SetRange", "GetRange"}
    if on["write_bit_ops"]:
        s |= {"Write", "WriteDefaults"}
    if on["from_into_bits"]:
        s |= {"Into", "From"}
        if d.array:
            s |= {"IntoSlice", "FromSlice"}
    if on["from_traits"]:
        s |= {"IntoTrait", "FromTrait"}
    if on["debug"]:
        s.add("Debug")
    if on["new"]:
        s.add("New")
    if on["default"]:
        s.add("DefaultTrait")
    if on["builder"]:
        s.add("Build")
    if d.copy:
        s.add("CloneSwap")
    return sum(1 << OPS.index(o) for o in s)


def storage(r, opts, force=None):
    """(nbits, array, heap)"""
    k = force or r.choices(["int", "array", "heap"], opts.get("storage", [50, 38, 12]))[0]
    if k == "int":
        return r.choice(opts.get("ints", INTS)), False, False
    n = r.choice(opts.get("sizes", SIZES))
    if r.random() < opts.get("big", 0.06):
        n = r.choice(BIG)
    return 8 * n, True, k == "heap"


def ignored_fields(r, copy):
    tys = ["u8", "u16", "u32", "bool", "i128", "char", "usize", "f32", "(u8, bool)", "[u16; 3]", "Option<u8>", "&'static str", "core::marker::PhantomData<u8>"] + ([] if copy else ["String", "String", "Vec<u8>", "Option<String>"])
    return [("ign0", "u64")] + [(f"ign{i + 1}", r.choice(tys)) for i in range(r.choice([0, 0, 1, 2]))]


def spelled(q, ty):
    """Another way to write a built-in type."""
    if ty[1:].isdigit() or ty == "bool":
        return q.choice(["core::primitive::", "::core::primitive::"]) + ty
    if ty.startswith("[u8; ") and ty[5:-1].isdigit():
        n = int(ty[5:-1])
        return q.choice([f"[u8; {n:#x}]", f"[core::primitive::u8; {n}]", f"[u8;{n}]", f"[u8; {n:#b}]"])
    return ty


def build_decl(r, name, fs, nbits, array, heap, ign, copy, order, ends, on, ftxt, group=0, fixed_args=None):
    d = Decl()
    d.flag = False
    d.name, d.fields, d.nbits, d.array, d.heap, d.copy = name, fs, nbits, array, heap, copy
    d.order, d.ends, d.on, d.group = order, ends, on, group
    d.ign = ign
    args = []
    if order == "msb" or r.random() < 0.1:
        args.append(f"order = {order}")
    for a, e in zip(["from_endian", "into_endian", "write_endian"], ends):
        if e == "little" or r.random() < 0.15:
            args.append(f"{a} = {e}")
    if heap:
        args.append("array_heap = true")
    if not copy:
        args.append("copy = false")
    args += [t for t in ftxt if not (t == "copy = true" and not copy)]
    if fixed_args is not None:
        args = fixed_args
    r.shuffle(args)
    back = f"[u8; {nbits // 8}]" if array else f"u{nbits}"
    d.back = back
    consts = []
    lines = []
    off = 0
    d.items = []
    ips = sorted(r.randrange(len(fs) + 1) for _ in ign)
    lay = []
    for f in fs:
        g = Field()
        g.__dict__.update(f.__dict__)
        lay.append(g)
    d.fields = lay
    total = sum(f.bits for f in lay)
    assert total == nbits, (total, nbits)
    for f in lay:
        f.off = off if order == "lsb" else nbits - off - f.bits
        off += f.bits
    ii = 0
    for k, f in enumerate(lay):
        while ii < len(ips) and ips[ii] == k:
            lines.append(f"    #[bits(ignore = true)]\n    pub {ign[ii][0]}: {ign[ii][1]},")
            ii += 1
        parts = []
        tail = []
        if f.default is not None:
            tail.append(f"default = {default_src(f, d, consts, k)}")
        if not f.reserved and (f.acc != "rw" or random.Random(f.dseed).random() < 0.05):
            tail.append(f"access = {f.acc}")
        random.Random(f.dseed + 1).shuffle(tail)
        q = random.Random(f.dseed + 3)
        if f.explicit:
            parts.append(str(f.bits) if q.random() < 0.95 else q.choice([f"{f.bits:#x}", f"{f.bits:#b}", f"0{f.bits}", f"{f.bits}_"]))
        parts += tail
        ty = spelled(q, f.ty) if q.random() < 0.04 else f.ty
        if f.doc:
            lines.append("    /// A documented field.")
        if parts:
            lines.append(f"    #[bits({', '.join(parts)}{',' if q.random() < 0.03 else ''})]")
        lines.append(f"    {f.vis}{f.ident}: {ty},")
    while ii < len(ips):
        lines.append(f"    #[bits(ignore = true)]\n    pub {ign[ii][0]}: {ign[ii][1]},")
        ii += 1
    d.consts = consts
    q = random.Random(lay[0].dseed + 2)
    attr = ", ".join([spelled(q, back) if q.random() < 0.04 else back] + args) + ("," if q.random() < 0.03 else "")
    post = q.choice(["", "", "", "#[allow(dead_code)]\n", "/// Documented.\n", "#[derive(PartialEq)]\n"])
    vis = q.choice(["pub ", "pub ", "pub(crate) ", "", "pub(in crate) "])
    d.outside = bool(ign) and vis != ""
    d.decl = f"#[bitfield({attr})]\n{post}{vis}struct {name} {{\n" + "\n".join(lines) + "\n}\n"
    return d


def rust_default(f):
    if f.default is None:
        return "None"
    n = (f.bits + 7) // 8
    return "Some(&[" + ", ".join(str((f.default >> (8 * i)) & 255) for i in range(n)) + "])"


# another module, which can reach what is visible outside the declaring module only
OUTSIDE = "use super::*;\npub mod outside { pub fn ign(t: &super::decl::NAME) -> u64 { t.ign0 } }\n"


def alone_text(d):
    """The declaration, with its constants, in a module of its own."""
    o = "" if not getattr(d, "outside", False) else OUTSIDE.replace("use super::*;\n", "").replace("NAME", d.name)
    return "pub mod file {\nuse super::*;\n" + o + "pub mod decl {\nuse super::*;\n" + "\n".join(d.consts) + "\n" + d.decl + "}}\n"


def adapter(d, index):
    """The module text of one declaration."""
    T = d.name
    bob = "bytes" if d.array else "bits"
    acc = {"rw": "Rw", "ro": "Ro", "wo": "Wo", "na": "Na"}
    fl = []
    for f in d.fields:
        fk = {"bool": "FK::Bool", "u": "FK::U", "i": "FK::I", "arr": "FK::Arr"}.get(f.kind) or f"FK::Cust(&C_{f.cust.name.upper()})"
        fl.append(f'Field {{ name: "{f.name}", fk: {fk}, tybits: {f.tybits}, bits: {f.bits}, off: {f.off}, acc: Acc::{acc[f.acc]}, reserved: {str(f.reserved).lower()}, default: {rust_default(f)} }}')
    le = [str(e == "little").lower() for e in d.ends]
    b = lambda x: str(bool(x)).lower()
    o = []
    wrapped = not getattr(d, "baked", False)
    if wrapped:
        o.append((OUTSIDE.replace("NAME", T) if d.outside else "use super::*;\n") + "pub use decl::{make, META};\npub mod decl {")
    o.append("use super::*;\n" + "\n".join(d.consts) + "\n" + d.decl)
    o.append(f'''pub static META: Meta = Meta {{ name: "{T}", decl: r####"{d.decl}"####, group: {d.group}, nbits: {d.nbits}, array: {b(d.array)}, heap: {b(d.heap)}, ignored: {b(d.ign)}, copy: {b(d.copy)}, from_le: {le[0]}, into_le: {le[1]}, write_le: {le[2]}, ops: {ops_mask(d)}, fields: &[
    {(","+chr(10)+"    ").join(fl)}] }};''')
    val = "val" if d.ign else "0"
    inner = f"raw.arr::<{d.nbits // 8}>()" if d.array else f"raw.u128() as {d.back}"
    if d.heap:
        inner = f"Box::new({inner})"
    if d.ign:
        ctor = f"{T} {{ val: {inner}, " + ", ".join(f"{n}: Default::default()" for n, _ in d.ign) + " }"
    else:
        ctor = f"{T}({inner})"
    rd = f"Bv::from_bytes(&self.0.{val}[..])" if d.array else f"Bv::of({d.nbits}, self.0.{val} as u128)"
    o.append(f"struct D({T});\nfn of(raw: &Bv) -> {T} {{ {ctor} }}\npub fn make(raw: &Bv) -> Box<dyn Dut> {{ Box::new(D(of(raw))) }}")
    arms = []
    dup = "of(&self.raw())" if not (d.copy and not d.heap) else "self.0"
    on = d.on
    S = [(k, f) for k, f in enumerate(d.fields) if has_setter(f)]
    G = [(k, f) for k, f in enumerate(d.fields) if has_getter(f)]

    def per_field(kind, lst, body):
        if lst:
            arms.append(f"K::{kind} => match op.f {{ " + "\n ".join(f"{k} => {{ {body(f)} }}" for k, f in lst) + "\n _ => na(out) },")

    per_field("Set", S, lambda f: f"let v = <{f.ty} as Val>::mk(&op.v); if op.c {{ let r = w!(self.0.checked_set_{f.name}(v)); out.res(r); }} else {{ w!(self.0.set_{f.name}(v)); }}")
    per_field("Get", G, lambda f: f"let r = w!(self.0.{f.ident}()); out.val(r.rd());")
    if on["invert_bit_ops"]:
        per_field("Inverted", G, lambda f: f"let r = w!(self.0.{f.name}_inverted()); out.val(r.rd());")
        per_field("InvertF", S, lambda f: f"w!(self.0.invert_{f.name}());")
        arms.append(f"K::InvertAll => {{ w!(self.0.invert_{bob}()); }}")
    if on["clear_bit_ops"]:
        per_field("ClearF", S, lambda f: f"w!(self.0.clear_{f.name}());")
        per_field("ClearFDef", [(k, f) for k, f in S if f.default is not None], lambda f: f"w!(self.0.clear_{f.name}_to_default());")
        arms.append(f"K::ClearAll => if op.d {{ w!(self.0.clear_{bob}_with_defaults()); }} else {{ w!(self.0.clear_{bob}()); }}")
    if on["set_get_bit_ops"]:
        arms.append("K::SetBit => if op.c { let r = w!(self.0.checked_set_bit(op.o as _, op.d)); out.res(r); } else { w!(self.0.set_bit(op.o as _, op.d)); }")
        arms.append("K::GetBit => if op.c { let r = w!(self.0.checked_get_bit(op.o as _)); if let Some(x) = out.res(r) { out.val(x.rd()); } } else { let r = w!(self.0.get_bit(op.o as _)); out.val(r.rd()); }")
        arms.append(f"K::SetRange => {{ let v = <{d.back} as Val>::mk(&op.v); if op.c {{ let r = w!(self.0.checked_set_{bob}_range(op.o as _, op.l as _, v)); out.res(r); }} else {{ w!(self.0.set_{bob}_range(op.o as _, op.l as _, v)); }} }}")
        arms.append(f"K::GetRange => if op.c {{ let r = w!(self.0.checked_get_{bob}_range(op.o as _, op.l as _)); if let Some(x) = out.res(r) {{ out.val(x.rd()); }} }} else {{ let r = w!(self.0.get_{bob}_range(op.o as _, op.l as _)); out.val(r.rd()); }}")
    E = ["", "le_", "be_"]
    if on["write_bit_ops"]:
        a = " ".join(f"({e}, {str(dd).lower()}) => w!(self.0.write_{E[e]}{bob}{'_with_defaults' if dd else ''}(v))," for e in range(3) for dd in (False, True))
        arms.append(f"K::Write => {{ let v = <{d.back} as Val>::mk(&op.v); match (op.e, op.d) {{ {a} _ => na(out) }} }}")
        arms.append("K::WriteDefaults => { w!(self.0.write_defaults()); }")
    if on["from_into_bits"]:
        self_ = "self.0" if d.array else "t"
        pre = "" if d.array else f"let t = {dup};"
        a = " ".join(f"{e} => w!({self_}.into_{E[e]}{bob}())," for e in (1, 2)) + f" _ => w!({self_}.into_{bob}())"
        arms.append(f"K::Into => {{ {pre} let r = match op.e {{ {a} }}; out.val(r.rd()); }}")
        a = " ".join(f"({e}, {str(dd).lower()}) => w!({T}::from_{E[e]}{bob}{'_with_defaults' if dd else ''}(v))," for e in range(3) for dd in (False, True))
        arms.append(f"K::From => {{ let v = <{d.back} as Val>::mk(&op.v); let t = match (op.e, op.d) {{ {a} _ => return na(out) }}; self.0 = t; }}")
        if d.array:
            a = " ".join(f"{e} => if op.c {{ let r = w!(self.0.checked_into_{E[e]}slice(&mut out.buf[GUARD..GUARD + l])); out.res(r); }} else {{ w!(self.0.into_{E[e]}slice(&mut out.buf[GUARD..GUARD + l])); }}," for e in range(3))
            arms.append(f"K::IntoSlice => {{ let l = glue::buffer(op, out); match op.e {{ {a} _ => na(out) }} }}")
            sfx = lambda dd: "_with_defaults" if dd else ""
            a = " ".join(f"({e}, {str(dd).lower()}, false) => w!({T}::from_{E[e]}slice{sfx(dd)}(s)), ({e}, {str(dd).lower()}, true) => {{ let r = w!({T}::checked_from_{E[e]}slice{sfx(dd)}(s)); match out.res(r) {{ Some(t) => t, None => return }} }}" for e in range(3) for dd in (False, True))
            arms.append(f"K::FromSlice => {{ let s = glue::slice_of(op); let t = match (op.e, op.d, op.c) {{ {a} _ => return na(out) }}; self.0 = t; }}")
    if on["from_traits"]:
        arms.append(f"K::FromTrait => {{ let v = <{d.back} as Val>::mk(&op.v); let t = w!({T}::from(v)); self.0 = t; }}")
        arms.append(f"K::IntoTrait => {{ let t = {dup}; let r = w!(<{d.back}>::from(t)); out.val(r.rd()); }}")
    if on["debug"]:
        arms.append("K::Debug => glue::debug(&self.0, op.d, out),")
    if d.copy:
        arms.append("K::CloneSwap => { let t = w!(self.0.clone()); self.0 = t; }")
    if on["new"]:
        arms.append(f"K::New => {{ let t = if op.d {{ w!({T}::new()) }} else {{ w!({T}::new_without_defaults()) }}; self.0 = t; }}")
    if on["default"]:
        arms.append(f"K::DefaultTrait => {{ let t = w!(<{T} as Default>::default()); self.0 = t; }}")
    if on["builder"]:
        bs = [(k, f) for k, f in enumerate(d.fields) if not f.reserved and f.acc != "na"]
        a = "\n ".join(f"({k}, false) => {{ let v = <{f.ty} as Val>::mk(&x.v); w!(b.with_{f.name}(v)) }}\n ({k}, true) => {{ let v = <{f.ty} as Val>::mk(&x.v); let r = w!(b.checked_with_{f.name}(v)); match out.res(r) {{ Some(b) => b, None => return }} }}" for k, f in bs)
        arms.append(f"K::Build => {{ let mut b = if op.d && op.e == 1 {{ w!(<{T}Builder as Default>::default()) }} else if op.d {{ w!({T}Builder::new()) }} else {{ w!({T}Builder::new_without_defaults()) }};\n for x in &op.ws {{ b = match (x.f, x.c) {{ {a}\n _ => return na(out) }}; }}\n let t = w!(b.build()); self.0 = t; out.st = St::Ok; }}")
    cs = ", ".join(f"({k}, {T}::{f.name.upper()}_BITS as u32, {T}::{f.name.upper()}_OFFSET as u32)" for k, f in enumerate(d.fields) if has_getter(f) or has_setter(f))
    ig = "self.0.ign0" if d.ign else "0"
    sig = "self.0.ign0 = v;" if d.ign else "let _ = v;"
    o.append(f'''impl Dut for D {{
    fn meta(&self) -> &'static Meta {{ &META }}
    fn raw(&self) -> Bv {{ {rd} }}
    fn of_raw(&self, raw: &Bv) -> Box<dyn Dut> {{ make(raw) }}
    fn consts(&self) -> Vec<(usize, u32, u32)> {{ vec![{cs}] }}
    fn ign(&self) -> u64 {{ {ig} }}
    fn set_ign(&mut self, v: u64) {{ {sig} }}
    fn exec(&mut self, op: &Op, out: &mut Out) {{
        match op.k {{
            {(chr(10)+"            ").join(arms)}
            _ => na(out),
        }}
    }}
}}
''')
    if wrapped:
        o.append("}")
    return "\n".join(o)


def bv_text(n, v):
    return f"{n}:" + (f"{v:0{2 * ((n + 7) // 8)}x}" if n else "")


def bake(d):
    """A history the compiler evaluates, and the same history as simulator operations."""
    T = d.name
    r = random.Random(f"bake/{d.decl}")
    bob = "bytes" if d.array else "bits"
    nb = d.nbits // 8
    wb = max([nb, 16] + [f.tybits // 8 for f in d.fields])
    on = d.on
    S = [(k, f) for k, f in enumerate(d.fields) if has_setter(f)]
    G = [(k, f) for k, f in enumerate(d.fields) if has_getter(f)]
    B = [(k, f) for k, f in enumerate(d.fields) if not f.reserved and f.acc != "na"]
    E = ["", "le_", "be_"]
    le = lambda n, v: "[" + ", ".join(str((v >> (8 * i)) & 255) for i in range(n)) + "]"
    backlit = lambda v: le(nb, v) if d.array else f"{v:#x}u{d.nbits}"
    rb = lambda: r.choice([r.getrandbits(d.nbits), r.getrandbits(d.nbits), mask(d.nbits), 0, 1 << r.randrange(d.nbits)])

    def value(f):
        """(bits of the field's type, Rust text)"""
        v = r.choice([r.getrandbits(f.bits), r.getrandbits(f.tybits), mask(f.bits), 1 << (f.bits - 1), r.getrandbits(f.bits)])
        if f.cust is not None and f.cust.patterns:
            v = r.choice(f.cust.patterns)
        v &= mask(f.tybits)
        if f.kind == "bool":
            return v & 1, "true" if v & 1 else "false"
        if f.kind == "u":
            return v, f"{v:#x}u{f.tybits}"
        if f.kind == "i":
            return v, f"({v:#x}u{f.tybits} as i{f.tybits})"
        if f.kind == "arr":
            return v, le(f.tybits // 8, v)
        return v, f"{f.cust.name}::of({v:#x})"

    def out_field(f, e):
        if f.kind == "bool":
            return f"put!(res[K], [{e} as u8]);", 1
        if f.kind in "ui":
            return f"put!(res[K], ({e} as u{f.tybits}).to_le_bytes());", f.tybits
        if f.kind == "arr":
            return f"put!(res[K], {e});", f.tybits
        return f"put!(res[K], ({e}.bits_() as u{f.tybits}).to_le_bytes());", f.tybits

    def out_back(e):
        return (f"put!(res[K], {e});" if d.array else f"put!(res[K], {e}.to_le_bytes());"), d.nbits

    kinds = []
    if S:
        kinds += ["Set"] * 4
    if G:
        kinds += ["Get"] * 2
    if on["invert_bit_ops"]:
        kinds += ["Inverted"] * bool(G) + ["InvertF"] * bool(S) + ["InvertAll"]
    if on["clear_bit_ops"]:
        kinds += ["ClearF"] * bool(S) + ["ClearFDef"] * any(f.default is not None for _, f in S) + ["ClearAll"]
    if on["set_get_bit_ops"]:
        kinds += ["SetBit", "GetBit", "SetRange", "GetRange"]
    if on["write_bit_ops"]:
        kinds += ["Write", "WriteDefaults"]
    if on["from_into_bits"]:
        kinds += ["Into", "From"] + (["IntoSlice", "FromSlice"] if d.array else [])
    if on["new"]:
        kinds += ["New"]
    if on["builder"] and B:
        kinds += ["Build"]
    n = r.randrange(10, 22)
    ops, code = [], []
    for k in range(n):
        kd = r.choice(kinds)
        f = o = l = e = dd = c = 0
        v, vn, ws, rn = 0, 0, "", 0
        body = ""
        pick = lambda lst: r.choice(lst)
        if kd == "Set":
            f, fd = pick(S)
            c = r.randrange(2)
            v, t = value(fd)
            vn = fd.tybits
            body = f"match t.checked_set_{fd.name}({t}) {{ Ok(_) => st[K] = 1, Err(_) => st[K] = 2 }}" if c else f"t.set_{fd.name}({t});"
        elif kd in ("Get", "Inverted"):
            f, fd = pick(G)
            w, rn = out_field(fd, f"t.{fd.name}_inverted()" if kd == "Inverted" else f"t.{fd.ident}()")
            body = w
        elif kd in ("InvertF", "ClearF"):
            f, fd = pick(S)
            body = f"t.{'invert' if kd == 'InvertF' else 'clear'}_{fd.name}();"
        elif kd == "ClearFDef":
            f, fd = pick([x for x in S if x[1].default is not None])
            body = f"t.clear_{fd.name}_to_default();"
        elif kd == "InvertAll":
            body = f"t.invert_{bob}();"
        elif kd == "ClearAll":
            dd = r.randrange(2)
            body = f"t.clear_{bob}{'_with_defaults' if dd else ''}();"
        elif kd in ("SetBit", "GetBit"):
            o = r.choice([r.randrange(d.nbits), r.randrange(d.nbits), d.nbits, d.nbits + 3])
            c = r.randrange(2)
            if kd == "SetBit":
                dd = r.randrange(2)
                a = f"{o}u32 as _, {'true' if dd else 'false'}"
                body = f"match t.checked_set_bit({a}) {{ Ok(_) => st[K] = 1, Err(_) => st[K] = 2 }}" if c else f"t.set_bit({a});"
            elif c:
                body = f"match t.checked_get_bit({o}u32 as _) {{ Ok(x) => {{ put!(res[K], [x as u8]); rn[K] = 1; st[K] = 1 }} Err(_) => st[K] = 2 }}"
            else:
                rn = 1
                body = f"put!(res[K], [t.get_bit({o}u32 as _) as u8]);"
        elif kd in ("SetRange", "GetRange"):
            o = r.randrange(d.nbits)
            l = r.choice([r.randrange(d.nbits - o + 1), r.randrange(d.nbits - o + 1), d.nbits - o, d.nbits - o + 1, 0])
            c = r.randrange(2)
            a = f"{o}u32 as _, {l}u32 as _"
            if kd == "SetRange":
                v, vn = rb() & mask(l), d.nbits
                a += ", " + backlit(v)
                body = f"match t.checked_set_{bob}_range({a}) {{ Ok(_) => st[K] = 1, Err(_) => st[K] = 2 }}" if c else f"t.set_{bob}_range({a});"
            elif c:
                w, b = out_back("x")
                body = f"match t.checked_get_{bob}_range({a}) {{ Ok(x) => {{ {w} rn[K] = {b}; st[K] = 1 }} Err(_) => st[K] = 2 }}"
            else:
                body, rn = out_back(f"t.get_{bob}_range({a})")
        elif kd == "Write":
            e, dd, v, vn = r.randrange(3), r.randrange(2), rb(), d.nbits
            body = f"t.write_{E[e]}{bob}{'_with_defaults' if dd else ''}({backlit(v)});"
        elif kd == "WriteDefaults":
            body = "t.write_defaults();"
        elif kd == "Into":
            e = r.randrange(3)
            x = "t" if d.array else f"{T}(t.0)"
            body, rn = out_back(f"{x}.into_{E[e]}{bob}()")
        elif kd == "From":
            e, dd, v, vn = r.randrange(3), r.randrange(2), rb(), d.nbits
            body = f"t = {T}::from_{E[e]}{bob}{'_with_defaults' if dd else ''}({backlit(v)});"
        elif kd == "FromSlice":
            e, dd, c = r.randrange(3), r.randrange(2), r.randrange(2)
            l = r.choice([nb, nb, nb - 1, nb + 2, 0])
            v, vn = r.getrandbits(8 * l) if l else 0, 8 * l
            a = f"from_{E[e]}slice{'_with_defaults' if dd else ''}(&{le(l, v)})"
            body = f"match {T}::checked_{a} {{ Ok(x) => {{ t = x; st[K] = 1 }} Err(_) => st[K] = 2 }}" if c else f"t = {T}::{a};"
        elif kd == "IntoSlice":
            e, c = r.randrange(3), r.randrange(2)
            l = r.choice([nb, nb, max(nb - 1, 0)])
            v, vn = 0, 8
            fill = f"let mut buf = [0u8; {l}]; let mut q = 0; while q < {l} {{ buf[q] = ((8 + q) as u8).wrapping_mul(29); q += 1; }}"
            a = f"{fill} "
            call = f"into_{E[e]}slice(&mut buf)"
            a += f"match t.checked_{call} {{ Ok(_) => st[K] = 1, Err(_) => st[K] = 2 }}" if c else f"t.{call};"
            body = a + f" put!(res[K], buf); rn[K] = {8 * l};"
        elif kd == "New":
            dd = r.randrange(2)
            body = f"t = {T}::new{'' if dd else '_without_defaults'}();"
        elif kd == "Build":
            dd = r.randrange(2)
            b = f"{T}Builder::new{'' if dd else '_without_defaults'}()"
            steps = ""
            for _ in range(r.randrange(4)):
                wf, fd = pick(B)
                wv, wt = value(fd)
                wc = r.random() < 0.3 and wv >> fd.bits == 0 and not (fd.kind == "i" and wv >> (fd.bits - 1) and fd.bits < fd.tybits)
                ws += f" w={wf},{int(wc)},{bv_text(fd.tybits, wv)}"
                steps += f"b = match b.checked_with_{fd.name}({wt}) {{ Ok(x) => x, Err(_) => panic!(\"refused\") }};" if wc else f"b = b.with_{fd.name}({wt});"
            body = f"let mut b = {b}; {steps} t = b.build(); st[K] = 1;"
        ops.append(f"{kd} f={f} o={o} l={l} e={e} d={dd} c={c} v={bv_text(vn, v)}{ws}")
        if rn:
            body += f" rn[K] = {rn};"
        code.append(f"{{ const K: usize = {k}; {body} raws[K + 1] = t.0; }}")
    zero = f"[0u8; {nb}]" if d.array else f"0u{d.nbits}"
    init = f"{T}::new()" if on["new"] else f"{T}({backlit(rb())})"
    rd = "Bv::from_bytes(&BAKED.0[k])" if d.array else f"Bv::of({d.nbits}, BAKED.0[k] as u128)"
    o = "\n    ".join(f'"{x}",' for x in ops)
    c = "\n    ".join(code)
    return f"""
const NOPS: usize = {n};
#[allow(unused_mut)]
const BAKED: ([{d.back}; NOPS + 1], [u8; NOPS], [u16; NOPS], [[u8; {wb}]; NOPS]) = {{
    let mut raws = [{zero}; NOPS + 1]; let mut st = [0u8; NOPS]; let mut rn = [0u16; NOPS]; let mut res = [[0u8; {wb}]; NOPS];
    let mut t = {init};
    raws[0] = t.0;
    {c}
    (raws, st, rn, res)
}};
fn baked_raw(k: usize) -> Bv {{ {rd} }}
fn baked_res(k: usize) -> (u8, Bv) {{ (BAKED.1[k], Bv::bits_of(BAKED.2[k] as u32, &BAKED.3[k])) }}
static OPS: [&str; NOPS] = [
    {o}
];
pub static BAKE: simcore::meta::Bake = simcore::meta::Bake {{ meta: &META, make, ops: &OPS, raw: baked_raw, res: baked_res }};
"""


PUT = "macro_rules! put { ($d:expr, $s:expr) => {{ let s = $s; let mut q = 0; while q < s.len() { $d[q] = s[q]; q += 1; } }} }"


def crate_text(decls, custs):
    used = {}
    fields = [f for d in decls for f in d.fields]
    for _ in (0,):
        for f in fields:
            if f.cust:
                used[f.cust.name] = f.cust
    o = ["#![allow(unused, non_snake_case, non_upper_case_globals, clippy::all)]",
         "use bitfields::{bitfield, bitflag};",
         "use simcore::glue::{self, GUARD, Val};",
         "use simcore::{w, Acc, Bv, Cust, Dut, FK, Field, FlagEntry, K, Meta, Op, Out, St, TypeEntry};",
         "fn na(out: &mut Out) { out.st = St::NA; }",
         PUT,
         "pub mod cust {\nuse super::*;"]
    for c in used.values():
        o.append(c.body + VAL.format(n=c.name, r=c.raw))
        fl = "None"
        if c.flags:
            fl = f"Some(({c.flags[0]:#x}, &[{', '.join(hex(p) for p in c.flags[1])}]))"
        p = "None" if c.poison is None else f"Some({c.poison:#x})"
        o.append(f'pub static C_{c.name.upper()}: Cust = Cust {{ name: "{c.name}", raw: {c.raw}, norm: {c.norm}, injective: {str(c.injective).lower()}, poison: {p}, ticks: {str(c.ticks).lower()}, flags: {fl}, pats: &[{", ".join(map(hex, c.patterns or []))}] }};')
    o.append("}\nuse cust::*;")
    for i, d in enumerate(decls):
        o.append(f"mod t{i};")
    o.append("pub fn types() -> Vec<TypeEntry> { vec![" + ", ".join(f"TypeEntry {{ meta: &t{i}::META, make: t{i}::make }}" for i, d in enumerate(decls) if not d.flag) + "] }")
    o.append("pub fn bakes() -> Vec<&'static simcore::meta::Bake> { vec![" + ", ".join(f"&t{i}::BAKE" for i, d in enumerate(decls) if getattr(d, "baked", False)) + "] }")
    o.append("pub fn flags() -> Vec<&'static FlagEntry> { vec![" + ", ".join(f"&t{i}::FLAG" for i, d in enumerate(decls) if d.flag) + "] }")
    return "\n".join(o) + "\n"


def no_std_text(decls):
    """The heap-free declarations alone, in a crate without the standard library."""
    used = {}
    keep = [d for d in decls if not d.heap and not any("String" in t or "Vec" in t for _, t in d.ign)]
    for f in (f for d in keep for f in d.fields):
        if f.cust:
            used[f.cust.name] = f.cust
    o = ["#![no_std]", "#![allow(unused, non_snake_case, non_upper_case_globals, clippy::all)]",
         "use bitfields::{bitfield, bitflag};", "use simcore::glue;", "pub mod cust {\nuse super::*;"]
    o += [c.body for c in used.values()]
    o.append("}\nuse cust::*;")
    for i, d in enumerate(keep):
        o.append(f"mod t{i} {{ use super::*; mod decl {{ use super::*;")
        o += d.consts
        o.append(d.decl + "}}")
    r = random.Random(len(keep))
    for k in range(20):
        d = make_flag(r, k)
        o.append(f"mod f{k} {{ use super::*;")
        o += d.consts
        o.append(d.decl + "}")
    return "\n".join(o) + "\n"


class FlagDecl:
    heap = array = False
    ign = ()
    fields = ()
    flag = True


def make_flag(r, k, base=None, mode="mix"):
    """A flag enum; `base`: settings the build features give to declarations that do not say."""
    base = base or dict(from_endian="big", into_endian="big", copy=True)
    d = FlagDecl()
    d.name = r.choice(["Mode", "Code", "Kind", "Cmd"]) + str(k)
    d.bits = n = r.choice(INTS)
    count = r.choice([1, 2, 3, 4, 5, 8, 12, 16, 33, 33 if n == 8 else 70])
    shape = r.choice(["mixed"] * 5 + ["small", "ordinals", "powers"])  # tables people write
    plain = r.random() < (0.3 if shape == "mixed" else 0.6)  # every value an unadorned decimal
    if n == 8 and r.random() < 0.08:
        table = list(range(256))
    elif shape == "ordinals":
        table = [v + r.choice([0, 0, 1]) for v in range(count)]
        table = list(dict.fromkeys(table))
    elif shape == "powers":
        table = [1 << k for k in range(min(count * 2, n))]
    else:
        table = []
        while len(table) < count:
            v = r.randrange(100) if shape == "small" else r.choice([r.randrange(4), r.randrange(16), 1 << r.randrange(n), r.getrandbits(n), mask(n), r.getrandbits(8) << (n - 8),
                          r.getrandbits(8) * (mask(n) // 255), mask(n) ^ (1 << r.randrange(n))])
            if v not in table:
                table.append(v)
    r.shuffle(table)
    d.table = table
    style = r.choice(["base", "base", "default", "both", "same"])
    d.base = r.randrange(len(table))
    other = (d.base + 1 + r.randrange(max(1, len(table) - 1))) % len(table)
    if len(table) == 1 and style == "both":
        style = "base"
    d.from_le, d.into_le = r.choice([(False, False), (True, True), (True, True), (True, False), (False, True)])
    copy = r.random() < 0.8
    args = []
    for key, e in [("from_endian", "little" if d.from_le else "big"), ("into_endian", "little" if d.into_le else "big"), ("copy", copy)]:
        if e != base[key] or mode == "explicit" or (mode == "mix" and r.random() < 0.3):
            args.append(f"{key} = {str(e).lower()}")
    r.shuffle(args)
    d.consts = []
    vs = []
    for i, v in enumerate(table):
        t = str(v) if plain else lit(r, v)
        if not plain and r.random() < 0.1:
            d.consts.append(f"pub const K{i}: u{n} = {t};")
            t = f"K{i}"
        at = ""
        if i == d.base:
            at = {"base": "#[base] ", "default": "#[default] ", "both": "#[base] ", "same": "#[base] #[default] "}[style]
        elif style == "both" and i == other:
            at = "#[default] "
        vs.append(f"{at}V{i} = {t}")
    ders = ([] if style == "base" else ["Default"]) + ([] if copy else ["Clone", "Copy"])
    der = f"#[derive({', '.join(ders)})] " if ders else ""
    d.decl = f"#[bitflag({', '.join([f'u{n}'] + args)})]\n{der}{r.choice(['pub ', '', 'pub(crate) '])}enum {d.name} {{\n    " + ",\n    ".join(vs) + "\n}\n"
    return d


def flag_adapter(d):
    T = d.name
    b = lambda x: str(bool(x)).lower()
    dec = " ".join(f"{T}::V{i} => {i}," for i in range(len(d.table)))
    enc = " ".join(f"{i} => {T}::V{i}," for i in range(len(d.table)))
    return f"""use super::*;
{chr(10).join(d.consts)}
{d.decl}
fn dec(c: u128) -> usize {{ match {T}::from_bits(c as u{d.bits}) {{ {dec} }} }}
fn enc(i: usize) -> u128 {{ let v = match i {{ {enc} _ => unreachable!() }}; v.into_bits() as u128 }}
pub static FLAG: FlagEntry = FlagEntry {{ name: "{T}", decl: r####"{d.decl}"####, bits: {d.bits}, from_le: {b(d.from_le)}, into_le: {b(d.into_le)}, base: {d.base},
    table: &[{", ".join(hex(v) for v in d.table)}], dec, enc }};
"""


SETTINGS = [  # argument, value -> feature
    ("order", {"lsb": "order_lsb", "msb": "order_msb"}, "lsb"),
    ("from_endian", {"big": "from_endian_big", "little": "from_endian_little"}, "big"),
    ("into_endian", {"big": "into_endian_big", "little": "into_endian_little"}, "big"),
    ("write_endian", {"big": "write_endian_big", "little": "write_endian_little"}, "big"),
    ("new", {True: "generate_new", False: "disable_new"}, True),
    ("from_into_bits", {True: "generate_from_into_bits", False: "disable_from_into_bits"}, True),
    ("from_traits", {True: "generate_from_traits", False: "disable_from_traits"}, True),
    ("default", {True: "generate_default", False: "disable_default"}, True),
    ("debug", {True: "generate_debug", False: "disable_debug"}, True),
    ("copy", {True: "derive_copy", False: "disable_copy"}, True),
    ("builder", {True: "generate_builder", False: "disable_builder"}, True),
    ("bit_ops", {True: "generate_bit_ops", False: "disable_bit_ops"}, True),
    ("write_bit_ops", {True: "generate_write_bit_ops", False: "disable_write_bit_ops"}, True),
    ("clear_bit_ops", {True: "generate_clear_bit_ops", False: "disable_clear_bit_ops"}, True),
    ("set_get_bit_ops", {True: "generate_set_get_bit_ops", False: "disable_set_get_bit_ops"}, True),
    ("invert_bit_ops", {True: "generate_invert_bit_ops", False: "disable_invert_bit_ops"}, True),
    ("toggle_bit_ops", {True: "generate_toggle_bit_ops", False: "disable_toggle_bit_ops"}, True),
    ("array_heap", {True: "enable_array_heap", False: "disable_array_heap"}, False),
]
FLAG_SETTINGS = [
    ("from_endian", {"big": "bitflag_from_endian_big", "little": "bitflag_from_endian_little"}, "big"),
    ("into_endian", {"big": "bitflag_into_endian_big", "little": "bitflag_into_endian_little"}, "big"),
    ("copy", {True: "bitflag_derive_copy", False: "bitflag_disable_copy"}, True),
]
GROUPS = ["write_bit_ops", "clear_bit_ops", "set_get_bit_ops", "invert_bit_ops"]


def build_features(prop, seed):
    """The global settings of this build: (cargo features, settings of bitfields, settings of flag enums).

    Six consecutive builds separate the settings: each setting is at its default in one of them and not in
    another, and any two settings differ from their defaults in different builds.
    """
    rd = seed % 1000
    q = random.Random(f"{prop}/{seed // 1000}/{rd // 6}/features")
    cols = q.sample(range(1, 63), len(SETTINGS) + len(FLAG_SETTINGS))
    r = random.Random(f"{prop}/{seed}/features")
    names, glob, flg = [], {}, {}
    for table, out in ((SETTINGS, glob), (FLAG_SETTINGS, flg)):
        for key, by, std in table:
            o = [v for v in by if v != std][0]
            v = o if cols.pop() >> (rd % 6) & 1 else std
            out[key] = v
            # neither feature named: the documented default
            if v != std or r.random() < 0.6:
                names.append(by[v])
    r.shuffle(names)
    return names, glob, flg


def inherit_args(r, eff, glob, mode, array):
    """The arguments a declaration has to (or, by mode, may) spell out for its settings to be `eff`."""
    args = []
    for key, by, std in SETTINGS:
        if key in GROUPS and not eff["bit_ops"]:
            if eff[key] or mode == "explicit" or (mode == "mix" and r.random() < 0.4):
                args.append(f"{key} = {str(eff[key]).lower()}")
            continue
        if eff[key] != glob[key] or mode == "explicit" or (mode == "mix" and r.random() < 0.4):
            args.append(f"{key} = {str(eff[key]).lower()}")
    return args


def make_fleet(prop, seed, n):
    r = random.Random(f"{prop}/{seed}/decls")
    feats, glob, flg = build_features(prop, seed)
    plain = [c for c in CUSTS if c.injective and "#[" not in c.body.replace("#[derive(Clone, Copy)]", "")]
    out = []
    k = 0
    while len(out) < n:
        k += 1
        if r.random() < 0.25:
            out.append(make_flag(r, k, flg, r.choice(["inherit", "mix", "explicit"])))
            continue
        eff = {key: (glob[key] if r.random() < 0.6 else r.choice(list(by))) for key, by, _ in SETTINGS}
        o = dict(BASE, custs=plain)
        nbits, array, heap = storage(r, o)
        heap = array and eff["array_heap"]
        fs = make_fields(r, nbits, o)
        name = r.choice(["Reg", "Frame", "Ctl", "Hdr"]) + str(k)
        on = {f: eff[f] for f in FEATS}
        ig = r.random() < 0.15
        ign = ignored_fields(r, True) if ig else []
        ends = [eff["from_endian"], eff["into_endian"], eff["write_endian"]]
        for mode in ("explicit", "inherit", "mix"):
            args = inherit_args(r, eff, glob, mode, array)
            out.append(build_decl(r, name, fs, nbits, array, heap, ign, eff["copy"], eff["order"], ends, dict(on), [], k, args))
    return out


BASE = {"custs": CUSTS}
PROFILE = {
    "C01": dict(need=[], acc=[80, 8, 8, 4], storage=[50, 38, 12]),
    "C02": dict(need=[]),
    "C03": dict(need=["set_get_bit_ops"], acc=[45, 20, 20, 15], reserved=0.2),
    "C04": dict(need=["set_get_bit_ops"]),
    "C05": dict(need=[], faulty=True, cust=14),
    "C06": dict(need=["from_into_bits"], storage=[40, 48, 12]),
    "C07": dict(need=["from_into_bits"], cust=9, default=0.5),
    "C08": dict(need=["debug"]),
    "C09": dict(need=[], storage=[30, 25, 45]),
    "C10": dict(need=[]),
    "C11": dict(need=[], group=True),
    "C13": dict(need=[]),
    "C14": dict(need=[]),
    "C15": dict(need=[], storage=[55, 45, 0], big=0.02, noign=True),
    "C12": dict(need=["clear_bit_ops"], cust=9, off=0.35, default=0.6, reserved=0.15, acc=[60, 16, 14, 10]),
}


def make_decls(prop, seed, n):
    if prop == "C14":
        return make_fleet(prop, seed, n)
    if prop == "C13":
        r = random.Random(f"{prop}/{seed}/decls")
        return [make_flag(r, k) for k in range(n)]
    r = random.Random(f"{prop}/{seed}/decls")
    prof = PROFILE[prop]
    opts = dict(BASE)
    opts.update(prof)
    out = []
    k = 0
    groups = 0
    ints_cycle = 0
    ext = extreme(seed)
    while len(out) < n:
        k += 1
        o = dict(opts)
        if ext:
            if r.random() < 0.5:
                o.update(styles=["giant"], sizes=GIANT, big=0, storage=[0, 50, 50])
            else:
                o.update(styles=["many"], sizes=[16, 24, 33, 64], big=0, ints=[128, 128, 64], storage=[50, 30, 20])
        name = r.choice(["Reg", "Frame", "Ctl", "Hdr", "Flags", "Word", "Status", "Pkt"]) + str(k)
        order = r.choice(["lsb", "msb"])
        ends = [r.choice(["big", "little"]) for _ in range(3)]
        if prof.get("group"):
            groups += 1
            only_arrays = r.random() < 0.25 or o.get("sizes") == GIANT
            if only_arrays:
                nbits, _, _ = storage(r, o, "array")
            else:
                nbits = o["ints"][0] if ext else INTS[ints_cycle % 5]
                ints_cycle += 1
                if nbits >= 64 and not ext and r.random() < 0.5:
                    # wide fields: integer and byte-array code paths differ most on them
                    o.update(styles=["huge", "huge", "wide", "single"], arr=o.get("arr", 2) * 5)
            o["custs"] = [c for c in CUSTS if c.injective]
            if r.random() < 0.25:
                ends[1] = ends[0]
            fs = make_fields(r, nbits, o)
            need = []
            on, ftxt = features(r, need)
            kinds = [("int", False), ("array", False), ("heap", False), ("int", True), ("array", True)]
            if r.random() < 0.3:
                kinds.append(("heap", True))
            if only_arrays:
                kinds = [("array", False), ("heap", False), ("array", True), ("heap", True)]
            for st, ig in kinds:
                ign = ignored_fields(r, True) if ig else []
                out.append(build_decl(r, name, fs, nbits, st != "int", st == "heap", ign, True, order, ends, dict(on), ftxt, groups))
            continue
        nbits, array, heap = storage(r, o)
        ignp = 0.15
        if prof.get("faulty"):
            ignp = 0.5
        ig = r.random() < ignp and not prof.get("noign")
        copy = r.random() > 0.06
        if prof.get("faulty"):
            nonconst = ig or heap
            o["custs"] = [c for c in FAULTY if c.const or nonconst] * 3 + [c for c in CUSTS if c.name in ("Tr8", "Fl8", "Ne16", "Xr32")]
            if nbits < 8:
                continue
        ign = ignored_fields(r, copy) if ig else []
        fs = make_fields(r, nbits, o)
        if prof.get("faulty") and not any(f.cust in FAULTY for f in fs):
            continue
        if prop == "C01" and sum(has_setter(f) for f in fs) < 2:
            continue
        if prop == "C03" and all(has_setter(f) and f.acc in ("rw", "ro") for f in fs):
            continue
        on, ftxt = features(r, prof["need"], prof.get("off", 0.12))
        out.append(build_decl(r, name, fs, nbits, array, heap, ign, copy, order, ends, on, ftxt))
        out[-1].baked = prop == "C15"
    return out


def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == s:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(s)


def dep_text(prop, seed, repo):
    if prop != "C14":
        return f'{{ path = "{repo}/bitfields" }}'
    feats = ", ".join(f'"{f}"' for f in build_features(prop, seed)[0])
    return f'{{ package = "bitfields-impl", path = "{repo}/bitfields_impl", default-features = false, features = [{feats}] }}'


def emit(prop, seed, out, ncrates, per, repo="/repo", sim=None, skip=()):
    """skip: indices of declarations to leave out."""
    sim = sim or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim")
    decls = make_decls(prop, seed, ncrates * per)
    dep = dep_text(prop, seed, repo)
    giant = ', features = ["giant"]' if extreme(seed) else ""
    chunks = [[] for _ in range(ncrates)]
    order = {}
    # groups must stay in one binary, not one crate: spread evenly by field count
    for i, d in sorted(enumerate(decls), key=lambda x: -len(x[1].fields)):
        c = min(range(ncrates), key=lambda j: sum(len(decls[q].fields) + 3 for q in chunks[j]))
        chunks[c].append(i)
    for c in range(ncrates):
        chunks[c].sort()
        keep = [i for i in chunks[c] if i not in skip]
        for k, i in enumerate(keep):
            order[(c, k)] = i
            write(f"{out}/d{c}/src/t{k}.rs", flag_adapter(decls[i]) if decls[i].flag else adapter(decls[i], i) + (bake(decls[i]) if getattr(decls[i], "baked", False) else ""))
        write(f"{out}/d{c}/src/lib.rs", crate_text([decls[i] for i in keep], CUSTS))
        write(f"{out}/d{c}/Cargo.toml", f"""[package]
name = "d{c}"
version = "0.1.0"
edition = "2024"
[dependencies]
bitfields = {dep}
simcore = {{ path = "{sim}"{giant} }}
""")
    deps = "\n".join(f'd{c} = {{ path = "../d{c}" }}' for c in range(ncrates))
    write(f"{out}/w/Cargo.toml", f"""[package]
name = "w"
version = "0.1.0"
edition = "2024"
[dependencies]
simcore = {{ path = "{sim}"{giant} }}
{deps}
""")
    ext = "\n".join(f"    v.extend(d{c}::types()); f.extend(d{c}::flags()); b.extend(d{c}::bakes());" for c in range(ncrates))
    write(f"{out}/w/src/main.rs", f"""#[global_allocator]
static A: simcore::fault::SimAlloc = simcore::fault::SimAlloc;
fn main() {{
    let mut v = Vec::new();
    let mut f = Vec::new();
    let mut b = Vec::new();
{ext}
    simcore::scen::c13::register(f);
    simcore::scen::c15::register(b);
    std::process::exit(simcore::driver::main(v));
}}
""")
    # a third of the declarations as in a release build: no debug assertions, wrapping arithmetic
    release = "".join(f"[profile.dev.package.d{c}]\noverflow-checks = false\ndebug-assertions = false\n" for c in range(ncrates) if c % 3 == 2)
    mem = ", ".join([f'"d{c}"' for c in range(ncrates)] + ['"w"'])
    write(f"{out}/Cargo.toml", f"""[workspace]
resolver = "2"
members = [{mem}]
[profile.dev]
opt-level = 0
debug = 0
overflow-checks = true
debug-assertions = true
incremental = false
[profile.dev.package.simcore]
opt-level = 2
{release}[profile.dev.build-override]
opt-level = 0
debug = 0
""")
    return decls, order


if __name__ == "__main__":
    a = sys.argv
    emit(a[1], a[2], a[3], int(a[4]), int(a[5]))
