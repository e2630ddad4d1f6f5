//! Fixed-capacity bit vector; the reference representation of a packed value. Never allocates.
pub const W: usize = if cfg!(feature = "giant") { 8448 } else { 288 };

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Bv {
    pub n: u32,
    pub b: [u8; W],
}

impl core::fmt::Debug for Bv {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(&self.text())
    }
}

impl Bv {
    pub const fn zero(n: u32) -> Bv {
        Bv { n, b: [0; W] }
    }
    pub fn ones(n: u32) -> Bv {
        Bv::zero(n).not()
    }
    pub fn of(n: u32, v: u128) -> Bv {
        let mut r = Bv::zero(n);
        for i in 0..n.min(128) {
            r.set(i, (v >> i) & 1 != 0);
        }
        r
    }
    pub fn from_bytes(bytes: &[u8]) -> Bv {
        let mut r = Bv::zero(bytes.len() as u32 * 8);
        r.b[..bytes.len()].copy_from_slice(bytes);
        r
    }
    /// Bits from (part of) a byte slice.
    pub fn bits_of(n: u32, bytes: &[u8]) -> Bv {
        let mut r = Bv::zero(n);
        for i in 0..n {
            let k = (i / 8) as usize;
            if k < bytes.len() {
                r.set(i, (bytes[k] >> (i % 8)) & 1 != 0);
            }
        }
        r
    }
    pub fn u128(&self) -> u128 {
        let mut v = 0u128;
        for i in 0..16 {
            v |= (self.b[i] as u128) << (8 * i);
        }
        v
    }
    pub fn arr<const N: usize>(&self) -> [u8; N] {
        let mut r = [0u8; N];
        r.copy_from_slice(&self.b[..N]);
        r
    }
    pub fn nbytes(&self) -> usize {
        (self.n as usize).div_ceil(8)
    }
    pub fn bytes(&self) -> &[u8] {
        &self.b[..self.nbytes()]
    }
    pub fn get(&self, i: u32) -> bool {
        i < self.n && (self.b[(i / 8) as usize] >> (i % 8)) & 1 != 0
    }
    pub fn set(&mut self, i: u32, v: bool) {
        assert!(i < self.n);
        let m = 1u8 << (i % 8);
        if v {
            self.b[(i / 8) as usize] |= m;
        } else {
            self.b[(i / 8) as usize] &= !m;
        }
    }
    pub fn flip(&mut self, i: u32) {
        let v = self.get(i);
        self.set(i, !v);
    }
    pub fn slice(&self, off: u32, len: u32) -> Bv {
        let mut r = Bv::zero(len);
        let len = len.min(self.n.saturating_sub(off));
        let (k, s) = ((off / 8) as usize, off % 8);
        for j in 0..(len as usize).div_ceil(8) {
            let lo = self.b[k + j] >> s;
            let hi = if s > 0 && k + j + 1 < W { self.b[k + j + 1] << (8 - s) } else { 0 };
            r.b[j] = lo | hi;
        }
        if len % 8 != 0 {
            r.b[(len / 8) as usize] &= (1 << (len % 8)) - 1;
        }
        r
    }
    pub fn put(&mut self, off: u32, v: &Bv) {
        assert!(v.n == 0 || off + v.n <= self.n);
        let mut i = 0;
        while i < v.n {
            if (off + i) % 8 == 0 && i % 8 == 0 && i + 8 <= v.n {
                self.b[((off + i) / 8) as usize] = v.b[(i / 8) as usize];
                i += 8;
            } else {
                self.set(off + i, v.get(i));
                i += 1;
            }
        }
    }
    pub fn not(&self) -> Bv {
        let mut r = *self;
        for x in r.b.iter_mut() {
            *x = !*x;
        }
        r.slice(0, self.n)
    }
    /// Truncate or zero-extend.
    pub fn zext(&self, n: u32) -> Bv {
        self.slice(0, n)
    }
    /// Truncate or sign-extend.
    pub fn sext(&self, n: u32) -> Bv {
        let mut r = self.slice(0, n);
        if self.n > 0 && self.get(self.n - 1) {
            for i in self.n..n {
                r.set(i, true);
            }
        }
        r
    }
    /// Bytes in the opposite order (whole bytes only).
    pub fn rev(&self) -> Bv {
        assert!(self.n % 8 == 0);
        let k = self.nbytes();
        let mut r = Bv::zero(self.n);
        for i in 0..k {
            r.b[i] = self.b[k - 1 - i];
        }
        r
    }
    pub fn is_zero(&self) -> bool {
        self.bytes().iter().all(|x| *x == 0)
    }
    pub fn text(&self) -> String {
        let mut s = format!("{}:", self.n);
        let k = self.nbytes();
        for i in (0..k).rev() {
            s.push_str(&format!("{:02x}", self.b[i]));
        }
        s
    }
    pub fn parse(s: &str) -> Option<Bv> {
        let (n, h) = s.split_once(':')?;
        let n: u32 = n.parse().ok()?;
        let mut r = Bv::zero(n);
        let k = r.nbytes();
        if h.len() != 2 * k {
            return None;
        }
        for i in 0..k {
            let p = 2 * (k - 1 - i);
            r.b[i] = u8::from_str_radix(&h[p..p + 2], 16).ok()?;
        }
        Some(r)
    }
}
