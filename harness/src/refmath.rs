//! Reference arithmetic, written independently of rabe-bn: plain (non-Montgomery) integers
//! with u128 schoolbook products and Barrett reduction.
use std::cmp::Ordering;
use std::sync::LazyLock;

pub type U4 = [u64; 4];
pub type U8 = [u64; 8];

pub const Z4: U4 = [0; 4];
pub const ONE4: U4 = [1, 0, 0, 0];

pub const P: U4 = [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
pub const R: U4 = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];

pub fn cmp(a: &[u64], b: &[u64]) -> Ordering {
    let n = a.len().max(b.len());
    for i in (0..n).rev() {
        let x = a.get(i).copied().unwrap_or(0);
        let y = b.get(i).copied().unwrap_or(0);
        if x != y {
            return x.cmp(&y);
        }
    }
    Ordering::Equal
}
pub fn lt(a: &[u64], b: &[u64]) -> bool {
    cmp(a, b) == Ordering::Less
}
/// a += b over a's length; carry out.
pub fn add_to(a: &mut [u64], b: &[u64]) -> bool {
    let mut c = 0u128;
    for i in 0..a.len() {
        c += a[i] as u128 + b.get(i).copied().unwrap_or(0) as u128;
        a[i] = c as u64;
        c >>= 64;
    }
    c != 0
}
/// a -= b over a's length; borrow out.
pub fn sub_from(a: &mut [u64], b: &[u64]) -> bool {
    let mut br = false;
    for i in 0..a.len() {
        let (x, b1) = a[i].overflowing_sub(b.get(i).copied().unwrap_or(0));
        let (y, b2) = x.overflowing_sub(br as u64);
        a[i] = y;
        br = b1 || b2;
    }
    br
}
pub fn add4(a: &U4, b: &U4) -> (U4, bool) {
    let mut x = *a;
    let c = add_to(&mut x, b);
    (x, c)
}
pub fn sub4(a: &U4, b: &U4) -> (U4, bool) {
    let mut x = *a;
    let c = sub_from(&mut x, b);
    (x, c)
}
pub fn mul_into(out: &mut [u64], a: &[u64], b: &[u64]) {
    for x in out.iter_mut() {
        *x = 0;
    }
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            if i + j >= out.len() {
                break;
            }
            c += out[i + j] as u128 + a[i] as u128 * b[j] as u128;
            out[i + j] = c as u64;
            c >>= 64;
        }
        if i + b.len() < out.len() {
            out[i + b.len()] = c as u64;
        }
    }
}
pub fn mul4(a: &U4, b: &U4) -> U8 {
    let mut o = [0; 8];
    mul_into(&mut o, a, b);
    o
}
pub fn bit(a: &[u64], i: usize) -> bool {
    a[i / 64] >> (i % 64) & 1 == 1
}
/// Any x, any nonzero m: (quotient, remainder), shift and subtract with a spare word.
pub fn divrem(x: &U8, m: &U4) -> (U8, U4) {
    let mut q = [0u64; 8];
    let mut r = [0u64; 5];
    for i in (0..512).rev() {
        for k in (0..5).rev() {
            r[k] = r[k] << 1 | if k > 0 { r[k - 1] >> 63 } else { bit(x, i) as u64 };
        }
        if !lt(&r, m) {
            sub_from(&mut r, m);
            q[i / 64] |= 1 << (i % 64);
        }
    }
    (q, [r[0], r[1], r[2], r[3]])
}
pub fn wide(a: &U4) -> U8 {
    [a[0], a[1], a[2], a[3], 0, 0, 0, 0]
}
pub fn low4(a: &U8) -> U4 {
    [a[0], a[1], a[2], a[3]]
}
pub fn be_bytes(a: &[u64]) -> Vec<u8> {
    a.iter().rev().flat_map(|w| w.to_be_bytes()).collect()
}
pub fn dec_string(a: &[u64]) -> String {
    let mut v = a.to_vec();
    let mut out = vec![];
    while v.iter().any(|x| *x != 0) {
        let mut rem = 0u128;
        for x in v.iter_mut().rev() {
            let cur = rem << 64 | *x as u128;
            *x = (cur / 10_000_000_000_000_000_000) as u64;
            rem = cur % 10_000_000_000_000_000_000;
        }
        out.push(rem as u64);
    }
    let mut s = String::new();
    for (i, c) in out.iter().rev().enumerate() {
        if i == 0 {
            s += &c.to_string();
        } else {
            s += &format!("{:019}", c);
        }
    }
    if s.is_empty() {
        s.push('0');
    }
    s
}
pub fn hex(a: &[u64]) -> String {
    let mut s = String::from("0x");
    for w in a.iter().rev() {
        s += &format!("{:016x}", w);
    }
    s
}

/// Arithmetic modulo an odd prime above 2^192 (Barrett, HAC 14.42 with base 2^64).
pub struct Mod {
    pub p: U4,
    mu: [u64; 5],
    /// 2^256 mod p and its inverse
    pub rr: U4,
    pub rinv: U4,
}

impl Mod {
    pub fn new(p: U4) -> Mod {
        assert!(p[3] != 0);
        // floor(2^512 / p): divide 2^512 - 1 (p does not divide 2^512).
        let (q, _) = divrem(&[u64::MAX; 8], &p);
        let mu = [q[0], q[1], q[2], q[3], q[4]];
        assert!(q[5] == 0);
        let (_, rr) = divrem(&[0, 0, 0, 0, 1, 0, 0, 0], &p);
        let mut m = Mod { p, mu, rr, rinv: Z4 };
        m.rinv = m.inv(&rr).unwrap();
        m
    }
    pub fn reduce(&self, x: &U8) -> U4 {
        let mut q2 = [0u64; 10];
        mul_into(&mut q2, &x[3..8], &self.mu);
        let q3 = &q2[5..10];
        let mut t = [0u64; 5];
        mul_into(&mut t, q3, &self.p);
        let mut r = [x[0], x[1], x[2], x[3], x[4]];
        sub_from(&mut r, &t);
        while !lt(&r, &self.p) {
            sub_from(&mut r, &self.p);
        }
        [r[0], r[1], r[2], r[3]]
    }
    pub fn red4(&self, x: &U4) -> U4 {
        self.reduce(&wide(x))
    }
    pub fn add(&self, a: &U4, b: &U4) -> U4 {
        let (mut x, c) = add4(a, b);
        if c || !lt(&x, &self.p) {
            sub_from(&mut x, &self.p);
        }
        x
    }
    pub fn sub(&self, a: &U4, b: &U4) -> U4 {
        let (mut x, br) = sub4(a, b);
        if br {
            add_to(&mut x, &self.p);
        }
        x
    }
    pub fn neg(&self, a: &U4) -> U4 {
        self.sub(&Z4, a)
    }
    pub fn mul(&self, a: &U4, b: &U4) -> U4 {
        self.reduce(&mul4(a, b))
    }
    pub fn pow(&self, a: &U4, e: &[u64]) -> U4 {
        let mut r = ONE4;
        for i in (0..e.len() * 64).rev() {
            r = self.mul(&r, &r);
            if bit(e, i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: &U4) -> Option<U4> {
        if *a == Z4 {
            return None;
        }
        // Fermat
        let (e, _) = sub4(&self.p, &[2, 0, 0, 0]);
        Some(self.pow(a, &e))
    }
    /// value -> Montgomery residue and back
    pub fn to_mont(&self, v: &U4) -> U4 {
        self.mul(v, &self.rr)
    }
    pub fn from_mont(&self, r: &U4) -> U4 {
        self.mul(r, &self.rinv)
    }
}

pub static FQ: LazyLock<Mod> = LazyLock::new(|| Mod::new(P));
pub static FR: LazyLock<Mod> = LazyLock::new(|| Mod::new(R));

pub fn shr1(a: &U4) -> U4 {
    let mut o = [0; 4];
    for i in 0..4 {
        o[i] = a[i] >> 1 | if i < 3 { a[i + 1] << 63 } else { 0 };
    }
    o
}
