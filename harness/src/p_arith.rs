//! C13 the public wide integers.
use crate::ensure;
use crate::gen::*;
use crate::refmath::*;
use crate::rt::*;
use crate::sut::*;
use rabe_bn::arith::{U256, U512};

fn top_clear(m: &mut U4) {
    m[3] &= u64::MAX >> 1;
}
/// An odd modulus below 2^255, at least 3.
fn odd_mod(r: &mut Prng) -> U4 {
    let mut m = match r.below(8) {
        0 => P,
        1 => R,
        2 => {
            // near the upper end
            let (x, _) = sub4(&[0, 0, 0, 1 << 63], &[1 + 2 * r.below(300), 0, 0, 0]);
            x
        }
        3 => [3 + r.below(100), 0, 0, 0],
        4 => [r.u64(), if r.chance(1, 2) { r.u64() } else { 0 }, 0, 0],
        _ => any4(r),
    };
    top_clear(&mut m);
    m[0] |= 1;
    if m == ONE4 {
        m[0] = 3;
    }
    m
}
fn any_mod(r: &mut Prng) -> U4 {
    if r.chance(1, 2) {
        return odd_mod(r);
    }
    let mut m = any4(r);
    if r.chance(1, 6) {
        m = Z4;
        m[r.us(4)] = 1 << r.below(64);
    }
    top_clear(&mut m);
    if m == Z4 {
        m = [1 + r.below(3), 0, 0, 0];
    }
    m
}
fn red(x: &U4, m: &U4) -> U4 {
    divrem(&wide(x), m).1
}
/// Below m, with structure.
fn operand(r: &mut Prng, m: &U4) -> U4 {
    let x = match r.below(8) {
        0 => [r.below(3), 0, 0, 0],
        1 => return sub4(m, &[1 + r.below(3).min(m[0].wrapping_sub(1).min(2)), 0, 0, 0]).0,
        2 => shr1(m),
        3 => {
            let mut x = *m;
            let k = r.us(4);
            for i in 0..=k {
                x[i] = limb(r);
            }
            x
        }
        _ => any4(r),
    };
    if lt(&x, m) {
        x
    } else {
        red(&x, m)
    }
}
fn neg_inv(m: &U4) -> u64 {
    // -m^-1 mod 2^64
    let mut x = 1u64;
    for _ in 0..6 {
        x = x.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(x)));
    }
    x.wrapping_neg()
}
fn is(got: &U256, want: &U4, what: impl Fn() -> String) -> Res {
    if got.0 != *want {
        return Err(format!("{}: got {}, expected {}", what(), hex(&got.0), hex(want)));
    }
    Ok(())
}
fn mulmod(a: &U4, b: &U4, m: &U4) -> U4 {
    divrem(&mul4(a, b), m).1
}

fn modular(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let m = odd_mod(r);
    let a = operand(r, &m);
    let b = match r.below(6) {
        0 => a,
        1 => {
            let (x, _) = sub4(&m, &a);
            if a == Z4 {
                Z4
            } else {
                x
            }
        }
        2 => {
            // a + b around m
            let (x, _) = sub4(&m, &a);
            let y = jitter(r, &x);
            red(&y, &m)
        }
        _ => operand(r, &m),
    };
    let um = U256(m);
    let w = |o: &str| format!("{} {} {} mod {}", hex(&a), o, hex(&b), hex(&m));
    let sum = {
        let (s, _) = add4(&a, &b);
        if lt(&s, &m) {
            s
        } else {
            sub4(&s, &m).0
        }
    };
    let mut x = U256(a);
    x.add(&U256(b), &um);
    is(&x, &sum, || w("+"))?;
    let diff = if lt(&a, &b) { sub4(&add4(&a, &m).0, &b).0 } else { sub4(&a, &b).0 };
    let mut x = U256(a);
    x.sub(&U256(b), &um);
    is(&x, &diff, || w("-"))?;
    let mut x = U256(a);
    x.neg(&um);
    is(&x, &if a == Z4 { Z4 } else { sub4(&m, &a).0 }, || format!("-{} mod {}", hex(&a), hex(&m)))?;
    // Montgomery product: x * 2^256 = a * b (mod m), x < m
    let inv = neg_inv(&m);
    let mut x = U256(a);
    x.mul(&U256(b), &um, inv);
    ensure!(lt(&x.0, &m), "{} is {}, not reduced", w("Montgomery *"), hex(&x.0));
    let lhs = divrem(&[0, 0, 0, 0, x.0[0], x.0[1], x.0[2], x.0[3]], &m).1;
    ensure!(lhs == mulmod(&a, &b, &m), "{} is {}", w("Montgomery *"), hex(&x.0));
    c.sig(&m);
    c.sig(&a);
    c.sig(&b);
    if a != Z4 && b != Z4 {
        c.nontrivial();
    }
    if m != P && m != R {
        c.count("modulus:other");
    }
    c.sample(|| w("+ - *"));
    Ok(())
}

fn gcd1(a: &U4, m: &U4) -> bool {
    // m odd
    let (mut u, mut v) = (*a, *m);
    if u == Z4 {
        return false;
    }
    loop {
        while u[0] & 1 == 0 {
            u = shr1(&u);
        }
        if lt(&u, &v) {
            std::mem::swap(&mut u, &mut v);
        }
        u = sub4(&u, &v).0;
        if u == Z4 {
            return v == ONE4;
        }
    }
}

fn invert(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let m = odd_mod(r);
    let a = operand(r, &m);
    if !gcd1(&a, &m) {
        c.count("invert:skipped-not-coprime");
        return Ok(());
    }
    let mut x = U256(a);
    x.invert(&U256(m));
    ensure!(lt(&x.0, &m), "inverse of {} mod {} is {}, not reduced", hex(&a), hex(&m), hex(&x.0));
    ensure!(mulmod(&a, &x.0, &m) == red(&ONE4, &m), "inverse of {} mod {} is {}", hex(&a), hex(&m), hex(&x.0));
    c.sig(&m);
    c.sig(&a);
    c.nontrivial();
    c.sample(|| format!("inverse of {} mod {}", hex(&a), hex(&m)));
    Ok(())
}

fn compose(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (c1, c0, m) = (any4(r), any4(r), any4(r));
    let x = U512::from(&U256(c1), &U256(c0), &U256(m));
    let mut want = mul4(&c1, &m);
    add_to(&mut want, &c0);
    ensure!(x.0 == want, "{} * {} + {} is {}", hex(&c1), hex(&m), hex(&c0), hex(&x.0));
    c.sig(&c1);
    c.sig(&c0);
    c.sig(&m);
    if c1 != Z4 && m != Z4 {
        c.nontrivial();
    }
    c.sample(|| format!("{} * {} + {}", hex(&c1), hex(&m), hex(&c0)));
    Ok(())
}

fn division(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let m = any_mod(r);
    let x: U8 = match r.below(7) {
        0 => {
            // q*m + s around the limits of q and s
            let q = if r.chance(1, 2) { operand(r, &m) } else { jitter(r, &m) };
            let mut t = mul4(&q, &m);
            let s = operand(r, &m);
            add_to(&mut t, &s);
            t
        }
        1 => {
            let q = any4(r);
            let mut t = mul4(&q, &m);
            if r.chance(1, 2) {
                sub_from(&mut t, &[1]);
            }
            t
        }
        2 => {
            // m^2 and neighbours
            let mut t = mul4(&m, &m);
            if r.chance(1, 2) {
                sub_from(&mut t, &[r.below(3)]);
            } else {
                add_to(&mut t, &[r.below(3)]);
            }
            t
        }
        3 => wide(&any4(r)),
        4 => [limb(r), limb(r), limb(r), limb(r), limb(r), limb(r), limb(r), limb(r)],
        5 => {
            let mut t = [0; 8];
            for _ in 0..1 + r.below(3) {
                t[r.us(8)] |= 1 << r.below(64);
            }
            t
        }
        _ => [r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64()],
    };
    let (q, rem) = U512(x).divrem(&U256(m));
    let (rq, rr) = divrem(&x, &m);
    // the reference checks itself
    let mut back = [0u64; 12];
    mul_into(&mut back, &rq, &m);
    let mut b8 = [0u64; 8];
    b8.copy_from_slice(&back[..8]);
    add_to(&mut b8, &rr);
    assert!(b8 == x && lt(&rr, &m));
    is(&rem, &rr, || format!("{} mod {}", hex(&x), hex(&m)))?;
    let small = rq[4..] == [0; 4] && lt(&rq, &m);
    match q {
        Some(q) => {
            ensure!(small, "{} / {} is at least the modulus, but a quotient {} is given", hex(&x), hex(&m), hex(&q.0));
            is(&q, &low4(&rq), || format!("{} / {}", hex(&x), hex(&m)))?;
            c.count("divrem:quotient");
        }
        None => {
            ensure!(!small, "{} / {} has a quotient below the modulus, but none is given", hex(&x), hex(&m));
            c.count("divrem:no-quotient");
        }
    }
    c.sig(&x);
    c.sig(&m);
    if !lt(&x, &m) {
        c.nontrivial();
    }
    c.sample(|| format!("{} divided by {}", hex(&x), hex(&m)));
    Ok(())
}

/// Words whose number is announced as told.
pub struct Hinted<'a>(pub &'a [u64], pub (usize, Option<usize>));
impl Iterator for Hinted<'_> {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        let (x, rest) = self.0.split_first()?;
        self.0 = rest;
        Some(*x)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
/// Reads all of an integer, branching on it.
trait Seen {
    fn is_seen(&self) -> bool;
}
impl Seen for U512 {
    fn is_seen(&self) -> bool {
        let mut odd = false;
        for w in &self.0 {
            if w.count_ones() & 1 == 1 {
                odd = !odd;
            }
        }
        odd
    }
}

fn bits(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let a = any4(r);
    let u = U256(a);
    let bs: Vec<bool> = u.bits().collect();
    ensure!(bs.len() == 256, "bits() of {} yields {}", hex(&a), bs.len());
    for (i, b) in bs.iter().enumerate() {
        ensure!(*b == bit(&a, 255 - i), "bit {} from the top of {}", i, hex(&a));
    }
    {
        // the iterator stays exhausted
        let mut it = u.bits();
        while it.next().is_some() {}
        ensure!(it.next().is_none(), "bits() goes on after its end");
    }
    {
        // driven by the iterator's other methods
        let k = r.us(260);
        let from = |k: usize| if k < 256 { Some(bs[k]) } else { None };
        ensure!(u.bits().nth(k) == from(k), "bits().nth({}) of {}", k, hex(&a));
        let mut it = u.bits();
        for i in 0..k.min(256) {
            ensure!(it.next() == Some(bs[i]), "bit {} from the top of {}", i, hex(&a));
        }
        let (lo, hi) = it.size_hint();
        let left = 256 - k.min(256);
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size hint {:?} with {} bits left", (lo, hi), left);
        let rest: Vec<bool> = it.collect();
        ensure!(rest == bs[k.min(256)..], "bits after the first {} of {}", k, hex(&a));
        ensure!(u.bits().count() == 256 && u.bits().last() == Some(bs[255]), "count or last of the bits of {}", hex(&a));
        let ones = u.bits().fold(0, |n, b| n + b as u32);
        ensure!(ones == a.iter().map(|w| w.count_ones()).sum::<u32>(), "fold over the bits of {}", hex(&a));
        ensure!(u.bits().skip_while(|b| !b).eq(bs.iter().cloned().skip_while(|b| !b)), "skip_while over the bits of {}", hex(&a));
        // interleaved iterators are independent
        let (mut x, mut y) = (u.bits(), u.bits());
        for i in 0..256 {
            ensure!(x.next() == Some(bs[i]), "two iterators over {} disturb each other", hex(&a));
            if i % 3 == 0 {
                ensure!(y.next() == Some(bs[i / 3]), "two iterators over {} disturb each other", hex(&a));
            }
        }
    }
    for i in 0..256 {
        ensure!(u.get_bit(i) == Some(bit(&a, i)), "get_bit({}) of {}", i, hex(&a));
    }
    for i in [256usize, 257, 319, 320, 511, 512, 1 << 20, usize::MAX, usize::MAX - 63, 256 + r.us(1 << 16)] {
        ensure!(u.get_bit(i).is_none(), "get_bit({}) of {} is not None", i, hex(&a));
        for to in [false, true] {
            let mut v = u;
            ensure!(!v.set_bit(i, to) && v.0 == a, "set_bit({}, {}) of {}", i, to, hex(&a));
        }
    }
    for _ in 0..24 {
        let i = match r.below(3) {
            0 => *r.pick(&[0usize, 31, 32, 63, 64, 127, 128, 191, 192, 254, 255]),
            _ => r.us(256),
        };
        for to in [false, true] {
            let mut v = u;
            let ok = v.set_bit(i, to);
            let mut want = a;
            if to {
                want[i / 64] |= 1 << (i % 64);
            } else {
                want[i / 64] &= !(1 << (i % 64));
            }
            ensure!(ok && v.0 == want, "set_bit({}, {}) of {} gives {} {}", i, to, hex(&a), ok, hex(&v.0));
        }
    }
    ensure!(u.is_zero() == (a == Z4), "is_zero of {}", hex(&a));
    ensure!(u.is_even() == (a[0] & 1 == 0), "is_even of {}", hex(&a));
    let z = [limb(r), limb(r), limb(r), limb(r), limb(r), limb(r), limb(r), limb(r)];
    let w = U512(z);
    for i in 0..512 {
        ensure!(w.get_bit(i) == Some(bit(&z, i)), "U512 get_bit({}) of {}", i, hex(&z));
    }
    for i in [512usize, 513, 575, 576, 1024, usize::MAX, 512 + r.us(1 << 16)] {
        ensure!(w.get_bit(i).is_none(), "U512 get_bit({}) is not None", i);
    }
    c.sig(&a);
    c.sig(&z);
    c.nontrivial();
    c.add("bits:read", 768 + 256);
    c.sample(|| format!("bits of {}", hex(&a)));
    Ok(())
}

fn order(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let a = any4(r);
    let b = match r.below(6) {
        0 => a,
        5 => cancelled(r, &a),
        1 => jitter(r, &a),
        2 => {
            let mut b = a;
            b[r.us(4)] = limb(r);
            b
        }
        3 => {
            let mut b = a;
            b.swap(r.us(4), r.us(4));
            b
        }
        _ => any4(r),
    };
    let (x, y) = (U256(a), U256(b));
    let o = cmp(&a, &b);
    let w = || format!("ordering of {} and {}", hex(&a), hex(&b));
    ensure!(x.cmp(&y) == o && x.partial_cmp(&y) == Some(o), "{}: {:?}", w(), x.cmp(&y));
    ensure!(y.cmp(&x) == o.reverse(), "{} reversed", w());
    ensure!((x == y) == o.is_eq() && (x < y) == o.is_lt() && (x <= y) == o.is_le(), "{} by operators", w());
    ensure!((x > y) == o.is_gt() && (x >= y) == o.is_ge(), "{} by operators", w());
    ensure!(x.max(y).0 == if o.is_lt() { b } else { a }, "{} by max", w());
    let (p, q) = ([limb(r), 0, 0, 0, 0, 0, 0, limb(r)], [limb(r), 0, 0, 0, 0, 0, 0, limb(r)]);
    ensure!((U512(p) == U512(q)) == (p == q), "U512 equality");
    c.sig(&a);
    c.sig(&b);
    c.nontrivial();
    c.count(if o.is_eq() { "order:equal" } else { "order:different" });
    Ok(())
}

fn bytes(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let a = any4(r);
    let b = be_bytes(&a);
    let u = U256::from_slice(&b).map_err(|e| format!("from_slice refused 32 bytes: {:?}", e))?;
    is(&u, &a, || "from_slice".into())?;
    ensure!(U256::from(a) == u, "From<[u64; 4]>");
    ensure!(u.into_bytes() == byte_form(&[a]), "into_bytes of {} is {:02x?}", hex(&a), u.into_bytes());
    let n = match r.below(4) {
        0 => 31,
        1 => 33,
        2 => r.us(32),
        _ => 33 + r.us(100),
    };
    let mut long = b.clone();
    long.resize(n, r.u64() as u8);
    match U256::from_slice(&long) {
        Err(rabe_bn::arith::Error::InvalidLength { expected: 32, actual }) if actual == n => {}
        o => return Err(format!("from_slice of {} bytes gives {:?}", n, o)),
    }
    let z = [limb(r), limb(r), limb(r), limb(r), limb(r), limb(r), r.u64(), limb(r)];
    let mut buf = [0u8; 64];
    buf.copy_from_slice(&be_bytes(&z));
    ensure!(U512::interpret(&buf).0 == z, "U512::interpret of {}", hex(&z));
    ensure!(U256::zero().0 == Z4 && U256::one().0 == ONE4, "zero/one");
    c.sig(&a);
    c.sig(&z);
    c.nontrivial();
    c.sample(|| format!("bytes of {}", hex(&a)));
    Ok(())
}

/// Two values whose written-out words are easily confused: digits moved across a word's border,
/// words exchanged, a leading or trailing zero more or less.
fn confusable(r: &mut Prng, a: &mut [u64], b: &mut [u64]) {
    let n = a.len();
    for w in a.iter_mut() {
        *w = match r.below(4) {
            0 => r.below(16),
            1 => r.below(1 << 12),
            2 => limb(r),
            _ => r.u64() >> (4 * r.below(16)),
        };
    }
    b.copy_from_slice(a);
    let (i, j) = (r.us(n), r.us(n));
    match r.below(10) {
        0 => {}
        7..=9 if i != j => {
            let (c, d) = cancelling(r, b[i], b[j]);
            b[i] = changed(b[i], c);
            b[j] = changed(b[j], d);
        }
        1 => b.swap(i, j),
        2 => {
            // one hexadecimal digit passes from a word to the next
            let j = (i + 1) % n;
            let d = b[j] >> (4 * ((63 - b[j].max(1).leading_zeros() as u64) / 4));
            b[i] = b[i] << 4 | d;
            b[j] &= !(15 << (4 * ((63 - b[j].max(1).leading_zeros() as u64) / 4)));
        }
        3 => b[i] ^= 1 << r.below(64),
        4 => b[i] <<= 4 * (1 + r.below(4)),
        5 => b[i] = b[i].swap_bytes(),
        _ => b[i] = limb(r),
    }
}

fn text(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (mut a, mut b, mut p, mut q) = (Z4, Z4, [0u64; 8], [0u64; 8]);
    confusable(r, &mut a, &mut b);
    confusable(r, &mut p, &mut q);
    let (x, y, v, w) = (U256(a), U256(b), U512(p), U512(q));
    let said = |same: bool, s: String, t: String, what: &str| -> Res {
        ensure!((s == t) == same, "{}: {} and {} for {} values", what, s, t, if same { "equal" } else { "different" });
        Ok(())
    };
    said(a == b, x.to_string(), y.to_string(), "display text of 256-bit integers")?;
    said(a == b, format!("{:?}", x), format!("{:?}", y), "debug text of 256-bit integers")?;
    said(p == q, v.to_string(), w.to_string(), "display text of 512-bit integers")?;
    said(p == q, format!("{:?}", v), format!("{:?}", w), "debug text of 512-bit integers")?;
    said(a == b, format!("{:#?}", x), format!("{:#?}", y), "long debug text of 256-bit integers")?;
    said(p == q, format!("{:#?}", v), format!("{:#?}", w), "long debug text of 512-bit integers")?;
    ensure!((v == w) == (p == q) && (v != w) == (p != q), "equality of {} and {}", hex(&p), hex(&q));
    ensure!((x == y) == (a == b) && (x != y) == (a != b), "equality of {} and {}", hex(&a), hex(&b));
    ensure!(x == x.clone() && v == v.clone() && x.clone().0 == a && v.clone().0 == p, "clones of {} and {}", hex(&a), hex(&p));
    // words collected into an integer: their little-endian bytes read as a big-endian number,
    // missing words as zero, further words ignored
    let n = match r.below(3) {
        0 => 8,
        1 => r.us(8),
        _ => 9 + r.us(12),
    };
    let words: Vec<u64> = (0..n).map(|i| if i < 8 { p[i] } else { limb(r) }).collect();
    let mut want = [0u64; 8];
    for i in 0..n.min(8) {
        want[7 - i] = p[i].swap_bytes();
    }
    let got: U512 = words.iter().cloned().collect();
    ensure!(got.0 == want, "collecting {:x?} gives {}", words, hex(&got.0));
    // whatever the iterator announces
    let far = *r.pick(&[usize::MAX, usize::MAX / 3, 1 << 20, n + 1]);
    for hint in [(0, None), (0, Some(n)), (0, Some(far)), (n, None), (n.min(1), Some(n)), (n / 2, Some(far))] {
        let got: U512 = Hinted(&words, hint).collect();
        ensure!(got.0 == want, "collecting {:x?} announced as {:?} gives {}", words, hint, hex(&got.0));
    }
    // what is announced may be wrong, which is the caller's fault, but no reason to touch other memory
    for hint in [(0, Some(0)), (n + 1 + r.us(60), None), (n + 1, Some(n + 1)), (0, Some(n / 2)), (9, Some(3))] {
        if let Ok(x) = guard(|| Hinted(&words, hint).collect::<U512>()) {
            std::hint::black_box(x.is_seen());
        }
    }
    c.sig(&a);
    c.sig(&b);
    c.sig(&p);
    c.nontrivial();
    c.count(if a == b { "text:equal" } else { "text:different" });
    c.sample(|| format!("texts of {} and {}", hex(&a), hex(&b)));
    Ok(())
}

pub fn families(prop: &str) -> Vec<Family> {
    let f = |name, f: CaseFn, quick, thorough| Family { name, f, quick, thorough };
    match prop {
        "C13" => vec![
            f("int-modular", modular, 400_000, 20_000_000),
            f("int-invert", invert, 150_000, 8_000_000),
            f("int-compose", compose, 600_000, 30_000_000),
            f("int-divrem", division, 300_000, 15_000_000),
            f("int-bits", bits, 100_000, 4_000_000),
            f("int-order", order, 600_000, 30_000_000),
            f("int-bytes", bytes, 300_000, 12_000_000),
            f("int-text", text, 150_000, 6_000_000),
        ],
        _ => vec![],
    }
}
