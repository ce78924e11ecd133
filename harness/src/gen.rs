//! Hostile input generators.
use crate::refcurve::*;
use crate::refmath::*;
use crate::reftower::*;
use crate::rt::Prng;
use crate::sut::*;
use std::sync::LazyLock;

pub fn limb(r: &mut Prng) -> u64 {
    match r.below(16) {
        0 | 1 => 0,
        2 | 3 => u64::MAX,
        4 => 1,
        5 => u64::MAX - 1,
        6 => 1 << 63,
        7 => (1 << 32) - 1,
        8 => 1 << 32,
        9 => u64::MAX << 32,
        10 => r.u64() & 0xffff_ffff,
        11 => r.u64() << 32,
        12 => 1 << r.below(64),
        13 => !(1 << r.below(64)),
        14 => {
            let m = if r.chance(1, 2) { &P } else { &R };
            let x = m[r.us(4)];
            x.wrapping_add(r.below(3)).wrapping_sub(1)
        }
        _ => r.u64(),
    }
}
pub fn uniform4(r: &mut Prng) -> U4 {
    [r.u64(), r.u64(), r.u64(), r.u64()]
}
fn pow2(k: u64) -> U4 {
    let mut o = Z4;
    o[(k / 64) as usize] = 1 << (k % 64);
    o
}
/// Changes of two words (added, else by exclusive or) that cancel in some sum of the words or of
/// their differences.
pub fn cancelling(r: &mut Prng, u: u64, w: u64) -> ((u64, bool), (u64, bool)) {
    let d = match r.below(5) {
        0 => 1 << 63,
        1 => 1 << r.below(64),
        2 => u ^ w,
        3 => r.below(1 << 8),
        _ => r.u64(),
    };
    match r.below(4) {
        0 => ((d, false), (d, false)),
        1 => ((d, false), (d.wrapping_neg(), false)),
        2 => ((d, true), (d.wrapping_neg(), true)),
        _ => ((d, false), (!d, false)),
    }
}
pub fn changed(w: u64, by: (u64, bool)) -> u64 {
    if by.1 {
        w.wrapping_add(by.0)
    } else {
        w ^ by.0
    }
}
/// x with such changes in two of its words.
pub fn cancelled(r: &mut Prng, x: &U4) -> U4 {
    let mut x = *x;
    let i = r.us(4);
    let j = (i + 1 + r.us(3)) % 4;
    let (a, b) = cancelling(r, x[i], x[j]);
    x[i] = changed(x[i], a);
    x[j] = changed(x[j], b);
    x
}
/// Any 256-bit integer.
pub fn any4(r: &mut Prng) -> U4 {
    match r.below(9) {
        8 => {
            // mistaken for zero, one or a modulus where words are compared summarily
            let base = *r.pick(&[Z4, ONE4, P, R, FQ.rr, FR.rr]);
            let mut x = cancelled(r, &base);
            if r.chance(1, 3) {
                x = cancelled(r, &x);
            }
            x
        }
        0 => uniform4(r),
        1 | 2 | 3 => [limb(r), limb(r), limb(r), limb(r)],
        4 => {
            // runs of ones
            let (a, b) = (r.below(256), r.below(256));
            let (x, _) = sub4(&pow2(a), &pow2(b));
            x
        }
        5 => {
            let m = if r.chance(1, 2) { &P } else { &R };
            near_multiple(r, m)
        }
        6 => {
            let mut o = Z4;
            for _ in 0..1 + r.below(4) {
                o[r.us(4)] |= 1 << r.below(64);
            }
            if r.chance(1, 3) {
                for x in o.iter_mut() {
                    *x = !*x;
                }
            }
            o
        }
        _ => {
            let k = r.below(257);
            let mut o = uniform4(r);
            // k random low bits
            for i in 0..4 {
                let lo = 64 * i as u64;
                if k <= lo {
                    o[i] = 0;
                } else if k < lo + 64 {
                    o[i] &= (1u64 << (k - lo)) - 1;
                }
            }
            o
        }
    }
}
/// j*m + small, wrapping.
pub fn near_multiple(r: &mut Prng, m: &U4) -> U4 {
    let mut x = Z4;
    for _ in 0..r.below(7) {
        x = add4(&x, m).0;
    }
    jitter(r, &x)
}
pub fn jitter(r: &mut Prng, x: &U4) -> U4 {
    let d = match r.below(4) {
        0 => 0,
        1 => 1,
        2 => r.below(4),
        _ => r.below(1 << 20),
    };
    if r.chance(1, 2) {
        add4(x, &[d, 0, 0, 0]).0
    } else {
        sub4(x, &[d, 0, 0, 0]).0
    }
}
/// An integer below m with extreme structure (m has its top word set).
pub fn below(r: &mut Prng, m: &Mod) -> U4 {
    loop {
        let x = match r.below(12) {
            10 => {
                // the low bits of a small multiple of the modulus, or of its negative: long and
                // short runs of halvings in an inversion
                let k = 1 + r.below(254);
                let mut x = Z4;
                for _ in 0..1 + r.below(4) {
                    x = add4(&x, &m.p).0;
                }
                if r.chance(1, 2) {
                    x = sub4(&Z4, &x).0;
                }
                for i in 0..4u64 {
                    let lo = 64 * i;
                    if k <= lo {
                        x[i as usize] = 0;
                    } else if k < lo + 64 {
                        x[i as usize] &= (1u64 << (k - lo)) - 1;
                    }
                }
                x
            }
            11 => {
                // near a fraction of the modulus: a large quotient early or late in the Euclidean algorithm
                let most = if r.chance(1, 2) { 20 } else { 1 << 30 };
                let b = 2 + r.below(most);
                let a = 1 + r.below(b - 1);
                let (q, _) = divrem(&mul4(&m.p, &[a, 0, 0, 0]), &[b, 0, 0, 0]);
                let x = low4(&q);
                jitter(r, &x)
            }
            0 => m.red4(&uniform4(r)),
            1 => [r.below(4), 0, 0, 0],
            2 => sub4(&m.p, &[1 + r.below(4), 0, 0, 0]).0,
            3 => {
                let h = shr1(&m.p);
                jitter(r, &h)
            }
            4 => {
                // constants of the representation: 2^256, 2^512, 2^768 mod p, inverses
                let mut x = m.rr;
                for _ in 0..r.below(3) {
                    x = m.mul(&x, &m.rr);
                }
                if r.chance(1, 4) {
                    x = m.rinv;
                }
                if r.chance(1, 2) {
                    x = m.neg(&x);
                }
                x
            }
            5 => {
                // shares its top words with p
                let mut x = m.p;
                let k = r.us(4);
                for i in 0..=k {
                    x[i] = limb(r);
                }
                x
            }
            _ => any4(r),
        };
        if lt(&x, &m.p) {
            return x;
        }
        if r.chance(1, 2) {
            return m.red4(&x);
        }
    }
}
/// A value whose integer or whose residue is extreme.
pub fn elem(r: &mut Prng, m: &Mod) -> U4 {
    let x = below(r, m);
    if r.chance(1, 2) {
        m.from_mont(&x)
    } else {
        x
    }
}
/// A value related to a.
pub fn related(r: &mut Prng, m: &Mod, a: &U4) -> (U4, &'static str) {
    match r.below(12) {
        0 => (*a, "equal"),
        1 => (m.neg(a), "negative"),
        2 => (m.inv(a).unwrap_or(Z4), "inverse"),
        3 => (m.add(a, a), "double"),
        4 => (m.add(a, &[r.below(4), 0, 0, 0]), "near"),
        5 => {
            // same residue but for some words
            let mut x = m.to_mont(a);
            if r.chance(1, 3) {
                x = cancelled(r, &x);
            } else {
                for _ in 0..1 + r.below(3) {
                    x[r.us(4)] = limb(r);
                }
            }
            (m.from_mont(&m.red4(&x)), "shared-words")
        }
        6 => {
            // product is extreme
            let t = elem(r, m);
            match m.inv(a) {
                Some(i) => (m.mul(&t, &i), "product"),
                None => (t, "any"),
            }
        }
        7 => {
            // sum of residues is extreme
            let t = below(r, m);
            (m.from_mont(&m.sub(&t, &m.to_mont(a))), "sum")
        }
        8 => {
            // difference of residues is extreme
            let t = below(r, m);
            (m.from_mont(&m.sub(&m.to_mont(a), &t)), "difference")
        }
        9 => {
            // the unreduced product of the residues has extreme upper words
            let ra = m.to_mont(a);
            if lt(&ra, &[0, 0, 0, 1]) {
                return (elem(r, m), "any");
            }
            let mut t = [0u64; 8];
            for w in t.iter_mut() {
                *w = limb(r);
            }
            t[7] &= u64::MAX >> 4;
            if r.chance(1, 2) {
                t[5] = u64::MAX;
                t[6] = u64::MAX;
            }
            let (q, _) = divrem(&t, &ra);
            (m.from_mont(&m.red4(&low4(&q))), "wide-product")
        }
        _ => (elem(r, m), "any"),
    }
}

pub fn rq(r: &mut Prng) -> Rq {
    Rq(elem(r, &FQ))
}
pub fn scalar(r: &mut Prng) -> U4 {
    elem(r, &FR)
}
/// Scalar whose integer value is extreme (for multiplication and powers).
pub fn exponent(r: &mut Prng) -> U4 {
    match r.below(10) {
        0 => FR.red4(&uniform4(r)),
        1 => [r.below(20), 0, 0, 0],
        2 => sub4(&R, &[1 + r.below(20), 0, 0, 0]).0,
        3 => {
            // 2^k and neighbours
            let x = pow2(r.below(254));
            let x = jitter(r, &x);
            FR.red4(&x)
        }
        4 => {
            // repeated nibbles/bytes
            let b = r.u64() & if r.chance(1, 2) { 0xff } else { 0xf };
            let w = if b < 16 { b * 0x1111_1111_1111_1111 } else { b * 0x0101_0101_0101_0101 };
            let mut x = [w; 4];
            for i in (0..4).rev() {
                if r.chance(1, 3) {
                    x[i] = 0;
                }
            }
            FR.red4(&x)
        }
        5 => {
            // eigenvalue of the curve automorphism and relatives
            let l = lambda();
            let x = FR.mul(&l, &[r.below(4), 0, 0, 0]);
            if r.chance(1, 2) {
                FR.neg(&x)
            } else {
                FR.add(&x, &[r.below(3), 0, 0, 0])
            }
        }
        6 => {
            let k = 1 + r.below(253);
            let x = uniform4(r);
            let mask = sub4(&pow2(k), &ONE4).0;
            let mut o = Z4;
            for i in 0..4 {
                o[i] = x[i] & mask[i];
            }
            FR.red4(&o)
        }
        7 => {
            // (r +- 1)/2 and thirds
            let h = shr1(&R);
            let x = jitter(r, &h);
            FR.red4(&x)
        }
        _ => below(r, &FR),
    }
}
/// Cube root of unity mod r.
pub fn lambda() -> U4 {
    static L: LazyLock<U4> = LazyLock::new(|| {
        let (e, _) = sub4(&R, &ONE4);
        let (q, _) = divrem(&wide(&e), &[3, 0, 0, 0]);
        let mut g = 2u64;
        loop {
            let l = FR.pow(&[g, 0, 0, 0], &q[..4]);
            if l != ONE4 {
                return l;
            }
            g += 1;
        }
    });
    *L
}

pub trait GenField: SField {
    fn gen(r: &mut Prng) -> Self;
    fn root(&self) -> Option<Self>;
    fn gen_nz(r: &mut Prng) -> Self {
        loop {
            let x = Self::gen(r);
            if !x.is_zero() {
                return x;
            }
        }
    }
}
impl GenField for Rq {
    fn gen(r: &mut Prng) -> Self {
        rq(r)
    }
    fn root(&self) -> Option<Self> {
        self.sqrt()
    }
}
impl GenField for Rq2 {
    fn gen(r: &mut Prng) -> Self {
        let a = rq(r);
        match r.below(6) {
            0 => Rq2(a, Rq::zero()),
            1 => Rq2(Rq::zero(), a),
            2 => Rq2(a, Rq(related(r, &FQ, &a.0).0)),
            _ => Rq2(a, rq(r)),
        }
    }
    fn root(&self) -> Option<Self> {
        self.sqrt()
    }
}

/// A point with its affine coordinates (None: infinity) and, if known, its discrete logarithm.
#[derive(Clone, Copy, Debug)]
pub struct GP<C: Curve> {
    pub a: Option<(C::F, C::F)>,
    pub k: Option<U4>,
}
impl<C: Curve> GP<C> {
    pub fn pt(&self) -> Pt<C> {
        match &self.a {
            Some((x, y)) => Pt::affine(*x, *y),
            None => Pt::inf(),
        }
    }
    pub fn of_k(k: &U4) -> Self {
        GP { a: Pt::<C>::gen_mul(k).to_affine(), k: Some(*k) }
    }
    pub fn neg(&self) -> Self {
        GP { a: self.a.map(|(x, y)| (x, y.neg())), k: self.k.map(|k| FR.neg(&k)) }
    }
}

pub trait GenCurve: Curve {
    /// A point found from an extreme x coordinate, if this curve allows that cheaply.
    fn by_x(r: &mut Prng) -> Option<GP<Self>>;
    /// (x, y) -> (beta x, y)
    fn endo(p: &GP<Self>, twice: bool) -> GP<Self>;
}
impl GenCurve for C1 {
    fn by_x(r: &mut Prng) -> Option<GP<C1>> {
        for _ in 0..20 {
            if r.chance(1, 3) {
                // extreme y
                let y = rq(r);
                let c = y.sq().sub(&Rq::small(3));
                if let Some(x) = cbrt(&c) {
                    let k = r.below(3);
                    let mut x = x;
                    for _ in 0..k {
                        x = x.mul(&beta());
                    }
                    return Some(GP { a: Some((x, y)), k: None });
                }
            } else {
                let x = rq(r);
                if let Some(y) = x.sq().mul(&x).add(&Rq::small(3)).sqrt() {
                    let y = if r.chance(1, 2) { y.neg() } else { y };
                    return Some(GP { a: Some((x, y)), k: None });
                }
            }
        }
        None
    }
    fn endo(p: &GP<C1>, twice: bool) -> GP<C1> {
        let b = if twice { beta().sq() } else { beta() };
        GP { a: p.a.map(|(x, y)| (x.mul(&b), y)), k: None }
    }
}
/// A cube root in Fq (9 divides p - 1, 27 does not), if there is one.
fn cbrt(c: &Rq) -> Option<Rq> {
    static E: LazyLock<(U4, Rq)> = LazyLock::new(|| {
        let (pm1, _) = sub4(&P, &ONE4);
        let t = low4(&divrem(&wide(&pm1), &[9, 0, 0, 0]).0);
        // e = 1/3 mod t
        let mut x = Z4;
        let e = loop {
            x = add4(&x, &t).0;
            let (q, rem) = divrem(&wide(&add4(&x, &ONE4).0), &[3, 0, 0, 0]);
            if rem == Z4 {
                break low4(&q);
            }
        };
        let mut g = 2;
        let z9 = loop {
            let z = Rq::small(g).pow(&t);
            if z.sq().mul(&z) != Rq::one() {
                break z;
            }
            g += 1;
        };
        (e, z9)
    });
    let mut x = c.pow(&E.0);
    for _ in 0..3 {
        if x.sq().mul(&x) == *c {
            return Some(x);
        }
        x = x.mul(&E.1);
    }
    None
}
impl GenCurve for C2 {
    fn by_x(_r: &mut Prng) -> Option<GP<C2>> {
        None
    }
    fn endo(p: &GP<C2>, twice: bool) -> GP<C2> {
        let b = if twice { beta().sq() } else { beta() };
        GP { a: p.a.map(|(x, y)| (x.scale(&b), y)), k: None }
    }
}

pub fn point<C: GenCurve>(r: &mut Prng) -> GP<C> {
    match r.below(12) {
        0 => GP { a: None, k: Some(Z4) },
        1 => GP::of_k(&ONE4),
        2 => GP::of_k(&FR.neg(&ONE4)),
        3 => GP::of_k(&exponent(r)),
        4 | 5 | 6 => {
            if let Some(p) = C::by_x(r) {
                return p;
            }
            GP::of_k(&exponent(r))
        }
        7 => GP::of_k(&[1 + r.below(50), 0, 0, 0]),
        _ => GP::of_k(&FR.red4(&uniform4(r))),
    }
}
pub fn point_nz<C: GenCurve>(r: &mut Prng) -> GP<C> {
    loop {
        let p = point(r);
        if p.a.is_some() {
            return p;
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Zk {
    One,
    MinusOne,
    Extreme,
    /// infinity as the library's zero()
    InfCanon,
    /// infinity with leftover coordinates t^2, t^3 as P - P leaves them
    InfLeft,
}

/// A Jacobian representation of the point; `z` forces the z coordinate.
pub fn rep<F: GenField>(r: &mut Prng, a: &Option<(F, F)>, z: Option<F>) -> (Jac<F>, Zk) {
    match a {
        None => match r.below(3) {
            0 => (Jac(F::zero(), F::one(), F::zero()), Zk::InfCanon),
            1 => {
                // x^3 = y^2 as the library's own formulas leave them
                let t = F::gen_nz(r);
                (Jac(t.sq(), t.sq().mul(&t), F::zero()), Zk::InfLeft)
            }
            _ => {
                let t = F::gen_nz(r);
                (Jac(t.sq(), t.sq().mul(&t).neg(), F::zero()), Zk::InfLeft)
            }
        },
        Some((x, y)) => {
            let (z, k) = match z {
                Some(z) => (z, Zk::Extreme),
                None => match r.below(6) {
                    0 | 1 => (F::one(), Zk::One),
                    2 => (F::one().neg(), Zk::MinusOne),
                    _ => (F::gen_nz(r), Zk::Extreme),
                },
            };
            let z2 = z.sq();
            (Jac(x.mul(&z2), y.mul(&z2).mul(&z), z), k)
        }
    }
}

/// Bring a point into the library: decoded from a representation, or computed there.
pub fn inject<G: SGroup>(r: &mut Prng, p: &GP<G::C>, j: &Jac<G::F>) -> Res<G>
where
    G::F: GenField,
{
    // Routes that compute leave the representation to the library.
    match (r.below(10), &p.k, &p.a) {
        (0, _, None) => Ok(G::zero()),
        (1, _, None) => {
            let g = G::one() * fr_of_val(&[1 + r.below(9), 0, 0, 0])?;
            Ok(if r.chance(1, 2) { g - g } else { (-g) + g })
        }
        (2, _, None) => Ok(G::one() * Fr::zero()),
        (0, Some(k), Some(_)) => Ok(G::one() * fr_of_val(k)?),
        (1, Some(k), Some(_)) if *k == ONE4 => Ok(G::one()),
        _ => g_of_jac(j),
    }
}

/// An element of Fq12 with structure.
pub fn rq12(r: &mut Prng) -> Rq12 {
    let mut c = [Rq::zero(); 12];
    match r.below(13) {
        k @ 10..=12 => {
            // parts that are equal, opposite, or sum up to zero
            for x in c.iter_mut() {
                *x = rq(r);
            }
            let minus = r.chance(1, 2);
            let of = |x: Rq| if minus { x.neg() } else { x };
            match k {
                10 => (0..6).for_each(|i| c[i + 6] = of(c[i])),
                11 => (0..6).for_each(|i| c[2 * i + 1] = of(c[2 * i])),
                _ => [0, 1, 6, 7].iter().for_each(|i| c[i + 4] = of(c[*i].add(&c[i + 2]))),
            }
        }
        0 => c[0] = rq(r),
        1 => {
            c[r.us(12)] = rq(r);
        }
        2 => {
            c[0] = rq(r);
            c[1] = rq(r);
        }
        3 => {
            for x in c.iter_mut().take(6) {
                *x = rq(r);
            }
        }
        4 => {
            for x in c.iter_mut().skip(6) {
                *x = rq(r);
            }
        }
        5 => {
            // sparse as lines are
            for i in [0, 1, 4, 5, 8, 9] {
                c[i] = rq(r);
            }
        }
        6 => {
            let v = rq(r);
            for x in c.iter_mut() {
                *x = if r.chance(1, 2) { v } else { v.neg() };
            }
        }
        7 => {
            for x in c.iter_mut() {
                if r.chance(1, 3) {
                    *x = rq(r);
                }
            }
        }
        _ => {
            for x in c.iter_mut() {
                *x = rq(r);
            }
        }
    }
    let v = Rq12::from_tower(&c);
    if v.is_zero() {
        Rq12::one()
    } else {
        v
    }
}
