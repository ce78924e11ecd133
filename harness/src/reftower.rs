//! Reference extension fields: Fq2 = Fq[u]/(u^2+1), Fq12 = Fq2[w]/(w^6 - (9+u)),
//! all products schoolbook; an element of Fq12 is its six Fq2 coefficients in w.
use crate::refmath::*;
use std::sync::LazyLock;

pub trait RField: Copy + PartialEq + std::fmt::Debug {
    fn zero() -> Self;
    fn one() -> Self;
    fn add(&self, o: &Self) -> Self;
    fn sub(&self, o: &Self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn inv(&self) -> Option<Self>;
    fn neg(&self) -> Self {
        Self::zero().sub(self)
    }
    fn sq(&self) -> Self {
        self.mul(self)
    }
    fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
    fn pow(&self, e: &[u64]) -> Self {
        let mut r = Self::one();
        let mut started = false;
        for i in (0..e.len() * 64).rev() {
            if started {
                r = r.sq();
            }
            if bit(e, i) {
                r = r.mul(self);
                started = true;
            }
        }
        r
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Rq(pub U4);

impl Rq {
    pub fn small(n: u64) -> Rq {
        Rq([n, 0, 0, 0])
    }
    pub fn sqrt(&self) -> Option<Rq> {
        // p = 3 mod 4
        let (mut e, _) = add4(&P, &ONE4);
        e = shr1(&shr1(&e));
        let s = self.pow(&e);
        if s.sq() == *self {
            Some(s)
        } else {
            None
        }
    }
}

impl RField for Rq {
    fn zero() -> Self {
        Rq(Z4)
    }
    fn one() -> Self {
        Rq(ONE4)
    }
    fn add(&self, o: &Self) -> Self {
        Rq(FQ.add(&self.0, &o.0))
    }
    fn sub(&self, o: &Self) -> Self {
        Rq(FQ.sub(&self.0, &o.0))
    }
    fn mul(&self, o: &Self) -> Self {
        Rq(FQ.mul(&self.0, &o.0))
    }
    fn inv(&self) -> Option<Self> {
        FQ.inv(&self.0).map(Rq)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Rq2(pub Rq, pub Rq);

impl Rq2 {
    pub fn xi() -> Rq2 {
        Rq2(Rq::small(9), Rq::small(1))
    }
    pub fn conj(&self) -> Rq2 {
        Rq2(self.0, self.1.neg())
    }
    pub fn scale(&self, k: &Rq) -> Rq2 {
        Rq2(self.0.mul(k), self.1.mul(k))
    }
    /// Multiply by xi = 9 + u
    pub fn mulxi(&self) -> Rq2 {
        self.mul(&Rq2::xi())
    }
    pub fn sqrt(&self) -> Option<Rq2> {
        // norm method
        if self.1.is_zero() {
            if let Some(s) = self.0.sqrt() {
                return Some(Rq2(s, Rq::zero()));
            }
            let s = self.0.neg().sqrt()?;
            return Some(Rq2(Rq::zero(), s));
        }
        let n = self.0.sq().add(&self.1.sq()).sqrt()?;
        let half = Rq::small(2).inv().unwrap();
        let mut d = self.0.add(&n).mul(&half);
        let mut a = d.sqrt();
        if a.is_none() {
            d = self.0.sub(&n).mul(&half);
            a = d.sqrt();
        }
        let a = a?;
        let b = self.1.mul(&half).mul(&a.inv()?);
        let r = Rq2(a, b);
        if r.sq() == *self {
            Some(r)
        } else {
            None
        }
    }
}

impl RField for Rq2 {
    fn zero() -> Self {
        Rq2(Rq::zero(), Rq::zero())
    }
    fn one() -> Self {
        Rq2(Rq::one(), Rq::zero())
    }
    fn add(&self, o: &Self) -> Self {
        Rq2(self.0.add(&o.0), self.1.add(&o.1))
    }
    fn sub(&self, o: &Self) -> Self {
        Rq2(self.0.sub(&o.0), self.1.sub(&o.1))
    }
    fn mul(&self, o: &Self) -> Self {
        Rq2(
            self.0.mul(&o.0).sub(&self.1.mul(&o.1)),
            self.0.mul(&o.1).add(&self.1.mul(&o.0)),
        )
    }
    fn inv(&self) -> Option<Self> {
        let n = self.0.sq().add(&self.1.sq()).inv()?;
        Some(Rq2(self.0.mul(&n), self.1.neg().mul(&n)))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Rq12(pub [Rq2; 6]);

impl Rq12 {
    /// From the twelve coordinates in tower order: c0.c0, c0.c1, c0.c2, c1.c0, c1.c1, c1.c2,
    /// where c_i.c_j is the coefficient of w^(i + 2j).
    pub fn from_tower(c: &[Rq; 12]) -> Rq12 {
        let mut o = [Rq2::zero(); 6];
        for i in 0..2 {
            for j in 0..3 {
                let k = (i * 3 + j) * 2;
                o[i + 2 * j] = Rq2(c[k], c[k + 1]);
            }
        }
        Rq12(o)
    }
    pub fn to_tower(&self) -> [Rq; 12] {
        let mut o = [Rq::zero(); 12];
        for i in 0..2 {
            for j in 0..3 {
                let k = (i * 3 + j) * 2;
                o[k] = self.0[i + 2 * j].0;
                o[k + 1] = self.0[i + 2 * j].1;
            }
        }
        o
    }
    /// f^(q^6): w -> -w
    pub fn conj6(&self) -> Rq12 {
        let mut o = self.0;
        for i in [1, 3, 5] {
            o[i] = o[i].neg();
        }
        Rq12(o)
    }
}

impl RField for Rq12 {
    fn zero() -> Self {
        Rq12([Rq2::zero(); 6])
    }
    fn one() -> Self {
        let mut o = [Rq2::zero(); 6];
        o[0] = Rq2::one();
        Rq12(o)
    }
    fn add(&self, o: &Self) -> Self {
        let mut r = self.0;
        for i in 0..6 {
            r[i] = r[i].add(&o.0[i]);
        }
        Rq12(r)
    }
    fn sub(&self, o: &Self) -> Self {
        let mut r = self.0;
        for i in 0..6 {
            r[i] = r[i].sub(&o.0[i]);
        }
        Rq12(r)
    }
    fn mul(&self, o: &Self) -> Self {
        let mut lo = [Rq2::zero(); 6];
        let mut hi = [Rq2::zero(); 6];
        for i in 0..6 {
            if self.0[i].is_zero() {
                continue;
            }
            for j in 0..6 {
                if o.0[j].is_zero() {
                    continue;
                }
                let t = self.0[i].mul(&o.0[j]);
                if i + j < 6 {
                    lo[i + j] = lo[i + j].add(&t);
                } else {
                    hi[i + j - 6] = hi[i + j - 6].add(&t);
                }
            }
        }
        for i in 0..6 {
            lo[i] = lo[i].add(&hi[i].mulxi());
        }
        Rq12(lo)
    }
    fn inv(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        // Norm down to Fq2 through the conjugates w -> zeta^k w, zeta a primitive sixth root
        // of unity in Fq.
        let z = zeta6();
        let mut prod = Rq12::one();
        let mut zk = Rq::one();
        for _ in 1..6 {
            zk = zk.mul(&z);
            let mut c = [Rq2::zero(); 6];
            let mut zz = Rq::one();
            for i in 0..6 {
                c[i] = self.0[i].scale(&zz);
                zz = zz.mul(&zk);
            }
            prod = prod.mul(&Rq12(c));
        }
        let n = self.mul(&prod);
        for i in 1..6 {
            assert!(n.0[i].is_zero());
        }
        let ni = n.0[0].inv()?;
        let mut o = prod.0;
        for x in o.iter_mut() {
            *x = x.mul(&ni);
        }
        Some(Rq12(o))
    }
}

/// A primitive cube root of unity in Fq (the x-scaling of the curve's automorphism).
pub fn beta() -> Rq {
    static B: LazyLock<Rq> = LazyLock::new(|| {
        // (-1 + sqrt(-3)) / 2
        let s = Rq::small(3).neg().sqrt().unwrap();
        let b = s.sub(&Rq::one()).mul(&Rq::small(2).inv().unwrap());
        assert!(b != Rq::one() && b.sq().mul(&b) == Rq::one());
        b
    });
    *B
}
fn zeta6() -> Rq {
    beta().neg()
}
