//! Reference curve arithmetic: homogeneous projective coordinates with the complete
//! addition formulas for a = 0 (Renes, Costello, Batina 2015, algorithm 7): no special cases.
use crate::refmath::*;
use crate::reftower::*;
use std::sync::LazyLock;

pub trait Curve: 'static + Copy + PartialEq + std::fmt::Debug {
    type F: RField;
    fn b() -> Self::F;
    fn gen() -> (Self::F, Self::F);
    fn table() -> &'static Table<Self>;
    const NAME: &'static str;
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct C1;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct C2;

fn q(s: &str) -> Rq {
    let mut v = Z4;
    for c in s.bytes() {
        v = FQ.add(&FQ.mul(&v, &[10, 0, 0, 0]), &[(c - b'0') as u64, 0, 0, 0]);
    }
    Rq(v)
}

impl Curve for C1 {
    type F = Rq;
    fn b() -> Rq {
        Rq::small(3)
    }
    fn gen() -> (Rq, Rq) {
        (Rq::small(1), Rq::small(2))
    }
    fn table() -> &'static Table<C1> {
        static T: LazyLock<Table<C1>> = LazyLock::new(Table::new);
        &T
    }
    const NAME: &'static str = "G1";
}

impl Curve for C2 {
    type F = Rq2;
    fn b() -> Rq2 {
        static B: LazyLock<Rq2> =
            LazyLock::new(|| Rq2(Rq::small(3), Rq::zero()).mul(&Rq2::xi().inv().unwrap()));
        *B
    }
    fn gen() -> (Rq2, Rq2) {
        static G: LazyLock<(Rq2, Rq2)> = LazyLock::new(|| {
            (
                Rq2(
                    q("10857046999023057135944570762232829481370756359578518086990519993285655852781"),
                    q("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
                ),
                Rq2(
                    q("8495653923123431417604973247489272438418190587263600148770280649306958101930"),
                    q("4082367875863433681332203403145435568316851327593401208105741076214120093531"),
                ),
            )
        });
        *G
    }
    fn table() -> &'static Table<C2> {
        static T: LazyLock<Table<C2>> = LazyLock::new(Table::new);
        &T
    }
    const NAME: &'static str = "G2";
}

#[derive(Clone, Copy, Debug)]
pub struct Pt<C: Curve> {
    pub x: C::F,
    pub y: C::F,
    pub z: C::F,
}

impl<C: Curve> Pt<C> {
    pub fn inf() -> Self {
        Pt { x: C::F::zero(), y: C::F::one(), z: C::F::zero() }
    }
    pub fn gen() -> Self {
        let (x, y) = C::gen();
        Pt { x, y, z: C::F::one() }
    }
    pub fn affine(x: C::F, y: C::F) -> Self {
        Pt { x, y, z: C::F::one() }
    }
    pub fn is_inf(&self) -> bool {
        self.z.is_zero()
    }
    pub fn on_curve(&self) -> bool {
        let z2 = self.z.sq();
        self.y.sq().mul(&self.z) == self.x.sq().mul(&self.x).add(&C::b().mul(&z2).mul(&self.z))
    }
    /// Jacobian (X/Z^2, Y/Z^3) as homogeneous coordinates.
    pub fn from_jac(x: &C::F, y: &C::F, z: &C::F) -> Self {
        if z.is_zero() {
            return Self::inf();
        }
        Pt { x: x.mul(z), y: *y, z: z.sq().mul(z) }
    }
    pub fn same(&self, o: &Self) -> bool {
        if self.is_inf() || o.is_inf() {
            return self.is_inf() && o.is_inf();
        }
        self.x.mul(&o.z) == o.x.mul(&self.z) && self.y.mul(&o.z) == o.y.mul(&self.z)
    }
    pub fn neg(&self) -> Self {
        Pt { x: self.x, y: self.y.neg(), z: self.z }
    }
    pub fn add(&self, o: &Self) -> Self {
        let b3 = b3::<C>();
        let t0 = self.x.mul(&o.x);
        let t1 = self.y.mul(&o.y);
        let t2 = self.z.mul(&o.z);
        let t3 = self.x.add(&self.y).mul(&o.x.add(&o.y)).sub(&t0.add(&t1));
        let t4 = self.y.add(&self.z).mul(&o.y.add(&o.z)).sub(&t1.add(&t2));
        let y3 = self.x.add(&self.z).mul(&o.x.add(&o.z)).sub(&t0.add(&t2));
        let t0 = t0.add(&t0).add(&t0);
        let t2 = b3.mul(&t2);
        let z3 = t1.add(&t2);
        let t1 = t1.sub(&t2);
        let y3 = b3.mul(&y3);
        Pt {
            x: t3.mul(&t1).sub(&t4.mul(&y3)),
            y: t1.mul(&z3).add(&y3.mul(&t0)),
            z: z3.mul(&t4).add(&t0.mul(&t3)),
        }
    }
    pub fn sub(&self, o: &Self) -> Self {
        self.add(&o.neg())
    }
    /// k any integer, not reduced
    pub fn mul(&self, k: &[u64]) -> Self {
        let mut r = Self::inf();
        for i in (0..k.len() * 64).rev() {
            r = r.add(&r);
            if bit(k, i) {
                r = r.add(self);
            }
        }
        r
    }
    pub fn to_affine(&self) -> Option<(C::F, C::F)> {
        let zi = self.z.inv()?;
        Some((self.x.mul(&zi), self.y.mul(&zi)))
    }
    /// k times the generator
    pub fn gen_mul(k: &U4) -> Self {
        C::table().mul(k)
    }
    pub fn order_r(&self) -> bool {
        self.mul(&R).is_inf()
    }
}

fn b3<C: Curve>() -> C::F {
    let b = C::b();
    b.add(&b).add(&b)
}

/// Fixed-base table of multiples j * 16^i of the generator.
pub struct Table<C: Curve>(Vec<[Pt<C>; 16]>);

impl<C: Curve> Table<C> {
    fn new() -> Self {
        let mut base = Pt::<C>::gen();
        let mut v = vec![];
        for _ in 0..64 {
            let mut row = [Pt::inf(); 16];
            for j in 1..16 {
                row[j] = row[j - 1].add(&base);
            }
            base = row[15].add(&base);
            v.push(row);
        }
        Table(v)
    }
    fn mul(&self, k: &U4) -> Pt<C> {
        let mut r = Pt::inf();
        for i in 0..64 {
            let d = (k[i / 16] >> (4 * (i % 16)) & 15) as usize;
            if d != 0 {
                r = r.add(&self.0[i][d]);
            }
        }
        r
    }
}
