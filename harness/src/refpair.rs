//! Reference pairing: affine Miller loop with slopes on the twist, untwisted lines, and a
//! final exponentiation by plain powers.
use crate::refcurve::*;
use crate::refmath::*;
use crate::reftower::*;
use std::sync::LazyLock;

/// 6z + 2 for z = 4965661367192848881
const ATE: [u64; 2] = [0x9d797039be763ba8, 1];
/// (q^4 - q^2 + 1)/r * 2z(6z^2 + 3z + 1)
const HARD: [u64; 15] = [
    0xcaa4152366144ab4, 0x114dc0ec2cab7ffd, 0x0cf0888c7a0ff6cf, 0x65c5644e949b6a90,
    0x1be2458885117085, 0x5b35eb719e58db4b, 0x2566c550aeb7e0e2, 0x0c974024a316619f,
    0xd147cb7d3a5203dc, 0x621d9bfed77c2ad0, 0x26473fbcd1c3ec1e, 0xe86518527b5e4036,
    0x29259e9712ca7b71, 0x1891045f68d15763, 0x00679dd974c68787,
];

/// l(P) for the line through T with slope lam on the twist.
fn line(f: &Rq12, lam: &Rq2, t: &(Rq2, Rq2), p: &(Rq, Rq)) -> Rq12 {
    let mut l = [Rq2::zero(); 6];
    l[0] = Rq2(p.1, Rq::zero());
    l[1] = lam.scale(&p.0).neg();
    l[3] = lam.mul(&t.0).sub(&t.1);
    f.mul(&Rq12(l))
}
fn dbl(t: &(Rq2, Rq2)) -> (Rq2, (Rq2, Rq2)) {
    let x2 = t.0.sq();
    let lam = x2.add(&x2).add(&x2).mul(&t.1.add(&t.1).inv().unwrap());
    (lam, chord(&lam, t, &t.0))
}
fn addp(t: &(Rq2, Rq2), q: &(Rq2, Rq2)) -> (Rq2, (Rq2, Rq2)) {
    let lam = q.1.sub(&t.1).mul(&q.0.sub(&t.0).inv().unwrap());
    (lam, chord(&lam, t, &q.0))
}
fn chord(lam: &Rq2, t: &(Rq2, Rq2), x2: &Rq2) -> (Rq2, Rq2) {
    let x = lam.sq().sub(&t.0).sub(x2);
    (x, lam.mul(&t.0.sub(&x)).sub(&t.1))
}
fn frob(q: &(Rq2, Rq2)) -> (Rq2, Rq2) {
    static K: LazyLock<(Rq2, Rq2)> = LazyLock::new(|| {
        let (pm1, _) = sub4(&P, &ONE4);
        let (e3, _) = divrem(&wide(&pm1), &[3, 0, 0, 0]);
        let e2 = shr1(&pm1);
        (Rq2::xi().pow(&e3[..4]), Rq2::xi().pow(&e2))
    });
    (q.0.conj().mul(&K.0), q.1.conj().mul(&K.1))
}

pub fn pairing(p: &Pt<C1>, q: &Pt<C2>) -> Rq12 {
    let (p, q) = match (p.to_affine(), q.to_affine()) {
        (Some(p), Some(q)) => (p, q),
        _ => return Rq12::one(),
    };
    let mut f = Rq12::one();
    let mut t = q;
    for i in (0..64).rev() {
        f = f.sq();
        let (lam, t2) = dbl(&t);
        f = line(&f, &lam, &t, &p);
        t = t2;
        if bit(&ATE, i) {
            let (lam, t2) = addp(&t, &q);
            f = line(&f, &lam, &t, &p);
            t = t2;
        }
    }
    let q1 = frob(&q);
    let q2 = frob(&q1);
    let q2 = (q2.0, q2.1.neg());
    let (lam, t2) = addp(&t, &q1);
    f = line(&f, &lam, &t, &p);
    t = t2;
    let (lam, _) = addp(&t, &q2);
    f = line(&f, &lam, &t, &p);
    final_exp(&f)
}

fn final_exp(f: &Rq12) -> Rq12 {
    let g = f.conj6().mul(&f.inv().unwrap());
    let q2 = mul4(&P, &P);
    let h = g.pow(&q2).mul(&g);
    h.pow(&HARD)
}

/// e(G1, G2)
pub fn gt_gen() -> Rq12 {
    static G: LazyLock<Rq12> = LazyLock::new(|| pairing(&Pt::gen(), &Pt::gen()));
    *G
}
/// e(G1, G2)^k by a fixed-base table
pub fn gt_gen_pow(k: &U4) -> Rq12 {
    static T: LazyLock<Vec<[Rq12; 16]>> = LazyLock::new(|| {
        let mut base = gt_gen();
        let mut v = vec![];
        for _ in 0..64 {
            let mut row = [Rq12::one(); 16];
            for j in 1..16 {
                row[j] = row[j - 1].mul(&base);
            }
            base = row[15].mul(&base);
            v.push(row);
        }
        v
    });
    let mut r = Rq12::one();
    for i in 0..64 {
        let d = (k[i / 16] >> (4 * (i % 16)) & 15) as usize;
        if d != 0 {
            r = r.mul(&T[i][d]);
        }
    }
    r
}
