//! C14: programs over the public interface against arithmetic on exponents, and protocols.
//! The operations and their shadow semantics are shared with C15.
use crate::ensure;
use crate::gen::*;
use crate::p_fr::fr_in;
use crate::p_pair::pw;
use crate::refcurve::*;
use crate::refmath::*;
use crate::rt::*;
use crate::sut::*;
use crate::p_rand::Stream;
use rabe_bn::arith::{U256, U512};
use rand::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    FrAdd(usize, usize),
    FrSub(usize, usize),
    FrMul(usize, usize),
    FrNeg(usize),
    FrInv(usize),
    FrPow(usize, usize),
    FrEq(usize, usize),
    FrZero(usize),
    FrTrip(usize),
    G1Add(usize, usize),
    G1Sub(usize, usize),
    G1Neg(usize),
    G1Mul(usize, usize),
    G1Norm(usize),
    G1Eq(usize, usize),
    G1Zero(usize),
    G1Trip(usize),
    G2Add(usize, usize),
    G2Sub(usize, usize),
    G2Neg(usize),
    G2Mul(usize, usize),
    G2Norm(usize),
    G2Eq(usize, usize),
    G2Zero(usize),
    G2Trip(usize),
    GtMul(usize, usize),
    GtInv(usize),
    GtPow(usize, usize),
    GtEq(usize, usize),
    GtTrip(usize),
    Pair(usize, usize),
    /// scalars from external data, derived from the residues of two others
    FrSlice(usize, usize),
    FrFactor(usize, usize),
    FrNum(usize, usize),
    FrWide(usize, usize),
    /// samples from a stream that a scalar determines
    FrSample(usize),
    G1Sample(usize),
    G2Sample(usize),
    GtSample(usize),
    /// wide integers, from the residues of two scalars
    WideMod(usize, usize),
    WideDiv(usize, usize),
    WideText(usize, usize),
    /// all texts and bytes of an element of each kind
    Texts(usize, usize),
    /// input that is refused, or nearly
    BadText(usize, usize),
    BadBytes(usize, usize),
    BadCode(usize, usize),
}
pub const NOPS: u64 = 46;
/// The operations whose result the exponents predict.
pub const NPREDICTED: u64 = 35;

pub struct Vals {
    pub fr: Vec<(Fr, U4)>,
    pub g1: Vec<(G1, U4)>,
    pub g2: Vec<(G2, U4)>,
    pub gt: Vec<(Gt, U4)>,
}
#[derive(Clone, Copy, Debug)]
pub enum Out {
    Fr(Fr),
    NoFr,
    G1(G1),
    G2(G2),
    Gt(Gt),
    Bool(bool),
    /// a digest of several results
    Sum(u64),
}
#[derive(Clone, Copy, Debug)]
pub enum Want {
    Fr(U4),
    NoFr,
    G1(U4),
    G2(U4),
    Gt(U4),
    Bool(bool),
    /// any value
    Any,
}

/// Operation k on operands a and b.
pub fn make(k: u64, a: usize, b: usize) -> Op {
    use Op::*;
    match k {
        0 => FrAdd(a, b),
        1 => FrSub(a, b),
        2 => FrMul(a, b),
        3 => FrNeg(a),
        4 => FrInv(a),
        5 => FrPow(a, b),
        6 => FrEq(a, b),
        7 => FrZero(a),
        8 => FrTrip(a),
        9 => G1Add(a, b),
        10 => G1Sub(a, b),
        11 => G1Neg(a),
        12 => G1Mul(a, b),
        13 => G1Norm(a),
        14 => G1Eq(a, b),
        15 => G1Zero(a),
        16 => G1Trip(a),
        17 => G2Add(a, b),
        18 => G2Sub(a, b),
        19 => G2Neg(a),
        20 => G2Mul(a, b),
        21 => G2Norm(a),
        22 => G2Eq(a, b),
        23 => G2Zero(a),
        24 => G2Trip(a),
        25 => GtMul(a, b),
        26 => GtInv(a),
        27 => GtPow(a, b),
        28 => GtEq(a, b),
        29 => GtTrip(a),
        31 => FrSlice(a, b),
        32 => FrFactor(a, b),
        33 => FrNum(a, b),
        34 => FrWide(a, b),
        35 => FrSample(a),
        36 => G1Sample(a),
        37 => G2Sample(a),
        38 => GtSample(a),
        39 => WideMod(a, b),
        40 => WideDiv(a, b),
        41 => WideText(a, b),
        42 => Texts(a, b),
        43 => BadText(a, b),
        44 => BadBytes(a, b),
        45 => BadCode(a, b),
        _ => Pair(a, b),
    }
}
pub fn rand_op(r: &mut Prng, v: &Vals, pair_one_in: u64) -> Op {
    rand_op_of(r, v, pair_one_in, NPREDICTED)
}
/// One of the first n operations.
pub fn rand_op_of(r: &mut Prng, v: &Vals, pair_one_in: u64, n: u64) -> Op {
    loop {
        let k = r.below(n);
        if (k == 30 || k == 38) && !r.chance(1, pair_one_in) {
            continue;
        }
        return op_of_kind(r, v, k);
    }
}
pub fn op_of_kind(r: &mut Prng, v: &Vals, k: u64) -> Op {
    let (nf, n1, n2, nt) = (v.fr.len(), v.g1.len(), v.g2.len(), v.gt.len());
        let (na, nb) = match k {
            0..=8 => (nf, nf),
            12 => (n1, nf),
            9..=16 => (n1, n1),
            20 => (n2, nf),
            17..=24 => (n2, n2),
            27 => (nt, nf),
            25..=29 => (nt, nt),
            31..=45 => (nf, nf),
            _ => (n1, n2),
        };
    make(k, r.us(na), r.us(nb))
}
/// The 32-byte integer behind FrSlice and FrFactor: a residue, plus a multiple of r.
fn wide_int(raw: &U4, j: usize) -> U4 {
    (0..j % 4).fold(*raw, |x, _| add4(&x, &R).0)
}
fn stream_of(x: &Fr) -> Res<Stream> {
    let raw = fr_raw(x)?;
    Ok(Stream::seeded(raw[0] ^ raw[1].rotate_left(20) ^ raw[2].rotate_left(40) ^ raw[3]))
}

fn wide_mod(a: &U4, b: &U4) -> u64 {
    let mut out = vec![];
    for (m, inv) in [(R, 0xc2e1f593efffffffu64), (P, 0x87d20782e4866389)] {
        let m = U256(m);
        for (x, y) in [(*a, *b), (*b, *a)] {
            let (x, y) = (U256(x), U256(y));
            let mut t = [x; 5];
            t[0].add(&y, &m);
            t[1].sub(&y, &m);
            t[2].mul(&y, &m, inv);
            t[3].neg(&m);
            if !x.is_zero() {
                t[4].invert(&m);
            }
            for t in &t {
                out.extend_from_slice(&le_bytes(&t.0));
                out.push((*t < x) as u8 * 4 + t.is_even() as u8 * 2 + t.is_zero() as u8);
            }
        }
    }
    hash_bytes(&out)
}
fn wide_div(a: &U4, b: &U4) -> u64 {
    let mut out = vec![];
    let (x, y) = (U256(*a), U256(*b));
    let mut c: U512 = a.iter().chain(b.iter()).cloned().collect();
    let mut buf = [0; 64];
    buf[..32].copy_from_slice(&be_bytes(a));
    buf[32..].copy_from_slice(&be_bytes(b));
    for m in [R, P, [3, 0, 0, 0], [0, 0, 0, 1 << 62]] {
        for w in [c, U512::from(&x, &y, &U256(m)), U512::interpret(&buf)] {
            let (q, r) = w.divrem(&U256(m));
            out.extend_from_slice(&le_bytes(&w.0));
            out.extend_from_slice(&le_bytes(&r.0));
            out.extend_from_slice(&q.map(|q| le_bytes(&q.0)).unwrap_or_default());
        }
        c = a.iter().take(m[3] as usize % 5).cloned().collect();
    }
    out.extend(x.bits().map(|b| b as u8));
    out.extend((0..520).map(|i| c.get_bit(i).map_or(2, |b| b as u8)));
    hash_bytes(&out)
}

/// Run one operation on the library.
pub fn exec(op: &Op, v: &Vals) -> Res<Out> {
    use Op::*;
    let f = |i: usize| v.fr[i].0;
    let g = |i: usize| v.g1[i].0;
    let h = |i: usize| v.g2[i].0;
    let t = |i: usize| v.gt[i].0;
    Ok(match *op {
        FrAdd(i, j) => Out::Fr(f(i) + f(j)),
        FrSub(i, j) => Out::Fr(f(i) - f(j)),
        FrMul(i, j) => Out::Fr(f(i) * f(j)),
        FrNeg(i) => Out::Fr(-f(i)),
        FrInv(i) => match f(i).inverse() {
            Some(x) => Out::Fr(x),
            None => Out::NoFr,
        },
        FrPow(i, j) => Out::Fr(f(i).pow(f(j))),
        FrEq(i, j) => Out::Bool(f(i) == f(j)),
        FrZero(i) => Out::Bool(f(i).is_zero()),
        FrTrip(i) => Out::Fr(dec(&enc(&f(i)))?),
        G1Add(i, j) => Out::G1(g(i) + g(j)),
        G1Sub(i, j) => Out::G1(g(i) - g(j)),
        G1Neg(i) => Out::G1(-g(i)),
        G1Mul(i, j) => Out::G1(g(i) * f(j)),
        G1Norm(i) => {
            let mut x = g(i);
            x.normalize();
            Out::G1(x)
        }
        G1Eq(i, j) => Out::Bool(g(i) == g(j)),
        G1Zero(i) => Out::Bool(g(i).is_zero()),
        G1Trip(i) => Out::G1(dec(&enc(&g(i)))?),
        G2Add(i, j) => Out::G2(h(i) + h(j)),
        G2Sub(i, j) => Out::G2(h(i) - h(j)),
        G2Neg(i) => Out::G2(-h(i)),
        G2Mul(i, j) => Out::G2(h(i) * f(j)),
        G2Norm(i) => {
            let mut x = h(i);
            x.normalize();
            Out::G2(x)
        }
        G2Eq(i, j) => Out::Bool(h(i) == h(j)),
        G2Zero(i) => Out::Bool(h(i).is_zero()),
        G2Trip(i) => Out::G2(dec(&enc(&h(i)))?),
        GtMul(i, j) => Out::Gt(t(i) * t(j)),
        GtInv(i) => Out::Gt(t(i).inverse()),
        GtPow(i, j) => Out::Gt(t(i).pow(f(j))),
        GtEq(i, j) => Out::Bool(t(i) == t(j)),
        GtTrip(i) => Out::Gt(dec(&enc(&t(i)))?),
        Pair(i, j) => Out::Gt(pairing(g(i), h(j))),
        FrSlice(i, j) => {
            let x = wide_int(&fr_raw(&f(i))?, j);
            Out::Fr(Fr::from_slice(&be_bytes(&x)).map_err(|e| format!("from_slice: {:?}", e))?)
        }
        FrFactor(i, j) => Out::Fr(Fr::new_mul_factor(U256(wide_int(&fr_raw(&f(i))?, j)))),
        FrNum(i, j) => {
            let s = dec_string(&fr_raw(&f(i))?) + &dec_string(&fr_raw(&f(j))?);
            Out::Fr(Fr::from_str(&s).ok_or_else(|| format!("from_str refuses {}", s))?)
        }
        FrWide(i, j) => {
            let mut b = [0; 64];
            b[..32].copy_from_slice(&be_bytes(&fr_raw(&f(i))?));
            b[32..].copy_from_slice(&be_bytes(&fr_raw(&f(j))?));
            Out::Fr(Fr::interpret(&b))
        }
        FrSample(i) => Out::Fr(stream_of(&f(i))?.gen()),
        G1Sample(i) => Out::G1(stream_of(&f(i))?.gen()),
        G2Sample(i) => Out::G2(stream_of(&f(i))?.gen()),
        GtSample(i) => Out::Gt(stream_of(&f(i))?.gen()),
        WideMod(i, j) => Out::Sum(wide_mod(&fr_raw(&f(i))?, &fr_raw(&f(j))?)),
        WideDiv(i, j) => Out::Sum(wide_div(&fr_raw(&f(i))?, &fr_raw(&f(j))?)),
        WideText(i, j) => {
            let (a, b) = (fr_raw(&f(i))?, fr_raw(&f(j))?);
            let (x, y) = (U256(a), U512([a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]]));
            let s = format!("{} {} {:?} {:?} {:#?} {:?} {:?}", x, y, x, y, y, x.into_bytes(), (enc(&x), enc(&y)));
            Out::Sum(hash_bytes(s.as_bytes()))
        }
        Texts(i, j) => {
            let (a, b, c, d) = (f(i), v.g1.get(j % v.g1.len().max(1)), v.g2.get(j % v.g2.len().max(1)), v.gt.get(j % v.gt.len().max(1)));
            let mut s = format!("{} {:?} {:?} {:?}", a, a, a.into_bytes(), Vec::<u8>::from(a));
            if let Some((x, _)) = b {
                s += &format!("{} {:?} {:?} {:?}", x, x, x.into_bytes(), Vec::<u8>::from(*x));
            }
            if let Some((x, _)) = c {
                s += &format!("{:?} {:?}", x, x.into_bytes());
            }
            if let Some((x, _)) = d {
                s += &format!("{} {:?} {:?} {:?}", x, x, x.into_bytes(), Vec::<u8>::from(*x));
            }
            Out::Sum(hash_bytes(s.as_bytes()))
        }
        BadText(i, j) => {
            let mut s = dec_string(&fr_raw(&f(i))?);
            // mostly refused; the position and the character are the second operand's
            let (at, raw) = (j * 7 % (s.len() + 1), fr_raw(&f(j))?);
            s.insert_str(at, ["", "x", "-", "+", " ", "\u{0661}", "_", "\u{1F600}"][raw[0] as usize % 8]);
            match Fr::from_str(&s) {
                Some(x) => Out::Fr(x),
                None => Out::NoFr,
            }
        }
        BadBytes(i, j) => {
            let mut b = be_bytes(&fr_raw(&f(i))?).to_vec();
            b.extend(be_bytes(&fr_raw(&f(j))?).iter());
            b.truncate([31, 33, 0, 64, 1, 32, 16, 63][fr_raw(&f(j))?[0] as usize % 8]);
            Out::Sum(hash_bytes(format!("{:?} {:?}", Fr::from_slice(&b), U256::from_slice(&b)).as_bytes()))
        }
        BadCode(i, j) => {
            let raw = fr_raw(&f(j))?;
            let (at, how) = (raw[0] as usize, raw[1] % 3);
            let bent = |mut b: Vec<u8>| {
                let n = b.len();
                match how {
                    0 => b.truncate(at % n),
                    1 => b[at % n] ^= 1 << (raw[2] % 8),
                    _ => b[n - 1] = 0xff,
                }
                b
            };
            let a = dec::<Fr>(&bent(enc(&f(i)))).map(|x| enc(&x));
            let b = v.g1.get(j % v.g1.len().max(1)).map(|x| dec::<G1>(&bent(enc(&x.0))).map(|x| enc(&x)));
            let c = v.g2.get(j % v.g2.len().max(1)).map(|x| dec::<G2>(&bent(enc(&x.0))).map(|x| enc(&x)));
            let d = v.gt.get(j % v.gt.len().max(1)).map(|x| dec::<Gt>(&bent(enc(&x.0))).map(|x| enc(&x)));
            Out::Sum(hash_bytes(format!("{:?} {:?} {:?} {:?}", a, b, c, d).as_bytes()))
        }
    })
}

/// The same operation on exponents.
pub fn shadow(op: &Op, v: &Vals) -> Want {
    use Op::*;
    let f = |i: usize| v.fr[i].1;
    let g = |i: usize| v.g1[i].1;
    let h = |i: usize| v.g2[i].1;
    let t = |i: usize| v.gt[i].1;
    match *op {
        FrAdd(i, j) => Want::Fr(FR.add(&f(i), &f(j))),
        FrSub(i, j) => Want::Fr(FR.sub(&f(i), &f(j))),
        FrMul(i, j) => Want::Fr(FR.mul(&f(i), &f(j))),
        FrNeg(i) => Want::Fr(FR.neg(&f(i))),
        FrInv(i) => match FR.inv(&f(i)) {
            Some(x) => Want::Fr(x),
            None => Want::NoFr,
        },
        FrPow(i, j) => Want::Fr(FR.pow(&f(i), &f(j))),
        FrEq(i, j) => Want::Bool(f(i) == f(j)),
        FrZero(i) => Want::Bool(f(i) == Z4),
        FrTrip(i) => Want::Fr(f(i)),
        G1Add(i, j) => Want::G1(FR.add(&g(i), &g(j))),
        G1Sub(i, j) => Want::G1(FR.sub(&g(i), &g(j))),
        G1Neg(i) => Want::G1(FR.neg(&g(i))),
        G1Mul(i, j) => Want::G1(FR.mul(&g(i), &f(j))),
        G1Norm(i) | G1Trip(i) => Want::G1(g(i)),
        G1Eq(i, j) => Want::Bool(g(i) == g(j)),
        G1Zero(i) => Want::Bool(g(i) == Z4),
        G2Add(i, j) => Want::G2(FR.add(&h(i), &h(j))),
        G2Sub(i, j) => Want::G2(FR.sub(&h(i), &h(j))),
        G2Neg(i) => Want::G2(FR.neg(&h(i))),
        G2Mul(i, j) => Want::G2(FR.mul(&h(i), &f(j))),
        G2Norm(i) | G2Trip(i) => Want::G2(h(i)),
        G2Eq(i, j) => Want::Bool(h(i) == h(j)),
        G2Zero(i) => Want::Bool(h(i) == Z4),
        GtMul(i, j) => Want::Gt(FR.add(&t(i), &t(j))),
        GtInv(i) => Want::Gt(FR.neg(&t(i))),
        GtPow(i, j) => Want::Gt(FR.mul(&t(i), &f(j))),
        GtEq(i, j) => Want::Bool(t(i) == t(j)),
        GtTrip(i) => Want::Gt(t(i)),
        Pair(i, j) => Want::Gt(FR.mul(&g(i), &h(j))),
        FrSlice(i, j) | FrFactor(i, j) => Want::Fr(FR.red4(&wide_int(&FR.to_mont(&f(i)), j))),
        FrNum(i, j) => {
            let (a, b) = (FR.to_mont(&f(i)), FR.to_mont(&f(j)));
            let shift = FR.pow(&[10, 0, 0, 0], &[dec_string(&b).len() as u64]);
            Want::Fr(FR.add(&FR.mul(&a, &shift), &b))
        }
        FrWide(i, j) => {
            let (a, b) = (FR.to_mont(&f(i)), FR.to_mont(&f(j)));
            Want::Fr(FR.reduce(&[b[0], b[1], b[2], b[3], a[0], a[1], a[2], a[3]]))
        }
        _ => Want::Any,
    }
}

pub fn check(o: &Out, w: &Want, what: impl Fn() -> String) -> Res {
    match (o, w) {
        (Out::Fr(f), Want::Fr(k)) => fr_is(f, k, what),
        (Out::NoFr, Want::NoFr) => Ok(()),
        (Out::G1(g), Want::G1(k)) => g_is(g, &Pt::gen_mul(k), what),
        (Out::G2(g), Want::G2(k)) => g_is(g, &Pt::gen_mul(k), what),
        (Out::Gt(g), Want::Gt(k)) => gt_is(g, &pw(k), what),
        (Out::Bool(a), Want::Bool(b)) if a == b => Ok(()),
        (_, Want::Any) => Ok(()),
        _ => Err(format!("{}: got {:?}, expected {:?}", what(), o, w)),
    }
}

/// Exponents that meet often.
fn meeting(r: &mut Prng) -> U4 {
    match r.below(4) {
        0 => [r.below(4), 0, 0, 0],
        1 => FR.neg(&[r.below(4), 0, 0, 0]),
        _ => exponent(r),
    }
}

pub fn init(r: &mut Prng, nf: usize, n1: usize, n2: usize, nt: usize) -> Res<Vals> {
    let mut v = Vals { fr: vec![], g1: vec![], g2: vec![], gt: vec![] };
    for _ in 0..nf {
        let k = meeting(r);
        v.fr.push((fr_in(r, &k)?, k));
    }
    for i in 0..n1 {
        let k = if i == 0 { ONE4 } else { meeting(r) };
        v.g1.push((G1::one() * fr_in(r, &k)?, k));
    }
    for i in 0..n2 {
        let k = if i == 0 { ONE4 } else { meeting(r) };
        v.g2.push((G2::one() * fr_in(r, &k)?, k));
    }
    for i in 0..nt {
        if i == 0 {
            v.gt.push((Gt::one(), Z4));
        } else {
            let k = meeting(r);
            v.gt.push((pairing(G1::one(), G2::one()).pow(fr_in(r, &k)?), k));
        }
    }
    Ok(v)
}

fn program(c: &mut Case) -> Res {
    let mut v = init(&mut c.rng, 5, 4, 3, 3)?;
    let mut log = String::new();
    let n = 30 + c.rng.us(60);
    for step in 0..n {
        let r = &mut c.rng;
        let op = rand_op(r, &v, 2);
        let o = exec(&op, &v).map_err(|e| format!("step {} {:?}: {}", step, op, e))?;
        let w = shadow(&op, &v);
        // keep short programs readable in reports
        if log.len() < 4000 {
            log += &format!(" {:?}", op);
        }
        // comparisons and scalars at once; the rest now or only later
        if matches!(w, Want::Bool(_) | Want::Fr(_) | Want::NoFr) || r.chance(1, 4) {
            check(&o, &w, || format!("step {} {:?} of program{}", step, op, log))?;
            c.count("program:results-checked-at-once");
        }
        let r = &mut c.rng;
        match (o, w) {
            (Out::Fr(x), Want::Fr(k)) => {
                let i = r.us(v.fr.len());
                v.fr[i] = (x, k)
            }
            (Out::G1(x), Want::G1(k)) => {
                let i = r.us(v.g1.len());
                v.g1[i] = (x, k)
            }
            (Out::G2(x), Want::G2(k)) => {
                let i = r.us(v.g2.len());
                v.g2[i] = (x, k)
            }
            (Out::Gt(x), Want::Gt(k)) => {
                let i = r.us(v.gt.len());
                v.gt[i] = (x, k)
            }
            (Out::Bool(a), Want::Bool(b)) => ensure!(a == b, "step {} {:?} gives {} in program{}", step, op, a, log),
            (Out::NoFr, Want::NoFr) => {}
            (o, w) => return Err(format!("step {} {:?}: got {:?}, expected {:?}", step, op, o, w)),
        }
        c.sig(&[hash_bytes(format!("{:?}", op).as_bytes())]);
        if let Want::G1(k) | Want::G2(k) | Want::Gt(k) = w {
            if k == Z4 {
                c.count("program:cancellations");
            }
        }
    }
    let w = || format!("final value after{}", log);
    for (x, k) in &v.fr {
        fr_is(x, k, w)?;
        c.sig(k);
    }
    for (x, k) in &v.g1 {
        g_is(x, &Pt::gen_mul(k), w)?;
        c.sig(k);
    }
    for (x, k) in &v.g2 {
        g_is(x, &Pt::gen_mul(k), w)?;
    }
    for (x, k) in &v.gt {
        gt_is(x, &pw(k), w)?;
    }
    c.nontrivial();
    c.add("program:steps", n as u64);
    c.sample(|| log.chars().take(300).collect());
    Ok(())
}

/// A secret that need not be random.
fn secret(r: &mut Prng) -> U4 {
    loop {
        let k = exponent(r);
        if k != Z4 {
            return k;
        }
    }
}

fn protocols(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (a, b, d) = (secret(r), secret(r), secret(r));
    let (fa, fb, fd) = (fr_in(r, &a)?, fr_in(r, &b)?, fr_in(r, &d)?);
    let w = |what: &str| format!("{} with a={} b={} c={}", what, hex(&a), hex(&b), hex(&d));
    // what travels is encoded, sometimes normalised first
    fn send<G: SGroup>(r: &mut Prng, g: G) -> Res<G> {
        let mut g = g;
        if r.chance(1, 2) {
            g.normalize();
        }
        dec(&enc(&g))
    }
    // two-party key agreement in G1 and G2
    let (pa, pb) = (send(r, G1::one() * fa)?, send(r, G1::one() * fb)?);
    ensure!(pa * fb == pb * fa, "{}", w("key agreement in G1"));
    g_is(&(pa * fb), &Pt::gen_mul(&FR.mul(&a, &b)), || w("key agreement in G1"))?;
    let (qa, qb) = (send(r, G2::one() * fa)?, send(r, G2::one() * fb)?);
    ensure!(qa * fb == qb * fa, "{}", w("key agreement in G2"));
    let mut k1 = qa * fb;
    let mut k2 = qb * fa;
    k1.normalize();
    k2.normalize();
    ensure!(k1.into_bytes() == k2.into_bytes(), "{}", w("key bytes of agreement in G2"));
    // three-party
    let (pd, qd) = (send(r, G1::one() * fd)?, send(r, G2::one() * fd)?);
    let s = [pairing(pb, qd).pow(fa), pairing(pd, qa).pow(fb), pairing(pa, qb).pow(fd)];
    ensure!(s[0] == s[1] && s[1] == s[2], "{}", w("three-party agreement"));
    ensure!(
        s[0].into_bytes() == s[1].into_bytes() && s[1].to_string() == s[2].to_string(),
        "{}",
        w("key bytes of three-party agreement")
    );
    gt_is(&s[0], &pw(&FR.mul(&FR.mul(&a, &b), &d)), || w("three-party agreement"))?;
    // signatures: key a, message point h = m*G1
    let m = secret(r);
    let fm = fr_in(r, &m)?;
    let h = G1::one() * fm;
    let sig = send(r, h * fa)?;
    let ok = |sg: G1, h: G1, key: G2| pairing(sg, G2::one()) == pairing(h, key);
    ensure!(ok(sig, h, qa), "{} m={}", w("honest signature refused"), hex(&m));
    ensure!(
        pairing(sig, G2::one()) * pairing(-h, qa) == Gt::one(),
        "{} m={}",
        w("honest signature refused by product check"),
        hex(&m)
    );
    // altered in message, signature and key
    let delta = secret(r);
    let g = G1::one() * fr_in(r, &delta)?;
    for (i, bad) in [
        ok(sig, h + g, qa),
        ok(sig + g, h, qa),
        ok(-sig, h, qa),
        ok(sig, -h, qa),
        ok(G1::zero(), h, qa),
        ok(sig, h, qa + G2::one() * fr_in(r, &delta)?),
        ok(sig, h, -qa),
    ]
    .iter()
    .enumerate()
    {
        ensure!(!bad, "{} alteration {} m={} delta={}", w("altered signature accepted"), i, hex(&m), hex(&delta));
    }
    // aggregate of two signers
    let k2 = secret(r);
    let h2 = G1::one() * fr_in(r, &k2)?;
    let agg = h * fa + h2 * fb;
    ensure!(
        pairing(agg, G2::one()) == pairing(h, qa) * pairing(h2, qb),
        "{} m={}",
        w("honest aggregate refused"),
        hex(&m)
    );
    // a share reconstructed from two of two: (2-1)... at points 1 and 2: s = 2*f(1) - f(2)
    let (f1, f2) = (fa + fb, fa + fb + fb);
    let (h1, h2) = (G2::one() * f1, G2::one() * f2);
    ensure!(h1 + h1 - h2 == qa, "{}", w("interpolation in the exponent"));
    // identity-based: key d_id = a*H(id), encrypt e(H(id), aG2)^b
    let enc_key = pairing(h, qa).pow(fb);
    let dec_key = pairing(h * fa, qb);
    ensure!(enc_key == dec_key, "{} m={}", w("identity-based decryption"), hex(&m));
    ensure!(enc_key * dec_key.inverse() == Gt::one(), "{}", w("blinding does not cancel"));
    // masking a message in Gt
    let msg = pairing(G1::one(), G2::one()).pow(fd);
    let ct = msg * enc_key;
    ensure!(ct * dec_key.inverse() == msg, "{}", w("unmasking"));
    c.sig(&a);
    c.sig(&b);
    c.sig(&d);
    c.sig(&m);
    c.nontrivial();
    c.count("protocols:runs");
    c.add("protocols:alterations-refused", 7);
    c.sample(|| w("protocols"));
    Ok(())
}

pub fn families(prop: &str) -> Vec<Family> {
    let f = |name, f: CaseFn, quick, thorough| Family { name, f, quick, thorough };
    match prop {
        "C14" => vec![f("program", program, 1_500, 80_000), f("protocols", protocols, 400, 20_000)],
        _ => vec![],
    }
}
