//! C16 and C17: workloads whose results are written down, to be compared between builds, or
//! run under a sanitizer or interpreter. They use no reference arithmetic on the way.
use crate::gen::*;
use crate::p_arith::Hinted;
use crate::p_hist;
use crate::p_rand::Stream;
use crate::refmath::*;
use crate::rt::*;
use crate::sut::*;
use rabe_bn::arith::{U256, U512};
use rand::Rng;

/// What a case computed, in order.
pub type Log = Vec<(&'static str, Vec<u8>)>;
pub type LogFn = fn(&mut Prng, &mut Log, bool) -> Res;

pub struct Part {
    pub name: &'static str,
    pub f: LogFn,
    /// cases per unit of work, native and under an interpreter
    pub native: u64,
    pub tiny: u64,
}

fn word(x: &U256) -> Vec<u8> {
    le_bytes(&x.0)
}

fn arith(r: &mut Prng, o: &mut Log, _: bool) -> Res {
    let mut m = if r.chance(1, 2) { *r.pick(&[P, R]) } else { any4(r) };
    m[3] &= u64::MAX >> 1;
    m[0] |= 1;
    if m == ONE4 {
        m[0] = 3;
    }
    let red = |x: &U4| divrem(&wide(x), &m).1;
    let (a, b) = (red(&any4(r)), red(&any4(r)));
    let um = U256(m);
    let mut x = U256(a);
    x.add(&U256(b), &um);
    o.push(("add", word(&x)));
    let mut x = U256(a);
    x.sub(&U256(b), &um);
    o.push(("sub", word(&x)));
    let mut x = U256(a);
    x.neg(&um);
    o.push(("neg", word(&x)));
    let mut inv = 1u64;
    for _ in 0..6 {
        inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
    }
    let mut x = U256(a);
    x.mul(&U256(b), &um, inv.wrapping_neg());
    o.push(("mul", word(&x)));
    if (m == P || m == R) && a != Z4 {
        let mut x = U256(a);
        x.invert(&um);
        o.push(("invert", word(&x)));
    }
    let (p, q, s) = (any4(r), any4(r), any4(r));
    let w = U512::from(&U256(p), &U256(q), &U256(s));
    o.push(("compose", le_bytes(&w.0)));
    let (quo, rem) = w.divrem(&um);
    o.push(("remainder", word(&rem)));
    o.push(("quotient", quo.map(|q| word(&q)).unwrap_or_default()));
    let u = U256(p);
    o.push(("bits", u.bits().map(|b| b as u8).collect()));
    for i in [0usize, 63, 64, 255, 256, 511, 512, usize::MAX, r.us(600)] {
        o.push(("get_bit", vec![u.get_bit(i).map(|b| b as u8).unwrap_or(2), w.get_bit(i).map(|b| b as u8).unwrap_or(2)]));
        let mut v = u;
        let ok = v.set_bit(i, r.chance(1, 2));
        o.push(("set_bit", [word(&v), vec![ok as u8]].concat()));
    }
    o.push(("order", vec![(U256(p) < U256(q)) as u8, (U256(p) == U256(q)) as u8, u.is_even() as u8, u.is_zero() as u8]));
    o.push(("bytes", u.into_bytes()));
    let n = *r.pick(&[32usize, 32, 0, 31, 33, 64]);
    let buf: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
    o.push(("from_slice", U256::from_slice(&buf).map(|u| word(&u)).unwrap_or_default()));
    let mut b64 = [0u8; 64];
    b64.iter_mut().for_each(|b| *b = r.u64() as u8);
    o.push(("interpret", le_bytes(&U512::interpret(&b64).0)));
    let words: Vec<u64> = (0..r.us(12)).map(|_| r.u64()).collect();
    let n = words.len();
    for hint in [(n, Some(n)), (0, None), (0, Some(n)), (n / 2, Some(n + 5))] {
        o.push(("collect", le_bytes(&Hinted(&words, hint).collect::<U512>().0)));
    }
    o.push(("texts", [show(&u), show(&w)].concat()));
    o.push(("random", word(&U256::random(&mut Stream::seeded(r.u64()), &um))));
    o.push(("codec", [enc(&u), enc(&w), enc(&dec::<U256>(&enc(&u))?), enc(&dec::<U512>(&enc(&w))?)].concat()));
    Ok(())
}

fn show<T: std::fmt::Display + std::fmt::Debug>(t: &T) -> Vec<u8> {
    let s = format!("{} {:?} {:40} {:#?}", t, t, t, t);
    text(&s)
}
/// The bytes of a text. A string that is not UTF-8 is undefined behaviour that nothing else reports.
fn text(s: &str) -> Vec<u8> {
    let b = std::hint::black_box(s.as_bytes()).to_vec();
    if std::str::from_utf8(&b).is_err() {
        eprintln!("a text is not valid UTF-8: {:?}", b);
        std::process::abort();
    }
    b
}

fn fr_any(r: &mut Prng) -> Res<Fr> {
    Ok(match r.below(8) {
        0 => Fr::zero(),
        1 => Fr::one(),
        2 => Stream::seeded(r.u64()).gen(),
        3 => Fr::from_str(&r.u64().to_string()).ok_or("from_str refused a number")?,
        4 => {
            let b: Vec<u8> = (0..32).map(|i| if i == 0 { 0 } else { r.u64() as u8 }).collect();
            match Fr::from_slice(&b) {
                Ok(x) => x,
                Err(_) => Fr::one(),
            }
        }
        _ => {
            let mut x = any4(r);
            x[3] &= u64::MAX >> 2;
            if !lt(&x, &R) {
                x[3] >>= 1;
            }
            fr_of_raw(&x)?
        }
    })
}

fn scalars(r: &mut Prng, o: &mut Log, tiny: bool) -> Res {
    let (a, b) = (fr_any(r)?, fr_any(r)?);
    o.push(("+", enc(&(a + b))));
    o.push(("-", enc(&(a - b))));
    o.push(("*", enc(&(a * b))));
    o.push(("neg", enc(&-a)));
    o.push(("inverse", a.inverse().map(|x| enc(&x)).unwrap_or_default()));
    if !tiny || r.chance(1, 6) {
        o.push(("pow", enc(&a.pow(b))));
    }
    o.push(("tests", vec![a.is_zero() as u8, (a == b) as u8, (a == a) as u8]));
    o.push(("bytes", a.into_bytes()));
    o.push(("vec", a.into()));
    if !tiny || r.chance(1, 4) {
        o.push(("show", show(&a)));
    }
    let n = *r.pick(&[0usize, 1, 20, 77, 78, 90]);
    let s: String = (0..n).map(|_| *r.pick(&['0', '1', '9', '5', 'x', '-', ' ', '\u{0661}', '\u{1F600}', '7', '3', '2'])).collect();
    o.push(("from_str", Fr::from_str(&s).map(|x| enc(&x)).unwrap_or_default()));
    let d: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
    o.push(("from_str digits", Fr::from_str(&d).map(|x| enc(&x)).unwrap_or_default()));
    let n = *r.pick(&[32usize, 0, 31, 33, 64]);
    let buf: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
    o.push(("from_slice", Fr::from_slice(&buf).map(|x| enc(&x)).unwrap_or_default()));
    let mut b64 = [0u8; 64];
    b64.iter_mut().for_each(|b| *b = r.u64() as u8);
    o.push(("interpret", enc(&Fr::interpret(&b64))));
    let mut w = any4(r);
    w[3] >>= 3;
    o.push(("mul_factor", enc(&Fr::new_mul_factor(U256(w)))));
    o.push(("sample", enc(&Stream::seeded(r.u64()).gen::<Fr>())));
    o.push(("codec", enc(&dec::<Fr>(&enc(&a))?)));
    Ok(())
}
fn small(r: &mut Prng, tiny: bool) -> Res<Fr> {
    if tiny {
        Fr::from_str(&r.below(40).to_string()).ok_or("from_str".into())
    } else {
        fr_any(r)
    }
}

fn group<G: SGroup>(r: &mut Prng, o: &mut Log, tiny: bool) -> Res {
    let mut v: Vec<G> = vec![G::one(), G::zero()];
    v.push(G::one() + G::one());
    v.push(G::one() * small(r, tiny)?);
    if !tiny {
        v.push(G::random(&mut Stream::seeded(r.u64())));
        v.push(G::sample(&mut Stream::seeded(r.u64())));
    }
    let n = if tiny { 8 } else { 24 };
    for _ in 0..n {
        let (a, b) = (v[r.us(v.len())], v[r.us(v.len())]);
        let x = match r.below(9) {
            0 | 1 => a + b,
            2 => a - b,
            3 => -a,
            4 => a + a,
            5 => a - a,
            6 => {
                let mut x = a;
                x.normalize();
                x
            }
            7 => a * small(r, tiny)?,
            _ => {
                if !tiny || G::F::N == 1 {
                    dec::<G>(&enc(&a))?
                } else {
                    a
                }
            }
        };
        o.push(("value", enc(&x)));
        o.push(("bytes", x.into_bytes()));
        o.push(("tests", vec![x.is_zero() as u8, (x == a) as u8, (x == b) as u8, (a == b) as u8]));
        v.push(x);
    }
    let x = v[v.len() - 1];
    if let Some(b) = x.vec_from() {
        o.push(("vec", b));
    }
    o.push(("debug", format!("{:?}", x).into_bytes()));
    Ok(())
}
fn g1(r: &mut Prng, o: &mut Log, tiny: bool) -> Res {
    group::<G1>(r, o, tiny)?;
    let x = G1::one() * small(r, tiny)?;
    o.push(("show", show(&x)));
    Ok(())
}
fn g2(r: &mut Prng, o: &mut Log, tiny: bool) -> Res {
    group::<G2>(r, o, tiny)
}

fn gt_any(r: &mut Prng) -> Res<Gt> {
    let mut b = vec![];
    let sparse = r.chance(1, 2);
    for _ in 0..12 {
        let mut x = any4(r);
        x[3] &= u64::MAX >> 3;
        if sparse && r.chance(2, 3) {
            x = Z4;
        }
        b.extend(le_bytes(&x));
    }
    if b.iter().all(|x| *x == 0) {
        b[0] = 1;
    }
    dec::<Gt>(&b)
}
fn gt(r: &mut Prng, o: &mut Log, tiny: bool) -> Res {
    let (a, b) = (gt_any(r)?, gt_any(r)?);
    o.push(("*", enc(&(a * b))));
    o.push(("bytes", a.into_bytes()));
    o.push(("vec", a.into()));
    o.push(("codec", enc(&dec::<Gt>(&enc(&a))?)));
    o.push(("equal", vec![(a == b) as u8]));
    if tiny {
        o.push(("inverse", enc(&a.inverse())));
        o.push(("show", text(&b.to_string())));
        return Ok(());
    }
    o.push(("inverse", enc(&a.inverse())));
    o.push(("one", vec![(a * a.inverse() == Gt::one()) as u8]));
    o.push(("pow", enc(&a.pow(small(r, tiny)?))));
    o.push(("show", show(&b)));
    Ok(())
}

fn pair(r: &mut Prng, o: &mut Log, tiny: bool) -> Res {
    let p = G1::one() * small(r, tiny)?;
    let q = if tiny { G2::one() } else { G2::one() * small(r, tiny)? };
    if !tiny || r.chance(1, 4) {
        o.push(("infinity", [enc(&pairing(G1::zero(), q)), enc(&pairing(p, G2::zero()))].concat()));
    }
    let e = pairing(p, q);
    o.push(("pairing", enc(&e)));
    o.push(("in Gt", enc(&(e * e))));
    if !tiny {
        o.push(("inverse", enc(&e.inverse())));
        o.push(("pow", enc(&e.pow(fr_any(r)?))));
        o.push(("sample", enc(&Stream::seeded(r.u64()).gen::<Gt>())));
        o.push(("other", enc(&pairing(-p, q + q))));
    }
    Ok(())
}

/// Arbitrary bytes into the decoders; what comes out is used.
fn decoding(r: &mut Prng, o: &mut Log, tiny: bool) -> Res {
    let n = match r.below(6) {
        0 => r.us(420),
        1 => 32,
        2 | 3 => 96,
        4 => {
            if tiny {
                31
            } else {
                192
            }
        }
        _ => 384,
    };
    let mut b: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
    match r.below(6) {
        0 => b.iter_mut().for_each(|x| *x = 0),
        1 => b.iter_mut().skip(31).step_by(32).for_each(|x| *x &= 0x1f),
        2 if n >= 96 => {
            // a valid point, perhaps damaged
            let g = if n == 192 && !tiny { enc(&G2::one()) } else { enc(&(G1::one() + G1::one())) };
            b = g;
            if r.chance(1, 2) {
                let i = r.us(b.len());
                b[i] ^= 1 << r.below(8);
            }
        }
        3 => b.iter_mut().for_each(|x| *x = 0xff),
        _ => {}
    }
    if n % 32 == 0 && r.chance(1, 8) {
        b.pop();
    }
    let f = dec::<Fr>(&b);
    o.push(("Fr", f.as_ref().map(|f| enc(&(*f * *f))).unwrap_or_default()));
    let f = dec::<G1>(&b);
    o.push(("G1", f.as_ref().map(|f| enc(&(*f + *f))).unwrap_or_default()));
    if !tiny || b.len() != 192 {
        let f = dec::<G2>(&b);
        o.push(("G2", f.as_ref().map(|f| enc(&(*f + *f))).unwrap_or_default()));
    }
    let f = dec::<Gt>(&b);
    o.push(("Gt", f.as_ref().map(|f| enc(&(*f * *f))).unwrap_or_default()));
    o.push(("U256", dec::<U256>(&b).map(|f| enc(&f)).unwrap_or_default()));
    o.push(("U512", dec::<U512>(&b).map(|f| enc(&f)).unwrap_or_default()));
    #[cfg(feature = "s")]
    if r.chance(1, if tiny { 2 } else { 1 }) {
        let s = String::from_utf8_lossy(&b).into_owned();
        let docs = [s, "[1,2,3,4]".into(), "{\"x\":[0,0,0,0],\"y\":[1,0,0,0],\"z\":[0,0,0,0]}".into(), "[".repeat(300)];
        for d in docs.iter() {
            // not part of the log: text is for serde alone
            if let Ok(x) = serde_json::from_str::<Fr>(d) {
                let _ = x + x;
            }
            if let Ok(x) = serde_json::from_str::<G1>(d) {
                let _ = x + x;
            }
            let _ = serde_json::from_str::<Gt>(d);
            let _ = serde_json::from_str::<U512>(d);
        }
        let _ = serde_json::to_string(&gt_any(r)?);
    }
    Ok(())
}

/// A program over all groups.
fn program(r: &mut Prng, o: &mut Log, tiny: bool) -> Res {
    if tiny {
        return Ok(());
    }
    let mut v = p_hist::init(r, 3, 2, 2, 1)?;
    for _ in 0..60 {
        let op = p_hist::rand_op(r, &v, 3);
        let x = p_hist::exec(&op, &v)?;
        let (name, b) = match x {
            p_hist::Out::Fr(x) => {
                v.fr.push((x, Z4));
                ("Fr", [enc(&x), text(&x.to_string())].concat())
            }
            p_hist::Out::NoFr => ("none", vec![]),
            p_hist::Out::G1(x) => {
                v.g1.push((x, Z4));
                ("G1", [enc(&x), x.into_bytes(), text(&x.to_string())].concat())
            }
            p_hist::Out::G2(x) => {
                v.g2.push((x, Z4));
                ("G2", [enc(&x), x.into_bytes()].concat())
            }
            p_hist::Out::Gt(x) => {
                v.gt.push((x, Z4));
                ("Gt", [enc(&x), x.into_bytes(), text(&x.to_string())].concat())
            }
            p_hist::Out::Bool(b) => ("bool", vec![b as u8]),
            p_hist::Out::Sum(x) => ("sum", x.to_le_bytes().to_vec()),
        };
        o.push((name, b));
    }
    Ok(())
}

pub fn parts() -> Vec<Part> {
    let p = |name, f: LogFn, native, tiny| Part { name, f, native, tiny };
    vec![
        p("arith", arith, 4000, 12),
        p("scalars", scalars, 2000, 6),
        p("g1", g1, 120, 2),
        p("g2", g2, 60, 1),
        p("gt", gt, 150, 2),
        p("pair", pair, 40, 1),
        p("decoding", decoding, 400, 8),
        p("program", program, 30, 0),
    ]
}
pub fn digest(log: &Log) -> u64 {
    let mut h = 0u64;
    for (l, b) in log {
        h = mix(h ^ hash_bytes(l.as_bytes()) ^ hash_bytes(b).rotate_left(1));
    }
    h
}
pub fn case(p: &Part, seed: u64, idx: u64, tiny: bool) -> (Log, Result<(), String>) {
    let mut r = Prng::new(mix(mix(seed) ^ hash_bytes(p.name.as_bytes())).wrapping_add(mix(idx)));
    let mut log = vec![];
    let res = match guard(|| (p.f)(&mut r, &mut log, tiny)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(e),
        Err((loc, m)) => Err(format!("panic at {}: {}", loc, m)),
    };
    (log, res)
}
