//! C10 round trips and the wire format; C11 decoding of arbitrary data.
use crate::ensure;
use crate::gen::*;
use crate::p_fr::fr_in;
use crate::refcurve::*;
use crate::refmath::*;
use crate::reftower::*;
use crate::rt::*;
use crate::sut::*;
use rabe_bn::arith::{U256, U512};

/// Text form of residues in JSON: nested as the types are.
#[cfg(feature = "s")]
mod text {
    use super::*;
    pub fn int(w: &[u64]) -> String {
        format!("[{}]", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
    }
    pub fn fq2(r: &[U4]) -> String {
        format!("{{\"c0\":{},\"c1\":{}}}", int(&r[0]), int(&r[1]))
    }
    pub fn coord(r: &[U4]) -> String {
        if r.len() == 1 {
            int(&r[0])
        } else {
            fq2(r)
        }
    }
    pub fn point(r: &[U4]) -> String {
        let n = r.len() / 3;
        format!("{{\"x\":{},\"y\":{},\"z\":{}}}", coord(&r[..n]), coord(&r[n..2 * n]), coord(&r[2 * n..]))
    }
    pub fn fq6(r: &[U4]) -> String {
        format!("{{\"c0\":{},\"c1\":{},\"c2\":{}}}", fq2(&r[..2]), fq2(&r[2..4]), fq2(&r[4..6]))
    }
    pub fn fq12(r: &[U4]) -> String {
        format!("{{\"c0\":{},\"c1\":{}}}", fq6(&r[..6]), fq6(&r[6..]))
    }
    pub fn of(kind: Kind, r: &[U4]) -> String {
        match kind {
            Kind::Fr => int(&r[0]),
            Kind::G1 | Kind::G2 => point(r),
            Kind::Gt => fq12(r),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Fr,
    G1,
    G2,
    Gt,
}
impl Kind {
    fn n(self) -> usize {
        match self {
            Kind::Fr => 1,
            Kind::G1 => 3,
            Kind::G2 => 6,
            Kind::Gt => 12,
        }
    }
    fn modulus(self) -> &'static Mod {
        match self {
            Kind::Fr => &FR,
            _ => &FQ,
        }
    }
}

/// All routes through the codec: `t` must encode to `wire` (and `json`), and decode to an
/// equal value that encodes the same.
#[cfg(feature = "s")]
fn trip<T: Codec + PartialEq + std::fmt::Debug>(t: &T, wire: &[u8], json: Option<&str>, what: &str) -> Res {
    use bincode::Options;
    let b = bincode::serialize(t).map_err(|e| format!("{}: bincode: {}", what, e))?;
    ensure!(b == wire, "{}: bincode encoding {:02x?} is not the wire format {:02x?}", what, b, wire);
    let again = |v: &T, how: &str| -> Res {
        ensure!(v == t && t == v, "{}: {} does not return an equal value", what, how);
        ensure!(bincode::serialize(v).ok().as_deref() == Some(&b[..]), "{}: re-encoding after {} differs", what, how);
        Ok(())
    };
    let v: T = bincode::deserialize(&b).map_err(|e| format!("{}: bincode decode: {}", what, e))?;
    again(&v, "bincode")?;
    let v: T = bincode::deserialize_from(&b[..]).map_err(|e| format!("{}: bincode from reader: {}", what, e))?;
    again(&v, "bincode from a reader")?;
    // another integer encoding: variable length, big-endian
    let o = bincode::DefaultOptions::new().with_big_endian();
    let vb = o.serialize(t).map_err(|e| format!("{}: varint: {}", what, e))?;
    let v: T = o.deserialize(&vb).map_err(|e| format!("{}: varint decode: {}", what, e))?;
    again(&v, "varint bincode")?;
    let j = serde_json::to_string(t).map_err(|e| format!("{}: json: {}", what, e))?;
    if let Some(w) = json {
        ensure!(j == w, "{}: json encoding {} is not {}", what, j, w);
    }
    let v: T = serde_json::from_str(&j).map_err(|e| format!("{}: json decode: {}", what, e))?;
    again(&v, "json")?;
    let v: T = serde_json::from_reader(j.as_bytes()).map_err(|e| format!("{}: json from reader: {}", what, e))?;
    again(&v, "json from a reader")?;
    let p = serde_json::to_vec_pretty(t).map_err(|e| format!("{}: json: {}", what, e))?;
    let v: T = serde_json::from_slice(&p).map_err(|e| format!("{}: pretty json: {}", what, e))?;
    again(&v, "pretty json")?;
    // through a document tree (which orders fields its own way)
    let tree = serde_json::to_value(t).map_err(|e| format!("{}: json value: {}", what, e))?;
    let v: T = serde_json::from_value(tree).map_err(|e| format!("{}: json value: {}", what, e))?;
    again(&v, "a json value")?;
    Ok(())
}
#[cfg(feature = "b")]
fn trip<T: Codec + PartialEq + std::fmt::Debug>(t: &T, wire: &[u8], _json: Option<&str>, what: &str) -> Res {
    let b = borsh::to_vec(t).map_err(|e| format!("{}: borsh: {}", what, e))?;
    ensure!(b == wire, "{}: borsh encoding {:02x?} is not the wire format {:02x?}", what, b, wire);
    let again = |v: &T, how: &str| -> Res {
        ensure!(v == t && t == v, "{}: {} does not return an equal value", what, how);
        ensure!(borsh::to_vec(v).ok().as_deref() == Some(&b[..]), "{}: re-encoding after {} differs", what, how);
        Ok(())
    };
    let v: T = borsh::from_slice(&b).map_err(|e| format!("{}: borsh decode: {}", what, e))?;
    again(&v, "borsh")?;
    let v: T = borsh::from_reader(&mut &b[..]).map_err(|e| format!("{}: borsh from reader: {}", what, e))?;
    again(&v, "borsh from a reader")?;
    // in the middle of a stream: exactly the encoding is consumed
    let mut long = b.clone();
    long.extend([0xaa; 17]);
    let mut s = &long[..];
    let v = T::deserialize(&mut s).map_err(|e| format!("{}: borsh prefix: {}", what, e))?;
    again(&v, "borsh with more data behind")?;
    ensure!(s.len() == 17, "{}: decoding left {} of 17 bytes", what, s.len());
    let mut w = vec![];
    t.serialize(&mut w).map_err(|e| format!("{}: borsh writer: {}", what, e))?;
    ensure!(w == b, "{}: serialize and to_vec differ", what);
    Ok(())
}
/// Containers: encodings are concatenated.
fn trip_seq<T: Codec + PartialEq + Copy + std::fmt::Debug>(ts: [T; 3], what: &str) -> Res {
    let one: Vec<u8> = ts.iter().flat_map(enc).collect();
    let t3 = (ts[0], ts[1], ts[2]);
    let b = enc(&t3);
    ensure!(b == one, "{}: a tuple does not encode as its parts in a row", what);
    let v: (T, T, T) = dec(&b).map_err(|e| format!("{}: tuple: {}", what, e))?;
    ensure!(v == t3, "{}: a tuple does not come back", what);
    let vec = ts.to_vec();
    let b = enc(&vec);
    ensure!(b.ends_with(&one), "{}: a vector does not end in its parts", what);
    let v: Vec<T> = dec(&b).map_err(|e| format!("{}: vector: {}", what, e))?;
    ensure!(v == vec, "{}: a vector does not come back", what);
    let opt = (Some(ts[0]), None::<T>, ts[1]);
    let v: (Option<T>, Option<T>, T) = dec(&enc(&opt)).map_err(|e| format!("{}: options: {}", what, e))?;
    ensure!(v == opt, "{}: options do not come back", what);
    Ok(())
}

#[cfg(feature = "s")]
fn js(kind: Kind, r: &[U4]) -> Option<String> {
    Some(text::of(kind, r))
}
#[cfg(feature = "b")]
fn js(_: Kind, _: &[U4]) -> Option<String> {
    None
}

fn rt_fr(c: &mut Case) -> Res {
    let mut out = [Fr::zero(); 3];
    for i in 0..3 {
        let r = &mut c.rng;
        let v = scalar(r);
        let f = fr_in(r, &v)?;
        let raw = FR.to_mont(&v);
        trip(&f, &le_bytes(&raw), js(Kind::Fr, &[raw]).as_deref(), &format!("Fr residue {}", hex(&raw)))?;
        out[i] = f;
        c.sig(&v);
    }
    c.nontrivial();
    c.add("values", 3);
    trip_seq(out, "Fr")?;
    c.sample(|| format!("Fr {:?}", out[0]));
    Ok(())
}

fn rt_int(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let a = any4(r);
    let z = [limb(r), limb(r), limb(r), limb(r), r.u64(), limb(r), limb(r), limb(r)];
    #[cfg(feature = "s")]
    let (ja, jz) = (Some(text::int(&a)), Some(text::int(&z)));
    #[cfg(feature = "b")]
    let (ja, jz): (Option<String>, Option<String>) = (None, None);
    trip(&U256(a), &le_bytes(&a), ja.as_deref(), &format!("U256 {}", hex(&a)))?;
    trip(&U512(z), &le_bytes(&z), jz.as_deref(), &format!("U512 {}", hex(&z)))?;
    trip_seq([U256(a), U256(any4(r)), U256(any4(r))], "U256")?;
    c.sig(&a);
    c.sig(&z);
    c.nontrivial();
    c.add("values", 2);
    Ok(())
}

fn rt_g<G: SGroup>(c: &mut Case) -> Res
where
    G::F: GenField,
    G::C: GenCurve,
{
    let kind = if G::F::N == 1 { Kind::G1 } else { Kind::G2 };
    let mut out = vec![];
    for _ in 0..3 {
        let r = &mut c.rng;
        let p = point::<G::C>(r);
        let (j, k) = rep(r, &p.a, None);
        let wire = jac_bytes(&j);
        let raws: Vec<U4> = le_words(&wire).chunks(4).map(|w| [w[0], w[1], w[2], w[3]]).collect();
        let g: G = if r.chance(1, 3) {
            // computed, then observed
            let g = inject::<G>(r, &p, &j)? + inject::<G>(r, &p, &j)?;
            let rg = g_raws(&g)?;
            trip(&g, &raws_bytes(&rg), js(kind, &rg).as_deref(), &format!("{} computed, {:?}", G::C::NAME, g))?;
            g
        } else {
            let g: G = g_of_jac(&j)?;
            trip(&g, &wire, js(kind, &raws).as_deref(), &format!("{} {:?}", G::C::NAME, j))?;
            g_is(&g, &p.pt(), || format!("{} decoded {:?}", G::C::NAME, j))?;
            g
        };
        let mut n = g;
        n.normalize();
        let rn = g_raws(&n)?;
        trip(&n, &raws_bytes(&rn), js(kind, &rn).as_deref(), &format!("{} normalised {:?}", G::C::NAME, j))?;
        for u in &raws {
            c.sig(u);
        }
        if matches!(k, Zk::InfCanon | Zk::InfLeft) {
            c.count("values:infinity");
        }
        out.push(g);
    }
    c.nontrivial();
    c.add("values", 6);
    trip_seq([out[0], out[1], out[2]], G::C::NAME)?;
    c.sample(|| format!("{} {:?}", G::C::NAME, out[0]));
    Ok(())
}

fn rt_gt(c: &mut Case) -> Res {
    let mut out = vec![];
    for i in 0..3 {
        let r = &mut c.rng;
        let (g, v) = if i == 0 && r.chance(1, 3) {
            let a = exponent(r);
            (pairing(G1::one() * fr_in(r, &a)?, G2::one()), crate::p_pair::pw(&a))
        } else {
            let v = rq12(r);
            (gt_of(&v)?, v)
        };
        let raws: Vec<U4> = v.to_tower().iter().map(|q| FQ.to_mont(&q.0)).collect();
        trip(&g, &gt_bytes(&v), js(Kind::Gt, &raws).as_deref(), &format!("Gt {:?}", raws))?;
        for u in &raws {
            c.sig(u);
        }
        out.push(g);
    }
    c.nontrivial();
    c.add("values", 3);
    trip_seq([out[0], out[1], out[2]], "Gt")?;
    c.sample(|| format!("Gt {:02x?}...", &out[0].into_bytes()[..8]));
    Ok(())
}

// ---- C11

#[derive(PartialEq, Clone, Copy, Debug)]
enum Verdict {
    Accept,
    Reject,
    /// not settled by the property (leftover coordinates of infinity that no computation leaves)
    Either,
}

fn judge_point<C: Curve>(raws: &[U4]) -> Verdict
where
    C::F: SField,
{
    let n = C::F::N;
    let (x, y, z) = (C::F::of_raws(&raws[..n]), C::F::of_raws(&raws[n..2 * n]), C::F::of_raws(&raws[2 * n..]));
    if z.is_zero() {
        return if y.sq() == x.sq().mul(&x) && !x.is_zero() || (x.is_zero() && y == C::F::one()) {
            Verdict::Accept
        } else {
            Verdict::Either
        };
    }
    let p = Pt::<C>::from_jac(&x, &y, &z);
    if p.on_curve() && p.order_r() {
        Verdict::Accept
    } else {
        Verdict::Reject
    }
}
fn verdict(kind: Kind, raws: &[U4]) -> Verdict {
    if raws.iter().any(|u| !lt(u, &kind.modulus().p)) {
        return Verdict::Reject;
    }
    match kind {
        Kind::Fr => Verdict::Accept,
        Kind::G1 => judge_point::<C1>(raws),
        Kind::G2 => judge_point::<C2>(raws),
        Kind::Gt => {
            if raws.iter().all(|u| *u == Z4) {
                Verdict::Reject
            } else {
                Verdict::Accept
            }
        }
    }
}

/// The cofactor of the order-r group on the twist is 2p - r, the product of four primes.
const COFACTOR: U4 = [0x345f2299c0f9fa8d, 0x06ceecda572a2489, 0xb85045b68181585e, 0x30644e72e131a029];
const SMALL: [u64; 3] = [10069, 5864401, 1875725156269];

fn twist_point(r: &mut Prng) -> Pt<C2> {
    loop {
        let x = Rq2::gen(r);
        if let Some(y) = x.sq().mul(&x).add(&C2::b()).sqrt() {
            let p = Pt::affine(x, if r.chance(1, 2) { y.neg() } else { y });
            return match r.below(4) {
                // in the cofactor's part alone, of small order, or in the group
                0 => p.mul(&R),
                1 => {
                    // of an order made of some of these primes (or of the fourth)
                    let mut q = COFACTOR;
                    let some = 1 + r.below(15);
                    for (i, d) in SMALL.iter().enumerate() {
                        let (t, rem) = divrem(&wide(&q), &[*d, 0, 0, 0]);
                        assert!(rem == Z4);
                        if some >> i & 1 == 1 {
                            q = low4(&t);
                        }
                    }
                    if some >> 3 == 1 {
                        // all that is left of the cofactor
                        let mut t = COFACTOR;
                        for d in SMALL {
                            t = low4(&divrem(&wide(&t), &[d, 0, 0, 0]).0);
                        }
                        q = low4(&divrem(&wide(&q), &t).0);
                    }
                    let s = p.mul(&q).mul(&R);
                    if s.is_inf() {
                        p
                    } else if r.chance(1, 2) {
                        s
                    } else {
                        // a group element plus one of small order
                        s.add(&Pt::gen_mul(&FR.red4(&uniform4(r))))
                    }
                }
                2 => p.mul(&COFACTOR),
                _ => p,
            };
        }
    }
}

/// Residues to decode: valid ones, and ones that break validity in a chosen way.
fn hostile(r: &mut Prng, kind: Kind) -> (Vec<U4>, &'static str) {
    let tag = r.below(14);
    hostile_of(r, kind, tag)
}
fn hostile_of(r: &mut Prng, kind: Kind, tag: u64) -> (Vec<U4>, &'static str) {
    let jac = |j: Vec<u8>| -> Vec<U4> { le_words(&j).chunks(4).map(|w| [w[0], w[1], w[2], w[3]]).collect() };
    let m = kind.modulus();
    let mut raws: Vec<U4> = match kind {
        Kind::Fr => vec![FR.to_mont(&scalar(r))],
        Kind::G1 => {
            let p = point::<C1>(r);
            jac(jac_bytes(&rep(r, &p.a, None).0))
        }
        Kind::G2 => {
            let p = point::<C2>(r);
            jac(jac_bytes(&rep(r, &p.a, None).0))
        }
        Kind::Gt => rq12(r).to_tower().iter().map(|q| FQ.to_mont(&q.0)).collect(),
    };
    let i = r.us(raws.len());
    let tag = match tag {
        0 => "valid",
        1 => {
            // the same value, not reduced
            let mut x = raws[i];
            for _ in 0..1 + r.below(4) {
                let (y, carry) = add4(&x, &m.p);
                if carry {
                    break;
                }
                x = y;
            }
            raws[i] = x;
            "residue plus modulus"
        }
        2 => {
            raws[i] = match r.below(6) {
                0 => m.p,
                1 => add4(&m.p, &ONE4).0,
                2 => sub4(&m.p, &ONE4).0,
                3 => [u64::MAX; 4],
                4 => {
                    // top word at the modulus's, lower ones above
                    let mut x = m.p;
                    x[r.us(3)] = u64::MAX;
                    x
                }
                _ => any4(r),
            };
            "residue at the limit"
        }
        3 => {
            raws[i][r.us(4)] ^= 1 << r.below(64);
            "bit flipped"
        }
        4 => {
            let j = r.us(raws.len());
            raws.swap(i, j);
            "coordinates swapped"
        }
        5 => {
            raws[i] = Z4;
            "coordinate zeroed"
        }
        6 => {
            for u in raws.iter_mut() {
                *u = Z4;
            }
            if r.chance(1, 2) {
                raws[i] = if r.chance(1, 2) { m.rr } else { m.p };
            }
            "all zero"
        }
        7 => {
            for u in raws.iter_mut() {
                *u = m.to_mont(&elem(r, m));
            }
            "random coordinates"
        }
        8 | 9 | 10 if kind == Kind::G2 => {
            let p = twist_point(r);
            let (j, _) = rep(r, &p.to_affine(), None);
            raws = jac(jac_bytes(&j));
            "twist point"
        }
        8 if kind == Kind::G1 => {
            // a point of another curve y^2 = x^3 + b'
            let (x, y) = (rq(r), rq(r));
            let (j, _) = rep(r, &Some((x, y)), None);
            raws = jac(jac_bytes(&j));
            "other curve"
        }
        9 if kind == Kind::G1 || kind == Kind::G2 => {
            // y off by a little or by a unit
            let n = kind.n() / 3;
            for u in raws[n..2 * n].iter_mut() {
                if r.chance(1, 2) {
                    *u = m.add(u, &[1 + r.below(3), 0, 0, 0]);
                } else {
                    *u = m.mul(u, &FQ.rr);
                }
            }
            "y off"
        }
        _ => {
            let k = r.us(4);
            raws[i][k] = limb(r);
            "word replaced"
        }
    };
    (raws, tag)
}

/// Whatever was decoded behaves: no operation on it panics.
fn use_fr(f: &Fr) -> Res {
    let v = fr_val(f)?;
    let i = f.inverse();
    ensure!(i.is_none() == (v == Z4), "inverse of the decoded {} is wrong", hex(&v));
    if let Some(i) = i {
        ensure!(*f * i == Fr::one(), "inverse of the decoded {} is wrong", hex(&v));
    }
    let _ = (f.into_bytes(), f.to_string(), *f + *f, *f - Fr::one(), -*f, f.pow(*f));
    Ok(())
}
fn use_g<G: SGroup>(g: &G, r: &mut Prng) -> Res {
    let p = g_pt(g)?;
    ensure!(p.order_r(), "{} value decoded though outside the group: {:?}", G::C::NAME, g_jac(g)?);
    let k = FR.red4(&uniform4(r));
    let _ = *g * fr_of_val(&k)?;
    let mut n = *g;
    n.normalize();
    ensure!(n == *g, "normalising a decoded point changes it");
    let _ = (*g + G::one(), *g - *g, g.into_bytes());
    Ok(())
}
fn use_gt(g: &Gt) -> Res {
    let v = gt_val(g)?;
    ensure!(!v.is_zero(), "zero decoded as Gt");
    gt_is(&(*g * g.inverse()), &Rq12::one(), || "decoded Gt times its inverse".into())?;
    let _ = (g.pow(Fr::one()), g.into_bytes(), g.to_string());
    Ok(())
}
fn use_any(kind: Kind, got: &Got, r: &mut Prng) -> Res {
    match got {
        Got::Fr(f) => use_fr(f),
        Got::G1(g) => {
            use_g(g, r)?;
            if r.chance(1, 20) {
                let _ = pairing(*g, G2::one());
            }
            Ok(())
        }
        Got::G2(g) => {
            use_g(g, r)?;
            if r.chance(1, 20) {
                let _ = pairing(G1::one(), *g);
            }
            Ok(())
        }
        Got::Gt(g) => use_gt(g),
    }
    .map_err(|e| format!("{:?}: {}", kind, e))
}
#[derive(Debug)]
enum Got {
    Fr(Fr),
    G1(G1),
    G2(G2),
    Gt(Gt),
}
fn dec_any(kind: Kind, b: &[u8]) -> Result<Got, String> {
    Ok(match kind {
        Kind::Fr => Got::Fr(dec(b)?),
        Kind::G1 => Got::G1(dec(b)?),
        Kind::G2 => Got::G2(dec(b)?),
        Kind::Gt => Got::Gt(dec(b)?),
    })
}
fn got_raws(g: &Got) -> Res<Vec<U4>> {
    match g {
        Got::Fr(f) => Ok(vec![fr_raw(f)?]),
        Got::G1(g) => g_raws(g),
        Got::G2(g) => g_raws(g),
        Got::Gt(g) => gt_raws(g),
    }
}
fn settle(kind: Kind, v: Verdict, got: Result<Got, String>, raws: &[U4], tag: &str, how: &str, r: &mut Prng) -> Res {
    let w = || format!("{:?} from {} ({}): {}", kind, how, tag, raws.iter().map(|u| hex(u)).collect::<Vec<_>>().join(" "));
    match got {
        Ok(g) => {
            ensure!(v != Verdict::Reject, "{}: accepted though not a valid element", w());
            let back = got_raws(&g).map_err(|e| format!("{}: {}", w(), e))?;
            ensure!(back == raws, "{}: decodes to other residues {:?}", w(), back);
            use_any(kind, &g, r).map_err(|e| format!("{}: {}", w(), e))
        }
        Err(e) => {
            ensure!(v != Verdict::Accept, "{}: refused though valid: {}", w(), e);
            Ok(())
        }
    }
}
fn count(c: &mut Case, v: Verdict, tag: &'static str) {
    c.count(match v {
        Verdict::Accept => "verdict:valid",
        Verdict::Reject => "verdict:invalid",
        Verdict::Either => "verdict:unsettled",
    });
    c.count(match tag {
        "valid" => "hostile:none",
        "residue plus modulus" => "hostile:residue+modulus",
        "residue at the limit" => "hostile:residue-at-limit",
        "bit flipped" => "hostile:bit-flip",
        "coordinates swapped" => "hostile:swapped",
        "coordinate zeroed" => "hostile:zeroed",
        "all zero" => "hostile:all-zero",
        "random coordinates" => "hostile:random",
        "twist point" => "hostile:twist-point",
        "other curve" => "hostile:other-curve",
        "y off" => "hostile:y-off",
        _ => "hostile:word-replaced",
    });
}

fn with<T>(got: (Result<T, String>, &'static str), f: fn(T) -> Got) -> (Result<Got, String>, &'static str) {
    (got.0.map(f), got.1)
}
fn bad(c: &mut Case, kind: Kind) -> Res {
    let (raws, tag) = hostile(&mut c.rng, kind);
    let v = verdict(kind, &raws);
    let b = raws_bytes(&raws);
    settle(kind, v, dec_any(kind, &b), &raws, tag, "binary", &mut c.rng)?;
    #[cfg(feature = "s")]
    {
        let t = text::of(kind, &raws);
        let got = json_any(kind, &t);
        settle(kind, v, got, &raws, tag, "json", &mut c.rng)?;
        if c.rng.chance(1, 4) {
            let got = serde_json::from_str::<serde_json::Value>(&t).map_err(|e| e.to_string()).and_then(|x| {
                Ok(match kind {
                    Kind::Fr => Got::Fr(serde_json::from_value(x).map_err(|e| e.to_string())?),
                    Kind::G1 => Got::G1(serde_json::from_value(x).map_err(|e| e.to_string())?),
                    Kind::G2 => Got::G2(serde_json::from_value(x).map_err(|e| e.to_string())?),
                    Kind::Gt => Got::Gt(serde_json::from_value(x).map_err(|e| e.to_string())?),
                })
            });
            settle(kind, v, got, &raws, tag, "a json value", &mut c.rng)?;
        }
        if c.rng.chance(1, 4) {
            let got = match kind {
                Kind::Fr => bincode::deserialize_from(&b[..]).map(Got::Fr),
                Kind::G1 => bincode::deserialize_from(&b[..]).map(Got::G1),
                Kind::G2 => bincode::deserialize_from(&b[..]).map(Got::G2),
                Kind::Gt => bincode::deserialize_from(&b[..]).map(Got::Gt),
            };
            settle(kind, v, got.map_err(|e| e.to_string()), &raws, tag, "a binary reader", &mut c.rng)?;
        }
    }
    if c.rng.chance(1, 4) {
        let r = &mut c.rng;
        let (got, how) = match kind {
            Kind::Fr => with(crate::p_stream::decode(r, &b), Got::Fr),
            Kind::G1 => with(crate::p_stream::decode(r, &b), Got::G1),
            Kind::G2 => with(crate::p_stream::decode(r, &b), Got::G2),
            Kind::Gt => with(crate::p_stream::decode(r, &b), Got::Gt),
        };
        settle(kind, v, got, &raws, tag, how, &mut c.rng)?;
        c.count("decoded:stream-or-own-format");
    }
    #[cfg(feature = "b")]
    if c.rng.chance(1, 4) {
        let got = match kind {
            Kind::Fr => borsh::from_reader(&mut &b[..]).map(Got::Fr),
            Kind::G1 => borsh::from_reader(&mut &b[..]).map(Got::G1),
            Kind::G2 => borsh::from_reader(&mut &b[..]).map(Got::G2),
            Kind::Gt => borsh::from_reader(&mut &b[..]).map(Got::Gt),
        };
        settle(kind, v, got.map_err(|e| e.to_string()), &raws, tag, "a binary reader", &mut c.rng)?;
    }
    for u in &raws {
        c.sig(u);
    }
    if tag != "valid" {
        c.nontrivial();
    }
    count(c, v, tag);
    c.sample(|| format!("{:?} {} -> {:?}: {}", kind, tag, v, raws.iter().map(|u| hex(u)).collect::<Vec<_>>().join(" ")));
    Ok(())
}
fn bad_fr(c: &mut Case) -> Res {
    bad(c, Kind::Fr)
}
fn bad_g1(c: &mut Case) -> Res {
    bad(c, Kind::G1)
}
fn bad_g2(c: &mut Case) -> Res {
    bad(c, Kind::G2)
}
fn bad_gt(c: &mut Case) -> Res {
    bad(c, Kind::Gt)
}

/// Byte strings of any length and content.
fn bytes(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let kind = *r.pick(&[Kind::Fr, Kind::G1, Kind::G2, Kind::Gt]);
    let full = 32 * kind.n();
    let n = match r.below(6) {
        0 => r.us(full),
        1 => full - 1,
        2 => full + 1 + r.us(40),
        3 => full - 8 * (1 + r.us(full / 8)),
        4 => r.us(2 * full),
        _ => full,
    };
    let (raws, _) = hostile(r, kind);
    let mut b = raws_bytes(&raws);
    b.resize(n, r.u64() as u8);
    if r.chance(1, 3) {
        for x in b.iter_mut() {
            *x = r.u64() as u8;
        }
    }
    c.sig(&[n as u64, hash_bytes(&b)]);
    let got = dec_any(kind, &b);
    if n != full {
        ensure!(got.is_err(), "{:?} accepted from {} bytes", kind, n);
        c.count("bytes:wrong-length");
    } else {
        let raws: Vec<U4> = le_words(&b).chunks(4).map(|w| [w[0], w[1], w[2], w[3]]).collect();
        settle(kind, verdict(kind, &raws), got, &raws, "bytes", "binary", &mut c.rng)?;
    }
    // collections with a hostile length in front
    let mut v = c.rng.u64().to_le_bytes().to_vec();
    if c.rng.chance(1, 2) {
        v[1..8].fill(0);
    }
    v.extend_from_slice(&b);
    let _ = match kind {
        Kind::Fr => dec::<Vec<Fr>>(&v).map(|x| x.len()),
        Kind::G1 => dec::<Vec<G1>>(&v).map(|x| x.len()),
        Kind::G2 => dec::<Vec<G2>>(&v).map(|x| x.len()),
        Kind::Gt => dec::<Vec<Gt>>(&v).map(|x| x.len()),
    };
    c.nontrivial();
    Ok(())
}

#[cfg(feature = "s")]
fn json_any(kind: Kind, t: &str) -> Result<Got, String> {
    let e = |e: serde_json::Error| e.to_string();
    Ok(match kind {
        Kind::Fr => Got::Fr(serde_json::from_str(t).map_err(e)?),
        Kind::G1 => Got::G1(serde_json::from_str(t).map_err(e)?),
        Kind::G2 => Got::G2(serde_json::from_str(t).map_err(e)?),
        Kind::Gt => Got::Gt(serde_json::from_str(t).map_err(e)?),
    })
}

/// Has the second document less than the first: a field or an element missing somewhere, or null?
#[cfg(feature = "s")]
fn incomplete(whole: &serde_json::Value, part: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (whole, part) {
        (_, Null) => true,
        (Object(w), Object(p)) => w.iter().any(|(k, x)| p.get(k).map_or(true, |y| incomplete(x, y))),
        // fields in order, without their names
        (Object(w), Array(p)) => w.len() > p.len() || w.values().zip(p).any(|(x, y)| incomplete(x, y)),
        (Array(w), Array(p)) => w.len() > p.len() || w.iter().zip(p).any(|(x, y)| incomplete(x, y)),
        _ => false,
    }
}

/// Documents of wrong shape: whatever is accepted is valid, and complete.
#[cfg(feature = "s")]
fn shapes(c: &mut Case) -> Res {
    use serde_json::{json, Value};
    let r = &mut c.rng;
    let kind = *r.pick(&[Kind::Fr, Kind::G1, Kind::G2, Kind::Gt]);
    // damage to the shape is to be the only damage, mostly
    let tag = if r.chance(2, 3) { 0 } else { r.below(14) };
    let (raws, _) = hostile_of(r, kind, tag);
    let mut doc: Value = serde_json::from_str(&text::of(kind, &raws)).map_err(|e| e.to_string())?;
    let whole = doc.clone();
    fn nodes(v: &Value, path: String, out: &mut Vec<String>) {
        out.push(path.clone());
        match v {
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    nodes(x, format!("{}/{}", path, i), out);
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    nodes(x, format!("{}/{}", path, k), out);
                }
            }
            _ => {}
        }
    }
    for _ in 0..1 + r.us(2) {
        let mut ps = vec![];
        nodes(&doc, String::new(), &mut ps);
        if r.chance(1, 2) {
            // the fields of elements rather than the words
            ps.retain(|p| p.matches('/').count() <= 2);
        }
        let p = r.pick(&ps).clone();
        let junk = match r.below(14) {
            0 => Value::Null,
            1 => json!(true),
            2 => json!(""),
            3 => json!("12345"),
            4 => json!(-1),
            5 => json!(1.5),
            6 => json!(1e300),
            7 => json!([]),
            8 => json!({}),
            9 => json!([0, 0, 0]),
            10 => json!([0, 0, 0, 0, 0]),
            11 => json!([[0, 0, 0, 0]]),
            12 => json!({"x": 1, "y": 2, "z": 3}),
            _ => json!(r.u64()),
        };
        let edit = r.below(5);
        let Some(n) = doc.pointer_mut(&p) else { continue };
        match (edit, n) {
            (0, Value::Array(a)) if !a.is_empty() => {
                let i = r.us(a.len());
                a.remove(i);
            }
            (1, Value::Array(a)) => a.push(junk),
            (0, Value::Object(o)) if !o.is_empty() => {
                let k = o.keys().nth(r.us(o.len())).unwrap().clone();
                o.remove(&k);
            }
            (1, Value::Object(o)) => {
                o.insert((*r.pick(&["x", "y", "z", "c0", "c1", "c2", "w", ""])).into(), junk);
            }
            (2, Value::Object(o)) if !o.is_empty() => {
                // as a sequence
                let a: Vec<Value> = o.values().cloned().collect();
                *doc.pointer_mut(&p).unwrap() = Value::Array(a);
            }
            (_, n) => *n = junk,
        }
    }
    let mut t = doc.to_string();
    if r.chance(1, 4) {
        // textual damage
        let mut b = t.into_bytes();
        for _ in 0..1 + r.us(3) {
            if b.is_empty() {
                break;
            }
            let i = r.us(b.len());
            match r.below(4) {
                0 => b.truncate(i),
                1 => b[i] = r.below(128) as u8,
                2 => {
                    b.remove(i);
                }
                _ => b.insert(i, *r.pick(b"[]{},:\"0-e.")),
            }
        }
        t = String::from_utf8_lossy(&b).into_owned();
    }
    if r.chance(1, 8) {
        // the same field twice
        t = t.replacen("\"z\":", "\"x\":[1,0,0,0],\"z\":", 1);
    }
    c.sig(&[hash_bytes(t.as_bytes())]);
    c.nontrivial();
    match json_any(kind, &t) {
        Ok(g) => {
            c.count("shape:accepted");
            if let Ok(d) = serde_json::from_str::<Value>(&t) {
                ensure!(!incomplete(&whole, &d), "{:?} from {}: accepted though a part is missing", kind, t);
            }
            let raws = got_raws(&g).map_err(|e| format!("{:?} from {}: {}", kind, t, e))?;
            ensure!(verdict(kind, &raws) != Verdict::Reject, "{:?} from {}: accepted though not a valid element", kind, t);
            use_any(kind, &g, &mut c.rng).map_err(|e| format!("from {}: {}", t, e))?;
        }
        Err(_) => c.count("shape:refused"),
    }
    c.sample(|| t.chars().take(300).collect());
    Ok(())
}
#[cfg(feature = "b")]
fn shapes(c: &mut Case) -> Res {
    bytes(c)
}

pub fn families(prop: &str) -> Vec<Family> {
    let f = |name, f: CaseFn, quick, thorough| Family { name, f, quick, thorough };
    match prop {
        "C10" => vec![
            f("trip-fr", rt_fr, 40_000, 2_000_000),
            f("trip-int", rt_int, 80_000, 4_000_000),
            f("trip-g1", rt_g::<G1>, 12_000, 600_000),
            f("trip-g2", rt_g::<G2>, 500, 30_000),
            f("trip-gt", rt_gt, 8_000, 400_000),
        ],
        "C11" => vec![
            f("decode-fr", bad_fr, 150_000, 8_000_000),
            f("decode-g1", bad_g1, 30_000, 1_500_000),
            f("decode-g2", bad_g2, 6_000, 300_000),
            f("decode-gt", bad_gt, 20_000, 1_000_000),
            f("decode-bytes", bytes, 40_000, 2_000_000),
            f("decode-shapes", shapes, 40_000, 2_000_000),
        ],
        _ => vec![],
    }
}
