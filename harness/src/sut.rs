//! The library under test, reached through its public interface only. Values are injected
//! through the codec or built by operations, and observed through the codec.
use crate::refcurve::*;
use crate::refmath::*;
use crate::reftower::*;
pub use rabe_bn::{pairing, Fr, Group, Gt, G1, G2};

#[cfg(feature = "s")]
pub trait Codec: serde::Serialize + serde::de::DeserializeOwned {}
#[cfg(feature = "s")]
impl<T: serde::Serialize + serde::de::DeserializeOwned> Codec for T {}
#[cfg(feature = "b")]
pub trait Codec: borsh::BorshSerialize + borsh::BorshDeserialize {}
#[cfg(feature = "b")]
impl<T: borsh::BorshSerialize + borsh::BorshDeserialize> Codec for T {}

#[cfg(feature = "s")]
pub fn enc<T: Codec>(t: &T) -> Vec<u8> {
    bincode::serialize(t).unwrap_or_else(|e| panic!("SUT: encoding failed: {}", e))
}
#[cfg(feature = "s")]
pub fn dec<T: Codec>(b: &[u8]) -> Result<T, String> {
    use bincode::Options;
    bincode::DefaultOptions::new()
        .with_fixint_encoding()
        .deserialize(b)
        .map_err(|e| e.to_string())
}
#[cfg(feature = "b")]
pub fn enc<T: Codec>(t: &T) -> Vec<u8> {
    borsh::to_vec(t).unwrap_or_else(|e| panic!("SUT: encoding failed: {}", e))
}
#[cfg(feature = "b")]
pub fn dec<T: Codec>(b: &[u8]) -> Result<T, String> {
    borsh::from_slice(b).map_err(|e| e.to_string())
}

pub const CODEC: &str = if cfg!(feature = "s") { "serde" } else { "borsh" };
pub const CHECKED: bool = cfg!(debug_assertions);

/// Words as the wire has them: little-endian, least significant first.
pub fn le_bytes(w: &[u64]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn le_words(b: &[u8]) -> Vec<u64> {
    b.chunks(8)
        .map(|c| {
            let mut a = [0; 8];
            a[..c.len()].copy_from_slice(c);
            u64::from_le_bytes(a)
        })
        .collect()
}
fn w4(w: &[u64]) -> U4 {
    [w[0], w[1], w[2], w[3]]
}
/// The byte form of a residue: least significant word first, each big-endian.
pub fn byte_form(raw: &[U4]) -> Vec<u8> {
    raw.iter().flat_map(|u| u.iter().flat_map(|w| w.to_be_bytes())).collect()
}

/// Injection and observation failed: reported as a violation of the property at hand, as the
/// values concerned are valid.
pub type Res<T = ()> = Result<T, String>;

pub fn fr_of_raw(raw: &U4) -> Res<Fr> {
    dec::<Fr>(&le_bytes(raw)).map_err(|e| format!("decoding the valid residue {} as Fr failed: {}", hex(raw), e))
}
pub fn fr_of_val(v: &U4) -> Res<Fr> {
    fr_of_raw(&FR.to_mont(v))
}
pub fn fr_raw(f: &Fr) -> Res<U4> {
    let b = enc(f);
    if b.len() != 32 {
        return Err(format!("Fr encodes to {} bytes", b.len()));
    }
    let raw = w4(&le_words(&b));
    if !lt(&raw, &R) {
        return Err(format!("Fr holds the unreduced residue {}", hex(&raw)));
    }
    Ok(raw)
}
pub fn fr_val(f: &Fr) -> Res<U4> {
    Ok(FR.from_mont(&fr_raw(f)?))
}
/// f is the scalar v, and reduced.
pub fn fr_is(f: &Fr, v: &U4, what: impl Fn() -> String) -> Res {
    let got = fr_val(f)?;
    if got != *v {
        return Err(format!("{}: got {}, expected {}", what(), hex(&got), hex(v)));
    }
    Ok(())
}

pub trait SField: RField {
    const N: usize;
    fn raws(&self) -> Vec<U4>;
    fn of_raws(r: &[U4]) -> Self;
}
impl SField for Rq {
    const N: usize = 1;
    fn raws(&self) -> Vec<U4> {
        vec![FQ.to_mont(&self.0)]
    }
    fn of_raws(r: &[U4]) -> Self {
        Rq(FQ.from_mont(&r[0]))
    }
}
impl SField for Rq2 {
    const N: usize = 2;
    fn raws(&self) -> Vec<U4> {
        vec![FQ.to_mont(&self.0 .0), FQ.to_mont(&self.1 .0)]
    }
    fn of_raws(r: &[U4]) -> Self {
        Rq2(Rq(FQ.from_mont(&r[0])), Rq(FQ.from_mont(&r[1])))
    }
}

fn raws_of(b: &[u8], n: usize, what: &str) -> Res<Vec<U4>> {
    if b.len() != 32 * n {
        return Err(format!("{} encodes to {} bytes", what, b.len()));
    }
    let w: Vec<U4> = le_words(b).chunks(4).map(w4).collect();
    for r in &w {
        if !lt(r, &P) {
            return Err(format!("{} holds the unreduced residue {}", what, hex(r)));
        }
    }
    Ok(w)
}
pub fn raws_bytes(r: &[U4]) -> Vec<u8> {
    r.iter().flat_map(|x| le_bytes(x)).collect()
}

/// A group of the library together with its reference curve.
pub trait SGroup: Group + Codec + std::fmt::Debug + std::panic::RefUnwindSafe + Into2 {
    type C: Curve<F = Self::F>;
    type F: SField;
}
/// From<G1> for Vec<u8> exists, From<G2> does not.
pub trait Into2: Copy {
    fn vec_from(self) -> Option<Vec<u8>>;
    /// G1 has a display text, G2 has none.
    fn text(self) -> Option<String>;
    fn sample<R: rand::Rng + ?Sized>(r: &mut R) -> Self;
}
impl Into2 for G1 {
    fn vec_from(self) -> Option<Vec<u8>> {
        Some(self.into())
    }
    fn text(self) -> Option<String> {
        Some(self.to_string())
    }
    fn sample<R: rand::Rng + ?Sized>(r: &mut R) -> Self {
        r.gen()
    }
}
impl Into2 for G2 {
    fn vec_from(self) -> Option<Vec<u8>> {
        None
    }
    fn text(self) -> Option<String> {
        None
    }
    fn sample<R: rand::Rng + ?Sized>(r: &mut R) -> Self {
        r.gen()
    }
}
impl SGroup for G1 {
    type C = C1;
    type F = Rq;
}
impl SGroup for G2 {
    type C = C2;
    type F = Rq2;
}

/// Jacobian coordinates as values.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Jac<F>(pub F, pub F, pub F);

pub fn g_raws<G: SGroup>(g: &G) -> Res<Vec<U4>> {
    raws_of(&enc(g), 3 * G::F::N, G::C::NAME)
}
pub fn g_jac<G: SGroup>(g: &G) -> Res<Jac<G::F>> {
    let r = g_raws(g)?;
    let n = G::F::N;
    Ok(Jac(
        G::F::of_raws(&r[..n]),
        G::F::of_raws(&r[n..2 * n]),
        G::F::of_raws(&r[2 * n..]),
    ))
}
pub fn jac_bytes<F: SField>(j: &Jac<F>) -> Vec<u8> {
    let mut r = j.0.raws();
    r.extend(j.1.raws());
    r.extend(j.2.raws());
    raws_bytes(&r)
}
pub fn g_of_jac<G: SGroup>(j: &Jac<G::F>) -> Res<G> {
    dec::<G>(&jac_bytes(j)).map_err(|e| format!("decoding the valid {} element {:?} failed: {}", G::C::NAME, j, e))
}
/// Observe a point: coordinates reduced and on the curve.
pub fn g_pt<G: SGroup>(g: &G) -> Res<Pt<G::C>> {
    let j = g_jac(g)?;
    let p = Pt::<G::C>::from_jac(&j.0, &j.1, &j.2);
    if !p.on_curve() {
        return Err(format!("{} value is off the curve: {:?}", G::C::NAME, j));
    }
    if p.is_inf() != g.is_zero() {
        return Err(format!("is_zero is {} for {:?}", g.is_zero(), j));
    }
    Ok(p)
}
pub fn g_is<G: SGroup>(g: &G, want: &Pt<G::C>, what: impl Fn() -> String) -> Res {
    let got = g_pt(g)?;
    if !got.same(want) {
        return Err(format!("{}: got {:?}, expected {:?}", what(), got.to_affine(), want.to_affine()));
    }
    Ok(())
}

pub fn gt_bytes(v: &Rq12) -> Vec<u8> {
    let mut o = vec![];
    for c in v.to_tower() {
        o.extend(le_bytes(&FQ.to_mont(&c.0)));
    }
    o
}
pub fn gt_of(v: &Rq12) -> Res<Gt> {
    dec::<Gt>(&gt_bytes(v)).map_err(|e| format!("decoding a nonzero Gt element failed: {}", e))
}
pub fn gt_raws(g: &Gt) -> Res<Vec<U4>> {
    raws_of(&enc(g), 12, "Gt")
}
pub fn gt_val(g: &Gt) -> Res<Rq12> {
    let r = gt_raws(g)?;
    let mut c = [Rq::zero(); 12];
    for i in 0..12 {
        c[i] = Rq(FQ.from_mont(&r[i]));
    }
    Ok(Rq12::from_tower(&c))
}
pub fn gt_is(g: &Gt, want: &Rq12, what: impl Fn() -> String) -> Res {
    let got = gt_val(g)?;
    if got != *want {
        return Err(format!("{}: got {:?}, expected {:?}", what(), got.to_tower(), want.to_tower()));
    }
    Ok(())
}
