//! C10, C11 through streams: readers and writers that move a few bytes at a time, are interrupted,
//! end early or fail; and (serde) through a format of our own.
use crate::ensure;
use crate::gen::*;
use crate::p_fr::fr_in;
use crate::refmath::*;
use crate::rt::*;
use crate::sut::*;
use rabe_bn::arith::{U256, U512};
use std::io::{self, Read, Write};

/// How a stream behaves.
#[derive(Clone, Debug)]
struct Flow {
    rng: Prng,
    /// most bytes moved at once
    most: usize,
    interrupts: bool,
    /// fails when so many bytes have passed
    fail_at: Option<usize>,
    kind: io::ErrorKind,
}
impl Flow {
    fn any(r: &mut Prng) -> Flow {
        Flow {
            most: *r.pick(&[1, 2, 3, 7, 8, 9, 31, 32, 33, 64, 1000]),
            interrupts: r.chance(1, 2),
            fail_at: None,
            kind: io::ErrorKind::Other,
            rng: Prng::new(r.u64()),
        }
    }
    fn step(&mut self, at: usize, want: usize) -> io::Result<usize> {
        if self.interrupts && self.rng.chance(1, 4) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = want.min(1 + self.rng.us(self.most));
        if let Some(f) = self.fail_at {
            if at >= f && want > 0 {
                return Err(self.kind.into());
            }
            n = n.min(f - at);
        }
        Ok(n)
    }
}
struct Source<'a> {
    data: &'a [u8],
    at: usize,
    flow: Flow,
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.flow.step(self.at, buf.len())?.min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
struct Sink {
    data: Vec<u8>,
    flow: Flow,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.flow.step(self.data.len(), buf.len())?;
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[cfg(feature = "s")]
fn put<T: Codec>(t: &T, w: &mut Sink) -> Result<(), String> {
    bincode::serialize_into(w, t).map_err(|e| e.to_string())
}
#[cfg(feature = "s")]
fn get<T: Codec>(r: &mut Source) -> Result<T, String> {
    bincode::deserialize_from(r).map_err(|e| e.to_string())
}
#[cfg(feature = "b")]
fn put<T: Codec>(t: &T, w: &mut Sink) -> Result<(), String> {
    t.serialize(w).map_err(|e| e.to_string())
}
#[cfg(feature = "b")]
fn get<T: Codec>(r: &mut Source) -> Result<T, String> {
    T::deserialize_reader(r).map_err(|e| e.to_string())
}

fn stream<T: Codec + PartialEq + std::fmt::Debug>(c: &mut Case, ts: &[T], wires: &[Vec<u8>]) -> Res {
    let all: Vec<u8> = wires.concat();
    let r = &mut c.rng;
    let mut w = Sink { data: vec![], flow: Flow::any(r) };
    for t in ts {
        put(t, &mut w).map_err(|e| format!("{:?} into a stream ({:?}): {}", t, w.flow, e))?;
    }
    ensure!(w.data == all, "{:?} into a stream ({:?}): {:02x?}, the wire format is {:02x?}", ts, w.flow, w.data, all);
    let flow = Flow::any(r);
    let mut s = Source { data: &all, at: 0, flow: flow.clone() };
    let mut end = 0;
    for (t, w) in ts.iter().zip(wires) {
        end += w.len();
        let v: T = get(&mut s).map_err(|e| format!("{:?} from a stream ({:?}): {}", t, flow, e))?;
        ensure!(v == *t && enc(&v) == *w, "{:?} from a stream ({:?}): got {:?}", t, flow, v);
        ensure!(s.at == end, "{:?} from a stream ({:?}): {} bytes taken up, {} written", t, flow, s.at, end);
    }
    // ends early, or fails
    let one = &wires[0];
    let cut = r.us(one.len());
    let mut s = Source { data: &one[..cut], at: 0, flow: Flow::any(r) };
    let got: Result<T, String> = get(&mut s);
    ensure!(got.is_err(), "{:?}: {} of {} bytes are decoded as {:?}", ts[0], cut, one.len(), got);
    for _ in 0..2 {
        let mut flow = Flow::any(r);
        flow.fail_at = Some(r.us(one.len()));
        flow.kind = *r.pick(&[io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::UnexpectedEof]);
        let mut s = Source { data: one, at: 0, flow: flow.clone() };
        let got: Result<T, String> = get(&mut s);
        ensure!(got.is_err(), "{:?}: decoded as {:?} from a stream that failed ({:?})", ts[0], got, flow);
        let mut w = Sink { data: vec![], flow: flow.clone() };
        ensure!(put(&ts[0], &mut w).is_err(), "{:?}: a failing writer ({:?}) goes unnoticed", ts[0], flow);
        ensure!(one.starts_with(&w.data), "{:?}: wrote {:02x?} before the failure, the wire format is {:02x?}", ts[0], w.data, one);
    }
    c.add("streams", 7);
    text(c, ts)
}
#[cfg(feature = "b")]
fn text<T: Codec + PartialEq + std::fmt::Debug>(_: &mut Case, ts: &[T]) -> Res {
    for t in ts {
        ensure!(borsh::object_length(t).ok() == Some(enc(t).len()), "{:?}: object_length is not the encoding's", t);
    }
    Ok(())
}
#[cfg(feature = "s")]
fn text<T: Codec + PartialEq + std::fmt::Debug>(c: &mut Case, ts: &[T]) -> Res {
    use crate::tok::*;
    let r = &mut c.rng;
    let t = &ts[0];
    ensure!(bincode::serialized_size(t).ok() == Some(enc(t).len() as u64), "{:?}: serialized_size is not the encoding's", t);
    let want = serde_json::to_vec(t).map_err(|e| format!("{:?}: json: {}", t, e))?;
    let mut w = Sink { data: vec![], flow: Flow::any(r) };
    serde_json::to_writer(&mut w, t).map_err(|e| format!("{:?}: json into a stream ({:?}): {}", t, w.flow, e))?;
    ensure!(w.data == want, "{:?}: json into a stream differs", t);
    let mut s = Source { data: &want, at: 0, flow: Flow::any(r) };
    let v: T = serde_json::from_reader(&mut s).map_err(|e| format!("{:?}: json from a stream ({:?}): {}", t, s.flow, e))?;
    ensure!(v == *t && enc(&v) == enc(t), "{:?}: json from a stream: {:?}", t, v);
    // in place of another value
    let b = enc(t);
    let mut place: T = dec(&enc(&ts[1])).map_err(|e| format!("{:?}: {}", ts[1], e))?;
    {
        use bincode::Options;
        let mut d = bincode::Deserializer::from_slice(&b, bincode::DefaultOptions::new().with_fixint_encoding());
        serde::Deserialize::deserialize_in_place(&mut d, &mut place).map_err(|e| format!("{:?} in place: {}", t, e))?;
    }
    ensure!(place == *t && enc(&place) == b, "{:?} decoded in place of {:?}: {:?}", t, ts[1], place);
    for _ in 0..2 {
        let st = style(r);
        let k = to_tok(t, st).map_err(|e| format!("{:?} in {:?}: {}", t, st, e))?;
        let v: T = of_tok(&k, st).map_err(|e| format!("{:?} from {:?} in {:?}: {}", t, k, st, e))?;
        ensure!(v == *t && enc(&v) == b, "{:?} from {:?} in {:?}: {:?}", t, k, st, v);
    }
    c.add("other-formats", 5);
    Ok(())
}
#[cfg(feature = "s")]
fn style(r: &mut Prng) -> crate::tok::Style {
    crate::tok::Style {
        human: r.chance(1, 2),
        as_seq: r.chance(1, 3),
        order: r.below(4) as u8,
        hint: r.below(4) as u8,
        small: r.chance(1, 2),
    }
}

fn points<G: SGroup + PartialEq>(c: &mut Case) -> Res
where
    G::F: GenField,
    G::C: GenCurve,
{
    let mut ts: Vec<G> = vec![];
    let mut wires = vec![];
    for _ in 0..3 {
        let r = &mut c.rng;
        let p = point::<G::C>(r);
        let (j, _) = rep(r, &p.a, None);
        let w = jac_bytes(&j);
        c.sig(&[hash_bytes(&w)]);
        ts.push(g_of_jac(&j)?);
        wires.push(w);
    }
    stream(c, &ts, &wires)
}
fn streams(c: &mut Case) -> Res {
    c.nontrivial();
    match c.rng.below(12) {
        0 => points::<G2>(c),
        1..=3 => points::<G1>(c),
        4..=5 => {
            let mut ts = vec![];
            let mut wires = vec![];
            for _ in 0..3 {
                let v = rq12(&mut c.rng);
                let w = gt_bytes(&v);
                c.sig(&[hash_bytes(&w)]);
                ts.push(gt_of(&v)?);
                wires.push(w);
            }
            stream(c, &ts, &wires)
        }
        6..=8 => {
            let mut ts = vec![];
            let mut wires = vec![];
            for _ in 0..3 {
                let v = scalar(&mut c.rng);
                c.sig(&v);
                ts.push(fr_in(&mut c.rng, &v)?);
                wires.push(le_bytes(&FR.to_mont(&v)));
            }
            stream(c, &ts, &wires)
        }
        9..=10 => {
            let vs: Vec<U4> = (0..3).map(|_| any4(&mut c.rng)).collect();
            vs.iter().for_each(|v| c.sig(v));
            let ts: Vec<U256> = vs.iter().map(|v| U256(*v)).collect();
            stream(c, &ts, &vs.iter().map(|v| le_bytes(v)).collect::<Vec<_>>())
        }
        _ => {
            let r = &mut c.rng;
            let vs: Vec<[u64; 8]> = (0..3).map(|_| std::array::from_fn(|_| limb(r))).collect();
            vs.iter().for_each(|v| c.sig(v));
            let ts: Vec<U512> = vs.iter().map(|v| U512(*v)).collect();
            stream(c, &ts, &vs.iter().map(|v| le_bytes(v)).collect::<Vec<_>>())
        }
    }
}

/// Decode hostile data through a stream, and in a format of our own.
pub fn decode<T: Codec>(r: &mut Prng, wire: &[u8]) -> (Result<T, String>, &'static str) {
    #[cfg(feature = "s")]
    if r.chance(1, 2) {
        use crate::tok::*;
        // the nesting is taken from a valid value's: the same words in the same places
        let st = style(r);
        let words = le_words(wire);
        let ok = match wire.len() {
            32 => to_tok(&Fr::one(), st),
            96 => to_tok(&G1::one(), st),
            192 => to_tok(&G2::one(), st),
            _ => to_tok(&Gt::one(), st),
        };
        if let Ok(mut k) = ok {
            fn fill(k: &mut Tok, st: Style, words: &[u64]) -> usize {
                match k {
                    Tok::U(u) => {
                        *u = words[0];
                        1
                    }
                    Tok::New(t) => fill(t, st, words),
                    Tok::Seq(s) => s.iter_mut().fold(0, |n, t| n + fill(t, st, &words[n..])),
                    Tok::Struct(s) => {
                        let mut names: Vec<usize> = (0..s.len()).collect();
                        names.sort_by_key(|i| s[*i].0.clone());
                        names.iter().fold(0, |n, i| n + fill(&mut s[*i].1, st, &words[n..]))
                    }
                    _ => 0,
                }
            }
            fn leaves(k: &Tok) -> usize {
                match k {
                    Tok::U(_) => 1,
                    Tok::New(t) => leaves(t),
                    Tok::Seq(s) => s.iter().map(leaves).sum(),
                    Tok::Struct(s) => s.iter().map(|x| leaves(&x.1)).sum(),
                    _ => 0,
                }
            }
            // only where the text form is made of words
            if leaves(&k) == words.len() {
                fill(&mut k, st, &words);
                return (of_tok(&k, st).map_err(|e| e.to_string()), "a format of our own");
            }
        }
    }
    let flow = Flow::any(r);
    (get(&mut Source { data: wire, at: 0, flow }), "a slow stream")
}

pub fn families(prop: &str) -> Vec<Family> {
    let f = |name, f: CaseFn, quick, thorough| Family { name, f, quick, thorough };
    match prop {
        "C10" => vec![f("trip-streams", streams, 20_000, 1_000_000)],
        _ => vec![],
    }
}
