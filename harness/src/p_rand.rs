//! C12: sampling is valid, unbiased and a function of the generator's output.
use crate::ensure;
use crate::gen::*;
use crate::refcurve::*;
use crate::refmath::*;
use crate::reftower::*;
use crate::rt::*;
use crate::sut::*;
use rabe_bn::arith::{U256, U512};
use rand::{Rng, RngCore};
use std::collections::HashSet;

#[derive(Clone, Copy, Debug)]
pub enum Source {
    Seeded(u64),
    Constant(u8),
    Counter(u8, u8),
    /// all zero but for one byte in n
    Sparse(u64, u64),
    /// a repeated word, in little- or big-endian bytes
    Words([u64; 8], bool),
}

/// A byte stream, addressable by position; one bit of it may be flipped.
#[derive(Clone)]
pub struct Stream {
    src: Source,
    pub pos: usize,
    flip: Option<usize>,
}
impl Stream {
    pub fn new(src: Source) -> Stream {
        Stream { src, pos: 0, flip: None }
    }
    pub fn seeded(s: u64) -> Stream {
        Stream::new(Source::Seeded(s))
    }
    fn flipped(src: Source, bit: usize) -> Stream {
        Stream { src, pos: 0, flip: Some(bit) }
    }
    fn byte(&mut self) -> u8 {
        let i = self.pos;
        self.pos += 1;
        let mut b = match self.src {
            Source::Seeded(s) => (mix(s ^ mix((i / 8) as u64)) >> (8 * (i % 8))) as u8,
            Source::Constant(b) => b,
            Source::Counter(a, d) => a.wrapping_add((i as u64).wrapping_mul(d as u64) as u8),
            Source::Sparse(s, n) => {
                let h = mix(s ^ i as u64);
                if h % n == 0 { (h >> 32) as u8 } else { 0 }
            }
            Source::Words(w, le) => {
                let x = w[(i / 8) % 8];
                if le { x.to_le_bytes()[i % 8] } else { x.to_be_bytes()[i % 8] }
            }
        };
        if let Some(f) = self.flip {
            if f / 8 == i {
                b ^= 1 << (f % 8);
            }
        }
        b
    }
}
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            *x = self.byte();
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

const KINDS: [&str; 8] = ["Fr", "G1::random", "G1 gen", "G2::random", "G2 gen", "Gt", "U256::random", "U512::random"];
const BITS: [usize; 8] = [254, 254, 254, 254, 254, 254, 254, 512];

/// One sample, as bytes.
pub fn draw<T: Rng + ?Sized>(kind: usize, r: &mut T) -> Vec<u8> {
    match kind {
        0 => enc(&r.gen::<Fr>()),
        1 => enc(&G1::random(r)),
        2 => enc(&<G1 as Into2>::sample(r)),
        3 => enc(&G2::random(r)),
        4 => enc(&<G2 as Into2>::sample(r)),
        5 => enc(&r.gen::<Gt>()),
        6 => enc(&U256::random(r, &U256(R))),
        _ => enc(&U512::random(r)),
    }
}
/// The sample is an element.
fn valid(kind: usize, b: &[u8]) -> Res {
    let bad = |e: String| format!("{} sampled an invalid value: {}", KINDS[kind], e);
    match kind {
        0 => {
            fr_val(&dec::<Fr>(b).map_err(bad)?).map_err(bad)?;
        }
        1 | 2 => {
            let p = g_pt::<G1>(&dec(b).map_err(bad)?).map_err(bad)?;
            ensure!(p.order_r(), "{} sampled a point outside the group", KINDS[kind]);
        }
        3 | 4 => {
            let p = g_pt::<G2>(&dec(b).map_err(bad)?).map_err(bad)?;
            ensure!(p.order_r(), "{} sampled a point outside the group", KINDS[kind]);
        }
        5 => {
            let v = gt_val(&dec(b).map_err(bad)?).map_err(bad)?;
            ensure!(v.pow(&R) == Rq12::one(), "a sampled Gt element is not of order r");
        }
        6 => {
            let w = le_words(b);
            ensure!(w.len() == 4 && lt(&w, &R), "U256::random is not below its modulus: {}", hex(&w));
        }
        _ => ensure!(b.len() == 64, "U512"),
    }
    Ok(())
}
fn any_kind(r: &mut Prng) -> usize {
    // pairings are dear
    let k = r.us(8);
    if k == 5 && r.chance(1, 2) { 0 } else { k }
}
fn hostile(r: &mut Prng) -> Source {
    match r.below(7) {
        0 => Source::Constant(*r.pick(&[0, 0xff, 1, 0x80, 0x7f, 0x55])),
        1 => Source::Constant(r.u64() as u8),
        2 => Source::Counter(r.u64() as u8, *r.pick(&[1, 255, 2, 17, 128])),
        3 => Source::Sparse(r.u64(), *r.pick(&[2, 5, 64, 300])),
        4 | 5 => {
            // a multiple of a modulus, or next to one
            let m = *r.pick(&[R, P]);
            let k = match r.below(4) {
                0 => ONE4,
                1 => [r.below(5), 0, 0, 0],
                2 => [0, 0, 0, 1],
                _ => uniform4(r),
            };
            let mut x = mul4(&k, &m);
            if r.chance(1, 2) {
                let d = [r.below(3), 0, 0, 0];
                if r.chance(1, 2) { add_to(&mut x, &d) } else { sub_from(&mut x, &d) };
            }
            if r.chance(1, 2) {
                x.reverse();
            }
            Source::Words(x, r.chance(1, 2))
        }
        _ => Source::Seeded(r.u64()),
    }
}

/// Any generator: valid elements, equal for equal streams, for sized and dynamic generators,
/// wherever the stream is, whatever was drawn before.
fn streams(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let src = hostile(r);
    let kind = any_kind(r);
    let skip = r.us(40);
    let mut a = Stream::new(src);
    a.pos = skip;
    let mut b = a.clone();
    let first = draw(kind, &mut a);
    valid(kind, &first).map_err(|e| format!("{} from {:?}", e, src))?;
    ensure!(a.pos > skip, "{} does not draw from its generator", KINDS[kind]);
    ensure!(a.pos < skip + (1 << 20), "{} draws without end", KINDS[kind]);
    // interleave something else
    let other = any_kind(r);
    draw(other, &mut Stream::seeded(r.u64()));
    let second = draw(kind, &mut a.clone());
    let again = {
        let d: &mut dyn RngCore = &mut b;
        if kind == 5 { first.clone() } else { draw(kind, d) }
    };
    ensure!(again == first, "{} gives two values from the same stream {:?}+{}", KINDS[kind], src, skip);
    if kind != 5 {
        ensure!(b.pos == a.pos, "{} consumes {} or {} bytes of the same stream", KINDS[kind], b.pos - skip, a.pos - skip);
    }
    // the second sample is the first of the stream from there on
    let mut s = Stream::new(src);
    s.pos = a.pos;
    if kind != 5 || r.chance(1, 4) {
        ensure!(draw(kind, &mut s) == second, "{}: a sample depends on the sample before ({:?}+{})", KINDS[kind], src, skip);
    }
    // in another thread
    if r.chance(1, 8) && !cfg!(target_family = "wasm") {
        let pos = a.pos;
        let t = std::thread::spawn(move || {
            let mut s = Stream::new(src);
            s.pos = pos;
            draw(kind, &mut s)
        })
        .join();
        ensure!(t.ok().as_ref() == Some(&second), "{}: a sample depends on the thread", KINDS[kind]);
        c.count("streams:other-thread");
    }
    c.sig(&[hash_bytes(format!("{:?} {} {}", src, kind, skip).as_bytes())]);
    c.nontrivial();
    c.count(KINDS[kind]);
    c.sample(|| format!("{} from {:?} at {}", KINDS[kind], src, skip));
    Ok(())
}

/// Wilson-Hilferty: standard normal deviate of a chi-square statistic.
fn deviate(counts: &[u64], n: u64) -> f64 {
    let e = n as f64 / counts.len() as f64;
    let x: f64 = counts.iter().map(|c| (*c as f64 - e).powi(2) / e).sum();
    let k = (counts.len() - 1) as f64;
    ((x / k).cbrt() - (1.0 - 2.0 / (9.0 * k))) / (2.0 / (9.0 * k)).sqrt()
}
/// floor(v * n / m) for v < m
fn scaled(v: &U4, m: &U4, n: u64) -> usize {
    divrem(&mul4(v, &[n, 0, 0, 0]), m).0[0] as usize
}
fn mod_small(v: &U4, m: u64) -> usize {
    let mut a = 0u128;
    for w in v.iter().rev() {
        a = (a << 64 | *w as u128) % m as u128;
    }
    a as usize
}

struct Tally {
    name: String,
    counts: Vec<u64>,
}
const ALARM: f64 = 7.0; // about 1e-12
fn verdict(what: &str, t: &[Tally], n: u64) -> Res {
    for t in t {
        let d = deviate(&t.counts, n);
        ensure!(d < ALARM, "{}: {} is not uniform over {} samples: {:.1} standard deviations", what, t.name, n, d);
        // and not too even either, as a counter would be
        ensure!(d > -ALARM, "{}: {} is too regular over {} samples: {:.1} standard deviations", what, t.name, n, d);
    }
    Ok(())
}

/// Scalars from a uniform stream are uniform below r.
fn uniform_fr(c: &mut Case) -> Res {
    let seed = c.rng.u64();
    let mut s = Stream::seeded(seed);
    let n = 24_000u64;
    let mut t: Vec<Tally> = vec![];
    let mut mk = |name: String, k: usize| t.push(Tally { name, counts: vec![0; k] });
    mk("the range".into(), 256);
    mk("the range of residues".into(), 256);
    for i in 0..31 {
        mk(format!("byte {}", i), 256);
    }
    mk("the value mod 251".into(), 251);
    mk("the value mod 3".into(), 3);
    mk("the pair of consecutive values".into(), 256);
    let mut seen = HashSet::new();
    let mut last = 0;
    for _ in 0..n {
        let f: Fr = s.gen();
        let raw = fr_raw(&f)?;
        let v = fr_val(&f)?;
        ensure!(seen.insert(v), "a scalar was sampled twice");
        let top = scaled(&v, &R, 256);
        t[0].counts[top] += 1;
        t[1].counts[scaled(&raw, &R, 256)] += 1;
        for i in 0..31 {
            t[2 + i].counts[(v[i / 8] >> (8 * (i % 8))) as u8 as usize] += 1;
        }
        t[33].counts[mod_small(&v, 251)] += 1;
        t[34].counts[mod_small(&v, 3)] += 1;
        t[35].counts[(last / 16) * 16 + top / 16] += 1;
        last = top;
    }
    verdict("Fr", &t, n)?;
    c.sig(&[seed]);
    c.nontrivial();
    c.add("samples:Fr", n);
    c.add("chi-square:statistics", t.len() as u64);
    c.sample(|| {
        let worst = t.iter().map(|t| deviate(&t.counts, n)).fold(f64::MIN, f64::max);
        format!("{} scalars of stream {:x}: largest of {} deviates {:.2}", n, seed, t.len(), worst)
    });
    Ok(())
}

/// U256::random is uniform below its modulus, for moduli of all sizes.
fn uniform_mod(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let m: U4 = match r.below(8) {
        0 => R,
        1 => P,
        2 => [2 + r.below(300), 0, 0, 0],
        3 => [r.u64() | 1 << 63, 0, 0, 0],
        4 => [r.u64(), r.u64() | 1 << 40, 0, 0],
        5 => [r.u64(), r.u64(), 1 + r.below(1 << 20), 0],
        6 => [u64::MAX, u64::MAX, u64::MAX, u64::MAX >> 1],
        _ => {
            let mut m = uniform4(r);
            m[3] = m[3] >> 1 | 1 << r.below(63);
            m
        }
    };
    let n = 12_000u64;
    let seed = r.u64();
    let mut s = Stream::seeded(seed);
    let small = m[1] == 0 && m[2] == 0 && m[3] == 0 && m[0] < 400;
    let k = if small { m[0] } else { 200 };
    let mut t = vec![
        Tally { name: "the range".into(), counts: vec![0; k as usize] },
        Tally { name: "the value mod 199".into(), counts: vec![0; 199] },
    ];
    for _ in 0..n {
        let v = U256::random(&mut s, &U256(m)).0;
        ensure!(lt(&v, &m), "U256::random({}) = {}", hex(&m), hex(&v));
        t[0].counts[if small { v[0] as usize } else { scaled(&v, &m, k) }] += 1;
        t[1].counts[mod_small(&v, 199)] += 1;
    }
    if m[1] == 0 && m[2] == 0 && m[3] == 0 && m[0] < 1 << 40 {
        t.truncate(1);
    }
    verdict(&format!("U256::random modulo {}", hex(&m)), &t, n)?;
    c.sig(&m);
    c.nontrivial();
    c.add("samples:U256", n);
    c.sample(|| format!("{} integers modulo {}", n, hex(&m)));
    Ok(())
}

fn uniform_wide(c: &mut Case) -> Res {
    let seed = c.rng.u64();
    let mut s = Stream::seeded(seed);
    let n = 24_000u64;
    let mut t: Vec<Tally> = (0..64).map(|i| Tally { name: format!("byte {}", i), counts: vec![0; 256] }).collect();
    for _ in 0..n {
        let v = U512::random(&mut s).0;
        for (i, t) in t.iter_mut().enumerate() {
            t.counts[(v[i / 8] >> (8 * (i % 8))) as u8 as usize] += 1;
        }
    }
    verdict("U512::random", &t, n)?;
    c.sig(&[seed]);
    c.nontrivial();
    c.add("samples:U512", n);
    Ok(())
}

/// Points from a uniform stream: no collisions, coordinates spread over the field. The
/// logarithms of the points cannot be seen; that they depend on the whole stream is checked
/// by `influence`.
fn uniform_points(c: &mut Case) -> Res {
    let seed = c.rng.u64();
    fn go<G: SGroup>(s: &mut Stream, n: u64, api: bool) -> Res {
        let mut seen = HashSet::new();
        let mut t = vec![
            Tally { name: "the x coordinate".into(), counts: vec![0; 32] },
            Tally { name: "the y coordinate".into(), counts: vec![0; 32] },
        ];
        for _ in 0..n {
            let g = if api { G::random(s) } else { G::sample(s) };
            let Some((x, y)) = g_pt(&g)?.to_affine() else { return Err("infinity sampled from a uniform stream".into()) };
            let (x, y) = (x.raws(), y.raws());
            ensure!(seen.insert(x[0]), "two of {} {} samples share x", n, G::C::NAME);
            t[0].counts[scaled(&x[0], &P, 32)] += 1;
            t[1].counts[scaled(&y[0], &P, 32)] += 1;
        }
        verdict(G::C::NAME, &t, n)
    }
    let mut s = Stream::seeded(seed);
    let api = c.rng.chance(1, 2);
    go::<G1>(&mut s, 1500, api)?;
    go::<G2>(&mut s, 600, api)?;
    c.sig(&[seed]);
    c.nontrivial();
    c.add("samples:G1", 1500);
    c.add("samples:G2", 600);
    Ok(())
}

/// Flip one stream bit at a time: enough of them change the sample.
fn influence(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let kind = r.us(8);
    let seed = r.u64();
    let src = Source::Seeded(seed);
    let mut s = Stream::new(src);
    let base = draw(kind, &mut s);
    let mut bits: Vec<usize> = (0..s.pos * 8).collect();
    for i in (1..bits.len()).rev() {
        bits.swap(i, r.us(i + 1));
    }
    let need = BITS[kind];
    let mut found = 0;
    let mut tried = 0;
    let mut values = HashSet::new();
    for b in &bits {
        tried += 1;
        let x = draw(kind, &mut Stream::flipped(src, *b));
        if x != base {
            found += 1;
            values.insert(hash_bytes(&x));
        }
        if found >= need {
            break;
        }
    }
    ensure!(
        found >= need,
        "{} depends on {} bits of its generator's output only ({} read), its range needs {}",
        KINDS[kind], found, bits.len(), need
    );
    ensure!(values.len() == found, "{}: {} single-bit changes of the stream give only {} values", KINDS[kind], found, values.len());
    c.sig(&[seed, kind as u64]);
    c.nontrivial();
    c.add("influence:bits-flipped", tried);
    c.add("influence:bits-that-matter", found as u64);
    c.count(KINDS[kind]);
    Ok(())
}

/// The logarithm of a sampled point cannot be computed, but it can be guessed: if points are
/// generator times a scalar drawn in one of the ways the library draws scalars, for some
/// streams, then they are for all, and so as uniform as those scalars. A scalar that is
/// masked, clamped or cut after it is drawn agrees with the guess now and then only.
fn derivation(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let kind = 1 + r.us(5);
    let n = if kind == 5 { 12 } else { 40 };
    let seed = r.u64();
    let one: [fn(&mut Stream) -> Res<Fr>; 3] = [
        |s| Ok(s.gen::<Fr>()),
        |s| fr_of_raw(&U256::random(s, &U256(R)).0),
        |s| fr_of_val(&U256::random(s, &U256(R)).0),
    ];
    let mut hits = [0u64; 3];
    for i in 0..n {
        let src = Source::Seeded(mix(seed ^ i));
        let got = draw(kind, &mut Stream::new(src));
        for (j, k) in one.iter().enumerate() {
            let s = &mut Stream::new(src);
            let want = match kind {
                1 | 2 => enc(&(G1::one() * k(s)?)),
                3 | 4 => enc(&(G2::one() * k(s)?)),
                _ => {
                    let a = k(s)?;
                    let b = k(s)?;
                    enc(&pairing(G1::one(), G2::one() * (a * b)))
                }
            };
            // points: by value, not by representation
            let same = match kind {
                1 | 2 => dec::<G1>(&got)? == dec::<G1>(&want)?,
                3 | 4 => dec::<G2>(&got)? == dec::<G2>(&want)?,
                _ => got == want,
            };
            hits[j] += same as u64;
        }
    }
    let best = hits.into_iter().max().unwrap_or(0);
    ensure!(
        best == 0 || best == n,
        "{}: {} of {} samples are the generator times the scalar drawn from the same stream, the others are not",
        KINDS[kind], best, n
    );
    c.sig(&[seed, kind as u64]);
    c.nontrivial();
    c.count(if best == n { "derivation:all-explained" } else { "derivation:unexplained" });
    Ok(())
}

/// Consecutive samples differ, and so do those of the library's usual generators.
fn fresh(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let kind = any_kind(r);
    let n = if kind == 5 { 4 } else { 40 };
    let mut seen = HashSet::new();
    let mode = if cfg!(target_family = "wasm") { 2 * r.below(2) } else { r.below(3) };
    let seed = r.u64();
    let mut s = Stream::seeded(seed);
    for i in 0..n {
        let b = match mode {
            0 => draw(kind, &mut s),
            1 => draw(kind, &mut rand::thread_rng()),
            _ => draw(kind, &mut Stream::seeded(mix(seed ^ i))),
        };
        ensure!(seen.insert(b), "{} gave a value again at sample {} (mode {})", KINDS[kind], i, mode);
    }
    c.sig(&[seed]);
    c.nontrivial();
    c.add("samples:fresh", n);
    Ok(())
}

pub fn families(prop: &str) -> Vec<Family> {
    let f = |name, f: CaseFn, quick, thorough| Family { name, f, quick, thorough };
    match prop {
        "C12" => vec![
            f("streams", streams, 6_000, 400_000),
            f("uniform-fr", uniform_fr, 16, 600),
            f("uniform-mod", uniform_mod, 32, 1_500),
            f("uniform-wide", uniform_wide, 8, 200),
            f("uniform-points", uniform_points, 8, 300),
            f("influence", influence, 64, 3_000),
            f("derivation", derivation, 80, 4000),
            f("fresh", fresh, 300, 10_000),
        ],
        _ => vec![],
    }
}
