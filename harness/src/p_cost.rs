//! C18: no input makes a call disproportionately expensive. Every call is measured (CPU time of
//! its own thread, peak of live heap, stack, bytes drawn from a generator) and compared with the
//! same call on ordinary inputs, measured the same way in the same process.
use crate::ensure;
use crate::gen::*;
use crate::refmath::*;
use crate::reftower::*;
use crate::rt::*;
use crate::sut::*;
use rabe_bn::arith::{U256, U512};
use std::hint::black_box;
use std::sync::Mutex;

/// An input may cost this many times what ordinary ones do.
const FACTOR: f64 = 16.0;
/// Differences below this are noise.
const FLOOR_NS: f64 = 400.0;
/// Heap a call may use beyond what its input's length allows.
const HEAP: i64 = 4 << 20;
const HEAP_PER_BYTE: i64 = 64;
/// The stack that Rust gives to a thread.
const STACK: usize = 2 << 20;

fn cpu_ns() -> f64 {
    extern "C" {
        fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 * 1e9 + t[1] as f64
}

type Call = Box<dyn Fn() + Send + Sync>;
/// Time of one call: the least of `reps` measurements of `inner` calls each.
fn time(reps: usize, inner: usize, f: &Call) -> f64 {
    let mut best = f64::MAX;
    for _ in 0..reps {
        let t = cpu_ns();
        for _ in 0..inner {
            f();
        }
        best = best.min((cpu_ns() - t) / inner as f64);
    }
    best
}
/// Peak of the heap that one call adds; the least of three.
fn heap(f: &Call) -> i64 {
    (0..3)
        .map(|_| {
            let l = crate::mark_peak();
            f();
            crate::peak() - l
        })
        .min()
        .unwrap()
}

/// A call on arguments of its own: a name, whether ordinary, and the length of external data.
struct Subject {
    call: Call,
    what: String,
}
fn subject(what: String, call: impl Fn() + Send + Sync + 'static) -> Res<Subject> {
    Ok(Subject { call: Box::new(call), what })
}

const KINDS: [&str; 62] = [
    "Fr add", "Fr sub", "Fr neg", "Fr mul", "Fr inverse", "Fr pow", "Fr ==", "Fr into_bytes", "Fr text", "Fr from_slice",
    "Fr interpret", "Fr new_mul_factor", "Fr encode", "Fr decode", "Fr is_zero", "G1 add", "G1 sub", "G1 neg", "G1 mul",
    "G1 normalize", "G1 ==", "G1 is_zero", "G1 into_bytes", "G1 encode", "G1 decode", "G1 text", "G2 add", "G2 sub", "G2 neg", "G2 mul",
    "G2 normalize", "G2 ==", "G2 is_zero", "G2 into_bytes", "G2 encode", "G2 decode", "G2 text", "pairing", "Gt mul", "Gt inverse", "Gt pow",
    "Gt ==", "Gt into_bytes", "Gt encode", "Gt decode", "Gt text", "U256 add", "U256 sub", "U256 neg", "U256 mul", "U256 invert",
    "U256 bits", "U256 bytes", "U256 cmp", "U512 from", "U512 divrem", "U512 get_bit", "U512 interpret", "U256 text", "Fr debug",
    "G1 clone", "Gt clone",
];
/// Pairings and decodings into G2 take milliseconds; they are drawn less often.
fn heavy(k: usize) -> bool {
    matches!(KINDS[k], "pairing" | "G2 decode" | "G2 mul" | "Gt pow" | "G1 mul")
}

fn pick_scalar(r: &mut Prng, plain: bool) -> U4 {
    if plain {
        let mut v = uniform4(r);
        v[3] >>= 3;
        if v[3] == 0 { v[3] = 1 }
        v
    } else if r.chance(1, 2) {
        exponent(r)
    } else {
        scalar(r)
    }
}
fn plain_field(r: &mut Prng, m: &Mod) -> U4 {
    let x = [r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), r.u64(), 0];
    m.reduce(&x)
}
/// A point with its representation.
fn pick_point<G: SGroup>(r: &mut Prng, plain: bool) -> Res<(GP<G::C>, G, String)>
where
    G::C: GenCurve,
    G::F: GenField,
{
    if plain {
        let p = GP::<G::C>::of_k(&pick_scalar(r, true));
        let z = G::F::of_raws(&(0..G::F::N).map(|_| plain_field(r, &FQ)).collect::<Vec<_>>());
        let (j, _) = rep(r, &p.a, Some(z));
        let g = g_of_jac(&j)?;
        return Ok((p, g, String::new()));
    }
    let p = point::<G::C>(r);
    let (j, _) = rep(r, &p.a, None);
    let g = inject(r, &p, &j)?;
    Ok((p, g, format!("{:?}", j)))
}
fn partner<G: SGroup>(r: &mut Prng, p: &GP<G::C>, plain: bool) -> Res<(G, String)>
where
    G::C: GenCurve,
    G::F: GenField,
{
    if plain || r.chance(1, 3) {
        let (_, g, s) = pick_point::<G>(r, plain)?;
        return Ok((g, s));
    }
    let q = if r.chance(1, 2) { p.neg() } else { p.neg().neg() };
    let (j, _) = rep(r, &q.a, None);
    Ok((g_of_jac(&j)?, format!("{:?}", j)))
}

fn on_group<G: SGroup + Send + Sync + 'static>(op: &str, r: &mut Prng, plain: bool) -> Res<Subject>
where
    G::C: GenCurve,
    G::F: GenField,
{
    let (p, g, s) = pick_point::<G>(r, plain)?;
    match op {
        "add" | "sub" | "==" => {
            let (h, t) = partner::<G>(r, &p, plain)?;
            let w = format!("{} of {} and {}", op, s, t);
            match op {
                "add" => subject(w, move || drop(black_box(black_box(g) + black_box(h)))),
                "sub" => subject(w, move || drop(black_box(black_box(g) - black_box(h)))),
                _ => subject(w, move || drop(black_box(black_box(g) == black_box(h)))),
            }
        }
        "neg" => subject(s, move || drop(black_box(-black_box(g)))),
        "mul" => {
            let k = pick_scalar(r, plain);
            let f = fr_of_val(&k)?;
            subject(format!("{} times {}", s, hex(&k)), move || drop(black_box(black_box(g) * black_box(f))))
        }
        "normalize" => subject(s, move || {
            let mut h = black_box(g);
            h.normalize();
            black_box(h);
        }),
        "is_zero" => subject(s, move || drop(black_box(black_box(g).is_zero()))),
        "into_bytes" => subject(s, move || drop(black_box(black_box(&g).into_bytes()))),
        "encode" => subject(s, move || drop(black_box(enc(black_box(&g))))),
        "decode" => {
            let b = enc(&g);
            subject(s, move || drop(black_box(dec::<G>(black_box(&b)).is_ok())))
        }
        "clone" => subject(s, move || drop(black_box(black_box(&g).clone()))),
        _ => subject(s, move || drop(black_box((format!("{:?}", black_box(&g)), black_box(g).text())))),
    }
}
fn on_gt(op: &str, r: &mut Prng, plain: bool) -> Res<Subject> {
    let pick = |r: &mut Prng| {
        if plain {
            let mut c = [Rq::zero(); 12];
            for x in c.iter_mut() {
                *x = Rq(plain_field(r, &FQ));
            }
            Rq12::from_tower(&c)
        } else {
            rq12(r)
        }
    };
    let a = pick(r);
    let g = gt_of(&a)?;
    let s = if plain { String::new() } else { format!("{:?}", a.to_tower()) };
    match op {
        "mul" | "==" => {
            let b = if r.chance(1, 3) && !plain { a.clone() } else { pick(r) };
            let h = gt_of(&b)?;
            if op == "mul" {
                subject(s, move || drop(black_box(black_box(g) * black_box(h))))
            } else {
                subject(s, move || drop(black_box(black_box(g) == black_box(h))))
            }
        }
        "inverse" => subject(s, move || drop(black_box(black_box(&g).inverse()))),
        "pow" => {
            let k = pick_scalar(r, plain);
            let f = fr_of_val(&k)?;
            subject(format!("{} to the {}", s, hex(&k)), move || drop(black_box(black_box(&g).pow(black_box(f)))))
        }
        "into_bytes" => subject(s, move || drop(black_box(black_box(&g).into_bytes()))),
        "encode" => subject(s, move || drop(black_box(enc(black_box(&g))))),
        "decode" => {
            let b = enc(&g);
            subject(s, move || drop(black_box(dec::<Gt>(black_box(&b)).is_ok())))
        }
        "clone" => subject(s, move || drop(black_box(black_box(&g).clone()))),
        _ => subject(s, move || drop(black_box((format!("{:?}", black_box(&g)), black_box(&g).to_string())))),
    }
}
fn on_fr(op: &str, r: &mut Prng, plain: bool) -> Res<Subject> {
    let a = pick_scalar(r, plain);
    let f = fr_of_val(&a)?;
    let s = hex(&a);
    match op {
        "add" | "sub" | "mul" | "==" | "pow" => {
            let b = if plain || op == "pow" { pick_scalar(r, plain) } else { related(r, &FR, &a).0 };
            let g = fr_of_val(&b)?;
            let w = format!("{} and {}", s, hex(&b));
            match op {
                "add" => subject(w, move || drop(black_box(black_box(f) + black_box(g)))),
                "sub" => subject(w, move || drop(black_box(black_box(f) - black_box(g)))),
                "mul" => subject(w, move || drop(black_box(black_box(f) * black_box(g)))),
                "==" => subject(w, move || drop(black_box(black_box(f) == black_box(g)))),
                _ => subject(w, move || drop(black_box(black_box(&f).pow(black_box(g))))),
            }
        }
        "neg" => subject(s, move || drop(black_box(-black_box(f)))),
        "inverse" => subject(s, move || drop(black_box(black_box(&f).inverse()))),
        "into_bytes" => subject(s, move || drop(black_box((black_box(&f).into_bytes(), Vec::<u8>::from(black_box(f)))))),
        "text" => subject(s, move || drop(black_box(black_box(&f).to_string()))),
        "debug" => subject(s, move || drop(black_box(format!("{:?}", black_box(&f))))),
        "is_zero" => subject(s, move || drop(black_box(black_box(&f).is_zero()))),
        "encode" => subject(s, move || drop(black_box(enc(black_box(&f))))),
        "decode" => {
            let b = enc(&f);
            subject(s, move || drop(black_box(dec::<Fr>(black_box(&b)).is_ok())))
        }
        "from_slice" => {
            let x = if plain { uniform4(r) } else { any4(r) };
            let b = be_bytes(&x);
            subject(hex(&x), move || drop(black_box(Fr::from_slice(black_box(&b)).is_ok())))
        }
        "interpret" => {
            let mut b = [0u8; 64];
            let (x, y) = if plain { (uniform4(r), uniform4(r)) } else { (any4(r), any4(r)) };
            b[..32].copy_from_slice(&be_bytes(&x));
            b[32..].copy_from_slice(&be_bytes(&y));
            subject(format!("{} {}", hex(&x), hex(&y)), move || drop(black_box(Fr::interpret(black_box(&b)))))
        }
        _ => {
            let x = if plain { uniform4(r) } else { any4(r) };
            subject(hex(&x), move || drop(black_box(Fr::new_mul_factor(black_box(U256(x))))))
        }
    }
}
fn on_int(ty: &str, op: &str, r: &mut Prng, plain: bool) -> Res<Subject> {
    let mut m = if plain {
        uniform4(r)
    } else {
        match r.below(3) {
            0 => R,
            1 => P,
            _ => any4(r),
        }
    };
    m[0] |= 1;
    m[3] &= u64::MAX >> 1;
    if lt(&m, &[3, 0, 0, 0]) {
        m = R;
    }
    if plain && m[3] == 0 {
        m[3] = 1;
    }
    let pick = |r: &mut Prng| {
        let x = match if plain { 9 } else { r.below(12) } {
            0 => sub4(&m, &[1 + r.below(3), 0, 0, 0]).0,
            1 => [r.below(4), 0, 0, 0],
            2 => shr1(&m),
            3..=6 => any4(r),
            _ => uniform4(r),
        };
        divrem(&wide_of(&x), &m).1
    };
    let (a, b) = (pick(r), pick(r));
    let (x, y, n) = (U256(a), U256(b), U256(m));
    let s = format!("{} and {} modulo {}", hex(&a), hex(&b), hex(&m));
    let wide = |r: &mut Prng| {
        let (h, l) = if plain { (uniform4(r), uniform4(r)) } else { (any4(r), any4(r)) };
        [l[0], l[1], l[2], l[3], h[0], h[1], h[2], h[3]]
    };
    macro_rules! mutating {
        ($f:expr) => {{
            let f: fn(&mut U256, &U256, &U256, u64) = $f;
            let mut inv = 1u64;
            for _ in 0..6 {
                inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
            }
            let inv = inv.wrapping_neg();
            subject(s, move || {
                let mut v = black_box(x);
                f(&mut v, black_box(&y), black_box(&n), inv);
                black_box(v);
            })
        }};
    }
    match (ty, op) {
        ("U256", "add") => mutating!(|v, y, n, _| v.add(y, n)),
        ("U256", "sub") => mutating!(|v, y, n, _| v.sub(y, n)),
        ("U256", "neg") => mutating!(|v, _, n, _| v.neg(n)),
        ("U256", "mul") => mutating!(|v, y, n, i| v.mul(y, n, i)),
        ("U256", "invert") => {
            // defined for operands coprime to the modulus
            let (mut u, mut v) = (a, m);
            while u != Z4 {
                let t = divrem(&wide_of(&v), &u).1;
                v = u;
                u = t;
            }
            if v != ONE4 {
                return subject("one".into(), move || {
                    let mut v = black_box(U256(ONE4));
                    v.invert(black_box(&n));
                    black_box(v);
                });
            }
            mutating!(|v, _, n, _| v.invert(n))
        }
        ("U256", "bits") => subject(s, move || drop(black_box(black_box(&x).bits().filter(|b| *b).count()))),
        ("U256", "bytes") => subject(s, move || drop(black_box((black_box(&x).into_bytes(), U256::from_slice(&[7; 32]).is_ok())))),
        ("U256", "cmp") => subject(s, move || drop(black_box(black_box(&x).cmp(black_box(&y))))),
        ("U256", _) => subject(s, move || drop(black_box((black_box(&x).to_string(), format!("{:?}", x))))),
        ("U512", "from") => subject(s, move || drop(black_box(U512::from(black_box(&x), black_box(&y), black_box(&n))))),
        ("U512", "divrem") => {
            let w = wide(r);
            subject(format!("{} by {}", hex(&w), hex(&m)), move || drop(black_box(black_box(U512(w)).divrem(black_box(&n)))))
        }
        ("U512", "get_bit") => {
            let w = wide(r);
            let i = if plain { r.us(512) } else { *r.pick(&[0, 63, 64, 511, 512, 513, 1 << 30, usize::MAX]) };
            subject(format!("bit {} of {}", i, hex(&w)), move || drop(black_box(black_box(U512(w)).get_bit(black_box(i)))))
        }
        _ => {
            let w = wide(r);
            let mut b = [0u8; 64];
            b.copy_from_slice(&be_bytes(&w));
            subject(hex(&w), move || drop(black_box(U512::interpret(black_box(&b)))))
        }
    }
}
fn wide_of(a: &U4) -> U8 {
    [a[0], a[1], a[2], a[3], 0, 0, 0, 0]
}

fn make(k: usize, r: &mut Prng, plain: bool) -> Res<Subject> {
    let (ty, op) = KINDS[k].split_once(' ').unwrap_or(("pairing", ""));
    match ty {
        "Fr" => on_fr(op, r, plain),
        "G1" => on_group::<G1>(op, r, plain),
        "G2" => on_group::<G2>(op, r, plain),
        "Gt" => on_gt(op, r, plain),
        "pairing" => {
            let (_, p, s) = pick_point::<G1>(r, plain)?;
            let (_, q, t) = pick_point::<G2>(r, plain)?;
            subject(format!("{} and {}", s, t), move || drop(black_box(pairing(black_box(p), black_box(q)))))
        }
        _ => on_int(ty, op, r, plain),
    }
}

/// Ordinary cost: (time, calls per measurement), the median over distinct ordinary inputs.
fn ordinary(k: usize, seed: u64) -> Res<(f64, usize)> {
    let n = if heavy(k) { 7 } else { 15 };
    let mut r = Prng::new(mix(seed ^ mix(0xC057 + k as u64)));
    let warm = make(k, &mut r, true)?;
    let t = time(2, 1, &warm.call).max(20.0);
    let inner = (20_000.0 / t).ceil().max(1.0) as usize;
    let mut v = vec![];
    for _ in 0..n {
        // one measurement each, so that what is remembered from call to call is not met
        v.push(time(1, inner, &make(k, &mut r, true)?.call));
    }
    v.sort_by(|a, b| a.total_cmp(b));
    Ok((v[n / 2], inner))
}
static BASE: Mutex<[Option<(f64, usize)>; KINDS.len()]> = Mutex::new([None; KINDS.len()]);
fn base(k: usize) -> Res<(f64, usize)> {
    if let Some(b) = BASE.lock().unwrap_or_else(|e| e.into_inner())[k] {
        return Ok(b);
    }
    let b = ordinary(k, 1)?;
    BASE.lock().unwrap_or_else(|e| e.into_inner())[k] = Some(b);
    Ok(b)
}

/// In a thread with the stack that Rust gives to threads. Wrong results and panics are other
/// properties' matter: such a case is given up.
fn in_thread(c: &mut Case, f: impl FnOnce() -> Res + Send) -> Res {
    let id = c.id;
    let r = std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || helper(id, || guard(f)))
            .expect("spawn");
        match h.join() {
            Ok(Ok(r)) => r,
            Ok(Err((loc, m))) => {
                if own_panic(&loc) && !m.starts_with("SUT:") {
                    panic!("{} at {}", m, loc);
                }
                Err(format!("panic at {}: {}", loc, m))
            }
            Err(_) => panic!("a measuring thread died"),
        }
    });
    match r {
        Err(m) if !m.starts_with("cost:") => {
            c.count("given-up");
            Ok(())
        }
        r => r,
    }
}
/// What a case is about could not be brought into the library: another property's matter.
macro_rules! or_give_up {
    ($c:expr, $e:expr) => {
        match guard(|| $e) {
            Ok(Ok(x)) => x,
            Err((loc, m)) if own_panic(&loc) && !m.starts_with("SUT:") => panic!("{} at {}", m, loc),
            _ => {
                $c.count("given-up");
                return Ok(());
            }
        }
    };
}

fn bucket(x: f64) -> &'static str {
    match x {
        x if x < 0.5 => "cost:under-half",
        x if x < 1.5 => "cost:about-ordinary",
        x if x < 3.0 => "cost:up-to-3-times",
        x if x < 8.0 => "cost:up-to-8-times",
        _ => "cost:above-8-times",
    }
}

fn calls(c: &mut Case) -> Res {
    let k = loop {
        let k = c.rng.us(KINDS.len());
        if !heavy(k) || c.rng.chance(1, 3) {
            break k;
        }
    };
    let id = c.id;
    let s = or_give_up!(c, make(k, &mut c.rng, false));
    let mut ratio = 0.0;
    let mut used = 0;
    in_thread(c, || {
        let (b, inner) = base(k)?;
        let t = time(3, inner, &s.call);
        ratio = t / b.max(1.0);
        if t > FACTOR * b + FLOOR_NS {
            // measured again, with care, next to the ordinary
            let b2 = ordinary(k, id.1)?.0.max(b);
            let t2 = time(15, inner, &s.call).min(t);
            let b2 = ordinary(k, id.1 ^ 0x55)?.0.max(b2);
            ensure!(
                t2 <= FACTOR * b2 + FLOOR_NS,
                "cost: {} takes {:.0} ns where ordinary inputs take {:.0} ns: {}", KINDS[k], t2, b2, s.what
            );
        }
        used = heap(&s.call);
        ensure!(used <= HEAP, "cost: {} takes {} bytes of heap: {}", KINDS[k], used, s.what);
        Ok(())
    })?;
    c.sig(&[k as u64, hash_bytes(s.what.as_bytes())]);
    c.nontrivial();
    c.count(bucket(ratio));
    c.count(if used == 0 { "heap:none" } else if used < 4096 { "heap:below-4K" } else if used < 1 << 16 { "heap:below-64K" } else { "heap:more" });
    c.sample(|| format!("{}: {}", KINDS[k], s.what));
    Ok(())
}

// ------------------------------------------------------------ data of any length

fn numeral(r: &mut Prng, n: usize, style: u64) -> String {
    match style {
        0 => (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect(),
        1 => "0".repeat(n),
        2 => "9".repeat(n),
        3 => format!("{}1", "0".repeat(n - 1)),
        4 => format!("1{}", "0".repeat(n - 1)),
        5 => dec_string(&R).repeat(n / 77 + 1)[..n].into(),
        6 => format!("{}x", "7".repeat(n - 1)),
        7 => format!("{}{}", "-".repeat(n / 2), "5".repeat(n - n / 2)),
        8 => "\u{0663}".repeat(n / 2),
        9 => " ".repeat(n),
        _ => {
            let d = 1 + r.us(9);
            let w: String = (0..d).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            w.repeat(n / d + 1)[..n].into()
        }
    }
}
/// A document of about n bytes in the build's codec.
#[cfg(feature = "s")]
fn document(r: &mut Prng, n: usize, style: u64) -> Vec<u8> {
    let unit: &[&str] = &["[", "{\"x\":", "1,", "[0,0,0,0],", "{},", "\"a\",", " ", "-", "9", "0", "\\u0041", "null,", "1e9,", "[[1,2],", "\u{fe}"];
    let u = unit[(style as usize) % unit.len()];
    let body = u.repeat(n / u.len() + 1);
    let t = match r.below(7) {
        0 => body,
        1 => format!("[{}", body),
        2 => format!("[{}1]", body),
        3 => format!("{{\"x\":[{}1],\"y\":[0,0,0,0]}}", body),
        4 => format!("{{\"zz\":\"{}\",\"x\":[1,2,3,4]}}", body.replace(['"', '\\'], "z")),
        5 => format!("{}[1,2,3,4]", " ".repeat(n)),
        _ => format!("\"{}\"", body.replace(['"', '\\'], "z")),
    };
    t.into_bytes()
}
#[cfg(feature = "b")]
fn document(r: &mut Prng, n: usize, style: u64) -> Vec<u8> {
    binary(r, n, style)
}
/// Binary data, with lengths that promise much.
fn binary(r: &mut Prng, n: usize, style: u64) -> Vec<u8> {
    let mut v = vec![0u8; n];
    match style % 5 {
        0 => v.iter_mut().for_each(|b| *b = r.u64() as u8),
        1 => v.iter_mut().for_each(|b| *b = 0xff),
        2 => {}
        3 => v.iter_mut().enumerate().for_each(|(i, b)| *b = (i % 8 == 0) as u8),
        _ => v.iter_mut().for_each(|b| *b = r.below(2) as u8 * 0xff),
    }
    if style / 5 % 2 == 0 {
        let l = *r.pick(&[1u64, 2, 1 << 16, 1 << 30, 1 << 31, 1 << 40, 1 << 60, u64::MAX, (n as u64) / 32]);
        let b = l.to_le_bytes();
        let k = b.len().min(n);
        v[..k].copy_from_slice(&b[..k]);
    }
    v
}
#[cfg(feature = "s")]
fn dec_text<T: Codec>(b: &[u8]) -> bool {
    serde_json::from_slice::<T>(b).is_ok() | serde_json::from_reader::<_, T>(b).is_ok()
}
#[cfg(feature = "b")]
fn dec_text<T: Codec>(b: &[u8]) -> bool {
    T::deserialize(&mut &b[..]).is_ok()
}
#[cfg(feature = "s")]
fn enc_text<T: Codec>(t: &T) -> Vec<u8> {
    serde_json::to_vec(t).expect("SUT: json")
}
#[cfg(feature = "b")]
fn enc_text<T: Codec>(t: &T) -> Vec<u8> {
    enc(t)
}

/// Words of which only an upper bound is known, far above their number.
struct Words<'a>(std::slice::Iter<'a, u64>, Option<usize>);
impl Iterator for Words<'_> {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        self.0.next().copied()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 {
            Some(n) => (0, Some(n)),
            None => self.0.size_hint(),
        }
    }
}

const DATA: [&str; 13] = [
    "from_str", "from_slice", "U256::from_slice", "text as Fr", "text as G1", "text as G2", "text as Gt", "text as Vec<Fr>",
    "binary as Fr", "binary as Gt", "binary as Vec<G1>", "binary as U512", "words as U512",
];
/// The call on about n bytes of external data; and, for the kind, of ordinary such data.
fn data_call(k: usize, r: &mut Prng, n: usize, style: u64, plain: bool) -> Res<(Call, usize)> {
    fn on<T: 'static + ?Sized + AsRef<[u8]>>(b: Box<T>, f: fn(&[u8])) -> (Call, usize)
    where
        Box<T>: Send + Sync,
    {
        let n = (*b).as_ref().len();
        (Box::new(move || f(black_box((*b).as_ref()))), n)
    }
    let text = |r: &mut Prng| -> Res<Box<[u8]>> {
        if plain {
            let one = enc_text(&vec![fr_of_val(&pick_scalar(r, true))?]);
            let m = n / one.len() + 1;
            let mut v = vec![];
            for _ in 0..m {
                v.push(fr_of_val(&pick_scalar(r, true))?);
            }
            return Ok(enc_text(&v).into());
        }
        Ok(document(r, n, style).into())
    };
    let bin = |r: &mut Prng| -> Res<Box<[u8]>> {
        if plain {
            let mut v = vec![];
            for _ in 0..n / 32 + 1 {
                v.push(fr_of_val(&pick_scalar(r, true))?);
            }
            return Ok(enc(&v).into());
        }
        Ok(binary(r, n, style).into())
    };
    macro_rules! dec_as {
        ($route:ident, $b:expr, $t:ty) => {{
            let b = $b?;
            if plain {
                on(b, |b| drop(black_box($route::<Vec<Fr>>(b))))
            } else {
                on(b, |b| drop(black_box($route::<$t>(b))))
            }
        }};
    }
    fn bin_dec<T: Codec>(b: &[u8]) -> bool {
        dec::<T>(b).is_ok()
    }
    Ok(match k {
        0 => {
            let s = numeral(r, n, if plain { 0 } else { style });
            on(s.into_bytes().into_boxed_slice(), |b| {
                drop(black_box(Fr::from_str(std::str::from_utf8(b).expect("utf8"))))
            })
        }
        1 | 2 => {
            let b = if plain { vec![7u8; n] } else { binary(r, n, style) }.into_boxed_slice();
            on(b, if k == 1 { |b| drop(black_box(Fr::from_slice(b).is_ok())) } else { |b| drop(black_box(U256::from_slice(b).is_ok())) })
        }
        3 => dec_as!(dec_text, text(r), Fr),
        4 => dec_as!(dec_text, text(r), G1),
        5 => dec_as!(dec_text, text(r), G2),
        6 => dec_as!(dec_text, text(r), Gt),
        7 => dec_as!(dec_text, text(r), Vec<Fr>),
        8 => dec_as!(bin_dec, bin(r), Fr),
        9 => dec_as!(bin_dec, bin(r), Gt),
        10 => dec_as!(bin_dec, bin(r), Vec<G1>),
        11 => dec_as!(bin_dec, bin(r), U512),
        _ => {
            let words = le_words(&if plain { vec![7u8; n] } else { binary(r, n, style) });
            let many = if plain { None } else { [None, Some(1 << 20), Some(1 << 26)][style as usize % 3] };
            (Box::new(move || drop(black_box(Words(black_box(&words[..]).iter(), many).collect::<U512>()))), n)
        }
    })
}

fn lengths(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let k = if r.chance(1, 3) { 0 } else { r.us(DATA.len()) };
    let style = r.below(30);
    let style = if k == 0 { style % 12 } else { style };
    let n = 1500 + r.us(2500);
    let seed = r.u64();
    let mut ratio = 0.0;
    let mut bytes = 0;
    let mk = |n: usize, plain: bool| data_call(k, &mut Prng::new(seed), n, style, plain);
    in_thread(c, || {
        let small = mk(n, false)?;
        let big = mk(16 * n, false)?;
        let usual = mk(16 * n, true)?;
        bytes = big.1;
        let w = format!("{} of {} bytes, style {}", DATA[k], big.1, style);
        let (mut s, mut b, mut u) = (time(2, 2, &small.0), time(1, 1, &big.0), time(1, 1, &usual.0));
        let bad = |s: f64, b: f64, u: f64| b > FACTOR * u + 20_000.0 && k < 1 || b > 5.0 * 16.0 * s.max(500.0) + 20_000.0;
        if bad(s, b, u) {
            for _ in 0..5 {
                (b, s, u) = (b.min(time(2, 1, &big.0)), s.max(time(1, 2, &small.0)), u.max(time(1, 1, &usual.0)));
            }
            ensure!(
                !bad(s, b, u),
                "cost: {} takes {:.0} ns, data of a sixteenth of the length {:.0} ns, ordinary data of its length {:.0} ns", w, b, s, u
            );
        }
        ratio = b / u.max(1.0);
        let h = heap(&big.0);
        ensure!(h <= HEAP + HEAP_PER_BYTE * big.1 as i64, "cost: {} takes {} bytes of heap", w, h);
        Ok(())
    })?;
    c.sig(&[k as u64, style, seed]);
    c.nontrivial();
    c.count(bucket(ratio));
    c.add("data:bytes", bytes as u64);
    c.sample(|| format!("{} of {} bytes, style {}", DATA[k], bytes, style));
    Ok(())
}

/// Far longer data than a stack would hold.
fn long(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let k = c.id.1 as usize % DATA.len();
    let style = if k == 0 { (c.id.1 / DATA.len() as u64) % 11 } else { r.below(30) };
    let n = 300_000 + r.us(200_000);
    let (call, n) = or_give_up!(c, data_call(k, r, n, style, false));
    in_thread(c, || {
        let h = heap(&call);
        ensure!(h <= HEAP + HEAP_PER_BYTE * n as i64, "cost: {} of {} bytes, style {}, takes {} bytes of heap", DATA[k], n, style, h);
        Ok(())
    })?;
    c.sig(&[k as u64, style, n as u64]);
    c.nontrivial();
    c.add("data:bytes", n as u64);
    c.sample(|| format!("{} of {} bytes, style {}", DATA[k], n, style));
    Ok(())
}

// ------------------------------------------------------------ generators

fn draws(c: &mut Case) -> Res {
    use crate::p_rand::*;
    let r = &mut c.rng;
    let kind = r.us(8);
    let src = match r.below(6) {
        0 => Source::Constant(*r.pick(&[0, 0xff, 0x7f, 0x80, 1, 0xaa])),
        1 => Source::Counter(r.u64() as u8, r.u64() as u8),
        2 => Source::Sparse(r.u64(), *r.pick(&[3u64, 20, 100, 1000])),
        3 => Source::Words([limb(r), limb(r), limb(r), limb(r), limb(r), limb(r), limb(r), limb(r)], r.chance(1, 2)),
        4 => {
            let m = if r.chance(1, 2) { R } else { P };
            let w = near_multiple(r, &m);
            let mut x = [0; 8];
            for i in 0..4 {
                x[i] = w[i];
                x[i + 4] = w[i];
            }
            if r.chance(1, 2) {
                x.reverse();
            }
            Source::Words(x, r.chance(1, 2))
        }
        _ => Source::Seeded(r.u64()),
    };
    let drawn = |src: Source| {
        let mut s = Stream::new(src);
        black_box(draw(kind, &mut s));
        s.pos as u64
    };
    let usual = (0..5).map(|i| drawn(Source::Seeded(i))).max().unwrap();
    let got = drawn(src);
    ensure!(got <= 16 * usual + 64, "cost: sampling ({}) draws {} bytes from {:?} and {} from ordinary streams", kind, got, src, usual);
    // and takes no longer
    let call: Call = Box::new(move || drop(black_box(draw(kind, &mut Stream::new(src)))));
    let plain = |i: u64| -> Call { Box::new(move || drop(black_box(draw(kind, &mut Stream::new(Source::Seeded(i)))))) };
    let o = |k: u64| {
        let mut v: Vec<f64> = (0..5).map(|i| time(1, 1, &plain(k + i))).collect();
        v.sort_by(|a, b| a.total_cmp(b));
        v[2]
    };
    let (mut t, mut u) = (time(2, 1, &call), o(r.u64()));
    if t > FACTOR * u + FLOOR_NS {
        u = u.max(o(r.u64()));
        t = t.min(time(9, 1, &call));
        u = u.max(o(r.u64()));
        ensure!(t <= FACTOR * u + FLOOR_NS, "cost: sampling ({}) from {:?} takes {:.0} ns, from ordinary streams {:.0} ns", kind, src, t, u);
    }
    let h = heap(&call);
    ensure!(h <= HEAP, "cost: sampling ({}) from {:?} takes {} bytes of heap", kind, src, h);
    c.sig(&[kind as u64, hash_bytes(format!("{:?}", src).as_bytes())]);
    c.nontrivial();
    c.count(bucket(t / u));
    c.add("draws:bytes", got);
    c.sample(|| format!("sampling {} from {:?}", kind, src));
    Ok(())
}

// ------------------------------------------------------------ long histories

/// A call on ever new arguments, which the library itself makes one from another; returns its time.
type Next = Box<dyn FnMut() -> f64>;
fn timed<T>(f: impl FnOnce() -> T) -> f64 {
    let t = cpu_ns();
    black_box(f());
    cpu_ns() - t
}
const OVER: [(&str, usize); 30] = [
    ("Fr inverse", 40_000), ("Fr mul", 40_000), ("Fr pow", 10_000), ("Fr text", 40_000), ("Fr encode and decode", 40_000),
    ("Fr from_str", 20_000), ("Fr from_slice", 40_000), ("Fr interpret", 20_000), ("Fr sample", 10_000),
    ("G1 add", 40_000), ("G1 mul", 3_000), ("G1 normalize", 40_000), ("G1 == and is_zero", 40_000), ("G1 encode and decode", 40_000), ("G1 sample", 3_000),
    ("G2 add", 40_000), ("G2 mul", 1_200), ("G2 normalize", 40_000), ("G2 == and is_zero", 40_000), ("G2 encode and decode", 1_200), ("G2 sample", 1_200),
    ("pairing", 600), ("Gt mul", 40_000), ("Gt inverse", 20_000), ("Gt pow", 1_200), ("Gt encode and decode", 20_000), ("Gt text", 20_000),
    ("U256 invert", 40_000), ("U512 divrem", 20_000), ("Fr decode refused", 40_000),
];
fn over_group<G: SGroup + 'static>(op: &str, r: &mut Prng) -> Res<Next> {
    let k = fr_of_val(&pick_scalar(r, true))?;
    let mut g = G::one() * k;
    let step = G::one() * fr_of_val(&pick_scalar(r, true))?;
    let mut f = k;
    let mut st = crate::p_rand::Stream::seeded(r.u64());
    let which = op.to_string();
    Ok(Box::new(move || {
        g = g + step;
        match which.as_str() {
            "add" => timed(|| g + step),
            "mul" => {
                f = f * k;
                timed(|| g * f)
            }
            "normalize" => {
                let mut h = g;
                timed(|| h.normalize())
            }
            "== and is_zero" => timed(|| (g == step, g.is_zero())),
            "sample" => timed(|| G::sample(&mut st)),
            _ => timed(|| dec::<G>(&enc(&g)).is_ok()),
        }
    }))
}
fn over(k: usize, r: &mut Prng) -> Res<Next> {
    let name = OVER[k].0;
    let a = fr_of_val(&pick_scalar(r, true))?;
    let mut f = fr_of_val(&pick_scalar(r, true))?;
    let mut st = crate::p_rand::Stream::seeded(r.u64());
    let (mut p, mut q) = (G1::one() * a, G2::one() * f);
    let (p1, q1) = (p, q);
    let mut g = pairing(p, q);
    let g1 = g;
    let mut w = uniform4(r);
    let mut pr = Prng::new(r.u64());
    Ok(match name {
        n if n.starts_with("G1 ") => over_group::<G1>(&n[3..], r)?,
        n if n.starts_with("G2 ") => over_group::<G2>(&n[3..], r)?,
        "pairing" => Box::new(move || {
            (p, q) = (p + p1, q + q1);
            timed(|| pairing(p, q))
        }),
        n if n.starts_with("Gt ") => Box::new(move || {
            g = g * g1;
            match n {
                "Gt mul" => timed(|| g * g1),
                "Gt inverse" => timed(|| g.inverse()),
                "Gt pow" => {
                    f = f * a;
                    timed(|| g.pow(f))
                }
                "Gt text" => timed(|| (g.to_string(), format!("{:?}", g))),
                _ => timed(|| dec::<Gt>(&enc(&g)).is_ok()),
            }
        }),
        n if n.starts_with("Fr ") => Box::new(move || {
            f = f * a;
            match n {
                "Fr inverse" => timed(|| f.inverse()),
                "Fr mul" => timed(|| f * a),
                "Fr pow" => timed(|| a.pow(f)),
                "Fr text" => timed(|| (f.to_string(), format!("{:?}", f))),
                "Fr from_str" => {
                    let s = dec_string(&uniform4(&mut pr));
                    timed(|| Fr::from_str(&s))
                }
                "Fr from_slice" => {
                    let b = be_bytes(&uniform4(&mut pr));
                    timed(|| Fr::from_slice(&b).is_ok())
                }
                "Fr interpret" => {
                    let mut b = [0u8; 64];
                    for c in b.chunks_mut(8) {
                        c.copy_from_slice(&pr.u64().to_le_bytes());
                    }
                    timed(|| Fr::interpret(&b))
                }
                "Fr sample" => timed(|| rand::Rng::gen::<Fr>(&mut st)),
                "Fr decode refused" => {
                    let mut b = [0xffu8; 32];
                    b[..8].copy_from_slice(&pr.u64().to_le_bytes());
                    timed(|| dec::<Fr>(&b).is_ok())
                }
                _ => timed(|| dec::<Fr>(&enc(&f)).is_ok()),
            }
        }),
        n => Box::new(move || {
            w[3] >>= 3;
            w[0] |= 1;
            let t = if n == "U256 invert" {
                let mut v = U256(w);
                timed(|| v.invert(&U256(R)))
            } else {
                timed(|| U512([w[0], w[1], w[2], w[3], w[1], w[2], w[3], w[0]]).divrem(&U256(R)))
            };
            w = uniform4(&mut pr);
            t
        }),
    })
}

/// The same call over and over on ever new inputs: it gets no slower, and keeps nothing.
fn history(c: &mut Case) -> Res {
    let k = c.id.1 as usize % OVER.len();
    let (name, n) = OVER[k];
    let mut rng = Prng::new(c.rng.u64());
    in_thread(c, || {
        let mut next = over(k, &mut rng)?;
        let (mut window, mut live) = (vec![], vec![]);
        for _ in 0..8 {
            let mut t: Vec<f64> = Vec::with_capacity(n / 8);
            for _ in 0..n / 8 {
                t.push(next());
            }
            t.sort_by(|a, b| a.total_cmp(b));
            window.push(t[t.len() / 4]);
            drop(t);
            live.push(crate::live());
        }
        let (first, last) = (window[0].min(window[1]), window[7].min(window[6]));
        ensure!(
            last <= 4.0 * first + FLOOR_NS * 4.0,
            "cost: {} takes {:.0} ns after {} calls, {:.0} ns at first", name, last, n, first
        );
        let kept = live[7] - live[0];
        // what is bounded has filled up half way
        let growing = n >= 10_000 && (4..8).all(|i| live[i] - live[i - 1] >= (n / 8) as i64 * 8);
        ensure!(kept <= HEAP && !growing, "cost: {} keeps {} bytes of heap after {} calls", name, kept, n);
        Ok(())
    })?;
    c.sig(&[k as u64, c.id.1]);
    c.nontrivial();
    c.add("history:calls", n as u64);
    c.sample(|| format!("{} called {} times", name, n));
    Ok(())
}

pub fn families(prop: &str) -> Vec<Family> {
    let f = |name, f: CaseFn, quick, thorough| Family { name, f, quick, thorough };
    match prop {
        "C18" => vec![
            f("cost-calls", calls, 12_000, 400_000),
            f("cost-lengths", lengths, 1_500, 40_000),
            f("cost-long", long, 143, 1_430),
            f("cost-draws", draws, 1_500, 60_000),
            f("cost-history", history, 60, 1_200),
        ],
        _ => vec![],
    }
}
