//! C15: same arguments, same result: at any time, in any order, in any thread.
use crate::ensure;
use crate::gen::*;
use crate::p_hist::*;
use crate::p_rand::{draw, Stream};
use crate::refcurve::*;
use crate::refmath::*;
use crate::rt::*;
use crate::sut::*;
use rabe_bn::arith::{U256, U512};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Barrier;

fn out_bytes(o: &Out) -> Vec<u8> {
    match o {
        Out::Fr(x) => [enc(x), x.into_bytes(), x.to_string().into_bytes()].concat(),
        Out::NoFr => vec![1],
        Out::G1(x) => [enc(x), x.into_bytes(), x.to_string().into_bytes()].concat(),
        Out::G2(x) => [enc(x), x.into_bytes()].concat(),
        Out::Gt(x) => [enc(x), x.into_bytes(), x.to_string().into_bytes()].concat(),
        Out::Bool(b) => vec![2, *b as u8],
        Out::Sum(x) => x.to_le_bytes().to_vec(),
    }
}

/// What a call does, a panic included.
fn outcome(op: &Op, v: &Vals) -> (Vec<u8>, Option<Out>) {
    match guard(|| exec(op, v).map(|o| (out_bytes(&o), o))) {
        Ok(Ok((b, o))) => (b, Some(o)),
        Ok(Err(e)) => (format!("error: {}", e).into_bytes(), None),
        Err((loc, m)) => (format!("panic at {}: {}", loc, m).into_bytes(), None),
    }
}
fn hex_of(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn code_of(op: &Op, v: &Vals) -> Option<(u64, usize, usize)> {
    let n = v.fr.len().max(v.g1.len()).max(v.g2.len()).max(v.gt.len());
    for k in 0..NOPS {
        for a in 0..n {
            for b in 0..n {
                if make(k, a, b) == *op {
                    return Some((k, a, b));
                }
            }
        }
    }
    None
}
fn args_of(v: &Vals) -> [String; 4] {
    let all = |x: Vec<String>| if x.is_empty() { "-".to_string() } else { x.join(",") };
    [
        all(v.fr.iter().map(|x| hex_of(&enc(&x.0))).collect()),
        all(v.g1.iter().map(|x| hex_of(&enc(&x.0))).collect()),
        all(v.g2.iter().map(|x| hex_of(&enc(&x.0))).collect()),
        all(v.gt.iter().map(|x| hex_of(&enc(&x.0))).collect()),
    ]
}
/// The same call in a process that never made another: None if its arguments cannot be handed
/// over.
fn elsewhere(op: &Op, v: &Vals) -> Option<Vec<u8>> {
    let (k, a, b) = code_of(op, v)?;
    let o = std::process::Command::new(std::env::current_exe().ok()?)
        .arg("eval")
        .args([k.to_string(), a.to_string(), b.to_string()])
        .args(args_of(v))
        .output()
        .ok()?;
    if !o.status.success() {
        return None;
    }
    unhex(String::from_utf8_lossy(&o.stdout).trim())
}
fn vals_of(args: &[String]) -> Option<Vals> {
    fn list<T: Codec>(s: &str) -> Option<Vec<(T, U4)>> {
        if s == "-" {
            return Some(vec![]);
        }
        s.split(',').map(|x| Some((dec::<T>(&unhex(x)?).ok()?, Z4))).collect()
    }
    Some(Vals { fr: list(&args[0])?, g1: list(&args[1])?, g2: list(&args[2])?, gt: list(&args[3])? })
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
/// The other side of `elsewhere`.
pub fn eval(args: &[String]) -> Option<String> {
    if args.len() != 7 {
        return None;
    }
    let n = |i: usize| args[i].parse::<usize>().ok();
    let v = vals_of(&args[3..])?;
    let op = make(n(0)? as u64, n(1)?, n(2)?);
    Some(hex_of(&outcome(&op, &v).0))
}
/// The other side of `cold`: several threads whose first calls, the first of the process too,
/// start together. One line per thread and call.
pub fn cold_eval(args: &[String]) -> Option<String> {
    if args.len() != 6 {
        return None;
    }
    let n: usize = args[0].parse().ok()?;
    let ops: Vec<Op> = args[1]
        .split(';')
        .map(|o| {
            let f: Vec<usize> = o.split(',').map(|x| x.parse().ok()).collect::<Option<_>>()?;
            Some(make(f[0] as u64, f[1], f[2]))
        })
        .collect::<Option<_>>()?;
    // spinning, so that the threads leave within nanoseconds of each other where there are cores
    let arrived = AtomicUsize::new(0);
    let meet = |round: usize| {
        arrived.fetch_add(1, SeqCst);
        let mut turns = 0u64;
        while arrived.load(SeqCst) < n * round {
            turns += 1;
            if turns > 20_000 {
                std::thread::yield_now();
            }
            std::hint::spin_loop();
        }
    };
    let outs: Vec<Option<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (ops, meet) = (&ops, &meet);
                s.spawn(move || {
                    meet(1);
                    let v = guard(|| vals_of(&args[2..])).ok().flatten();
                    let mut text = String::new();
                    for i in 0..ops.len() {
                        if i < 3 {
                            meet(2 + i);
                        }
                        // together at first, then each in its own order
                        let i = if i < 3 { i } else { 3 + (i + t) % (ops.len() - 3) };
                        let Some(v) = &v else { continue };
                        text += &format!("{} {} {}\n", t, i, hex_of(&outcome(&ops[i], v).0));
                    }
                    v.map(|_| text)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().ok().flatten()).collect()
    });
    outs.into_iter().collect::<Option<Vec<String>>>().map(|v| v.concat())
}
/// The result is that of the arguments alone: as the exponents predict, or, should the library
/// compute something else, the same that a new process computes.
fn pure(op: &Op, v: &Vals, got: &(Vec<u8>, Option<Out>)) -> Res<bool> {
    let e = match &got.1 {
        Some(o) => match guard(|| check(o, &shadow(op, v), || "".into())) {
            Ok(Ok(())) => return Ok(true),
            Ok(Err(e)) => e,
            Err((loc, m)) => format!("panic at {}: {}", loc, m),
        },
        None => String::from_utf8_lossy(&got.0).into_owned(),
    };
    match elsewhere(op, v) {
        Some(b) if b != got.0 => Err(format!("not the result of a process that makes this call alone: {}", e)),
        _ => Ok(false),
    }
}

/// Few points that differ in little: other representations, negatives, automorphism images,
/// points that share coordinates, infinity.
fn related_points<G: SGroup>(r: &mut Prng, n: usize) -> Res<Vec<(G, U4)>>
where
    G::F: GenField,
    G::C: GenCurve,
{
    let k = loop {
        let k = exponent(r);
        if k != Z4 {
            break k;
        }
    };
    let p = GP::<G::C>::of_k(&k);
    let (j, _) = rep(r, &p.a, None);
    let mut out = vec![(g_of_jac::<G>(&j)?, k)];
    // the automorphism multiplies by an eigenvalue: find which cube root of unity
    let l = lambda();
    let phi = G::C::endo(&p, false);
    let kl = if Pt::<G::C>::gen_mul(&FR.mul(&k, &l)).same(&phi.pt()) { FR.mul(&k, &l) } else { FR.mul(&k, &FR.mul(&l, &l)) };
    ensure!(Pt::<G::C>::gen_mul(&kl).same(&phi.pt()), "eigenvalue");
    while out.len() < n {
        let (q, kq) = match r.below(8) {
            0 => (p, k),
            1 => (p.neg(), FR.neg(&k)),
            2 | 3 => (phi, kl),
            4 => (phi.neg(), FR.neg(&kl)),
            5 => (GP { a: None, k: None }, Z4),
            6 => {
                let k2 = FR.add(&k, &ONE4);
                (GP::of_k(&k2), k2)
            }
            _ => {
                let k2 = FR.red4(&uniform4(r));
                (GP::of_k(&k2), k2)
            }
        };
        // the same z as the first, or its own
        let z = if r.chance(1, 2) { Some(j.2) } else { None };
        let (jq, _) = rep(r, &q.a, z);
        out.push((g_of_jac(&jq)?, kq));
    }
    Ok(out)
}

fn pool(r: &mut Prng) -> Res<Vals> {
    let mut v = init(r, 5, 1, 1, 4)?;
    let k = v.fr[0].1;
    for d in [FR.neg(&k), FR.add(&k, &ONE4), FR.mul(&k, &lambda())] {
        v.fr.push((fr_of_val(&d)?, d));
    }
    // scalars that share words with it (with its residue's words, or its value's), or the sum of all
    // words, or have the words in another order
    let mut n = 0;
    while n < 6 {
        let raw = n % 2 == 0;
        let x = if raw { FR.to_mont(&k) } else { k };
        let y = match n / 2 {
            0 => cancelled(r, &x),
            1 => {
                let mut y = x;
                shuffle(r, &mut y);
                y
            }
            _ => {
                let (mut y, i) = (any4(r), r.us(4));
                y[i] = x[i];
                y
            }
        };
        if lt(&y, &R) {
            let d = if raw { FR.from_mont(&y) } else { y };
            v.fr.push((fr_of_val(&d)?, d));
            n += 1;
        } else if n / 2 == 1 && r.chance(1, 8) {
            // no other order is below the modulus
            n += 1;
        }
    }
    // the inverse in Gt shares half of the coordinates
    if let Some((g, k)) = v.gt.last().copied() {
        v.gt.push((g.inverse(), FR.neg(&k)));
    }
    v.g1.extend(related_points::<G1>(r, 5)?);
    v.g2.extend(related_points::<G2>(r, 5)?);
    Ok(v)
}
fn snapshot(v: &Vals) -> Vec<u8> {
    let mut o = vec![];
    v.fr.iter().for_each(|x| o.extend(enc(&x.0)));
    v.g1.iter().for_each(|x| o.extend(enc(&x.0)));
    v.g2.iter().for_each(|x| o.extend(enc(&x.0)));
    v.gt.iter().for_each(|x| o.extend(enc(&x.0)));
    o
}
fn shuffle<T>(r: &mut Prng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.us(i + 1));
    }
}
fn jobs(r: &mut Prng, v: &Vals, n: usize, pair_one_in: u64) -> Vec<Op> {
    let mut ops = vec![];
    // pairings that share one argument, next to each other
    let (i, j) = (r.us(v.g1.len()), r.us(v.g2.len()));
    for _ in 0..n / 12 {
        ops.push(Op::Pair(i, r.us(v.g2.len())));
        ops.push(Op::Pair(r.us(v.g1.len()), j));
    }
    while ops.len() < n {
        ops.push(rand_op_of(r, v, pair_one_in, NOPS));
    }
    ops
}

/// Values to call with, unless the library cannot make them.
fn some_pool(c: &mut Case) -> Option<Vals> {
    let r = &mut c.rng;
    match guard(|| pool(r)) {
        Ok(Ok(v)) => Some(v),
        _ => {
            c.count("pool:none");
            None
        }
    }
}

/// One thread: every result that of its arguments, bit-identical in any order and repetition.
fn history(c: &mut Case) -> Res {
    let Some(v) = some_pool(c) else { return Ok(()) };
    let ops = jobs(&mut c.rng, &v, 60, 2);
    of_arguments_alone(c, &v, ops)
}

/// The same operation on operands that differ in little: what is remembered of one call must not
/// be taken for the other's.
fn bursts(c: &mut Case) -> Res {
    let Some(v) = some_pool(c) else { return Ok(()) };
    let r = &mut c.rng;
    let k = r.below(NOPS);
    let n = if matches!(k, 30 | 38) { 10 } else { 24 };
    let mut ops: Vec<Op> = vec![];
    while ops.len() < n {
        ops.push(op_of_kind(r, &v, k));
    }
    c.count("bursts");
    of_arguments_alone(c, &v, ops)
}

fn of_arguments_alone(c: &mut Case, v: &Vals, mut ops: Vec<Op>) -> Res {
    let r = &mut c.rng;
    let n = ops.len() as u64;
    let before = snapshot(v);
    let mut expected = vec![];
    let mut wrong = 0;
    for (i, op) in ops.iter().enumerate() {
        let o = outcome(op, v);
        if !pure(op, v, &o).map_err(|e| format!("call {} {:?} after {:?}: {}", i, op, &ops[..i], e))? {
            wrong += 1;
        }
        expected.push((*op, o.0));
    }
    for round in 0..3 {
        shuffle(r, &mut expected);
        let reps = if round == 2 { 4 } else { 1 };
        for (i, (op, want)) in expected.iter().enumerate() {
            for _ in 0..reps {
                if outcome(op, v).0 != *want {
                    return Err(format!(
                        "{:?} gives another result in round {} after {:?}",
                        op,
                        round,
                        expected[i.saturating_sub(3)..i].iter().map(|x| x.0).collect::<Vec<_>>()
                    ));
                }
            }
        }
        ensure!(snapshot(v) == before, "arguments changed");
    }
    ops.truncate(8);
    c.sig(&[hash_bytes(&before), hash_bytes(format!("{:?}", ops).as_bytes())]);
    c.nontrivial();
    c.add("calls:checked", n);
    c.add("calls:wrong-but-pure", wrong);
    c.add("calls:repeated", n * 6);
    c.sample(|| format!("{:?} ...", ops));
    Ok(())
}

/// The same call many times.
fn repetition(c: &mut Case) -> Res {
    let Some(v) = some_pool(c) else { return Ok(()) };
    let r = &mut c.rng;
    let op = rand_op_of(r, &v, 1, NOPS);
    let n = match op {
        Op::Pair(..) | Op::GtSample(_) | Op::G2Trip(_) => 60,
        Op::GtPow(..) | Op::G2Mul(..) | Op::G1Sample(_) | Op::G2Sample(_) | Op::FrNum(..) | Op::G1Mul(..) | Op::G2Norm(_) => 400,
        _ => 4000,
    };
    let first = outcome(&op, &v);
    pure(&op, &v, &first).map_err(|e| format!("{:?}: {}", op, e))?;
    for i in 0..n {
        ensure!(outcome(&op, &v).0 == first.0, "{:?} gives another result at repetition {}", op, i);
    }
    c.sig(&[hash_bytes(&first.0)]);
    c.nontrivial();
    c.add("calls:repeated", n);
    Ok(())
}

/// Samples depend on the stream alone, whatever was called before.
fn sampling(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let seed = r.u64();
    let draw = |k: u64| -> Vec<u8> {
        let mut s = Stream::seeded(mix(seed ^ k));
        guard(|| draw(k as usize % 8, &mut s)).unwrap_or_else(|(loc, m)| format!("panic at {}: {}", loc, m).into_bytes())
    };
    let mut order: Vec<u64> = (0..16).collect();
    let first: Vec<Vec<u8>> = order.iter().map(|k| draw(*k)).collect();
    for _ in 0..2 {
        shuffle(r, &mut order);
        for k in &order {
            ensure!(draw(*k) == first[*k as usize], "sample {} of stream {} depends on the calls before", k, seed);
        }
    }
    c.sig(&[seed]);
    c.nontrivial();
    c.add("calls:repeated", 48);
    Ok(())
}

/// Several threads over the same values.
fn threads(c: &mut Case) -> Res {
    let id = c.id;
    let Some(v) = some_pool(c) else { return Ok(()) };
    let r = &mut c.rng;
    let before = snapshot(&v);
    let few = r.chance(1, 2);
    let ops = if few {
        // alternate between few calls
        let base = jobs(r, &v, 24, 1);
        let m: Vec<Op> = (0..4).map(|_| *r.pick(&base)).collect();
        (0..24).map(|_| *r.pick(&m)).collect()
    } else {
        jobs(r, &v, 40, 2)
    };
    // expectations from the exponents, so that a first sequential run cannot hide a race;
    // bit patterns are fixed by the first thread to produce them
    // results are compared at the end, so that nothing orders the threads meanwhile
    let n = 2 + r.us(7);
    let bar = Barrier::new(n);
    let seeds: Vec<u64> = (0..n).map(|_| r.u64()).collect();
    let turn = AtomicUsize::new(0);
    let switches = AtomicUsize::new(0);
    type Seen = Vec<(usize, (Vec<u8>, Option<Out>))>;
    let seen: Vec<std::thread::Result<Seen>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(t, seed)| {
                let (v, ops, bar, turn, switches) = (&v, &ops, &bar, &turn, &switches);
                s.spawn(move || helper(id, move || {
                    let mut r = Prng::new(*seed);
                    let mut idx: Vec<usize> = (0..ops.len()).collect();
                    shuffle(&mut r, &mut idx);
                    // leading cluster shared by all threads
                    if r.chance(1, 2) {
                        idx.sort_by_key(|i| *i / 4);
                    }
                    let mut seen: Seen = vec![];
                    bar.wait();
                    for i in idx {
                        if r.chance(1, 5) {
                            std::thread::yield_now();
                        }
                        seen.push((i, outcome(&ops[i], v)));
                        if turn.swap(t, Relaxed) != t {
                            switches.fetch_add(1, Relaxed);
                        }
                    }
                    seen
                }))
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    let mut first: Vec<Option<Vec<u8>>> = vec![None; ops.len()];
    for s in seen {
        let Ok(s) = s else { return Err("a thread panicked".into()) };
        for (i, got) in s {
            match &first[i] {
                None => {
                    pure(&ops[i], &v, &got).map_err(|e| format!("{:?} among {} threads: {}", ops[i], n, e))?;
                    first[i] = Some(got.0);
                }
                Some(b) => ensure!(*b == got.0, "{:?} among {} threads: another thread got another result", ops[i], n),
            }
        }
    }
    // and once more alone, afterwards
    for (op, f) in ops.iter().zip(&first) {
        ensure!(f.as_ref() == Some(&outcome(op, &v).0), "{:?} gives another result alone than among {} threads", op, n);
    }
    ensure!(snapshot(&v) == before, "arguments changed");
    c.sig(&[hash_bytes(&before)]);
    c.nontrivial();
    c.add("threads:started", n as u64);
    c.add("threads:calls", (n * ops.len()) as u64);
    c.add("threads:observed-switches", switches.load(Relaxed) as u64);
    c.sample(|| format!("{} threads over {:?} ...", n, &ops[..6]));
    Ok(())
}

/// A new process whose threads make their first calls together.
fn cold(c: &mut Case) -> Res {
    let Some(mut v) = some_pool(c) else { return Ok(()) };
    v.g1.truncate(3);
    v.g2.truncate(2);
    v.gt.truncate(3);
    let v = v;
    // one such process at a time, so that its threads have cores to themselves
    static TURN: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let r = &mut c.rng;
    // every operation is first in turn, with the same arguments in all threads
    let kind = (c.id.1 + r.below(2) * 13) % NOPS;
    let first = op_of_kind(r, &v, kind);
    let mut processes = 0;
    let mut ops = jobs(r, &v, 6, 4);
    let mut known: Vec<(Op, Vec<u8>)> = vec![];
    let sizes = [2 + r.us(2), 3 + r.us(3), 6];
    for n in sizes {
        shuffle(&mut c.rng, &mut ops);
        let mut ops = ops.clone();
        ops.insert(0, first);
        let codes: Option<Vec<String>> =
            ops.iter().map(|o| code_of(o, &v).map(|(k, a, b)| format!("{},{},{}", k, a, b))).collect();
        let Some(codes) = codes else { return Ok(()) };
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let o = {
            let _turn = TURN.lock().unwrap_or_else(|e| e.into_inner());
            std::process::Command::new(exe).arg("cold").arg(n.to_string()).arg(codes.join(";")).args(args_of(&v)).output()
        };
        let o = o.unwrap_or_else(|e| panic!("starting a process: {}", e));
        if o.status.code() == Some(3) {
            // arguments that are not handed over
            c.count("cold:none");
            return Ok(());
        }
        ensure!(
            o.status.success(),
            "{:?} as the first calls of {} threads of a process end it with {:?}: {}",
            ops, n, o.status, String::from_utf8_lossy(&o.stderr)
        );
        let mut lines = 0;
        for line in String::from_utf8_lossy(&o.stdout).lines() {
            let f: Vec<&str> = line.split(' ').collect();
            let (Some(i), Some(b)) = (f.get(1).and_then(|x| x.parse::<usize>().ok()), f.get(2).and_then(|x| unhex(x))) else { continue };
            lines += 1;
            match known.iter().find(|k| k.0 == ops[i]) {
                None => {
                    // judged by what this process gets for the same call
                    let here = outcome(&ops[i], &v);
                    pure(&ops[i], &v, &here).map_err(|e| format!("{:?}: {}", ops[i], e))?;
                    ensure!(b == here.0, "{:?} among the first calls of {} threads gives another result", ops[i], n);
                    known.push((ops[i], b));
                }
                Some(x) => ensure!(x.1 == b, "{:?} among the first calls of {} threads gives different results", ops[i], n),
            }
        }
        processes += 1;
        c.add("cold:threads", n as u64);
        c.add("cold:calls", lines);
    }
    c.sig(&[kind, hash_bytes(&snapshot(&v))]);
    c.nontrivial();
    c.add("cold:processes", processes);
    c.sample(|| format!("{:?} threads begin with {:?}", sizes, first));
    Ok(())
}

/// Values move to other threads and back.
fn moving(c: &mut Case) -> Res {
    let id = c.id;
    let Some(v) = some_pool(c) else { return Ok(()) };
    let n = v.g1.len().min(v.g2.len());
    type Moved = (usize, G1, G2, Gt, Fr);
    fn work(i: usize, p: G1, q: G2, f: Fr) -> Result<Moved, (String, String)> {
        guard(|| {
            let e = pairing(p, q);
            (i, p + p, q * f, e.pow(f), f * f)
        })
    }
    let bytes = |m: &Result<Moved, (String, String)>| match m {
        Ok((_, p, q, e, f)) => [enc(p), enc(q), enc(e), enc(f)].concat(),
        Err((loc, m)) => format!("panic at {}: {}", loc, m).into_bytes(),
    };
    let (tx, rx) = std::sync::mpsc::channel();
    let mut hs = vec![];
    for i in 0..n {
        let tx = tx.clone();
        let (p, q, f) = (v.g1[i].0, v.g2[i].0, v.fr[i % v.fr.len()].0);
        hs.push(std::thread::spawn(move || helper(id, || tx.send((i, work(i, p, q, f))).unwrap())));
    }
    drop(tx);
    let mut seen = 0;
    for (i, m) in rx.iter() {
        let here = work(i, v.g1[i].0, v.g2[i].0, v.fr[i % v.fr.len()].0);
        ensure!(bytes(&m) == bytes(&here), "value {} computed in another thread differs from the same here", i);
        seen += 1;
    }
    let failed = hs.into_iter().map(|h| h.join()).any(|r| r.is_err());
    assert!(!failed && seen == n);
    c.sig(&[hash_bytes(&snapshot(&v))]);
    c.nontrivial();
    c.add("threads:started", n as u64);
    Ok(())
}

/// What the caller's own code does in the middle of a call.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Panic,
    Fail,
    Call,
}
/// A generator, reader, writer or text sink that interrupts the library after `at` bytes.
struct Hooked<'a> {
    stream: Stream,
    data: Vec<u8>,
    pos: usize,
    at: usize,
    act: Act,
    op: Op,
    v: &'a Vals,
    nested: Vec<Vec<u8>>,
    /// instead of the operation, the use interrupted here, again: how, what and its stream
    same: Option<(u64, usize, u64)>,
    fired: bool,
}
const INTERRUPTED: &str = "INTERRUPTED";
impl<'a> Hooked<'a> {
    /// True if the interruption is an error to be returned.
    fn step(&mut self, n: usize) -> bool {
        self.pos += n;
        if self.pos < self.at || (self.fired && self.act != Act::Fail) {
            return false;
        }
        self.fired = true;
        match self.act {
            Act::Panic => panic!("{}", INTERRUPTED),
            Act::Fail => true,
            Act::Call => {
                let got = match self.same {
                    None => outcome(&self.op, self.v).0,
                    Some((how, what, seed)) => {
                        let mut h = Hooked {
                            stream: Stream::seeded(seed), data: vec![], pos: 0, at: usize::MAX, act: Act::Call,
                            op: self.op, v: self.v, nested: vec![], same: None, fired: true,
                        };
                        interrupted(how, what, &mut h).unwrap_or_default()
                    }
                };
                self.nested.push(got);
                false
            }
        }
    }
}
impl<'a> rand::RngCore for Hooked<'a> {
    fn next_u32(&mut self) -> u32 {
        self.step(4);
        self.stream.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.step(8);
        self.stream.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.step(d.len());
        self.stream.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
fn io_error() -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::Other, INTERRUPTED)
}
impl<'a> std::io::Read for Hooked<'a> {
    fn read(&mut self, d: &mut [u8]) -> std::io::Result<usize> {
        let n = d.len().min(self.data.len() - self.pos.min(self.data.len())).min(8);
        let from = self.pos;
        if self.step(n) {
            return Err(io_error());
        }
        d[..n].copy_from_slice(&self.data[from..from + n]);
        Ok(n)
    }
}
impl<'a> std::io::Write for Hooked<'a> {
    fn write(&mut self, d: &[u8]) -> std::io::Result<usize> {
        if self.step(d.len()) {
            return Err(io_error());
        }
        self.data.extend(d);
        Ok(d.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl<'a> Iterator for Hooked<'a> {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        // the data are words
        if self.step(8) {
            return None;
        }
        let b = self.data.get(self.pos - 8..self.pos)?;
        Some(u64::from_le_bytes(b.try_into().ok()?))
    }
}
impl<'a> std::fmt::Write for Hooked<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.step(s.len()) {
            return Err(std::fmt::Error);
        }
        self.data.extend(s.as_bytes());
        Ok(())
    }
}
#[cfg(feature = "s")]
fn write_to<T: Codec>(w: &mut Hooked, t: &T) -> Result<(), String> {
    bincode::serialize_into(w, t).map_err(|e| e.to_string())
}
#[cfg(feature = "b")]
fn write_to<T: Codec>(w: &mut Hooked, t: &T) -> Result<(), String> {
    borsh::BorshSerialize::serialize(t, w).map_err(|e| e.to_string())
}
#[cfg(feature = "s")]
fn read_from<T: Codec>(r: &mut Hooked) -> Result<T, String> {
    bincode::deserialize_from(r).map_err(|e| e.to_string())
}
#[cfg(feature = "b")]
fn read_from<T: Codec>(r: &mut Hooked) -> Result<T, String> {
    T::deserialize_reader(r).map_err(|e| e.to_string())
}

const USES: usize = 12;
fn wide8(f: &[(Fr, U4)]) -> Option<[u64; 8]> {
    let (a, b) = (fr_raw(&f[0].0).ok()?, fr_raw(&f[f.len() - 1].0).ok()?);
    Some([a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]])
}
/// One use of the caller's code by the library: its result, or None if it was cut short.
fn interrupted(how: u64, what: usize, h: &mut Hooked) -> Option<Vec<u8>> {
    fn code<T: Codec>(how: u64, h: &mut Hooked, t: &T) -> Option<Vec<u8>> {
        if how == 1 {
            h.data.clear();
            write_to(h, t).ok().map(|_| h.data.clone())
        } else {
            h.data = enc(t);
            read_from::<T>(h).ok().map(|x| enc(&x))
        }
    }
    fn text<T: std::fmt::Display>(h: &mut Hooked, t: &T) -> Option<Vec<u8>> {
        h.data.clear();
        std::fmt::Write::write_fmt(h, format_args!("{}", t)).ok().map(|_| h.data.clone())
    }
    #[cfg(feature = "s")]
    fn json<T: Codec>(how: u64, h: &mut Hooked, t: &T) -> Option<Vec<u8>> {
        if how == 1 {
            h.data.clear();
            serde_json::to_writer(&mut *h, t).ok().map(|_| h.data.clone())
        } else {
            h.data = serde_json::to_vec(t).ok()?;
            serde_json::from_reader::<_, T>(h).ok().map(|x| enc(&x))
        }
    }
    #[cfg(feature = "b")]
    fn json<T: Codec>(how: u64, h: &mut Hooked, t: &T) -> Option<Vec<u8>> {
        code(how, h, t)
    }
    fn debug<T: std::fmt::Debug>(h: &mut Hooked, t: &T) -> Option<Vec<u8>> {
        h.data.clear();
        std::fmt::Write::write_fmt(h, format_args!("{:?} {:#?}", t, t)).ok().map(|_| h.data.clone())
    }
    let v = h.v;
    let w = (U256(fr_raw(&v.fr[0].0).ok()?), U512(wide8(&v.fr)?));
    let (a, b, c, d) = (v.fr[0].0, v.g1[v.g1.len() - 1].0, v.g2[v.g2.len() - 1].0, v.gt[v.gt.len() - 1].0);
    let run = || match (how, what % USES) {
        (0, k) => Some(draw(k % 8, h)),
        (4, k) => {
            h.data = (0..k as u64 * 8).map(|i| (i * i * 7) as u8).collect();
            let x: U512 = h.by_ref().collect();
            // an iterator may end early
            (h.act != Act::Fail || !h.fired).then(|| enc(&x))
        }
        (3, 0) => text(h, &a),
        (3, 1) => text(h, &b),
        (3, 2) => text(h, &d),
        (3, 3) => text(h, &w.0),
        (3, 4) => text(h, &w.1),
        (3, 5) => debug(h, &a),
        (3, 6) => debug(h, &b),
        (3, 7) => debug(h, &c),
        (3, 8) => debug(h, &d),
        (3, 9) => debug(h, &w.0),
        (3, _) => debug(h, &w.1),
        (_, 0) => code(how, h, &a),
        (_, 1) => code(how, h, &b),
        (_, 2) => code(how, h, &c),
        (_, 3) => code(how, h, &d),
        (_, 4) => code(how, h, &w.0),
        (_, 5) => code(how, h, &w.1),
        (_, 6) => json(how, h, &a),
        (_, 7) => json(how, h, &b),
        (_, 8) => json(how, h, &c),
        (_, 9) => json(how, h, &d),
        (_, 10) => json(how, h, &w.0),
        _ => json(how, h, &w.1),
    };
    match guard(run) {
        Ok(o) => o,
        Err((_, m)) if m.contains(INTERRUPTED) => None,
        Err((loc, m)) => Some(format!("panic at {}: {}", loc, m).into_bytes()),
    }
}

/// The caller's generator, reader, writer or formatter panics, fails or calls the library again
/// in the middle of a call: neither that call's result nor later calls' depend on it.
fn interruptions(c: &mut Case) -> Res {
    let id = c.id;
    let Some(v) = some_pool(c) else { return Ok(()) };
    let r = &mut c.rng;
    let before = snapshot(&v);
    let (how, what) = (r.below(5), r.us(USES));
    let pairs = if r.chance(1, 2) { 1 } else { 4 };
    let op = rand_op_of(r, &v, pairs, NOPS);
    let seed = r.u64();
    let want = outcome(&op, &v);
    pure(&op, &v, &want).map_err(|e| format!("{:?}: {}", op, e))?;
    let hooked = |act, at| Hooked {
        stream: Stream::seeded(seed), data: vec![], pos: 0, at, act, op, v: &v, nested: vec![], same: None, fired: false,
    };
    let mut plain = hooked(Act::Call, usize::MAX);
    let base = interrupted(how, what, &mut plain);
    ensure!(base.is_some(), "use {} {} fails though nothing interrupts it", how, what);
    let most = plain.pos + 2;
    let mut fired = 0;
    for _ in 0..6 {
        let act = *r.pick(&[Act::Panic, Act::Fail, Act::Call, Act::Call]);
        let act = if how == 0 && act == Act::Fail { Act::Panic } else { act };
        let at = r.us(most);
        let mut h = hooked(act, at);
        // the call within may be one of the same kind
        let same = r.chance(1, 2);
        if same {
            h.same = Some((how, what, seed));
        }
        let got = interrupted(how, what, &mut h);
        let say = || format!("{:?} at byte {} of use {} of {} with {:?}", act, at, how, what, op);
        ensure!(got == base || (got.is_none() && act != Act::Call), "{}: the interrupted call gives another result", say());
        for n in &h.nested {
            let want = if same { base.as_ref() } else { Some(&want.0) };
            ensure!(Some(n) == want, "{}: the {}call made within gives another result", say(), if same { "same " } else { "" });
        }
        fired += h.fired as u64;
        ensure!(outcome(&op, &v).0 == want.0, "{}: a later call gives another result", say());
        if r.chance(1, 3) {
            let w = std::thread::scope(|s| s.spawn(|| helper(id, || outcome(&op, &v).0)).join());
            ensure!(matches!(&w, Ok(w) if *w == want.0), "{}: a later call in another thread gives another result", say());
        }
        ensure!(interrupted(how, what, &mut hooked(Act::Call, usize::MAX)) == base, "{}: the call gives another result afterwards", say());
    }
    ensure!(snapshot(&v) == before, "arguments changed");
    c.sig(&[seed, how, what as u64]);
    c.nontrivial();
    c.add("interruptions", fired);
    c.count(["interrupted:generator", "interrupted:writer", "interrupted:reader", "interrupted:text", "interrupted:iterator"][how as usize]);
    c.sample(|| format!("use {} of {} interrupted by {:?}", how, what, op));
    Ok(())
}

#[allow(dead_code)]
fn must_be_thread_safe() {
    fn ok<T: Send + Sync + Copy + 'static>() {}
    ok::<Fr>();
    ok::<G1>();
    ok::<G2>();
    ok::<Gt>();
    ok::<rabe_bn::arith::U256>();
    ok::<rabe_bn::arith::U512>();
}

pub fn families(prop: &str) -> Vec<Family> {
    let f = |name, f: CaseFn, quick, thorough| Family { name, f, quick, thorough };
    match prop {
        "C15" => vec![
            f("history", history, 160, 10_000),
            f("bursts", bursts, 1_200, 60_000),
            f("repetition", repetition, 400, 20_000),
            f("sampling-history", sampling, 400, 20_000),
            f("interruptions", interruptions, 400, 20_000),
            f("threads", threads, 160, 10_000),
            f("cold", cold, 160, 6_000),
            f("moving", moving, 200, 10_000),
        ],
        _ => vec![],
    }
}
