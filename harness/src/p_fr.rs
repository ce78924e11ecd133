//! C01 scalar arithmetic, C02 scalars from external data, C03 canonical forms.
use crate::ensure;
use crate::gen::*;
use crate::refmath::*;
use crate::rt::*;
use crate::sut::*;
use rabe_bn::arith::U256;
use rabe_bn::FieldError;

/// Bring a scalar into the library by one of the public routes.
pub fn fr_in(r: &mut Prng, v: &U4) -> Res<Fr> {
    Ok(match r.below(8) {
        0 => Fr::from_slice(&be_bytes(v)).map_err(|e| format!("from_slice({}) failed: {:?}", hex(v), e))?,
        1 => Fr::new_mul_factor(U256(*v)),
        2 if r.chance(1, 4) => {
            Fr::from_str(&dec_string(v)).ok_or_else(|| format!("from_str({}) failed", dec_string(v)))?
        }
        3 => {
            let mut b = [0u8; 64];
            b[32..].copy_from_slice(&be_bytes(v));
            Fr::interpret(&b)
        }
        _ => fr_of_val(v)?,
    })
}

pub fn binop(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let a = scalar(r);
    let (b, tag) = related(r, &FR, &a);
    let (fa, fb) = (fr_in(r, &a)?, fr_in(r, &b)?);
    let w = |o: &str| format!("{} {} {} (mod r)", hex(&a), o, hex(&b));
    fr_is(&fa, &a, || format!("scalar {}", hex(&a)))?;
    fr_is(&fb, &b, || format!("scalar {}", hex(&b)))?;
    fr_is(&(fa + fb), &FR.add(&a, &b), || w("+"))?;
    fr_is(&(fb + fa), &FR.add(&a, &b), || w("+ swapped"))?;
    fr_is(&(fa - fb), &FR.sub(&a, &b), || w("-"))?;
    fr_is(&(fb - fa), &FR.sub(&b, &a), || w("- swapped"))?;
    fr_is(&(fa * fb), &FR.mul(&a, &b), || w("*"))?;
    fr_is(&(fb * fa), &FR.mul(&a, &b), || w("* swapped"))?;
    fr_is(&(fa * fa), &FR.mul(&a, &a), || format!("square of {}", hex(&a)))?;
    fr_is(&(fb + fb), &FR.add(&b, &b), || format!("double of {}", hex(&b)))?;
    fr_is(&(-fa), &FR.neg(&a), || format!("-{}", hex(&a)))?;
    fr_is(&(fb - fb), &Z4, || format!("{0} - {0}", hex(&b)))?;
    ensure!((fa == fb) == (a == b), "{} : == gives {}", w("=="), fa == fb);
    ensure!((fb != fa) == (a != b), "{} : != gives {}", w("!="), fb != fa);
    ensure!(fa.is_zero() == (a == Z4), "is_zero of {} is {}", hex(&a), fa.is_zero());
    ensure!((fa - fb).is_zero() == (a == b), "is_zero of {} is wrong", w("-"));
    c.sig(&a);
    c.sig(&b);
    if !(lt(&a, &[2, 0, 0, 0]) && lt(&b, &[2, 0, 0, 0])) {
        c.nontrivial();
    }
    c.count(match tag {
        "equal" => "pair:equal",
        "negative" => "pair:negative",
        "inverse" => "pair:inverse",
        "wide-product" => "pair:wide-product",
        "product" => "pair:extreme-product",
        "sum" => "pair:extreme-sum",
        "difference" => "pair:extreme-difference",
        "shared-words" => "pair:shared-words",
        _ => "pair:other",
    });
    c.sample(|| format!("a={} b={} ({})", hex(&a), hex(&b), tag));
    Ok(())
}

pub fn inverse(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let a = scalar(r);
    let fa = fr_in(r, &a)?;
    let inv = fa.inverse();
    c.sig(&a);
    if a == Z4 {
        ensure!(inv.is_none(), "0 has an inverse");
        c.count("inverse:zero");
        return Ok(());
    }
    c.nontrivial();
    let Some(i) = inv else { return Err(format!("{} has no inverse", hex(&a))) };
    let vi = fr_val(&i)?;
    ensure!(FR.mul(&vi, &a) == ONE4, "inverse of {} is {}", hex(&a), hex(&vi));
    ensure!(fa * i == Fr::one(), "{} times its inverse is not one()", hex(&a));
    c.sample(|| format!("inverse of {}", hex(&a)));
    Ok(())
}

pub fn pow(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let a = scalar(r);
    let e = exponent(r);
    let (fa, fe) = (fr_in(r, &a)?, fr_in(r, &e)?);
    fr_is(&fa.pow(fe), &FR.pow(&a, &e), || format!("{} ^ {}", hex(&a), hex(&e)))?;
    c.sig(&a);
    c.sig(&e);
    if !lt(&e, &[2, 0, 0, 0]) {
        c.nontrivial();
    }
    if e == Z4 {
        c.count("pow:exponent-zero");
    }
    if a == Z4 {
        c.count("pow:base-zero");
    }
    c.sample(|| format!("{} ^ {}", hex(&a), hex(&e)));
    Ok(())
}

pub fn chain(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut regs = vec![];
    for _ in 0..4 {
        let a = scalar(r);
        regs.push((fr_in(r, &a)?, a));
    }
    regs.push((Fr::zero(), Z4));
    regs.push((Fr::one(), ONE4));
    let mut sig = 0;
    for step in 0..40 {
        let (i, j, k) = (r.us(6), r.us(6), r.us(6));
        let ((x, a), (y, b)) = (regs[i], regs[j]);
        let op = r.below(7);
        sig = mix(sig ^ op << 12 ^ (i * 36 + j * 6 + k) as u64);
        let v = match op {
            0 => (x + y, FR.add(&a, &b)),
            1 => (x - y, FR.sub(&a, &b)),
            2 | 3 => (x * y, FR.mul(&a, &b)),
            4 => (-x, FR.neg(&a)),
            5 if r.chance(1, 4) => match x.inverse() {
                None => {
                    ensure!(a == Z4, "step {}: {} has no inverse", step, hex(&a));
                    (x, a)
                }
                Some(z) => (z, FR.inv(&a).ok_or("zero has an inverse")?),
            },
            6 => {
                let v = scalar(r);
                (fr_in(r, &v)?, v)
            }
            _ => (x * x, FR.mul(&a, &a)),
        };
        fr_is(&v.0, &v.1, || format!("step {} op {} on {} and {}", step, op, hex(&a), hex(&b)))?;
        regs[k] = v;
        let (p, q) = (r.us(6), r.us(6));
        ensure!(
            (regs[p].0 == regs[q].0) == (regs[p].1 == regs[q].1),
            "step {}: equality of {} and {} is wrong",
            step,
            hex(&regs[p].1),
            hex(&regs[q].1)
        );
    }
    let last = regs[0].1;
    c.sig(&last);
    c.sig(&[sig]);
    c.nontrivial();
    c.add("chain:steps", 40);
    Ok(())
}

// ---- C02

/// Any integer, as words, biased to multiples of r.
fn big(r: &mut Prng) -> U8 {
    match r.below(6) {
        0 => wide(&any4(r)),
        1 => {
            let q = any4(r);
            let mut t = mul4(&q, &R);
            match r.below(3) {
                0 => {
                    add_to(&mut t, &[r.below(3)]);
                }
                1 => {
                    sub_from(&mut t, &[r.below(3)]);
                }
                _ => {
                    add_to(&mut t, &below(r, &FR));
                }
            }
            t
        }
        2 => wide(&near_multiple(r, &R)),
        3 => [limb(r), limb(r), limb(r), limb(r), limb(r), limb(r), limb(r), limb(r)],
        4 => {
            let m = if r.chance(1, 2) { &P } else { &R };
            let mut t = mul4(m, m);
            if r.chance(1, 2) {
                add_to(&mut t, &[r.below(3)]);
            } else {
                sub_from(&mut t, &[r.below(3)]);
            }
            t
        }
        _ => {
            let mut t = [0; 8];
            for x in t.iter_mut() {
                *x = r.u64();
            }
            t
        }
    }
}

pub fn from_str(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (s, v) = if r.chance(1, 3) {
        // arbitrary digits, any length
        let most = if r.chance(1, 2000) { 70_000 } else if r.chance(1, 20) { 1000 } else { 180 };
        let n = 1 + r.below(most);
        let mode = r.below(8);
        let s: String = (0..n)
            .map(|_| {
                let d = match mode {
                    0 => r.below(10),
                    1 => 9,
                    2 => *r.pick(&[0, 0, 0, 9, 1]),
                    _ => *r.pick(&[0, 8, 9]),
                };
                (b'0' + d as u8) as char
            })
            .collect();
        let mut v = Z4;
        for ch in s.bytes() {
            v = FR.add(&FR.mul(&v, &[10, 0, 0, 0]), &[(ch - b'0') as u64, 0, 0, 0]);
        }
        (s, v)
    } else {
        let x = big(r);
        let z = if r.chance(1, 4) { r.below(90) } else { 0 };
        let mut s = "0".repeat(z as usize);
        s += &dec_string(&x);
        (s, FR.reduce(&x))
    };
    let f = Fr::from_str(&s);
    let Some(f) = f else { return Err(format!("from_str({:?}) refused", s)) };
    fr_is(&f, &v, || format!("from_str({:?})", s))?;
    c.sig(&[hash_bytes(s.as_bytes())]);
    c.nontrivial();
    if s.len() > 77 {
        c.count("from_str:longer-than-r");
    }
    c.sample(|| format!("from_str({:?})", s));
    Ok(())
}

pub fn from_str_bad(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n = r.us(90);
    let mut s: Vec<char> = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
    let k = if r.chance(1, 2) { 1 } else { 1 + r.us(4) };
    for _ in 0..k {
        let ch = match r.below(8) {
            0 => *r.pick(&['+', '-', ' ', '_', '.', ',', 'x', 'e', 'E', '\t', '\n', '\0', '/', ':', '\'']),
            1 => (b'a' + r.below(26) as u8) as char,
            2 => (b'A' + r.below(26) as u8) as char,
            // digits of other scripts, full width, superscripts, fractions
            3 => *r.pick(&['\u{0660}', '\u{0669}', '\u{06f3}', '\u{0967}', '\u{ff10}', '\u{ff19}', '\u{00b2}', '\u{2460}', '\u{1d7ce}', '\u{00bd}', '\u{0e51}']),
            4 => *r.pick(&['\u{feff}', '\u{200b}', '\u{00a0}', '\u{0301}', '\u{10ffff}', '\u{202e}']),
            5 => char::from_u32(r.below(128) as u32).unwrap(),
            _ => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('g'),
        };
        let ch = if ch.is_ascii_digit() { 'g' } else { ch };
        let at = match r.below(4) {
            0 => 0,
            1 => s.len(),
            _ => r.us(s.len() + 1),
        };
        s.insert(at, ch);
    }
    let s: String = s.into_iter().collect();
    if let Some(f) = Fr::from_str(&s) {
        return Err(format!("from_str({:?}) accepted as {}", s, hex(&fr_val(&f)?)));
    }
    c.sig(&[hash_bytes(s.as_bytes())]);
    c.nontrivial();
    c.sample(|| format!("from_str({:?}) must be refused", s));
    Ok(())
}

pub fn from_slice(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let x = any4(r);
    let b = be_bytes(&x);
    let f = Fr::from_slice(&b).map_err(|e| format!("from_slice({}) refused: {:?}", hex(&x), e))?;
    let want = FR.red4(&x);
    fr_is(&f, &want, || format!("from_slice({})", hex(&x)))?;
    let g = Fr::new_mul_factor(U256(x));
    fr_is(&g, &want, || format!("new_mul_factor({})", hex(&x)))?;
    let g = Fr::new_mul_factor(U256::from(x));
    fr_is(&g, &want, || format!("new_mul_factor({})", hex(&x)))?;
    let u = U256::from_slice(&b).map_err(|e| format!("U256::from_slice refused: {:?}", e))?;
    ensure!(u == U256(x), "U256::from_slice({}) is {:?}", hex(&x), u);
    ensure!(f == g, "from_slice and new_mul_factor of {} differ", hex(&x));
    c.sig(&x);
    c.nontrivial();
    if !lt(&x, &R) {
        c.count("slice:not-below-r");
        if want == Z4 {
            c.count("slice:multiple-of-r");
        }
    }
    c.sample(|| format!("from_slice({})", hex(&x)));
    Ok(())
}

pub fn from_slice_len(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n = match r.below(8) {
        0 => 31,
        1 => 33,
        2 => 0,
        3 => 64,
        4 => r.us(5000),
        _ => r.us(70),
    };
    let v: Vec<u8> = if r.chance(1, 3) { vec![0; n] } else { (0..n).map(|_| r.u64() as u8).collect() };
    let f = Fr::from_slice(&v);
    if n == 32 {
        ensure!(f.is_ok(), "from_slice of 32 bytes refused");
    } else {
        match f {
            Err(FieldError::InvalidSliceLength) => {}
            o => return Err(format!("from_slice of {} bytes gives {:?}", n, o)),
        }
        ensure!(U256::from_slice(&v).is_err(), "U256::from_slice of {} bytes accepted", n);
    }
    c.sig(&[n as u64, hash_bytes(&v)]);
    c.nontrivial();
    c.count("slice:wrong-length");
    c.sample(|| format!("from_slice of {} bytes", n));
    Ok(())
}

pub fn interpret(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let x = big(r);
    let b = be_bytes(&x);
    let mut buf = [0u8; 64];
    buf.copy_from_slice(&b);
    let f = Fr::interpret(&buf);
    fr_is(&f, &FR.reduce(&x), || format!("interpret({})", hex(&x)))?;
    ensure!(buf[..] == b[..], "interpret changed its buffer");
    c.sig(&x);
    c.nontrivial();
    if x[4..] != [0; 4] {
        c.count("interpret:above-256-bits");
    }
    c.sample(|| format!("interpret({})", hex(&x)));
    Ok(())
}

// ---- C03

/// Word patterns that sloppy text or byte forms confuse with each other.
fn collide(r: &mut Prng, a: &[U4]) -> Vec<U4> {
    let mut v = a.to_vec();
    let n = v.len();
    let i = r.us(n);
    match r.below(12) {
        0 => v[i][r.us(4)] ^= 1 << r.below(64),
        1 => {
            let (x, y) = (r.us(4), r.us(4));
            v[i].swap(x, y);
        }
        2 => {
            let j = r.us(n);
            v.swap(i, j);
        }
        3 => {
            // move hex digits between neighbouring words
            let k = r.us(3);
            let d = v[i][k + 1] & 15;
            v[i][k + 1] >>= 4;
            let digits = 16 - v[i][k].leading_zeros() / 4;
            if digits < 16 {
                v[i][k] |= d << (4 * digits);
            }
        }
        4 => {
            let k = r.us(4);
            v[i][k] = v[i][k].swap_bytes();
        }
        5 => v[i].reverse(),
        6 => {
            let j = r.us(n);
            let (x, y) = (r.us(4), r.us(4));
            let t = v[i][x];
            v[i][x] = v[j][y];
            v[j][y] = t;
        }
        7 => {
            let k = r.us(4);
            v[i][k] = v[i][k].rotate_left(4 * r.below(16) as u32);
        }
        8..=10 => {
            let j = r.us(n);
            let (x, y) = (r.us(4), r.us(4));
            let (a, b) = cancelling(r, v[i][x], v[j][y]);
            if (i, x) != (j, y) {
                v[i][x] = changed(v[i][x], a);
                v[j][y] = changed(v[j][y], b);
            }
        }
        _ => v[i][r.us(4)] = limb(r),
    }
    v
}

fn forms<T: Codec + Copy + std::fmt::Debug>(t: &T, bytes: Vec<u8>, text: String) -> [Vec<u8>; 5] {
    [bytes, text.into_bytes(), enc(t), format!("{:?}", t).into_bytes(), format!("{:#?}", t).into_bytes()]
}

/// A clone is the same value in every form.
fn clones<T: Codec + Clone + std::fmt::Debug>(t: &T, other: &T) -> Res {
    let a = t.clone();
    let mut b = other.clone();
    b.clone_from(t);
    for x in [&a, &b] {
        ensure!(enc(x) == enc(t), "a clone of {:?} is {:?}", t, x);
    }
    Ok(())
}

/// Compare all forms of two values that are equal (or not).
fn judge(eq: bool, same: bool, a: [Vec<u8>; 5], b: [Vec<u8>; 5], what: impl Fn() -> String) -> Res {
    ensure!(eq == same, "{}: == gives {}, values are {}", what(), eq, if same { "equal" } else { "different" });
    for (i, n) in ["bytes", "text", "encoding", "debug text", "long debug text"].iter().enumerate() {
        ensure!(
            (a[i] == b[i]) == same,
            "{}: {} {} though the values are {}",
            what(),
            n,
            if same { "differ" } else { "coincide" },
            if same { "equal" } else { "different" }
        );
    }
    Ok(())
}

fn small_words(r: &mut Prng, raw: &U4) -> U4 {
    // few hex digits per word: text forms without padding are most ambiguous here
    let mut x = *raw;
    for w in x.iter_mut() {
        *w = r.u64() >> (64 - 4 * (1 + r.below(15)));
    }
    x[3] &= u64::MAX >> 4;
    if lt(&x, &R) {
        x
    } else {
        [x[0], x[1], x[2], 1]
    }
}

pub fn canon_fr(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut raw = FR.to_mont(&scalar(r));
    if r.chance(1, 3) {
        raw = small_words(r, &raw);
    }
    let v = FR.from_mont(&raw);
    let x = fr_in(r, &v)?;
    let fx = || forms(&x, x.into_bytes(), x.to_string());
    // layout
    let want = byte_form(&[raw]);
    ensure!(x.into_bytes() == want, "into_bytes of residue {} is {:02x?}", hex(&raw), x.into_bytes());
    let vv: Vec<u8> = x.into();
    ensure!(vv == want, "Vec::from of residue {} is {:02x?}", hex(&raw), vv);
    // the same value by other computations
    let t = scalar(r);
    let ft = fr_in(r, &t)?;
    clones(&x, &ft)?;
    let mut others = vec![(x + ft) - ft, ft - (ft - x), -(-x), x * Fr::one(), x + Fr::zero()];
    if t != Z4 && r.chance(1, 8) {
        let i = ft.inverse().ok_or("no inverse")?;
        others.push(x * ft * i);
        others.push((x * i) * ft);
    }
    for (i, y) in others.iter().enumerate() {
        judge(x == *y, true, fx(), forms(y, y.into_bytes(), y.to_string()), || {
            format!("residue {} and route {} through {}", hex(&raw), i, hex(&t))
        })?;
    }
    // neighbours
    let mut diff = 0;
    for _ in 0..4 {
        let w = collide(r, &[raw])[0];
        if !lt(&w, &R) {
            continue;
        }
        let y = fr_of_raw(&w)?;
        judge(x == y, w == raw, fx(), forms(&y, y.into_bytes(), y.to_string()), || {
            format!("residues {} and {}", hex(&raw), hex(&w))
        })?;
        if w != raw {
            diff += 1;
        }
    }
    c.sig(&raw);
    c.nontrivial();
    c.add("pairs:equal", 5);
    c.add("pairs:different", diff);
    c.sample(|| format!("residue {} text {}", hex(&raw), x));
    Ok(())
}

pub fn canon_gt(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let v = rq12(r);
    let x = gt_of(&v)?;
    let raws: Vec<U4> = v.to_tower().iter().map(|q| FQ.to_mont(&q.0)).collect();
    let fx = || forms(&x, x.into_bytes(), x.to_string());
    let want = byte_form(&raws);
    ensure!(x.into_bytes() == want, "into_bytes of Gt {:?} is {:02x?}", raws, x.into_bytes());
    let vv: Vec<u8> = x.into();
    ensure!(vv == want, "Vec::from of Gt {:?} is {:02x?}", raws, vv);
    let t = rq12(r);
    let ft = gt_of(&t)?;
    clones(&x, &ft)?;
    let i = ft.inverse();
    for (k, y) in [(x * ft) * i, i * (ft * x), x * Gt::one(), x.inverse().inverse()].iter().enumerate() {
        judge(x == *y, true, fx(), forms(y, y.into_bytes(), y.to_string()), || {
            format!("Gt {:?} and route {} through {:?}", raws, k, t.to_tower())
        })?;
    }
    let mut diff = 0;
    for _ in 0..4 {
        let w = collide(r, &raws);
        if w.iter().any(|u| !lt(u, &P)) || w.iter().all(|u| *u == Z4) {
            continue;
        }
        let y = dec::<Gt>(&raws_bytes(&w)).map_err(|e| format!("decoding Gt failed: {}", e))?;
        judge(x == y, w == raws, fx(), forms(&y, y.into_bytes(), y.to_string()), || {
            format!("Gt {:?} and {:?}", raws, w)
        })?;
        if w != raws {
            diff += 1;
        }
    }
    for u in &raws {
        c.sig(u);
    }
    c.nontrivial();
    c.add("pairs:equal", 4);
    c.add("pairs:different", diff);
    c.sample(|| format!("Gt tower coordinates {:?}", v.to_tower().map(|q| hex(&q.0))));
    Ok(())
}

/// Pairing results reached by different routes have one form.
pub fn canon_pair(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (a, b) = (exponent(r), exponent(r));
    let (fa, fb) = (fr_in(r, &a)?, fr_in(r, &b)?);
    let g = pairing(G1::one() * fa, G2::one() * fb);
    let raws = gt_raws(&g)?;
    let routes = [
        pairing(G1::one() * fb, G2::one() * fa),
        pairing(G1::one() * (fa * fb), G2::one()),
        pairing(G1::one(), G2::one()).pow(fa * fb),
    ];
    for (i, y) in routes.iter().enumerate() {
        judge(
            g == *y,
            true,
            forms(&g, g.into_bytes(), g.to_string()),
            forms(y, y.into_bytes(), y.to_string()),
            || format!("e(aG1,bG2) and route {} for a={} b={}", i, hex(&a), hex(&b)),
        )?;
    }
    ensure!(g.into_bytes() == byte_form(&raws), "into_bytes of a pairing result does not have the layout");
    c.sig(&a);
    c.sig(&b);
    if a != Z4 && b != Z4 {
        c.nontrivial();
    }
    c.add("pairs:equal", 3);
    Ok(())
}

pub fn families(prop: &str) -> Vec<Family> {
    let f = |name, f: CaseFn, quick, thorough| Family { name, f, quick, thorough };
    match prop {
        "C01" => vec![
            f("fr-binop", binop, 1_500_000, 60_000_000),
            f("fr-inverse", inverse, 300_000, 10_000_000),
            f("fr-pow", pow, 60_000, 2_000_000),
            f("fr-chain", chain, 60_000, 2_000_000),
        ],
        "C02" => vec![
            f("from-str", from_str, 200_000, 8_000_000),
            f("from-str-bad", from_str_bad, 200_000, 8_000_000),
            f("from-slice", from_slice, 1_000_000, 40_000_000),
            f("from-slice-len", from_slice_len, 100_000, 3_000_000),
            f("interpret", interpret, 300_000, 12_000_000),
        ],
        "C03" => vec![
            f("canon-fr", canon_fr, 150_000, 6_000_000),
            f("canon-gt", canon_gt, 20_000, 800_000),
            f("canon-pair", canon_pair, 800, 30_000),
        ],
        _ => vec![],
    }
}
