//! C08 the pairing; C09 Gt arithmetic.
use crate::ensure;
use crate::gen::*;
use crate::p_fr::fr_in;
use crate::refcurve::*;
use crate::refmath::*;
use crate::refpair;
use crate::reftower::*;
use crate::rt::*;
use crate::sut::*;

pub fn pw(k: &U4) -> Rq12 {
    refpair::gt_gen_pow(k)
}
fn known<C: GenCurve>(r: &mut Prng) -> GP<C> {
    match r.below(8) {
        0 => GP::of_k(&ONE4),
        1 => GP::of_k(&FR.neg(&ONE4)),
        2 => GP::of_k(&FR.red4(&uniform4(r))),
        _ => GP::of_k(&exponent(r)),
    }
}

/// Points of known logarithm against a power of e(G1, G2).
fn dlog(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let p = known::<C1>(r);
    let q = known::<C2>(r);
    let (jp, zp) = rep(r, &p.a, None);
    let (jq, zq) = rep(r, &q.a, None);
    let gp: G1 = inject(r, &p, &jp)?;
    let gq: G2 = inject(r, &q, &jq)?;
    let k = FR.mul(&p.k.unwrap(), &q.k.unwrap());
    let w = || format!("pairing of P={:?} (a={}) Q={:?} (b={})", g_jac(&gp), hex(&p.k.unwrap()), g_jac(&gq), hex(&q.k.unwrap()));
    let e = pairing(gp, gq);
    gt_is(&e, &pw(&k), w)?;
    ensure!((e == Gt::one()) == (k == Z4), "{}: triviality is wrong", w());
    c.sig(&p.k.unwrap());
    c.sig(&q.k.unwrap());
    for f in [&jp.2].iter().flat_map(|f| f.raws()).chain(jq.2.raws()) {
        c.sig(&f);
    }
    if k != Z4 {
        c.nontrivial();
    } else {
        c.count("pair:trivial");
    }
    c.count(if zp == Zk::One && zq == Zk::One { "rep:affine" } else { "rep:projective" });
    c.sample(|| format!("e({}G1, {}G2)", hex(&p.k.unwrap()), hex(&q.k.unwrap())));
    Ok(())
}

/// Any points against the independent pairing.
fn miller(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let p = point_nz::<C1>(r);
    let q = point_nz::<C2>(r);
    let (jp, _) = rep(r, &p.a, None);
    let (jq, _) = rep(r, &q.a, None);
    let gp: G1 = inject(r, &p, &jp)?;
    let gq: G2 = inject(r, &q, &jq)?;
    let want = refpair::pairing(&p.pt(), &q.pt());
    gt_is(&pairing(gp, gq), &want, || format!("pairing of {:?} and {:?}", g_jac(&gp), g_jac(&gq)))?;
    if p.k.is_none() {
        c.count("pair:P-of-unknown-dlog");
    }
    // order r exactly
    if c.rng.chance(1, 8) {
        ensure!(want.pow(&R) == Rq12::one() && want != Rq12::one(), "value of order other than r");
        c.count("pair:order-checked");
    }
    for f in jp.0.raws().into_iter().chain(jp.1.raws()).chain(jq.0.raws()).chain(jq.2.raws()) {
        c.sig(&f);
    }
    c.nontrivial();
    c.sample(|| format!("e({:?}, {:?})", jp, jq));
    Ok(())
}

/// Additivity, inverses, scalars moved between the arguments, representations.
fn bilinear(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let p = point::<C1>(r);
    let p2 = if r.chance(1, 4) { p.neg() } else if r.chance(1, 4) { C1::endo(&p, r.chance(1, 2)) } else { point(r) };
    let q = point::<C2>(r);
    let q2 = if r.chance(1, 4) { q.neg() } else if r.chance(1, 4) { C2::endo(&q, r.chance(1, 2)) } else { point(r) };
    let (jp, _) = rep(r, &p.a, None);
    let (jp2, _) = rep(r, &p2.a, None);
    let (jq, _) = rep(r, &q.a, None);
    let (jq2, _) = rep(r, &q2.a, None);
    let gp: G1 = inject(r, &p, &jp)?;
    let gp2: G1 = inject(r, &p2, &jp2)?;
    let gq: G2 = inject(r, &q, &jq)?;
    let gq2: G2 = inject(r, &q2, &jq2)?;
    let w = || format!("P={:?} P'={:?} Q={:?} Q'={:?}", jp, jp2, jq, jq2);
    let e = pairing(gp, gq);
    let e2 = pairing(gp2, gq);
    ensure!(pairing(gp + gp2, gq) == e * e2, "e(P+P',Q) != e(P,Q)e(P',Q): {}", w());
    ensure!(pairing(gp - gp2, gq) == e * e2.inverse(), "e(P-P',Q) != e(P,Q)/e(P',Q): {}", w());
    let e3 = pairing(gp, gq2);
    ensure!(pairing(gp, gq + gq2) == e * e3, "e(P,Q+Q') != e(P,Q)e(P,Q'): {}", w());
    ensure!(pairing(gp, gq - gq2) == e * e3.inverse(), "e(P,Q-Q') != e(P,Q)/e(P,Q'): {}", w());
    ensure!(pairing(-gp, gq) == e.inverse(), "e(-P,Q): {}", w());
    ensure!(pairing(gp, -gq) == e.inverse(), "e(P,-Q): {}", w());
    let (a, b) = (exponent(r), exponent(r));
    let (fa, fb) = (fr_in(r, &a)?, fr_in(r, &b)?);
    let want = e.pow(fa * fb);
    ensure!(pairing(gp * fa, gq * fb) == want, "e(aP,bQ): {} a={} b={}", w(), hex(&a), hex(&b));
    ensure!(pairing(gp * fb, gq).pow(fa) == want, "e(bP,Q)^a: {} a={} b={}", w(), hex(&a), hex(&b));
    ensure!(pairing(gp, gq * (fa * fb)) == want, "e(P,abQ): {} a={} b={}", w(), hex(&a), hex(&b));
    let trivial = p.a.is_none() || q.a.is_none();
    ensure!((e == Gt::one()) == trivial, "degeneracy: {}", w());
    // representation independence
    let mut np = gp;
    np.normalize();
    let mut nq = gq;
    nq.normalize();
    let (kp, _) = rep(r, &p.a, None);
    let (kq, _) = rep(r, &q.a, None);
    let (hp, hq): (G1, G2) = (g_of_jac(&kp)?, g_of_jac(&kq)?);
    for (i, v) in [pairing(np, gq), pairing(gp, nq), pairing(np, nq), pairing(hp, gq), pairing(gp, hq)].iter().enumerate() {
        ensure!(*v == e && enc(v) == enc(&e), "another representation ({}) gives another value: {} {:?} {:?}", i, w(), kp, kq);
    }
    c.sig(&a);
    c.sig(&b);
    for f in jp.0.raws().into_iter().chain(jq.0.raws()) {
        c.sig(&f);
    }
    if !trivial {
        c.nontrivial();
    } else {
        c.count("pair:trivial");
    }
    c.add("pair:laws", 16);
    Ok(())
}

fn infinity(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let ip = r.chance(1, 2);
    let p = if ip { GP { a: None, k: Some(Z4) } } else { point::<C1>(r) };
    let q = if !ip { GP { a: None, k: Some(Z4) } } else { point::<C2>(r) };
    let (jp, _) = rep(r, &p.a, None);
    let (jq, _) = rep(r, &q.a, None);
    let gp: G1 = inject(r, &p, &jp)?;
    let gq: G2 = inject(r, &q, &jq)?;
    gt_is(&pairing(gp, gq), &Rq12::one(), || format!("pairing of {:?} and {:?}", jp, jq))?;
    ensure!(pairing(gp, gq) == Gt::one(), "pairing with infinity is not one()");
    for f in jp.0.raws().into_iter().chain(jq.0.raws()).chain(jp.2.raws()).chain(jq.2.raws()) {
        c.sig(&f);
    }
    if p.a.is_some() || q.a.is_some() {
        c.nontrivial();
    }
    c.count("pair:trivial");
    Ok(())
}

// ---- C09

/// A nonzero element, with its exponent if it is a pairing value.
fn gt_elem(r: &mut Prng) -> (Rq12, Option<U4>) {
    match r.below(4) {
        0 => {
            let k = exponent(r);
            (pw(&k), Some(k))
        }
        _ => (rq12(r), None),
    }
}
fn gt_related(r: &mut Prng, x: &Rq12) -> Rq12 {
    match r.below(8) {
        0 => *x,
        1 => x.inv().unwrap(),
        2 => x.conj6(),
        3 => Rq12::zero().sub(x),
        4 => {
            let mut t = x.to_tower();
            t[r.us(12)] = rq(r);
            let v = Rq12::from_tower(&t);
            if v.is_zero() {
                Rq12::one()
            } else {
                v
            }
        }
        _ => gt_elem(r).0,
    }
}
fn sig_gt(c: &mut Case, v: &Rq12) {
    for q in v.to_tower() {
        c.sig(&q.0);
    }
}

fn gt_mul(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (x, _) = gt_elem(r);
    let y = gt_related(r, &x);
    let (gx, gy) = (gt_of(&x)?, gt_of(&y)?);
    let w = |o: &str| format!("Gt {}: x={:?} y={:?}", o, x.to_tower().map(|q| hex(&q.0)), y.to_tower().map(|q| hex(&q.0)));
    gt_is(&gx, &x, || w("x"))?;
    gt_is(&(gx * gy), &x.mul(&y), || w("x*y"))?;
    gt_is(&(gy * gx), &x.mul(&y), || w("y*x"))?;
    gt_is(&(gx * gx), &x.mul(&x), || w("x*x"))?;
    let i = x.inv().unwrap();
    gt_is(&gx.inverse(), &i, || w("1/x"))?;
    gt_is(&(gy * gx.inverse()), &y.mul(&i), || w("y/x"))?;
    gt_is(&(gx * gx.inverse()), &Rq12::one(), || w("x/x"))?;
    gt_is(&Gt::one(), &Rq12::one(), || w("one"))?;
    ensure!((gx == gy) == (x == y) && (gx != gy) == (x != y), "{} gives {}", w("=="), gx == gy);
    ensure!((gx == Gt::one()) == (x == Rq12::one()), "{}", w("== one"));
    sig_gt(c, &x);
    sig_gt(c, &y);
    if x != Rq12::one() && y != Rq12::one() {
        c.nontrivial();
    }
    c.sample(|| w("x*y, 1/x"));
    Ok(())
}

fn gt_pow(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (x, k) = gt_elem(r);
    let e = exponent(r);
    let fe = fr_in(r, &e)?;
    let g = gt_of(&x)?;
    let w = || format!("Gt x^e: x={:?} e={}", x.to_tower().map(|q| hex(&q.0)), hex(&e));
    let want = match &k {
        Some(k) => pw(&FR.mul(k, &e)),
        None => x.pow(&e),
    };
    gt_is(&g.pow(fe), &want, w)?;
    if k.is_some() {
        ensure!(g.pow(-Fr::one()) == g.inverse(), "g^(r-1) is not 1/g: {}", w());
        let f = exponent(r);
        let ff = fr_in(r, &f)?;
        ensure!(g.pow(fe) * g.pow(ff) == g.pow(fe + ff), "g^j g^k != g^(j+k): {} k={}", w(), hex(&f));
        ensure!(g.pow(fe).pow(ff) == g.pow(fe * ff), "(g^j)^k != g^(jk): {} k={}", w(), hex(&f));
        ensure!(g.inverse().pow(fe) == g.pow(-fe), "(1/g)^j != g^(-j): {}", w());
        c.count("pow:pairing-value");
    } else {
        c.count("pow:any-element");
    }
    sig_gt(c, &x);
    c.sig(&e);
    if !lt(&e, &[2, 0, 0, 0]) && x != Rq12::one() {
        c.nontrivial();
    }
    c.sample(w);
    Ok(())
}

/// Chains over values the library computed itself.
fn gt_chain(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut regs: Vec<(Gt, Rq12)> = vec![(Gt::one(), Rq12::one())];
    {
        let (a, b) = (exponent(r), exponent(r));
        let g = pairing(G1::one() * fr_in(r, &a)?, G2::one() * fr_in(r, &b)?);
        regs.push((g, pw(&FR.mul(&a, &b))));
    }
    for _ in 0..2 {
        let (x, _) = gt_elem(r);
        regs.push((gt_of(&x)?, x));
    }
    let mut sig = 0;
    for step in 0..25 {
        let (i, j, k) = (r.us(4), r.us(4), r.us(4));
        let op = r.below(6);
        sig = mix(sig ^ op << 20 ^ (i * 64 + j * 8 + k) as u64);
        let ((a, ra), (b, rb)) = (regs[i], regs[j]);
        let v = match op {
            0 | 1 => (a * b, ra.mul(&rb)),
            2 => (a.inverse(), ra.inv().ok_or("zero")?),
            3 => (a * b.inverse(), ra.mul(&rb.inv().ok_or("zero")?)),
            4 if r.chance(1, 3) => {
                let e = [r.below(1000), 0, 0, 0];
                (a.pow(fr_of_val(&e)?), ra.pow(&e[..1]))
            }
            _ => (a * a, ra.mul(&ra)),
        };
        gt_is(&v.0, &v.1, || format!("step {} op {} on registers {} {}", step, op, i, j))?;
        regs[k] = v;
        ensure!(
            (regs[i].0 == regs[j].0) == (regs[i].1 == regs[j].1),
            "step {}: equality of registers {} and {}",
            step,
            i,
            j
        );
    }
    let x = regs[1].1;
    sig_gt(c, &x);
    c.sig(&[sig]);
    c.nontrivial();
    c.add("chain:steps", 25);
    Ok(())
}

pub fn families(prop: &str) -> Vec<Family> {
    let f = |name, f: CaseFn, quick, thorough| Family { name, f, quick, thorough };
    match prop {
        "C08" => vec![
            f("pairing-known", dlog, 4_000, 250_000),
            f("pairing-any", miller, 1_000, 50_000),
            f("pairing-laws", bilinear, 600, 30_000),
            f("pairing-infinity", infinity, 2_000, 100_000),
        ],
        "C09" => vec![
            f("gt-mul", gt_mul, 40_000, 2_500_000),
            f("gt-pow", gt_pow, 6_000, 300_000),
            f("gt-chain", gt_chain, 3_000, 150_000),
        ],
        _ => vec![],
    }
}
