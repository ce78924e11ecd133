//! C04, C05 group laws; C06 scalar multiplication; C07 equality and normal form.
use crate::ensure;
use crate::gen::*;
use crate::p_fr::fr_in;
use crate::refcurve::*;
use crate::refmath::*;
use crate::reftower::*;
use crate::rt::*;
use crate::sut::*;

/// Another point standing in a chosen relation to p.
fn relative<C: GenCurve>(r: &mut Prng, p: &GP<C>) -> (GP<C>, &'static str) {
    match r.below(14) {
        0 | 1 => (*p, "same"),
        2 | 3 => (p.neg(), "opposite"),
        4 => (GP { a: None, k: Some(Z4) }, "infinity"),
        5 => (C::endo(p, r.chance(1, 2)), "same-y"),
        6 => (C::endo(&p.neg(), r.chance(1, 2)), "opposite-y"),
        7 => {
            let a = p.pt().add(&p.pt()).to_affine();
            let d = GP { a, k: p.k.map(|k| FR.add(&k, &k)) };
            (if r.chance(1, 2) { d.neg() } else { d }, "double")
        }
        8 => {
            let a = p.pt().add(&Pt::gen()).to_affine();
            (GP { a, k: p.k.map(|k| FR.add(&k, &ONE4)) }, "next")
        }
        _ => (point(r), "any"),
    }
}

/// A representation of q, possibly made to share coordinates with the representation of p.
fn rep_near<F: GenField>(r: &mut Prng, q: &Option<(F, F)>, jp: &Jac<F>) -> (Jac<F>, &'static str) {
    if let Some((x, y)) = q {
        let z = match r.below(8) {
            0 | 1 => Some((jp.2, "equal-z")),
            2 => Some((jp.2.neg(), "opposite-z")),
            3 | 4 => match x.inv().and_then(|xi| jp.0.mul(&xi).root()) {
                // the same raw x
                Some(z) => Some((if r.chance(1, 2) { z.neg() } else { z }, "equal-raw-x")),
                None => None,
            },
            5 => y.inv().map(|yi| {
                // z = raw y / y: shares no z but makes products collide
                (jp.1.mul(&yi), "related-z")
            }),
            _ => None,
        };
        if let Some((z, tag)) = z {
            if !z.is_zero() {
                return (rep(r, q, Some(z)).0, tag);
            }
        }
    }
    (rep(r, q, None).0, "own-z")
}

fn sig_pts<F: SField>(c: &mut Case, js: &[&Jac<F>]) {
    for j in js {
        for f in [&j.0, &j.1, &j.2] {
            for u in f.raws() {
                c.sig(&u);
            }
        }
    }
}

fn law<G: SGroup>(c: &mut Case) -> Res
where
    G::F: GenField,
    G::C: GenCurve,
{
    let r = &mut c.rng;
    let p = point::<G::C>(r);
    let (q, rel) = relative(r, &p);
    let (jp, zp) = rep(r, &p.a, None);
    let (jq, zq) = rep_near(r, &q.a, &jp);
    let gp: G = inject(r, &p, &jp)?;
    let gq: G = inject(r, &q, &jq)?;
    let (rp, rq) = (p.pt(), q.pt());
    let w = |o: &str| format!("P{}Q with {} Q, P={:?} Q={:?}", o, rel, g_jac(&gp), g_jac(&gq));
    g_is(&gp, &rp, || w(" alone, not "))?;
    g_is(&gq, &rq, || w(" aside, "))?;
    let sum = rp.add(&rq);
    g_is(&(gp + gq), &sum, || w("+"))?;
    g_is(&(gq + gp), &sum, || w("+ swapped "))?;
    let diff = rp.sub(&rq);
    g_is(&(gp - gq), &diff, || w("-"))?;
    g_is(&(gq - gp), &diff.neg(), || w("- swapped "))?;
    g_is(&(-gp), &rp.neg(), || w(" negated, not "))?;
    g_is(&(gq + gq), &rq.add(&rq), || w(" aside, 2"))?;
    g_is(&(gp - gp), &Pt::inf(), || w("-P, not "))?;
    g_is(&((gp + gq) - gq), &rp, || w("+Q-"))?;
    g_is(&((gp - gq) + gq), &rp, || w("-Q+"))?;
    ensure!(G::zero().is_zero() && !G::one().is_zero(), "is_zero of zero() or one()");
    g_is(&G::zero(), &Pt::inf(), || "zero()".into())?;
    g_is(&G::one(), &Pt::gen(), || "one()".into())?;
    sig_pts(c, &[&jp, &jq]);
    if p.a.is_some() || q.a.is_some() {
        c.nontrivial();
    }
    c.count(match rel {
        "same" => "relation:same",
        "opposite" => "relation:opposite",
        "infinity" => "relation:infinity",
        "same-y" => "relation:same-y",
        "opposite-y" => "relation:opposite-y",
        "double" => "relation:double",
        "next" => "relation:next",
        _ => "relation:any",
    });
    c.count(match zp {
        Zk::One => "z:one",
        Zk::MinusOne => "z:minus-one",
        Zk::Extreme => "z:extreme",
        Zk::InfCanon => "z:infinity-canonical",
        Zk::InfLeft => "z:infinity-leftover",
    });
    c.count(match zq {
        "equal-z" => "rep:equal-z",
        "opposite-z" => "rep:opposite-z",
        "equal-raw-x" => "rep:equal-raw-x",
        "related-z" => "rep:related-z",
        _ => "rep:own-z",
    });
    c.sample(|| format!("{}: P={:?} Q={:?} ({}, {})", G::C::NAME, jp, jq, rel, zq));
    Ok(())
}

fn chain<G: SGroup>(c: &mut Case) -> Res
where
    G::F: GenField,
    G::C: GenCurve,
{
    let r = &mut c.rng;
    const N: usize = 5;
    let mut regs: Vec<(G, Pt<G::C>)> = vec![(G::zero(), Pt::inf()), (G::one(), Pt::gen())];
    while regs.len() < N {
        let p = point::<G::C>(r);
        let (j, _) = rep(r, &p.a, None);
        regs.push((inject(r, &p, &j)?, p.pt()));
    }
    let mut sig = 0;
    let mut infs = 0;
    let mut log = String::new();
    for step in 0..40 {
        let (i, j, k) = (r.us(N), r.us(N), r.us(N));
        let op = r.below(8);
        sig = mix(sig ^ op << 20 ^ (i * 64 + j * 8 + k) as u64);
        let ((a, ra), (b, rb)) = (regs[i], regs[j]);
        let v = match op {
            0 | 1 | 2 => (a + b, ra.add(&rb)),
            3 | 4 => (a - b, ra.sub(&rb)),
            5 => (-a, ra.neg()),
            6 => (a + a, ra.add(&ra)),
            _ => {
                let mut n = a;
                n.normalize();
                (n, ra)
            }
        };
        log += &format!(" r{}=op{}(r{},r{})", k, op, i, j);
        g_is(&v.0, &v.1, || format!("step {} of{}", step, log))?;
        if v.1.is_inf() {
            infs += 1;
        }
        regs[k] = v;
        let (i, j) = (r.us(N), r.us(N));
        ensure!(
            (regs[i].0 == regs[j].0) == regs[i].1.same(&regs[j].1),
            "step {}: equality of r{} and r{} is {} after{}",
            step,
            i,
            j,
            regs[i].0 == regs[j].0,
            log
        );
    }
    for (g, p) in &regs {
        g_is(g, p, || "register at the end".into())?;
    }
    let x = g_raws(&regs[2].0)?;
    for u in &x {
        c.sig(u);
    }
    c.sig(&[sig]);
    c.nontrivial();
    c.add("chain:steps", 40);
    c.add("chain:results-at-infinity", infs);
    Ok(())
}

/// k * p by the reference.
fn ref_mul<C: GenCurve>(p: &GP<C>, k: &U4) -> Pt<C> {
    match &p.k {
        Some(j) => Pt::gen_mul(&FR.mul(j, k)),
        None => p.pt().mul(k),
    }
}

fn mul<G: SGroup>(c: &mut Case) -> Res
where
    G::F: GenField,
    G::C: GenCurve,
{
    let r = &mut c.rng;
    let p = point::<G::C>(r);
    let (jp, _) = rep(r, &p.a, None);
    let gp: G = inject(r, &p, &jp)?;
    let mut ks = vec![exponent(r)];
    if r.chance(1, 2) {
        ks.push(exponent(r));
    }
    for k in &ks {
        let fk = fr_in(&mut c.rng, k)?;
        let got = gp * fk;
        g_is(&got, &ref_mul(&p, k), || format!("{} point {:?} times {}", G::C::NAME, g_jac(&gp), hex(k)))?;
        c.sig(k);
        if !lt(k, &[2, 0, 0, 0]) && p.a.is_some() {
            c.nontrivial();
        } else {
            c.count("mul:by-0-or-1-or-infinity");
        }
    }
    sig_pts(c, &[&jp]);
    if p.k.is_none() {
        c.count("mul:point-of-unknown-dlog");
    }
    c.add("mul:products", ks.len() as u64);
    c.sample(|| format!("{} {:?} * {}", G::C::NAME, jp, hex(&ks[0])));
    Ok(())
}

fn mul_laws<G: SGroup>(c: &mut Case) -> Res
where
    G::F: GenField,
    G::C: GenCurve,
{
    let r = &mut c.rng;
    let p = point::<G::C>(r);
    let (q, _) = relative(r, &p);
    let (jp, _) = rep(r, &p.a, None);
    let (jq, _) = rep_near(r, &q.a, &jp);
    let gp: G = inject(r, &p, &jp)?;
    let gq: G = inject(r, &q, &jq)?;
    let j = exponent(r);
    let k = if r.chance(1, 2) { exponent(r) } else { related(r, &FR, &j).0 };
    let (fj, fk) = (fr_in(r, &j)?, fr_in(r, &k)?);
    let w = || format!("{} P={:?} Q={:?} j={} k={}", G::C::NAME, jp, jq, hex(&j), hex(&k));
    ensure!((gp + gq) * fk == gp * fk + gq * fk, "(P+Q)k != Pk+Qk: {}", w());
    ensure!(gp * (fj + fk) == gp * fj + gp * fk, "P(j+k) != Pj+Pk: {}", w());
    ensure!(gp * (fj - fk) == gp * fj - gp * fk, "P(j-k) != Pj-Pk: {}", w());
    ensure!((gp * fj) * fk == gp * (fj * fk), "(Pj)k != P(jk): {}", w());
    ensure!((gp * fj) * fk == (gp * fk) * fj, "(Pj)k != (Pk)j: {}", w());
    ensure!(gp * (-fk) == -(gp * fk), "P(-k) != -(Pk): {}", w());
    ensure!(gp * Fr::zero() == G::zero() && (gp * Fr::zero()).is_zero(), "P*0: {}", w());
    ensure!(gp * Fr::one() == gp, "P*1: {}", w());
    ensure!(gp * (-Fr::one()) == -gp, "P*(r-1): {}", w());
    c.sig(&j);
    c.sig(&k);
    sig_pts(c, &[&jp, &jq]);
    if p.a.is_some() && j != Z4 && k != Z4 {
        c.nontrivial();
    }
    c.add("mul:laws", 9);
    Ok(())
}

/// Multiples 0..200 of a point against repeated addition.
fn mul_small<G: SGroup>(c: &mut Case) -> Res
where
    G::F: GenField,
    G::C: GenCurve,
{
    let r = &mut c.rng;
    let p = point_nz::<G::C>(r);
    let (jp, _) = rep(r, &p.a, None);
    let gp: G = inject(r, &p, &jp)?;
    // a window of consecutive scalars, anywhere
    let base = if r.chance(1, 2) { Z4 } else { exponent(r) };
    let mut k = base;
    let mut want = ref_mul(&p, &base);
    for i in 0..24 {
        let fk = fr_in(r, &k)?;
        g_is(&(gp * fk), &want, || format!("{} {:?} times {} (+{})", G::C::NAME, jp, hex(&k), i))?;
        k = FR.add(&k, &ONE4);
        want = want.add(&p.pt());
    }
    c.sig(&base);
    sig_pts(c, &[&jp]);
    c.nontrivial();
    c.add("mul:products", 24);
    Ok(())
}

/// Near misses of a representation: coordinates shared in part.
fn near<G: SGroup>(r: &mut Prng, p: &GP<G::C>, jp: &Jac<G::F>) -> (GP<G::C>, Jac<G::F>, &'static str)
where
    G::F: GenField,
    G::C: GenCurve,
{
    match r.below(10) {
        0 | 1 | 2 => {
            let (j, _) = rep_near(r, &p.a, jp);
            (*p, j, "same")
        }
        // same raw x and y, z times a sixth root of unity
        3 if p.a.is_some() => {
            let twice = r.chance(1, 2);
            let q = G::C::endo(p, twice);
            let q = if r.chance(1, 2) { q.neg() } else { q };
            // find z among the sixth roots
            let b = beta();
            let mut z = jp.2;
            for i in 0..6 {
                z = scale_base(&z, &b.neg());
                let j = Jac(jp.0, jp.1, z);
                if i == 5 || Pt::<G::C>::from_jac(&j.0, &j.1, &j.2).same(&q.pt()) {
                    return (from_jac_gp(&j, if i == 5 { p.k } else { None }), j, "equal-raw-xy");
                }
            }
            unreachable!()
        }
        4 => {
            let q = p.neg();
            let j = Jac(jp.0, jp.1.neg(), jp.2);
            (q, j, "opposite")
        }
        _ => {
            let (q, _) = relative(r, p);
            let (j, tag) = rep_near(r, &q.a, jp);
            (q, j, tag)
        }
    }
}
fn scale_base<F: GenField>(x: &F, b: &Rq) -> F {
    let mut r = x.raws();
    for u in r.iter_mut() {
        *u = FQ.mul(u, &b.0);
    }
    F::of_raws(&r)
}
fn from_jac_gp<C: GenCurve>(j: &Jac<C::F>, k: Option<U4>) -> GP<C> {
    GP { a: Pt::<C>::from_jac(&j.0, &j.1, &j.2).to_affine(), k }
}

fn canon<G: SGroup>(c: &mut Case) -> Res
where
    G::F: GenField,
    G::C: GenCurve,
{
    let r = &mut c.rng;
    let p = point::<G::C>(r);
    let (jp, _) = rep(r, &p.a, None);
    let (q, jq, tag) = near::<G>(r, &p, &jp);
    let (s, js, _) = near::<G>(r, &q, &jq);
    let pts = [p.pt(), q.pt(), s.pt()];
    let reps = [&jp, &jq, &js];
    let gs: Vec<G> = vec![inject(r, &p, &jp)?, inject(r, &q, &jq)?, inject(r, &s, &js)?];
    let mut norm = vec![];
    for i in 0..3 {
        let g = gs[i];
        let raws = g_raws(&g)?;
        let want = byte_form(&raws);
        ensure!(g.into_bytes() == want, "into_bytes of {:?} does not have the layout", reps[i]);
        if let Some(v) = g.vec_from() {
            ensure!(v == want, "Vec::from of {:?} does not have the layout", reps[i]);
        }
        let copy = Clone::clone(&g);
        let mut copy2 = gs[(i + 1) % 3];
        copy2.clone_from(&g);
        ensure!(
            enc(&copy) == enc(&g) && enc(&copy2) == enc(&g),
            "a clone of {:?} is {:?} or {:?}",
            reps[i],
            g_jac(&copy)?,
            g_jac(&copy2)?
        );
        let mut n = g;
        n.normalize();
        g_is(&n, &pts[i], || format!("normalised {:?}", reps[i]))?;
        ensure!(n == g && g == n, "normalised form of {:?} differs from it", reps[i]);
        let mut nn = n;
        nn.normalize();
        ensure!(enc(&nn) == enc(&n), "normalising {:?} twice changes it", reps[i]);
        // one form
        let j = g_jac(&n)?;
        match pts[i].to_affine() {
            Some((x, y)) => ensure!(
                j == Jac(x, y, G::F::one()),
                "normalised form of {:?} is {:?}, not its affine coordinates with z = 1",
                reps[i],
                j
            ),
            None => {
                let mut z = G::zero();
                z.normalize();
                ensure!(enc(&z) == enc(&n), "normalised infinity {:?} is {:?}, unlike normalised zero()", reps[i], j)
            }
        }
        norm.push((enc(&n), n.into_bytes(), n.text()));
    }
    for i in 0..3 {
        for j in 0..3 {
            let same = pts[i].same(&pts[j]);
            ensure!(
                (gs[i] == gs[j]) == same && (gs[i] != gs[j]) == !same,
                "{}: == gives {} for {:?} and {:?}",
                G::C::NAME,
                gs[i] == gs[j],
                reps[i],
                reps[j]
            );
            let coords = (g_raws(&gs[i])?, g_raws(&gs[j])?);
            ensure!(
                (format!("{:?}", gs[i]) == format!("{:?}", gs[j])) == (coords.0 == coords.1)
                    && (format!("{:#?}", gs[i]) == format!("{:#?}", gs[j])) == (coords.0 == coords.1),
                "{}: debug texts of {:?} and {:?} are {} though their coordinates are {}",
                G::C::NAME,
                reps[i],
                reps[j],
                if coords.0 == coords.1 { "different" } else { "the same" },
                if coords.0 == coords.1 { "equal" } else { "different" }
            );
            ensure!(
                gs[i].text().is_none() || (gs[i].text() == gs[j].text()) == (coords.0 == coords.1),
                "texts of {:?} and {:?} are {:?} and {:?}",
                reps[i],
                reps[j],
                gs[i].text(),
                gs[j].text()
            );
            ensure!(
                (norm[i].0 == norm[j].0) == same
                    && (norm[i].1 == norm[j].1) == same
                    && (norm[i].2.is_none() || (norm[i].2 == norm[j].2) == same),
                "{}: normalised forms of {:?} and {:?} are {}",
                G::C::NAME,
                reps[i],
                reps[j],
                if same { "different though the points are equal" } else { "equal though the points differ" }
            );
        }
    }
    sig_pts(c, &[&jp, &jq, &js]);
    if p.a.is_some() || q.a.is_some() {
        c.nontrivial();
    }
    c.count(match tag {
        "same" => "compared:same-point",
        "equal-raw-xy" => "compared:equal-raw-xy",
        "opposite" => "compared:opposite",
        "equal-raw-x" => "compared:equal-raw-x",
        "equal-z" => "compared:equal-z",
        _ => "compared:other",
    });
    if p.a.is_none() {
        c.count("normalised:infinity");
    }
    c.sample(|| format!("{}: {:?} and {:?} ({})", G::C::NAME, jp, jq, tag));
    Ok(())
}

/// Values reached by computation (not decoded) normalise to the form of the same value
/// reached otherwise.
fn canon_computed<G: SGroup>(c: &mut Case) -> Res
where
    G::F: GenField,
    G::C: GenCurve,
{
    let r = &mut c.rng;
    let a = exponent(r);
    let b = if r.chance(1, 3) { FR.neg(&a) } else { exponent(r) };
    let (fa, fb) = (fr_in(r, &a)?, fr_in(r, &b)?);
    let g = G::one();
    let forms = [
        g * fa + g * fb,
        g * fb + g * fa,
        g * (fa + fb),
        (g * fa) - (g * (-fb)),
        -((-(g * fa)) - g * fb),
        {
            let mut x = g * fa;
            x.normalize();
            x + g * fb
        },
        {
            let mut x = g * fa;
            let mut y = g * fb;
            x.normalize();
            y.normalize();
            x + y
        },
    ];
    let want = Pt::<G::C>::gen_mul(&FR.add(&a, &b));
    let mut first: Option<(Vec<u8>, Vec<u8>, Option<String>)> = None;
    for (i, f) in forms.iter().enumerate() {
        g_is(f, &want, || format!("{} route {} for a={} b={}", G::C::NAME, i, hex(&a), hex(&b)))?;
        ensure!(*f == forms[0], "{} routes 0 and {} differ for a={} b={}", G::C::NAME, i, hex(&a), hex(&b));
        ensure!(f.is_zero() == want.is_inf(), "is_zero of route {}", i);
        let mut n = *f;
        n.normalize();
        let e = (enc(&n), n.into_bytes(), n.text());
        match &first {
            None => first = Some(e),
            Some(x) => ensure!(
                *x == e,
                "{} routes 0 and {} normalise differently for a={} b={}",
                G::C::NAME,
                i,
                hex(&a),
                hex(&b)
            ),
        }
    }
    c.sig(&a);
    c.sig(&b);
    if a != Z4 || b != Z4 {
        c.nontrivial();
    }
    if want.is_inf() {
        c.count("normalised:infinity");
    }
    Ok(())
}

pub fn families(prop: &str) -> Vec<Family> {
    let f = |name, f: CaseFn, quick, thorough| Family { name, f, quick, thorough };
    match prop {
        "C04" => vec![
            f("g1-law", law::<G1>, 60_000, 4_000_000),
            f("g1-chain", chain::<G1>, 6_000, 300_000),
        ],
        "C05" => vec![
            f("g2-law", law::<G2>, 12_000, 600_000),
            f("g2-chain", chain::<G2>, 2_000, 80_000),
        ],
        "C06" => vec![
            f("g1-mul", mul::<G1>, 20_000, 1_000_000),
            f("g2-mul", mul::<G2>, 5_000, 250_000),
            f("g1-mul-laws", mul_laws::<G1>, 3_000, 120_000),
            f("g2-mul-laws", mul_laws::<G2>, 800, 40_000),
            f("g1-mul-run", mul_small::<G1>, 600, 30_000),
            f("g2-mul-run", mul_small::<G2>, 200, 10_000),
        ],
        "C07" => vec![
            f("g1-forms", canon::<G1>, 20_000, 1_000_000),
            f("g2-forms", canon::<G2>, 5_000, 250_000),
            f("g1-routes", canon_computed::<G1>, 2_000, 80_000),
            f("g2-routes", canon_computed::<G2>, 800, 30_000),
        ],
        _ => vec![],
    }
}
