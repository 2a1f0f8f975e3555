//! C02 (soundness) and C03 (the verification relation).
use super::complete::{big, sparse, Big};
use super::*;
use groth_sahai::prover::CProof;
use std::sync::OnceLock;

/// Everything public: key, equation, commitments and proof.
#[derive(Clone, Debug)]
pub struct St<F> {
    pub k: Key<F>,
    pub e: Eqn<F>,
    pub f: Pf<F>,
}
impl<F: PrimeField> St<F> {
    /// Every coordinate: commitments, proof, constants, coefficients, target, then the key.
    pub fn coords(&mut self) -> Vec<&mut F> {
        let mut v: Vec<&mut F> = vec![];
        let f = &mut self.f;
        for l in [&mut f.c, &mut f.d, &mut f.pi, &mut f.th] {
            for z in l.iter_mut() {
                v.extend(z.iter_mut());
            }
        }
        v.extend(self.e.a.iter_mut());
        v.extend(self.e.b.iter_mut());
        for r in self.e.gamma.iter_mut() {
            v.extend(r.iter_mut());
        }
        v.push(&mut self.e.t);
        for z in self.k.u.iter_mut().chain(self.k.v.iter_mut()) {
            v.extend(z.iter_mut());
        }
        v.push(&mut self.k.g1);
        v.push(&mut self.k.g2);
        v.push(&mut self.k.gt);
        v
    }
}
pub fn ncoords(kind: Kind, m: usize, n: usize) -> usize {
    2 * (m + n + kind.npi() + kind.ntheta()) + ncoef(m, n) + 1 + 11
}
pub fn honest<F: PrimeField>(k: &Key<F>, e: &Eqn<F>, x: &[F], y: &[F], rnd: &[F]) -> Pf<F> {
    let mut it = rnd.iter().copied();
    let mut mat = |a: usize, b: usize| -> Vec<Vec<F>> { (0..a).map(|_| (0..b).map(|_| it.next().unwrap()).collect()).collect() };
    let kind = e.kind;
    let r = mat(e.m(), kind.xr());
    let s = mat(e.n(), kind.yr());
    let t = mat(kind.ntheta(), kind.npi());
    let (pi, th) = prove(k, e, x, y, &r, &s, &t);
    Pf {
        c: x.iter().zip(&r).map(|(x, r)| k.com1(kind.xs(), *x, r)).collect(),
        d: y.iter().zip(&s).map(|(y, s)| k.com2(kind.ys(), *y, s)).collect(),
        pi,
        th,
    }
}

/// The library verifier on given public data.
pub struct Judge<N: Eng> {
    sk: [OnceLock<CProof<N::E>>; 4],
}
impl<N: Eng> Judge<N> {
    pub fn new() -> Self {
        Judge { sk: Default::default() }
    }
    pub fn shell(&self, kind: Kind) -> Result<CProof<N::E>, String> {
        let s = &self.sk[kind.tag() as usize];
        if s.get().is_none() {
            let p = lib(|| skeleton::<N>(kind)).map_err(|m| format!("proving panics: {m}"))?;
            let _ = s.set(p);
        }
        Ok(s.get().unwrap().clone())
    }
    pub fn verdict(&self, s: &St<N::S>) -> Result<Result<bool, String>, String> {
        let mut p = self.shell(s.e.kind)?;
        set::<N>(&mut p, s.e.kind, &s.f);
        let (k, e) = (crs::<N>(&s.k), leq::<N>(&s.e));
        Ok(lib(|| e.verify(&p, &k)))
    }
}

/// The property a verdict is judged against.
#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Sound,
    Relation,
}
impl Want {
    fn judge<F: PrimeField>(self, got: Result<bool, String>, k: &Key<F>, e: &Eqn<F>, f: &Pf<F>, c: &mut Cnt) -> Result<(), String> {
        c.st();
        c.tr(1);
        match self {
            Want::Relation => {
                let want = verify(k, e, f);
                c.tag(if want { "relation holds" } else { "relation fails" });
                match got {
                    Ok(g) if g == want => Ok(()),
                    Ok(g) => Err(format!("verifier says {g}, relation says {want}: key {k:?} equation {e:?} {f:?}")),
                    Err(m) => Err(format!("verifier panics ({m}): key {k:?} equation {e:?} {f:?}")),
                }
            }
            Want::Sound => {
                if got == Ok(true) {
                    let x: Vec<F> = f.c.iter().map(|c| k.open1(e.kind.xs(), *c)).collect();
                    let y: Vec<F> = f.d.iter().map(|d| k.open2(e.kind.ys(), *d)).collect();
                    if !e.sat(&x, &y) {
                        return Err(format!("accepted although the commitments open to x {x:?} y {y:?}: key {k:?} equation {e:?} {f:?}"));
                    }
                    c.tag("accepted");
                } else {
                    c.tag("not accepted");
                }
                Ok(())
            }
        }
    }
}

/// One variable per side, one key and one equation per case, all commitments and proofs inside.
fn exhaustive<C: ToyCfg>(w: Want, kind: Kind, keys: Vec<Key<C::F>>, neq: u64, label: &str) -> Part {
    let p = C::P;
    let nk = keys.len() as u64;
    let np = 2 * (2 + kind.npi() + kind.ntheta());
    let all = pw(p, 4);
    let j = Judge::<Toy<C>>::new();
    // spread the equations when not all are taken
    let eqs: Vec<u64> = (0..neq).map(|i| if neq == all { i } else { (i * 37 + 40) % all }).collect();
    // outermost commitment is part of the case index, to have small cases
    let split = pw(p, 2);
    part(
        &format!("all-11-{kind:?}{label}"),
        &format!("order {p}, one variable per side: {nk} keys x {neq} of {all} equations x every possible commitment pair and proof ({p}^{np})"),
        nk * neq * split,
        move |i, c| {
            let mut ix = Ix(i);
            let k = &keys[ix.take(nk) as usize];
            let mut ei = Ix(eqs[ix.take(neq) as usize]);
            let e = Eqn { kind, a: ei.fs(p, 1), b: ei.fs(p, 1), gamma: ei.mat(p, 1, 1), t: ei.f(p) };
            let (lk, le) = (crs::<Toy<C>>(k), leq::<Toy<C>>(&e));
            let mut pr = j.shell(kind)?;
            let c0: P2<C::F> = ix.p2(p);
            let mut f = Pf { c: vec![c0], d: vec![], pi: vec![], th: vec![] };
            for z in 0..pw(p, np - 2) {
                let mut iz = Ix(z);
                f.d = iz.p2s(p, 1);
                f.pi = iz.p2s(p, kind.npi());
                f.th = iz.p2s(p, kind.ntheta());
                set::<Toy<C>>(&mut pr, kind, &f);
                let got = lib(|| le.verify(&pr, &lk));
                w.judge(got, k, &e, &f, c)?;
            }
            c.sample(|| format!("key {k:?} {e:?} c {c0:?}: all remaining {p}^{} elements", np - 2));
            Ok(())
        },
    )
    .need(if w == Want::Relation { &["relation holds", "relation fails"] } else { &["accepted"] })
}

/// Arbitrary keys (including degenerate ones), few equations and proofs each.
fn arbitrary_keys(kind: Kind) -> Part {
    let p = 3u64;
    let len = 4 + 2 * (2 + kind.npi() + kind.ntheta());
    let j = Judge::<E3>::new();
    part(
        &format!("any-key-{kind:?}"),
        "order 3, one variable per side: all 3^10 keys (any vectors, any generators), equations and proofs with at most one deviation from the base vectors",
        pw(3, 10),
        move |i, c| {
            let mut ix = Ix(i);
            let k = Key { u: [ix.p2(p), ix.p2(p)], v: [ix.p2(p), ix.p2(p)], g1: ix.f(p), g2: ix.f(p), gt: F3::one() };
            for b in 1..NBASE {
                for d in 0..ndev(len, 1, p) {
                    let v = devs::<F3>(len, 1, p, b, d);
                    let mut it = v.iter().copied();
                    let s = unpack(&mut it, kind, 1, 1, k.clone());
                    Want::Relation.judge(j.verdict(&s)?, &s.k, &s.e, &s.f, c)?;
                }
            }
            Ok(())
        },
    )
    .need(&["relation holds", "relation fails"])
}
fn unpack<F: PrimeField>(it: &mut impl Iterator<Item = F>, kind: Kind, m: usize, n: usize, k: Key<F>) -> St<F> {
    let co: Vec<F> = it.by_ref().take(ncoef(m, n)).collect();
    let t = it.next().unwrap();
    let e = eqn(kind, m, n, &co, t);
    let mut p2 = |l: usize| -> Vec<P2<F>> { (0..l).map(|_| [it.next().unwrap(), it.next().unwrap()]).collect() };
    let f = Pf { c: p2(m), d: p2(n), pi: p2(kind.npi()), th: p2(kind.ntheta()) };
    St { k, e, f }
}

/// Shapes up to 3x3: deviations from an honest transcript in all coordinates, key included.
fn shapes<C: ToyCfg>(w: Want, kind: Kind, m: usize, n: usize, wt: usize) -> Part {
    let p = C::P;
    let nc = ncoords(kind, m, n);
    let keys: Vec<Key<C::F>> = {
        let mut k = few_keys(2, p, false);
        if w == Want::Relation {
            k.extend(few_keys(1, p, true));
        }
        k
    };
    let nk = keys.len() as u64;
    let nd = ndev(nc, wt, p);
    let j = Judge::<Toy<C>>::new();
    part(
        &format!("shape-{m}x{n}-{kind:?}-p{p}"),
        &format!("order {p}, {m}x{n} variables: transcripts with at most {wt} changed coordinates (of {nc}: commitments, proof, constants, coefficients, target, key) from {NBASE} honest ones, {nk} keys"),
        nd * NBASE * nk,
        move |i, c| {
            let mut ix = Ix(i);
            let k = &keys[ix.take(nk) as usize];
            let b = ix.take(NBASE);
            let vals: Vec<C::F> = (0..ncoef(m, n) + m + n + ndraw(kind, m, n)).map(|q| C::F::from(base(b, q, p))).collect();
            let co = ncoef(m, n);
            let (x, y) = (&vals[co..co + m], &vals[co + m..co + m + n]);
            let e = eqn_for(kind, m, n, &vals[..co], x, y);
            let f = honest(k, &e, x, y, &vals[co + m + n..]);
            let mut s = St { k: k.clone(), e, f };
            {
                let mut cs = s.coords();
                for (q, d) in dev(nc, wt, p, ix.0) {
                    *cs[q] += C::F::from(d);
                }
            }
            if w == Want::Sound && !s.k.is_binding() {
                return Ok(());
            }
            w.judge(j.verdict(&s)?, &s.k, &s.e, &s.f, c)
        },
    )
    .need(if w == Want::Relation { &["relation holds", "relation fails"] } else { &["accepted"] })
}

/// Ways of tampering with a transcript.
const NTAMPER: u64 = 8;
fn tamper<F: PrimeField>(s: &mut St<F>, how: u64, pos: usize, delta: F) {
    let kind = s.e.kind;
    // swaps of neighbouring entries
    fn sw<T>(v: &mut [T], pos: usize) {
        if v.len() > 1 {
            let i = pos % v.len();
            let j = (i + 1) % v.len();
            v.swap(i, j);
        }
    }
    let nc = 2 * (s.f.c.len() + s.f.d.len() + kind.npi() + kind.ntheta()) + s.e.a.len() + s.e.b.len() + s.e.a.len() * s.e.b.len() + 1;
    match how {
        0 => *s.coords()[pos] += delta,
        1 => {
            let mut c = s.coords();
            *c[pos] = F::zero()
        }
        2 => {
            let mut c = s.coords();
            *c[pos] = -*c[pos]
        }
        3 => match pos % 7 {
            0 => sw(&mut s.f.c, pos / 7),
            1 => sw(&mut s.f.d, pos / 7),
            2 => sw(&mut s.f.pi, pos / 7),
            3 => sw(&mut s.f.th, pos / 7),
            4 => sw(&mut s.e.a, pos / 7),
            5 => sw(&mut s.e.b, pos / 7),
            _ => sw(&mut s.e.gamma, pos / 7),
        },
        4 => {
            // rerandomise the proof: still satisfies the relation
            let (q, l) = (pos % kind.npi(), (pos / 2) % kind.ntheta());
            for w in 0..2 {
                s.f.pi[q][w] -= delta * s.k.v[l][w];
                s.f.th[l][w] += delta * s.k.u[q][w];
            }
        }
        5 => {
            // opposite changes to two neighbouring coordinates
            let mut c = s.coords();
            let p = pos % (nc - 1);
            *c[p] += delta;
            *c[p + 1] -= delta;
        }
        6 => {
            // opposite changes to corresponding parts of two commitments or proof elements
            let mut c = s.coords();
            let p = pos % (nc - 2);
            *c[p] += delta;
            *c[p + 2] -= delta;
        }
        _ => {
            // the same factor on everything the prover sends on one side
            let f = delta + F::one();
            for z in s.f.c.iter_mut().chain(s.f.th.iter_mut()) {
                z[0] *= f;
                z[1] *= f;
            }
        }
    }
}
fn big_st(b: &Big) -> St<FrB> {
    St { k: b.k.clone(), e: b.e.clone(), f: honest(&b.k, &b.e, &b.x, &b.y, &b.rnd) }
}
/// Statements with many variables on both sides: honest, and with changes at positions spread over every list and both
/// dimensions of the coefficients.
fn wide_tamper(w: Want, t: Tier) -> Part {
    let j = Judge::<ToyB>::new();
    let shapes: Vec<(usize, usize)> = t.q(vec![(9, 9), (16, 16), (17, 17), (10, 20), (20, 10), (3, 33), (33, 3), (33, 33), (40, 40)], super::complete::wide(Tier::Quick));
    let mut cases = vec![];
    for &(m, n) in &shapes {
        for kind in KINDS {
            let nc = ncoords(kind, m, n);
            let fixed = nc - 12 - m * n;
            let mut pos: Vec<usize> = vec![0, 1, 2 * m - 1, 2 * m, 2 * (m + n) - 1, 2 * (m + n), fixed - m - n, fixed - m - 1, fixed - m, fixed - 1];
            pos.extend((0..12).map(|q| nc - 1 - q));
            let at = |l: usize| -> Vec<usize> { let mut v: Vec<usize> = [0, 1, 7, 8, 9, 15, 16, 17, 31, 32, l / 2, l - 2, l - 1].into_iter().filter(|q| *q < l).collect(); v.sort(); v.dedup(); v };
            let few: Vec<usize> = if t == Tier::Quick { vec![0, 8, 16, 32, n - 1] } else { at(n) };
            pos.extend(at(m).iter().flat_map(|i| few.iter().filter(|j| **j < n).map(move |j| fixed + i * n + j)));
            pos.extend(at(m).iter().flat_map(|i| [2 * i, fixed - m + i]));
            pos.extend(at(n).iter().flat_map(|i| [2 * m + 2 * i + 1, fixed - m - n + i]));
            pos.sort();
            pos.dedup();
            for (q, p) in pos.into_iter().enumerate() {
                cases.push((m, n, kind, 0, p));
                if q % 8 == 0 {
                    cases.push((m, n, kind, 1 + (q as u64 / 8) % (NTAMPER - 1), p));
                }
            }
        }
    }
    let len = cases.len() as u64;
    part("tamper-wide", &format!("BLS12-381-sized exponents, {} shapes with many variables on both sides: coordinates changed at positions spread over all lists and both dimensions of the coefficients", shapes.len()), len, move |i, c| {
        let (m, n, kind, how, pos) = cases[i as usize];
        let mut s = big_st(&big(kind, m, n, 31 + (m * 64 + n) as u64));
        if i % 16 != 15 {
            tamper(&mut s, how, pos, FrB::from(i + 1));
        }
        if w == Want::Sound && !s.k.is_binding() {
            return Ok(());
        }
        w.judge(j.verdict(&s)?, &s.k, &s.e, &s.f, c)
    })
    .need(if w == Want::Relation { &["relation holds", "relation fails"] } else { &["accepted"] })
}
fn big_tamper(w: Want, name: &str, shapes: Vec<(usize, usize)>, step: usize) -> Part {
    let j = Judge::<ToyB>::new();
    // one case per (shape, kind, coordinate stride)
    let mut cases = vec![];
    for &(m, n) in &shapes {
        for kind in KINDS {
            for how in 0..NTAMPER {
                let nc = ncoords(kind, m, n);
                let mut pos = 0;
                while pos < nc {
                    cases.push((m, n, kind, how, pos));
                    pos += if how == 0 { 1 } else { step.min(1 + nc / 8) };
                }
            }
        }
    }
    let len = cases.len() as u64;
    part(
        name,
        &format!("BLS12-381-sized exponents, {} shapes: every single coordinate changed, and zeroing, negation, swaps, cancelling pairs and rerandomisation at spread positions", shapes.len()),
        len,
        move |i, c| {
            let (m, n, kind, how, pos) = cases[i as usize];
            let b = big(kind, m, n, 31 + (m * 64 + n) as u64);
            let mut s = big_st(&b);
            let mut d = edge(1 + pos % 15);
            if d.is_zero() {
                d = FrB::one();
            }
            tamper(&mut s, how, pos, d);
            if w == Want::Sound && !s.k.is_binding() {
                return Ok(());
            }
            w.judge(j.verdict(&s)?, &s.k, &s.e, &s.f, c)
        },
    )
    .need(if w == Want::Relation { &["relation holds", "relation fails"] } else { &["accepted"] })
}
fn bls_tamper(w: Want, n: u64) -> Part {
    let (j, jb) = (Judge::<Bls>::new(), Judge::<ToyB>::new());
    part("bls", "tampered and untampered transcripts on BLS12-381: same verdict as the exponent group and as the reference", n * 4, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let q = ix.0;
        let (m, nn) = [(1, 1), (2, 1), (1, 2), (2, 2)][(q % 4) as usize];
        let b = big(kind, m, nn, 500 + i);
        let mut s = big_st(&b);
        let nc = ncoords(kind, m, nn);
        if q % 7 != 0 {
            tamper(&mut s, [0, 4, 0, 1, 0, 3, 2, 6, 0][(q % 9) as usize], (q * 5 + q / 3) as usize % nc, edge(1 + q as usize % 11));
        }
        if w == Want::Sound && !s.k.is_binding() {
            return Ok(());
        }
        let got = j.verdict(&s)?;
        let gb = jb.verdict(&s)?;
        if got.is_ok() != gb.is_ok() || got.as_ref().ok() != gb.as_ref().ok() {
            return Err(format!("BLS12-381 says {got:?}, the exponent group says {gb:?}: {s:?}"));
        }
        c.conf += 1;
        w.judge(got, &s.k, &s.e, &s.f, c)
    })
    .need(if w == Want::Relation { &["relation holds", "relation fails"] } else { &["accepted"] })
}

pub fn relation(t: Tier) -> Vec<Part> {
    let w = Want::Relation;
    let mut v = vec![];
    for kind in KINDS {
        let mut keys = few_keys::<F3>(
            match kind {
                Kind::Ppe => 1,
                Kind::Quad => t.q(5, 8),
                _ => t.q(1, 6),
            },
            3,
            false,
        );
        if kind != Kind::Ppe || t == Tier::Thorough {
            keys.extend(few_keys::<F3>(1, 3, true));
            // a key with unrelated vectors
            let o = F3::one();
            let z = F3::zero();
            keys.push(Key { u: [[o, o + o], [z, o]], v: [[o + o, z], [o, o]], g1: o + o, g2: o, gt: o });
        }
        let neq = match kind {
            Kind::Ppe => t.q(8, 81),
            Kind::Quad => 81,
            _ => t.q(40, 81),
        };
        v.push(exhaustive::<T3>(w, kind, keys, neq, ""));
        v.push(arbitrary_keys(kind));
    }
    v.push(exhaustive::<T5>(w, Kind::Quad, few_keys::<F5>(1, 5, false), t.q(8, 200), "-p5"));
    for kind in KINDS {
        for m in 1..=3 {
            for n in 1..=3 {
                v.push(shapes::<T3>(w, kind, m, n, t.q(2, 3)));
            }
        }
        v.push(shapes::<T7>(w, kind, 2, 2, t.q(1, 2)));
    }
    tamper_parts(w, t, &mut v);
    v
}
fn tamper_parts(w: Want, t: Tier, v: &mut Vec<Part>) {
    let max = t.q(5, 10);
    v.push(big_tamper(w, "tamper-big", (1..=max).flat_map(|m| (1..=max).map(move |n| (m, n))).collect(), t.q(5, 1)));
    let ls: Vec<usize> = t.q(vec![17, 40, 66], vec![9, 16, 17, 31, 32, 33, 40, 63, 64, 65, 66, 100, 127, 128, 129, 130, 160]);
    v.push(big_tamper(w, "tamper-long", ls.iter().flat_map(|&l| [(1, l), (l, 1), (2, l), (l, 2)]).collect(), 64));
    v.push(wide_tamper(w, t));
    let cat = catalogue();
    let nc = t.q(cat.short, cat.all.len()) as u64;
    let j = Judge::<ToyB>::new();
    v.push(part("tamper-scalars", &format!("BLS12-381-sized exponents, 1x1: honest transcripts with one coordinate changed by, and with one coordinate replaced by each of {nc} scalars (small, powers of two, digit patterns, quotients, roots, endomorphism eigenvalues), every type, positions in rotation, and rerandomised by them"), nc * 4, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let s = cat.all[ix.0 as usize];
        let b = big(kind, 1, 1, 31 + i / 64);
        let n = ncoords(kind, 1, 1);
        for q in 0..4usize {
            let mut st = big_st(&b);
            let pos = (i as usize / 4 * 5 + q * n / 4) % n;
            match q {
                0 | 1 => *st.coords()[pos] += s,
                2 => *st.coords()[pos] = s,
                _ => tamper(&mut st, 4, pos, s),
            }
            if w == Want::Sound && !st.k.is_binding() {
                continue;
            }
            w.judge(j.verdict(&st)?, &st.k, &st.e, &st.f, c)?;
        }
        Ok(())
    })
    .need(if w == Want::Relation { &["relation holds", "relation fails"] } else { &["accepted"] }));
    let tb = tables(t == Tier::Thorough);
    let nt = tb.len() as u64;
    let j = Judge::<ToyB>::new();
    v.push(part("sparse", &format!("BLS12-381-sized exponents: {nt} patterns of zero coefficients (all of them up to 3x3; single entries, gaps, pairs, rows, columns, bands, triangles up to 8x8), honest, with a coefficient that is zero or not zero changed, with an entry of each list changed"), nt * 4 * 2, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let how = ix.take(2);
        let (m, n, k) = &tb[ix.0 as usize];
        let (m, n) = (*m, *n);
        let st = big_st(&sparse(kind, m, n, k, how, i + 1));
        let d = |q: usize| edge(1 + (i as usize + q) % 9) + if edge(1 + (i as usize + q) % 9).is_zero() { FrB::one() } else { FrB::zero() };
        if w == Want::Sound && !st.k.is_binding() {
            return Ok(());
        }
        let l = m * n;
        for q in 0..7 {
            let mut s = st.clone();
            let r = (i as usize / 8 * 5 + q) % l;
            // an entry that is zero, an entry that is not, an entry of the lists
            let on = (0..l).map(|z| (r + z) % l).find(|z| k[*z]);
            let off = (0..l).map(|z| (r + z) % l).find(|z| !k[*z]);
            match (q, on, off) {
                (0, _, _) => {}
                (1, _, Some(z)) | (2, Some(z), _) => s.e.gamma[z / n][z % n] += d(q),
                (3, Some(z), _) => s.e.gamma[z / n][z % n] = FrB::zero(),
                (4, Some(z), Some(y)) => {
                    let o = s.e.gamma[z / n][z % n];
                    s.e.gamma[y / n][y % n] = o;
                    s.e.gamma[z / n][z % n] = FrB::zero();
                }
                (5, _, _) => s.f.c[r % m][r % 2] += d(q),
                (6, _, _) => s.f.d[r % n][r % 2] += d(q),
                _ => continue,
            }
            w.judge(j.verdict(&s)?, &s.k, &s.e, &s.f, c)?;
        }
        Ok(())
    })
    .need(if w == Want::Relation { &["relation holds", "relation fails"] } else { &["accepted"] }));
    let al = alike(t.q(5, 6));
    let na = al.len() as u64;
    let j = Judge::<ToyB>::new();
    v.push(part("alike", &format!("BLS12-381-sized exponents, every type: {na} patterns of zero, equal and opposite values in lists of up to {} entries, as variables, constants, rows or columns of coefficients, random scalars or all of them (so that commitments are equal or opposite): honest, with one coordinate changed, with two equal coordinates changed by opposite amounts", t.q(5, 6)), na * 4 * 2 * 6, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let second = ix.bit();
        let place = ix.take(6);
        let p = &al[ix.0 as usize];
        let st = big_st(&super::complete::alike_big(kind, second, place, p, i));
        if w == Want::Sound && !st.k.is_binding() {
            return Ok(());
        }
        let l = p.len();
        let d = FrB::from(i % 5 + 1);
        // two entries that are equal or opposite, if any
        let twins = (0..l).flat_map(|a| (0..a).map(move |b| (a, b))).filter(|(a, b)| p[*a].abs() == p[*b].abs()).nth(0);
        for q in 0..9 {
            let mut s = st.clone();
            let r = (i as usize / 48 + q) % l;
            let (a, b) = twins.unwrap_or((l - 1, 0));
            let g = |s: &mut St<FrB>, at: usize, z: FrB| if second { s.e.gamma[0][at] += z } else { s.e.gamma[at][0] += z };
            match q {
                0 => {}
                1 => if second { s.f.d[r][i as usize % 2] += d } else { s.f.c[r][i as usize % 2] += d },
                2 => if second { s.e.a[r] += d } else { s.e.b[r] += d },
                3 => g(&mut s, r, d),
                4 if a != b => {
                    g(&mut s, a, d);
                    g(&mut s, b, -d);
                }
                5 if a != b => if second {
                    s.e.a[a] += d;
                    s.e.a[b] -= d;
                } else {
                    s.e.b[a] += d;
                    s.e.b[b] -= d;
                },
                6 if a != b => if second {
                    s.f.d[a][1] += d;
                    s.f.d[b][1] -= d;
                } else {
                    s.f.c[a][1] += d;
                    s.f.c[b][1] -= d;
                },
                7 if a != b => if second { s.f.d.swap(a, b) } else { s.f.c.swap(a, b) },
                8 => s.e.t += d,
                _ => continue,
            }
            w.judge(j.verdict(&s)?, &s.k, &s.e, &s.f, c)?;
        }
        Ok(())
    })
    .need(if w == Want::Relation { &["relation holds", "relation fails"] } else { &["accepted"] }));
    v.push(bls_tamper(w, t.q(60, 600)));
}

pub fn soundness(t: Tier) -> Vec<Part> {
    let w = Want::Sound;
    let mut v = vec![];
    for kind in KINDS {
        let keys = few_keys::<F3>(
            match kind {
                Kind::Ppe => 1,
                Kind::Quad => t.q(6, 8),
                _ => t.q(2, 8),
            },
            3,
            false,
        );
        let neq = match kind {
            Kind::Ppe => t.q(8, 81),
            Kind::Quad => 81,
            _ => t.q(40, 81),
        };
        v.push(exhaustive::<T3>(w, kind, keys, neq, ""));
        v.push(dishonest(kind, t));
    }
    v.push(exhaustive::<T5>(w, Kind::Quad, few_keys::<F5>(1, 5, false), t.q(8, 200), "-p5"));
    for kind in KINDS {
        for m in 1..=3 {
            for n in 1..=3 {
                v.push(shapes::<T3>(w, kind, m, n, t.q(2, 3)));
            }
        }
        v.push(shapes::<T7>(w, kind, 2, 2, t.q(1, 2)));
    }
    tamper_parts(w, t, &mut v);
    let max = t.q(6, 10);
    v.push(
        part("dishonest-big", "BLS12-381-sized exponents: proofs honestly generated from witnesses that miss the target by one changed variable, constant, coefficient or target; every shape and position", max * max * 4, move |i, c| {
            let mut ix = Ix(i);
            let kind = Kind::of(ix.take(4));
            let (m, n) = (1 + ix.take(max) as usize, 1 + ix.take(max) as usize);
            let b = big(kind, m, n, 2000 + i);
            big_dishonest::<ToyB>(&b, m + n + ncoef(m, n) + 1, c)
        })
        .need(&["dishonest proofs"]),
    );
    let nb = t.q(3, 24);
    v.push(
        part("dishonest-bls", "the same on BLS12-381", nb * 4, move |i, c| {
            let mut ix = Ix(i);
            let kind = Kind::of(ix.take(4));
            let (m, n) = [(1, 1), (1, 2), (2, 1), (2, 2)][(ix.0 % 4) as usize];
            let b = big(kind, m, n, 3000 + i);
            big_dishonest::<Bls>(&b, m + n + ncoef(m, n) + 1, c)
        })
        .need(&["dishonest proofs"]),
    );
    v
}

fn big_dishonest<N: Eng<S = FrB>>(b: &Big, nvar: usize, c: &mut Cnt) -> Result<(), String> {
    let kind = b.e.kind;
    let (m, n) = (b.e.m(), b.e.n());
    for pos in 0..nvar {
        let (mut e, mut x, mut y) = (b.e.clone(), b.x.clone(), b.y.clone());
        let d = edge(1 + pos % 11);
        let d = if d.is_zero() { FrB::one() } else { d };
        if pos < m {
            x[pos] += d;
        } else if pos < m + n {
            y[pos - m] += d;
        } else if pos < m + 2 * n {
            e.a[pos - m - n] += d;
        } else if pos < 2 * m + 2 * n {
            e.b[pos - m - 2 * n] += d;
        } else if pos + 1 < nvar {
            let g = pos - 2 * m - 2 * n;
            e.gamma[g / n][g % n] += d;
        } else {
            e.t += d;
        }
        if e.sat(&x, &y) {
            continue;
        }
        c.tag("dishonest proofs");
        c.st();
        c.tr(2);
        let (lk, le) = (crs::<N>(&b.k), leq::<N>(&e));
        let (xv, yv) = (xvars::<N>(kind.xs(), &x), yvars::<N>(kind.ys(), &y));
        let mut rng = Stream::scalars(&b.rnd, 3);
        // a panic is a refusal
        let Ok(p) = lib(|| le.commit_and_prove(&xv, &yv, &lk, &mut rng)) else { continue };
        if lib(|| le.verify(&p, &lk)) == Ok(true) {
            return Err(format!("{}: proof from a non-satisfying witness accepted: key {:?} {e:?} x {x:?} y {y:?}", N::NAME, b.k));
        }
        // an honest proof of the true equation against the changed one
        let (xv, yv) = (xvars::<N>(kind.xs(), &b.x), yvars::<N>(kind.ys(), &b.y));
        let mut rng = Stream::scalars(&b.rnd, 3);
        let lt = leq::<N>(&b.e);
        let Ok(p) = lib(|| lt.commit_and_prove(&xv, &yv, &lk, &mut rng)) else { continue };
        if !e.sat(&b.x, &b.y) && lib(|| le.verify(&p, &lk)) == Ok(true) {
            return Err(format!("{}: proof for one equation accepted for another: key {:?} {:?} {e:?}", N::NAME, b.k, b.e));
        }
    }
    Ok(())
}

/// Order 3: honest provers with every wrong witness and every wrong target.
fn dishonest(kind: Kind, t: Tier) -> Part {
    let p = 3;
    let ns = nside(p);
    let full = t == Tier::Thorough;
    part(
        &format!("dishonest-{kind:?}"),
        "order 3, one variable per side: every binding key x every equation x every non-satisfying witness, honest prover",
        ns * ns * 81 * 9,
        move |i, c| {
            let mut ix = Ix(i);
            let co = ix.fs::<F3>(p, 3);
            let t = ix.f::<F3>(p);
            let (x, y) = (ix.fs::<F3>(p, 1), ix.fs::<F3>(p, 1));
            let k = key::<F3>(ix.take(ns), ix.take(ns), p, false);
            let e = eqn(kind, 1, 1, &co, t);
            if e.sat(&x, &y) {
                return Ok(());
            }
            let (lk, le) = (crs::<E3>(&k), leq::<E3>(&e));
            let (xv, yv) = (xvars::<E3>(kind.xs(), &x), yvars::<E3>(kind.ys(), &y));
            for b in 0..if full { NBASE } else { 1 } {
                let b = if full { b } else { 2 };
                let pre: Vec<u8> = (0..ndraw(kind, 1, 1)).map(|j| base(b, j + i as usize % 5, p) as u8).collect();
                let mut rng = Tree::with_prefix(p, &pre);
                c.tag("dishonest proofs");
                c.st();
                c.tr(2);
                let Ok(pr) = lib(|| le.commit_and_prove(&xv, &yv, &lk, &mut rng)) else { continue };
                if lib(|| le.verify(&pr, &lk)) == Ok(true) {
                    return Err(format!("proof from a non-satisfying witness accepted: key {k:?} {e:?} x {x:?} y {y:?}"));
                }
            }
            Ok(())
        },
    )
    .need(&["dishonest proofs"])
}
