//! C17: wrongly typed or shaped proofs.
use super::sound::{honest, Judge, St};
use super::*;
use groth_sahai::prover::CProof;

/// Transcripts that satisfy the relation when the shape is right.
/// what: 0 honest, 1 all zero (trivial statement), 2 zero constants with honest randomness,
/// 3 honest with last variables and constants zero (so that dropping them changes no sum).
fn transcript<F: PrimeField>(kind: Kind, m: usize, n: usize, k: &Key<F>, p: u64, what: u64) -> St<F> {
    let nc = ncoef(m, n);
    let tot = nc + m + n + ndraw(kind, m, n);
    let mut v: Vec<F> = (0..tot).map(|q| if what == 1 { F::zero() } else { F::from(base(2, q, p)) }).collect();
    if what == 2 {
        for z in v.iter_mut().take(nc) {
            *z = F::zero();
        }
    }
    if what == 3 {
        // constants, coefficients and values of the last variables vanish, and so does all randomness
        for z in v.iter_mut().skip(nc) {
            *z = F::zero();
        }
        v[n - 1] = F::zero();
        v[n + m - 1] = F::zero();
    }
    let e = eqn_for(kind, m, n, &v[..nc], &v[nc..nc + m], &v[nc + m..nc + m + n]);
    let f = honest(k, &e, &v[nc..nc + m], &v[nc + m..nc + m + n], &v[nc + m + n..]);
    St { k: k.clone(), e, f }
}
/// Resize a list: shorter drops from the end (or the front), longer adds zeros, copies or arbitrary elements.
fn resize<F: PrimeField>(v: &mut Vec<P2<F>>, len: usize, how: u64) {
    while v.len() > len {
        if how % 2 == 0 {
            v.pop();
        } else {
            v.remove(0);
        }
    }
    while v.len() < len {
        let z = match how % 4 {
            0 => [F::zero(); 2],
            1 => v.last().copied().unwrap_or([F::one(), F::zero()]),
            2 => v.first().copied().unwrap_or([F::zero(), F::one()]),
            _ => [F::one(), F::from(2u64)],
        };
        if how % 8 >= 4 {
            v.insert(0, z);
        } else {
            v.push(z);
        }
    }
}
fn lens_case<N: Eng>(j: &Judge<N>, s: &St<N::S>, l: [usize; 4], how: u64, tag: Kind, c: &mut Cnt) -> Result<(), String> {
    let kind = s.e.kind;
    let right = l == [s.e.m(), s.e.n(), kind.npi(), kind.ntheta()] && tag == kind;
    let mut f = s.f.clone();
    resize(&mut f.c, l[0], how);
    resize(&mut f.d, l[1], how);
    resize(&mut f.pi, l[2], how);
    resize(&mut f.th, l[3], how);
    let mut p = j.shell(kind)?;
    set::<N>(&mut p, tag, &f);
    let (k, e) = (crs::<N>(&s.k), leq::<N>(&s.e));
    let got = lib(|| e.verify(&p, &k));
    c.st();
    c.tr(1);
    c.sample(|| format!("{kind:?} {}x{} with list lengths {l:?} labelled {tag:?}: verdict {got:?}", s.e.m(), s.e.n()));
    if right {
        c.tag("right shape");
        if got != Ok(true) {
            return Err(format!("{}: valid proof of the right shape not accepted ({got:?}): {s:?}", N::NAME));
        }
    } else {
        c.tag(if tag != kind { "wrong type" } else { "wrong number of elements" });
        if got == Ok(true) {
            return Err(format!(
                "{}: {kind:?} statement with {} and {} variables accepts a proof labelled {tag:?} with {} X commitments, {} Y commitments, {} pi and {} theta elements: {:?} {:?} {f:?}",
                N::NAME, s.e.m(), s.e.n(), l[0], l[1], l[2], l[3], s.k, s.e
            ));
        }
    }
    Ok(())
}
fn lists<N: Eng>(name: &str, max: usize, p: u64, keys: Vec<Key<N::S>>, whats: u64, hows: u64) -> Part {
    let mut cases = vec![];
    for kind in KINDS {
        for m in 1..=max {
            for n in 1..=max {
                for what in 0..whats {
                    cases.push((kind, m, n, what));
                }
            }
        }
    }
    let (nc, nk) = (cases.len() as u64, keys.len() as u64);
    let j = Judge::<N>::new();
    part(
        name,
        &format!("{}: statements up to {max}x{max}, {whats} transcripts each, {nk} keys: every combination of list lengths 0..=m+2, 0..=n+2, 0..=4, 0..=4 ({hows} ways of dropping and adding) with every type label", N::NAME),
        nc * nk * hows,
        move |i, c| {
            let mut ix = Ix(i);
            let (kind, m, n, what) = cases[ix.take(nc) as usize];
            let k = &keys[ix.take(nk) as usize];
            let s = transcript(kind, m, n, k, p, what);
            for l0 in 0..=m + 2 {
                for l1 in 0..=n + 2 {
                    for l2 in 0..=4 {
                        for l3 in 0..=4 {
                            for tag in KINDS {
                                lens_case::<N>(&j, &s, [l0, l1, l2, l3], ix.0, tag, c)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    )
    .need(&["right shape", "wrong type", "wrong number of elements"])
}
/// The numbers of constants and the dimensions of the coefficient matrix, independently of each other.
fn statements<N: Eng>(name: &str, max: usize, p: u64, keys: Vec<Key<N::S>>, hows: u64) -> Part {
    let mut cases = vec![];
    for kind in KINDS {
        for m in 1..=max {
            for n in 1..=max {
                for what in 0..4 {
                    cases.push((kind, m, n, what));
                }
            }
        }
    }
    let (nc, nk) = (cases.len() as u64, keys.len() as u64);
    let j = Judge::<N>::new();
    part(
        name,
        &format!("{}: proofs with up to {max} and {max} commitments, 4 transcripts each, {nk} keys, against statements with every number of constants 0..=n+2 and 0..=m+2 and every coefficient matrix dimension 1..=m+2 by 1..=n+2 ({hows} ways of dropping and adding)", N::NAME),
        nc * nk * hows,
        move |i, c| {
            let mut ix = Ix(i);
            let (kind, m, n, what) = cases[ix.take(nc) as usize];
            let k = &keys[ix.take(nk) as usize];
            let how = ix.0;
            let s = transcript(kind, m, n, k, p, what);
            let lk = crs::<N>(k);
            let mut pr = j.shell(kind)?;
            set::<N>(&mut pr, kind, &s.f);
            fn fit<T: Clone>(v: &[T], len: usize, how: u64, zero: T, one: T) -> Vec<T> {
                let mut v = v.to_vec();
                while v.len() > len {
                    if how % 2 == 0 {
                        v.pop();
                    } else {
                        v.remove(0);
                    }
                }
                while v.len() < len {
                    let z = if how % 4 < 2 { zero.clone() } else { one.clone() };
                    if how % 8 >= 4 {
                        v.insert(0, z);
                    } else {
                        v.push(z);
                    }
                }
                v
            }
            let (zero, one) = (N::S::zero(), N::S::one());
            for la in 0..=n + 2 {
                for lb in 0..=m + 2 {
                    for rows in 1..=m + 2 {
                        for cols in 1..=n + 2 {
                            let mut e = s.e.clone();
                            e.a = fit(&e.a, la, how, zero, one);
                            e.b = fit(&e.b, lb, how, zero, one);
                            e.gamma = e.gamma.iter().map(|r| fit(r, cols, how, zero, one)).collect();
                            e.gamma = fit(&e.gamma, rows, how, vec![zero; cols], vec![one; cols]);
                            let le = leq::<N>(&e);
                            let got = lib(|| le.verify(&pr, &lk));
                            c.st();
                            c.tr(1);
                            if (la, lb, rows, cols) == (n, m, m, n) {
                                c.tag("right shape");
                                if got != Ok(true) {
                                    return Err(format!("{}: valid proof of the right shape not accepted ({got:?}): {s:?}", N::NAME));
                                }
                            } else {
                                c.tag("wrong number of elements");
                                if got == Ok(true) {
                                    return Err(format!(
                                        "{}: {kind:?} statement with {la} and {lb} constants and {rows}x{cols} coefficients accepts a proof with {m} X commitments and {n} Y commitments: {:?} {e:?} {:?}",
                                        N::NAME, s.k, s.f
                                    ));
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    )
    .need(&["right shape", "wrong number of elements"])
}
/// A proof for one type relabelled as another, against a statement of the other type with the same numbers.
fn relabel() -> Part {
    let j = Judge::<E3>::new();
    part("relabel", "order 3: transcripts made for one equation type, cut or extended to the form of another, labelled with a third, against a statement of a fourth", 4 * 4 * 4 * 4 * 2, move |i, c| {
        let mut ix = Ix(i);
        let (made, form, label, stmt) = (Kind::of(ix.take(4)), Kind::of(ix.take(4)), Kind::of(ix.take(4)), Kind::of(ix.take(4)));
        let k = &few_keys::<F3>(2, 3, false)[ix.0 as usize];
        for what in 0..4 {
            let s = transcript(made, 1, 1, k, 3, what);
            let mut f = s.f.clone();
            resize(&mut f.pi, form.npi(), 0);
            resize(&mut f.th, form.ntheta(), 0);
            let e = Eqn { kind: stmt, ..s.e.clone() };
            let mut p = j.shell(stmt)?;
            set::<E3>(&mut p, label, &f);
            let (lk, le) = (crs::<E3>(k), leq::<E3>(&e));
            let got = lib(|| le.verify(&p, &lk));
            c.st();
            c.tr(1);
            let shaped = label == stmt && f.pi.len() == stmt.npi() && f.th.len() == stmt.ntheta();
            if got == Ok(true) && !shaped {
                return Err(format!("{stmt:?} statement accepts a proof made for {made:?}, formed as {form:?}, labelled {label:?}: {k:?} {e:?} {f:?}"));
            }
            c.tag(if shaped { "right shape" } else { "refused" });
        }
        Ok(())
    })
    .need(&["refused"])
}
/// Zero, two or more proofs for the one equation.
fn several<N: Eng>(name: &str, p: u64, keys: Vec<Key<N::S>>, max: usize) -> Part {
    let j = Judge::<N>::new();
    let nk = keys.len() as u64;
    // each list position: a valid proof, a valid proof of another label, or a changed proof
    part(name, &format!("{}: lists of 0 to {max} proofs for the one equation, each valid, changed or labelled otherwise", N::NAME), 4 * 4 * nk * pw(3, max + 1), move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let what = ix.take(4);
        let k = &keys[ix.take(nk) as usize];
        let (m, n) = if what % 2 == 0 { (1, 1) } else { (2, 1) };
        let s = transcript(kind, m, n, k, p, what);
        let mut q = j.shell(kind)?;
        set::<N>(&mut q, kind, &s.f);
        let good = q.equ_proofs[0].clone();
        let len = (ix.take(3) as usize * max + 1) / 3;
        let mut list = vec![];
        let mut valid = true;
        for _ in 0..len {
            let mut e = good.clone();
            match ix.take(3) {
                0 => {}
                1 => {
                    e.pi[0].1 = N::g2(&(N::S::one() + s.f.pi[0][1]));
                    valid = false;
                }
                _ => {
                    e.equ_type = etype(Kind::of((kind.tag() as u64 + 1) % 4));
                    valid = false;
                }
            }
            list.push(e);
        }
        let pr = CProof::<N::E> { xcoms: q.xcoms.clone(), ycoms: q.ycoms.clone(), equ_proofs: list };
        let (lk, le) = (crs::<N>(k), leq::<N>(&s.e));
        let got = lib(|| le.verify(&pr, &lk));
        c.st();
        c.tr(1);
        if len == 1 && valid {
            c.tag("one proof");
            if got != Ok(true) {
                return Err(format!("a single valid proof is not accepted: {s:?}"));
            }
        } else if len != 1 {
            c.tag("not one proof");
            if got == Ok(true) {
                return Err(format!("{}: {kind:?} statement accepts {len} proofs for the one equation: {s:?}", N::NAME));
            }
        }
        Ok(())
    })
    .need(&["not one proof"])
}
/// Larger statements: one element missing or extra at every place.
fn large<N: Eng<S = FrB>>(name: &str, shapes: Vec<(usize, usize)>, deltas: &'static [i64]) -> Part {
    let j = Judge::<N>::new();
    let ns = shapes.len() as u64;
    part(name, &format!("{}: {ns} statements, elements missing or extra ({deltas:?}) on any of the four lists, honest and trivially true transcripts", N::NAME), ns * 4 * 4 * 8, move |i, c| {
        let mut ix = Ix(i);
        let (m, n) = shapes[ix.take(ns) as usize];
        let kind = Kind::of(ix.take(4));
        let what = ix.take(4);
        let s = transcript(kind, m, n, &big_key(i + 1), u64::MAX, what);
        let r = [m, n, kind.npi(), kind.ntheta()];
        for q in 0..4 {
            for d in deltas.iter().copied().chain([-(r[q] as i64)]) {
                let mut l = r;
                if (r[q] as i64 + d) < 0 {
                    continue;
                }
                l[q] = (r[q] as i64 + d) as usize;
                lens_case::<N>(&j, &s, l, ix.0, kind, c)?;
                if q == 0 && d != 0 {
                    // one more here, one less there
                    let mut l2 = l;
                    l2[1] = (r[1] as i64 - d).max(0) as usize;
                    lens_case::<N>(&j, &s, l2, ix.0, kind, c)?;
                }
            }
        }
        if N::NAME == "BLS12-381" {
            c.conf += 1;
        }
        Ok(())
    })
    .need(&["right shape", "wrong number of elements"])
}
pub fn parts(t: Tier) -> Vec<Part> {
    let mut keys = few_keys::<F3>(2, 3, false);
    keys.extend(few_keys::<F3>(1, 3, true));
    vec![
        lists::<E3>("lists", t.q(2, 4), 3, keys.clone(), 4, 8),
        lists::<E3>("lists-3", 3, 3, few_keys::<F3>(1, 3, false), 4, t.q(4, 8)),
        lists::<E7>("lists-p7", 2, 7, few_keys::<F7>(1, 7, false), 4, t.q(4, 8)),
        statements::<E3>("statements", t.q(2, 4), 3, keys.clone(), 8),
        statements::<E7>("statements-p7", 3, 7, few_keys::<F7>(1, 7, false), t.q(2, 8)),
        relabel(),
        several::<E3>("several", 3, keys, t.q(3, 5)),
        large::<ToyB>("large", t.q(vec![(4, 4), (5, 2), (8, 8), (1, 17), (33, 1), (1, 65)], vec![(4, 4), (5, 2), (8, 8), (1, 17), (33, 1), (16, 16), (1, 130), (65, 2), (129, 1), (3, 7), (7, 3), (1, 300)]), &[-2, -1, 0, 1, 2, 7]),
        large::<ToyB>("wrapped", vec![(1, 1), (2, 1), (1, 257), (258, 1)], &[0, 256, -256, 512]),
        large::<Bls>("bls", t.q(vec![(1, 1)], vec![(1, 1), (2, 3), (3, 1)]), &[-2, -1, 0, 1, 2, 7]),
    ]
}
