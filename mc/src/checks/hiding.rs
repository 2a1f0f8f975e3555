//! C04 (witness indistinguishability), C05 (hiding commitments), C18 (encodings), C19 (fresh proofs):
//! exact distributions over all prover randomness, and their linear structure at full size.
use super::*;
use crate::finding;
use ark_serialize::Compress;
use groth_sahai::prover::*;
use std::collections::HashMap;
use std::hash::Hash;

pub type Dist<K> = HashMap<K, u128>;
/// Exact distribution of an observation over all branches of the random source; weights sum to p^max.
pub fn dist<K: Hash + Eq>(p: u64, max: usize, pre: &[u8], c: &mut Cnt, mut f: impl FnMut(&mut Tree) -> Result<K, String>) -> Result<Dist<K>, String> {
    let mut t = Tree::with_prefix(p, pre);
    t.max = max;
    let mut d: Dist<K> = HashMap::new();
    let n = run_tree(&mut t, |t| {
        let k = f(t)?;
        let w = (p as u128).pow((max - t.drawn().min(max)) as u32);
        *d.entry(k).or_default() += w;
        Ok(())
    })?;
    c.states += n;
    c.tr(2 * n);
    Ok(d)
}
fn push<C: ToyCfg>(acc: &mut u128, z: P2<C::F>) {
    code::<C>(C::P, acc, z)
}
fn seen<C: ToyCfg>(f: &Pf<C::F>) -> u128 {
    let mut a = 1;
    for z in f.c.iter().chain(&f.d).chain(&f.pi).chain(&f.th) {
        push::<C>(&mut a, *z);
    }
    a
}
fn uniform<K>(d: &Dist<K>) -> bool {
    let mut v = d.values();
    let f = v.next();
    v.all(|x| Some(x) == f)
}

fn keys<C: ToyCfg>(which: &[u64]) -> Vec<Key<C::F>> {
    let ns = nside(C::P);
    which.iter().map(|i| key::<C::F>(i % ns, (i * 7 + i / ns + 5) % ns, C::P, true)).collect()
}

/// Witnesses grouped by the target they satisfy.
fn groups<C: ToyCfg>(kind: Kind, m: usize, n: usize, co: &[C::F], per: usize) -> Vec<(Eqn<C::F>, Vec<(Vec<C::F>, Vec<C::F>)>)> {
    let p = C::P;
    let mut g: Vec<(Eqn<C::F>, Vec<_>)> = (0..p).map(|t| (eqn(kind, m, n, co, C::F::from(t)), vec![])).collect();
    for i in 0..pw(p, m + n) {
        let mut ix = Ix(i);
        let (x, y) = (ix.fs::<C::F>(p, m), ix.fs::<C::F>(p, n));
        let e = eqn_for(kind, m, n, co, &x, &y);
        g[small(&e.t) as usize].1.push((x, y));
    }
    if per > 0 {
        for (_, w) in g.iter_mut() {
            // spread over the satisfying witnesses
            let l = w.len();
            if l > per {
                *w = (0..per).map(|i| w[if per == 1 { 0 } else { i * (l - 1) / (per - 1) }].clone()).collect();
            }
        }
    }
    g.retain(|(_, w)| w.len() > 1);
    g
}

// ---------------------------------------------------------------- C04
fn indist<C: ToyCfg>(kind: Kind, m: usize, n: usize, ks: Vec<Key<C::F>>, coefs: Vec<Vec<C::F>>, per: usize) -> Part {
    let p = C::P;
    let (nk, nc) = (ks.len() as u64, coefs.len() as u64);
    part(
        &format!("{kind:?}-{m}x{n}-p{p}"),
        &format!(
            "order {p}, {m}x{n} variables, {nk} hiding keys x {nc} coefficient vectors x {} satisfying witnesses of every target: exact joint distribution of commitments and proof over all {} draws",
            if per == 0 { "all".into() } else { format!("{per}") },
            ndraw(kind, m, n)
        ),
        nk * nc,
        move |i, c| {
            let mut ix = Ix(i);
            let k = &ks[ix.take(nk) as usize];
            let co = &coefs[ix.take(nc) as usize];
            let lk = crs::<Toy<C>>(k);
            for (e, ws) in groups::<C>(kind, m, n, co, per) {
                let le = leq::<Toy<C>>(&e);
                let mut first: Option<(Dist<u128>, _)> = None;
                for (x, y) in ws {
                    let (xv, yv) = (xvars::<Toy<C>>(kind.xs(), &x), yvars::<Toy<C>>(kind.ys(), &y));
                    let d = dist(p, 40, &[], c, |t| {
                        let pr = lib(|| le.commit_and_prove(&xv, &yv, &lk, t)).map_err(|m| format!("proving panics ({m}): key {k:?} {e:?} x {x:?} y {y:?}"))?;
                        Ok(seen::<C>(&pf::<C>(&pr)))
                    })?;
                    c.tag("witness distributions");
                    c.sample(|| format!("key {k:?}, {e:?}, x {x:?}, y {y:?}: {} distinct transcripts", d.len()));
                    match &first {
                        None => first = Some((d, (x, y))),
                        Some((f, w)) => {
                            c.tag("pairs compared");
                            if *f != d {
                                return Err(format!("witnesses {w:?} and {:?} are told apart: key {k:?} {e:?} ({} and {} distinct transcripts)", (x, y), f.len(), d.len()));
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    )
    .need(&["pairs compared"])
}
fn coefs_all<F: PrimeField>(p: u64, n: usize) -> Vec<Vec<F>> {
    (0..pw(p, n)).map(|i| Ix(i).fs(p, n)).collect()
}
fn coefs_dev<F: PrimeField>(p: u64, n: usize, w: usize) -> Vec<Vec<F>> {
    let mut v = vec![];
    for b in [2, 1] {
        for i in 0..ndev(n, w, p) {
            let x = devs(n, w, p, b, i);
            if !v.contains(&x) {
                v.push(x)
            }
        }
    }
    v
}
fn coefs_some<F: PrimeField>(p: u64, n: usize, cnt: usize) -> Vec<Vec<F>> {
    (0..cnt).map(|i| (0..n).map(|j| F::from(if i == 0 { base(2, j, p) } else if i == 1 { 1 } else { (1 + (i * j + j * j / 2 + i) as u64) % p })).collect()).collect()
}

/// Several equations about the same four commitment lists (one variable each).
/// `types`: the equations proved, in order.
fn joint(types: &'static [Kind], cfgs: u64) -> Part {
    let p = 3;
    part(
        &format!("joint-{}", types.iter().map(|k| format!("{k:?}")).collect::<Vec<_>>().join("-")),
        "order 3: these equations proved one after another about the same commitments (sides of the same kind share the commitment); exact joint distribution for all pairs of witnesses that satisfy all of them",
        cfgs,
        move |i, c| {
            let k = &keys::<T3>(&[i * 11 + 4])[0];
            let lk = crs::<E3>(k);
            let need = |g: fn(Kind) -> bool, v: bool| types.iter().any(|k| g(*k) == v);
            let used = [need(Kind::xs, false), need(Kind::xs, true), need(Kind::ys, false), need(Kind::ys, true)];
            let nv = used.iter().filter(|u| **u).count();
            let co: Vec<Vec<F3>> = (0..types.len()).map(|q| coefs_some::<F3>(p, 3, 8)[(i as usize * 3 + q + 2) % 8].clone()).collect();
            // group all assignments by the tuple of targets
            let mut by: HashMap<Vec<u64>, Vec<[F3; 4]>> = HashMap::new();
            for w in 0..pw(p, nv) {
                let mut ix = Ix(w);
                let mut a = [F3::zero(); 4];
                for (q, u) in used.iter().enumerate() {
                    if *u {
                        a[q] = ix.f(p);
                    }
                }
                let ts = types.iter().zip(&co).map(|(k, co)| small(&eqn_for(*k, 1, 1, co, &[a[k.xs() as usize]], &[a[2 + k.ys() as usize]]).t)).collect();
                by.entry(ts).or_default().push(a);
            }
            let mut by: Vec<_> = by.into_iter().filter(|(_, w)| w.len() > 1).collect();
            by.sort();
            if by.is_empty() {
                return Ok(());
            }
            let (ts, ws) = &by[i as usize % by.len()];
            let es: Vec<Eqn<F3>> = types.iter().zip(&co).zip(ts).map(|((k, co), t)| eqn(*k, 1, 1, co, F3::from(*t))).collect();
            let mut first: Option<(Dist<u128>, [F3; 4])> = None;
            let pick = [ws[0], ws[ws.len() - 1]];
            for a in pick {
                let xs = [xvars::<E3>(false, &a[0..1]), xvars::<E3>(true, &a[1..2])];
                let ys = [yvars::<E3>(false, &a[2..3]), yvars::<E3>(true, &a[3..4])];
                let d = dist(p, 40, &[], c, |t| {
                    let mut acc = 1u128;
                    lib(|| {
                        let mut cx: [Option<Commit1<E3>>; 2] = [None, None];
                        let mut cy: [Option<Commit2<E3>>; 2] = [None, None];
                        for q in 0..2 {
                            if used[q] {
                                cx[q] = Some(commit_x(&xs[q], &lk, t));
                                push::<T3>(&mut acc, k1::<T3>(&cx[q].as_ref().unwrap().coms[0]));
                            }
                            if used[2 + q] {
                                cy[q] = Some(commit_y(&ys[q], &lk, t));
                                push::<T3>(&mut acc, k2::<T3>(&cy[q].as_ref().unwrap().coms[0]));
                            }
                        }
                        for e in &es {
                            let (qx, qy) = (e.kind.xs() as usize, e.kind.ys() as usize);
                            let pr = leq::<E3>(e).prove(&xs[qx], &ys[qy], cx[qx].as_ref().unwrap(), cy[qy].as_ref().unwrap(), &lk, t);
                            for z in &pr.pi {
                                push::<T3>(&mut acc, k2::<T3>(z));
                            }
                            for z in &pr.theta {
                                push::<T3>(&mut acc, k1::<T3>(z));
                            }
                        }
                    })
                    .map_err(|m| format!("panic ({m}): key {k:?} {es:?} values {a:?}"))?;
                    Ok(acc)
                })?;
                c.tag("witness distributions");
                match &first {
                    None => first = Some((d, a)),
                    Some((f, w)) => {
                        c.tag("pairs compared");
                        if *f != d {
                            return Err(format!("witnesses {w:?} and {a:?} are told apart: key {k:?} {es:?}"));
                        }
                    }
                }
            }
            Ok(())
        },
    )
    .need(&["pairs compared"])
}

pub fn witness(t: Tier) -> Vec<Part> {
    use Kind::*;
    let mut v = vec![];
    for kind in [M1, M2] {
        v.push(indist::<T3>(kind, 1, 1, keys::<T3>(&(0..t.q(6, 324)).map(|i| i * t.q(53, 1)).collect::<Vec<_>>()), coefs_all(3, 3), 0));
    }
    v.push(indist::<T3>(Quad, 1, 1, keys::<T3>(&(0..t.q(108, 324)).map(|i| i * t.q(3, 1)).collect::<Vec<_>>()), coefs_all(3, 3), 0));
    v.push(indist::<T3>(Ppe, 1, 1, keys::<T3>(&t.q(vec![23], vec![23, 100, 0, 200, 311, 57, 180, 270])), coefs_all(3, 3), t.q(4, 0)));
    v.push(indist::<T5>(Quad, 1, 1, keys::<T5>(&[17, 1003]), coefs_all(5, 3), 0));
    v.push(indist::<T7>(Quad, 1, 1, keys::<T7>(&[17]), coefs_some(7, 3, t.q(8, 60)), 0));
    v.push(indist::<T5>(M1, 1, 1, keys::<T5>(&[17]), coefs_some(5, 3, t.q(4, 60)), t.q(2, 0)));
    v.push(indist::<T5>(M2, 1, 1, keys::<T5>(&[17]), coefs_some(5, 3, t.q(4, 60)), t.q(2, 0)));
    let k1 = |n: u64| keys::<T3>(&(0..n).map(|i| 23 + i * 77).collect::<Vec<_>>());
    for (m, n) in [(1, 2), (2, 1), (2, 2)] {
        v.push(indist::<T3>(Quad, m, n, k1(t.q(1, 6)), coefs_dev(3, ncoef(m, n), 2), 0));
        for kind in [M1, M2] {
            if m * n < 4 {
                v.push(indist::<T3>(kind, m, n, k1(t.q(1, 3)), coefs_dev(3, ncoef(m, n), 1), t.q(3, 0)));
            } else {
                v.push(indist::<T3>(kind, m, n, k1(1), coefs_some(3, ncoef(m, n), t.q(4, 20)), t.q(2, 9)));
            }
        }
        if m * n < 4 {
            v.push(indist::<T3>(Ppe, m, n, k1(1), coefs_some(3, ncoef(m, n), t.q(3, 16)), t.q(2, 5)));
        }
    }
    for (m, n) in [(1, 3), (3, 1), (3, 3), (2, 3), (4, 1), (1, 4)] {
        v.push(indist::<T3>(Quad, m, n, k1(1), coefs_some(3, ncoef(m, n), t.q(3, 12)), t.q(6, 0)));
    }
    v.push(joint(&[Quad, Quad], t.q(24, 200)));
    v.push(joint(&[Quad, Quad, Quad], t.q(24, 200)));
    v.push(joint(&[M1, M1], t.q(12, 100)));
    v.push(joint(&[M2, M2], t.q(12, 100)));
    v.push(joint(&[M1, Quad], t.q(12, 100)));
    v.push(joint(&[M2, Quad], t.q(12, 100)));
    v.push(joint(&[M1, M2], t.q(6, 60)));
    v.push(joint(&[Ppe, Quad], t.q(6, 60)));
    v.push(joint(&[Ppe, M1], t.q(8, 60)));
    v.push(joint(&[M2, Ppe], t.q(8, 60)));
    if t == Tier::Thorough {
        v.push(joint(&[Ppe, Ppe], 16));
        v.push(joint(&[M1, M2, Quad], 16));
        v.push(joint(&[M1, Quad, M1, Quad], 16));
    }
    v.push(affine_part("full-size", true, t));
    v.extend(affine_sparse(true, t));
    v.push(two_witnesses(t));
    v.push(affine_scalars(t));
    v.push(super::complete::bls_traces(t.q(7, 60), true));
    v
}

// ---------------------------------------------------------------- full size: affine structure
/// At full size the distribution of a transcript is decided by its linear structure: for scripted
/// randomness the transcript is an affine function of the script, its linear part has full rank, and
/// (for commitments) does not depend on the committed value.
fn affine_part(name: &str, proofs: bool, t: Tier) -> Part {
    let shapes: Vec<(usize, usize)> = t.q(
        vec![(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (3, 3), (4, 4), (1, 5), (7, 1), (8, 8), (1, 16), (17, 1), (33, 2)],
        (1..=9).flat_map(|m| (1..=9).map(move |n| (m, n))).chain([(1, 16), (17, 1), (33, 2), (2, 33), (65, 1), (1, 65), (129, 1), (1, 129), (16, 16), (12, 20)]).collect(),
    );
    let nshape = shapes.len() as u64;
    part(
        name,
        &format!("BLS12-381-sized exponents, {nshape} shapes, 12 patterns of witness and coefficients: scripted boundary randomness; each commitment and proof is affine in the random scalars with independent directions, so no randomness is lost or reused at full size"),
        4 * nshape * 12 * t.q(1, 2),
        move |i, c| {
            let mut ix = Ix(i);
            let kind = Kind::of(ix.take(4));
            let (m, n) = shapes[ix.take(nshape) as usize];
            let mut b = super::complete::big(kind, m, n, 600 + i);
            b.k.u[1][1] -= b.k.g1;
            b.k.v[1][1] -= b.k.g2;
            // special witnesses and statements
            let (zero, one) = (FrB::zero(), FrB::one());
            match ix.take(12) {
                0 => {}
                1 => {
                    b.x.fill(zero);
                    b.y.fill(zero);
                }
                2 => {
                    b.x.fill(one);
                    b.y.fill(one);
                }
                3 => {
                    let (x, y) = (b.x[0], b.y[0]);
                    b.x.fill(x);
                    b.y.fill(y);
                }
                4 => {
                    b.x[0] = zero;
                    b.y[n - 1] = zero;
                }
                5 => {
                    b.x[m - 1] = -b.x[0];
                    b.y[n - 1] = -b.y[0];
                }
                6 => {
                    b.e.a.fill(zero);
                    b.e.b.fill(zero);
                }
                7 => b.e.gamma.iter_mut().for_each(|r| r.fill(zero)),
                8 => {
                    b.e.a.fill(zero);
                    b.e.b.fill(zero);
                    b.e.gamma.iter_mut().for_each(|r| r.fill(zero));
                }
                9 => b.e.gamma.iter_mut().for_each(|r| r.fill(one)),
                10 => {
                    b.e.gamma[m - 1].fill(zero);
                    b.e.b[0] = zero;
                    b.e.a[0] = zero;
                }
                _ => {
                    b.x.fill(-one);
                    b.y.fill(FrB::from(2u64));
                    b.e.gamma[0][0] = zero;
                }
            }
            b.e.t = b.e.eval(&b.x, &b.y);
            affine_case(&b, ndraw(kind, m, n), proofs, 20, i, c)
        },
    )
}
/// A sparse statement with a hiding key; `wit` chooses the witness: generic, zero where no coefficient is, all zero, alternating.
fn sparse_case(kind: Kind, m: usize, n: usize, k: &[bool], how: u64, wit: u64, seed: u64) -> super::complete::Big {
    let mut b = super::complete::sparse(kind, m, n, k, how, seed);
    b.k.u[1][1] -= b.k.g1;
    b.k.v[1][1] -= b.k.g2;
    let z = FrB::zero();
    for i in 0..m {
        if wit == 2 || (wit == 3 && i % 2 == 0) || (wit == 1 && (0..n).all(|j| !k[i * n + j])) {
            b.x[i] = z;
        }
    }
    for j in 0..n {
        if wit == 2 || (wit == 3 && j % 2 == 1) || (wit == 1 && (0..m).all(|i| !k[i * n + j])) {
            b.y[j] = z;
        }
    }
    b.e.t = b.e.eval(&b.x, &b.y);
    b
}
/// Every choice of zero constants and variables for small shapes, without and with coefficients.
struct Absent {
    shapes: Vec<(usize, usize)>,
    per: Vec<u64>,
}
impl Absent {
    fn new() -> Self {
        let shapes: Vec<(usize, usize)> = vec![(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)];
        let per = shapes.iter().map(|(m, n)| 1 << (2 * m + 2 * n)).collect();
        Absent { shapes, per }
    }
    fn n(&self) -> u64 {
        self.per.iter().sum::<u64>() * 8
    }
    fn at(&self, i: u64) -> super::complete::Big {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let full = ix.bit();
        let mut z = ix.0;
        let mut q = 0;
        while z >= self.per[q] {
            z -= self.per[q];
            q += 1;
        }
        let (m, n) = self.shapes[q];
        let mut b = sparse_case(kind, m, n, &vec![full; m * n], 0, 0, i + 1);
        let mut on = |v: &mut Vec<FrB>| {
            for w in v.iter_mut() {
                if z & 1 == 0 {
                    *w = FrB::zero();
                }
                z >>= 1;
            }
        };
        on(&mut b.x);
        on(&mut b.y);
        on(&mut b.e.a);
        on(&mut b.e.b);
        b.e.t = b.e.eval(&b.x, &b.y);
        b
    }
}
fn affine_sparse(proofs: bool, t: Tier) -> Vec<Part> {
    let what = if proofs { "the proof is affine in its random scalars with independent directions" } else { "the commitments are affine in their random scalars with independent directions" };
    let tb = tables(t == Tier::Thorough);
    let nt = tb.len() as u64;
    let (nh, nw) = if proofs { (3, 4) } else { (1, 4) };
    let mut v = vec![part("sparse", &format!("BLS12-381-sized exponents, hiding keys: {nt} patterns of zero coefficients (all of them up to 3x3; single entries, gaps, pairs, rows, columns, bands, triangles up to 8x8), {nh} choices of constants, four of witnesses (zeros where there is no coefficient, everywhere, alternating), every type: {what}"), nt * 4 * nh * nw, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let (how, wit) = (ix.take(nh), ix.take(nw));
        let (m, n, k) = &tb[ix.0 as usize];
        let b = sparse_case(kind, *m, *n, k, how, wit, i + 1);
        affine_case(&b, ndraw(kind, *m, *n), proofs, 2, i, c)
    })];
    let ws: Vec<(usize, usize)> = t.q(vec![(9, 9), (16, 3), (3, 16), (10, 17), (17, 10), (17, 17)], super::complete::wide(Tier::Quick).into_iter().filter(|(m, n)| m + n <= 50).collect());
    v.push(part("wide", &format!("BLS12-381-sized exponents, hiding keys: {} shapes with many variables on both sides, four of witnesses, every type: {what}", ws.len()), ws.len() as u64 * 16, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let wit = ix.take(4);
        let (m, n) = ws[ix.0 as usize];
        let b = sparse_case(kind, m, n, &vec![true; m * n], 0, wit, i + 1);
        affine_case(&b, ndraw(kind, m, n), proofs, 2, i, c)
    }));
    let ab = Absent::new();
    v.push(part("absent", &format!("BLS12-381-sized exponents, hiding keys: every choice of zero constants and zero witnesses, without and with coefficients, up to 2x2, 3x1 and 1x3, every type: {what}"), ab.n(), move |i, c| {
        let b = ab.at(i);
        affine_case(&b, ndraw(b.e.kind, b.e.m(), b.e.n()), proofs, 2, i, c)
    }));
    let al = alike(t.q(5, 6));
    let na = al.len() as u64;
    v.push(part("alike", &format!("BLS12-381-sized exponents, hiding keys, every type: {na} patterns of zero, equal and opposite values in lists of up to {} variables on either side, the other side alike, without and with coefficients: {what}", t.q(5, 6)), na * 4 * 2 * 2, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let (second, full) = (ix.bit(), ix.bit());
        let p = &al[ix.0 as usize];
        let l = p.len();
        let (m, n) = if second { (1, l) } else { (l, 1) };
        let mut b = sparse_case(kind, m, n, &vec![full; m * n], 0, 0, i + 1);
        let w = alike_values(p, i);
        if second {
            b.y = w;
            b.x[0] = b.y[l - 1];
        } else {
            b.x = w;
            b.y[0] = b.x[l - 1];
        }
        b.e.t = b.e.eval(&b.x, &b.y);
        affine_case(&b, ndraw(kind, m, n), proofs, 2, i, c)
    }));
    v
}

// ---------------------------------------------------------------- full size: two witnesses, one transcript
/// Other witnesses of the same equation.
fn others(e: &Eqn<FrB>, x: &[FrB], y: &[FrB], seed: u64) -> Vec<(Vec<FrB>, Vec<FrB>)> {
    let (m, n) = (e.m(), e.n());
    let (zero, one) = (FrB::zero(), FrB::one());
    let gx = mixeds(seed + 1, m);
    let gy = mixeds(seed + 2, n);
    let bump = |v: &[FrB], q: usize| {
        let mut w = v.to_vec();
        w[q] += one;
        w
    };
    let cands: Vec<(Vec<FrB>, Vec<FrB>)> = vec![
        (vec![zero; m], vec![zero; n]),
        (gx.clone(), gy.clone()),
        (bump(x, seed as usize % m), y.to_vec()),
        (x.to_vec(), bump(y, seed as usize % n)),
        (vec![zero; m], gy),
        (gx, vec![zero; n]),
        (vec![one; m], vec![one; n]),
        (x.iter().map(|a| -*a).collect(), y.to_vec()),
    ];
    let mut out: Vec<(Vec<FrB>, Vec<FrB>)> = vec![];
    for (mut x2, mut y2) in cands {
        let gap = e.t - e.eval(&x2, &y2);
        if !gap.is_zero() {
            let cy: Vec<FrB> = (0..n).map(|j| e.a[j] + (0..m).map(|i| e.gamma[i][j] * x2[i]).sum::<FrB>()).collect();
            let cx: Vec<FrB> = (0..m).map(|i| e.b[i] + (0..n).map(|j| e.gamma[i][j] * y2[j]).sum::<FrB>()).collect();
            if let Some(j) = (0..n).rev().find(|j| !cy[*j].is_zero()) {
                y2[j] += gap / cy[j];
            } else if let Some(i) = (0..m).rev().find(|i| !cx[*i].is_zero()) {
                x2[i] += gap / cx[i];
            }
        }
        if e.sat(&x2, &y2) && (&x2[..], &y2[..]) != (x, y) && !out.contains(&(x2.clone(), y2.clone())) {
            out.push((x2, y2));
        }
    }
    out
}
/// Coefficients z with base + sum z_j * dirs_j = want, where dirs are affine increments.
fn solve(dirs: &[Vec<FrB>], gap: &[FrB]) -> Option<Vec<FrB>> {
    use ark_ff::Field;
    let (n, l) = (dirs.len(), gap.len());
    // one row per coordinate: coefficients of the unknowns, then the right-hand side
    let mut a: Vec<Vec<FrB>> = (0..l).map(|q| dirs.iter().map(|d| d[q]).chain([gap[q]]).collect()).collect();
    let mut pivot = vec![];
    let mut r = 0;
    for col in 0..n {
        let Some(p) = (r..l).find(|i| !a[*i][col].is_zero()) else { continue };
        a.swap(r, p);
        let inv = a[r][col].inverse().unwrap();
        a[r].iter_mut().for_each(|z| *z *= inv);
        let row = a[r].clone();
        for (i, w) in a.iter_mut().enumerate() {
            if i != r && !w[col].is_zero() {
                let f = w[col];
                for (z, p) in w.iter_mut().zip(&row) {
                    if !p.is_zero() {
                        *z -= f * p;
                    }
                }
            }
        }
        pivot.push(col);
        r += 1;
    }
    if a[r..].iter().any(|w| !w[n].is_zero()) {
        return None;
    }
    let mut z = vec![FrB::zero(); n];
    for (i, col) in pivot.iter().enumerate() {
        z[*col] = a[i][n];
    }
    Some(z)
}
type Pr = groth_sahai::prover::CProof<ToyB>;
/// The randomness with which another witness leads to the same commitments and proof.
/// Err: the library fails; Ok(Err(..)): there is none.
fn explain(b: &super::complete::Big, x2: &[FrB], y2: &[FrB], first: &Pf<FrB>, c: &mut Cnt) -> Result<Result<Pr, String>, String> {
    let kind = b.e.kind;
    let (lk, le) = (crs::<ToyB>(&b.k), leq::<ToyB>(&b.e));
    let (xv, yv) = (xvars::<ToyB>(kind.xs(), x2), yvars::<ToyB>(kind.ys(), y2));
    let (ncom, nd) = (ndraw_com(kind, b.e.m(), b.e.n()), ndraw(kind, b.e.m(), b.e.n()));
    let run = |r: &[FrB], c: &mut Cnt| -> Result<Pr, String> {
        c.st();
        c.tr(1);
        lib(|| le.commit_and_prove(&xv, &yv, &lk, &mut Stream::scalars(r, 99))).map_err(|m| format!("proving panics ({m}): {:?}", b.e))
    };
    let mut r = vec![FrB::zero(); nd];
    let sub = |a: &[FrB], b: &[FrB]| -> Vec<FrB> { a.iter().zip(b).map(|(a, b)| *a - b).collect() };
    // first the commitments, then the proof
    for (range, proofs) in [(0..ncom, false), (ncom..nd, true)] {
        let f0 = flat(&pf::<TB>(&run(&r, c)?), proofs);
        let mut dirs = vec![];
        for j in range.clone() {
            let mut s = r.clone();
            s[j] += FrB::one();
            dirs.push(sub(&flat(&pf::<TB>(&run(&s, c)?), proofs), &f0));
        }
        let want = flat(first, proofs);
        if want.len() != f0.len() {
            return Ok(Err("the number of published elements differs".into()));
        }
        match solve(&dirs, &sub(&want, &f0)) {
            None => return Ok(Err(format!("no randomness leads to these {}", if proofs { "proof elements" } else { "commitments" }))),
            Some(z) => r[range].copy_from_slice(&z),
        }
    }
    let p = run(&r, c)?;
    if pf::<TB>(&p) != *first {
        return Ok(Err(format!("the transcript is not linear in the prover's randomness at {r:?}")));
    }
    Ok(Ok(p))
}
/// The statements of the parts that compare two witnesses.
fn coupled_cases(t: Tier) -> (u64, String, impl Fn(u64) -> super::complete::Big) {
    let tb: Vec<(usize, usize, Vec<bool>)> = tables(t == Tier::Thorough).into_iter().filter(|(m, n, _)| m * n <= 9 && m + n < 8 || t == Tier::Thorough && m + n < 14).collect();
    let nt = tb.len() as u64;
    let ab = Absent::new();
    let shapes: Vec<(usize, usize)> = t.q(vec![(1, 4), (4, 1), (4, 4), (1, 9), (8, 1), (8, 8), (2, 9), (17, 1), (1, 33)], vec![(1, 4), (4, 1), (4, 4), (5, 6), (1, 9), (8, 1), (8, 8), (2, 9), (17, 1), (1, 33), (33, 1), (12, 9), (16, 16), (65, 1), (1, 65), (1, 129)]);
    let ns = shapes.len() as u64 * 4 * t.q(6, 12);
    let (n1, n2) = (nt * 4 * 4, ab.n());
    (n1 + n2 + ns, format!("{nt} patterns of zero coefficients in four variations, every choice of zero constants and variables up to 2x2, 3x1 and 1x3, {ns} larger statements"), move |i| {
        if i < n1 {
            let mut ix = Ix(i);
            let kind = Kind::of(ix.take(4));
            let (how, wit) = [(0, 0), (1, 0), (2, 1), (0, 2)][ix.take(4) as usize];
            let (m, n, k) = &tb[ix.0 as usize];
            return sparse_case(kind, *m, *n, k, how, wit, i + 1);
        }
        if i < n1 + n2 {
            return ab.at(i - n1);
        }
        let mut ix = Ix(i - n1 - n2);
        let kind = Kind::of(ix.take(4));
        let (m, n) = shapes[ix.take(shapes.len() as u64) as usize];
        let q = ix.0;
        let k: Vec<bool> = (0..m * n).map(|z| q % 3 != 1 && (q % 2 == 0 || (z * 7 + z / n * 3) % 5 < 2)).collect();
        sparse_case(kind, m, n, &k, q % 3, q % 4, i + 1)
    })
}
fn two_witnesses(t: Tier) -> Part {
    let (n, about, case) = coupled_cases(t);
    part("two-witnesses", &format!("BLS12-381-sized exponents, hiding keys, every type: {about}: for each other witness of the same equation (up to eight) there is randomness with which it leads to exactly the same commitments and proof"), n, move |i, c| {
        let b = case(i);
        let r: Vec<FrB> = (0..b.rnd.len()).map(|j| if i % 2 == 0 { edge(j * 3 + i as usize) } else { mixed(i, j) }).collect();
        let kind = b.e.kind;
        c.tr(1);
        let p = lib(|| leq::<ToyB>(&b.e).commit_and_prove(&xvars::<ToyB>(kind.xs(), &b.x), &yvars::<ToyB>(kind.ys(), &b.y), &crs::<ToyB>(&b.k), &mut Stream::scalars(&r, 99)))
            .map_err(|m| format!("proving panics ({m}): {:?}", b.e))?;
        let f = pf::<TB>(&p);
        for (x2, y2) in others(&b.e, &b.x, &b.y, i) {
            c.tag("pairs of witnesses");
            if let Err(m) = explain(&b, &x2, &y2, &f, c)? {
                return Err(format!("{kind:?} {}x{}: a transcript of one witness cannot come from another ({m}): key {:?} {:?} x {:?} y {:?} and x {x2:?} y {y2:?}", b.e.m(), b.e.n(), b.k, b.e, b.x, b.y));
            }
        }
        Ok(())
    })
    .need(&["pairs of witnesses"])
}
/// C18 at full size: runs with two witnesses whose public elements agree; the encodings may differ in the openings only.
fn coupled_bytes(t: Tier) -> Part {
    let (n, about, case) = coupled_cases(t);
    part("same-elements", &format!("BLS12-381-sized exponents, hiding keys, every type: {about}: runs with two witnesses of the same equation whose commitments and proof elements are the same; their encodings, compressed and not, are compared"), n, move |i, c| {
        let b = case(i);
        let r: Vec<FrB> = (0..b.rnd.len()).map(|j| if i % 2 == 0 { edge(j * 3 + i as usize) } else { mixed(i, j) }).collect();
        let (k, e, kind) = (&b.k, &b.e, b.e.kind);
        c.tr(1);
        let p = lib(|| leq::<ToyB>(e).commit_and_prove(&xvars::<ToyB>(kind.xs(), &b.x), &yvars::<ToyB>(kind.ys(), &b.y), &crs::<ToyB>(k), &mut Stream::scalars(&r, 99)))
            .map_err(|m| format!("proving panics ({m}): {:?}", b.e))?;
        let f = pf::<TB>(&p);
        for (x2, y2) in others(e, &b.x, &b.y, i).into_iter().take(if i % 16 == 0 { 8 } else { 3 }) {
            // whether there is such randomness is decided by C04
            let Ok(q) = explain(&b, &x2, &y2, &f, c)? else { continue };
            c.tag("pairs compared");
            for mode in [Compress::Yes, Compress::No] {
                let enc = |p: &Pr, x: &[FrB], y: &[FrB]| {
                    lib(|| {
                        let full = [ser(&p.xcoms, mode), ser(&p.ycoms, mode), ser(&p.equ_proofs[0], mode)];
                        (full, [strip1::<TB>(k, x, kind.xs(), &p.xcoms, mode), strip2::<TB>(k, y, kind.ys(), &p.ycoms, mode), stripp::<TB>(k, e, x, y, p, mode)])
                    })
                    .map_err(|m| format!("encoding panics ({m})"))
                };
                let ((f1, s1), (f2, s2)) = (enc(&p, &b.x, &b.y)?, enc(&q, &x2, &y2)?);
                for w in 0..3 {
                    if f1[w] == f2[w] {
                        continue;
                    }
                    let what = format!("the {} bytes depend on the witness: {kind:?} {}x{} key {k:?} {e:?} x {:?} y {:?} and x {x2:?} y {y2:?}", ["x-commitment", "y-commitment", "proof"][w], e.m(), e.n(), b.x, b.y);
                    if s1[w].0 != s2[w].0 {
                        return Err(format!("{what}, beyond the opening randomness"));
                    }
                    finding("C18", ["commit1-opening-randomness", "commit2-opening-randomness", "equproof-proof-randomness"][w], &what, c)?;
                    c.tag("opening randomness encoded");
                }
            }
        }
        Ok(())
    })
    .need(&["pairs compared"])
}
/// Every scalar of the catalogue as variable, coefficient, commitment randomness and proof randomness of a 1x1 proof: the proof is
/// affine in its own random scalars with independent directions, also at that scalar.
fn affine_scalars(t: Tier) -> Part {
    let cat = catalogue();
    let ns = t.q(cat.short, cat.all.len()) as u64;
    part(
        "scalars",
        &format!("BLS12-381-sized exponents, hiding keys, 1x1, every type: each of {ns} scalars (small, powers of two, digit patterns, quotients, roots, endomorphism eigenvalues) as variable, as coefficient, as commitment randomness and as each proof randomness: the proof is affine in its random scalars with independent directions"),
        4 * ns * 5,
        move |i, c| {
            let mut ix = Ix(i);
            let kind = Kind::of(ix.take(4));
            let place = ix.take(5);
            let s = cat.all[ix.0 as usize];
            let mut b = super::complete::big(kind, 1, 1, 600 + i % 97);
            b.k.u[1][1] -= b.k.g1;
            b.k.v[1][1] -= b.k.g2;
            let (nd, ncom) = (ndraw(kind, 1, 1), ndraw_com(kind, 1, 1));
            let mut fixed: Vec<FrB> = (0..nd).map(|j| mixed(i, j)).collect();
            match place {
                0 => b.x[0] = s,
                1 => b.y[0] = s,
                2 => {
                    b.e.a[0] = s;
                    b.e.b[0] = s;
                    b.e.gamma[0][0] = s;
                }
                3 => fixed[..ncom].fill(s),
                _ => {}
            }
            b.e.t = b.e.eval(&b.x, &b.y);
            let (lk, le) = (crs::<ToyB>(&b.k), leq::<ToyB>(&b.e));
            let (xv, yv) = (xvars::<ToyB>(kind.xs(), &b.x), yvars::<ToyB>(kind.ys(), &b.y));
            let mut run = |r: &[FrB]| -> Result<Vec<FrB>, String> {
                c.st();
                c.tr(1);
                let p = lib(|| le.commit_and_prove(&xv, &yv, &lk, &mut Stream::scalars(r, 99))).map_err(|m| format!("proving panics ({m}): {:?}", b.e))?;
                Ok(flat(&pf::<TB>(&p), true))
            };
            let mut zero = fixed.clone();
            zero[ncom..].fill(FrB::zero());
            let f0 = run(&zero)?;
            let mut dirs = vec![];
            for j in ncom..nd {
                let mut r = zero.clone();
                r[j] = FrB::one();
                dirs.push(run(&r)?.iter().zip(&f0).map(|(a, b)| *a - b).collect::<Vec<_>>());
            }
            if rank(&dirs) != dirs.len() {
                return Err(format!("{kind:?}: the proof depends on only {} of {} random scalars independently: scalar {s} as {place}, key {:?}", rank(&dirs), dirs.len(), b.k));
            }
            for j in ncom..nd {
                let mut r = fixed.clone();
                if place == 4 {
                    r[j] = s;
                } else if j > ncom {
                    break;
                }
                let f = run(&r)?;
                for q in 0..f.len() {
                    if f[q] != dirs.iter().enumerate().fold(f0[q], |w, (l, d)| w + d[q] * r[ncom + l]) {
                        return Err(format!("{kind:?}: the proof is not linear in the prover's randomness at {r:?} (scalar {s} as {place})"));
                    }
                }
            }
            Ok(())
        },
    )
}
fn flat(f: &Pf<FrB>, proofs: bool) -> Vec<FrB> {
    let mut v: Vec<FrB> = f.c.iter().chain(&f.d).flatten().copied().collect();
    if proofs {
        v.extend(f.pi.iter().chain(&f.th).flatten());
    }
    v
}
fn affine_case(b: &super::complete::Big, nd: usize, proofs: bool, trials: u64, seed: u64, c: &mut Cnt) -> Result<(), String> {
    let kind = b.e.kind;
    let (lk, le) = (crs::<ToyB>(&b.k), leq::<ToyB>(&b.e));
    let (xv, yv) = (xvars::<ToyB>(kind.xs(), &b.x), yvars::<ToyB>(kind.ys(), &b.y));
    let ncom = ndraw_com(kind, b.e.m(), b.e.n());
    let run = |r: &[FrB], c: &mut Cnt| -> Result<Vec<FrB>, String> {
        c.st();
        c.tr(1);
        let mut rng = Stream::scalars(r, 99);
        let p = lib(|| le.commit_and_prove(&xv, &yv, &lk, &mut rng)).map_err(|m| format!("proving panics ({m}): {:?}", b.e))?;
        Ok(flat(&pf::<TB>(&p), proofs))
    };
    // The commitment draws are fixed to some values while the proof draws vary, and conversely
    // (proof elements contain products of the two).
    let fixed: Vec<FrB> = (0..nd).map(|j| edge(j * 3 + seed as usize)).collect();
    let ranges: Vec<std::ops::Range<usize>> = if proofs { vec![ncom..nd] } else { vec![0..ncom] };
    for r in ranges {
        let zero: Vec<FrB> = (0..nd).map(|j| if r.contains(&j) { FrB::zero() } else { fixed[j] }).collect();
        let f0 = run(&zero, c)?;
        let mut dirs = vec![];
        for j in r.clone() {
            let mut s = zero.clone();
            s[j] = FrB::one();
            let f = run(&s, c)?;
            dirs.push(f.iter().zip(&f0).map(|(a, b)| *a - b).collect::<Vec<_>>());
        }
        if rank(&dirs) != dirs.len() {
            // Scalar commitments under one vector and group commitments under two: full rank is expected
            // because hiding key vectors are independent.
            return Err(format!("{kind:?} {}x{}: the transcript depends on only {} of {} random scalars independently: key {:?}", b.e.m(), b.e.n(), rank(&dirs), dirs.len(), b.k));
        }
        for trial in 20 - trials..20 {
            let s: Vec<FrB> = (0..nd).map(|j| if r.contains(&j) { if trial < 16 { edge((trial as usize) + j * (seed as usize % 3)) } else { mixed(seed * 31 + trial, j) } } else { fixed[j] }).collect();
            let f = run(&s, c)?;
            for q in 0..f.len() {
                let mut want = f0[q];
                for (d, j) in dirs.iter().zip(r.clone()) {
                    want += d[q] * s[j];
                }
                if want != f[q] {
                    return Err(format!("{kind:?} {}x{}: transcript is not linear in the prover's randomness at {s:?}", b.e.m(), b.e.n()));
                }
            }
        }
    }
    Ok(())
}
pub fn rank(rows: &[Vec<FrB>]) -> usize {
    use ark_ff::Field;
    let mut m: Vec<Vec<FrB>> = rows.to_vec();
    let mut r = 0;
    if m.is_empty() {
        return 0;
    }
    for col in 0..m[0].len() {
        if let Some(p) = (r..m.len()).find(|i| !m[*i][col].is_zero()) {
            m.swap(r, p);
            let inv = m[r][col].inverse().unwrap();
            for i in 0..m.len() {
                if i != r && !m[i][col].is_zero() {
                    let f = m[i][col] * inv;
                    for q in 0..m[r].len() {
                        let z = m[r][q] * f;
                        m[i][q] -= z;
                    }
                }
            }
            r += 1;
        }
    }
    r
}

// ---------------------------------------------------------------- C05
fn commit_codes<C: ToyCfg>(lk: &groth_sahai::CRS<Toy<C>>, second: bool, scalar: bool, batch: bool, vals: &[C::F], t: &mut Tree) -> Result<Vec<u64>, String> {
    let p = C::P;
    let enc = |z: P2<C::F>| small(&z[0]) * p + small(&z[1]);
    if second {
        let y = yvars::<Toy<C>>(scalar, vals);
        lib(|| -> Vec<_> {
            if batch {
                commit_y(&y, lk, t).coms
            } else {
                (0..vals.len()).flat_map(|i| commit_y1(&y, i, lk, t).coms).collect()
            }
        })
        .map(|v| v.iter().map(|c| enc(k2::<C>(c))).collect())
    } else {
        let x = xvars::<Toy<C>>(scalar, vals);
        lib(|| -> Vec<_> {
            if batch {
                commit_x(&x, lk, t).coms
            } else {
                (0..vals.len()).flat_map(|i| commit_x1(&x, i, lk, t).coms).collect()
            }
        })
        .map(|v| v.iter().map(|c| enc(k1::<C>(c))).collect())
    }
    .map_err(|m| format!("committing panics ({m}) on {vals:?}"))
}
fn hiding_part<C: ToyCfg>(l: usize, per: u64) -> Part {
    let p = C::P;
    let ns = nside(p);
    let nv = pw(p, l).min(per);
    part(
        &format!("lists-{l}-p{p}"),
        &format!("order {p}: every hiding key of one side, group and scalar, both sides, batch and single, lists of {l}: same distribution for {nv} of {} value lists, product of its marginals, over all randomness", pw(p, l)),
        ns * 8,
        move |i, c| {
            let mut ix = Ix(i);
            let (second, scalar, batch) = (ix.bit(), ix.bit(), ix.bit());
            let s = ix.take(ns);
            let o = (s * 5 + 7) % ns;
            let k = if second { key::<C::F>(o, s, p, true) } else { key::<C::F>(s, o, p, true) };
            let lk = crs::<Toy<C>>(&k);
            let mut first: Option<Dist<Vec<u64>>> = None;
            let all = pw(p, l);
            for vi in 0..nv {
                let vals = Ix(if nv == all { vi } else { (vi * 7919 + vi) % all }).fs::<C::F>(p, l);
                let d = dist(p, 40, &[], c, |t| commit_codes::<C>(&lk, second, scalar, batch, &vals, t))?;
                c.sample(|| format!("side {} scalar {scalar} batch {batch} values {vals:?}: {} distinct commitment lists, {} outcomes each", 1 + second as u8, d.len(), d.values().next().unwrap_or(&0)));
                let what = || format!("side {} scalar {scalar} batch {batch} key {k:?} values {vals:?}", 1 + second as u8);
                match &first {
                    None => {
                        // independence of the entries
                        let tot: u128 = d.values().sum();
                        let mut marg: Vec<HashMap<u64, u128>> = vec![HashMap::new(); l];
                        for (k, w) in &d {
                            if k.len() != l {
                                return Err(format!("{} commitments for {l} values: {}", k.len(), what()));
                            }
                            for (q, z) in k.iter().enumerate() {
                                *marg[q].entry(*z).or_default() += w;
                            }
                        }
                        let size: usize = marg.iter().map(|m| m.len()).product();
                        if d.len() != size || marg.iter().any(|m| !uniform(m)) || !uniform(&d) {
                            return Err(format!("entries of a list are not independent and uniform ({} combinations of {size}, total weight {tot}): {}", d.len(), what()));
                        }
                        if size == 1 {
                            return Err(format!("commitment is not randomised: {}", what()));
                        }
                        first = Some(d);
                    }
                    Some(f) => {
                        c.tag("distributions compared");
                        if *f != d {
                            return Err(format!("distribution depends on the committed values: {}", what()));
                        }
                    }
                }
            }
            Ok(())
        },
    )
    .need(&["distributions compared"])
}
/// X and Y commitments made from one random source are independent of each other.
fn both_sides() -> Part {
    part("both-sides", "order 3: commitments to X then Y from one random source, all four kinds: joint distribution is the same for all values and is the product", 4 * 36, move |i, c| {
        let mut ix = Ix(i);
        let (xs, ys) = (ix.bit(), ix.bit());
        let k = &keys::<T3>(&[ix.0 * 9 + 2])[0];
        let lk = crs::<E3>(k);
        let mut first: Option<Dist<Vec<u64>>> = None;
        for v in 0..9u64 {
            let (x, y) = ([F3::from(v % 3)], [F3::from(v / 3)]);
            let d = dist(3, 40, &[], c, |t| {
                let mut a = commit_codes::<T3>(&lk, false, xs, v % 2 == 0, &x, t)?;
                a.extend(commit_codes::<T3>(&lk, true, ys, v % 2 == 1, &y, t)?);
                Ok(a)
            })?;
            let n = |s: bool| if s { 3 } else { 9 };
            if d.len() != n(xs) * n(ys) || !uniform(&d) {
                return Err(format!("commitments on the two sides are not independent: key {k:?} x {x:?} y {y:?}: {} outcomes", d.len()));
            }
            match &first {
                None => first = Some(d),
                Some(f) => {
                    if *f != d {
                        return Err(format!("joint distribution depends on the values: key {k:?} x {x:?} y {y:?}"));
                    }
                }
            }
        }
        Ok(())
    })
}
pub fn commitments(t: Tier) -> Vec<Part> {
    let mut v = vec![
        hiding_part::<T3>(1, 3),
        hiding_part::<T3>(2, 9),
        hiding_part::<T3>(3, t.q(9, 27)),
        hiding_part::<T5>(1, 5),
        hiding_part::<T7>(1, 7),
        hiding_part::<T5>(2, t.q(4, 25)),
        both_sides(),
    ];
    if t == Tier::Thorough {
        v.push(hiding_part::<T3>(4, 12));
        v.push(hiding_part::<T7>(2, 7));
    }
    v.push(affine_part("full-size", false, t));
    v.extend(affine_sparse(false, t));
    let lens: Vec<usize> = t.q(vec![1, 2, 3, 5, 8, 16, 17, 33, 65, 129, 257], (1..=70).chain([127, 128, 129, 255, 256, 257, 511, 513, 1025]).collect());
    let nl = lens.len() as u64;
    v.push(part("long-lists", "BLS12-381-sized exponents, lists of many lengths: changing one random scalar changes exactly one entry, different entries never share randomness, values only shift the commitment", nl * 8, move |i, c| {
        let mut ix = Ix(i);
        let (second, scalar, batch) = (ix.bit(), ix.bit(), ix.bit());
        let l = lens[ix.0 as usize];
        let mut k = big_key(i + 900);
        k.u[1][1] -= k.g1;
        k.v[1][1] -= k.g2;
        let lk = crs::<ToyB>(&k);
        let per = if scalar { 1 } else { 2 };
        let run = |vals: &[FrB], r: &[FrB]| -> Result<Vec<P2<FrB>>, String> {
            let mut rng = Stream::scalars(r, 5);
            if second {
                let y = yvars::<ToyB>(scalar, vals);
                lib(|| -> Vec<_> { if batch { commit_y(&y, &lk, &mut rng).coms } else { (0..l).flat_map(|i| commit_y1(&y, i, &lk, &mut rng).coms).collect() } }).map(|v| v.iter().map(k2::<TB>).collect())
            } else {
                let x = xvars::<ToyB>(scalar, vals);
                lib(|| -> Vec<_> { if batch { commit_x(&x, &lk, &mut rng).coms } else { (0..l).flat_map(|i| commit_x1(&x, i, &lk, &mut rng).coms).collect() } }).map(|v| v.iter().map(k1::<TB>).collect())
            }
            .map_err(|m| format!("committing panics ({m})"))
        };
        let zero = vec![FrB::zero(); l];
        let r0 = mixeds(i, per * l);
        let f0 = run(&zero, &r0)?;
        let vals = mixeds(i + 1, l);
        let f1 = run(&vals, &r0)?;
        c.states += 2;
        c.tr(2);
        let ctx = || format!("side {} scalar {scalar} batch {batch} length {l}", 1 + second as u8);
        if f0.len() != l || f1.len() != l {
            return Err(format!("wrong number of commitments: {}", ctx()));
        }
        for j in 0..l {
            let w = if second { k.i2(scalar, vals[j]) } else { k.i1(scalar, vals[j]) };
            if f1[j][0] - f0[j][0] != w[0] || f1[j][1] - f0[j][1] != w[1] {
                return Err(format!("entry {j}: the value does more than shift the commitment: {}", ctx()));
            }
        }
        let mut owner: HashMap<usize, Vec<(usize, P2<FrB>)>> = HashMap::new();
        let stride = (per * l / 48).max(1);
        for q in (0..per * l).filter(|q| q % stride == 0 || *q + 4 >= per * l) {
            let mut r = r0.clone();
            r[q] += FrB::one();
            let f = run(&zero, &r)?;
            c.st();
            c.tr(1);
            let ch: Vec<usize> = (0..l).filter(|j| f[*j] != f0[*j]).collect();
            if ch.len() != 1 {
                return Err(format!("random scalar {q} influences entries {ch:?}: {}", ctx()));
            }
            owner.entry(ch[0]).or_default().push((q, [f[ch[0]][0] - f0[ch[0]][0], f[ch[0]][1] - f0[ch[0]][1]]));
        }
        for (j, o) in owner {
            if o.len() > per || (o.len() == 2 && o[0].1[0] * o[1].1[1] == o[0].1[1] * o[1].1[0]) {
                return Err(format!("entry {j} gets its randomness from scalars {:?} in dependent directions: {}", o.iter().map(|x| x.0).collect::<Vec<_>>(), ctx()));
            }
        }
        Ok(())
    }));
    let cat = &catalogue().all;
    let nc = cat.len() as u64;
    v.push(part("scalars", &format!("BLS12-381-sized exponents, hiding keys: each of {nc} scalars (small, one or two powers of two, digit patterns, quotients, roots, endomorphism eigenvalues) as committed value and as random scalar: the commitment is the embedded value plus the random combination of the key vectors, whichever scalar is drawn for which vector"), nc * 3, move |i, c| {
        let mut ix = Ix(i);
        let s = cat[ix.take(nc) as usize];
        let mut k = big_key(i % 5 + 900);
        k.u[1][1] -= k.g1;
        k.v[1][1] -= k.g2;
        let lk = crs::<ToyB>(&k);
        let (val, r) = match ix.0 {
            0 => (s, [mixed(i, 0), mixed(i, 1)]),
            1 => (mixed(i, 0), [s, mixed(i, 1)]),
            _ => (mixed(i, 0), [mixed(i, 1), s]),
        };
        for m in 0..8 {
            let (second, scalar, batch) = (m & 1 == 1, m & 2 == 2, m & 4 == 4);
            if scalar && ix.0 == 2 {
                continue;
            }
            let mut rng = Stream::scalars(&r, 5);
            let got: Vec<P2<FrB>> = if second {
                let y = yvars::<ToyB>(scalar, &[val]);
                lib(|| if batch { commit_y(&y, &lk, &mut rng) } else { commit_y1(&y, 0, &lk, &mut rng) }).map(|v| v.coms.iter().map(k2::<TB>).collect())
            } else {
                let x = xvars::<ToyB>(scalar, &[val]);
                lib(|| if batch { commit_x(&x, &lk, &mut rng) } else { commit_x1(&x, 0, &lk, &mut rng) }).map(|v| v.coms.iter().map(k1::<TB>).collect())
            }
            .map_err(|m| format!("committing panics ({m})"))?;
            c.st();
            c.tr(1);
            let w = |r: &[FrB]| if second { k.com2(scalar, val, r) } else { k.com1(scalar, val, r) };
            let ok = got.len() == 1 && if scalar { got[0] == w(&r[..1]) } else { got[0] == w(&r) || got[0] == w(&[r[1], r[0]]) };
            if !ok {
                return Err(format!("commitment to {val} with random scalars {r:?} is {got:?}, not blinded by them: side {} scalar {scalar} batch {batch} key {k:?}", 1 + second as u8));
            }
        }
        Ok(())
    }));
    v.push(super::complete::bls_traces(t.q(7, 60), true));
    v
}

// ---------------------------------------------------------------- C18
/// Split `bytes` = head ++ matrix; returns the matrix entries if the rest is exactly an encoded matrix.
fn tail_matrix<C: ToyCfg>(head: &[u8], bytes: &[u8], mode: Compress) -> Option<Vec<Vec<C::F>>> {
    use ark_serialize::{CanonicalDeserialize, Validate};
    let rest = bytes.strip_prefix(head)?;
    let mut r = rest;
    let m = Vec::<Vec<C::F>>::deserialize_with_mode(&mut r, mode, Validate::Yes).ok()?;
    if r.is_empty() {
        Some(m)
    } else {
        None
    }
}
/// (what is encoded, whether the opening randomness was stripped from its end)
fn strip1<C: ToyCfg>(k: &Key<C::F>, x: &[C::F], scalar: bool, cm: &Commit1<Toy<C>>, mode: Compress) -> (Vec<u8>, bool) {
    let b = ser(cm, mode);
    let h = ser(&cm.coms, mode);
    if let Some(m) = tail_matrix::<C>(&h, &b, mode) {
        if m.len() == x.len() && m.iter().zip(x).zip(&cm.coms).all(|((r, x), c)| r.len() == if scalar { 1 } else { 2 } && k.com1(scalar, *x, r) == k1::<C>(c)) {
            return (h, true);
        }
    }
    (b, false)
}
fn strip2<C: ToyCfg>(k: &Key<C::F>, y: &[C::F], scalar: bool, cm: &Commit2<Toy<C>>, mode: Compress) -> (Vec<u8>, bool) {
    let b = ser(cm, mode);
    let h = ser(&cm.coms, mode);
    if let Some(m) = tail_matrix::<C>(&h, &b, mode) {
        if m.len() == y.len() && m.iter().zip(y).zip(&cm.coms).all(|((r, y), c)| r.len() == if scalar { 1 } else { 2 } && k.com2(scalar, *y, r) == k2::<C>(c)) {
            return (h, true);
        }
    }
    (b, false)
}
fn stripp<C: ToyCfg>(k: &Key<C::F>, e: &Eqn<C::F>, x: &[C::F], y: &[C::F], p: &CProof<Toy<C>>, mode: Compress) -> (Vec<u8>, bool) {
    let q = &p.equ_proofs[0];
    let b = ser(q, mode);
    let mut h = ser(&q.pi, mode);
    h.extend(ser(&q.theta, mode));
    h.push(e.kind.tag());
    if let Some(t) = tail_matrix::<C>(&h, &b, mode) {
        // the commitment randomness, from the commitments' own bytes
        let r = tail_matrix::<C>(&ser(&p.xcoms.coms, mode), &ser(&p.xcoms, mode), mode);
        let s = tail_matrix::<C>(&ser(&p.ycoms.coms, mode), &ser(&p.ycoms, mode), mode);
        let shape = t.len() == e.kind.ntheta() && t.iter().all(|r| r.len() == e.kind.npi());
        if let (true, Some(r), Some(s)) = (shape, r, s) {
            let f = pf::<C>(p);
            if prove(k, e, x, y, &r, &s, &t) == (f.pi, f.th) {
                return (h, true);
            }
        }
    }
    (b, false)
}
type D3 = [Dist<Vec<u8>>; 2];
fn bytes_part<C: ToyCfg>(kind: Kind, m: usize, n: usize, ks: Vec<Key<C::F>>, coefs: Vec<Vec<C::F>>, per: usize, joint_bytes: bool) -> Part {
    let p = C::P;
    let (nk, nc) = (ks.len() as u64, coefs.len() as u64);
    part(
        &format!("{kind:?}-{m}x{n}-p{p}{}", if joint_bytes { "-joint" } else { "" }),
        &format!("order {p}, {m}x{n} variables, {nk} hiding keys x {nc} coefficient vectors, compressed and uncompressed: exact distribution of the encodings {} for satisfying witnesses of every target over all randomness", if joint_bytes { "of commitments and proof together" } else { "of X commitments, Y commitments and proof" }),
        nk * nc * 2,
        move |i, c| {
            let mut ix = Ix(i);
            let mode = if ix.bit() { Compress::No } else { Compress::Yes };
            let k = &ks[ix.take(nk) as usize];
            let co = &coefs[ix.take(nc) as usize];
            let lk = crs::<Toy<C>>(k);
            for (e, ws) in groups::<C>(kind, m, n, co, per) {
                let le = leq::<Toy<C>>(&e);
                // for each object: full bytes and bytes without opening randomness
                let mut first: Option<Vec<D3>> = None;
                let mut leak = [0u64; 3];
                for (x, y) in ws {
                    let (xv, yv) = (xvars::<Toy<C>>(kind.xs(), &x), yvars::<Toy<C>>(kind.ys(), &y));
                    let mut ds: Vec<D3> = (0..3).map(|_| [HashMap::new(), HashMap::new()]).collect();
                    let max = 40usize;
                    let mut t = Tree::new(p);
                    let runs = run_tree(&mut t, |t| {
                        let pr = lib(|| le.commit_and_prove(&xv, &yv, &lk, t)).map_err(|m| format!("proving panics ({m})"))?;
                        let w = (p as u128).pow((max - t.drawn()) as u32);
                        let full = lib(|| [ser(&pr.xcoms, mode), ser(&pr.ycoms, mode), ser(&pr.equ_proofs[0], mode)]).map_err(|m| format!("encoding panics ({m})"))?;
                        let st = [strip1::<C>(k, &x, kind.xs(), &pr.xcoms, mode), strip2::<C>(k, &y, kind.ys(), &pr.ycoms, mode), stripp::<C>(k, &e, &x, &y, &pr, mode)];
                        for q in 0..3 {
                            leak[q] += st[q].1 as u64;
                        }
                        if joint_bytes {
                            *ds[0][0].entry(full.concat()).or_default() += w;
                            *ds[0][1].entry(st.iter().flat_map(|s| s.0.clone()).collect()).or_default() += w;
                        } else {
                            for q in 0..3 {
                                *ds[q][0].entry(full[q].clone()).or_default() += w;
                                *ds[q][1].entry(st[q].0.clone()).or_default() += w;
                            }
                        }
                        Ok(())
                    })?;
                    c.states += runs;
                    c.tr(3 * runs);
                    c.sample(|| format!("{e:?} x {x:?} y {y:?}: {} distinct encodings over {runs} random draws", ds[0][0].len()));
                    match &first {
                        None => first = Some(ds),
                        Some(f) => {
                            c.tag("pairs compared");
                            for q in 0..if joint_bytes { 1 } else { 3 } {
                                let names = ["x-commitment", "y-commitment", "proof"];
                                let name = if joint_bytes { "transcript" } else { names[q] };
                                if f[q][0] == ds[q][0] {
                                    continue;
                                }
                                let what = format!("the {name} bytes depend on the witness: {kind:?} key {k:?} {e:?} x {x:?} y {y:?}");
                                if f[q][1] != ds[q][1] {
                                    return Err(format!("{what}, beyond the opening randomness"));
                                }
                                // only the opening randomness tells them apart
                                for r in 0..3 {
                                    if leak[r] > 0 && (joint_bytes || r == q) {
                                        finding("C18", ["commit1-opening-randomness", "commit2-opening-randomness", "equproof-proof-randomness"][r], &what, c)?;
                                        c.tag("opening randomness encoded");
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    )
    .need(&["pairs compared"])
}
pub fn bytes(t: Tier) -> Vec<Part> {
    use Kind::*;
    let mut v = vec![];
    let ks = |n: u64| keys::<T3>(&(0..n).map(|i| 23 + i * 77).collect::<Vec<_>>());
    for kind in [M1, M2, Quad] {
        v.push(bytes_part::<T3>(kind, 1, 1, ks(t.q(2, 12)), coefs_all(3, 3), 0, false));
        v.push(bytes_part::<T3>(kind, 1, 1, ks(t.q(1, 6)), coefs_all(3, 3), 0, true));
    }
    v.push(bytes_part::<T3>(Ppe, 1, 1, ks(1), coefs_some(3, 3, t.q(6, 27)), t.q(2, 0), false));
    v.push(bytes_part::<T3>(Ppe, 1, 1, ks(1), coefs_some(3, 3, t.q(4, 20)), t.q(2, 3), true));
    v.push(bytes_part::<T5>(Quad, 1, 1, keys::<T5>(&[17]), coefs_some(5, 3, t.q(10, 80)), 0, true));
    for (m, n) in [(1, 2), (2, 1), (2, 2)] {
        v.push(bytes_part::<T3>(Quad, m, n, ks(1), coefs_some(3, ncoef(m, n), t.q(4, 20)), t.q(4, 0), true));
        if m * n < 4 {
            v.push(bytes_part::<T3>(M1, m, n, ks(1), coefs_some(3, ncoef(m, n), t.q(2, 12)), t.q(2, 5), true));
            v.push(bytes_part::<T3>(M2, m, n, ks(1), coefs_some(3, ncoef(m, n), t.q(2, 12)), t.q(2, 5), true));
        }
    }
    v.push(coupled_bytes(t));
    v.push(super::complete::bls_traces(t.q(7, 60), true));
    v
}

// ---------------------------------------------------------------- C19
/// Number and set of proofs the reference accepts for given commitments.
fn accepted<C: ToyCfg>(k: &Key<C::F>, e: &Eqn<C::F>, f: &Pf<C::F>) -> u64 {
    // The relation is linear in (pi, theta); count solutions by enumeration.
    let p = C::P;
    let n = 2 * (e.kind.npi() + e.kind.ntheta());
    let mut g = f.clone();
    (0..pw(p, n))
        .filter(|z| {
            let mut iz = Ix(*z);
            g.pi = iz.p2s(p, e.kind.npi());
            g.th = iz.p2s(p, e.kind.ntheta());
            verify(k, e, &g)
        })
        .count() as u64
}
/// commit_and_prove over all randomness: given the commitments, the proof is uniform over all accepted
/// ones.
fn conditional<C: ToyCfg>(kind: Kind, m: usize, n: usize, ks: Vec<Key<C::F>>, coefs: Vec<Vec<C::F>>, per: usize) -> Part {
    let p = C::P;
    let (nk, nc) = (ks.len() as u64, coefs.len() as u64);
    part(
        &format!("{kind:?}-{m}x{n}-p{p}"),
        &format!("order {p}, {m}x{n} variables, {nk} hiding keys x {nc} coefficient vectors x satisfying witnesses: for every outcome of the commitments, the proof is uniform over all proofs the relation accepts"),
        nk * nc,
        move |i, c| {
            let mut ix = Ix(i);
            let k = &ks[ix.take(nk) as usize];
            let co = &coefs[ix.take(nc) as usize];
            let lk = crs::<Toy<C>>(k);
            let mut size: Option<u64> = None;
            for (e, ws) in groups::<C>(kind, m, n, co, per) {
                let le = leq::<Toy<C>>(&e);
                for (x, y) in ws {
                    let (xv, yv) = (xvars::<Toy<C>>(kind.xs(), &x), yvars::<Toy<C>>(kind.ys(), &y));
                    let mut by: HashMap<u128, Dist<u128>> = HashMap::new();
                    let mut one: Option<Pf<C::F>> = None;
                    let mut t = Tree::new(p);
                    let runs = run_tree(&mut t, |t| {
                        let pr = lib(|| le.commit_and_prove(&xv, &yv, &lk, t)).map_err(|m| format!("proving panics ({m}): key {k:?} {e:?} x {x:?} y {y:?}"))?;
                        let w = (p as u128).pow((40 - t.drawn()) as u32);
                        let f = pf::<C>(&pr);
                        if !verify(k, &e, &f) {
                            return Err(format!("honest proof does not satisfy the relation: key {k:?} {e:?} x {x:?} y {y:?}"));
                        }
                        let (mut a, mut b) = (1, 1);
                        for z in f.c.iter().chain(&f.d) {
                            push::<C>(&mut a, *z);
                        }
                        for z in f.pi.iter().chain(&f.th) {
                            push::<C>(&mut b, *z);
                        }
                        *by.entry(a).or_default().entry(b).or_default() += w;
                        one.get_or_insert(f);
                        Ok(())
                    })?;
                    c.states += runs;
                    c.tr(runs);
                    let want = *size.get_or_insert_with(|| accepted::<C>(k, &e, one.as_ref().unwrap()));
                    c.tag("conditional distributions");
                    c.sample(|| format!("{e:?} x {x:?} y {y:?}: {} commitment outcomes, {want} accepted proofs for each, all occur", by.len()));
                    for d in by.values() {
                        if d.len() as u64 != want || !uniform(d) {
                            return Err(format!("the proof is not uniform over the {want} accepted proofs ({} occur): key {k:?} {e:?} x {x:?} y {y:?}", d.len()));
                        }
                    }
                }
            }
            Ok(())
        },
    )
    .need(&["conditional distributions"])
}
/// Two proofs one after another about the same commitments: joint distribution is the product.
fn two_proofs(k1_: Kind, k2_: Kind, cfgs: u64) -> Part {
    let p = 3;
    part(
        &format!("two-{k1_:?}-{k2_:?}"),
        "order 3: two proofs one after another from one random source, commitments fixed: every pair of accepted proofs occurs equally often",
        cfgs,
        move |i, c| {
            let mut ix = Ix(i);
            let k = &keys::<T3>(&[ix.take(18) * 19 + 3])[0];
            let lk = crs::<E3>(k);
            let v: Vec<F3> = (0..4).map(|q| F3::from((i + q * q + 1) % 3)).collect();
            let xs = [xvars::<E3>(false, &v[0..1]), xvars::<E3>(true, &v[1..2])];
            let ys = [yvars::<E3>(false, &v[2..3]), yvars::<E3>(true, &v[3..4])];
            let mk = |kind: Kind, s: u64| {
                let co = coefs_some::<F3>(p, 3, 8)[(s % 8) as usize].clone();
                eqn_for(kind, 1, 1, &co, &[v[kind.xs() as usize]], &[v[2 + kind.ys() as usize]])
            };
            let es = [mk(k1_, i), if i % 3 == 0 && k1_ == k2_ { mk(k2_, i) } else { mk(k2_, i + 3) }];
            let les: Vec<_> = es.iter().map(leq::<E3>).collect();
            let mut s = Stream::seeded(i + 5);
            let (cx, cy) = lib(|| ([commit_x(&xs[0], &lk, &mut s), commit_x(&xs[1], &lk, &mut s)], [commit_y(&ys[0], &lk, &mut s), commit_y(&ys[1], &lk, &mut s)])).map_err(|m| format!("panic ({m})"))?;
            let d = dist(p, 40, &[], c, |t| {
                let mut a = [1u128, 1];
                lib(|| {
                    for (q, e) in es.iter().enumerate() {
                        let (qx, qy) = (e.kind.xs() as usize, e.kind.ys() as usize);
                        let pr = les[q].prove(&xs[qx], &ys[qy], &cx[qx], &cy[qy], &lk, t);
                        for z in &pr.pi {
                            push::<T3>(&mut a[q], k2::<T3>(z));
                        }
                        for z in &pr.theta {
                            push::<T3>(&mut a[q], k1::<T3>(z));
                        }
                    }
                })
                .map_err(|m| format!("proving panics ({m}): key {k:?} {es:?}"))?;
                Ok((a[0], a[1]))
            })?;
            let n = |kd: Kind| pw(p, kd.npi() * kd.ntheta());
            c.tag("pairs of proofs");
            if d.len() as u64 != n(k1_) * n(k2_) || !uniform(&d) {
                return Err(format!("two proofs are correlated: {} pairs of {} occur: key {k:?} {es:?}", d.len(), n(k1_) * n(k2_)));
            }
            Ok(())
        },
    )
    .need(&["pairs of proofs"])
}
pub fn fresh(t: Tier) -> Vec<Part> {
    use Kind::*;
    let mut v = vec![];
    let ks = |n: u64| keys::<T3>(&(0..n).map(|i| 23 + i * 77).collect::<Vec<_>>());
    for kind in [M1, M2] {
        v.push(conditional::<T3>(kind, 1, 1, ks(t.q(8, 324)), coefs_all(3, 3), 0));
    }
    v.push(conditional::<T3>(Quad, 1, 1, ks(t.q(100, 324)), coefs_all(3, 3), 0));
    v.push(conditional::<T3>(Ppe, 1, 1, ks(t.q(1, 8)), coefs_all(3, 3), t.q(3, 0)));
    v.push(conditional::<T5>(Quad, 1, 1, keys::<T5>(&[17, 1003]), coefs_all(5, 3), 0));
    v.push(conditional::<T7>(Quad, 1, 1, keys::<T7>(&[17]), coefs_some(7, 3, t.q(8, 60)), 0));
    v.push(conditional::<T5>(M1, 1, 1, keys::<T5>(&[17]), coefs_some(5, 3, t.q(4, 60)), t.q(2, 0)));
    v.push(conditional::<T5>(M2, 1, 1, keys::<T5>(&[17]), coefs_some(5, 3, t.q(4, 60)), t.q(2, 0)));
    for (m, n) in [(1, 2), (2, 1), (2, 2)] {
        v.push(conditional::<T3>(Quad, m, n, ks(t.q(1, 6)), coefs_dev(3, ncoef(m, n), 1), 0));
        for kind in [M1, M2] {
            v.push(conditional::<T3>(kind, m, n, ks(1), coefs_some(3, ncoef(m, n), t.q(4, 20)), t.q(2, 6)));
        }
        if m * n < 4 {
            v.push(conditional::<T3>(Ppe, m, n, ks(1), coefs_some(3, ncoef(m, n), t.q(2, 12)), t.q(2, 3)));
        }
    }
    for a in KINDS {
        for b in KINDS {
            v.push(two_proofs(a, b, t.q(36, 360)));
        }
    }
    v.push(affine_part("full-size", true, t));
    v.extend(affine_sparse(true, t));
    v.push(affine_scalars(t));
    v.push(super::complete::bls_traces(t.q(7, 60), true));
    v
}
