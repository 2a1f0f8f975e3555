//! C06 (binding) and C08 (batch, single and appended commitments).
use super::*;
use ark_serialize::Compress;
use groth_sahai::prover::*;

/// Commitment by one of the eight operations; `which`: 0 group, 1 scalar; side 1/2.
fn opened<N: Eng>(k: &Key<N::S>, second: bool, scalar: bool, batch: bool, vals: &[N::S], rng: &mut impl ark_std::rand::Rng) -> Result<Vec<P2<N::S>>, String>
where
    A1<N>: Exp<N::S>,
    A2<N>: Exp<N::S>,
{
    let lk = crs::<N>(k);
    let r = if second {
        let y = yvars::<N>(scalar, vals);
        lib(|| if batch { commit_y(&y, &lk, rng).coms } else { (0..vals.len()).flat_map(|i| commit_y1(&y, i, &lk, rng).coms).collect() })
            .map(|c: Vec<groth_sahai::Com2<N::E>>| c.iter().map(|c| [c.0.exp(), c.1.exp()]).collect())
    } else {
        let x = xvars::<N>(scalar, vals);
        lib(|| if batch { commit_x(&x, &lk, rng).coms } else { (0..vals.len()).flat_map(|i| commit_x1(&x, i, &lk, rng).coms).collect() })
            .map(|c: Vec<groth_sahai::Com1<N::E>>| c.iter().map(|c| [c.0.exp(), c.1.exp()]).collect())
    };
    r.map_err(|m| format!("committing panics ({m}): key {k:?} values {vals:?}"))
}
pub trait Exp<S> {
    fn exp(&self) -> S;
}
impl<C: ToyCfg, const S: u8> Exp<C::F> for G<C, S> {
    fn exp(&self) -> C::F {
        self.k
    }
}
fn open<F: PrimeField>(k: &Key<F>, second: bool, scalar: bool, c: P2<F>) -> F {
    if second {
        k.open2(scalar, c)
    } else {
        k.open1(scalar, c)
    }
}

fn all_openings<C: ToyCfg>(name: &str, len: usize) -> Part {
    let p = C::P;
    let ns = nside(p);
    part(
        name,
        &format!("order {p}: every generated key of one side, every list of {len} values, group and scalar, both sides, single and batch, all randomness: the trapdoor opens each commitment to its value"),
        ns * 8 * pw(p, len),
        move |i, c| {
            let mut ix = Ix(i);
            let (second, scalar, batch) = (ix.bit(), ix.bit(), ix.bit());
            let vals = ix.fs::<C::F>(p, len);
            let s = ix.take(ns);
            let o = (s * 7 + 3) % ns;
            let k = if second { key::<C::F>(o, s, p, false) } else { key::<C::F>(s, o, p, false) };
            let mut t = Tree::new(p);
            let n = run_tree(&mut t, |t| {
                let cs = opened::<Toy<C>>(&k, second, scalar, batch, &vals, t)?;
                let got: Vec<C::F> = cs.iter().map(|c| open(&k, second, scalar, *c)).collect();
                if got != vals {
                    return Err(format!("commitments {cs:?} to {vals:?} open to {got:?}: side {} scalar {scalar} batch {batch} key {k:?} randomness {:?}", 1 + second as u8, t.ch));
                }
                Ok(())
            })?;
            c.states += n;
            c.tr(n);
            c.sample(|| format!("key {k:?} values {vals:?}: {n} randomness choices"));
            Ok(())
        },
    )
}

/// The committed key as generated by the library itself.
fn generated_keys<C: ToyCfg>(draws: usize) -> Part {
    let p = C::P;
    part(
        &format!("generated-p{p}"),
        &format!("order {p}: keys produced by generate_crs for every outcome of the random source (first {draws} draws enumerated), commitments to every value open to it and commitments to distinct values differ"),
        pw(p, draws),
        move |i, c| {
            let mut ix = Ix(i);
            let pre: Vec<u8> = (0..draws).map(|_| ix.take(p) as u8).collect();
            let mut t = Tree::with_prefix(p, &pre);
            let k = lib(|| <groth_sahai::CRS<Toy<C>> as groth_sahai::AbstractCrs<Toy<C>>>::generate_crs(&mut t)).map_err(|m| format!("generate_crs panics ({m})"))?;
            let key = Key { u: [k1::<C>(&k.u[0]), k1::<C>(&k.u[1])], v: [k2::<C>(&k.v[0]), k2::<C>(&k.v[1])], g1: k.g1_gen.k, g2: k.g2_gen.k, gt: C::F::one() };
            if key.g1.is_zero() || key.g2.is_zero() {
                c.tag("identity generator");
                return Ok(());
            }
            c.tag("key");
            if key.u[0][0].is_zero() || key.v[0][0].is_zero() {
                return Err(format!("generated key is not binding: {key:?}"));
            }
            for m in 0..4 {
                let (second, scalar) = (m & 1 == 1, m & 2 == 2);
                for a in 0..p {
                    for r in 0..pw(p, 2) {
                        let pre = [(r % p) as u8, (r / p) as u8];
                        let mut t = Tree::with_prefix(p, &pre);
                        let cs = opened::<Toy<C>>(&key, second, scalar, r % 2 == 0, &[C::F::from(a)], &mut t)?;
                        c.st();
                        c.tr(1);
                        if cs.len() != 1 || open(&key, second, scalar, cs[0]) != C::F::from(a) {
                            return Err(format!("commitment {cs:?} to {a} opens to another value: side {} scalar {scalar} key {key:?}", 1 + second as u8));
                        }
                    }
                }
            }
            Ok(())
        },
    )
    .need(&["key"])
}

pub fn binding(t: Tier) -> Vec<Part> {
    let mut v = vec![
        all_openings::<T3>("openings-1-p3", 1),
        all_openings::<T3>("openings-2-p3", 2),
        all_openings::<T3>("openings-3-p3", 3),
        all_openings::<T5>("openings-1-p5", 1),
        all_openings::<T7>("openings-1-p7", 1),
        generated_keys::<T3>(6),
        generated_keys::<T5>(6),
    ];
    if t == Tier::Thorough {
        v.push(all_openings::<T5>("openings-2-p5", 2));
        v.push(all_openings::<T7>("openings-2-p7", 2));
        v.push(all_openings::<T3>("openings-4-p3", 4));
        v.push(generated_keys::<T7>(6));
    }
    let lens: Vec<usize> = t.q((1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 600]).collect(), (1..=600).chain([1000, 1023, 1024, 1025, 2048, 4096, 4097]).collect());
    let nl = lens.len() as u64;
    v.push(part("openings-big", "BLS12-381-sized exponents: boundary values and randomness, lists of many lengths", nl * 8 * t.q(2, 6), move |i, c| {
        let mut ix = Ix(i);
        let (second, scalar, batch) = (ix.bit(), ix.bit(), ix.bit());
        let l = lens[ix.take(nl) as usize];
        let vals = mixeds(i + 5, l);
        let k = big_key(i + 3);
        let mut rng = Stream::scalars(&mixeds(i + 11, 2 * l), 1);
        let cs = opened::<ToyB>(&k, second, scalar, batch, &vals, &mut rng)?;
        let got: Vec<FrB> = cs.iter().map(|c| open(&k, second, scalar, *c)).collect();
        if got != vals {
            let at = (0..l).find(|j| got.get(*j) != vals.get(*j));
            return Err(format!("{} commitments, first wrong opening at {at:?}: side {} scalar {scalar} batch {batch} length {l}", cs.len(), 1 + second as u8));
        }
        c.st();
        c.tr(1);
        Ok(())
    }));
    v.push(part("openings-edge", "BLS12-381-sized exponents: every pair of boundary value and boundary randomness", 256 * 8, move |i, c| {
        let mut ix = Ix(i);
        let (second, scalar, batch) = (ix.bit(), ix.bit(), ix.bit());
        let vals = vec![edge(ix.take(16) as usize)];
        let r = edge(ix.take(16) as usize);
        let k = big_key(i % 5);
        let mut rng = Stream::scalars(&[r, r], 1);
        let cs = opened::<ToyB>(&k, second, scalar, batch, &vals, &mut rng)?;
        if cs.len() != 1 || open(&k, second, scalar, cs[0]) != vals[0] {
            return Err(format!("commitment {cs:?} to {vals:?} opens to another value: side {} scalar {scalar} batch {batch} key {k:?}", 1 + second as u8));
        }
        c.st();
        c.tr(1);
        Ok(())
    }));
    let cat = &catalogue().all;
    let nc = cat.len() as u64;
    v.push(part("openings-scalars", &format!("BLS12-381-sized exponents: each of {nc} scalars (small, one or two powers of two, digit patterns, quotients, roots, endomorphism eigenvalues) as value and as either randomness"), nc * 3, move |i, c| {
        let mut ix = Ix(i);
        let s = cat[ix.take(nc) as usize];
        let (val, r) = match ix.0 {
            0 => (s, [mixed(i, 0), mixed(i, 1)]),
            1 => (mixed(i, 0), [s, mixed(i, 1)]),
            _ => (mixed(i, 0), [mixed(i, 1), s]),
        };
        let k = big_key(i % 5);
        for m in 0..8 {
            let (second, scalar, batch) = (m & 1 == 1, m & 2 == 2, m & 4 == 4);
            if scalar && ix.0 == 2 {
                continue;
            }
            let cs = opened::<ToyB>(&k, second, scalar, batch, &[val], &mut Stream::scalars(&r, 1))?;
            if cs.len() != 1 || open(&k, second, scalar, cs[0]) != val {
                return Err(format!("commitment {cs:?} to {val} with randomness {r:?} opens to another value: side {} scalar {scalar} batch {batch} key {k:?}", 1 + second as u8));
            }
            c.st();
            c.tr(1);
        }
        Ok(())
    }));
    let nb = t.q(12, 60);
    v.push(part("bls", "the same traces on BLS12-381 and on the exponent group give the same commitments", nb * 8, move |i, c| {
        let mut ix = Ix(i);
        let (second, scalar, batch) = (ix.bit(), ix.bit(), ix.bit());
        let l = 1 + (ix.0 % 4) as usize;
        let vals = if ix.0 % 4 == 3 { vec![edge(ix.0 as usize); l] } else { mixeds(i + 5, l) };
        let k = big_key(i + 3);
        let rnd = mixeds(i + 11, 2 * l);
        let cs = opened::<ToyB>(&k, second, scalar, batch, &vals, &mut Stream::scalars(&rnd, 1))?;
        let mut rng = Stream::scalars(&rnd, 1);
        let lk = crs::<Bls>(&k);
        let ok = if second {
            let y = yvars::<Bls>(scalar, &vals);
            let cb: Vec<_> = lib(|| if batch { commit_y(&y, &lk, &mut rng).coms } else { (0..l).flat_map(|i| commit_y1(&y, i, &lk, &mut rng).coms).collect() }).map_err(|m| format!("panic {m}"))?;
            eqs2::<Bls>(&cb, &cs)
        } else {
            let x = xvars::<Bls>(scalar, &vals);
            let cb: Vec<_> = lib(|| if batch { commit_x(&x, &lk, &mut rng).coms } else { (0..l).flat_map(|i| commit_x1(&x, i, &lk, &mut rng).coms).collect() }).map_err(|m| format!("panic {m}"))?;
            eqs1::<Bls>(&cb, &cs)
        };
        c.st();
        c.tr(2);
        c.conf += 1;
        let got: Vec<FrB> = cs.iter().map(|c| open(&k, second, scalar, *c)).collect();
        if !ok || got != vals {
            return Err(format!("BLS12-381 commitments differ from the exponent group: side {} scalar {scalar} batch {batch} key {k:?} values {vals:?}", 1 + second as u8));
        }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C08

/// Ways to commit to a list of `l` values: a composition of l into blocks, each block by batch or by
/// singles, and the order in which the pieces are appended (fold left, fold right, or pairwise).
fn composition(l: usize, mask: u64) -> Vec<std::ops::Range<usize>> {
    let mut v = vec![];
    let mut a = 0;
    for i in 1..=l {
        if i == l || mask.checked_shr(i as u32 - 1).unwrap_or(0) & 1 == 1 {
            v.push(a..i);
            a = i;
        }
    }
    v
}
macro_rules! build {
    ($name:ident, $C:ident, $batch:ident, $one:ident, $V:ident) => {
        fn $name<N: Eng>(v: &$V<N>, l: usize, mask: u64, how: u64, fold: u64, k: &groth_sahai::CRS<N::E>, rng: &mut impl ark_std::rand::Rng) -> Result<$C<N::E>, String> {
            let mut pieces: Vec<$C<N::E>> = vec![];
            for (b, r) in composition(l, mask).into_iter().enumerate() {
                if how.checked_shr(b as u32).unwrap_or(0) & 1 == 1 {
                    let mut c = $one(v, r.start, k, rng);
                    for i in r.start + 1..r.end {
                        let mut o = $one(v, i, k, rng);
                        c.append(&mut o);
                        emptied(o.coms.len(), &ser(&o, Compress::Yes))?;
                    }
                    pieces.push(c);
                } else {
                    pieces.push($batch(&slice(v, r), k, rng));
                }
            }
            if fold == 3 {
                // collect everything in a list that an earlier append has drained
                let mut acc = pieces[0].clone();
                pieces[0].clone().append(&mut acc);
                emptied(acc.coms.len(), &ser(&acc, Compress::Yes))?;
                for mut o in pieces {
                    acc.append(&mut o);
                    emptied(o.coms.len(), &ser(&o, Compress::Yes))?;
                    acc.append(&mut o);
                    emptied(o.coms.len(), &ser(&o, Compress::Yes))?;
                }
                return Ok(acc);
            }
            while pieces.len() > 1 {
                let n = pieces.len();
                let i = match fold {
                    0 => 0,
                    1 => n - 2,
                    _ => (n - 1) / 2,
                };
                let mut o = pieces.remove(i + 1);
                pieces[i].append(&mut o);
                emptied(o.coms.len(), &ser(&o, Compress::Yes))?;
            }
            Ok(pieces.pop().unwrap())
        }
    };
}
fn emptied(n: usize, bytes: &[u8]) -> Result<(), String> {
    if n != 0 || bytes.iter().any(|b| *b != 0) {
        return Err("the source of an append is not left empty".into());
    }
    Ok(())
}
build!(build_x, Commit1, commit_x, commit_x1, X);
build!(build_y, Commit2, commit_y, commit_y1, Y);

/// All ways to build commitments to X (and the whole of Y) agree; then prove and verify with them.
fn ways<N: Eng>(k: &Key<N::S>, e: &Eqn<N::S>, x: &[N::S], y: &[N::S], rng: &(impl ark_std::rand::Rng + Clone), mask: u64, how: u64, fold: u64, c: &mut Cnt) -> Result<(), String> {
    let kind = e.kind;
    let (lk, le) = (crs::<N>(k), leq::<N>(e));
    let (xv, yv) = (xvars::<N>(kind.xs(), x), yvars::<N>(kind.ys(), y));
    let ctx = || format!("{} {kind:?} {}x{} mask {mask:b} singles {how:b} fold {fold} key {k:?} x {x:?} y {y:?}", N::NAME, x.len(), y.len());
    let pan = |m: String| format!("panic ({m}): {}", ctx());
    let mut r0 = rng.clone();
    let (bx, by) = lib(|| (commit_x(&xv, &lk, &mut r0), commit_y(&yv, &lk, &mut r0))).map_err(pan)?;
    let mut r1 = rng.clone();
    let (ax, ay) = lib(|| {
        let a = build_x::<N>(&xv, x.len(), mask, how, fold, &lk, &mut r1);
        let b = build_y::<N>(&yv, y.len(), mask, how, fold, &lk, &mut r1);
        a.and_then(|a| b.map(|b| (a, b)))
    })
    .map_err(pan)?
    .map_err(|m| format!("{m}: {}", ctx()))?;
    c.st();
    c.tr(4);
    c.sample(ctx);
    if !(ax == bx) || !(ay == by) || ax.coms.iter().zip(&bx.coms).any(|(a, b)| a.0 != b.0 || a.1 != b.1) || ay.coms.iter().zip(&by.coms).any(|(a, b)| a.0 != b.0 || a.1 != b.1) || ser(&ax, Compress::No) != ser(&bx, Compress::No) || ser(&ay, Compress::No) != ser(&by, Compress::No) {
        return Err(format!("pieces give another commitment than the batch: {}", ctx()));
    }
    let (mut r2, mut r3) = (r0.clone(), r1.clone());
    let p0 = lib(|| le.prove(&xv, &yv, &bx, &by, &lk, &mut r2)).map_err(pan)?;
    let p1 = lib(|| le.prove(&xv, &yv, &ax, &ay, &lk, &mut r3)).map_err(pan)?;
    if p0 != p1 {
        return Err(format!("proofs from batched and from appended commitments differ: {}", ctx()));
    }
    let mut r4 = rng.clone();
    let cp = lib(|| le.commit_and_prove(&xv, &yv, &lk, &mut r4)).map_err(pan)?;
    if cp.xcoms != bx || cp.ycoms != by || cp.equ_proofs.len() != 1 || cp.equ_proofs[0] != p0 || ser(&cp.equ_proofs[0], Compress::No) != ser(&p0, Compress::No) {
        return Err(format!("commit_and_prove differs from committing to X, to Y and proving: {}", ctx()));
    }
    let full = CProof::<N::E> { xcoms: ax, ycoms: ay, equ_proofs: vec![p1] };
    match lib(|| le.verify(&full, &lk)) {
        Ok(g) if g == e.sat(x, y) => Ok(()),
        g => Err(format!("proof with appended commitments: verdict {g:?}, witness satisfies: {}: {}", e.sat(x, y), ctx())),
    }
}

pub fn interchange(t: Tier) -> Vec<Part> {
    let mut v = vec![];
    let maxl = t.q(5, 7);
    for l in 1..=maxl {
        let masks = pw(2, l - 1);
        let hows = pw(2, l);
        v.push(part(&format!("compose-{l}"), &format!("order 7: every way to cut a list of {l} into blocks, each by batch or singles, 4 append orders, both sides, 4 types, 3 value patterns: same commitment, same proof, accepted"), masks * hows * 4 * 4 * 3, move |i, c| {
            let mut ix = Ix(i);
            let mask = ix.take(masks);
            let how = ix.take(hows);
            let blocks = mask.count_ones() + 1;
            if how >> blocks != 0 {
                return Ok(());
            }
            let fold = ix.take(4);
            let kind = Kind::of(ix.take(4));
            let b = ix.take(3);
            let k = &few_keys::<F7>(3, 7, false)[b as usize];
            let vals: Vec<F7> = (0..ncoef(l, l) + 2 * l).map(|q| F7::from(base(b, q, 7))).collect();
            let nc = ncoef(l, l);
            let (x, y) = (&vals[nc..nc + l], &vals[nc + l..]);
            let e = eqn_for(kind, l, l, &vals[..nc], x, y);
            ways::<E7>(k, &e, x, y, &Stream::seeded(i + 1), mask, how, fold, c)
        }));
    }
    v.push(part("all-2-p3", "order 3: lists of two on the X side, all values, all randomness (24 keys), appended singles against the batch", 2 * 18 * 9, move |i, c| {
        let mut ix = Ix(i);
        let scalar = ix.bit();
        let s = ix.take(18);
        let k = key::<F3>(s, (s * 5 + 1) % 18, 3, false);
        let x = ix.fs::<F3>(3, 2);
        let lk = crs::<E3>(&k);
        for second in [false, true] {
            let mut t = Tree::new(3);
            let n = run_tree(&mut t, |t| {
                let mut a = t.clone();
                let mut b = t.clone();
                let same = if second {
                    let y = yvars::<E3>(scalar, &x);
                    let r = lib(|| {
                        let p = commit_y(&y, &lk, &mut a);
                        let mut q = commit_y1(&y, 0, &lk, &mut b);
                        q.append(&mut commit_y1(&y, 1, &lk, &mut b));
                        (p == q, ser(&p, Compress::No) == ser(&q, Compress::No))
                    });
                    r
                } else {
                    let y = xvars::<E3>(scalar, &x);
                    lib(|| {
                        let p = commit_x(&y, &lk, &mut a);
                        let mut q = commit_x1(&y, 0, &lk, &mut b);
                        q.append(&mut commit_x1(&y, 1, &lk, &mut b));
                        (p == q, ser(&p, Compress::No) == ser(&q, Compress::No))
                    })
                };
                *t = a;
                match same {
                    Ok((true, true)) => Ok(()),
                    r => Err(format!("batch and appended singles differ ({r:?}): side {} scalar {scalar} key {k:?} values {x:?}", 1 + second as u8)),
                }
            })?;
            c.states += n;
            c.tr(3 * n);
        }
        Ok(())
    }));
    let lens: Vec<usize> = t.q(vec![1, 2, 3, 8, 16, 17, 33, 64, 65, 100, 129, 257], (1..=130).chain([200, 255, 256, 257, 300, 511, 512, 513, 1000, 1025]).collect());
    let nl = lens.len() as u64;
    v.push(part("compose-long", "BLS12-381-sized exponents: long lists, cut in the middle, into singles, or first/rest and rest/last", nl * 2 * 4 * 4, move |i, c| {
        let mut ix = Ix(i);
        let l = lens[ix.take(nl) as usize];
        let kind = Kind::of(ix.take(4));
        let sw = ix.bit();
        let (m, n) = if sw { (l, 1) } else { (1, l) };
        let b = super::complete::big(kind, m, n, 40 + i);
        // cut positions given as a mask are limited to 64; use them on short lists, else use how=1 (all singles)
        let (mask, how) = match ix.take(4) {
            0 => (0, 1),
            1 => (1, 0),
            2 => (1 << (l.min(60) / 2), 0b10),
            _ => (0b1011, 0b101),
        };
        ways::<ToyB>(&b.k, &b.e, &b.x, &b.y, &Stream::scalars(&b.rnd, 5), mask, how, i % 4, c)
    }));
    let al = alike(t.q(6, 7));
    let na = al.len() as u64;
    v.push(part("alike", &format!("BLS12-381-sized exponents: {na} patterns of zero, equal and opposite values in lists of up to {} entries, the same for the random scalars or generic ones, four kinds: cut into singles and in the middle against the batch", t.q(6, 7)), na * 4 * 2, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let generic = ix.bit();
        let p = &al[ix.0 as usize];
        let l = p.len();
        let w = alike_values(p, i % 7);
        let b = super::complete::big(kind, l, l, 40 + i % 3);
        let e = eqn_for(kind, l, l, &mixeds(i, ncoef(l, l)), &w, &w);
        let r = if generic { b.rnd.clone() } else { w.iter().flat_map(|z| [*z, *z]).cycle().take(b.rnd.len()).collect() };
        for (mask, how) in [(0, 1), (1 << (l / 2) >> 1, 0)] {
            ways::<ToyB>(&b.k, &e, &w, &w, &Stream::scalars(&r, 5), mask, how, i % 4, c)?;
        }
        Ok(())
    }));
    let cat = &catalogue().all;
    let nc = cat.len() as u64;
    v.push(part("scalars", &format!("BLS12-381-sized exponents: each of {nc} scalars (small, one or two powers of two, digit patterns, quotients, roots, endomorphism eigenvalues) as value and as randomness: singles appended against the batch, four kinds"), nc, move |i, c| {
        let s = cat[i as usize];
        let k = big_key(i % 5);
        let lk = crs::<ToyB>(&k);
        for (vals, r) in [([s, mixed(i, 0)], [mixed(i, 1), mixed(i, 2), mixed(i, 3), mixed(i, 4)]), ([mixed(i, 0), mixed(i, 1)], [mixed(i, 2), s, s, mixed(i, 3)])] {
            for scalar in [false, true] {
                let (x, y) = (xvars::<ToyB>(scalar, &vals), yvars::<ToyB>(scalar, &vals));
                let same = lib(|| {
                    let (mut a, mut b) = (Stream::scalars(&r, 1), Stream::scalars(&r, 1));
                    let p = commit_x(&x, &lk, &mut a);
                    let mut q = commit_x1(&x, 0, &lk, &mut b);
                    q.append(&mut commit_x1(&x, 1, &lk, &mut b));
                    let (mut a, mut b) = (Stream::scalars(&r, 1), Stream::scalars(&r, 1));
                    let u = commit_y(&y, &lk, &mut a);
                    let mut w = commit_y1(&y, 0, &lk, &mut b);
                    w.append(&mut commit_y1(&y, 1, &lk, &mut b));
                    (p == q && ser(&p, Compress::No) == ser(&q, Compress::No), u == w && ser(&u, Compress::No) == ser(&w, Compress::No))
                });
                c.st();
                c.tr(6);
                if same != Ok((true, true)) {
                    return Err(format!("batch and appended singles differ ({same:?}): scalar {scalar} values {vals:?} randomness {r:?}"));
                }
            }
        }
        Ok(())
    }));
    let nb = t.q(4, 24);
    v.push(part("bls", "lists of three on BLS12-381, every type, several compositions", nb * 4, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let b = super::complete::big(kind, 3, 3, 70 + i);
        ways::<Bls>(&b.k, &b.e, &b.x, &b.y, &Stream::scalars(&b.rnd, 5), ix.0 % 4, ix.0 % 8, (i / 4 + i) % 4, c)?;
        // same commitments on the exponent group
        let (lk, lb) = (crs::<ToyB>(&b.k), crs::<Bls>(&b.k));
        let xa = lib(|| commit_x(&xvars::<ToyB>(kind.xs(), &b.x), &lk, &mut Stream::scalars(&b.rnd, 5))).map_err(|m| format!("panic {m}"))?;
        let xb = lib(|| commit_x(&xvars::<Bls>(kind.xs(), &b.x), &lb, &mut Stream::scalars(&b.rnd, 5))).map_err(|m| format!("panic {m}"))?;
        let e: Vec<P2<FrB>> = xa.coms.iter().map(k1::<TB>).collect();
        c.conf += 1;
        if !eqs1::<Bls>(&xb.coms, &e) {
            return Err("commitments differ between BLS12-381 and the exponent group".into());
        }
        Ok(())
    }));
    v
}
