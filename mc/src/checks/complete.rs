//! C01: completeness.
use super::*;

/// One case of a tiny engine: all values and the prover's draws given as one coefficient vector.
fn tiny_case<C: ToyCfg>(kind: Kind, m: usize, n: usize, k: &Key<C::F>, v: &[C::F], c: &mut Cnt) -> Result<(), String> {
    let nc = ncoef(m, n);
    let (x, y) = (&v[nc..nc + m], &v[nc + m..nc + m + n]);
    let e = eqn_for(kind, m, n, &v[..nc], x, y);
    let pre: Vec<u8> = v[nc + m + n..].iter().map(|z| small(z) as u8).collect();
    let mut rng = Tree::with_prefix(C::P, &pre);
    complete_on::<Toy<C>>(k, &e, x, y, &mut rng)?;
    c.st();
    c.tr(2);
    Ok(())
}

fn exhaustive11<C: ToyCfg>(kind: Kind, keys: Vec<Key<C::F>>, name: &str) -> Part {
    let p = C::P;
    let nk = keys.len() as u64;
    // all coefficients, all witnesses; inside one case: all randomness
    part(
        &format!("{name}-{kind:?}"),
        &format!("order {p}, one variable per side: {nk} keys x all coefficients x all witnesses x all prover randomness"),
        nk * pw(p, 5),
        move |i, c| {
            let mut ix = Ix(i);
            let k = &keys[ix.take(nk) as usize];
            let co = ix.fs::<C::F>(p, 3);
            let (x, y) = (ix.fs::<C::F>(p, 1), ix.fs::<C::F>(p, 1));
            let e = eqn_for(kind, 1, 1, &co, &x, &y);
            let (lk, le) = (crs::<Toy<C>>(k), leq::<Toy<C>>(&e));
            let (xv, yv) = (xvars::<Toy<C>>(kind.xs(), &x), yvars::<Toy<C>>(kind.ys(), &y));
            let mut t = Tree::new(p);
            let runs = run_tree(&mut t, |t| {
                let pr = lib(|| le.commit_and_prove(&xv, &yv, &lk, t)).map_err(|m| format!("proving panics ({m}): key {k:?} {e:?} x {x:?} y {y:?}"))?;
                match lib(|| le.verify(&pr, &lk)) {
                    Ok(true) => Ok(()),
                    r => Err(format!("honest proof not accepted ({r:?}): key {k:?} {e:?} x {x:?} y {y:?} randomness {:?}", t.ch)),
                }
            })?;
            c.states += runs;
            c.tr(2 * runs);
            c.sample(|| format!("{kind:?} key {k:?} {e:?} x={x:?} y={y:?}: {runs} randomness choices, all accepted"));
            Ok(())
        },
    )
}

fn all_keys(kind: Kind) -> Part {
    let p = 3;
    let ns = nside(p);
    part(
        &format!("all-keys-{kind:?}"),
        "order 3, one variable per side: every key with non-identity generators (binding and hiding) x all coefficients x all witnesses x 2 randomness vectors",
        ns * ns * 2 * pw(p, 5),
        move |i, c| {
            let mut ix = Ix(i);
            let h = ix.bit();
            let k = key::<F3>(ix.take(ns), ix.take(ns), p, h);
            let mut v = ix.fs::<F3>(p, 5);
            let nd = ndraw(kind, 1, 1);
            for b in [1, 2] {
                v.truncate(5);
                v.extend((0..nd).map(|j| F3::from(base(b, j, p))));
                tiny_case::<T3>(kind, 1, 1, &k, &v, c)?;
            }
            Ok(())
        },
    )
}

fn shapes<C: ToyCfg>(kind: Kind, m: usize, n: usize, w: usize) -> Part {
    let p = C::P;
    let len = ncoef(m, n) + m + n + ndraw(kind, m, n);
    let keys = few_keys::<C::F>(2, p, false);
    let nd = ndev(len, w, p);
    part(
        &format!("shape-{m}x{n}-{kind:?}-p{p}"),
        &format!("order {p}, {m}x{n} variables: all assignments of coefficients, witness and randomness with at most {w} deviations from {NBASE} base vectors, 2 keys"),
        nd * NBASE * 2,
        move |i, c| {
            let mut ix = Ix(i);
            let k = &keys[ix.take(2) as usize];
            let b = ix.take(NBASE);
            tiny_case::<C>(kind, m, n, k, &devs::<C::F>(len, w, p, b, ix.0), c)
        },
    )
}

pub struct Big {
    pub k: Key<FrB>,
    pub e: Eqn<FrB>,
    pub x: Vec<FrB>,
    pub y: Vec<FrB>,
    pub rnd: Vec<FrB>,
}
/// A trace of the BLS12-381-sized engine made from boundary scalars.
pub fn big(kind: Kind, m: usize, n: usize, seed: u64) -> Big {
    let k = big_key(seed);
    let v = mixeds(seed, ncoef(m, n) + m + n);
    let nc = ncoef(m, n);
    let (x, y) = (v[nc..nc + m].to_vec(), v[nc + m..].to_vec());
    let e = eqn_for(kind, m, n, &v[..nc], &x, &y);
    let rnd = mixeds(seed ^ 0xabcdef, ndraw(kind, m, n));
    Big { k, e, x, y, rnd }
}
/// Shapes with many variables on both sides: both sides of what a blocked, unrolled or parallel evaluation distinguishes.
pub fn wide(t: Tier) -> Vec<(usize, usize)> {
    let a = [2usize, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33];
    let mut v: Vec<(usize, usize)> = a.iter().flat_map(|m| a.iter().map(move |n| (*m, *n))).filter(|(m, n)| *m.max(n) > 8).collect();
    v.extend([(40, 40), (2, 64), (64, 2), (3, 65), (65, 3), (64, 17), (17, 64), (65, 65)]);
    if t == Tier::Thorough {
        v.extend((2..=40).flat_map(|m| (2..=40).map(move |n| (m, n))).filter(|(m, n)| *m.max(n) > 8));
        v.extend([(100, 100), (127, 9), (9, 127), (128, 64), (64, 128), (129, 129), (2, 257), (257, 2)]);
    }
    v
}
/// All entries equal to one boundary value.
fn big_const(kind: Kind, m: usize, n: usize, i: u64) -> Big {
    let mut ix = Ix(i);
    let (a, x, r) = (edge(ix.take(16) as usize), edge(ix.take(16) as usize), edge(ix.take(16) as usize));
    let co = vec![a; ncoef(m, n)];
    let (x, y) = (vec![x; m], vec![x + FrB::one(); n]);
    let e = eqn_for(kind, m, n, &co, &x, &y);
    Big { k: big_key(i), e, x, y, rnd: vec![r; ndraw(kind, m, n)] }
}
fn big_run(b: &Big, c: &mut Cnt) -> Result<groth_sahai::prover::CProof<ToyB>, String> {
    c.st();
    c.tr(2);
    complete_on::<ToyB>(&b.k, &b.e, &b.x, &b.y, &mut Stream::scalars(&b.rnd, 7))
}

pub fn parts(t: Tier) -> Vec<Part> {
    let mut v = vec![];
    for kind in KINDS {
        let nk = if kind == Kind::Ppe { t.q(1, 16) } else { t.q(6, 16) };
        let mut keys = few_keys::<F3>(nk, 3, false);
        keys.extend(few_keys::<F3>(t.q(1, 8), 3, true));
        v.push(exhaustive11::<T3>(kind, keys, "all-11"));
        v.push(all_keys(kind));
    }
    v.push(exhaustive11::<T5>(Kind::Quad, few_keys::<F5>(t.q(2, 16), 5, false), "all-11-p5"));
    if t == Tier::Thorough {
        v.push(exhaustive11::<T5>(Kind::M1, few_keys::<F5>(1, 5, false), "all-11-p5"));
        v.push(exhaustive11::<T5>(Kind::M2, few_keys::<F5>(1, 5, false), "all-11-p5"));
        v.push(exhaustive11::<T7>(Kind::Quad, few_keys::<F7>(4, 7, false), "all-11-p7"));
    }
    for kind in KINDS {
        for m in 1..=3 {
            for n in 1..=3 {
                if m * n > 1 {
                    v.push(shapes::<T3>(kind, m, n, t.q(2, if m * n <= 4 { 4 } else { 3 })));
                }
            }
        }
        v.push(shapes::<T7>(kind, 2, 2, 2));
    }
    let max = t.q(8, 16);
    v.push(part("shapes-big", &format!("BLS12-381-sized exponents: every shape up to {max}x{max}, every type, boundary and generic scalars"), max * max * 4 * t.q(2, 8), move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let (m, n) = (1 + ix.take(max) as usize, 1 + ix.take(max) as usize);
        big_run(&big(kind, m, n, i + 1), c).map(|_| ())
    }));
    let lens: Vec<usize> = t.q(vec![16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 130, 200, 256, 257, 300], (9..=320).chain([511, 512, 513, 600, 1000, 1023, 1024, 1025, 2047, 2048, 2049]).collect());
    let nl = lens.len() as u64;
    v.push(part("long-big", "long lists on one side (1 x n and n x 1), BLS12-381-sized exponents", nl * 8, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let sw = ix.bit();
        let l = lens[ix.take(nl) as usize];
        let (m, n) = if sw { (1, l) } else { (l, 1) };
        big_run(&big(kind, m, n, i + 77), c).map(|_| ())
    }));
    let ws = wide(t);
    v.push(part("wide-big", &format!("BLS12-381-sized exponents: {} shapes with many variables on both sides (up to {}x{}), every type", ws.len(), ws.iter().map(|s| s.0).max().unwrap(), ws.iter().map(|s| s.1).max().unwrap()), ws.len() as u64 * 4, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let (m, n) = ws[ix.0 as usize];
        big_run(&big(kind, m, n, i + 177), c).map(|_| ())
    }));
    v.push(part("edge-big", "all combinations of one boundary coefficient, one boundary witness value and one boundary random value, shapes 1x1 and 2x2", 16 * 16 * 16 * 8, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let s = 1 + ix.take(2) as usize;
        big_run(&big_const(kind, s, s, ix.0), c).map(|_| ())
    }));
    let cat = catalogue();
    let nc = t.q(cat.short, cat.all.len()) as u64;
    v.push(part("scalars", &format!("BLS12-381-sized exponents: each of {nc} scalars (small, powers of two, digit patterns, quotients, roots, endomorphism eigenvalues) at every place of a 1x1 proof (generators, trapdoors, constants, coefficient, witness, randomness), every type"), nc * 4, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let s = cat.all[ix.0 as usize];
        let nd = ndraw(kind, 1, 1);
        for pos in 0..11 + nd {
            let mut p: Vec<FrB> = (0..11 + nd).map(|q| mixed(i / 16, q) + FrB::from(3u64)).collect();
            if pos < 6 && s.is_zero() {
                continue;
            }
            p[pos] = s;
            let k = Key::binding(p[0], p[1], p[2], p[3], p[4], p[5]);
            let e = eqn_for(kind, 1, 1, &p[6..9], &p[9..10], &p[10..11]);
            big_run(&Big { k, e, x: p[9..10].to_vec(), y: p[10..11].to_vec(), rnd: p[11..].to_vec() }, c)?;
        }
        Ok(())
    }));
    let tb = tables(t == Tier::Thorough);
    let nt = tb.len() as u64;
    v.push(part("sparse", &format!("BLS12-381-sized exponents: {nt} patterns of zero coefficients (all of them up to 3x3; single entries, gaps, pairs, rows, columns, bands, triangles up to 8x8), constants present, absent, and present where the other side has none, every type"), nt * 4 * 3, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let how = ix.take(3);
        let (m, n, k) = &tb[ix.0 as usize];
        let (m, n) = (*m, *n);
        big_run(&sparse(kind, m, n, k, how, i + 1), c).map(|_| ())
    }));
    let sh: Vec<(usize, usize)> = vec![(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)];
    let per: Vec<u64> = sh.iter().map(|(m, n)| 1 << (2 * m + 2 * n)).collect();
    v.push(part("absent", "BLS12-381-sized exponents: every choice of zero constants and zero witnesses, without and with coefficients, up to 2x2, 3x1 and 1x3, every type", per.iter().sum::<u64>() * 8, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let full = ix.bit();
        let mut z = ix.0;
        let mut q = 0;
        while z >= per[q] {
            z -= per[q];
            q += 1;
        }
        let (m, n) = sh[q];
        let mut b = sparse(kind, m, n, &vec![full; m * n], 0, i + 1);
        let mut on = |v: &mut Vec<FrB>| {
            for w in v.iter_mut() {
                if z & 1 == 0 {
                    *w = FrB::zero();
                }
                z >>= 1;
            }
        };
        on(&mut b.x);
        on(&mut b.y);
        on(&mut b.e.a);
        on(&mut b.e.b);
        b.e.t = b.e.eval(&b.x, &b.y);
        big_run(&b, c).map(|_| ())
    }));
    let ws = [(1usize, 1usize), (2, 2), (3, 3), (4, 4), (8, 8), (1, 17), (17, 1), (5, 2), (2, 5)];
    v.push(part("widths", &format!("BLS12-381-sized exponents: all constants, coefficients, witnesses and, in turn, all randomness of one of {} bit lengths (the largest such numbers, these in turn, or opposite ones), {} shapes, every type", WIDTHS.len(), ws.len()), WIDTHS.len() as u64 * ws.len() as u64 * 4 * 3 * 4, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let (how, what) = (ix.take(3), ix.take(4));
        let (m, n) = ws[ix.take(ws.len() as u64) as usize];
        let w = WIDTHS[ix.0 as usize];
        let mut b = big(kind, m, n, i + 9);
        let mut q = 0u64;
        let mut f = |z: &mut FrB| {
            q += 1;
            let v = of_width(w, if how == 1 { q % 3 } else { 0 });
            *z = if how == 2 && q % 2 == 0 { -v } else { v };
        };
        // what: coefficients only, all of the statement, the randomness, everything
        if what != 2 {
            b.e.gamma.iter_mut().flatten().for_each(&mut f);
        }
        if what & 1 == 1 {
            b.e.a.iter_mut().chain(b.e.b.iter_mut()).chain(b.x.iter_mut()).chain(b.y.iter_mut()).for_each(&mut f);
        }
        if what >= 2 {
            b.rnd.iter_mut().for_each(&mut f);
        }
        b.e.t = b.e.eval(&b.x, &b.y);
        big_run(&b, c).map(|_| ())
    }));
    let al = alike(t.q(5, 6));
    let na = al.len() as u64;
    v.push(part("alike", &format!("BLS12-381-sized exponents, every type: {na} patterns of zero, equal and opposite values in lists of up to {} entries: as the variables or the constants of either side, as a row or column of coefficients, as the random scalars, as all of them", t.q(5, 6)), na * 4 * 2 * 6, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let second = ix.bit();
        let place = ix.take(6);
        let b = alike_big(kind, second, place, &al[ix.0 as usize], i);
        big_run(&b, c).map(|_| ())
    }));
    v.push(bls_traces(t.q(14, 120), false));
    v
}
/// A satisfied equation in which some of its lists follow a pattern of zero, equal and opposite values.
pub fn alike_big(kind: Kind, second: bool, place: u64, p: &[i8], i: u64) -> Big {
    let l = p.len();
    let (m, n) = if second { (2, l) } else { (l, 2) };
    let mut b = big(kind, m, n, 40 + i % 5);
    let w = alike_values(p, i % 7);
    if place == 0 || place == 5 {
        if second { b.y = w.clone() } else { b.x = w.clone() }
    }
    if place == 1 || place == 5 {
        if second { b.e.a = w.clone() } else { b.e.b = w.clone() }
    }
    if place == 2 || place == 5 {
        for q in 0..l {
            if second { b.e.gamma[1][q] = w[q] } else { b.e.gamma[q][1] = w[q] }
        }
    }
    // whole rows or columns alike
    if place == 3 {
        for q in 0..l {
            for s in 0..2 {
                let z = w[q] * FrB::from(s as u64 * 5 + 2);
                if second { b.e.gamma[s][q] = z } else { b.e.gamma[q][s] = z }
            }
        }
    }
    if place >= 4 {
        // equal values get equal random scalars
        let row = |q: usize, w_: usize| std::iter::repeat(w[q % l]).take(w_);
        let mut r: Vec<FrB> = (0..m).flat_map(|q| row(q, kind.xr())).chain((0..n).flat_map(|q| row(q, kind.yr()))).collect();
        r.extend(w.iter().cycle().take(b.rnd.len() - r.len()));
        b.rnd = r;
    }
    b.e.t = b.e.eval(&b.x, &b.y);
    b
}
/// A satisfied equation whose coefficients are zero outside the given entries.
pub fn sparse(kind: Kind, m: usize, n: usize, k: &[bool], how: u64, seed: u64) -> Big {
    let mut b = big(kind, m, n, seed);
    let nz = |q: usize| {
        let z = mixed(seed, q);
        if z.is_zero() { FrB::from(q as u64 + 2) } else { z }
    };
    for i in 0..m {
        for j in 0..n {
            b.e.gamma[i][j] = if k[i * n + j] { nz(i * n + j) } else { FrB::zero() };
        }
    }
    for (q, a) in b.e.a.iter_mut().enumerate() {
        *a = if how == 1 || (how == 2 && (0..m).any(|i| k[i * n + q])) { FrB::zero() } else { nz(q + 77) };
    }
    for (q, a) in b.e.b.iter_mut().enumerate() {
        *a = if how == 1 || (how == 2 && (0..n).any(|j| k[q * n + j])) { FrB::zero() } else { nz(q + 99) };
    }
    for (q, z) in b.x.iter_mut().chain(b.y.iter_mut()).enumerate() {
        if z.is_zero() {
            *z = nz(q + 55);
        }
    }
    b.e.t = b.e.eval(&b.x, &b.y);
    b
}

/// The same traces on BLS12-381 and on the exponent group of the same order.
pub fn bls_traces(nb: u64, hiding: bool) -> Part {
    part(
        "bls",
        &format!("the same {}traces on BLS12-381 and on the exponent group: both verify, every element identical", if hiding { "hiding-key " } else { "" }),
        nb * 4,
        move |i, c| {
            let mut ix = Ix(i);
            let kind = Kind::of(ix.take(4));
            let j = ix.0;
            let shp = [(1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (2, 3), (3, 2), (1, 1), (4, 2), (1, 5), (3, 3), (5, 1)][(j % 14) as usize];
            let mut b = if j % 14 == 1 { big_const(kind, 1, 1, j * 37) } else { big(kind, shp.0, shp.1, 9000 + i) };
            if j % 14 == 9 {
                // identity everywhere
                b = Big { e: eqn_for(kind, 1, 1, &[FrB::zero(); 3], &[FrB::zero()], &[FrB::zero()]), x: vec![FrB::zero()], y: vec![FrB::zero()], ..b };
            }
            if hiding {
                b.k.u[1][1] -= b.k.g1;
                b.k.v[1][1] -= b.k.g2;
            }
            let a = big_run(&b, c)?;
            let l = complete_on::<Bls>(&b.k, &b.e, &b.x, &b.y, &mut Stream::scalars(&b.rnd, 7))?;
            same_proof(&a, &l)?;
            c.sample(|| format!("BLS12-381 and exponent group agree on {kind:?} {}x{}: x {:?} y {:?}", b.e.m(), b.e.n(), b.x, b.y));
            c.tr(2);
            c.conf += 1;
            Ok(())
        },
    )
}
