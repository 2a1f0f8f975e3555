//! C09: histories of proofs, verifications, appends, clones and round trips on shared commitments.
use super::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use groth_sahai::prover::{CProof, Commit, Commit1, Commit2};
use groth_sahai::CRS;

/// Shared commitments: group elements and scalars on both sides, with the committed values.
#[derive(Clone)]
struct World<N: Eng> {
    k: Key<N::S>,
    lk: CRS<N::E>,
    rng: Stream,
    /// values of X, Y, x, y
    val: [Vec<N::S>; 4],
    x: [Commit1<N::E>; 2],
    y: [Commit2<N::E>; 2],
    past: Vec<(LEq<N::E>, CProof<N::E>, bool)>,
    step: u64,
    seed: u64,
}
const OPS: u64 = 29;
const NAMES: [&str; 29] = [
    "prove PPE (true)", "prove MSMEG1 (true)", "prove MSMEG2 (true)", "prove quadratic (true)",
    "prove PPE (false)", "prove MSMEG1 (false)", "prove MSMEG2 (false)", "prove quadratic (false)",
    "append to X", "append to Y", "append to x", "append to y",
    "encode and decode X", "encode and decode Y", "encode and decode x", "encode and decode y",
    "clone X and append to the clone", "clone Y and append to the clone", "clone x and append to the clone", "clone y and append to the clone",
    "verify all earlier proofs", "prove PPE (true) twice", "prove quadratic (true) twice", "append a batch of two to X and x",
    "encode and decode the key", "verify the last proof with itself as a commitment source", "append copies of Y to Y",
    "append to X by way of a drained list", "append to y by way of a drained list",
];
fn word<F: PrimeField>(seed: u64, i: u64) -> F {
    let mut b = [0u8; 32];
    let z = mix(mix(seed) + i);
    for j in 0..4u64 {
        b[8 * j as usize..][..8].copy_from_slice(&mix(z + j).to_le_bytes());
    }
    F::from_le_bytes_mod_order(&b)
}
impl<N: Eng> World<N> {
    fn new(seed: u64, sizes: [usize; 4]) -> Result<Self, String> {
        let nz = |i: u64| {
            let z = word::<N::S>(seed, i);
            if z.is_zero() {
                N::S::one()
            } else {
                z
            }
        };
        let k = Key::binding(nz(1), nz(2), nz(3), nz(4), nz(5), nz(6));
        let lk = crs::<N>(&k);
        let mut rng = Stream::seeded(seed);
        let val: [Vec<N::S>; 4] = std::array::from_fn(|j| (0..sizes[j]).map(|i| word(seed, 100 + 20 * j as u64 + i as u64)).collect());
        let (x, y) = lib(|| {
            (
                [commit_x(&xvars::<N>(false, &val[0]), &lk, &mut rng), commit_x(&xvars::<N>(true, &val[2]), &lk, &mut rng)],
                [commit_y(&yvars::<N>(false, &val[1]), &lk, &mut rng), commit_y(&yvars::<N>(true, &val[3]), &lk, &mut rng)],
            )
        })?;
        Ok(World { k, lk, rng, val, x, y, past: vec![], step: 0, seed })
    }
    fn eq(&self, kind: Kind, tru: bool) -> (Eqn<N::S>, usize, usize) {
        let (i, j) = (if kind.xs() { 2 } else { 0 }, if kind.ys() { 3 } else { 1 });
        let (x, y) = (&self.val[i], &self.val[j]);
        let s = self.seed + 7919 * (self.step + 1);
        let c: Vec<N::S> = (0..ncoef(x.len(), y.len()) as u64).map(|q| word(s, 1000 + q)).collect();
        let mut e = eqn_for(kind, x.len(), y.len(), &c, x, y);
        if !tru {
            e.t += N::S::one();
        }
        (e, i, j)
    }
    fn prove(&mut self, kind: Kind, tru: bool, times: usize, c: &mut Cnt) -> Result<(), String> {
        let (e, i, j) = self.eq(kind, tru);
        let le = leq::<N>(&e);
        let (xv, yv) = (xvars::<N>(kind.xs(), &self.val[i]), yvars::<N>(kind.ys(), &self.val[j]));
        for _ in 0..times {
            let (xc, yc, lk, rng) = (&self.x[i / 2], &self.y[j / 2], &self.lk, &mut self.rng);
            let q = lib(|| le.prove(&xv, &yv, xc, yc, lk, rng)).map_err(|m| format!("proving panics ({m}): {e:?}"))?;
            let cp = CProof { xcoms: xc.clone(), ycoms: yc.clone(), equ_proofs: vec![q] };
            let got = lib(|| le.verify(&cp, lk));
            c.tr(2);
            c.tag(if tru { "true statement proved" } else { "false statement refused" });
            if got != Ok(tru) {
                return Err(format!("an equation that is {tru} for the committed values gets verdict {got:?}: key {:?} {e:?} x {:?} y {:?}", self.k, self.val[i], self.val[j]));
            }
            self.past.push((le.clone(), cp, tru));
        }
        Ok(())
    }
    fn put(&mut self, j: usize, n: usize, c: &mut Cnt) -> Result<(), String> {
        let v: Vec<N::S> = (0..n as u64).map(|q| word(self.seed + 104729 * (self.step + 1), 10 + q)).collect();
        let (lk, rng) = (&self.lk, &mut self.rng);
        c.tr(2);
        match j {
            0 | 2 => {
                let xv = xvars::<N>(j == 2, &v);
                let mut n = lib(|| if v.len() == 1 { commit_x1(&xv, 0, lk, rng) } else { commit_x(&xv, lk, rng) })?;
                let t = &mut self.x[j / 2];
                lib(|| t.append(&mut n))?;
            }
            _ => {
                let yv = yvars::<N>(j == 3, &v);
                let mut n = lib(|| if v.len() == 1 { commit_y1(&yv, 0, lk, rng) } else { commit_y(&yv, lk, rng) })?;
                let t = &mut self.y[j / 2];
                lib(|| t.append(&mut n))?;
            }
        }
        self.val[j].extend(v);
        Ok(())
    }
    fn again(&mut self, c: &mut Cnt) -> Result<(), String> {
        for (le, cp, want) in &self.past {
            c.tr(1);
            let got = lib(|| le.verify(cp, &self.lk));
            if got != Ok(*want) {
                return Err(format!("a proof with verdict {want} gets {got:?} when verified again: {le:?}"));
            }
        }
        Ok(())
    }
    fn op(&mut self, o: u64, c: &mut Cnt) -> Result<(), String> {
        let (cm, va) = (if self.step % 2 == 0 { Compress::Yes } else { Compress::No }, Validate::Yes);
        match o {
            0..=3 => self.prove(Kind::of(o), true, 1, c)?,
            4..=7 => self.prove(Kind::of(o - 4), false, 1, c)?,
            8..=11 => self.put((o - 8) as usize, 1, c)?,
            12 | 14 => {
                let t = &mut self.x[(o as usize - 12) / 2];
                let b = ser(t, cm);
                *t = lib(|| Commit1::deserialize_with_mode(&b[..], cm, va))?.map_err(|e| format!("decoding fails: {e}"))?;
            }
            13 | 15 => {
                let t = &mut self.y[(o as usize - 13) / 2];
                let b = ser(t, cm);
                *t = lib(|| Commit2::deserialize_with_mode(&b[..], cm, va))?.map_err(|e| format!("decoding fails: {e}"))?;
            }
            16..=19 => {
                // the copy grows and is used for a proof, the original must not notice
                let mut w = self.clone();
                w.put((o - 16) as usize, 1, c)?;
                let kind = [Kind::Ppe, Kind::M2, Kind::Quad, Kind::M1][(o - 16) as usize];
                w.prove(kind, true, 1, c)?;
                self.rng = w.rng;
            }
            20 => self.again(c)?,
            21 => self.prove(Kind::Ppe, true, 2, c)?,
            22 => self.prove(Kind::Quad, true, 2, c)?,
            23 => {
                self.put(0, 2, c)?;
                self.step += 1;
                self.put(2, 2, c)?;
            }
            24 => {
                let b = ser(&self.lk, cm);
                self.lk = lib(|| CRS::deserialize_with_mode(&b[..], cm, va))?.map_err(|e| format!("decoding the key fails: {e}"))?;
            }
            25 => {
                // take the commitments back out of the last proof
                if let Some((le, cp, _)) = self.past.last() {
                    let kind = match le {
                        LEq::Ppe(_) => Kind::Ppe,
                        LEq::M1(_) => Kind::M1,
                        LEq::M2(_) => Kind::M2,
                        LEq::Quad(_) => Kind::Quad,
                    };
                    let (i, j) = (if kind.xs() { 1 } else { 0 }, if kind.ys() { 1 } else { 0 });
                    let (mut x, mut y) = (cp.xcoms.clone(), cp.ycoms.clone());
                    // shorter lists of an earlier state: only the values committed then
                    let (nx, ny) = (x.coms.len(), y.coms.len());
                    self.val[2 * i].truncate(nx);
                    self.val[2 * j + 1].truncate(ny);
                    std::mem::swap(&mut self.x[i], &mut x);
                    std::mem::swap(&mut self.y[j], &mut y);
                    self.prove(kind, true, 1, c)?;
                }
            }
            27 => {
                // a second list is drained, refilled and drained again; its sources stay empty
                let v: [N::S; 2] = std::array::from_fn(|q| word(self.seed + 104729 * (self.step + 1), 10 + q as u64));
                let (lk, rng, t) = (&self.lk, &mut self.rng, &mut self.x[0]);
                let left = lib(|| {
                    let mut a = commit_x1(&xvars::<N>(false, &v), 0, lk, rng);
                    let mut b = commit_x1(&xvars::<N>(false, &v), 1, lk, rng);
                    t.append(&mut a);
                    a.append(&mut b);
                    t.append(&mut a);
                    t.append(&mut b);
                    a.coms.len() + b.coms.len()
                })?;
                self.val[0].extend(v);
                if left != 0 {
                    return Err("the source of an append is not empty".into());
                }
            }
            28 => {
                let v: [N::S; 2] = std::array::from_fn(|q| word(self.seed + 104729 * (self.step + 1), 10 + q as u64));
                let (lk, rng, t) = (&self.lk, &mut self.rng, &mut self.y[1]);
                let left = lib(|| {
                    let mut a = commit_y1(&yvars::<N>(true, &v), 0, lk, rng);
                    let mut b = commit_y1(&yvars::<N>(true, &v), 1, lk, rng);
                    t.append(&mut a);
                    a.append(&mut b);
                    t.append(&mut a);
                    t.append(&mut b);
                    a.coms.len() + b.coms.len()
                })?;
                self.val[3].extend(v);
                if left != 0 {
                    return Err("the source of an append is not empty".into());
                }
            }
            _ => {
                // a commitment list may be appended to itself through a clone
                let mut d = self.y[0].clone();
                let t = &mut self.y[0];
                lib(|| t.append(&mut d))?;
                let v = self.val[1].clone();
                self.val[1].extend(v);
                if !d.coms.is_empty() {
                    return Err("the source of an append is not empty".into());
                }
            }
        }
        self.step += 1;
        Ok(())
    }
    fn bytes(&self) -> Vec<Vec<u8>> {
        let mut v = vec![];
        for t in &self.x {
            let mut b = vec![];
            t.serialize_compressed(&mut b).unwrap();
            v.push(b);
        }
        for t in &self.y {
            let mut b = vec![];
            t.serialize_compressed(&mut b).unwrap();
            v.push(b);
        }
        v
    }
    /// The commitments still open to the values.
    fn check(&self) -> Result<(), String> {
        let _ = ser(&self.lk, Compress::Yes);
        for j in 0..4 {
            let n = if j % 2 == 0 { self.x[j / 2].coms.len() } else { self.y[j / 2].coms.len() };
            if n != self.val[j].len() {
                return Err(format!("list {j} has {n} commitments, expected {}", self.val[j].len()));
            }
        }
        Ok(())
    }
}
fn opens<C: ToyCfg>(w: &World<Toy<C>>) -> Result<(), String> {
    for j in 0..4 {
        let got: Vec<C::F> = if j % 2 == 0 {
            w.x[j / 2].coms.iter().map(|c| w.k.open1(j == 2, k1(c))).collect()
        } else {
            w.y[j / 2].coms.iter().map(|c| w.k.open2(j == 3, k2(c))).collect()
        };
        if got != w.val[j] {
            return Err(format!("commitment list {j} opens to {got:?}, committed were {:?}", w.val[j]));
        }
    }
    Ok(())
}
fn history<N: Eng>(seed: u64, sizes: [usize; 4], ops: &[u64], inv: impl Fn(&World<N>) -> Result<(), String>, c: &mut Cnt) -> Result<World<N>, String> {
    let run = |c: &mut Cnt| -> Result<World<N>, String> {
        let mut w = World::<N>::new(seed, sizes)?;
        for o in ops {
            let before = w.bytes();
            w.op(*o, c)?;
            c.st();
            w.check()?;
            inv(&w)?;
            // only appends (and taking back older commitments) change commitments
            if !matches!(o, 8..=11 | 23 | 25..=28) && w.bytes() != before {
                return Err("the operation changed the commitments".into());
            }
        }
        w.again(c)?;
        Ok(w)
    };
    run(c).map_err(|m| format!("{}: {m}: history {:?} (world {seed}, sizes {sizes:?})", N::NAME, ops.iter().map(|o| NAMES[*o as usize]).collect::<Vec<_>>()))
}
fn hist_part<C: ToyCfg>(name: &str, about: &str, alpha: Vec<u64>, depth: usize, worlds: Vec<(u64, [usize; 4])>) -> Part {
    let a = alpha.len() as u64;
    let nw = worlds.len() as u64;
    part(name, &format!("{about}: all {depth}-step histories over {a} operations, {nw} initial worlds, order {}", if C::P > 0 { C::P.to_string() } else { "of BLS12-381".into() }), nw * pw(a, depth), move |i, c| {
        let mut ix = Ix(i);
        let (seed, sizes) = worlds[ix.take(nw) as usize];
        let ops: Vec<u64> = (0..depth).map(|_| alpha[ix.take(a) as usize]).collect();
        c.sample(|| format!("{:?}", ops.iter().map(|o| NAMES[*o as usize]).collect::<Vec<_>>()));
        history::<Toy<C>>(seed, sizes, &ops, opens, c).map(|_| ())
    })
    .need(&["true statement proved", "false statement refused"])
}
pub fn parts(t: Tier) -> Vec<Part> {
    let all: Vec<u64> = (0..OPS).collect();
    let mut v = vec![];
    v.push(hist_part::<TB>("all-3", "full alphabet", all.clone(), 3, vec![(1, [1, 1, 1, 1]), (2, [2, 1, 1, 2]), (3, [1, 2, 2, 1]), (4, [2, 3, 3, 2])]));
    v.push(hist_part::<T5>("all-4", "full alphabet", all.clone(), t.q(4, 5), t.q(vec![(5, [1, 1, 1, 1])], vec![(5, [1, 1, 1, 1])])));
    // proofs and appends only, deeper
    let core = vec![0, 1, 2, 3, 6, 8, 9, 10, 11, 20];
    v.push(hist_part::<T7>("core", "proofs, appends and re-verification", core, t.q(5, 7), vec![(7, [1, 1, 1, 1])]));
    let copies = vec![0, 7, 8, 12, 14, 16, 18, 24, 25];
    v.push(hist_part::<T5>("copies", "proofs mixed with clones and round trips", copies, t.q(5, 7), vec![(9, [2, 1, 1, 1])]));
    // many proofs about large lists
    let n = t.q(12u64, 60);
    v.push(part("long", "long histories: every operation many times in a fixed rotation, 255-bit order", n, move |i, c| {
        let ops: Vec<u64> = (0..40).map(|q| (q * (2 * i + 1) + i) % OPS).collect();
        history::<ToyB>(30 + i, [1, 2, 1, 1], &ops, opens, c).map(|_| ())
    }));
    // conformance on BLS12-381
    let l: Vec<Vec<u64>> = t.q(
        (0..OPS).map(|o| vec![o, 21, (o * 7 + 3) % OPS]).collect(),
        (0..OPS * OPS).map(|o| vec![o % OPS, o / OPS, (o * 7 + 3) % OPS]).collect(),
    );
    v.push(part("bls", "histories on BLS12-381; the final commitments and proofs equal those of the exponent group", l.len() as u64, move |i, c| {
        let ops = &l[i as usize];
        let a = history::<ToyB>(60 + i, [1, 1, 1, 1], ops, opens, c)?;
        let b = history::<Bls>(60 + i, [1, 1, 1, 1], ops, |_| Ok(()), c)?;
        if a.past.len() != b.past.len() {
            return Err("histories differ on the two engines".into());
        }
        for (x, y) in a.past.iter().zip(&b.past) {
            same_proof(&x.1, &y.1).map_err(|m| format!("{m}: history {ops:?}"))?;
        }
        c.conf += 1;
        Ok(())
    }));
    v
}
