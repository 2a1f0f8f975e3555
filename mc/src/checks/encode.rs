//! C15 (round trips and transport) and C16 (malformed encodings, failing streams).
use super::sound::{honest, ncoords, Judge, St};
use super::*;
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError, Valid, Validate};
use ark_std::io::{Error, ErrorKind, Read, Write};
use groth_sahai::prover::{CProof, Commit, Commit1, Commit2, EquProof};
use groth_sahai::statement::EquType;
use groth_sahai::{Com1, Com2, CRS};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Compress {
    Yes,
    No,
}
impl Compress {
    fn r(self) -> ark_serialize::Compress {
        match self {
            Compress::Yes => ark_serialize::Compress::Yes,
            Compress::No => ark_serialize::Compress::No,
        }
    }
}

/// Any object of the library that can be encoded.
#[derive(Clone, Debug)]
enum Ob<E: Pairing> {
    Crs(CRS<E>),
    Eq(LEq<E>),
    C1(Commit1<E>),
    C2(Commit2<E>),
    Pf(EquProof<E>),
    Ty(EquType),
    K1(Com1<E>),
    K2(Com2<E>),
    Pfs(Vec<EquProof<E>>),
    Tys(Vec<EquType>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    Crs,
    Eq(Kind),
    C1,
    C2,
    Pf,
    Ty,
    K1,
    K2,
    Pfs,
    Tys,
}
type Res<X> = Result<X, SerializationError>;
macro_rules! each {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            Ob::Crs($x) => $e,
            Ob::Eq(LEq::Ppe($x)) => $e,
            Ob::Eq(LEq::M1($x)) => $e,
            Ob::Eq(LEq::M2($x)) => $e,
            Ob::Eq(LEq::Quad($x)) => $e,
            Ob::C1($x) => $e,
            Ob::C2($x) => $e,
            Ob::Pf($x) => $e,
            Ob::Ty($x) => $e,
            Ob::K1($x) => $e,
            Ob::K2($x) => $e,
            Ob::Pfs($x) => $e,
            Ob::Tys($x) => $e,
        }
    };
}
fn pts1<E: Pairing>(a: &[Com1<E>], b: &[Com1<E>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && a.1 == b.1)
}
fn pts2<E: Pairing>(a: &[Com2<E>], b: &[Com2<E>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && a.1 == b.1)
}
impl<E: Pairing> Ob<E> {
    fn ty(&self) -> T {
        match self {
            Ob::Crs(_) => T::Crs,
            Ob::Eq(LEq::Ppe(_)) => T::Eq(Kind::Ppe),
            Ob::Eq(LEq::M1(_)) => T::Eq(Kind::M1),
            Ob::Eq(LEq::M2(_)) => T::Eq(Kind::M2),
            Ob::Eq(LEq::Quad(_)) => T::Eq(Kind::Quad),
            Ob::C1(_) => T::C1,
            Ob::C2(_) => T::C2,
            Ob::Pf(_) => T::Pf,
            Ob::Ty(_) => T::Ty,
            Ob::K1(_) => T::K1,
            Ob::K2(_) => T::K2,
            Ob::Pfs(_) => T::Pfs,
            Ob::Tys(_) => T::Tys,
        }
    }
    fn write<W: Write>(&self, w: W, c: Compress) -> Res<()> {
        each!(self, x => x.serialize_with_mode(w, c.r()))
    }
    /// through the convenience methods
    fn write2<W: Write>(&self, w: W, c: Compress) -> Res<()> {
        match c {
            Compress::Yes => each!(self, x => x.serialize_compressed(w)),
            Compress::No => each!(self, x => x.serialize_uncompressed(w)),
        }
    }
    fn size(&self, c: Compress) -> usize {
        each!(self, x => x.serialized_size(c.r()))
    }
    fn size2(&self, c: Compress) -> usize {
        match c {
            Compress::Yes => each!(self, x => x.compressed_size()),
            Compress::No => each!(self, x => x.uncompressed_size()),
        }
    }
    fn valid(&self) -> Res<()> {
        each!(self, x => x.check())
    }
    fn bytes(&self, c: Compress) -> Res<Vec<u8>> {
        let mut v = vec![];
        self.write(&mut v, c)?;
        Ok(v)
    }
    fn read<R: Read>(t: T, r: R, c: Compress, v: Validate) -> Res<Self> {
        Ok(match t {
            T::Crs => Ob::Crs(CRS::deserialize_with_mode(r, c.r(), v)?),
            T::Eq(Kind::Ppe) => Ob::Eq(LEq::Ppe(CanonicalDeserialize::deserialize_with_mode(r, c.r(), v)?)),
            T::Eq(Kind::M1) => Ob::Eq(LEq::M1(CanonicalDeserialize::deserialize_with_mode(r, c.r(), v)?)),
            T::Eq(Kind::M2) => Ob::Eq(LEq::M2(CanonicalDeserialize::deserialize_with_mode(r, c.r(), v)?)),
            T::Eq(Kind::Quad) => Ob::Eq(LEq::Quad(CanonicalDeserialize::deserialize_with_mode(r, c.r(), v)?)),
            T::C1 => Ob::C1(Commit1::deserialize_with_mode(r, c.r(), v)?),
            T::C2 => Ob::C2(Commit2::deserialize_with_mode(r, c.r(), v)?),
            T::Pf => Ob::Pf(EquProof::deserialize_with_mode(r, c.r(), v)?),
            T::Ty => Ob::Ty(EquType::deserialize_with_mode(r, c.r(), v)?),
            T::K1 => Ob::K1(Com1::deserialize_with_mode(r, c.r(), v)?),
            T::K2 => Ob::K2(Com2::deserialize_with_mode(r, c.r(), v)?),
            T::Pfs => Ob::Pfs(Vec::deserialize_with_mode(r, c.r(), v)?),
            T::Tys => Ob::Tys(Vec::deserialize_with_mode(r, c.r(), v)?),
        })
    }
    /// Exact equality; hidden fields are compared through their encoding and debug output.
    fn same(&self, o: &Self) -> bool {
        let pf = |a: &EquProof<E>, b: &EquProof<E>| pts2(&a.pi, &b.pi) && pts1(&a.theta, &b.theta) && a.equ_type == b.equ_type && a == b;
        let q = match (self, o) {
            (Ob::Crs(a), Ob::Crs(b)) => {
                pts1(&a.u, &b.u) && pts2(&a.v, &b.v) && a.g1_gen == b.g1_gen && a.g2_gen == b.g2_gen && a.gt_gen == b.gt_gen
            }
            (Ob::Eq(LEq::Ppe(a)), Ob::Eq(LEq::Ppe(b))) => {
                a.a_consts == b.a_consts && a.b_consts == b.b_consts && a.gamma == b.gamma && a.target == b.target
            }
            (Ob::Eq(LEq::M1(a)), Ob::Eq(LEq::M1(b))) => {
                a.a_consts == b.a_consts && a.b_consts == b.b_consts && a.gamma == b.gamma && a.target == b.target
            }
            (Ob::Eq(LEq::M2(a)), Ob::Eq(LEq::M2(b))) => {
                a.a_consts == b.a_consts && a.b_consts == b.b_consts && a.gamma == b.gamma && a.target == b.target
            }
            (Ob::Eq(LEq::Quad(a)), Ob::Eq(LEq::Quad(b))) => {
                a.a_consts == b.a_consts && a.b_consts == b.b_consts && a.gamma == b.gamma && a.target == b.target
            }
            (Ob::C1(a), Ob::C1(b)) => pts1(&a.coms, &b.coms) && a == b,
            (Ob::C2(a), Ob::C2(b)) => pts2(&a.coms, &b.coms) && a == b,
            (Ob::Pf(a), Ob::Pf(b)) => pf(a, b),
            (Ob::Ty(a), Ob::Ty(b)) => a == b,
            (Ob::K1(a), Ob::K1(b)) => a.0 == b.0 && a.1 == b.1,
            (Ob::K2(a), Ob::K2(b)) => a.0 == b.0 && a.1 == b.1,
            (Ob::Pfs(a), Ob::Pfs(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| pf(a, b)),
            (Ob::Tys(a), Ob::Tys(b)) => a == b,
            _ => false,
        };
        q && [Compress::Yes, Compress::No].iter().all(|c| match (self.bytes(*c), o.bytes(*c)) {
            (Ok(a), Ok(b)) => a == b,
            _ => false,
        })
    }
}
const CS: [Compress; 2] = [Compress::Yes, Compress::No];
const VS: [Validate; 2] = [Validate::Yes, Validate::No];

// ---------------------------------------------------------------- building objects
fn gval<F: PrimeField>(seed: u64, i: usize) -> F {
    let z = mix(seed.wrapping_mul(0x2000_0003).wrapping_add(i as u64));
    match z % 6 {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(z >> 32),
        _ => {
            let mut b = [0u8; 32];
            for j in 0..4 {
                b[8 * j..8 * j + 8].copy_from_slice(&mix(z + j as u64 + 1).to_le_bytes());
            }
            F::from_le_bytes_mod_order(&b)
        }
    }
}
fn gvals<F: PrimeField>(seed: u64, n: usize) -> Vec<F> {
    (0..n).map(|i| gval(seed, i)).collect()
}
fn pairs<F: Copy>(v: &[F]) -> Vec<P2<F>> {
    v.chunks_exact(2).map(|c| [c[0], c[1]]).collect()
}
/// A commitment whose opening has `k` rows drawn from `rng` and whose public part is `coms`.
pub(super) fn commit1<N: Eng>(scalar: bool, k: usize, coms: Vec<Com1<N::E>>, rng: &mut impl ark_std::rand::Rng) -> Commit1<N::E> {
    let o = N::S::one();
    let key = crs::<N>(&Key::binding(o, o, o, o, o, o));
    let mut r = commit_x(&xvars::<N>(scalar, &vec![N::S::zero(); k.max(1)]), &key, rng);
    if k == 0 {
        let mut t = commit_x(&xvars::<N>(scalar, &[N::S::zero()]), &key, rng);
        Commit::append(&mut t, &mut r);
    }
    r.coms = coms;
    r
}
pub(super) fn commit2<N: Eng>(scalar: bool, k: usize, coms: Vec<Com2<N::E>>, rng: &mut impl ark_std::rand::Rng) -> Commit2<N::E> {
    let o = N::S::one();
    let key = crs::<N>(&Key::binding(o, o, o, o, o, o));
    let mut r = commit_y(&yvars::<N>(scalar, &vec![N::S::zero(); k.max(1)]), &key, rng);
    if k == 0 {
        let mut t = commit_y(&yvars::<N>(scalar, &[N::S::zero()]), &key, rng);
        Commit::append(&mut t, &mut r);
    }
    r.coms = coms;
    r
}
/// A proof of the given kind with randomness from `rng` and replaced public parts.
pub(super) fn proof<N: Eng>(kind: Kind, tag: Kind, pi: Vec<Com2<N::E>>, th: Vec<Com1<N::E>>, rng: &mut impl ark_std::rand::Rng) -> EquProof<N::E> {
    let o = N::S::one();
    let k = Key::binding(o, o, o, o, o, o);
    let e = Eqn { kind, a: vec![o], b: vec![o], gamma: vec![vec![o]], t: N::S::from(3u64) };
    let mut p = leq::<N>(&e).commit_and_prove(&xvars::<N>(kind.xs(), &[o]), &yvars::<N>(kind.ys(), &[o]), &crs::<N>(&k), rng);
    let mut q = p.equ_proofs.remove(0);
    q.pi = pi;
    q.theta = th;
    q.equ_type = etype(tag);
    q
}
fn coms1<N: Eng>(v: &[N::S]) -> Vec<Com1<N::E>> {
    pairs(v).iter().map(com1::<N>).collect()
}
fn coms2<N: Eng>(v: &[N::S]) -> Vec<Com2<N::E>> {
    pairs(v).iter().map(com2::<N>).collect()
}
fn equation<N: Eng>(kind: Kind, na: usize, nb: usize, rows: &[usize], seed: u64) -> Ob<N::E> {
    let e = Eqn {
        kind,
        a: gvals::<N::S>(seed, na),
        b: gvals(seed + 1, nb),
        gamma: rows.iter().enumerate().map(|(i, n)| gvals(seed + 2 + i as u64, *n)).collect(),
        t: gval(seed + 9, 0),
    };
    Ob::Eq(leq::<N>(&e))
}
fn key_of<N: Eng>(nu: usize, nv: usize, seed: u64) -> Ob<N::E> {
    let k = gvals::<N::S>(seed, 3);
    Ob::Crs(CRS {
        u: coms1::<N>(&gvals(seed + 1, 2 * nu)),
        v: coms2::<N>(&gvals(seed + 2, 2 * nv)),
        g1_gen: N::g1(&k[0]),
        g2_gen: N::g2(&k[1]),
        gt_gen: N::gt(&k[2]),
    })
}
/// Objects of all types and many shapes.
fn menu<N: Eng>(sizes: &[usize], seed: u64) -> Vec<Ob<N::E>> {
    let mut v = sized::<N>(sizes, sizes, usize::MAX, seed);
    v.extend(odd_shapes::<N>(seed + 100_000));
    v
}
fn sized<N: Eng>(rows: &[usize], cols: &[usize], most: usize, seed: u64) -> Vec<Ob<N::E>> {
    let mut v = vec![];
    let mut s = seed * 1000;
    let mut nx = || {
        s += 20;
        s
    };
    for &a in rows {
        for &b in cols {
            if a.max(1).saturating_mul(b.max(1)) > most {
                continue;
            }
            v.push(key_of::<N>(a, b, nx()));
            for kind in KINDS {
                v.push(equation::<N>(kind, a, b, &vec![a; b], nx()));
                let q = nx();
                v.push(Ob::Pf(proof::<N>(KINDS[(a + b) % 4], kind, coms2::<N>(&gvals(q, 2 * a)), coms1::<N>(&gvals(q + 1, 2 * b)), &mut Stream::seeded(q))));
            }
            for scalar in [false, true] {
                let q = nx();
                v.push(Ob::C1(commit1::<N>(scalar, b, coms1::<N>(&gvals(q, 2 * a)), &mut Stream::seeded(q))));
                let q = nx();
                v.push(Ob::C2(commit2::<N>(scalar, b, coms2::<N>(&gvals(q, 2 * a)), &mut Stream::seeded(q))));
            }
        }
    }
    v
}
fn odd_shapes<N: Eng>(seed: u64) -> Vec<Ob<N::E>> {
    let mut v = vec![];
    let mut s = seed * 1000;
    let mut nx = || {
        s += 20;
        s
    };
    for rows in [vec![], vec![0], vec![0, 0], vec![1, 0], vec![0, 1], vec![2, 1], vec![1, 2, 0], vec![3, 1, 2], vec![1, 1, 1]] {
        for kind in KINDS {
            v.push(equation::<N>(kind, 1, 2, &rows, nx()));
        }
    }
    for i in 0..6 {
        v.push(Ob::K1(coms1::<N>(&gvals(nx() + i, 2))[0]));
        v.push(Ob::K2(coms2::<N>(&gvals(nx() + i, 2))[0]));
    }
    for kind in KINDS {
        v.push(Ob::Ty(etype(kind)));
    }
    // commitments to scalars and to group elements appended to one another: openings with rows of two widths
    for l in 2..5usize {
        for w in 1..(1 << l) - 1usize {
            let q = nx();
            let mut r = Stream::seeded(q);
            let mut a = commit1::<N>(w & 1 == 1, 1, coms1::<N>(&gvals(q, 2)), &mut r);
            let mut b = commit2::<N>(w & 1 == 1, 1, coms2::<N>(&gvals(q + 1, 2)), &mut r);
            for i in 1..l {
                let mut k = commit1::<N>(w >> i & 1 == 1, 1, coms1::<N>(&gvals(q + 2 + i as u64, 2)), &mut r);
                Commit::append(&mut a, &mut k);
                let mut k = commit2::<N>(w >> i & 1 == 1, 1, coms2::<N>(&gvals(q + 7 + i as u64, 2)), &mut r);
                Commit::append(&mut b, &mut k);
            }
            v.push(Ob::C1(a));
            v.push(Ob::C2(b));
        }
    }
    for l in 0..4usize {
        v.push(Ob::Tys((0..l).map(|i| etype(KINDS[(i * 3 + l) % 4])).collect()));
        v.push(Ob::Pfs(
            (0..l)
                .map(|i| {
                    let q = nx();
                    proof::<N>(KINDS[i % 4], KINDS[(i + l) % 4], coms2::<N>(&gvals(q, 4)), coms1::<N>(&gvals(q + 1, 2 * l)), &mut Stream::seeded(q))
                })
                .collect(),
        ));
    }
    v
}

// ---------------------------------------------------------------- C15
fn round<E: Pairing>(o: &Ob<E>, c: &mut Cnt) -> Result<(), String> {
    let t = o.ty();
    c.sample(|| format!("round trip of {o:?}").chars().take(500).collect());
    for cm in CS {
        let e = |w: &str| format!("{w} ({cm:?}): {o:?}");
        let b = lib(|| o.bytes(cm)).map_err(|m| e(&format!("encoding panics ({m})")))?.map_err(|x| e(&format!("encoding fails: {x}")))?;
        let mut b2 = vec![];
        lib(|| o.write2(&mut b2, cm)).map_err(|m| e(&format!("encoding panics ({m})")))?.map_err(|x| e(&format!("encoding fails: {x}")))?;
        if b2 != b {
            return Err(e("two ways of encoding the same object differ"));
        }
        let (s1, s2) = (lib(|| o.size(cm))?, lib(|| o.size2(cm))?);
        if s1 != b.len() || s2 != b.len() {
            return Err(e(&format!("announced size {s1}/{s2}, produced {} bytes", b.len())));
        }
        for v in VS {
            c.st();
            c.tr(2);
            for tail in [0usize, 3] {
                let mut all = b.clone();
                all.extend(std::iter::repeat(0xA5).take(tail));
                let mut r = &all[..];
                let d = lib(|| Ob::<E>::read(t, &mut r, cm, v))
                    .map_err(|m| e(&format!("decoding panics ({m})")))?
                    .map_err(|x| e(&format!("decoding a produced encoding fails: {x}")))?;
                if r.len() != tail {
                    return Err(e(&format!("decoding leaves {} bytes, expected {tail}", r.len())));
                }
                if !lib(|| o.same(&d))? {
                    return Err(e(&format!("decoded object differs: {d:?}")));
                }
            }
        }
    }
    if let Err(x) = lib(|| o.valid())? {
        return Err(format!("a valid object does not pass validation: {x}: {o:?}"));
    }
    Ok(())
}
/// all lists of at most l entries of base b: index -> list
fn nlists(b: u64, l: usize) -> u64 {
    (0..=l).map(|j| pw(b, j)).sum()
}
fn list(b: u64, l: usize, mut i: u64) -> Vec<u64> {
    for j in 0..=l {
        let n = pw(b, j);
        if i < n {
            return (0..j).map(|_| { let r = i % b; i /= b; r }).collect();
        }
        i -= n;
    }
    unreachable!()
}
fn gammas() -> Vec<Vec<Vec<F3>>> {
    let f = |n: usize| -> Vec<Vec<F3>> { (0..pw(3, n)).map(|i| Ix(i).fs(3, n)).collect() };
    let mut g = vec![vec![]];
    for n in 0..=2 {
        g.extend(f(n).into_iter().map(|r| vec![r]));
    }
    for (a, b) in [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)] {
        for x in f(a) {
            for y in f(b) {
                g.push(vec![x.clone(), y]);
            }
        }
    }
    g
}
fn p2_of(i: u64) -> Vec<F3> {
    vec![F3::from(i % 3), F3::from(i / 3)]
}
fn all_small(t: Tier) -> Vec<Part> {
    let mut v = vec![];
    let g = gammas();
    let (ng, l) = (g.len() as u64, nlists(3, 2));
    v.push(part("eq-all-p3", "every equation of the four types over the group of order 3 with constant lists of 0..=2 entries, coefficient matrices of 0..=2 rows (also ragged or empty) and every target", 4 * 3 * l * l * ng, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let t = ix.f(3);
        let a = list(3, 2, ix.take(l)).into_iter().map(F3::from).collect();
        let b = list(3, 2, ix.take(l)).into_iter().map(F3::from).collect();
        let e = Eqn { kind, a, b, gamma: g[ix.take(ng) as usize].clone(), t };
        c.sample(|| format!("{e:?}"));
        round::<E3>(&Ob::Eq(leq::<E3>(&e)), c)
    }));
    let l = nlists(9, 2);
    v.push(part("crs-all-p3", "every key (also degenerate) with 0..=2 vectors on each side over the group of order 3", l * l * 27, move |i, c| {
        let mut ix = Ix(i);
        let u: Vec<F3> = list(9, 2, ix.take(l)).into_iter().flat_map(p2_of).collect();
        let w: Vec<F3> = list(9, 2, ix.take(l)).into_iter().flat_map(p2_of).collect();
        let (a, b, g) = (ix.f(3), ix.f(3), ix.f(3));
        let k = CRS::<E3> { u: coms1::<E3>(&u), v: coms2::<E3>(&w), g1_gen: E3::g1(&a), g2_gen: E3::g2(&b), gt_gen: E3::gt(&g) };
        round(&Ob::Crs(k), c)
    }));
    let nr = 1 + 3 + 9 + 9 + 81;
    v.push(part("commit-all-p3", "every commitment of 0..=2 elements with every opening of 0..=2 rows of 1 or 2 entries over the group of order 3, both sides", 2 * l * nr, move |i, c| {
        let mut ix = Ix(i);
        let second = ix.bit();
        let cs: Vec<F3> = list(9, 2, ix.take(l)).into_iter().flat_map(p2_of).collect();
        let mut r = ix.0;
        let (mut scalar, mut k, mut d) = (false, 0, 0);
        for (s, kk, w) in [(true, 0, 0), (true, 1, 1), (true, 2, 2), (false, 1, 2), (false, 2, 4)] {
            if r < pw(3, w) {
                (scalar, k, d) = (s, kk, w);
                break;
            }
            r -= pw(3, w);
        }
        let dr: Vec<u8> = (0..d).map(|j| (r / pw(3, j) % 3) as u8).collect();
        let mut rng = Tree::with_prefix(3, &dr);
        let o = if second { Ob::C2(commit2::<E3>(scalar, k, coms2::<E3>(&cs), &mut rng)) } else { Ob::C1(commit1::<E3>(scalar, k, coms1::<E3>(&cs), &mut rng)) };
        round(&o, c)
    }));
    let np = t.q(9, 27);
    v.push(part("proof-all-p3", "every proof with 0..=2 elements on each side, every type label and every proof randomness pattern of its kind over the group of order 3", l * l * 4 * 4 * np, move |i, c| {
        let mut ix = Ix(i);
        let pi: Vec<F3> = list(9, 2, ix.take(l)).into_iter().flat_map(p2_of).collect();
        let th: Vec<F3> = list(9, 2, ix.take(l)).into_iter().flat_map(p2_of).collect();
        let (kind, tag) = (Kind::of(ix.take(4)), Kind::of(ix.take(4)));
        let w = kind.npi() * kind.ntheta();
        if ix.0 >= pw(3, w) {
            return Ok(());
        }
        let mut dr = vec![0u8; ndraw_com(kind, 1, 1)];
        for j in 0..w {
            dr.push((ix.0 * (if w > 3 { 8 } else { 1 }) / pw(3, j) % 3) as u8);
        }
        round(&Ob::Pf(proof::<E3>(kind, tag, coms2::<E3>(&pi), coms1::<E3>(&th), &mut Tree::with_prefix(3, &dr))), c)
    }));
    v.push(part("com-all-p7", "every commitment group element of the groups of order 7 and every equation type", 49 * 2 + 4, |i, c| {
        if i >= 98 {
            let o = Ob::<E7>::Ty(etype(Kind::of(i - 98)));
            for cm in CS {
                if lib(|| o.bytes(cm))?.map_err(|e| e.to_string())? != [(i - 98) as u8] {
                    return Err(format!("equation type {o:?} is not encoded as the number {}", i - 98));
                }
            }
            return round(&o, c);
        }
        let z = [F7::from(i / 2 % 7), F7::from(i / 14)];
        round(&if i % 2 == 0 { Ob::<E7>::K1(com1::<E7>(&z)) } else { Ob::K2(com2::<E7>(&z)) }, c)
    }));
    v
}
/// the commitments and proof of an honest prover or a variation of them, before and after transport
fn sent<N: Eng>(j: &Judge<N>, s: &St<N::S>, modes: &[(Compress, Validate)], c: &mut Cnt) -> Result<(), String> {
    let kind = s.e.kind;
    let mut p = j.shell(kind)?;
    set::<N>(&mut p, kind, &s.f);
    let (k, e) = (crs::<N>(&s.k), leq::<N>(&s.e));
    let want = lib(|| e.verify(&p, &k));
    c.tag(if want == Ok(true) { "accepted" } else { "rejected" });
    for (cm, v) in modes {
        c.st();
        c.tr(6);
        let r = lib(|| -> Res<(Ob<N::E>, Ob<N::E>, CProof<N::E>)> {
            // one stream with everything a verifier needs
            let mut b = vec![];
            Ob::Crs(k.clone()).write(&mut b, *cm)?;
            Ob::Eq(e.clone()).write(&mut b, *cm)?;
            Ob::C1(p.xcoms.clone()).write(&mut b, *cm)?;
            Ob::C2(p.ycoms.clone()).write(&mut b, *cm)?;
            Ob::Pf(p.equ_proofs[0].clone()).write(&mut b, *cm)?;
            let mut r = &b[..];
            let k2 = Ob::read(T::Crs, &mut r, *cm, *v)?;
            let e2 = Ob::read(T::Eq(kind), &mut r, *cm, *v)?;
            let xcoms = Commit1::deserialize_with_mode(&mut r, cm.r(), *v)?;
            let ycoms = Commit2::deserialize_with_mode(&mut r, cm.r(), *v)?;
            let q = EquProof::deserialize_with_mode(&mut r, cm.r(), *v)?;
            Ok((k2, e2, CProof { xcoms, ycoms, equ_proofs: vec![q] }))
        })
        .map_err(|m| format!("transport panics ({m}): {s:?}"))?
        .map_err(|x| format!("transport fails ({x}): {s:?}"))?;
        let (Ob::Crs(k2), Ob::Eq(e2), p2) = r else { unreachable!() };
        let got = lib(|| e2.verify(&p2, &k2));
        if got != want {
            return Err(format!("{}: verdict {want:?} before and {got:?} after transport ({cm:?}): {s:?}", N::NAME));
        }
    }
    Ok(())
}
fn modes() -> Vec<(Compress, Validate)> {
    CS.iter().flat_map(|c| VS.iter().map(move |v| (*c, *v))).collect()
}
fn transport(t: Tier) -> Vec<Part> {
    let mut v = vec![];
    let keys = few_keys::<F3>(t.q(2, 6), 3, false);
    let shapes: Vec<(usize, usize)> = t.q(vec![(1, 1), (2, 1), (1, 2)], vec![(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)]);
    let nb = t.q(3, 12);
    for kind in KINDS {
        for &(m, n) in &shapes {
            let keys = keys.clone();
            let nk = keys.len() as u64;
            let nc = ncoords(kind, m, n) as u64;
            let j = Judge::<E3>::new();
            v.push(
                part(
                    &format!("transport-{kind:?}-{m}x{n}"),
                    "honest transcripts and every change of one coordinate of commitments, proof, statement or key (order 3): verdict before and after sending key, statement, commitments and proof through one byte stream in every mode",
                    nk * nb * (1 + 2 * nc),
                    move |i, c| {
                        let mut ix = Ix(i);
                        let k = &keys[ix.take(nk) as usize];
                        let b = ix.take(nb);
                        let tot = ncoef(m, n) + m + n + ndraw(kind, m, n);
                        let z: Vec<F3> = (0..tot).map(|q| F3::from(mix(b * 1000 + q as u64) % 3)).collect();
                        let e = eqn_for(kind, m, n, &z, &z[ncoef(m, n)..][..m], &z[ncoef(m, n) + m..][..n]);
                        let f = honest(k, &e, &z[ncoef(m, n)..][..m], &z[ncoef(m, n) + m..][..n], &z[ncoef(m, n) + m + n..]);
                        let mut s = St { k: k.clone(), e, f };
                        if ix.0 > 0 {
                            let d = ix.0 - 1;
                            *s.coords()[(d / 2) as usize] += F3::from(1 + d % 2);
                        }
                        sent::<E3>(&j, &s, &modes(), c)
                    },
                )
                .need(&["accepted", "rejected"]),
            );
        }
    }
    let j = Judge::<Bls>::new();
    let nb = t.q(1, 4);
    let ncs: Vec<(Kind, u64)> = KINDS.iter().flat_map(|k| (0..=ncoords(*k, 2, 1) as u64).map(move |i| (*k, i))).collect();
    let l = ncs.len() as u64;
    v.push(
        part("transport-bls", "2x1 transcripts on BLS12-381, honest and with every coordinate changed", nb * l, move |i, c| {
            let (kind, d) = ncs[(i % l) as usize];
            let b = 77 + i / l;
            let (m, n) = (2, 1);
            let z = mixeds(b, ncoef(m, n) + m + n + ndraw(kind, m, n));
            let k = big_key(b);
            let e = eqn_for(kind, m, n, &z, &z[ncoef(m, n)..][..m], &z[ncoef(m, n) + m..][..n]);
            let f = honest(&k, &e, &z[ncoef(m, n)..][..m], &z[ncoef(m, n) + m..][..n], &z[ncoef(m, n) + m + n..]);
            let mut s = St { k, e, f };
            if d > 0 {
                *s.coords()[d as usize - 1] += FrB::one();
            }
            c.conf += 1;
            sent::<Bls>(&j, &s, &[(Compress::Yes, Validate::Yes), (Compress::No, Validate::No)], c)
        })
        .need(&["accepted", "rejected"]),
    );
    v
}
/// Decoded commitments and keys are as good as the originals for further use.
fn reuse<N: Eng>(kind: Kind, m: usize, n: usize, seed: u64, cm: Compress, va: Validate, c: &mut Cnt) -> Result<(), String> {
    let z = gvals::<N::S>(seed, ncoef(m, n) + m + n + 6);
    let (x, y) = (&z[ncoef(m, n)..][..m], &z[ncoef(m, n) + m..][..n]);
    let w = &z[ncoef(m, n) + m + n..];
    let o = |q: N::S| if q.is_zero() { N::S::one() } else { q };
    let k = Key::binding(o(w[0]), w[1], o(w[2]), o(w[3]), w[4], o(w[5]));
    let e = eqn_for(kind, m, n, &z, x, y);
    let (lk, le) = (crs::<N>(&k), leq::<N>(&e));
    let (xv, yv) = (xvars::<N>(kind.xs(), x), yvars::<N>(kind.ys(), y));
    let back = |o: Ob<N::E>| -> Result<Ob<N::E>, String> {
        let t = o.ty();
        let b = lib(|| o.bytes(cm))?.map_err(|e| e.to_string())?;
        lib(|| Ob::read(t, &b[..], cm, va))?.map_err(|e| e.to_string())
    };
    let mut r = Stream::seeded(seed);
    let (xc, yc) = lib(|| (commit_x(&xv, &lk, &mut r), commit_y(&yv, &lk, &mut r)))?;
    let p = lib(|| le.prove(&xv, &yv, &xc, &yc, &lk, &mut r.clone()))?;
    let (Ob::Crs(k2), Ob::Eq(e2), Ob::C1(xc2), Ob::C2(yc2)) = (back(Ob::Crs(lk.clone()))?, back(Ob::Eq(le.clone()))?, back(Ob::C1(xc.clone()))?, back(Ob::C2(yc.clone()))?) else { unreachable!() };
    let q = lib(|| e2.prove(&xv, &yv, &xc2, &yc2, &k2, &mut r.clone())).map_err(|m| format!("{}: proving with decoded commitments panics ({m})", N::NAME))?;
    c.st();
    c.tr(6);
    if !Ob::Pf(p).same(&Ob::Pf(q.clone())) {
        return Err(format!("{}: decoded commitments give another proof: {kind:?} {m}x{n} key {k:?} equation {e:?}", N::NAME));
    }
    let Ob::Pf(q) = back(Ob::Pf(q))? else { unreachable!() };
    let cp = CProof { xcoms: xc2, ycoms: yc2, equ_proofs: vec![q] };
    if lib(|| e2.verify(&cp, &k2)) != Ok(true) {
        return Err(format!("{}: a true equation proved and verified with decoded objects is rejected: {kind:?} {m}x{n} key {k:?} equation {e:?}", N::NAME));
    }
    Ok(())
}
fn streams<N: Eng>(t: Tier) -> Part {
    let all = menu::<N>(&[0, 1, 2], 3);
    // a few shapes of each type
    let mut pick: Vec<Ob<N::E>> = vec![];
    for o in all {
        let have = pick.iter().filter(|p| p.ty() == o.ty()).count();
        if have < t.q(2, 3) {
            pick.push(o)
        }
    }
    let l = pick.len() as u64;
    part(
        &format!("streams-{}", N::NAME),
        "every sequence of three objects of all types written to one stream and read back in order, in all modes",
        l * l * l,
        move |i, c| {
            let mut ix = Ix(i);
            let os: Vec<&Ob<N::E>> = (0..3).map(|_| &pick[ix.take(l) as usize]).collect();
            for (cm, v) in modes() {
                c.st();
                c.tr(6);
                let mut b = vec![];
                for o in &os {
                    lib(|| o.write(&mut b, cm))?.map_err(|e| format!("encoding fails: {e}: {o:?}"))?;
                }
                b.extend([1, 2, 3]);
                let mut r = &b[..];
                for (q, o) in os.iter().enumerate() {
                    let d = lib(|| Ob::<N::E>::read(o.ty(), &mut r, cm, v))
                        .map_err(|m| format!("decoding panics ({m})"))?
                        .map_err(|e| format!("object {q} of the stream {os:?} cannot be read back ({cm:?}): {e}"))?;
                    if !lib(|| o.same(&d))? {
                        return Err(format!("object {q} of the stream {os:?} is read back as {d:?} ({cm:?})"));
                    }
                }
                if r != [1, 2, 3] {
                    return Err(format!("bytes after the stream {os:?} were consumed or left ({cm:?})"));
                }
            }
            Ok(())
        },
    )
}
pub fn roundtrip(t: Tier) -> Vec<Part> {
    let mut v = all_small(t);
    let sizes: &[usize] = t.q(&[0, 1, 2, 3, 5, 8, 17], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 130]);
    let seeds = t.q(1, 4);
    for s in 0..seeds {
        let mb = menu::<ToyB>(sizes, 5 + s);
        v.push(part("shapes", "objects of all types with lists and matrices of many sizes, boundary and generic entries (255-bit order)", mb.len() as u64, move |i, c| round(&mb[i as usize], c)));
    }
    let cat = &catalogue().all[..t.q(catalogue().short, catalogue().all.len())];
    v.push(part("scalars", &format!("each of {} scalars (small, one or two powers of two, digit patterns, quotients, roots, endomorphism eigenvalues) and each group element of such exponent in every kind of place of every object (255-bit order)", cat.len()), cat.len() as u64, move |i, c| {
        let s = cat[i as usize];
        let a = mixed(i, 0);
        let sc = || [s, a, s, s];
        let k = Key { u: [[s, a], [a, s]], v: [[a, s], [s, a]], g1: s, g2: a, gt: s };
        let mut os: Vec<Ob<ToyB>> = vec![Ob::Crs(crs::<ToyB>(&k)), Ob::K1(com1::<ToyB>(&[a, s])), Ob::K2(com2::<ToyB>(&[s, a]))];
        for kind in KINDS {
            os.push(Ob::Eq(leq::<ToyB>(&Eqn { kind, a: vec![s, a], b: vec![a, s], gamma: vec![vec![s], vec![a, s]], t: s })));
        }
        let kk = crs::<ToyB>(&big_key(3));
        for sca in [false, true] {
            let (x, y) = (xvars::<ToyB>(sca, &[s, a]), yvars::<ToyB>(sca, &[a, s]));
            os.push(Ob::C1(lib(|| commit_x(&x, &kk, &mut Stream::scalars(&sc(), 1)))?));
            os.push(Ob::C2(lib(|| commit_y(&y, &kk, &mut Stream::scalars(&sc(), 1)))?));
        }
        let kind = Kind::of(i % 4);
        os.push(Ob::Pf(proof::<ToyB>(kind, kind, vec![com2::<ToyB>(&[s, a]); kind.npi()], vec![com1::<ToyB>(&[a, s]); kind.ntheta()], &mut Stream::scalars(&[s; 12], 1))));
        for o in &os {
            round(o, c)?;
        }
        Ok(())
    }));
    // both sides of what one and two byte counters hold
    let long: &[usize] = t.q(&[1, 2, 63, 64, 127, 128, 255, 256, 257], &[1, 2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 1024]);
    let mut lb = sized::<E5>(long, long, t.q(1100, 70_000), 21);
    lb.extend(sized::<E5>(&[65_535, 65_536, 65_537], &[1], 70_000, 22));
    lb.extend(sized::<E5>(&[1], &[65_535, 65_536, 65_537], 70_000, 23));
    v.push(part("long-p5", "objects of all types with long lists, long rows and many rows: around 64, 128, 256 and 65536 entries (order 5)", lb.len() as u64, move |i, c| round(&lb[i as usize], c)));
    let mut mb = menu::<Bls>(t.q(&[0, 1, 2], &[0, 1, 2, 3, 9]), 11);
    mb.extend(t.q(vec![], menu::<Bls>(&[0, 1, 2, 4], 12)));
    v.push(part("bls", "objects of all types and shapes on BLS12-381", mb.len() as u64, move |i, c| {
        c.conf += 1;
        round(&mb[i as usize], c)
    }));
    v.push(streams::<E5>(t));
    if t == Tier::Thorough {
        v.push(streams::<ToyB>(t));
    }
    v.extend(transport(t));
    let sh = t.q(3usize, 5);
    let ns = t.q(4u64, 40);
    v.push(part("reuse", "keys, statements and commitments decoded and then used for proving: same proof as with the originals, and it verifies (255-bit order)", 4 * (sh * sh) as u64 * ns * 4, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let (m, n) = (1 + ix.take(sh as u64) as usize, 1 + ix.take(sh as u64) as usize);
        let (cm, va) = (CS[ix.take(2) as usize], VS[ix.take(2) as usize]);
        reuse::<ToyB>(kind, m, n, 50 + ix.0, cm, va, c)
    }));
    v.push(part("reuse-bls", "the same on BLS12-381", 16, move |i, c| {
        let mut ix = Ix(i);
        let kind = Kind::of(ix.take(4));
        let (cm, va) = (CS[ix.take(2) as usize], VS[ix.take(2) as usize]);
        c.conf += 1;
        reuse::<Bls>(kind, 2, 1, 50, cm, va, c)
    }));
    v
}

// ---------------------------------------------------------------- C16
/// A byte source that misbehaves as told.
struct Src<'a> {
    b: &'a [u8],
    pos: usize,
    /// how many bytes each call may deliver, cyclically (empty: as many as asked for)
    chunks: &'a [usize],
    calls: usize,
    /// error at this position
    fail: Option<(usize, ErrorKind)>,
    /// report Interrupted once when reaching this position
    intr: Option<usize>,
}
impl Read for Src<'_> {
    fn read(&mut self, out: &mut [u8]) -> ark_std::io::Result<usize> {
        if out.is_empty() {
            return Ok(0);
        }
        let mut n = out.len().min(self.b.len() - self.pos);
        if !self.chunks.is_empty() {
            n = n.min(self.chunks[self.calls % self.chunks.len()]);
        }
        self.calls += 1;
        if let Some((at, kind)) = self.fail {
            if self.pos >= at {
                return Err(Error::new(kind, "stream failure"));
            }
            n = n.min(at - self.pos);
        }
        if let Some(at) = self.intr {
            if self.pos == at {
                self.intr = None;
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            if at > self.pos {
                n = n.min(at - self.pos);
            }
        }
        out[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct Sink<'a> {
    b: Vec<u8>,
    chunks: &'a [usize],
    calls: usize,
    fail: Option<(usize, ErrorKind)>,
    /// accept nothing more after this many bytes
    full: Option<usize>,
    intr: Option<usize>,
}
impl Write for Sink<'_> {
    fn write(&mut self, d: &[u8]) -> ark_std::io::Result<usize> {
        if d.is_empty() {
            return Ok(0);
        }
        let mut n = d.len();
        if !self.chunks.is_empty() {
            n = n.min(self.chunks[self.calls % self.chunks.len()]);
        }
        self.calls += 1;
        let pos = self.b.len();
        if let Some((at, kind)) = self.fail {
            if pos >= at {
                return Err(Error::new(kind, "stream failure"));
            }
            n = n.min(at - pos);
        }
        if let Some(at) = self.full {
            if pos >= at {
                return Ok(0);
            }
            n = n.min(at - pos);
        }
        if let Some(at) = self.intr {
            if pos == at {
                self.intr = None;
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            if at > pos {
                n = n.min(at - pos);
            }
        }
        self.b.extend_from_slice(&d[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> ark_std::io::Result<()> {
        Ok(())
    }
}
fn refused<E: Pairing>(t: T, b: &[u8], cm: Compress, v: Validate, what: &str, c: &mut Cnt) -> Result<(), String> {
    c.st();
    c.tr(1);
    match lib(|| Ob::<E>::read(t, b, cm, v)) {
        Err(m) => Err(format!("decoding {t:?} with {what} panics ({m}) ({cm:?}): {b:02x?}")),
        Ok(Ok(o)) => Err(format!("decoding {t:?} with {what} succeeds ({cm:?}): {b:02x?} gives {o:?}")),
        Ok(Err(_)) => Ok(()),
    }
}
const CHUNKS: [&[usize]; 6] = [&[1], &[2], &[3], &[1, 7], &[5, 1, 1], &[31, 2]];
fn faults<E: Pairing>(o: &Ob<E>, step: usize, c: &mut Cnt) -> Result<(), String> {
    let t = o.ty();
    c.sample(|| format!("every truncation and read or write error of {o:?}").chars().take(500).collect());
    for cm in CS {
        let b = lib(|| o.bytes(cm))?.map_err(|e| format!("encoding fails: {e}: {o:?}"))?;
        // truncation at every position
        for l in (0..b.len()).step_by(step) {
            c.tag("truncated");
            refused::<E>(t, &b[..l], cm, Validate::Yes, &format!("only {l} of {} bytes", b.len()), c)?;
            refused::<E>(t, &b[..l], cm, Validate::No, &format!("only {l} of {} bytes", b.len()), c)?;
        }
        // read errors at every position
        for at in (0..b.len()).step_by(step) {
            for kind in [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidData] {
                c.st();
                c.tr(1);
                c.tag("read error");
                let mut s = Src { b: &b, pos: 0, chunks: &[], calls: 0, fail: Some((at, kind)), intr: None };
                match lib(|| Ob::<E>::read(t, &mut s, cm, Validate::Yes)) {
                    Err(m) => return Err(format!("a read error after {at} bytes makes decoding panic ({m}) ({cm:?}): {o:?}")),
                    Ok(Ok(_)) => return Err(format!("a read error after {at} bytes is not reported ({cm:?}): {o:?}")),
                    Ok(Err(_)) => {}
                }
            }
            let mut s = Src { b: &b, pos: 0, chunks: &[], calls: 0, fail: None, intr: Some(at) };
            same_read(o, &mut s, cm, &format!("interrupted after {at} bytes"), c)?;
        }
        for ch in CHUNKS {
            let mut s = Src { b: &b, pos: 0, chunks: ch, calls: 0, fail: None, intr: None };
            same_read(o, &mut s, cm, &format!("reads of {ch:?} bytes"), c)?;
            let mut k = Sink { b: vec![], chunks: ch, calls: 0, fail: None, full: None, intr: None };
            wrote(o, &mut k, &b, cm, &format!("writes of {ch:?} bytes"), c)?;
        }
        for at in (0..b.len()).step_by(step) {
            for (fail, full) in [(Some((at, ErrorKind::Other)), None), (Some((at, ErrorKind::BrokenPipe)), None), (None, Some(at))] {
                c.st();
                c.tr(1);
                c.tag("write error");
                let mut k = Sink { b: vec![], chunks: &[], calls: 0, fail, full, intr: None };
                match lib(|| o.write(&mut k, cm)) {
                    Err(m) => return Err(format!("a write error after {at} bytes makes encoding panic ({m}) ({cm:?}): {o:?}")),
                    Ok(Ok(_)) => return Err(format!("a write error after {at} bytes is not reported ({cm:?}): {o:?}")),
                    Ok(Err(_)) => {}
                }
            }
            let mut k = Sink { b: vec![], chunks: &[], calls: 0, fail: None, full: None, intr: Some(at) };
            wrote(o, &mut k, &b, cm, &format!("interrupted after {at} bytes"), c)?;
        }
    }
    Ok(())
}
fn same_read<E: Pairing>(o: &Ob<E>, s: &mut Src, cm: Compress, what: &str, c: &mut Cnt) -> Result<(), String> {
    c.st();
    c.tr(1);
    match lib(|| Ob::<E>::read(o.ty(), &mut *s, cm, Validate::Yes)) {
        Ok(Ok(d)) if s.pos == s.b.len() && lib(|| o.same(&d))? => Ok(()),
        Ok(Ok(d)) => Err(format!("{what}: decoded {d:?} after {} of {} bytes ({cm:?}): {o:?}", s.pos, s.b.len())),
        Ok(Err(e)) => Err(format!("{what}: decoding fails with {e} ({cm:?}): {o:?}")),
        Err(m) => Err(format!("{what}: decoding panics ({m}) ({cm:?}): {o:?}")),
    }
}
fn wrote<E: Pairing>(o: &Ob<E>, k: &mut Sink, b: &[u8], cm: Compress, what: &str, c: &mut Cnt) -> Result<(), String> {
    c.st();
    c.tr(1);
    match lib(|| o.write(&mut *k, cm)) {
        Ok(Ok(())) if k.b == b => Ok(()),
        Ok(Ok(())) => Err(format!("{what}: other bytes are written ({cm:?}): {o:?}")),
        Ok(Err(e)) => Err(format!("{what}: encoding fails with {e} ({cm:?}): {o:?}")),
        Err(m) => Err(format!("{what}: encoding panics ({m}) ({cm:?}): {o:?}")),
    }
}
/// Elements outside their group.
trait Bad: Eng {
    fn bad1(which: usize) -> Option<A1<Self>>;
    fn bad2(which: usize) -> Option<A2<Self>>;
    fn badt(which: usize) -> Option<GT<Self>>;
    /// such elements that can only be expressed uncompressed
    fn only_uncompressed(which: usize) -> bool;
}
const NBAD: usize = 3;
impl<C: ToyCfg> Bad for Toy<C> {
    fn bad1(w: usize) -> Option<A1<Self>> {
        let mut g = G::new([C::F::zero(), C::F::one(), -C::F::one()][w]);
        g.bad = true;
        Some(g)
    }
    fn bad2(w: usize) -> Option<A2<Self>> {
        let mut g = G::new([C::F::zero(), C::F::one(), -C::F::one()][w]);
        g.bad = true;
        Some(g)
    }
    fn badt(w: usize) -> Option<GT<Self>> {
        let one = C::T::one();
        let z = match w {
            0 => C::T::zero(),
            1 => -one,
            _ => one + one,
        };
        let p = PairingOutput(z);
        if Valid::check(&p).is_err() {
            Some(p)
        } else {
            None
        }
    }
    fn only_uncompressed(_: usize) -> bool {
        false
    }
}
impl Bad for Bls {
    fn bad1(w: usize) -> Option<A1<Self>> {
        use ark_bls12_381::{Fq, G1Affine};
        Some(match w {
            // on the curve, outside the subgroup
            0 | 1 => (2 + 50 * w as u64..)
                .filter_map(|x| G1Affine::get_point_from_x_unchecked(Fq::from(x), w == 1))
                .find(|p| !p.is_in_correct_subgroup_assuming_on_curve())
                .unwrap(),
            _ => G1Affine::new_unchecked(Fq::from(1u64), Fq::from(1u64)),
        })
    }
    fn bad2(w: usize) -> Option<A2<Self>> {
        use ark_bls12_381::{Fq, Fq2, G2Affine};
        let f = |x: u64, y: u64| Fq2::new(Fq::from(x), Fq::from(y));
        Some(match w {
            0 | 1 => (2 + 50 * w as u64..)
                .filter_map(|x| G2Affine::get_point_from_x_unchecked(f(x, 1), w == 1))
                .find(|p| !p.is_in_correct_subgroup_assuming_on_curve())
                .unwrap(),
            _ => G2Affine::new_unchecked(f(1, 0), f(1, 1)),
        })
    }
    fn badt(w: usize) -> Option<GT<Self>> {
        type F = <ark_bls12_381::Bls12_381 as Pairing>::TargetField;
        let one = F::one();
        Some(PairingOutput(match w {
            0 => F::zero(),
            1 => -one,
            _ => one + one,
        }))
    }
    fn only_uncompressed(w: usize) -> bool {
        w == 2
    }
}
/// Every group element slot of an object, replaced by an invalid element, one at a time.
fn spoiled<N: Bad>(o: &Ob<N::E>, w: usize, negated: bool) -> Vec<(String, Ob<N::E>)> {
    let mut v = vec![];
    let (mut b1, mut b2, bt) = (N::bad1(w), N::bad2(w), N::badt(w));
    if negated {
        b1 = b1.map(|b| (-ark_ec::AffineRepr::into_group(b)).into());
        b2 = b2.map(|b| (-ark_ec::AffineRepr::into_group(b)).into());
    }
    macro_rules! put {
        ($name:expr, $bad:expr, $o:ident, $slot:expr) => {
            if let Some(b) = $bad {
                let mut $o = o.clone();
                *$slot = b;
                v.push(($name, $o));
            }
        };
    }
    macro_rules! at {
        ($o:ident, $p:pat => $e:expr) => { match &mut $o { $p => $e, _ => unreachable!() } };
    }
    match o {
        Ob::Crs(k) => {
            for i in 0..k.u.len() {
                put!(format!("u[{i}].0"), b1, q, at!(q, Ob::Crs(k) => &mut k.u[i].0));
                put!(format!("u[{i}].1"), b1, q, at!(q, Ob::Crs(k) => &mut k.u[i].1));
            }
            for i in 0..k.v.len() {
                put!(format!("v[{i}].0"), b2, q, at!(q, Ob::Crs(k) => &mut k.v[i].0));
                put!(format!("v[{i}].1"), b2, q, at!(q, Ob::Crs(k) => &mut k.v[i].1));
            }
            put!("g1_gen".into(), b1, q, at!(q, Ob::Crs(k) => &mut k.g1_gen));
            put!("g2_gen".into(), b2, q, at!(q, Ob::Crs(k) => &mut k.g2_gen));
            put!("gt_gen".into(), bt, q, at!(q, Ob::Crs(k) => &mut k.gt_gen));
        }
        Ob::Eq(LEq::Ppe(e)) => {
            for i in 0..e.a_consts.len() {
                put!(format!("a[{i}]"), b1, q, at!(q, Ob::Eq(LEq::Ppe(e)) => &mut e.a_consts[i]));
            }
            for i in 0..e.b_consts.len() {
                put!(format!("b[{i}]"), b2, q, at!(q, Ob::Eq(LEq::Ppe(e)) => &mut e.b_consts[i]));
            }
            put!("target".into(), bt, q, at!(q, Ob::Eq(LEq::Ppe(e)) => &mut e.target));
        }
        Ob::Eq(LEq::M1(e)) => {
            for i in 0..e.a_consts.len() {
                put!(format!("a[{i}]"), b1, q, at!(q, Ob::Eq(LEq::M1(e)) => &mut e.a_consts[i]));
            }
            put!("target".into(), b1, q, at!(q, Ob::Eq(LEq::M1(e)) => &mut e.target));
        }
        Ob::Eq(LEq::M2(e)) => {
            for i in 0..e.b_consts.len() {
                put!(format!("b[{i}]"), b2, q, at!(q, Ob::Eq(LEq::M2(e)) => &mut e.b_consts[i]));
            }
            put!("target".into(), b2, q, at!(q, Ob::Eq(LEq::M2(e)) => &mut e.target));
        }
        Ob::C1(k) => {
            for i in 0..k.coms.len() {
                put!(format!("coms[{i}].0"), b1, q, at!(q, Ob::C1(k) => &mut k.coms[i].0));
                put!(format!("coms[{i}].1"), b1, q, at!(q, Ob::C1(k) => &mut k.coms[i].1));
            }
        }
        Ob::C2(k) => {
            for i in 0..k.coms.len() {
                put!(format!("coms[{i}].0"), b2, q, at!(q, Ob::C2(k) => &mut k.coms[i].0));
                put!(format!("coms[{i}].1"), b2, q, at!(q, Ob::C2(k) => &mut k.coms[i].1));
            }
        }
        Ob::Pf(p) => {
            for i in 0..p.pi.len() {
                put!(format!("pi[{i}].0"), b2, q, at!(q, Ob::Pf(k) => &mut k.pi[i].0));
                put!(format!("pi[{i}].1"), b2, q, at!(q, Ob::Pf(k) => &mut k.pi[i].1));
            }
            for i in 0..p.theta.len() {
                put!(format!("theta[{i}].0"), b1, q, at!(q, Ob::Pf(k) => &mut k.theta[i].0));
                put!(format!("theta[{i}].1"), b1, q, at!(q, Ob::Pf(k) => &mut k.theta[i].1));
            }
        }
        Ob::Pfs(ps) => {
            for j in 0..ps.len() {
                for i in 0..ps[j].pi.len() {
                    put!(format!("[{j}].pi[{i}].0"), b2, q, at!(q, Ob::Pfs(k) => &mut k[j].pi[i].0));
                    put!(format!("[{j}].pi[{i}].1"), b2, q, at!(q, Ob::Pfs(k) => &mut k[j].pi[i].1));
                }
                for i in 0..ps[j].theta.len() {
                    put!(format!("[{j}].theta[{i}].0"), b1, q, at!(q, Ob::Pfs(k) => &mut k[j].theta[i].0));
                    put!(format!("[{j}].theta[{i}].1"), b1, q, at!(q, Ob::Pfs(k) => &mut k[j].theta[i].1));
                }
            }
        }
        Ob::K1(_) => {
            put!("0".into(), b1, q, at!(q, Ob::K1(k) => &mut k.0));
            put!("1".into(), b1, q, at!(q, Ob::K1(k) => &mut k.1));
        }
        Ob::K2(_) => {
            put!("0".into(), b2, q, at!(q, Ob::K2(k) => &mut k.0));
            put!("1".into(), b2, q, at!(q, Ob::K2(k) => &mut k.1));
        }
        Ob::Eq(LEq::Quad(_)) | Ob::Ty(_) | Ob::Tys(_) => {}
    }
    v
}
fn outside<N: Bad>(o: &Ob<N::E>, c: &mut Cnt) -> Result<(), String> {
    for w in 0..NBAD {
        for (slot, q) in spoiled::<N>(o, w, false) {
            for cm in CS {
                if N::only_uncompressed(w) && cm == Compress::Yes && slot != "gt_gen" && !(slot == "target" && matches!(q, Ob::Eq(LEq::Ppe(_)))) {
                    continue;
                }
                let b = lib(|| q.bytes(cm))?.map_err(|e| format!("encoding fails: {e}: {q:?}"))?;
                c.tag("element outside its group");
                refused::<N::E>(o.ty(), &b, cm, Validate::Yes, &format!("an element outside its group at {slot}"), c)?;
            }
            c.st();
            c.tr(1);
            if let Ok(()) = lib(|| q.valid()).map_err(|m| format!("validation panics ({m}): {q:?}"))? {
                return Err(format!("an element outside its group at {slot} passes validation: {q:?}"));
            }
        }
    }
    Ok(())
}
/// Two elements outside their group at the same time, equal or opposite (a test of their sum or difference passes).
fn outside_two<N: Bad>(o: &Ob<N::E>, c: &mut Cnt) -> Result<(), String> {
    for w in 0..2 {
        for (i, (s1, q)) in spoiled::<N>(o, w, false).into_iter().enumerate() {
            for neg in [false, true] {
                for (s2, q) in spoiled::<N>(&q, w, neg).into_iter().skip(i + 1) {
                    let what = format!("elements outside their group at {s1} and {s2}");
                    for cm in CS {
                        let b = lib(|| q.bytes(cm))?.map_err(|e| format!("encoding fails: {e}: {q:?}"))?;
                        c.tag("two elements outside their group");
                        refused::<N::E>(o.ty(), &b, cm, Validate::Yes, &what, c)?;
                    }
                    c.st();
                    c.tr(1);
                    if let Ok(()) = lib(|| q.valid()).map_err(|m| format!("validation panics ({m}): {q:?}"))? {
                        return Err(format!("{what} pass validation: {q:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}
/// Byte ranges in which two encodings of the same length differ.
fn window(a: &[u8], b: &[u8]) -> Option<(usize, usize)> {
    if a.len() != b.len() {
        return None;
    }
    let i = (0..a.len()).find(|i| a[*i] != b[*i])?;
    let j = (0..a.len()).rev().find(|i| a[*i] != b[*i])?;
    Some((i, j + 1))
}
/// Every scalar slot of a statement, or of the hidden part of a commitment or proof: pairs of objects
/// that differ in that scalar only, by values that differ in every byte.
fn scalar_slots<N: Eng>(lo: N::S, hi: N::S) -> Vec<(String, Ob<N::E>, Ob<N::E>)> {
    let mut v = vec![];
    for kind in KINDS {
        for (na, nb, rows) in [(1usize, 1usize, vec![1usize]), (2, 3, vec![2, 2, 2]), (3, 2, vec![1, 3]), (0, 0, vec![0, 1])] {
            let e = Eqn {
                kind,
                a: gvals::<N::S>(3, na),
                b: gvals(4, nb),
                gamma: rows.iter().enumerate().map(|(i, n)| gvals(5 + i as u64, *n)).collect(),
                t: gval(9, 0),
            };
            let mk = |f: &dyn Fn(&mut Eqn<N::S>) -> &mut N::S| {
                let (mut x, mut y) = (e.clone(), e.clone());
                *f(&mut x) = lo;
                *f(&mut y) = hi;
                (Ob::Eq(leq::<N>(&x)), Ob::Eq(leq::<N>(&y)))
            };
            let mut put = |n: String, p: (Ob<N::E>, Ob<N::E>)| v.push((n, p.0, p.1));
            if kind.xs() {
                for i in 0..na {
                    put(format!("{kind:?} a[{i}]"), mk(&|e| &mut e.a[i]));
                }
            }
            if kind.ys() {
                for i in 0..nb {
                    put(format!("{kind:?} b[{i}]"), mk(&|e| &mut e.b[i]));
                }
            }
            for (i, r) in rows.iter().enumerate() {
                for j in 0..*r {
                    put(format!("{kind:?} gamma[{i}][{j}]"), mk(&|e| &mut e.gamma[i][j]));
                }
            }
            if kind == Kind::Quad {
                put(format!("{kind:?} target"), mk(&|e| &mut e.t));
            }
        }
    }
    v
}
/// Openings: drawn from the random stream, public part fixed.
fn rand_slots<N: Eng>(rng: &dyn Fn(usize, Option<(usize, bool)>) -> Rn) -> Vec<(String, Ob<N::E>, Ob<N::E>)> {
    let mut v = vec![];
    let c1 = coms1::<N>(&gvals(3, 4));
    let c2 = coms2::<N>(&gvals(4, 4));
    for scalar in [false, true] {
        for k in 1..=3usize {
            let d = k * if scalar { 1 } else { 2 };
            for s in 0..d {
                let a = |hi| Ob::C1(commit1::<N>(scalar, k, c1.clone(), &mut rng(d, Some((s, hi)))));
                v.push((format!("Commit1 opening {s} of {d}"), a(false), a(true)));
                let a = |hi| Ob::C2(commit2::<N>(scalar, k, c2.clone(), &mut rng(d, Some((s, hi)))));
                v.push((format!("Commit2 opening {s} of {d}"), a(false), a(true)));
            }
        }
    }
    for kind in KINDS {
        let d = ndraw(kind, 1, 1);
        for s in ndraw_com(kind, 1, 1)..d {
            let a = |hi| Ob::Pf(proof::<N>(kind, kind, c2.clone(), c1.clone(), &mut rng(d, Some((s, hi)))));
            v.push((format!("{kind:?} proof randomness {s}"), a(false), a(true)));
        }
    }
    v
}
fn bad_scalars<N: Eng>(slots: Vec<(String, Ob<N::E>, Ob<N::E>)>, name: &str, bads: Vec<Vec<u8>>) -> Part {
    let slots: Vec<_> = slots;
    part(
        &format!("scalars-{name}"),
        &format!("{}: every scalar of statements, openings and proof randomness replaced by out-of-range numbers", N::NAME),
        slots.len() as u64,
        move |i, c| {
            let (n, x, y) = &slots[i as usize];
            for cm in CS {
                let (a, b) = (lib(|| x.bytes(cm))?.map_err(|e| e.to_string())?, lib(|| y.bytes(cm))?.map_err(|e| e.to_string())?);
                let Some((f, t)) = window(&a, &b) else {
                    c.tag("scalar not visible in the encoding");
                    continue;
                };
                for z in &bads {
                    // only a scalar that is written in the usual way can be replaced
                    if t - f != z.len() {
                        c.tag("scalar written in another way");
                        continue;
                    }
                    let mut q = a.clone();
                    q[f..t].copy_from_slice(z);
                    c.tag("scalar out of range");
                    refused::<N::E>(x.ty(), &q, cm, Validate::Yes, &format!("an out-of-range scalar at {n}"), c)?;
                    refused::<N::E>(x.ty(), &q, cm, Validate::No, &format!("an out-of-range scalar at {n}"), c)?;
                }
            }
            Ok(())
        },
    )
    .need(&["scalar out of range"])
}
fn tags<N: Eng>() -> Part {
    let mut objs: Vec<(Ob<N::E>, Ob<N::E>, usize)> = vec![];
    for l in 1..=4usize {
        for at in 0..l {
            let ty = |z: usize| -> Vec<EquType> { (0..l).map(|i| etype(KINDS[if i == at { z } else { i % 4 }])).collect() };
            objs.push((Ob::Tys(ty(0)), Ob::Tys(ty(3)), at));
        }
    }
    for (a, b) in [(0usize, 0usize), (1, 1), (2, 2), (1, 2), (3, 0)] {
        for kind in KINDS {
            let p = |z: usize| proof::<N>(kind, KINDS[z], coms2::<N>(&gvals(1, 2 * a)), coms1::<N>(&gvals(2, 2 * b)), &mut Stream::seeded(5));
            objs.push((Ob::Pf(p(0)), Ob::Pf(p(3)), 0));
            for at in 0..2 {
                let q = |z: usize| vec![p(if at == 0 { z } else { 1 }), p(if at == 1 { z } else { 2 })];
                objs.push((Ob::Pfs(q(0)), Ob::Pfs(q(3)), at));
            }
        }
    }
    objs.push((Ob::Ty(etype(Kind::Ppe)), Ob::Ty(etype(Kind::Quad)), 0));
    let l = objs.len() as u64;
    part(
        &format!("types-{}", N::NAME),
        &format!("{}: every byte value in place of the equation type, alone, in lists, in proofs and in lists of proofs", N::NAME),
        l * 256,
        move |i, c| {
            let (x, y, at) = &objs[(i % l) as usize];
            let z = (i / l) as u8;
            for cm in CS {
                let (a, b) = (lib(|| x.bytes(cm))?.map_err(|e| e.to_string())?, lib(|| y.bytes(cm))?.map_err(|e| e.to_string())?);
                let (f, t) = window(&a, &b).ok_or("encodings of two types are equal")?;
                if t - f != 1 || a[f] != 0 || b[f] != 3 {
                    return Err(format!("the equation type is not written as its number: {x:?} {y:?}"));
                }
                let mut q = a.clone();
                q[f] = z;
                if z > 3 {
                    c.tag("unknown type");
                    for v in VS {
                        refused::<N::E>(x.ty(), &q, cm, v, &format!("equation type {z}"), c)?;
                    }
                } else {
                    c.st();
                    c.tr(1);
                    let d = lib(|| Ob::<N::E>::read(x.ty(), &q[..], cm, Validate::Yes)).map_err(|m| format!("decoding panics ({m})"))?;
                    let want = etype(KINDS[z as usize]);
                    let got = match &d {
                        Ok(Ob::Ty(t)) => Some(t),
                        Ok(Ob::Tys(t)) => t.get(*at),
                        Ok(Ob::Pf(p)) => Some(&p.equ_type),
                        Ok(Ob::Pfs(p)) => p.get(*at).map(|p| &p.equ_type),
                        _ => None,
                    };
                    if got != Some(&want) {
                        return Err(format!("number {z} is read as {got:?}, not {want:?}"));
                    }
                }
            }
            Ok(())
        },
    )
    .need(&["unknown type"])
}
/// Every single byte outside length prefixes replaced: never a panic; accepted only if the result is a valid object
/// that encodes to these very bytes or to a canonical form that decodes to the same object.
fn le_bytes(mut n: num_bigint::BigUint, len: usize) -> Vec<u8> {
    let mask = (num_bigint::BigUint::from(1u32) << (8 * len)) - 1u32;
    n &= mask;
    let mut b = n.to_bytes_le();
    b.resize(len, 0);
    b
}
/// Lists that announce more elements than follow: every list of every object, at every nesting depth.
fn announced(t: Tier) -> Part {
    type N = ToyB;
    let g = |seed: u64, n: usize| -> Vec<FrB> {
        (0..n)
            .map(|i| {
                let b: Vec<u8> = (0..31u64).map(|j| (mix(seed * 4099 + i as u64 * 64 + j) % 255) as u8 + 1).collect();
                FrB::from_le_bytes_mod_order(&b)
            })
            .collect()
    };
    let mut obs: Vec<Ob<<N as Eng>::E>> = vec![];
    let sizes: Vec<(usize, usize)> = t.q(vec![(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (5, 4)], (1..=8).flat_map(|a| (1..=8).map(move |b| (a, b))).collect());
    for (q, (a, b)) in sizes.into_iter().enumerate() {
        let s = 100 * q as u64;
        let k = g(s, 3);
        obs.push(Ob::Crs(CRS { u: coms1::<N>(&g(s + 1, 2 * a)), v: coms2::<N>(&g(s + 2, 2 * b)), g1_gen: N::g1(&k[0]), g2_gen: N::g2(&k[1]), gt_gen: N::gt(&k[2]) }));
        for kind in KINDS {
            let e = Eqn { kind, a: g(s + 3, b), b: g(s + 4, a), gamma: (0..a).map(|i| g(s + 5 + i as u64, b)).collect(), t: g(s + 20, 1)[0] };
            obs.push(Ob::Eq(leq::<N>(&e)));
            obs.push(Ob::Pf(proof::<N>(kind, kind, coms2::<N>(&g(s + 21, 2 * a)), coms1::<N>(&g(s + 22, 2 * b)), &mut Stream::scalars(&g(s + 23, 40), 1))));
        }
        for scalar in [false, true] {
            obs.push(Ob::C1(commit1::<N>(scalar, b, coms1::<N>(&g(s + 24, 2 * a)), &mut Stream::scalars(&g(s + 25, 40), 1))));
            obs.push(Ob::C2(commit2::<N>(scalar, b, coms2::<N>(&g(s + 26, 2 * a)), &mut Stream::scalars(&g(s + 27, 40), 1))));
        }
    }
    let mut few: Vec<u64> = (1..=64).collect();
    few.extend((6..=20u32).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1]));
    part("announced", "lists announcing more elements than follow, in every list of objects of all types at every nesting depth (255-bit scalars): 1 to 64 more, around every power of two up to 2^20, and from 2^60 to 2^64 - 1", obs.len() as u64, move |i, c| {
        let o = &obs[i as usize];
        for cm in CS {
            let b = lib(|| o.bytes(cm))?.map_err(|e| format!("encoding fails: {e}: {o:?}"))?;
            // no element contains a zero byte in its low bytes: a small number in eight bytes is a list's length
            let mut at = vec![];
            let mut p = 0;
            while p + 8 <= b.len() {
                let n = u64::from_le_bytes(b[p..p + 8].try_into().unwrap());
                if (1..=8).contains(&n) {
                    at.push((p, n));
                    p += 8;
                } else {
                    p += 1;
                }
            }
            if at.is_empty() {
                c.tag("no list lengths visible in the encoding");
            }
            for (j, (p, n)) in at.iter().enumerate() {
                let end = at.get(j + 1).map_or(b.len(), |q| q.0);
                for v in VS {
                    for l in few.iter().map(|l| n + l) {
                        let mut q = b[..end].to_vec();
                        q[*p..p + 8].copy_from_slice(&l.to_le_bytes());
                        c.tag("too long a list announced");
                        refused::<<N as Eng>::E>(o.ty(), &q, cm, v, &format!("a list of {n} elements announced as {l} at byte {p}"), c)?;
                    }
                    for l in [1u64 << 60, (1 << 60) + 1, 1 << 61, 1 << 62, i64::MAX as u64 - 1, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX] {
                        let mut q = b.clone();
                        q[*p..p + 8].copy_from_slice(&l.to_le_bytes());
                        c.tag("absurd list announced");
                        let what = format!("a list of {n} elements announced as {l} at byte {p}");
                        if let Err(m) = refused::<<N as Eng>::E>(o.ty(), &q, cm, v, &what, c) {
                            if !m.contains("panics (") || !m.contains("capacity overflow") {
                                return Err(m);
                            }
                            crate::finding("C16", &format!("announced-length-{:?}", o.ty()).replace("Eq(", "").replace(')', ""), &m, c)?;
                        }
                    }
                }
            }
        }
        Ok(())
    })
}
pub fn malformed(t: Tier) -> Vec<Part> {
    let mut v = vec![announced(t)];
    let m3 = menu::<E5>(t.q(&[0, 1, 2, 3], &[0, 1, 2, 3, 4, 6]), 2);
    v.push(
        part("faults", "objects of all types and shapes: every truncation, every read and write error position, interruptions and short reads and writes", m3.len() as u64, move |i, c| {
            c.sample(|| format!("{:?}", m3[i as usize]));
            faults(&m3[i as usize], 1, c)
        })
        .need(&["truncated", "read error", "write error"]),
    );
    let mb = menu::<ToyB>(t.q(&[0, 1, 2], &[0, 1, 2, 3, 5]), 3);
    v.push(part("faults-255", "the same with 255-bit scalars", mb.len() as u64, move |i, c| faults(&mb[i as usize], 1, c)));
    let mb = menu::<Bls>(t.q(&[0, 1], &[0, 1, 2]), 4);
    let st = t.q(29, 3);
    v.push(part("faults-bls", "the same on BLS12-381, at every 29th (thorough: 3rd) byte position", mb.len() as u64, move |i, c| {
        c.conf += 1;
        faults(&mb[i as usize], st, c)
    }));
    let mut mo = menu::<E3>(&[0, 1, 2, 3, 4], 5);
    mo.extend(menu::<E3>(t.q(&[9, 20], &[9, 20, 33, 70]), 5));
    v.push(part("groups", "an element outside its group in every place of every object (order 3)", mo.len() as u64, move |i, c| outside::<E3>(&mo[i as usize], c)).need(&["element outside its group"]));
    // long lists, on both sides of what a check of a block, a prefix or a suffix of a list would leave out
    let l: &[usize] = t.q(&[33, 65, 130, 257], &[17, 31, 33, 63, 65, 100, 127, 129, 130, 255, 257, 300, 513]);
    let mut lo = sized::<E3>(l, &[1, 2], usize::MAX, 8);
    lo.extend(sized::<E3>(&[1, 2], l, usize::MAX, 9));
    v.push(part("groups-long", &format!("the same for lists of {l:?} elements"), lo.len() as u64, move |i, c| outside::<E3>(&lo[i as usize], c)).need(&["element outside its group"]));
    let l: &[usize] = t.q(&[33, 130], &[17, 33, 65, 129, 257]);
    let mut lo = sized::<E3>(l, &[1], usize::MAX, 10);
    lo.extend(sized::<E3>(&[1], l, usize::MAX, 11));
    v.push(part("faults-long", &format!("every truncation, every read and write error position, interruptions and short reads and writes for lists of {l:?} elements"), lo.len() as u64, move |i, c| faults(&lo[i as usize], 1, c)).need(&["truncated", "read error", "write error"]));
    let mo = menu::<ToyB>(t.q(&[0, 1, 2], &[1, 2, 3, 5, 11]), 6);
    v.push(part("groups-255", "the same with 255-bit order", mo.len() as u64, move |i, c| outside::<ToyB>(&mo[i as usize], c)).need(&["element outside its group"]));
    let mo = menu::<Bls>(t.q(&[0, 1, 2], &[1, 2, 3, 4]), 7);
    v.push(
        part("groups-bls", "points off the curve or outside the prime-order subgroup and target elements outside their group in every place of every object (BLS12-381)", mo.len() as u64, move |i, c| {
            c.conf += 1;
            outside::<Bls>(&mo[i as usize], c)
        })
        .need(&["element outside its group"]),
    );
    let mo = menu::<E3>(t.q(&[0, 1, 2, 3, 5], &[0, 1, 2, 3, 4, 5, 7, 9, 16]), 5);
    v.push(part("groups-two", "two equal or opposite elements outside their groups in every two places of every object (order 3)", mo.len() as u64, move |i, c| outside_two::<E3>(&mo[i as usize], c)).need(&["two elements outside their group"]));
    let mo = menu::<Bls>(t.q(&[1, 2], &[1, 2, 3]), 7);
    v.push(
        part("groups-two-bls", "two equal or opposite points outside the prime-order subgroup in every two places of every object (BLS12-381)", mo.len() as u64, move |i, c| {
            c.conf += 1;
            outside_two::<Bls>(&mo[i as usize], c)
        })
        .need(&["two elements outside their group"]),
    );
    v.push(tags::<E3>());
    if t == Tier::Thorough {
        v.push(tags::<Bls>());
    }
    // scalars
    let r: num_bigint::BigUint = <FrB as PrimeField>::MODULUS.into();
    let one = num_bigint::BigUint::from(1u32);
    let top: num_bigint::BigUint = (one.clone() << 256) - 1u32;
    let mut bads = vec![le_bytes(r.clone(), 32), le_bytes(&r + 1u32, 32), le_bytes(top.clone(), 32), le_bytes(&top - 1u32, 32), le_bytes(one.clone() << 255, 32)];
    for j in [1u32, 7, 64, 65, 128, 192, 250] {
        bads.push(le_bytes(&r + (one.clone() << j), 32));
    }
    bads.extend((2..40u32).map(|j| le_bytes(&r + j, 32)));
    bads.extend((0..255u32).map(|j| le_bytes(&r + (one.clone() << j), 32)).chain((0..255u32).map(|j| le_bytes(&top - (one.clone() << j), 32))));
    bads.extend((1..10u32).map(|j| le_bytes((one.clone() << 256) - j, 32)));
    bads.push(le_bytes(&r * 2u32, 32));
    bads.push(le_bytes(&r * 2u32 - 1u32, 32));
    bads.sort();
    bads.dedup();
    // every one of these numbers is outside [0, r) and below 2^256
    bads.retain(|b| num_bigint::BigUint::from_bytes_le(b) >= r);
    // 0x01.. and 0x02.. differ in every byte
    let lo = FrB::from_le_bytes_mod_order(&[1u8; 32]);
    let hi = FrB::from_le_bytes_mod_order(&[2u8; 32]);
    let rng = move |d: usize, s: Option<(usize, bool)>| -> Rn {
        let mut w = vec![FrB::from(5u64); d];
        if let Some((i, h)) = s {
            w[i] = if h { hi } else { lo };
        }
        Rn::S(Stream::scalars(&w, 1))
    };
    let mut sl = scalar_slots::<ToyB>(lo, hi);
    sl.extend(rand_slots::<ToyB>(&rng));
    v.push(bad_scalars::<ToyB>(sl, "255", bads.clone()));
    let sl = scalar_slots::<Bls>(lo, hi);
    v.push(bad_scalars::<Bls>(sl, "bls", bads));
    let rng3 = |d: usize, s: Option<(usize, bool)>| -> Rn {
        let mut w = vec![0u8; d];
        if let Some((i, h)) = s {
            w[i] = 1 + h as u8;
        }
        Rn::T(Tree::with_prefix(3, &w))
    };
    let mut sl = scalar_slots::<E3>(F3::from(1u64), F3::from(2u64));
    sl.extend(rand_slots::<E3>(&rng3));
    v.push(bad_scalars::<E3>(sl, "p3", (3u8..=255).map(|b| vec![b]).collect()));
    v
}
