//! One module per property (or per group of closely related properties).
use crate::gs::*;
use crate::refm::*;
use crate::rng::*;
use crate::run::*;
use crate::toy::*;
use ark_ff::{One, PrimeField, Zero};

mod algebra;
mod commits;
mod complete;
mod encode;
mod equal;
mod refuse;
mod hiding;
mod history;
mod keygen;
mod sched;
mod shape;
mod sound;
mod stateless;

pub fn parts(prop: &str, t: Tier) -> Vec<Part> {
    match prop {
        "C01" => complete::parts(t),
        "C02" => sound::soundness(t),
        "C03" => sound::relation(t),
        "C04" => hiding::witness(t),
        "C05" => hiding::commitments(t),
        "C06" => commits::binding(t),
        "C07" => keygen::parts(t),
        "C08" => commits::interchange(t),
        "C09" => history::parts(t),
        "C10" => stateless::parts(t),
        "C11" => sched::parts(t),
        "C12" => algebra::matrices(t),
        "C13" => algebra::groups(t),
        "C14" => algebra::pairings(t),
        "C15" => encode::roundtrip(t),
        "C16" => encode::malformed(t),
        "C17" => shape::parts(t),
        "C18" => hiding::bytes(t),
        "C19" => hiding::fresh(t),
        "C20" => equal::parts(t),
        "C21" => refuse::parts(t),
        _ => panic!("unknown property {prop}"),
    }
}

pub type E3 = Toy<T3>;
pub type E5 = Toy<T5>;
pub type E7 = Toy<T7>;

/// All (generator, a, t) of one side: (p-1)*p*p.
pub fn nside(p: u64) -> u64 {
    (p - 1) * p * p
}
pub fn side<F: PrimeField>(i: u64, p: u64) -> [F; 3] {
    let mut ix = Ix(i);
    [F::from(1 + ix.take(p - 1)), ix.f(p), ix.f(p)]
}
pub fn key<F: PrimeField>(i: u64, j: u64, p: u64, hiding: bool) -> Key<F> {
    let (a, b) = (side::<F>(i, p), side::<F>(j, p));
    if hiding {
        Key::hiding(a[0], a[1], a[2], b[0], b[1], b[2])
    } else {
        Key::binding(a[0], a[1], a[2], b[0], b[1], b[2])
    }
}
/// A few keys that differ in every component between the two sides.
pub fn few_keys<F: PrimeField>(n: usize, p: u64, hiding: bool) -> Vec<Key<F>> {
    let l = [
        [1u64, 2, 2, 2, 1, 1],
        [2, 1, 2, 1, 2, 2],
        [1, 0, 1, 2, 2, 0],
        [2, 2, 0, 1, 0, 0],
        [1, 1, 1, 1, 1, 1],
        [2, 0, 2, 2, 1, 2],
        [1, 2, 0, 2, 0, 1],
        [2, 1, 1, 1, 1, 0],
    ];
    l.iter()
        .cycle()
        .enumerate()
        .take(n)
        .map(|(i, k)| {
            let sh = if p > 3 { (i as u64 / 2) * 2 } else { 0 };
            let f = |x: u64| F::from(if x == 0 { 0 } else { 1 + (x - 1 + sh) % (p - 1) });
            if hiding {
                Key::hiding(f(k[0]), f(k[1]), f(k[2]), f(k[3]), f(k[4]), f(k[5]))
            } else {
                Key::binding(f(k[0]), f(k[1]), f(k[2]), f(k[3]), f(k[4]), f(k[5]))
            }
        })
        .collect()
}

pub fn ncoef(m: usize, n: usize) -> usize {
    m + n + m * n
}
/// Equation without target from the coefficient list (a: n, b: m, gamma: m x n).
pub fn eqn<F: PrimeField>(kind: Kind, m: usize, n: usize, c: &[F], t: F) -> Eqn<F> {
    Eqn {
        kind,
        a: c[..n].to_vec(),
        b: c[n..n + m].to_vec(),
        gamma: (0..m).map(|i| c[n + m + i * n..n + m + (i + 1) * n].to_vec()).collect(),
        t,
    }
}
/// The equation with the target that makes (x, y) a witness.
pub fn eqn_for<F: PrimeField>(kind: Kind, m: usize, n: usize, c: &[F], x: &[F], y: &[F]) -> Eqn<F> {
    let mut e = eqn(kind, m, n, c, F::zero());
    e.t = e.eval(x, y);
    e
}
pub fn ndraw_com(kind: Kind, m: usize, n: usize) -> usize {
    m * kind.xr() + n * kind.yr()
}
pub fn ndraw(kind: Kind, m: usize, n: usize) -> usize {
    ndraw_com(kind, m, n) + kind.npi() * kind.ntheta()
}

fn binom(n: u64, k: u64) -> u64 {
    (0..k).fold(1, |a, i| a * (n - i) / (i + 1))
}
/// Number of vectors of length n over Z_p with at most w nonzero entries.
pub fn ndev(n: usize, w: usize, p: u64) -> u64 {
    (0..=w.min(n)).map(|j| binom(n as u64, j as u64) * pw(p - 1, j)).sum()
}
/// The i-th such vector, as (position, value 1..p-1) pairs.
pub fn dev(n: usize, w: usize, p: u64, mut i: u64) -> Vec<(usize, u64)> {
    for j in 0..=w.min(n) {
        let c = binom(n as u64, j as u64) * pw(p - 1, j);
        if i >= c {
            i -= c;
            continue;
        }
        let mut vals = i % pw(p - 1, j);
        let mut rank = i / pw(p - 1, j);
        let mut out = vec![];
        let mut pos = 0;
        let mut left = j as u64;
        while left > 0 {
            let with = binom((n - pos - 1) as u64, left - 1);
            if rank < with {
                out.push((pos, 1 + vals % (p - 1)));
                vals /= p - 1;
                left -= 1;
            } else {
                rank -= with;
            }
            pos += 1;
        }
        return out;
    }
    unreachable!()
}
/// Fixed base vectors that deviations are added to.
pub const NBASE: u64 = 3;
pub fn base(b: u64, pos: usize, p: u64) -> u64 {
    match b {
        0 => 0,
        1 => 1,
        _ => (1 + pos as u64 * pos as u64 + pos as u64 / 3) % p,
    }
}
pub fn devs<F: PrimeField>(n: usize, w: usize, p: u64, b: u64, i: u64) -> Vec<F> {
    let mut v: Vec<u64> = (0..n).map(|k| base(b, k, p)).collect();
    for (k, d) in dev(n, w, p, i) {
        v[k] = (v[k] + d) % p;
    }
    v.into_iter().map(F::from).collect()
}

/// Scalars of BLS12-381 at limb and field boundaries.
pub fn edge(i: usize) -> FrB {
    use ark_ff::Field;
    let two = FrB::from(2u64);
    let h = (-FrB::one()) / two; // (r-1)/2
    match i % 16 {
        0 => FrB::zero(),
        1 => FrB::one(),
        2 => two,
        3 => -FrB::one(),
        4 => FrB::from(u64::MAX),
        5 => two.pow([64]),
        6 => two.pow([128]),
        7 => two.pow([192]),
        8 => h,
        9 => h + FrB::one(),
        10 => -two,
        11 => two.pow([128]) - FrB::one(),
        12 => two.pow([254]),
        13 => FrB::from(u32::MAX as u64 + 1),
        14 => two.pow([192]) + two.pow([64]),
        _ => FrB::from(0x1234_5678_9abc_def1u64) * two.pow([131]) + FrB::from(77u64),
    }
}
/// Deterministic mixture of boundary and generic scalars.
pub fn mixed(seed: u64, i: usize) -> FrB {
    let z = crate::rng::mix(seed.wrapping_mul(0x1000_0001).wrapping_add(i as u64));
    match z % 4 {
        0 => edge((z >> 8) as usize),
        1 => FrB::from(z >> 60),
        2 => -FrB::from(z >> 50),
        _ => {
            let mut w = [0u64; 4];
            for (j, x) in w.iter_mut().enumerate() {
                *x = crate::rng::mix(z ^ (j as u64 + 1));
            }
            w[3] >>= 2;
            ark_ff::Fp::new(ark_ff::BigInt::new(w))
        }
    }
}
pub fn mixeds(seed: u64, n: usize) -> Vec<FrB> {
    (0..n).map(|i| mixed(seed, i)).collect()
}
pub fn big_key(seed: u64) -> Key<FrB> {
    let nz = |i: usize| {
        let x = mixed(seed, 1000 + i);
        if x.is_zero() {
            FrB::from(5u64)
        } else {
            x
        }
    };
    Key::binding(nz(0), nz(1), nz(2), nz(3), nz(4), nz(5))
}

/// Honest prover then verifier on one engine.
pub fn complete_on<N: Eng>(k: &Key<N::S>, e: &Eqn<N::S>, x: &[N::S], y: &[N::S], rng: &mut impl ark_std::rand::Rng) -> Result<groth_sahai::prover::CProof<N::E>, String> {
    let (lk, le) = (crs::<N>(k), leq::<N>(e));
    let (xv, yv) = (xvars::<N>(e.kind.xs(), x), yvars::<N>(e.kind.ys(), y));
    let p = lib(|| le.commit_and_prove(&xv, &yv, &lk, rng))
        .map_err(|m| format!("{}: proving panics ({m}): key {k:?} equation {e:?} x {x:?} y {y:?}", N::NAME))?;
    match lib(|| le.verify(&p, &lk)) {
        Ok(true) => Ok(p),
        Ok(false) => Err(format!("{}: honest proof of a true equation rejected: key {k:?} equation {e:?} x {x:?} y {y:?}", N::NAME)),
        Err(m) => Err(format!("{}: verifying an honest proof panics ({m}): key {k:?} equation {e:?} x {x:?} y {y:?}", N::NAME)),
    }
}
/// Same commitments and proof on the exponent group of BLS12-381's order and on BLS12-381.
pub fn same_proof(a: &groth_sahai::prover::CProof<ToyB>, b: &groth_sahai::prover::CProof<ark_bls12_381::Bls12_381>) -> Result<(), String> {
    let f = pf::<TB>(a);
    let ok = eqs1::<Bls>(&b.xcoms.coms, &f.c)
        && eqs2::<Bls>(&b.ycoms.coms, &f.d)
        && eqs2::<Bls>(&b.equ_proofs[0].pi, &f.pi)
        && eqs1::<Bls>(&b.equ_proofs[0].theta, &f.th);
    if ok {
        Ok(())
    } else {
        Err("the same trace gives different elements on BLS12-381 and on the exponent group".into())
    }
}
pub fn run_tree(t: &mut Tree, mut f: impl FnMut(&mut Tree) -> Result<(), String>) -> Result<u64, String> {
    let mut n = 0;
    loop {
        f(t)?;
        if t.over {
            return Err(format!("more than {} random draws in one run", t.max));
        }
        n += 1;
        if !t.next() {
            return Ok(n);
        }
    }
}

/// Full-size scalars in systematic families: small numbers, one or two signed powers of two, one or all digits of every window
/// width, runs of ones, fractions and quotients of r, roots of unity, the eigenvalues of BLS12-381's endomorphisms and their multiples.
/// The families of one parameter come first (`short`), those of two parameters follow.
pub struct Catalogue {
    pub all: Vec<FrB>,
    pub short: usize,
}
pub fn catalogue() -> &'static Catalogue {
    use ark_ff::{BigInt, FftField, Field};
    static C: std::sync::OnceLock<Catalogue> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let two = FrB::from(2u64);
        let one = FrB::one();
        let p2: Vec<FrB> = (0..255u64).map(|k| two.pow([k])).collect();
        let mut v: Vec<FrB> = (0..=300u64).map(FrB::from).collect();
        v.extend((1..=70u64).map(|k| -FrB::from(k)));
        for p in &p2 {
            v.extend([*p, *p - one, *p + one, -*p, -*p + one, -*p - one, *p + two, *p * FrB::from(3u64), *p * FrB::from(5u64)]);
        }
        // one digit repeated over the whole length, and over the low or high half
        for w in 2..=8usize {
            let top = 1u64 << w;
            for d in 1..top {
                if w > 5 && ![1, 3, top / 2 - 1, top / 2, top / 2 + 1, top - 2, top - 1, top * 2 / 3, top / 3].contains(&d) {
                    continue;
                }
                let digit = FrB::from(d);
                let (mut s, mut lo, mut hi) = (FrB::zero(), FrB::zero(), FrB::zero());
                for (j, at) in (0..254).step_by(w).enumerate() {
                    let x = digit * p2[at];
                    if at + w <= 254 {
                        s += x;
                    }
                    if at + w <= 128 {
                        lo += x;
                    }
                    if at >= 128 && at + w <= 254 {
                        hi += x;
                    }
                    if j % 8 == 7 {
                        v.push(s);
                    }
                }
                v.extend([s, lo, hi, -s]);
            }
        }
        // the extreme digits of wide windows at every place
        for w in [4usize, 5, 6, 8, 16, 32] {
            for at in (0..254 - w).step_by(w) {
                for d in [(1u64 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1] {
                    v.push(FrB::from(d) * p2[at]);
                }
            }
        }
        // limbs that are zero, one or all ones, in every combination
        for mut m in 0..81u64 {
            let mut l = [0u64; 4];
            for x in l.iter_mut() {
                *x = [0, 1, u64::MAX][(m % 3) as usize];
                m /= 3;
            }
            l[3] >>= 2;
            v.push(ark_ff::Fp::new(BigInt::new(l)));
        }
        // inverses and fractions
        for k in 2..=64u64 {
            let i = FrB::from(k).inverse().unwrap();
            v.extend([i, -i, i + one, i - one]);
        }
        v.extend((1..=40).map(|k| p2[k].inverse().unwrap()));
        for i in 0..=FrB::TWO_ADICITY {
            let w = FrB::get_root_of_unity(1u64 << i.min(32)).unwrap();
            v.extend([w, -w, w + one, w.inverse().unwrap()]);
        }
        let z = -FrB::from(0xd201_0000_0001_0000u64);
        let mut zp = one;
        for _ in 0..6 {
            for k in 1..=8u64 {
                let f = FrB::from(k);
                v.extend([zp * f, -zp * f, zp * f + one, zp * f - one, (zp - one) * f, (zp + one) * f, zp + f, zp - f]);
            }
            zp *= z;
        }
        for m in 0..81u64 {
            let mut ix = Ix(m);
            let c: Vec<FrB> = (0..4).map(|_| [FrB::zero(), one, -one][ix.take(3) as usize]).collect();
            v.push(c[0] + z * (c[1] + z * (c[2] + z * c[3])));
        }
        let mut seen = std::collections::HashSet::new();
        v.retain(|x| seen.insert(*x));
        let short = v.len();
        for i in 0..255 {
            for j in 0..i {
                v.extend([p2[i] + p2[j], p2[i] - p2[j], -p2[i] - p2[j], p2[j] - p2[i]]);
            }
        }
        for d in 1..16u64 {
            v.extend((0..252).map(|k| FrB::from(d) * p2[k]));
        }
        v.retain({
            let mut seen = std::collections::HashSet::new();
            move |x| seen.insert(*x)
        });
        Catalogue { all: v, short }
    })
}

/// Bit lengths at which numbers of that size, their products or sums of those stop fitting into machine words.
pub const WIDTHS: [usize; 40] = [1, 2, 3, 4, 6, 7, 8, 9, 12, 15, 16, 17, 20, 24, 28, 30, 31, 32, 33, 40, 48, 50, 56, 60, 62, 63, 64, 65, 80, 96, 100, 120, 126, 127, 128, 129, 160, 192, 200, 250];
/// The number `2^w - 1 - less` (0 if that is negative).
pub fn of_width(w: usize, less: u64) -> FrB {
    let mut x = FrB::one();
    for _ in 0..w {
        x += x;
    }
    x -= FrB::one();
    if w < 20 && (1u64 << w) - 1 < less { FrB::zero() } else { x - FrB::from(less) }
}

/// Which entries of an m x n table are not zero: every choice for up to nine entries; beyond, none, all, all
/// single entries and single gaps, pairs (up to 36 entries), rows, columns, diagonals, triangles, bands, corners.
pub fn masks(m: usize, n: usize) -> Vec<Vec<bool>> {
    let l = m * n;
    if l <= 9 {
        return (0..1u64 << l).map(|z| (0..l).map(|q| z >> q & 1 == 1).collect()).collect();
    }
    let mut v: Vec<Vec<bool>> = vec![];
    let mut put = |f: &dyn Fn(usize, usize) -> bool| {
        let k: Vec<bool> = (0..l).map(|q| f(q / n, q % n)).collect();
        v.push(k.iter().map(|b| !b).collect());
        v.push(k);
    };
    put(&|_, _| true);
    for a in 0..l {
        put(&|i, j| i * n + j == a);
        if l <= 36 {
            for b in 0..a {
                put(&|i, j| i * n + j == a || i * n + j == b);
            }
        }
    }
    for a in 0..m {
        put(&|i, _| i == a);
        put(&|i, _| i < a);
        put(&|i, _| i % 2 == 0 && i <= a);
    }
    for a in 0..n {
        put(&|_, j| j == a);
        put(&|_, j| j < a);
        put(&|_, j| j % 2 == 1 && j <= a);
    }
    for a in 0..m + n {
        put(&|i, j| (i + a) % (m + n) == j);
        put(&|i, j| (i + a) % n == j);
        put(&|i, j| i + j == a);
        put(&|i, j| i + a < j + m);
        put(&|i, j| i.abs_diff(j) <= a);
        put(&|i, j| i < a && j < a);
        put(&|i, j| (i * 7 + j * 3 + a) % 4 == 0);
    }
    v.sort();
    v.dedup();
    v
}
/// The tables of the sparse parts: shape and entries that are not zero.
pub fn tables(big: bool) -> Vec<(usize, usize, Vec<bool>)> {
    let mut s: Vec<(usize, usize)> = (1..=3).flat_map(|m| (1..=3).map(move |n| (m, n))).collect();
    s.extend([(1, 8), (8, 1), (4, 2), (2, 4), (4, 4), (4, 5), (5, 4), (6, 6), (8, 8), (2, 9), (9, 2)]);
    if big {
        s.extend([(5, 5), (7, 7), (9, 9), (16, 16), (3, 12), (12, 3), (17, 5), (5, 17), (32, 4)]);
    }
    s.into_iter().flat_map(|(m, n)| masks(m, n).into_iter().map(move |k| (m, n, k))).collect()
}

/// Which entries of a list are zero, equal or opposite to each other: every pattern of the lengths 1..=most.
/// Entry 0 is zero, entry +-k is plus or minus the k-th value.
pub fn alike(most: usize) -> Vec<Vec<i8>> {
    let mut out = vec![];
    let mut last: Vec<Vec<i8>> = vec![vec![]];
    for _ in 0..most {
        let mut next = vec![];
        for l in &last {
            let k = l.iter().map(|z| z.abs()).max().unwrap_or(0);
            for z in (-k..=k).chain([k + 1]) {
                let mut w = l.clone();
                w.push(z);
                next.push(w);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
/// Values for a pattern of `alike`.
pub fn alike_values(p: &[i8], seed: u64) -> Vec<FrB> {
    p.iter()
        .map(|z| {
            let k = z.unsigned_abs() as u64;
            // distinct, also up to sign, and different from zero
            let v = FrB::from(crate::rng::mix(seed) >> 8) * FrB::from(u64::MAX) + FrB::from(3 * k + 1);
            match z.signum() {
                0 => FrB::zero(),
                1 => v,
                _ => -v,
            }
        })
        .collect()
}
