//! C12 (matrices), C13 (group laws), C14 (embeddings and pairings).
use super::*;
use ark_ec::pairing::PairingOutput;
use groth_sahai::{col_vec_to_vec, vec_to_col_vec, Com1, Com2, ComT, Mat, Matrix, B1, B2, BT};
use rayon_core::mc::{set_hook, Inline};
use std::fmt::Debug;

// ---------------------------------------------------------------- C12
/// Entries of matrices: `Ref` is a list of scalars (1 for scalars, 2 for commitment elements).
pub trait Ent<N: Eng>: Clone + Debug {
    const W: usize;
    const NAME: &'static str;
    fn of(v: &[N::S]) -> Self;
    fn is(&self, v: &[N::S]) -> bool;
    fn add(a: &Matrix<Self>, b: &Matrix<Self>) -> Matrix<Self>;
    fn neg(a: &Matrix<Self>) -> Matrix<Self>;
    fn smul(a: &Matrix<Self>, s: &N::S) -> Matrix<Self>;
    fn tr(a: &Matrix<Self>) -> Matrix<Self>;
    fn lmul(a: &Matrix<Self>, l: &Matrix<N::S>, par: bool) -> Matrix<Self>;
    fn rmul(a: &Matrix<Self>, r: &Matrix<N::S>, par: bool) -> Matrix<Self>;
}
macro_rules! ent {
    ($T:ty, $w:expr, $name:expr, |$v:ident| $of:expr, |$s:ident, $u:ident| $is:expr) => {
        const W: usize = $w;
        const NAME: &'static str = $name;
        fn of($v: &[N::S]) -> Self {
            $of
        }
        fn is(&self, $u: &[N::S]) -> bool {
            let $s = self;
            $is
        }
        fn add(a: &Matrix<Self>, b: &Matrix<Self>) -> Matrix<Self> {
            Mat::add(a, b)
        }
        fn neg(a: &Matrix<Self>) -> Matrix<Self> {
            Mat::neg(a)
        }
        fn smul(a: &Matrix<Self>, s: &N::S) -> Matrix<Self> {
            Mat::scalar_mul(a, s)
        }
        fn tr(a: &Matrix<Self>) -> Matrix<Self> {
            Mat::transpose(a)
        }
        fn lmul(a: &Matrix<Self>, l: &Matrix<N::S>, par: bool) -> Matrix<Self> {
            Mat::left_mul(a, l, par)
        }
        fn rmul(a: &Matrix<Self>, r: &Matrix<N::S>, par: bool) -> Matrix<Self> {
            Mat::right_mul(a, r, par)
        }
    };
}
/// A field element as matrix entry.
impl<N: Eng> Ent<N> for Com1<N::E>
where
    Self: Clone,
{
    ent!(Com1<N::E>, 2, "Com1", |v| com1::<N>(&[v[0], v[1]]), |s, u| eq1::<N>(s, &[u[0], u[1]]));
}
impl<N: Eng> Ent<N> for Com2<N::E> {
    ent!(Com2<N::E>, 2, "Com2", |v| com2::<N>(&[v[0], v[1]]), |s, u| eq2::<N>(s, &[u[0], u[1]]));
}
macro_rules! ent_f {
    ($($F:ty => $N:ty),*) => {$(
        impl Ent<$N> for $F {
            const W: usize = 1;
            const NAME: &'static str = "scalars";
            fn of(v: &[$F]) -> Self { v[0] }
            fn is(&self, v: &[$F]) -> bool { *self == v[0] }
            fn add(a: &Matrix<Self>, b: &Matrix<Self>) -> Matrix<Self> { Mat::add(a, b) }
            fn neg(a: &Matrix<Self>) -> Matrix<Self> { Mat::neg(a) }
            fn smul(a: &Matrix<Self>, s: &$F) -> Matrix<Self> { Mat::scalar_mul(a, s) }
            fn tr(a: &Matrix<Self>) -> Matrix<Self> { Mat::transpose(a) }
            fn lmul(a: &Matrix<Self>, l: &Matrix<$F>, par: bool) -> Matrix<Self> { Mat::left_mul(a, l, par) }
            fn rmul(a: &Matrix<Self>, r: &Matrix<$F>, par: bool) -> Matrix<Self> { Mat::right_mul(a, r, par) }
        }
    )*};
}
ent_f!(F3 => E3, F5 => E5, F7 => E7, FrB => ToyB);

type R<F> = Vec<Vec<Vec<F>>>; // rows, columns, components
fn build<N: Eng, T: Ent<N>>(r: &R<N::S>) -> Matrix<T> {
    r.iter().map(|row| row.iter().map(|z| T::of(z)).collect()).collect()
}
fn is<N: Eng, T: Ent<N>>(m: &Matrix<T>, r: &R<N::S>) -> bool {
    m.len() == r.len() && m.iter().zip(r).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.is(y)))
}
fn rmat<F: PrimeField>(m: usize, n: usize, w: usize, mut f: impl FnMut() -> F) -> R<F> {
    (0..m).map(|_| (0..n).map(|_| (0..w).map(|_| f()).collect()).collect()).collect()
}
fn fmat<F: PrimeField>(m: usize, n: usize, mut f: impl FnMut() -> F) -> Matrix<F> {
    (0..m).map(|_| (0..n).map(|_| f()).collect()).collect()
}
/// l (a x b scalars) * x (b x c entries)
fn lref<F: PrimeField>(l: &Matrix<F>, x: &R<F>) -> R<F> {
    let w = x[0][0].len();
    (0..l.len()).map(|i| (0..x[0].len()).map(|j| (0..w).map(|q| (0..x.len()).fold(F::zero(), |s, k| s + l[i][k] * x[k][j][q])).collect()).collect()).collect()
}
fn rref<F: PrimeField>(x: &R<F>, r: &Matrix<F>) -> R<F> {
    let w = x[0][0].len();
    (0..x.len()).map(|i| (0..r[0].len()).map(|j| (0..w).map(|q| (0..r.len()).fold(F::zero(), |s, k| s + x[i][k][q] * r[k][j])).collect()).collect()).collect()
}
static POOLS: [Inline; 12] = [Inline(1), Inline(2), Inline(8), Inline(64), Inline(3), Inline(4), Inline(5), Inline(6), Inline(7), Inline(9), Inline(12), Inline(16)];
fn with_pool<T>(i: usize, f: impl FnOnce() -> T) -> T {
    set_hook(Some(&POOLS[i % 12]), false);
    let r = f();
    set_hook(Some(&crate::mcsched::INLINE), false);
    r
}
fn check_mul<N: Eng, T: Ent<N>>(l: &Matrix<N::S>, x: &R<N::S>, r: &Matrix<N::S>, c: &mut Cnt) -> Result<(), String> {
    let m = build::<N, T>(x);
    let brief = |s: String| if s.len() > 600 { format!("{}...", &s[..600]) } else { s };
    // larger matrices with every number of threads
    let large = [l.len(), x.len(), x[0].len()].iter().any(|d| *d > 2);
    for pool in 0..if large { 12 } else { 4 } {
        for par in [false, true] {
            if !par && pool > 0 {
                continue;
            }
            c.tr(2);
            let got = with_pool(pool, || lib(|| T::lmul(&m, l, par)));
            if !matches!(&got, Ok(g) if is::<N, T>(g, &lref(l, x))) {
                return Err(brief(format!("left multiplication of {} ({}x{} by {}x{}, parallel {par}) is wrong: {l:?} * {x:?} gives {got:?}", T::NAME, l.len(), l[0].len(), x.len(), x[0].len())));
            }
            let got = with_pool(pool, || lib(|| T::rmul(&m, r, par)));
            if !matches!(&got, Ok(g) if is::<N, T>(g, &rref(x, r))) {
                return Err(brief(format!("right multiplication of {} ({}x{} by {}x{}, parallel {par}) is wrong: {x:?} * {r:?} gives {got:?}", T::NAME, x.len(), x[0].len(), r.len(), r[0].len())));
            }
        }
    }
    c.st();
    c.sample(|| format!("{} {}x{} times {}x{} times {}x{}: {l:?} * {x:?} * {r:?}", T::NAME, l.len(), l[0].len(), x.len(), x[0].len(), r.len(), r[0].len()).chars().take(400).collect());
    Ok(())
}
fn check_linear<N: Eng, T: Ent<N>>(x: &R<N::S>, y: &R<N::S>, s: &N::S, c: &mut Cnt) -> Result<(), String> {
    let (a, b) = (build::<N, T>(x), build::<N, T>(y));
    let (m, n, w) = (x.len(), x[0].len(), T::W);
    let map = |f: &dyn Fn(usize, usize, usize) -> N::S| -> R<N::S> { (0..m).map(|i| (0..n).map(|j| (0..w).map(|q| f(i, j, q)).collect()).collect()).collect() };
    let ck = |name: &str, got: Result<Matrix<T>, String>, want: R<N::S>| -> Result<(), String> {
        match got {
            Ok(g) if is::<N, T>(&g, &want) => Ok(()),
            g => {
                let s = format!("{name} of {m}x{n} {} is wrong: {x:?} {y:?} scalar {s} gives {g:?}", T::NAME);
                Err(if s.len() > 600 { format!("{}...", &s[..600]) } else { s })
            }
        }
    };
    c.st();
    c.tr(4);
    ck("addition", lib(|| T::add(&a, &b)), map(&|i, j, q| x[i][j][q] + y[i][j][q]))?;
    ck("negation", lib(|| T::neg(&a)), map(&|i, j, q| -x[i][j][q]))?;
    ck("scalar multiplication", lib(|| T::smul(&a, s)), map(&|i, j, q| x[i][j][q] * s))?;
    let t: R<N::S> = (0..n).map(|j| (0..m).map(|i| x[i][j].clone()).collect()).collect();
    ck("transposition", lib(|| T::tr(&a)), t)
}

/// Everything of order p: all entries of all three matrices for one shape (a x b) (b x c).
fn all_entries<N: Eng, T: Ent<N> + 'static>(a: usize, b: usize, cc: usize) -> Part {
    let p = N::P;
    let (nl, nx) = (a * b, b * cc * T::W);
    part(
        &format!("all-{}-{a}x{b}x{cc}-p{p}", T::NAME),
        &format!("order {p}: every {a}x{b} scalar matrix times every {b}x{cc} matrix of {}, and the transposed product, sequential and parallel with 1, 2, 8 and 64 announced threads", T::NAME),
        pw(p, nl + nx),
        move |i, c| {
            let mut ix = Ix(i);
            let l = fmat(a, b, || ix.f::<N::S>(p));
            let x = rmat(b, cc, T::W, || ix.f::<N::S>(p));
            let r: Matrix<N::S> = (0..cc).map(|j| (0..a).map(|i| l[i][j % b] + N::S::from((j / b) as u64)).collect()).collect();
            check_mul::<N, T>(&l, &x, &r, c)
        },
    )
}
fn all_linear<N: Eng, T: Ent<N> + 'static>(m: usize, n: usize) -> Part {
    let p = N::P;
    let k = m * n * T::W;
    part(&format!("linear-{}-{m}x{n}-p{p}", T::NAME), &format!("order {p}: addition, negation, scalar multiplication, transposition of all {m}x{n} matrices of {}", T::NAME), pw(p, 2 * k + 1), move |i, c| {
        let mut ix = Ix(i);
        let x = rmat(m, n, T::W, || ix.f::<N::S>(p));
        let y = rmat(m, n, T::W, || ix.f::<N::S>(p));
        let s = ix.f::<N::S>(p);
        check_linear::<N, T>(&x, &y, &s, c)
    })
}
/// All shapes up to max: basis matrices (which determine a bilinear map) and mixed ones.
fn shapes<N: Eng<S = FrB>, T: Ent<N> + 'static>(max: usize, per: u64) -> Part {
    let mx = max as u64;
    part(&format!("shapes-{}-{}", T::NAME, N::NAME), &format!("{}: all shapes up to {max}x{max}x{max} of {}: products of basis matrices ({per} spread per shape) and of matrices of boundary scalars; linear operations", N::NAME, T::NAME), mx * mx * mx * (per + 2), move |i, c| {
        let mut ix = Ix(i);
        let (a, b, cc) = (1 + ix.take(mx) as usize, 1 + ix.take(mx) as usize, 1 + ix.take(mx) as usize);
        let z = FrB::zero();
        let v = ix.0;
        let (mut l, mut x, mut r) = (fmat(a, b, || z), rmat(b, cc, T::W, || z), fmat(cc, a, || z));
        if v < per {
            let q = v as usize;
            let (i0, k0, j0) = (q % a, (q / 2 + q) % b, (q / 3) % cc);
            l[i0][k0] = edge(1 + q % 15);
            x[k0][j0][q % T::W] = edge(1 + (q / 4) % 15);
            r[j0][i0] = edge(1 + (q / 5) % 15);
        } else {
            let mut n = 0;
            let mut f = || {
                n += 1;
                if v == per { edge(n * 7 + i as usize) } else { mixed(i, n) }
            };
            l = fmat(a, b, &mut f);
            x = rmat(b, cc, T::W, &mut f);
            r = fmat(cc, a, &mut f);
        }
        let y = rmat(b, cc, T::W, || mixed(i + 1, v as usize));
        check_linear::<N, T>(&x, &y, &edge(i as usize), c)?;
        check_mul::<N, T>(&l, &x, &r, c)
    })
}
/// Every scalar of the catalogue in every role of a matrix operation.
fn catalogue_mats<N: Eng<S = FrB>, T: Ent<N> + 'static>() -> Part {
    let cat = &catalogue().all;
    part(&format!("scalars-{}-{}", T::NAME, N::NAME), &format!("{}: each of {} scalars (small, one or two powers of two, digit patterns, quotients, roots, endomorphism eigenvalues) as entry, factor and summand of {} matrices, 1x2 by 2x1 and 2x2", N::NAME, cat.len(), T::NAME), cat.len() as u64, move |i, c| {
        let s = cat[i as usize];
        let (a, b, d) = (mixed(i, 0), mixed(i, 1), mixed(i, 2));
        let row = |z: FrB| -> Vec<FrB> { (0..T::W).map(|q| if q == 0 { z } else { z + a }).collect() };
        let x = vec![vec![row(s), row(a)], vec![row(b), row(d)]];
        let y = vec![vec![row(b), row(s)], vec![row(a), row(a)]];
        check_linear::<N, T>(&x, &y, &s, c)?;
        check_mul::<N, T>(&vec![vec![s, a]], &vec![vec![row(b)], vec![row(d)]], &vec![vec![s]], c)?;
        check_mul::<N, T>(&vec![vec![b, s]], &vec![vec![row(s)], vec![row(s)]], &vec![vec![s]], c)
    })
}
/// Matrices with many zero entries on either side of a product.
fn sparse<N: Eng<S = FrB>, T: Ent<N> + 'static>(big: bool) -> Part {
    let tb = tables(big);
    part(&format!("sparse-{}", T::NAME), &format!("BLS12-381-sized exponents: {} patterns of zero entries (all of them up to 3x3; single entries, gaps, pairs, rows, columns, bands, triangles up to 8x8) in the scalar factor, in the matrix of {}, and in both", tb.len(), T::NAME), tb.len() as u64 * 3, move |i, c| {
        let mut ix = Ix(i);
        let who = ix.take(3);
        let (m, n, k) = &tb[ix.0 as usize];
        let (m, n) = (*m, *n);
        let mut q = 0;
        let mut f = || {
            q += 1;
            let z = mixed(i, q);
            if z.is_zero() { FrB::from(q as u64 + 2) } else { z }
        };
        let z = FrB::zero();
        let cc = 1 + (i % 3) as usize;
        // the pattern in the left factor (m x n) of an n x cc matrix, or in the matrix (m x n) between dense factors
        let mut it = k.iter().cycle().copied();
        let mut pat = |f: &mut dyn FnMut() -> FrB| if it.next().unwrap() { f() } else { z };
        if who == 0 {
            let l = fmat(m, n, || pat(&mut f));
            let x = rmat(n, cc, T::W, &mut f);
            let r = fmat(cc, m, &mut f);
            return check_mul::<N, T>(&l, &x, &r, c);
        }
        let x: R<FrB> = (0..m).map(|_| (0..n).map(|_| { let on = pat(&mut || FrB::one()).is_one(); (0..T::W).map(|_| if on { f() } else { z }).collect() }).collect()).collect();
        let sp = who == 2;
        let mut g = |i: usize, j: usize| if sp && !k[(i * n + j) % k.len()] { z } else { f() };
        let l: Matrix<FrB> = (0..cc).map(|i| (0..m).map(|j| g(i, j)).collect()).collect();
        let r: Matrix<FrB> = (0..n).map(|i| (0..cc).map(|j| g(i, j)).collect()).collect();
        check_linear::<N, T>(&x, &x, &l[0][0], c)?;
        check_mul::<N, T>(&l, &x, &r, c)
    })
}
/// Entries that are zero, equal or opposite to each other: in rows, columns and both factors, whole rows and columns alike.
fn alike_mats<N: Eng<S = FrB>, T: Ent<N> + 'static>(most: usize) -> Part {
    let al = alike(most);
    let na = al.len() as u64;
    part(&format!("alike-{}", T::NAME), &format!("BLS12-381-sized exponents: {na} patterns of zero, equal and opposite entries in lists of up to {most}: as a row or column of either factor, as whole rows or columns, as the entries of a square; the scalar factor's rows or columns equal, or equal but for one entry; both operands of a sum alike ({})", T::NAME), na * 6 * 3, move |i, c| {
        let mut ix = Ix(i);
        let place = ix.take(6);
        let comp = ix.take(3);
        let p = &al[ix.0 as usize];
        let l = p.len();
        let (v, w) = (alike_values(p, i % 11), alike_values(p, i % 7 + 20));
        let mut q = 0;
        let mut f = || {
            q += 1;
            mixed(i, q)
        };
        // one entry of the matrix of T following the pattern in both components, in the first or in the last only
        let ent = |j: usize, f: &mut dyn FnMut() -> FrB| -> Vec<FrB> { (0..T::W).map(|k| if comp == 0 || (comp == 1) == (k == 0) { if k == 0 { v[j % l] } else { w[j % l] } } else { f() }).collect() };
        let (m, n) = match place {
            0 => (l, 1 + (i % 2) as usize),
            1 => (1 + (i % 2) as usize, l),
            2 => (l, l.min(3)),
            3 => (l.min(3), l),
            4 => (2, l.div_ceil(2)),
            _ => (l.div_ceil(2), 2),
        };
        let k = 1 + (i % 3) as usize;
        let mut x: R<FrB> = vec![];
        for a in 0..m {
            x.push(
                (0..n)
                    .map(|b| match place {
                        0 => if b == 0 { ent(a, &mut f) } else { (0..T::W).map(|_| f()).collect() },
                        1 => if a == 0 { ent(b, &mut f) } else { (0..T::W).map(|_| f()).collect() },
                        2 => ent(a, &mut f).iter().map(|z| *z * FrB::from(b as u64 + 1)).collect(),
                        3 => ent(b, &mut f),
                        4 => ent(a * n + b, &mut f),
                        _ => ent(b * m + a, &mut f),
                    })
                    .collect(),
            );
        }
        // the scalar factor: its rows or columns equal, equal but for one entry, or generic
        let g = |j: usize, o: usize, of: usize, f: &mut dyn FnMut() -> FrB| match i % 4 {
            0 => w[j % l],
            2 if o == 0 || j != (i / 4) as usize % of => w[j % l],
            _ => f(),
        };
        let lm: Matrix<FrB> = (0..k).map(|a| (0..m).map(|b| g(b, a, m, &mut f)).collect()).collect();
        let rm: Matrix<FrB> = (0..n).map(|a| (0..k).map(|b| g(a, b, n, &mut f)).collect()).collect();
        check_mul::<N, T>(&lm, &x, &rm, c)?;
        // the other operand: itself, its negation, its rows or columns in another order
        let y: R<FrB> = match (i / 3) % 4 {
            0 => x.clone(),
            1 => x.iter().map(|r| r.iter().map(|e| e.iter().map(|z| -*z).collect()).collect()).collect(),
            2 => x.iter().rev().cloned().collect(),
            _ => x.iter().map(|r| r.iter().rev().cloned().collect()).collect(),
        };
        check_linear::<N, T>(&x, &y, &v[0], c)
    })
}
fn lines<N: Eng<S = FrB>, T: Ent<N> + 'static>(lens: Vec<usize>) -> Part {
    let n = lens.len() as u64;
    part(&format!("long-{}-{}", T::NAME, N::NAME), &format!("{}: long inner and outer dimensions of {}: {lens:?}", N::NAME, T::NAME), n * 6, move |i, c| {
        let mut ix = Ix(i);
        let (a, b, cc) = {
            let s = ix.take(6);
            let l = lens[ix.0 as usize];
            match s {
                0 => (1, l, 1),
                1 => (l, 1, 1),
                2 => (1, 1, l),
                3 => (2, l, 2),
                4 => (l, 2, 1),
                _ => (1, 2, l),
            }
        };
        let mut q = 0;
        let mut f = || {
            q += 1;
            mixed(i, q)
        };
        let (l, x, r) = (fmat(a, b, &mut f), rmat(b, cc, T::W, &mut f), fmat(cc, a, &mut f));
        let y = rmat(b, cc, T::W, &mut f);
        check_linear::<N, T>(&x, &y, &f(), c)?;
        check_mul::<N, T>(&l, &x, &r, c)
    })
}
/// Every shape over a list of sizes that includes both sides of the block sizes a blocked,
/// unrolled or recursive product would use, in all three dimensions at once.
fn blocks<N: Eng, T: Ent<N> + 'static>(sizes: Vec<usize>) -> Part {
    let n = sizes.len() as u64;
    part(&format!("blocks-{}-p{}", T::NAME, N::P), &format!("order {}: products and linear operations of {} for all triples of dimensions from {sizes:?}, sequential and with 3 and 8 announced threads", N::P, T::NAME), n * n * n, move |i, c| {
        let mut ix = Ix(i);
        let (a, b, cc) = (sizes[ix.take(n) as usize], sizes[ix.take(n) as usize], sizes[ix.take(n) as usize]);
        let mut q = i.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
        let mut f = || {
            q ^= q << 13;
            q ^= q >> 7;
            q ^= q << 17;
            N::S::from((q >> 20) % N::P)
        };
        let (l, x, r) = (fmat(a, b, &mut f), rmat(b, cc, T::W, &mut f), fmat(cc, a, &mut f));
        let y = rmat(b, cc, T::W, &mut f);
        check_linear::<N, T>(&x, &y, &f(), c)?;
        let m = build::<N, T>(&x);
        let (wl, wr) = (lref(&l, &x), rref(&x, &r));
        for (pool, par) in [(0, false), (2, true), (4, true)] {
            c.tr(2);
            if !matches!(with_pool(pool, || lib(|| T::lmul(&m, &l, par))), Ok(g) if is::<N, T>(&g, &wl)) {
                return Err(format!("left multiplication of {} ({a}x{b} by {b}x{cc}, parallel {par}) is wrong", T::NAME));
            }
            if !matches!(with_pool(pool, || lib(|| T::rmul(&m, &r, par))), Ok(g) if is::<N, T>(&g, &wr)) {
                return Err(format!("right multiplication of {} ({b}x{cc} by {cc}x{a}, parallel {par}) is wrong", T::NAME));
            }
        }
        Ok(())
    })
}
/// All scalars of a product of one or two bit lengths, so that machine arithmetic on them would overflow somewhere.
fn widths<N: Eng<S = FrB>, T: Ent<N> + 'static>() -> Part {
    let w = WIDTHS.len() as u64;
    let lens = [1usize, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 129];
    let with = [usize::MAX, 1, 16, 32, 64, 128];
    part(&format!("widths-{}", T::NAME), &format!("BLS12-381-sized exponents: products of {} in which all scalars of either factor have one of {w} bit lengths, the largest such numbers, the largest ones in turn, or opposite ones, inner dimensions {lens:?}", T::NAME), w * 6 * 12 * 4, move |i, c| {
        let mut ix = Ix(i);
        let w1 = WIDTHS[ix.take(w) as usize];
        let w2 = with[ix.take(6) as usize].min(255);
        let w2 = if w2 == 255 { w1 } else { w2 };
        let n = lens[ix.take(12) as usize];
        let how = ix.0;
        let put = |w: usize, first: bool| {
            let mut q = 0;
            move || {
                q += 1;
                let v = of_width(w, if how == 1 { q % 3 } else { 0 });
                if how == 2 && first || how == 3 && q % 2 == 0 { -v } else { v }
            }
        };
        let (mut f, mut g) = (put(w1, true), put(w2, false));
        let o = || FrB::one();
        check_mul::<N, T>(&fmat(1, n, &mut f), &rmat(n, 1, T::W, &mut g), &fmat(1, 1, o), c)?;
        check_mul::<N, T>(&fmat(1, 1, o), &rmat(1, n, T::W, &mut f), &fmat(n, 1, &mut g), c)?;
        if n < 6 {
            check_mul::<N, T>(&fmat(2, n, &mut f), &rmat(n, 2, T::W, &mut g), &fmat(2, 3, &mut f), c)?;
            check_linear::<N, T>(&rmat(2, n, T::W, &mut f), &rmat(2, n, T::W, &mut g), &f(), c)?;
        }
        Ok(())
    })
}
/// Inner dimensions that agree in their low bytes only.
fn wrapped<N: Eng, T: Ent<N> + 'static>() -> Part {
    let ls = [1usize, 2, 255, 256, 257, 258, 512, 513, 514, 65536, 65537, 65538];
    part(&format!("refuse-wrapped-{}", T::NAME), &format!("multiplication with different inner dimensions from {ls:?} is refused, {}", T::NAME), 12 * 12 * 4, move |i, c| {
        let mut ix = Ix(i);
        let (a, b) = (ls[ix.take(12) as usize], ls[ix.take(12) as usize]);
        let par = ix.bit();
        let o = if ix.bit() { N::S::one() } else { N::S::zero() };
        if a == b {
            return Ok(());
        }
        c.st();
        c.tr(2);
        c.tag("refused");
        let m = build::<N, T>(&rmat(a, 1, T::W, || o));
        if lib(|| T::lmul(&m, &fmat(1, b, || o), par)).is_ok() {
            return Err(format!("1x{b} scalars times {a}x1 {} is not refused", T::NAME));
        }
        let m = build::<N, T>(&rmat(1, a, T::W, || o));
        if lib(|| T::rmul(&m, &fmat(b, 1, || o), par)).is_ok() {
            return Err(format!("1x{a} {} times {b}x1 scalars is not refused", T::NAME));
        }
        Ok(())
    })
    .need(&["refused"])
}
fn refuse<N: Eng, T: Ent<N> + 'static>(max: u64) -> Part {
    part(&format!("refuse-{}", T::NAME), &format!("multiplication with every incompatible inner dimension up to {max} is refused, {}", T::NAME), pw(max, 4) * 2, move |i, c| {
        let mut ix = Ix(i);
        let par = ix.bit();
        let d: Vec<usize> = (0..4).map(|_| 1 + ix.take(max) as usize).collect();
        let o = N::S::one();
        let x = rmat(d[0], d[1], T::W, || o);
        let s = fmat(d[2], d[3], || o);
        let m = build::<N, T>(&x);
        c.st();
        if d[3] != d[0] {
            c.tr(1);
            c.tag("refused");
            if let Ok(g) = lib(|| T::lmul(&m, &s, par)) {
                return Err(format!("{}x{} scalars times {}x{} {} gives {g:?}", d[2], d[3], d[0], d[1], T::NAME));
            }
        }
        if d[1] != d[2] {
            c.tr(1);
            c.tag("refused");
            if let Ok(g) = lib(|| T::rmul(&m, &s, par)) {
                return Err(format!("{}x{} {} times {}x{} scalars gives {g:?}", d[0], d[1], T::NAME, d[2], d[3]));
            }
        }
        Ok(())
    })
    .need(&["refused"])
}
/// The field matrices of BLS12-381 are those of `FrB`; commitment matrices are compared on the curve.
fn bls_mats(n: u64) -> Part {
    part("bls", "the same products of commitment matrices on BLS12-381", n * 2, move |i, c| {
        let mut ix = Ix(i);
        let second = ix.bit();
        let (a, b, cc) = ([1, 2, 3, 1, 2][(ix.0 % 5) as usize], [1, 2, 2, 3, 1][(ix.0 % 5) as usize], [1, 1, 2, 2, 3][(ix.0 % 5) as usize]);
        let mut q = 0;
        let mut f = || {
            q += 1;
            if q % 5 == 0 { FrB::zero() } else { mixed(i, q) }
        };
        let (l, x, r) = (fmat(a, b, &mut f), rmat(b, cc, 2, &mut f), fmat(cc, a, &mut f));
        let y = rmat(b, cc, 2, &mut f);
        let s = f();
        c.conf += 1;
        if second {
            check_linear::<Bls, Com2<ark_bls12_381::Bls12_381>>(&x, &y, &s, c)?;
            check_mul::<Bls, Com2<ark_bls12_381::Bls12_381>>(&l, &x, &r, c)
        } else {
            check_linear::<Bls, Com1<ark_bls12_381::Bls12_381>>(&x, &y, &s, c)?;
            check_mul::<Bls, Com1<ark_bls12_381::Bls12_381>>(&l, &x, &r, c)
        }
    })
}
fn vectors(max: u64) -> Part {
    part("vectors", &format!("vectors of every length up to {max}: to a column matrix and back, scalars and commitment elements"), max + 1, move |i, c| {
        let v = mixeds(i, i as usize);
        c.st();
        c.tr(6);
        let m = lib(|| vec_to_col_vec(&v)).map_err(|m| format!("panic ({m}) on length {i}"))?;
        if m.len() != v.len() || m.iter().zip(&v).any(|(r, x)| r.len() != 1 || r[0] != *x) {
            return Err(format!("vec_to_col_vec is wrong for length {i}"));
        }
        let b = lib(|| col_vec_to_vec(&m)).map_err(|m| format!("panic ({m}) on length {i}"))?;
        if b != v {
            return Err(format!("col_vec_to_vec of a column of length {i} gives {} entries", b.len()));
        }
        let w: Vec<_> = v.iter().map(|x| com1::<ToyB>(&[*x, -*x])).collect();
        let m = lib(|| vec_to_col_vec(&w)).map_err(|m| format!("panic ({m}) on length {i}"))?;
        let b = lib(|| col_vec_to_vec(&m)).map_err(|m| format!("panic ({m}) on length {i}"))?;
        let e: Vec<P2<FrB>> = v.iter().map(|x| [*x, -*x]).collect();
        if m.len() != v.len() || m.iter().any(|r| r.len() != 1) || !eqs1::<ToyB>(&b, &e) {
            return Err(format!("conversion of a vector of {i} commitment elements loses something"));
        }
        let w: Vec<_> = v.iter().map(|x| com2::<ToyB>(&[*x, -*x])).collect();
        let m = lib(|| vec_to_col_vec(&w)).map_err(|m| format!("panic ({m}) on length {i}"))?;
        let b = lib(|| col_vec_to_vec(&m)).map_err(|m| format!("panic ({m}) on length {i}"))?;
        if m.len() != v.len() || !eqs2::<ToyB>(&b, &e) {
            return Err(format!("conversion of a vector of {i} commitment elements loses something"));
        }
        Ok(())
    })
}
pub fn matrices(t: Tier) -> Vec<Part> {
    let mut v = vec![];
    for a in 1..=2 {
        for b in 1..=2 {
            for c in 1..=2 {
                v.push(all_entries::<E3, F3>(a, b, c));
                if a * b + 2 * b * c <= t.q(10, 12) {
                    v.push(all_entries::<E3, Com1<E3>>(a, b, c));
                    v.push(all_entries::<E3, Com2<E3>>(a, b, c));
                }
            }
        }
    }
    v.push(all_entries::<E3, F3>(1, 3, 1));
    v.push(all_entries::<E3, F3>(3, 1, 3));
    v.push(all_entries::<E3, F3>(1, 3, 2));
    v.push(all_entries::<E3, F3>(2, 3, 1));
    v.push(all_entries::<E5, F5>(1, 2, 1));
    v.push(all_entries::<E5, F5>(2, 2, 1));
    v.push(all_entries::<E7, F7>(1, 2, 1));
    v.push(all_entries::<E7, F7>(1, 1, 2));
    if t == Tier::Thorough {
        v.push(all_entries::<E3, F3>(2, 3, 2));
        v.push(all_entries::<E3, F3>(3, 2, 2));
        v.push(all_entries::<E3, F3>(2, 2, 3));
        v.push(all_entries::<E5, F5>(2, 2, 2));
    }
    for (m, n) in [(1, 1), (1, 2), (2, 1), (2, 2)] {
        v.push(all_linear::<E3, F3>(m, n));
        if m * n <= 2 {
            v.push(all_linear::<E3, Com1<E3>>(m, n));
            v.push(all_linear::<E3, Com2<E3>>(m, n));
            v.push(all_linear::<E5, F5>(m, n));
        }
    }
    v.push(all_linear::<E3, F3>(1, 3));
    v.push(all_linear::<E3, F3>(3, 1));
    let mx = t.q(7, 12);
    let per = t.q(24, 100);
    v.push(shapes::<ToyB, FrB>(mx, per));
    v.push(shapes::<ToyB, Com1<ToyB>>(mx, per));
    v.push(shapes::<ToyB, Com2<ToyB>>(mx, per));
    let lens: Vec<usize> = t.q(vec![13, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025], (8..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000]).collect());
    v.push(widths::<ToyB, FrB>());
    v.push(widths::<ToyB, Com1<ToyB>>());
    v.push(widths::<ToyB, Com2<ToyB>>());
    v.push(wrapped::<ToyB, FrB>());
    v.push(wrapped::<ToyB, Com1<ToyB>>());
    v.push(wrapped::<ToyB, Com2<ToyB>>());
    v.push(catalogue_mats::<ToyB, FrB>());
    v.push(catalogue_mats::<ToyB, Com1<ToyB>>());
    v.push(catalogue_mats::<ToyB, Com2<ToyB>>());
    v.push(sparse::<ToyB, FrB>(t == Tier::Thorough));
    v.push(sparse::<ToyB, Com1<ToyB>>(t == Tier::Thorough));
    v.push(sparse::<ToyB, Com2<ToyB>>(t == Tier::Thorough));
    v.push(alike_mats::<ToyB, FrB>(t.q(5, 6)));
    v.push(alike_mats::<ToyB, Com1<ToyB>>(t.q(5, 6)));
    v.push(alike_mats::<ToyB, Com2<ToyB>>(t.q(5, 6)));
    v.push(lines::<ToyB, FrB>(lens.clone()));
    v.push(lines::<ToyB, Com1<ToyB>>(lens.clone()));
    v.push(lines::<ToyB, Com2<ToyB>>(lens));
    let sizes: Vec<usize> = t.q(vec![1, 2, 3, 4, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65], vec![1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 24, 25, 31, 32, 33, 48, 50, 63, 64, 65, 100, 128, 129]);
    v.push(blocks::<E7, F7>(sizes.clone()));
    v.push(blocks::<E7, Com1<E7>>(sizes.clone()));
    v.push(blocks::<E7, Com2<E7>>(sizes));
    v.push(refuse::<E3, F3>(5));
    v.push(refuse::<E3, Com1<E3>>(5));
    v.push(refuse::<E3, Com2<E3>>(5));
    v.push(vectors(t.q(400, 3000)));
    v.push(bls_mats(t.q(20, 200)));
    v
}

// ---------------------------------------------------------------- C13
fn at<T>(r: Result<T, String>, name: &str) -> Result<T, String> {
    r.map_err(|m| format!("{name} panics ({m})"))
}
macro_rules! pair_laws {
    ($fname:ident, $com:ident, $mk:ident, $eq:ident, $A:ident) => {
        fn $fname<N: Eng>(a: &P2<N::S>, b: &P2<N::S>, s: &N::S, c: &mut Cnt) -> Result<(), String> {
            let (x, y) = ($mk::<N>(a), $mk::<N>(b));
            let w = |f: &dyn Fn(N::S, N::S) -> N::S| [f(a[0], b[0]), f(a[1], b[1])];
            let ck = |name: &str, got: Result<$com<N::E>, String>, want: P2<N::S>| -> Result<(), String> {
                match got {
                    Ok(g) if $eq::<N>(&g, &want) => Ok(()),
                    g => Err(format!("{} {name} is wrong: a {a:?} b {b:?} scalar {s} gives {g:?}", stringify!($com))),
                }
            };
            c.st();
            c.tr(14);
            ck("+", lib(|| x + y), w(&|a, b| a + b))?;
            ck("-", lib(|| x - y), w(&|a, b| a - b))?;
            ck("negation", lib(|| -x), w(&|a, _| -a))?;
            ck("+=", lib(|| { let mut z = x; z += y; z }), w(&|a, b| a + b))?;
            ck("-=", lib(|| { let mut z = x; z -= y; z }), w(&|a, b| a - b))?;
            ck("sum", lib(|| [x, y, x].into_iter().sum()), w(&|a, b| a + b + a))?;
            ck("empty sum", lib(|| Vec::<$com<N::E>>::new().into_iter().sum()), [N::S::zero(); 2])?;
            ck("zero", lib(|| <$com<N::E> as Zero>::zero()), [N::S::zero(); 2])?;
            ck("scalar_mul", lib(|| x.scalar_mul(s)), w(&|a, _| a * s))?;
            if at(lib(|| x.is_zero()), "is_zero")? != (a[0].is_zero() && a[1].is_zero()) {
                return Err(format!("{} is_zero is wrong on {a:?}", stringify!($com)));
            }
            if at(lib(|| x == y), "==")? != (a == b) || at(lib(|| x != y), "!=")? == (a == b) {
                return Err(format!("{} equality is wrong on {a:?} {b:?}", stringify!($com)));
            }
            let v = at(lib(|| x.as_vec()), "as_vec")?;
            if v != vec![N::$A(&a[0]), N::$A(&a[1])] {
                return Err(format!("as_vec is wrong on {a:?}"));
            }
            let m = at(lib(|| x.as_col_vec()), "as_col_vec")?;
            if m != vec![vec![N::$A(&a[0])], vec![N::$A(&a[1])]] {
                return Err(format!("as_col_vec is wrong on {a:?}"));
            }
            ck("from(column)", lib(|| $com::<N::E>::from(m.clone())), *a)
        }
    };
}
pair_laws!(laws1, Com1, com1, eq1, g1);
pair_laws!(laws2, Com2, com2, eq2, g2);
fn laws_t<N: Eng>(a: &[[N::S; 2]; 2], b: &[[N::S; 2]; 2], c: &mut Cnt) -> Result<(), String> {
    let (x, y) = (comt::<N>(a), comt::<N>(b));
    let w = |f: &dyn Fn(N::S, N::S) -> N::S| [[f(a[0][0], b[0][0]), f(a[0][1], b[0][1])], [f(a[1][0], b[1][0]), f(a[1][1], b[1][1])]];
    let ck = |name: &str, got: Result<ComT<N::E>, String>, want: [[N::S; 2]; 2]| -> Result<(), String> {
        match got {
            Ok(g) if eqt::<N>(&g, &want) => Ok(()),
            g => Err(format!("ComT {name} is wrong: a {a:?} b {b:?} gives {g:?}")),
        }
    };
    c.st();
    c.tr(12);
    c.sample(|| format!("ComT laws on {a:?} and {b:?}"));
    ck("+", lib(|| x + y), w(&|a, b| a + b))?;
    ck("-", lib(|| x - y), w(&|a, b| a - b))?;
    ck("negation", lib(|| -x), w(&|a, _| -a))?;
    ck("+=", lib(|| { let mut z = x; z += y; z }), w(&|a, b| a + b))?;
    ck("-=", lib(|| { let mut z = x; z -= y; z }), w(&|a, b| a - b))?;
    ck("sum", lib(|| [x, y, x].into_iter().sum()), w(&|a, b| a + b + a))?;
    ck("empty sum", lib(|| Vec::<ComT<N::E>>::new().into_iter().sum()), w(&|_, _| N::S::zero()))?;
    ck("zero", lib(|| <ComT<N::E> as Zero>::zero()), w(&|_, _| N::S::zero()))?;
    let z = a.iter().flatten().all(|v| v.is_zero());
    if at(lib(|| x.is_zero()), "is_zero")? != z {
        return Err(format!("ComT is_zero is wrong on {a:?}"));
    }
    if at(lib(|| x == y), "==")? != (a == b) || at(lib(|| x != y), "!=")? == (a == b) {
        return Err(format!("ComT equality is wrong on {a:?} {b:?}"));
    }
    let m: Matrix<PairingOutput<N::E>> = at(lib(|| x.as_matrix()), "as_matrix")?;
    if m.len() != 2 || m.iter().any(|r| r.len() != 2) || (0..2).any(|i| (0..2).any(|j| m[i][j] != N::gt(&a[i][j]))) {
        return Err(format!("as_matrix is wrong on {a:?}"));
    }
    ck("from(matrix)", lib(|| ComT::<N::E>::from(m)), *a)
}
fn t4<F: PrimeField>(ix: &mut Ix, p: u64) -> [[F; 2]; 2] {
    [[ix.f(p), ix.f(p)], [ix.f(p), ix.f(p)]]
}
fn small_laws<C: ToyCfg>(full_t: bool) -> Vec<Part> {
    let p = C::P;
    vec![
        part(&format!("com-p{p}"), &format!("order {p}: Com1 and Com2, all operand pairs and scalars, all operations"), pw(p, 5), move |i, c| {
            let mut ix = Ix(i);
            let (a, b, s) = (ix.p2(p), ix.p2(p), ix.f(p));
            laws1::<Toy<C>>(&a, &b, &s, c)?;
            laws2::<Toy<C>>(&a, &b, &s, c)
        }),
        part(&format!("comt-p{p}"), &format!("order {p}: ComT, all operand pairs, all operations{}", if full_t { "" } else { " (second operand: all with at most two nonzero components)" }), if full_t { pw(p, 8) } else { pw(p, 4) * ndev(4, 2, p) }, move |i, c| {
            let mut ix = Ix(i);
            let a = t4(&mut ix, p);
            let b = if full_t {
                t4(&mut ix, p)
            } else {
                let v = devs::<C::F>(4, 2, p, 0, ix.0);
                [[v[0], v[1]], [v[2], v[3]]]
            };
            laws_t::<Toy<C>>(&a, &b, c)
        }),
    ]
}
/// Sums of sequences of every length.
/// The sums of the sequences with these components (four per element).
fn sum_case<N: Eng<S = FrB>>(v: &[FrB], c: &mut Cnt) -> Result<(), String> {
    let l = v.len() / 4;
    let s = |f: usize| (0..l).fold(FrB::zero(), |a, q| a + v[4 * q + f]);
    c.st();
    c.tr(3);
    let g = at(lib(|| (0..l).map(|q| com1::<N>(&[v[4 * q], v[4 * q + 1]])).sum::<Com1<N::E>>()), "sum")?;
    if !eq1::<N>(&g, &[s(0), s(1)]) {
        return Err(format!("sum of {l} Com1 is wrong"));
    }
    let g = at(lib(|| (0..l).map(|q| com2::<N>(&[v[4 * q], v[4 * q + 1]])).sum::<Com2<N::E>>()), "sum")?;
    if !eq2::<N>(&g, &[s(0), s(1)]) {
        return Err(format!("sum of {l} Com2 is wrong"));
    }
    let g = at(lib(|| (0..l).map(|q| comt::<N>(&[[v[4 * q], v[4 * q + 1]], [v[4 * q + 2], v[4 * q + 3]]])).sum::<ComT<N::E>>()), "sum")?;
    if !eqt::<N>(&g, &[[s(0), s(1)], [s(2), s(3)]]) {
        return Err(format!("sum of {l} ComT is wrong"));
    }
    Ok(())
}
fn sums<N: Eng<S = FrB>>(name: &str, lens: Vec<usize>) -> Part {
    let n = lens.len() as u64;
    part(name, &format!("{}: sums of sequences of {n} lengths, boundary and mixed values, repeated and cancelling entries", N::NAME), n * 3, move |i, c| {
        let mut ix = Ix(i);
        let l = lens[ix.take(n) as usize];
        let v: Vec<FrB> = (0..4 * l)
            .map(|q| match ix.0 {
                0 => mixed(i, q),
                1 => edge(i as usize),
                _ => if (q / 4) % 2 == 0 { edge(q % 4 + l) } else { -edge(q % 4 + l) },
            })
            .collect();
        sum_case::<N>(&v, c)?;
        if N::NAME == "BLS12-381" {
            c.conf += 1;
        }
        Ok(())
    })
}
pub fn groups(t: Tier) -> Vec<Part> {
    let mut v = small_laws::<T3>(true);
    v.extend(small_laws::<T5>(t == Tier::Thorough));
    v.extend(small_laws::<T7>(false));
    v.push(part("seq-p3", "order 3: sums of all sequences of up to 4 elements of Com1 and Com2, and up to 2 of ComT", (0..5).map(|l| pw(9, l)).sum::<u64>() + pw(81, 2), |i, c| {
        let mut j = i;
        for l in 0..5usize {
            let n = pw(9, l);
            if j < n {
                let mut ix = Ix(j);
                let v = ix.p2s::<F3>(3, l);
                let s = v.iter().fold([F3::zero(); 2], |a, b| [a[0] + b[0], a[1] + b[1]]);
                c.st();
                c.tr(2);
                let g = at(lib(|| v.iter().map(com1::<E3>).sum::<Com1<E3>>()), "sum")?;
                let h = at(lib(|| v.iter().map(com2::<E3>).sum::<Com2<E3>>()), "sum")?;
                if !eq1::<E3>(&g, &s) || !eq2::<E3>(&h, &s) {
                    return Err(format!("sum of {v:?} is {g:?} {h:?}"));
                }
                return Ok(());
            }
            j -= n;
        }
        let mut ix = Ix(j);
        let (a, b) = (t4::<F3>(&mut ix, 3), t4::<F3>(&mut ix, 3));
        c.st();
        c.tr(1);
        let g = at(lib(|| [comt::<E3>(&a), comt::<E3>(&b)].into_iter().sum::<ComT<E3>>()), "sum")?;
        let w = [[a[0][0] + b[0][0], a[0][1] + b[0][1]], [a[1][0] + b[1][0], a[1][1] + b[1][1]]];
        if !eqt::<E3>(&g, &w) {
            return Err(format!("sum of {a:?} {b:?} is {g:?}"));
        }
        Ok(())
    }));
    v.push(part("edge", "BLS12-381-sized exponents: all pairs of boundary components against all boundary scalars", 16 * 16 * 16, |i, c| {
        let mut ix = Ix(i);
        let (a, b, s) = (edge(ix.take(16) as usize), edge(ix.take(16) as usize), edge(ix.0 as usize));
        laws1::<ToyB>(&[a, b], &[b, s], &s, c)?;
        laws2::<ToyB>(&[a, b], &[b, s], &s, c)?;
        laws_t::<ToyB>(&[[a, b], [s, a]], &[[b, a], [s, s]], c)
    }));
    let cat = catalogue();
    v.push(part("scalars", &format!("BLS12-381-sized exponents: each of {} scalars (small, one or two powers of two, digit patterns, quotients, roots, endomorphism eigenvalues) as factor and as exponent", cat.all.len()), cat.all.len() as u64, move |i, c| {
        let s = cat.all[i as usize];
        let (a, b) = (mixed(i, 0), mixed(i, 1));
        laws1::<ToyB>(&[a, s], &[s, b], &s, c)?;
        laws2::<ToyB>(&[s, a], &[b, s], &s, c)
    }));
    let nsb = t.q(160, cat.short as u64);
    v.push(part("scalars-bls", &format!("BLS12-381: {nsb} of these scalars as factor of a generic and of a half-trivial element"), nsb, move |i, c| {
        let s = cat.all[(i * cat.short as u64 / nsb) as usize];
        c.conf += 1;
        laws1::<Bls>(&[mixed(i, 0), FrB::zero()], &[mixed(i, 2), mixed(i, 3)], &s, c)?;
        laws2::<Bls>(&[FrB::zero(), mixed(i, 1)], &[mixed(i, 2), mixed(i, 3)], &s, c)
    }));
    let nb = t.q(60, 800);
    v.push(part("bls", "BLS12-381: all operations, including identities, doublings and cancelling operands", nb, move |i, c| {
        let z = FrB::zero();
        let (a, b) = match i % 6 {
            0 => ([z, z], [z, z]),
            1 => ([edge(i as usize), z], [edge(i as usize), edge(3)]),
            2 => ([mixed(i, 0), mixed(i, 1)], [-mixed(i, 0), mixed(i, 1)]),
            3 => ([mixed(i, 0), mixed(i, 1)], [mixed(i, 0), mixed(i, 1)]),
            4 => ([z, mixed(i, 2)], [mixed(i, 2), z]),
            _ => ([mixed(i, 0), mixed(i, 1)], [mixed(i, 2), mixed(i, 3)]),
        };
        let s = edge(i as usize / 3);
        c.conf += 1;
        laws1::<Bls>(&a, &b, &s, c)?;
        laws2::<Bls>(&a, &b, &s, c)?;
        laws_t::<Bls>(&[a, b], &[b, [a[0], b[1]]], c)
    }));
    v.push(sums::<ToyB>("sums", t.q((0..40).chain([63, 64, 65, 127, 128, 129, 200, 256, 257, 500]).collect(), (0..600).chain([1000, 1023, 1024, 1025, 4096, 4097]).collect())));
    let al = alike(t.q(6, 7));
    let na = al.len() as u64;
    v.push(part("sums-alike", &format!("BLS12-381-sized exponents: sums of sequences of up to {} elements with {na} patterns of zero, equal and opposite elements, or of such components in any one place, or in all but one", t.q(6, 7)), na * 9, move |i, c| {
        let mut ix = Ix(i);
        let how = ix.take(9);
        let p = &al[ix.0 as usize];
        let a: Vec<Vec<FrB>> = (0..4).map(|k| alike_values(p, i % 7 + 30 * k)).collect();
        let v: Vec<FrB> = (0..4 * p.len())
            .map(|q| {
                let k = q as u64 % 4;
                if how == 8 || (how < 4 && how == k) || (how >= 4 && how != k + 4) { a[q % 4][q / 4] } else { mixed(i, q) }
            })
            .collect();
        sum_case::<ToyB>(&v, c)
    }));
    v.push(sums::<Bls>("sums-bls", t.q(vec![0, 1, 2, 3, 7], (0..40).collect())));
    v
}

// ---------------------------------------------------------------- C14
fn psum<F: PrimeField>(x: &[P2<F>], y: &[P2<F>]) -> [[F; 2]; 2] {
    let mut r = [[F::zero(); 2]; 2];
    for (a, b) in x.iter().zip(y) {
        let o = outer(*a, *b);
        for i in 0..2 {
            for j in 0..2 {
                r[i][j] += o[i][j];
            }
        }
    }
    r
}
fn pairing_case<N: Eng>(x: &[P2<N::S>], y: &[P2<N::S>], c: &mut Cnt) -> Result<(), String> {
    let a: Vec<_> = x.iter().map(com1::<N>).collect();
    let b: Vec<_> = y.iter().map(com2::<N>).collect();
    c.st();
    c.tr(1);
    c.sample(|| format!("{} pairing_sum of {x:?} and {y:?}", N::NAME));
    let got = lib(|| ComT::<N::E>::pairing_sum(&a, &b));
    let ok = matches!(&got, Ok(g) if eqt::<N>(g, &psum(x, y)));
    if !ok {
        return Err(format!("{}: pairing_sum of {} pairs is wrong: {x:?} {y:?} gives {got:?}", N::NAME, x.len()));
    }
    if x.len() == 1 {
        c.tr(1);
        let got = lib(|| ComT::<N::E>::pairing(a[0], b[0]));
        if !matches!(&got, Ok(g) if eqt::<N>(g, &outer(x[0], y[0]))) {
            return Err(format!("{}: pairing is wrong: {x:?} {y:?} gives {got:?}", N::NAME));
        }
    }
    Ok(())
}
/// All embeddings of one key against the reference, and embedding-then-pairing against the target embedding.
fn embed<N: Eng>(k: &Key<N::S>, x: N::S, y: N::S, c: &mut Cnt) -> Result<(), String> {
    type S<N> = <N as Eng>::S;
    let lk = crs::<N>(k);
    let (gx, gy) = (N::g1(&x), N::g2(&y));
    c.st();
    c.tr(12);
    let bad = |what: &str, g: String| format!("{}: {what} is wrong for key {k:?} x {x} y {y}: {g}", N::NAME);
    let c1 = |what: &str, g: Result<Com1<N::E>, String>, w: P2<S<N>>| match g {
        Ok(g) if eq1::<N>(&g, &w) => Ok(g),
        g => Err(bad(what, format!("{g:?}"))),
    };
    let c2 = |what: &str, g: Result<Com2<N::E>, String>, w: P2<S<N>>| match g {
        Ok(g) if eq2::<N>(&g, &w) => Ok(g),
        g => Err(bad(what, format!("{g:?}"))),
    };
    let ct = |what: &str, g: Result<ComT<N::E>, String>, w: [[S<N>; 2]; 2]| match g {
        Ok(g) if eqt::<N>(&g, &w) => Ok(g),
        g => Err(bad(what, format!("{g:?}"))),
    };
    let i1 = c1("linear_map on side 1", lib(|| Com1::<N::E>::linear_map(&gx)), k.map1(x))?;
    let i2 = c2("linear_map on side 2", lib(|| Com2::<N::E>::linear_map(&gy)), k.map1(y))?;
    let s1 = c1("scalar_linear_map on side 1", lib(|| Com1::<N::E>::scalar_linear_map(&x, &lk)), k.smap1(x))?;
    let s2 = c2("scalar_linear_map on side 2", lib(|| Com2::<N::E>::scalar_linear_map(&y, &lk)), k.smap2(y))?;
    let z = x * y;
    let one = N::S::one();
    let tp = ct("linear_map_PPE", lib(|| ComT::<N::E>::linear_map_PPE(&N::gt(&z))), [[N::S::zero(); 2], [N::S::zero(), z]])?;
    let t1 = ct("linear_map_MSMEG1", lib(|| ComT::<N::E>::linear_map_MSMEG1(&N::g1(&z), &lk)), outer(k.map1(z), k.smap2(one)))?;
    let t2 = ct("linear_map_MSMEG2", lib(|| ComT::<N::E>::linear_map_MSMEG2(&N::g2(&z), &lk)), outer(k.smap1(one), k.map1(z)))?;
    let tq = ct("linear_map_quad", lib(|| ComT::<N::E>::linear_map_quad(&z, &lk)), outer(k.smap1(one), k.smap2(z)))?;
    for (what, a, b, t) in [("pairing-product", i1, i2, tp), ("multi-scalar G1", i1, s2, t1), ("multi-scalar G2", s1, i2, t2), ("quadratic", s1, s2, tq)] {
        let g = at(lib(|| ComT::<N::E>::pairing(a, b)), "pairing")?;
        if g.0 != t.0 || g.1 != t.1 || g.2 != t.2 || g.3 != t.3 {
            return Err(bad(&format!("{what}: embedding then pairing"), format!("{g:?} against {t:?}")));
        }
    }
    Ok(())
}
fn batches<N: Eng>(k: &Key<N::S>, x: &[N::S], c: &mut Cnt) -> Result<(), String> {
    let lk = crs::<N>(k);
    c.st();
    c.tr(4);
    let e = |f: &dyn Fn(&N::S) -> P2<N::S>| x.iter().map(f).collect::<Vec<_>>();
    let ok = [
        matches!(lib(|| Com1::<N::E>::batch_linear_map(&v1::<N>(x))), Ok(g) if eqs1::<N>(&g, &e(&|x| k.map1(*x)))),
        matches!(lib(|| Com2::<N::E>::batch_linear_map(&v2::<N>(x))), Ok(g) if eqs2::<N>(&g, &e(&|x| k.map1(*x)))),
        matches!(lib(|| Com1::<N::E>::batch_scalar_linear_map(x, &lk)), Ok(g) if eqs1::<N>(&g, &e(&|x| k.smap1(*x)))),
        matches!(lib(|| Com2::<N::E>::batch_scalar_linear_map(x, &lk)), Ok(g) if eqs2::<N>(&g, &e(&|x| k.smap2(*x)))),
    ];
    if let Some(i) = ok.iter().position(|b| !b) {
        return Err(format!("{}: batch embedding {} of {} values differs from the single ones: key {k:?}", N::NAME, ["linear_map 1", "linear_map 2", "scalar_linear_map 1", "scalar_linear_map 2"][i], x.len()));
    }
    Ok(())
}
fn small_pairings<C: ToyCfg>(maxl: usize) -> Vec<Part> {
    let p = C::P;
    (0..=maxl)
        .map(|l| part(&format!("pairing-{l}-p{p}"), &format!("order {p}: pairing and pairing_sum of all lists of {l} pairs"), pw(p, 4 * l), move |i, c| {
            let mut ix = Ix(i);
            let (x, y) = (ix.p2s::<C::F>(p, l), ix.p2s::<C::F>(p, l));
            pairing_case::<Toy<C>>(&x, &y, c)
        }))
        .collect()
}
pub fn pairings(t: Tier) -> Vec<Part> {
    let mut v = small_pairings::<T3>(3);
    v.extend(small_pairings::<T5>(t.q(1, 2)));
    v.extend(small_pairings::<T7>(1));
    v.push(part("embed-p3", "order 3: every key (all 3^10 vectors and generators) x all values: every embedding, and embedding then pairing for the four types", pw(3, 12), |i, c| {
        let mut ix = Ix(i);
        let (x, y) = (ix.f(3), ix.f(3));
        let k = Key { u: [ix.p2(3), ix.p2(3)], v: [ix.p2(3), ix.p2(3)], g1: ix.f(3), g2: ix.f(3), gt: F3::one() };
        embed::<E3>(&k, x, y, c)
    }));
    let ns5 = nside(5);
    v.push(part("embed-p5", "order 5: every binding and hiding key of each side x all values", ns5 * ns5 / 20 * 2 * 25, move |i, c| {
        let mut ix = Ix(i);
        let (x, y, h) = (ix.f(5), ix.f(5), ix.bit());
        let a = ix.take(ns5);
        let k = key::<F5>(a, (ix.0 * 20 + a) % ns5, 5, h);
        embed::<E5>(&k, x, y, c)
    }));
    v.push(part("embed-edge", "BLS12-381-sized exponents: all pairs of boundary values, several keys", 256 * t.q(4, 40), |i, c| {
        let mut ix = Ix(i);
        let (x, y) = (edge(ix.take(16) as usize), edge(ix.take(16) as usize));
        let mut k = big_key(i / 256 + 60);
        if ix.0 % 2 == 1 {
            k.u[1][1] -= k.g1;
            k.v[1][1] -= k.g2;
        }
        embed::<ToyB>(&k, x, y, c)
    }));
    let cat = catalogue();
    let ne = cat.all.len() as u64;
    v.push(part("embed-scalars", &format!("BLS12-381-sized exponents: each of {ne} scalars (small, powers of two, digit patterns, quotients, roots, endomorphism eigenvalues) as value of either side and as key coordinate"), ne, move |i, c| {
        let s = cat.all[i as usize];
        let mut k = big_key(i % 7 + 60);
        embed::<ToyB>(&k, s, FrB::one(), c)?;
        embed::<ToyB>(&k, mixed(i, 4), s, c)?;
        let q = i as usize % 4;
        k.u[q / 2][q % 2] = s;
        k.v[1 - q / 2][1 - q % 2] = s;
        embed::<ToyB>(&k, mixed(i, 5), mixed(i, 6), c)?;
        batches::<ToyB>(&k, &[s, mixed(i, 7), s], c)?;
        pairing_case::<ToyB>(&[[s, mixed(i, 8)]], &[[mixed(i, 9), s]], c)
    }));
    let lens: Vec<usize> = t.q((0..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513]).collect(), (0..=600).chain([1000, 1023, 1024, 1025, 2048, 4097]).collect());
    let nl = lens.len() as u64;
    v.push(part("long", "BLS12-381-sized exponents: pairing sums and batch embeddings of many lengths", nl * 3, move |i, c| {
        let mut ix = Ix(i);
        let l = lens[ix.take(nl) as usize];
        let f = |q: usize| match ix.0 {
            0 => mixed(i, q),
            1 => edge(q),
            _ => if q % 3 == 0 { FrB::zero() } else { mixed(i, q) },
        };
        let x: Vec<_> = (0..l).map(|q| [f(4 * q), f(4 * q + 1)]).collect();
        let y: Vec<_> = (0..l).map(|q| [f(4 * q + 2), f(4 * q + 3)]).collect();
        pairing_case::<ToyB>(&x, &y, c)?;
        batches::<ToyB>(&big_key(i), &(0..l).map(f).collect::<Vec<_>>(), c)
    }));
    let m = t.q(4, 5);
    let al: Vec<Vec<Vec<i8>>> = (1..=m).map(|l| alike(m).into_iter().filter(|p| p.len() == l).collect()).collect();
    let ns: Vec<u64> = al.iter().map(|a| (a.len() * a.len()) as u64).collect();
    let all: u64 = ns.iter().sum();
    v.push(part("alike", &format!("BLS12-381-sized exponents: pairing sums and batch embeddings of lists of up to {m} pairs with every two patterns of zero, equal and opposite elements on the two sides, or of such first or last components"), all * 3, move |i, c| {
        let mut ix = Ix(i);
        let how = ix.take(3);
        let mut j = ix.0;
        let mut l = 0;
        while j >= ns[l] {
            j -= ns[l];
            l += 1;
        }
        let n = al[l].len() as u64;
        let (p, q) = (&al[l][(j % n) as usize], &al[l][(j / n) as usize]);
        let side = |p: &[i8], s: u64| -> Vec<P2<FrB>> {
            let (a, b) = (alike_values(p, i % 7 + s), alike_values(p, i % 5 + s + 100));
            (0..p.len()).map(|k| [if how == 1 { mixed(i, k + s as usize) } else { a[k] }, if how == 2 { mixed(i, k + s as usize + 50) } else { b[k] }]).collect()
        };
        let (x, y) = (side(p, 0), side(q, 10));
        pairing_case::<ToyB>(&x, &y, c)?;
        if j < n {
            batches::<ToyB>(&big_key(i), &alike_values(p, i % 7), c)?;
        }
        Ok(())
    }));
    v.push(part("batch-p3", "order 3: batch embeddings of all lists of up to 4 values, all keys of the quick key list, binding and hiding", 16 * 121, |i, c| {
        let mut ix = Ix(i);
        let b = ix.take(2);
        let k = &few_keys::<F3>(8, 3, b == 1)[ix.take(8) as usize];
        let mut j = ix.0;
        for l in 0..5usize {
            if j < pw(3, l) {
                return batches::<E3>(k, &Ix(j).fs::<F3>(3, l), c);
            }
            j -= pw(3, l);
        }
        Ok(())
    }));
    v.push(part("refuse", "pairing_sum of lists of different length is refused, all lengths up to 8 and long ones, zero and nonzero entries", 18 * 18 * 2, |i, c| {
        let mut ix = Ix(i);
        let ls = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 33, 256, 257, 258, 512, 513, 65536, 65537, 65538];
        let (a, b) = (ls[ix.take(18) as usize], ls[ix.take(18) as usize]);
        if a == b {
            return Ok(());
        }
        let e = if ix.bit() { F3::one() } else { F3::zero() };
        c.st();
        c.tr(1);
        c.tag("refused");
        let (x, y) = (vec![com1::<E3>(&[e, e]); a], vec![com2::<E3>(&[e, e]); b]);
        match lib(|| ComT::<E3>::pairing_sum(&x, &y)) {
            Err(_) => Ok(()),
            Ok(g) => Err(format!("pairing_sum of {a} and {b} elements gives {g:?}")),
        }
    }).need(&["refused"]));
    let nb = t.q(30, 300);
    v.push(part("bls", "BLS12-381: pairing, pairing sums, embeddings and their commutation against the exponents", nb, move |i, c| {
        let k = { let mut k = big_key(i + 20); if i % 3 == 0 { k.u[1][1] -= k.g1; k.v[1][1] -= k.g2; } k };
        let l = (i % 5) as usize;
        let z = |q: usize| if (q + i as usize) % 7 == 0 { FrB::zero() } else { mixed(i, q) };
        let x: Vec<_> = (0..l).map(|q| [z(4 * q), z(4 * q + 1)]).collect();
        let y: Vec<_> = (0..l).map(|q| [z(4 * q + 2), z(4 * q + 3)]).collect();
        c.conf += 1;
        pairing_case::<Bls>(&x, &y, c)?;
        embed::<Bls>(&k, edge(i as usize), z(91), c)?;
        batches::<Bls>(&k, &mixeds(i, l), c)
    }));
    // homomorphism of commitments: group operation on commitments adds values and randomness
    v.push(part("homomorphic", "order 3: sums of commitments to all values with all randomness are the commitments to the sums, all four kinds", 4 * 8 * 81, |i, c| {
        let mut ix = Ix(i);
        let (second, scalar) = (ix.bit(), ix.bit());
        let k = &few_keys::<F3>(8, 3, false)[ix.take(8) as usize];
        let lk = crs::<E3>(k);
        let (a, b) = (ix.f::<F3>(3), ix.f::<F3>(3));
        let d = if scalar { 1 } else { 2 };
        let (r0, s0) = (ix.take(3) as u8, ix.take(3) as u8);
        // draws are used as given: build them so that the third commitment's draws are the sums
        let pick = |r: u8| -> Vec<u8> { (0..d).map(|q| (r + q as u8) % 3).collect() };
        let (r, s) = (pick(r0), pick(s0));
        let rs: Vec<u8> = {
            // draw symbols map to field values by a fixed bijection fixing 0; invert it
            use ark_std::UniformRand;
            let val = |x: u8| { let mut t = Tree::with_prefix(3, &[x]); F3::rand(&mut t) };
            r.iter().zip(&s).map(|(x, y)| (0..3u8).find(|z| val(*z) == val(*x) + val(*y)).unwrap()).collect()
        };
        c.st();
        c.tr(3);
        let ok = if second {
            let f = |v: F3, r: &[u8]| lib(|| commit_y(&yvars::<E3>(scalar, &[v]), &lk, &mut Tree::with_prefix(3, r)).coms[0]);
            let (x, y, z) = (f(a, &r)?, f(b, &s)?, f(a + b, &rs)?);
            lib(|| x + y == z)?
        } else {
            let f = |v: F3, r: &[u8]| lib(|| commit_x(&xvars::<E3>(scalar, &[v]), &lk, &mut Tree::with_prefix(3, r)).coms[0]);
            let (x, y, z) = (f(a, &r)?, f(b, &s)?, f(a + b, &rs)?);
            lib(|| x + y == z)?
        };
        if !ok {
            return Err(format!("commitments are not homomorphic: side {} scalar {scalar} key {k:?} values {a} {b}", 1 + second as u8));
        }
        Ok(())
    }));
    v
}
