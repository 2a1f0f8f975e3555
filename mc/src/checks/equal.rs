//! C20: objects compare equal exactly when their contents are the same.
use super::encode::{commit1, commit2, proof};
use super::*;
use ark_ec::pairing::Pairing;
use ark_serialize::Compress;
use groth_sahai::prover::{CProof, Commit, Commit1, Commit2, EquProof};
use groth_sahai::statement::EquType;
use groth_sahai::{Com1, Com2, ComT};
use std::sync::OnceLock;

/// Where the opening of one committed value (or the randomness of a proof) comes from.
#[derive(Clone, PartialEq, Debug)]
enum Src {
    Draws(Vec<u8>),
    Seed(u64),
}
type Row = (bool, Src);
#[derive(Clone, PartialEq, Debug)]
struct DPf<F: PrimeField> {
    kind: Kind,
    tag: Kind,
    pi: Vec<P2<F>>,
    th: Vec<P2<F>>,
    src: Src,
}
#[derive(Clone, PartialEq, Debug)]
struct DC<F: PrimeField> {
    coms: Vec<P2<F>>,
    rows: Vec<Row>,
}
/// Contents of an object.
#[derive(Clone, PartialEq, Debug)]
enum D<F: PrimeField> {
    K1(P2<F>),
    K2(P2<F>),
    T([[F; 2]; 2]),
    C1(DC<F>),
    C2(DC<F>),
    Pf(DPf<F>),
    Pr(DC<F>, DC<F>, Vec<DPf<F>>),
    E(Eqn<F>),
    Ty(Kind),
}
#[derive(Clone, Debug)]
enum Ob<E: Pairing> {
    K1(Com1<E>),
    K2(Com2<E>),
    T(ComT<E>),
    C1(Commit1<E>),
    C2(Commit2<E>),
    Pf(EquProof<E>),
    Pr(CProof<E>),
    E(LEq<E>),
    Ty(EquType),
}
macro_rules! with_rng {
    ($src:expr, $p:expr, $r:ident => $e:expr) => {
        match $src {
            Src::Draws(d) => {
                let mut t = Tree::with_prefix($p, d);
                let $r = &mut t;
                $e
            }
            Src::Seed(s) => {
                let mut t = Stream::seeded(*s);
                let $r = &mut t;
                $e
            }
        }
    };
}
fn c1<N: Eng>(d: &DC<N::S>) -> Commit1<N::E> {
    let mut r: Option<Commit1<N::E>> = None;
    for (scalar, s) in &d.rows {
        let mut o = with_rng!(s, N::P, r => commit1::<N>(*scalar, 1, vec![com1::<N>(&[N::S::zero(); 2])], r));
        match &mut r {
            None => r = Some(o),
            Some(a) => Commit::append(a, &mut o),
        }
    }
    let mut r = r.unwrap_or_else(|| commit1::<N>(true, 0, vec![], &mut Stream::seeded(1)));
    r.coms = d.coms.iter().map(com1::<N>).collect();
    r
}
fn c2<N: Eng>(d: &DC<N::S>) -> Commit2<N::E> {
    let mut r: Option<Commit2<N::E>> = None;
    for (scalar, s) in &d.rows {
        let mut o = with_rng!(s, N::P, r => commit2::<N>(*scalar, 1, vec![com2::<N>(&[N::S::zero(); 2])], r));
        match &mut r {
            None => r = Some(o),
            Some(a) => Commit::append(a, &mut o),
        }
    }
    let mut r = r.unwrap_or_else(|| commit2::<N>(true, 0, vec![], &mut Stream::seeded(1)));
    r.coms = d.coms.iter().map(com2::<N>).collect();
    r
}
fn epf<N: Eng>(d: &DPf<N::S>) -> EquProof<N::E> {
    let pi = d.pi.iter().map(com2::<N>).collect();
    let th = d.th.iter().map(com1::<N>).collect();
    match &d.src {
        Src::Draws(x) => {
            let mut all = vec![0u8; ndraw_com(d.kind, 1, 1)];
            all.extend(x);
            proof::<N>(d.kind, d.tag, pi, th, &mut Tree::with_prefix(N::P, &all))
        }
        Src::Seed(s) => proof::<N>(d.kind, d.tag, pi, th, &mut Stream::seeded(*s)),
    }
}
fn build<N: Eng>(d: &D<N::S>) -> Ob<N::E> {
    match d {
        D::K1(k) => Ob::K1(com1::<N>(k)),
        D::K2(k) => Ob::K2(com2::<N>(k)),
        D::T(t) => Ob::T(comt::<N>(t)),
        D::C1(x) => Ob::C1(c1::<N>(x)),
        D::C2(x) => Ob::C2(c2::<N>(x)),
        D::Pf(x) => Ob::Pf(epf::<N>(x)),
        D::Pr(x, y, q) => Ob::Pr(CProof { xcoms: c1::<N>(x), ycoms: c2::<N>(y), equ_proofs: q.iter().map(epf::<N>).collect() }),
        D::E(e) => Ob::E(leq::<N>(e)),
        D::Ty(k) => Ob::Ty(etype(*k)),
    }
}
impl<E: Pairing> Ob<E> {
    /// `==` and `!=`
    fn cmp(&self, o: &Self) -> (bool, bool) {
        match (self, o) {
            (Ob::K1(a), Ob::K1(b)) => (a == b, a != b),
            (Ob::K2(a), Ob::K2(b)) => (a == b, a != b),
            (Ob::T(a), Ob::T(b)) => (a == b, a != b),
            (Ob::C1(a), Ob::C1(b)) => (a == b, a != b),
            (Ob::C2(a), Ob::C2(b)) => (a == b, a != b),
            (Ob::Pf(a), Ob::Pf(b)) => (a == b, a != b),
            (Ob::Pr(a), Ob::Pr(b)) => (a == b, a != b),
            (Ob::E(LEq::Ppe(a)), Ob::E(LEq::Ppe(b))) => (a == b, a != b),
            (Ob::E(LEq::M1(a)), Ob::E(LEq::M1(b))) => (a == b, a != b),
            (Ob::E(LEq::M2(a)), Ob::E(LEq::M2(b))) => (a == b, a != b),
            (Ob::E(LEq::Quad(a)), Ob::E(LEq::Quad(b))) => (a == b, a != b),
            (Ob::Ty(a), Ob::Ty(b)) => (a == b, a != b),
            _ => panic!("harness: types"),
        }
    }
    /// The encodings of the parts that hold private values.
    fn private(&self) -> Vec<Vec<u8>> {
        let u = Compress::No;
        match self {
            Ob::C1(a) => vec![ser(a, u)],
            Ob::C2(a) => vec![ser(a, u)],
            Ob::Pf(a) => vec![ser(a, u)],
            Ob::Pr(a) => {
                let mut v = vec![ser(&a.xcoms, u), ser(&a.ycoms, u)];
                v.extend(a.equ_proofs.iter().map(|p| ser(p, u)));
                v
            }
            _ => vec![],
        }
    }
    fn copy(&self) -> Self {
        self.clone()
    }
}
impl<F: PrimeField> D<F> {
    /// The same contents without the private values.
    fn public(&self) -> D<F> {
        let c = |d: &DC<F>| DC { coms: d.coms.clone(), rows: vec![] };
        let q = |d: &DPf<F>| DPf { src: Src::Seed(0), kind: Kind::Ppe, ..d.clone() };
        match self {
            D::C1(d) => D::C1(c(d)),
            D::C2(d) => D::C2(c(d)),
            D::Pf(d) => D::Pf(q(d)),
            D::Pr(x, y, p) => D::Pr(c(x), c(y), p.iter().map(q).collect()),
            d => d.clone(),
        }
    }
}
struct Item<N: Eng> {
    d: D<N::S>,
    public: D<N::S>,
    o: Ob<N::E>,
    private: Vec<Vec<u8>>,
}
fn item<N: Eng>(d: &D<N::S>) -> Result<Item<N>, String> {
    let o = lib(|| build::<N>(d)).map_err(|m| format!("building {d:?} panics ({m})"))?;
    let private = lib(|| o.private()).map_err(|m| format!("encoding {d:?} panics ({m})"))?;
    Ok(Item { d: d.clone(), public: d.public(), o, private })
}
/// None: the harness does not know (private values that look different but are encoded the same).
fn expected<N: Eng>(a: &Item<N>, b: &Item<N>) -> Option<bool> {
    if a.public != b.public || a.private != b.private {
        Some(false)
    } else if a.d == b.d {
        Some(true)
    } else {
        None
    }
}
fn judge<N: Eng>(a: &Item<N>, b: &Item<N>, c: &mut Cnt) -> Result<(), String> {
    let Some(want) = expected(a, b) else { return Ok(()) };
    c.st();
    c.tr(1);
    c.tag(if want { "same contents" } else { "different contents" });
    let (eq, ne) = lib(|| a.o.cmp(&b.o)).map_err(|m| format!("{}: comparing panics ({m}): {:?} and {:?}", N::NAME, a.d, b.d))?;
    if ne == eq {
        return Err(format!("{}: == and != agree ({eq}) on {:?} and {:?}", N::NAME, a.d, b.d));
    }
    if eq != want {
        return Err(format!(
            "{}: objects with {} contents compare {}: {:?} and {:?}",
            N::NAME,
            if want { "the same" } else { "different" },
            if eq { "equal" } else { "unequal" },
            a.d,
            b.d
        ));
    }
    Ok(())
}
/// All ordered pairs of a list of objects, the left one built anew or copied.
fn pairs_of<N: Eng>(name: &str, about: &str, list: Vec<D<N::S>>) -> Part {
    let n = list.len() as u64;
    let all: OnceLock<Result<Vec<Item<N>>, String>> = OnceLock::new();
    part(name, about, n, move |i, c| {
        let all = all.get_or_init(|| list.iter().map(item::<N>).collect()).as_ref().map_err(|m| m.clone())?;
        let a = item::<N>(&list[i as usize])?;
        c.sample(|| format!("{:?} with each of {n} objects", a.d));
        for b in all {
            judge(&a, b, c)?;
        }
        let b = &all[i as usize];
        let k = Item { d: a.d.clone(), public: a.public.clone(), private: a.private.clone(), o: lib(|| b.o.copy())? };
        judge(&k, b, c)?;
        judge(b, &k, c)
    })
    .need(&["same contents", "different contents"])
}

// ---------------------------------------------------------------- small contents
fn p2s_all<F: PrimeField>(p: u64) -> Vec<P2<F>> {
    (0..p * p).map(|i| Ix(i).p2(p)).collect()
}
fn lists<X: Clone>(of: &[X], most: usize) -> Vec<Vec<X>> {
    let mut v = vec![vec![]];
    let mut last: Vec<Vec<X>> = vec![vec![]];
    for _ in 0..most {
        last = last.iter().flat_map(|l| of.iter().map(move |x| l.iter().cloned().chain([x.clone()]).collect())).collect();
        v.extend(last.iter().cloned());
    }
    v
}
fn kinds() -> [Kind; 4] {
    [Kind::Ppe, Kind::M1, Kind::M2, Kind::Quad]
}
fn small(t: Tier) -> Vec<Part> {
    let mut v = vec![];
    v.push(pairs_of::<E5>("com1-p5", "every pair of elements of the first commitment group over the group of order 5", p2s_all(5).into_iter().map(D::K1).collect()));
    v.push(pairs_of::<E5>("com2-p5", "every pair of elements of the second commitment group over the group of order 5", p2s_all(5).into_iter().map(D::K2).collect()));
    let quads = |p: u64| -> Vec<D<_>> { (0..pw(p, 4)).map(|i| { let mut ix = Ix(i); D::T([ix.p2(p), ix.p2(p)]) }).collect() };
    v.push(pairs_of::<E3>("comt-p3", "every pair of elements of the commitment target group over the group of order 3", quads(3)));
    let quads = |p: u64| -> Vec<D<_>> { (0..pw(p, 4)).map(|i| { let mut ix = Ix(i); D::T([ix.p2(p), ix.p2(p)]) }).collect() };
    v.push(pairs_of::<E5>("comt-p5", "every pair of elements of the commitment target group over the group of order 5", quads(5)));
    v.push(pairs_of::<E3>("types", "every pair of equation types", kinds().map(D::Ty).to_vec()));
    // commitments: all lists of at most two elements (all elements in lists of one), openings of at most two rows
    let rows: Vec<Row> = (0..3u8).map(|a| (true, Src::Draws(vec![a]))).chain((0..9u8).map(|a| (false, Src::Draws(vec![a % 3, a / 3])))).collect();
    let few: Vec<Row> = [0usize, 1, 3, 4, 6].iter().map(|i| rows[*i].clone()).collect();
    let mut rl = lists(&rows, 1);
    rl.extend(lists(&t.q(few, rows.clone()), 2).into_iter().filter(|l| l.len() == 2));
    let cl: Vec<Vec<P2<F3>>> = lists(&p2s_all(3), 2);
    let cs: Vec<DC<F3>> = cl.iter().flat_map(|a| rl.iter().map(move |r| DC { coms: a.clone(), rows: r.clone() })).collect();
    v.push(pairs_of::<E3>("commit1-p3", "every pair of commitments of the first side with at most two elements and openings of at most two rows over the group of order 3", cs.iter().cloned().map(D::C1).collect()));
    v.push(pairs_of::<E3>("commit2-p3", "every pair of commitments of the second side with at most two elements and openings of at most two rows over the group of order 3", cs.into_iter().map(D::C2).collect()));
    // proofs
    let z = |a: u64, b: u64| [F3::from(a), F3::from(b)];
    let el = [z(0, 0), z(0, 1), z(1, 0)];
    let el2 = [z(1, 2), z(0, 0), z(2, 1)];
    for kind in kinds() {
        let w = kind.npi() * kind.ntheta();
        let mut l = vec![];
        let mut srcs: Vec<Vec<u8>> = vec![vec![0; w]];
        for a in 0..w {
            let mut x = vec![0; w];
            x[a] = 1;
            srcs.push(x);
        }
        srcs.push((0..w).map(|a| 2 - (a % 2) as u8).collect());
        for pi in lists(&el, 2) {
            for th in lists(&el2, 2) {
                for tag in kinds() {
                    for s in &srcs {
                        l.push(D::Pf(DPf { kind, tag, pi: pi.clone(), th: th.clone(), src: Src::Draws(s.clone()) }));
                    }
                }
            }
        }
        v.push(pairs_of::<E3>(&format!("proof-{kind:?}-p3"), "every pair of proofs with lists of at most two out of three elements, any label and proof randomness that is zero, has one nonzero entry or only nonzero entries", l));
    }
    // whole proofs
    let dc = |a: &[u64], r: &[u8]| DC { coms: a.iter().map(|x| z(x % 3, x / 3)).collect(), rows: r.iter().map(|x| (true, Src::Draws(vec![*x]))).collect() };
    let cm = [dc(&[], &[]), dc(&[1], &[1]), dc(&[3], &[1]), dc(&[1], &[2]), dc(&[1, 3], &[1, 2]), dc(&[3, 1], &[1, 2]), dc(&[1, 3], &[2, 1])];
    let q = |tag: Kind, a: u64, s: u8| DPf { kind: Kind::Quad, tag, pi: vec![z(a % 3, a / 3)], th: vec![z(a / 3, a % 3)], src: Src::Draws(vec![s]) };
    let qs = [q(Kind::Quad, 1, 1), q(Kind::Quad, 2, 1), q(Kind::Quad, 1, 0), q(Kind::Ppe, 1, 1)];
    let ql = lists(&qs, 2);
    let mut l = vec![];
    for a in &cm {
        for b in &cm {
            for p in &ql {
                l.push(D::Pr(a.clone(), b.clone(), p.clone()));
            }
        }
    }
    v.push(pairs_of::<E3>("transcript-p3", "every pair of commitments with proofs: seven commitments on each side (differing in one element, in the order, in the opening), at most two out of four equation proofs", l));
    // equations
    let consts = lists(&[F3::from(0u64), F3::from(1u64)], 2);
    let mut gs: Vec<Vec<Vec<F3>>> = vec![vec![], vec![vec![]], vec![vec![], vec![]]];
    for (m, n) in [(1usize, 1usize), (1, 2), (2, 1), (2, 2), (1, 4), (4, 1), (1, 3), (3, 1)] {
        for i in 0..pw(2, m * n) {
            gs.push(Ix(i).mat(2, m, n));
        }
    }
    let f = |x: u64| F3::from(x);
    gs.extend([vec![vec![f(1), f(1)], vec![f(1)]], vec![vec![f(1)], vec![f(1), f(1)]], vec![vec![f(1)], vec![]], vec![vec![], vec![f(1)]], vec![vec![f(2)]], vec![vec![f(2), f(0)]]]);
    for kind in kinds() {
        let mut l = vec![];
        for a in &consts {
            for b in &consts {
                for g in gs.iter().step_by(t.q(2, 1)) {
                    for s in 0..2u64 {
                        l.push(D::E(Eqn { kind, a: a.clone(), b: b.clone(), gamma: g.clone(), t: f(s) }));
                    }
                }
            }
        }
        v.push(pairs_of::<E3>(&format!("equation-{kind:?}-p3"), "every pair of equations with constant lists of at most two zeros and ones, coefficient matrices of up to four zeros and ones in every arrangement (also empty and ragged) and two targets", l));
    }
    v
}

// ---------------------------------------------------------------- large contents
/// Scalars that could be mistaken for `x`.
fn mistaken<F: PrimeField>(x: F, deep: bool) -> Vec<F> {
    let mut v = vec![x + F::one(), -x, F::zero(), x.double(), F::one()];
    if deep {
        let mut b = F::one();
        for _ in 0..F::MODULUS_BIT_SIZE {
            v.push(x + b);
            v.push(x - b);
            b = b.double();
        }
    }
    v.retain(|y| *y != x);
    v
}
fn near_list<X: Clone>(l: &[X], one: &dyn Fn(&X, usize) -> Vec<X>, extra: &[X]) -> Vec<Vec<X>> {
    let mut v = vec![];
    for i in 0..l.len() {
        for y in one(&l[i], i) {
            let mut k = l.to_vec();
            k[i] = y;
            v.push(k);
        }
        let mut k = l.to_vec();
        k.remove(i);
        v.push(k);
        let mut k = l.to_vec();
        k.insert(i, l[i].clone());
        v.push(k);
        if i > 0 {
            let mut k = l.to_vec();
            k.swap(0, i);
            v.push(k);
            let mut k = l.to_vec();
            k.swap(i - 1, i);
            v.push(k);
        }
    }
    let mut k = l.to_vec();
    k.reverse();
    v.push(k);
    v.push(vec![]);
    // as many more or fewer as one byte does not tell
    if let (Some(a), Some(z)) = (l.first(), l.last()) {
        let more = |x: &X, n: usize| l.iter().cloned().chain(std::iter::repeat(x.clone()).take(n)).collect::<Vec<X>>();
        v.extend([more(a, 256), more(z, 256), more(z, 512)]);
        if l.len() > 256 {
            v.push(l[..l.len() - 256].to_vec());
        }
    }
    for x in extra {
        let mut k = l.to_vec();
        k.push(x.clone());
        v.push(k.clone());
        k.rotate_right(1);
        v.push(k);
    }
    v
}
fn near_p2<F: PrimeField>(deep: bool) -> impl Fn(&P2<F>, usize) -> Vec<P2<F>> {
    move |x, _| {
        let mut v: Vec<P2<F>> = mistaken(x[0], deep).into_iter().map(|a| [a, x[1]]).collect();
        v.extend(mistaken(x[1], deep).into_iter().map(|b| [x[0], b]));
        v.extend([[x[1], x[0]], [-x[0], -x[1]], [x[0] + F::one(), x[1] - F::one()]]);
        v
    }
}
fn near_c<F: PrimeField>(d: &DC<F>, deep: bool) -> Vec<DC<F>> {
    let mut v: Vec<DC<F>> = near_list(&d.coms, &near_p2(deep), &[[F::zero(); 2]]).into_iter().map(|coms| DC { coms, rows: d.rows.clone() }).collect();
    let one = |r: &Row, i: usize| vec![(r.0, Src::Seed(70_000 + i as u64)), (!r.0, r.1.clone())];
    v.extend(near_list(&d.rows, &one, &[(true, Src::Seed(1)), (false, Src::Seed(1))]).into_iter().map(|rows| DC { coms: d.coms.clone(), rows }));
    v
}
fn near_pf<F: PrimeField>(d: &DPf<F>, deep: bool) -> Vec<DPf<F>> {
    let mut v: Vec<DPf<F>> = near_list(&d.pi, &near_p2(deep), &[[F::zero(); 2]]).into_iter().map(|pi| DPf { pi, ..d.clone() }).collect();
    v.extend(near_list(&d.th, &near_p2(deep), &[[F::zero(); 2]]).into_iter().map(|th| DPf { th, ..d.clone() }));
    v.extend(kinds().into_iter().filter(|k| *k != d.tag).map(|tag| DPf { tag, ..d.clone() }));
    v.push(DPf { pi: d.th.clone(), th: d.pi.clone(), ..d.clone() });
    for s in [90_000, 90_001] {
        v.push(DPf { src: Src::Seed(s), ..d.clone() });
    }
    v
}
fn near<F: PrimeField>(d: &D<F>, deep: bool) -> Vec<D<F>> {
    let s = |x: &F, _: usize| mistaken(*x, deep);
    match d {
        D::K1(k) => near_p2(deep)(k, 0).into_iter().map(D::K1).collect(),
        D::K2(k) => near_p2(deep)(k, 0).into_iter().map(D::K2).collect(),
        D::T(k) => {
            let mut v = vec![];
            for i in 0..4 {
                for y in mistaken(k[i / 2][i % 2], deep) {
                    let mut z = *k;
                    z[i / 2][i % 2] = y;
                    v.push(D::T(z));
                }
                for j in 0..i {
                    let mut z = *k;
                    (z[i / 2][i % 2], z[j / 2][j % 2]) = (k[j / 2][j % 2], k[i / 2][i % 2]);
                    v.push(D::T(z));
                    let mut z = *k;
                    z[i / 2][i % 2] += F::one();
                    z[j / 2][j % 2] -= F::one();
                    v.push(D::T(z));
                }
            }
            v
        }
        D::C1(x) => near_c(x, deep).into_iter().map(D::C1).collect(),
        D::C2(x) => near_c(x, deep).into_iter().map(D::C2).collect(),
        D::Pf(x) => near_pf(x, deep).into_iter().map(D::Pf).collect(),
        D::Pr(x, y, q) => {
            let mut v: Vec<D<F>> = near_c(x, deep).into_iter().map(|x| D::Pr(x, y.clone(), q.clone())).collect();
            v.extend(near_c(y, deep).into_iter().map(|y| D::Pr(x.clone(), y, q.clone())));
            v.push(D::Pr(y.clone(), x.clone(), q.clone()));
            v.extend(near_list(q, &|p, _| near_pf(p, deep), &[]).into_iter().map(|q| D::Pr(x.clone(), y.clone(), q)));
            v
        }
        D::E(e) => {
            let mut v: Vec<Eqn<F>> = near_list(&e.a, &s, &[F::zero()]).into_iter().map(|a| Eqn { a, ..e.clone() }).collect();
            v.extend(near_list(&e.b, &s, &[F::zero()]).into_iter().map(|b| Eqn { b, ..e.clone() }));
            let rows = |r: &Vec<F>, _: usize| near_list(r, &s, &[F::zero()]);
            v.extend(near_list(&e.gamma, &rows, &[vec![], vec![F::zero()]]).into_iter().map(|gamma| Eqn { gamma, ..e.clone() }));
            v.extend(mistaken(e.t, deep).into_iter().map(|t| Eqn { t, ..e.clone() }));
            v.push(Eqn { a: e.b.clone(), b: e.a.clone(), ..e.clone() });
            let n = e.gamma.first().map_or(0, |r| r.len());
            let flat: Vec<F> = e.gamma.concat();
            // the same entries in the same order arranged in rows of another length
            for w in 1..=flat.len() {
                if w != n && flat.len() % w == 0 {
                    v.push(Eqn { gamma: flat.chunks(w).map(|c| c.to_vec()).collect(), ..e.clone() });
                }
            }
            if n > 0 {
                v.push(Eqn { gamma: (0..n).map(|j| e.gamma.iter().map(|r| r[j]).collect()).collect(), ..e.clone() });
            }
            v.into_iter().map(D::E).collect()
        }
        D::Ty(_) => vec![],
    }
}
fn gen<F: PrimeField>(seed: u64, n: usize) -> Vec<F> {
    (0..n).map(|i| { let x: FrB = mixed(seed, i); F::from_le_bytes_mod_order(&ark_ff::BigInteger::to_bytes_le(&x.into_bigint())) }).collect()
}
fn two<F: PrimeField>(seed: u64, n: usize) -> Vec<P2<F>> {
    gen::<F>(seed, 2 * n).chunks(2).map(|c| [c[0], c[1]]).collect()
}
fn large<F: PrimeField>(shapes: &[(usize, usize)], seed: u64) -> Vec<D<F>> {
    let mut v = vec![];
    let dc = |q: u64, n: usize| DC { coms: two(q, n), rows: (0..n).map(|i| ((q + i as u64) % 2 == 0, Src::Seed(q * 1000 + i as u64))).collect() };
    for (i, (m, n)) in shapes.iter().enumerate() {
        let q = seed + 50 * i as u64;
        v.push(D::C1(dc(q, *m)));
        v.push(D::C2(dc(q + 1, *n)));
        for (j, kind) in kinds().into_iter().enumerate() {
            let q = q + 2 + j as u64;
            v.push(D::Pf(DPf { kind, tag: kind, pi: two(q, *m), th: two(q + 20, *n), src: Src::Seed(q) }));
            let e = gen::<F>(q + 30, m + n + m * n + 1);
            v.push(D::E(Eqn { kind, a: e[..*n].to_vec(), b: e[*n..m + n].to_vec(), gamma: e[m + n..m + n + m * n].chunks((*n).max(1)).map(|c| c.to_vec()).collect(), t: e[m + n + m * n] }));
        }
        let p = |j: u64| DPf { kind: kinds()[j as usize % 4], tag: kinds()[j as usize % 4], pi: two(q + j, 2), th: two(q + j + 5, 2), src: Src::Seed(q + j) };
        v.push(D::Pr(dc(q + 7, *m), dc(q + 8, *n), (0..(m + n) as u64 % 4).map(p).collect()));
    }
    for i in 0..4 {
        v.push(D::K1(two(seed + i, 1)[0]));
        v.push(D::K2(two(seed + 10 + i, 1)[0]));
        let t = two(seed + 20 + i, 2);
        v.push(D::T([t[0], t[1]]));
    }
    v
}
/// One object against everything that differs from it in one place.
fn around<N: Eng>(name: &str, about: &str, list: Vec<D<N::S>>, deep: bool) -> Part {
    part(name, about, list.len() as u64, move |i, c| {
        let d = &list[i as usize];
        let a = item::<N>(d)?;
        let b = item::<N>(d)?;
        c.sample(|| format!("{d:?}").chars().take(400).collect());
        judge(&a, &b, c)?;
        if N::P == 0 && N::NAME == Bls::NAME {
            c.conf += 1;
        }
        let k = Item { d: a.d.clone(), public: a.public.clone(), private: a.private.clone(), o: lib(|| a.o.copy())? };
        judge(&a, &k, c)?;
        for x in near(d, deep) {
            if x == *d {
                continue;
            }
            let x = item::<N>(&x)?;
            judge(&a, &x, c)?;
            judge(&x, &a, c)?;
        }
        Ok(())
    })
    .need(&["same contents", "different contents"])
}

pub fn parts(t: Tier) -> Vec<Part> {
    let mut v = small(t);
    v.push(around::<ToyB>("bits", "objects of every type over the exponent group of BLS12-381's order against those that differ from them in one bit of one coordinate", large(&[(1, 1), (2, 2), (1, 3), (3, 1)], 100), true));
    let mut shapes = vec![(1, 4), (4, 1), (3, 3), (2, 5), (5, 2), (4, 4), (0, 2), (2, 0), (8, 8), (7, 9), (16, 5), (5, 17), (1, 33), (33, 1), (9, 16)];
    if t == Tier::Thorough {
        shapes.extend([(64, 2), (2, 65), (32, 17), (1, 129), (129, 1), (257, 1), (1, 257)]);
    }
    v.push(around::<ToyB>("near", "objects of every type and up to 33 (thorough: 257) elements over the exponent group of BLS12-381's order against all that differ in one entry, one missing, doubled, additional or exchanged entry, or in the arrangement of the coefficients", large(&shapes, 5000), false));
    v.push(around::<Bls>("near-bls", "objects of every type over BLS12-381 against all that differ in one place, including the opposite of a point and the identity", large(t.q(&[(1, 1), (2, 1), (1, 2)][..], &[(1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (4, 4)]), 9000), false));
    v
}
