//! Typed access to the library under test, from exponents.
#![allow(non_snake_case)]
use crate::refm::*;
use crate::toy::{small, Toy, ToyCfg, TB};
use ark_bls12_381::Bls12_381;
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::{One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, SerializationError, Validate};
use ark_std::rand::Rng;
use groth_sahai::prover::{
    batch_commit_G1, batch_commit_G2, batch_commit_scalar_to_B1, batch_commit_scalar_to_B2, commit_G1, commit_G2,
    commit_scalar_to_B1, commit_scalar_to_B2, CProof, Commit1, Commit2, EquProof, Provable,
};
use groth_sahai::statement::{EquType, QuadEqu, MSMEG1, MSMEG2, PPE};
use groth_sahai::verifier::Verifiable;
use groth_sahai::{Com1, Com2, ComT, CRS};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

/// An engine on which the library can be run, with group elements named by exponents.
pub trait Eng: 'static + Send + Sync + Copy {
    type E: Pairing<ScalarField = Self::S>;
    type S: PrimeField;
    const NAME: &'static str;
    /// order of the groups if tiny, else 0
    const P: u64;
    fn g1(k: &Self::S) -> A1<Self>;
    fn g2(k: &Self::S) -> A2<Self>;
    fn gt(k: &Self::S) -> GT<Self>;
}
pub type A1<N> = <<N as Eng>::E as Pairing>::G1Affine;
pub type A2<N> = <<N as Eng>::E as Pairing>::G2Affine;
pub type GT<N> = PairingOutput<<N as Eng>::E>;

impl<C: ToyCfg> Eng for Toy<C> {
    type E = Toy<C>;
    type S = C::F;
    const NAME: &'static str = "exponent group";
    const P: u64 = C::P;
    fn g1(k: &C::F) -> A1<Self> {
        crate::toy::G::new(*k)
    }
    fn g2(k: &C::F) -> A2<Self> {
        crate::toy::G::new(*k)
    }
    fn gt(k: &C::F) -> GT<Self> {
        PairingOutput(C::gt(k))
    }
}
#[derive(Clone, Copy)]
pub struct Bls;
impl Eng for Bls {
    type E = Bls12_381;
    type S = ark_bls12_381::Fr;
    const NAME: &'static str = "BLS12-381";
    const P: u64 = 0;
    fn g1(k: &Self::S) -> A1<Self> {
        (ark_bls12_381::G1Projective::generator() * k).into_affine()
    }
    fn g2(k: &Self::S) -> A2<Self> {
        (ark_bls12_381::G2Projective::generator() * k).into_affine()
    }
    fn gt(k: &Self::S) -> GT<Self> {
        static B: OnceLock<PairingOutput<Bls12_381>> = OnceLock::new();
        *B.get_or_init(|| {
            Bls12_381::pairing(ark_bls12_381::G1Affine::generator(), ark_bls12_381::G2Affine::generator())
        }) * k
    }
}
pub type ToyB = Toy<TB>;

/// Run library code; a panic is reported as Err(message).
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    crate::run::enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::run::leave();
    r.map_err(|e| {
        e.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into())
    })
}

pub fn crs<N: Eng>(k: &Key<N::S>) -> CRS<N::E> {
    CRS {
        u: k.u.iter().map(|c| com1::<N>(c)).collect(),
        v: k.v.iter().map(|c| com2::<N>(c)).collect(),
        g1_gen: N::g1(&k.g1),
        g2_gen: N::g2(&k.g2),
        gt_gen: N::gt(&k.gt),
    }
}
pub fn com1<N: Eng>(c: &P2<N::S>) -> Com1<N::E> {
    Com1(N::g1(&c[0]), N::g1(&c[1]))
}
pub fn com2<N: Eng>(c: &P2<N::S>) -> Com2<N::E> {
    Com2(N::g2(&c[0]), N::g2(&c[1]))
}
pub fn comt<N: Eng>(c: &[[N::S; 2]; 2]) -> ComT<N::E> {
    ComT(N::gt(&c[0][0]), N::gt(&c[0][1]), N::gt(&c[1][0]), N::gt(&c[1][1]))
}
pub fn v1<N: Eng>(x: &[N::S]) -> Vec<A1<N>> {
    x.iter().map(N::g1).collect()
}
pub fn v2<N: Eng>(x: &[N::S]) -> Vec<A2<N>> {
    x.iter().map(N::g2).collect()
}
/// Exact equality of points (the harness does not rely on the library's `==`).
pub fn eq1<N: Eng>(c: &Com1<N::E>, k: &P2<N::S>) -> bool {
    c.0 == N::g1(&k[0]) && c.1 == N::g1(&k[1])
}
pub fn eq2<N: Eng>(c: &Com2<N::E>, k: &P2<N::S>) -> bool {
    c.0 == N::g2(&k[0]) && c.1 == N::g2(&k[1])
}
pub fn eqt<N: Eng>(c: &ComT<N::E>, k: &[[N::S; 2]; 2]) -> bool {
    c.0 == N::gt(&k[0][0]) && c.1 == N::gt(&k[0][1]) && c.2 == N::gt(&k[1][0]) && c.3 == N::gt(&k[1][1])
}
pub fn eqs1<N: Eng>(c: &[Com1<N::E>], k: &[P2<N::S>]) -> bool {
    c.len() == k.len() && c.iter().zip(k).all(|(c, k)| eq1::<N>(c, k))
}
pub fn eqs2<N: Eng>(c: &[Com2<N::E>], k: &[P2<N::S>]) -> bool {
    c.len() == k.len() && c.iter().zip(k).all(|(c, k)| eq2::<N>(c, k))
}

/// A library equation of any type.
#[derive(Clone, Debug)]
pub enum LEq<E: Pairing> {
    Ppe(PPE<E>),
    M1(MSMEG1<E>),
    M2(MSMEG2<E>),
    Quad(QuadEqu<E>),
}
/// Variables of one side.
#[derive(Clone, Debug, PartialEq)]
pub enum Vars<A, S> {
    G(Vec<A>),
    S(Vec<S>),
}
impl<A, S> Vars<A, S> {
    pub fn g(&self) -> &[A] {
        match self {
            Vars::G(v) => v,
            _ => panic!("harness: kind"),
        }
    }
    pub fn s(&self) -> &[S] {
        match self {
            Vars::S(v) => v,
            _ => panic!("harness: kind"),
        }
    }
}
pub type X<N> = Vars<A1<N>, <N as Eng>::S>;
pub type Y<N> = Vars<A2<N>, <N as Eng>::S>;
pub fn xvars<N: Eng>(scalar: bool, x: &[N::S]) -> X<N> {
    if scalar {
        Vars::S(x.to_vec())
    } else {
        Vars::G(v1::<N>(x))
    }
}
pub fn yvars<N: Eng>(scalar: bool, y: &[N::S]) -> Y<N> {
    if scalar {
        Vars::S(y.to_vec())
    } else {
        Vars::G(v2::<N>(y))
    }
}

pub fn leq<N: Eng>(e: &Eqn<N::S>) -> LEq<N::E> {
    let gamma = e.gamma.clone();
    match e.kind {
        Kind::Ppe => LEq::Ppe(PPE { a_consts: v1::<N>(&e.a), b_consts: v2::<N>(&e.b), gamma, target: N::gt(&e.t) }),
        Kind::M1 => LEq::M1(MSMEG1 { a_consts: v1::<N>(&e.a), b_consts: e.b.clone(), gamma, target: N::g1(&e.t) }),
        Kind::M2 => LEq::M2(MSMEG2 { a_consts: e.a.clone(), b_consts: v2::<N>(&e.b), gamma, target: N::g2(&e.t) }),
        Kind::Quad => LEq::Quad(QuadEqu { a_consts: e.a.clone(), b_consts: e.b.clone(), gamma, target: e.t }),
    }
}

impl<E: Pairing> LEq<E> {
    pub fn verify(&self, p: &CProof<E>, k: &CRS<E>) -> bool {
        match self {
            LEq::Ppe(e) => e.verify(p, k),
            LEq::M1(e) => e.verify(p, k),
            LEq::M2(e) => e.verify(p, k),
            LEq::Quad(e) => e.verify(p, k),
        }
    }
    pub fn prove<R: Rng>(
        &self,
        x: &Vars<E::G1Affine, E::ScalarField>,
        y: &Vars<E::G2Affine, E::ScalarField>,
        c: &Commit1<E>,
        d: &Commit2<E>,
        k: &CRS<E>,
        rng: &mut R,
    ) -> EquProof<E> {
        match self {
            LEq::Ppe(e) => e.prove(x.g(), y.g(), c, d, k, rng),
            LEq::M1(e) => e.prove(x.g(), y.s(), c, d, k, rng),
            LEq::M2(e) => e.prove(x.s(), y.g(), c, d, k, rng),
            LEq::Quad(e) => e.prove(x.s(), y.s(), c, d, k, rng),
        }
    }
    pub fn commit_and_prove<R: Rng>(
        &self,
        x: &Vars<E::G1Affine, E::ScalarField>,
        y: &Vars<E::G2Affine, E::ScalarField>,
        k: &CRS<E>,
        rng: &mut R,
    ) -> CProof<E> {
        match self {
            LEq::Ppe(e) => e.commit_and_prove(x.g(), y.g(), k, rng),
            LEq::M1(e) => e.commit_and_prove(x.g(), y.s(), k, rng),
            LEq::M2(e) => e.commit_and_prove(x.s(), y.g(), k, rng),
            LEq::Quad(e) => e.commit_and_prove(x.s(), y.s(), k, rng),
        }
    }
    pub fn bytes(&self, c: Compress) -> Vec<u8> {
        match self {
            LEq::Ppe(e) => ser(e, c),
            LEq::M1(e) => ser(e, c),
            LEq::M2(e) => ser(e, c),
            LEq::Quad(e) => ser(e, c),
        }
    }
    pub fn decode(kind: Kind, b: &[u8], c: Compress, v: Validate) -> Result<Self, SerializationError> {
        Ok(match kind {
            Kind::Ppe => LEq::Ppe(PPE::deserialize_with_mode(b, c, v)?),
            Kind::M1 => LEq::M1(MSMEG1::deserialize_with_mode(b, c, v)?),
            Kind::M2 => LEq::M2(MSMEG2::deserialize_with_mode(b, c, v)?),
            Kind::Quad => LEq::Quad(QuadEqu::deserialize_with_mode(b, c, v)?),
        })
    }
    pub fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (LEq::Ppe(a), LEq::Ppe(b)) => a == b,
            (LEq::M1(a), LEq::M1(b)) => a == b,
            (LEq::M2(a), LEq::M2(b)) => a == b,
            (LEq::Quad(a), LEq::Quad(b)) => a == b,
            _ => false,
        }
    }
}
pub fn ser<T: CanonicalSerialize>(x: &T, c: Compress) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_with_mode(&mut v, c).expect("writing to a vector failed");
    v
}

pub fn commit_x<E: Pairing, R: Rng>(x: &Vars<E::G1Affine, E::ScalarField>, k: &CRS<E>, rng: &mut R) -> Commit1<E> {
    match x {
        Vars::G(v) => batch_commit_G1(v, k, rng),
        Vars::S(v) => batch_commit_scalar_to_B1(v, k, rng),
    }
}
pub fn commit_y<E: Pairing, R: Rng>(y: &Vars<E::G2Affine, E::ScalarField>, k: &CRS<E>, rng: &mut R) -> Commit2<E> {
    match y {
        Vars::G(v) => batch_commit_G2(v, k, rng),
        Vars::S(v) => batch_commit_scalar_to_B2(v, k, rng),
    }
}
pub fn commit_x1<E: Pairing, R: Rng>(x: &Vars<E::G1Affine, E::ScalarField>, i: usize, k: &CRS<E>, rng: &mut R) -> Commit1<E> {
    match x {
        Vars::G(v) => commit_G1(&v[i], k, rng),
        Vars::S(v) => commit_scalar_to_B1(&v[i], k, rng),
    }
}
pub fn commit_y1<E: Pairing, R: Rng>(y: &Vars<E::G2Affine, E::ScalarField>, i: usize, k: &CRS<E>, rng: &mut R) -> Commit2<E> {
    match y {
        Vars::G(v) => commit_G2(&v[i], k, rng),
        Vars::S(v) => commit_scalar_to_B2(&v[i], k, rng),
    }
}
pub fn slice<A: Clone, S: Clone>(v: &Vars<A, S>, r: std::ops::Range<usize>) -> Vars<A, S> {
    match v {
        Vars::G(v) => Vars::G(v[r].to_vec()),
        Vars::S(v) => Vars::S(v[r].to_vec()),
    }
}

pub fn etype(k: Kind) -> EquType {
    match k {
        Kind::Ppe => EquType::PairingProduct,
        Kind::M1 => EquType::MultiScalarG1,
        Kind::M2 => EquType::MultiScalarG2,
        Kind::Quad => EquType::Quadratic,
    }
}

/// A commitment/proof skeleton obtained from the library itself; its public parts are then replaced.
pub fn skeleton<N: Eng>(kind: Kind) -> CProof<N::E> {
    let o = N::S::one();
    let k = Key::binding(o, o, o, o, o, o);
    let e = Eqn { kind, a: vec![o], b: vec![o], gamma: vec![vec![o]], t: N::S::from(3u64) };
    let mut rng = crate::rng::Stream::seeded(1);
    leq::<N>(&e).commit_and_prove(&xvars::<N>(kind.xs(), &[o]), &yvars::<N>(kind.ys(), &[o]), &crs::<N>(&k), &mut rng)
}
pub fn set<N: Eng>(p: &mut CProof<N::E>, kind: Kind, f: &Pf<N::S>) {
    p.xcoms.coms.clear();
    p.xcoms.coms.extend(f.c.iter().map(|c| com1::<N>(c)));
    p.ycoms.coms.clear();
    p.ycoms.coms.extend(f.d.iter().map(|c| com2::<N>(c)));
    let q = &mut p.equ_proofs[0];
    q.pi.clear();
    q.pi.extend(f.pi.iter().map(|c| com2::<N>(c)));
    q.theta.clear();
    q.theta.extend(f.th.iter().map(|c| com1::<N>(c)));
    q.equ_type = etype(kind);
}
/// Exponents of a proof on a tiny engine.
pub fn k1<C: ToyCfg>(c: &Com1<Toy<C>>) -> P2<C::F> {
    [c.0.k, c.1.k]
}
pub fn k2<C: ToyCfg>(c: &Com2<Toy<C>>) -> P2<C::F> {
    [c.0.k, c.1.k]
}
pub fn pf<C: ToyCfg>(p: &CProof<Toy<C>>) -> Pf<C::F> {
    Pf {
        c: p.xcoms.coms.iter().map(k1).collect(),
        d: p.ycoms.coms.iter().map(k2).collect(),
        pi: p.equ_proofs[0].pi.iter().map(k2).collect(),
        th: p.equ_proofs[0].theta.iter().map(k1).collect(),
    }
}
/// A compact code of commitments and proof on a tiny engine.
pub fn code<C: ToyCfg>(base: u64, acc: &mut u128, c: P2<C::F>) {
    for z in c {
        *acc = *acc * (base as u128) + small(&z) as u128;
    }
}
pub fn iszero<F: Zero>(x: &F) -> bool {
    x.is_zero()
}
