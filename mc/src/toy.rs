//! A bilinear group given by exponents.
//!
//! `Toy<C>` implements arkworks' `Pairing` for a tiny (or BLS12-381-sized) prime order r.  An element
//! of G1 or G2 is represented by its discrete logarithm to a fixed base, an element of the target
//! group is a real element of the norm-one subgroup of F_{q^2} (r divides q+1), and
//! e([a]P, [b]Q) = h^(a*b).  The library under test is generic over `Pairing`, so the very same
//! library code runs on it, and for tiny r whole spaces of inputs can be enumerated.
use ark_ec::{
    pairing::{MillerLoopOutput, Pairing, PairingOutput},
    scalar_mul::{variable_base::VariableBaseMSM, ScalarMul},
    AffineRepr, CurveConfig, CurveGroup, PrimeGroup,
};
use ark_ff::{
    AdditiveGroup, CyclotomicMultSubgroup, Field, Fp2, Fp2Config, Fp320, Fp64, MontBackend,
    MontConfig, MontFp, One, PrimeField, Zero,
};
use ark_serialize::{
    CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid, Validate,
    Write,
};
use ark_std::rand::{
    distributions::{Distribution, Standard},
    Rng,
};
use ark_std::UniformRand;
use std::borrow::Borrow;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::iter::Sum;
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use std::sync::OnceLock;

macro_rules! tiny {
    ($F:ident, $FC:ident, $m:literal, $g:literal, $Q:ident, $QC:ident, $q:literal, $qg:literal, $Q2:ident, $Q2C:ident, $nr:literal, $T:ident) => {
        #[derive(MontConfig)]
        #[modulus = $m]
        #[generator = $g]
        pub struct $FC;
        pub type $F = Fp64<MontBackend<$FC, 1>>;
        #[derive(MontConfig)]
        #[modulus = $q]
        #[generator = $qg]
        pub struct $QC;
        pub type $Q = Fp64<MontBackend<$QC, 1>>;
        pub struct $Q2C;
        impl Fp2Config for $Q2C {
            type Fp = $Q;
            const NONRESIDUE: $Q = MontFp!($nr);
            const FROBENIUS_COEFF_FP2_C1: &'static [$Q] = &[MontFp!("1"), MontFp!("-1")];
        }
        pub type $Q2 = Fp2<$Q2C>;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $T;
        impl ToyCfg for $T {
            type F = $F;
            type T = $Q2;
            const P: u64 = parse($m);
            fn gt(k: &$F) -> $Q2 {
                static TAB: OnceLock<Vec<$Q2>> = OnceLock::new();
                TAB.get_or_init(|| small_table::<$Q2, $F>())[small(k) as usize]
            }
        }
    };
}

const fn parse(s: &str) -> u64 {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = 0u64;
    while i < b.len() {
        v = v * 10 + (b[i] - b'0') as u64;
        i += 1;
    }
    v
}

pub fn small<F: PrimeField>(k: &F) -> u64 {
    k.into_bigint().as_ref()[0]
}

/// A generator of the subgroup of order `r` of the norm-one subgroup of F_{q^2}.
fn gt_base<T: Field, F: PrimeField>() -> T {
    // x^(q-1) is in the norm-one subgroup (order q+1); raise it to (q+1)/r.
    let q = num_bigint::BigUint::from_slice(
        &T::characteristic()
            .iter()
            .flat_map(|l| [*l as u32, (*l >> 32) as u32])
            .collect::<Vec<_>>(),
    );
    let r = num_bigint::BigUint::from_slice(
        &F::characteristic()
            .iter()
            .flat_map(|l| [*l as u32, (*l >> 32) as u32])
            .collect::<Vec<_>>(),
    );
    let e = (&q - 1u32) * ((&q + 1u32) / &r);
    assert_eq!((&q + 1u32) % &r, num_bigint::BigUint::from(0u32));
    let e: Vec<u64> = e.to_u64_digits();
    for a in 1u64.. {
        let x = T::from_base_prime_field_elems([
            T::BasePrimeField::from(a),
            T::BasePrimeField::from(1u64),
        ])
        .unwrap();
        let h = x.pow(&e);
        if !h.is_one() {
            assert!(h.pow(F::characteristic()).is_one());
            return h;
        }
    }
    unreachable!()
}

fn small_table<T: Field, F: PrimeField>() -> Vec<T> {
    let h = gt_base::<T, F>();
    let p = F::characteristic()[0];
    let mut v = vec![T::one()];
    for i in 1..p as usize {
        let n = v[i - 1] * h;
        v.push(n);
    }
    v
}

pub trait ToyCfg: 'static + Copy + Clone + fmt::Debug + PartialEq + Eq + Send + Sync {
    type F: PrimeField;
    type T: CyclotomicMultSubgroup;
    /// Group order when tiny, 0 otherwise.
    const P: u64;
    fn gt(k: &Self::F) -> Self::T;
}

tiny!(F3, F3C, "3", "2", Q5, Q5C, "5", "2", Q25, Q25C, "2", T3);
tiny!(F5, F5C, "5", "2", Q19, Q19C, "19", "2", Q361, Q361C, "2", T5);
tiny!(F7, F7C, "7", "3", Q13, Q13C, "13", "2", Q169, Q169C, "2", T7);

/// The scalar field of BLS12-381.
pub type FrB = ark_bls12_381::Fr;
#[derive(MontConfig)]
#[modulus = "3460767761558328571643550873540273745287576465034824096291841474195946358177857"]
#[generator = "3"]
pub struct QbigC;
pub type Qbig = Fp320<MontBackend<QbigC, 5>>;
pub struct Q2bigC;
impl Fp2Config for Q2bigC {
    type Fp = Qbig;
    const NONRESIDUE: Qbig = MontFp!("3");
    const FROBENIUS_COEFF_FP2_C1: &'static [Qbig] = &[MontFp!("1"), MontFp!("-1")];
}
pub type Q2big = Fp2<Q2bigC>;
/// Exponent group of the size of BLS12-381.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TB;
impl ToyCfg for TB {
    type F = FrB;
    type T = Q2big;
    const P: u64 = 0;
    fn gt(k: &FrB) -> Q2big {
        static TAB: OnceLock<Vec<Vec<Q2big>>> = OnceLock::new();
        let t = TAB.get_or_init(|| {
            let mut b = gt_base::<Q2big, FrB>();
            (0..32)
                .map(|_| {
                    let mut row = vec![Q2big::one()];
                    for i in 1..256 {
                        let n = row[i - 1] * b;
                        row.push(n);
                    }
                    b = row[255] * b;
                    row
                })
                .collect()
        });
        let limbs = k.into_bigint().0;
        let mut r = Q2big::one();
        for i in 0..32 {
            let d = (limbs[i / 8] >> (8 * (i % 8))) & 255;
            if d != 0 {
                r *= t[i][d as usize];
            }
        }
        r
    }
}

/// Element of side `S` (1 or 2) of a curve with cofactor 2, i.e. of Z_r x Z_2: the exponent, and a bit that is set outside
/// the group of order r.
pub struct G<C: ToyCfg, const S: u8> {
    pub k: C::F,
    pub bad: bool,
}

impl<C: ToyCfg, const S: u8> G<C, S> {
    pub const fn new(k: C::F) -> Self {
        G { k, bad: false }
    }
}
#[inline(always)]
fn pt() {
    rayon_core::mc::point()
}

impl<C: ToyCfg, const S: u8> Copy for G<C, S> {}
impl<C: ToyCfg, const S: u8> Clone for G<C, S> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C: ToyCfg, const S: u8> PartialEq for G<C, S> {
    fn eq(&self, o: &Self) -> bool {
        pt();
        self.k == o.k && self.bad == o.bad
    }
}
impl<C: ToyCfg, const S: u8> Eq for G<C, S> {}
impl<C: ToyCfg, const S: u8> Hash for G<C, S> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.k.hash(h);
        self.bad.hash(h);
    }
}
impl<C: ToyCfg, const S: u8> fmt::Debug for G<C, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "G{}[{}{}]", S, self.k, if self.bad { "!" } else { "" })
    }
}
impl<C: ToyCfg, const S: u8> fmt::Display for G<C, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl<C: ToyCfg, const S: u8> Default for G<C, S> {
    fn default() -> Self {
        Self::new(C::F::ZERO)
    }
}
impl<C: ToyCfg, const S: u8> Zero for G<C, S> {
    fn zero() -> Self {
        Self::default()
    }
    fn is_zero(&self) -> bool {
        *self == Self::default()
    }
}
impl<C: ToyCfg, const S: u8> zeroize::Zeroize for G<C, S> {
    fn zeroize(&mut self) {
        *self = Self::default()
    }
}
impl<C: ToyCfg, const S: u8> Distribution<G<C, S>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> G<C, S> {
        G::new(C::F::rand(rng))
    }
}
impl<C: ToyCfg, const S: u8> Neg for G<C, S> {
    type Output = Self;
    fn neg(self) -> Self {
        pt();
        G { k: -self.k, bad: self.bad }
    }
}
impl<C: ToyCfg, const S: u8> AddAssign<&Self> for G<C, S> {
    fn add_assign(&mut self, o: &Self) {
        pt();
        self.k += o.k;
        self.bad ^= o.bad;
    }
}
impl<C: ToyCfg, const S: u8> SubAssign<&Self> for G<C, S> {
    fn sub_assign(&mut self, o: &Self) {
        pt();
        self.k -= o.k;
        self.bad ^= o.bad;
    }
}
macro_rules! ops {
    ($($Tr:ident $f:ident $As:ident $fa:ident),*) => {$(
        impl<C: ToyCfg, const S: u8> $As<Self> for G<C, S> { fn $fa(&mut self, o: Self) { $As::<&Self>::$fa(self, &o) } }
        impl<C: ToyCfg, const S: u8> $As<&mut Self> for G<C, S> { fn $fa(&mut self, o: &mut Self) { $As::<&Self>::$fa(self, &*o) } }
        impl<C: ToyCfg, const S: u8> $Tr<Self> for G<C, S> { type Output = Self; fn $f(mut self, o: Self) -> Self { $As::<&Self>::$fa(&mut self, &o); self } }
        impl<C: ToyCfg, const S: u8> $Tr<&Self> for G<C, S> { type Output = Self; fn $f(mut self, o: &Self) -> Self { $As::<&Self>::$fa(&mut self, o); self } }
        impl<C: ToyCfg, const S: u8> $Tr<&mut Self> for G<C, S> { type Output = Self; fn $f(mut self, o: &mut Self) -> Self { $As::<&Self>::$fa(&mut self, &*o); self } }
    )*}
}
ops!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign);
impl<C: ToyCfg, const S: u8, U: Borrow<C::F>> MulAssign<U> for G<C, S> {
    fn mul_assign(&mut self, o: U) {
        pt();
        self.bad = self.bad && o.borrow().into_bigint().as_ref()[0] & 1 == 1;
        self.k *= *o.borrow();
    }
}
impl<C: ToyCfg, const S: u8, U: Borrow<C::F>> Mul<U> for G<C, S> {
    type Output = Self;
    fn mul(mut self, o: U) -> Self {
        self *= o;
        self
    }
}
impl<C: ToyCfg, const S: u8> Sum<Self> for G<C, S> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(<Self as Zero>::zero(), |a, b| a + b)
    }
}
impl<'a, C: ToyCfg, const S: u8> Sum<&'a Self> for G<C, S> {
    fn sum<I: Iterator<Item = &'a Self>>(it: I) -> Self {
        it.fold(<Self as Zero>::zero(), |a, b| a + b)
    }
}
impl<'a, C: ToyCfg, const S: u8> From<&'a G<C, S>> for G<C, S> {
    fn from(g: &'a G<C, S>) -> Self {
        *g
    }
}

// Encoding: compressed = flag byte, exponent; uncompressed = flag byte, exponent, exponent again.
impl<C: ToyCfg, const S: u8> CanonicalSerialize for G<C, S> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> Result<(), SerializationError> {
        pt();
        w.write_all(&[self.bad as u8])?;
        self.k.serialize_with_mode(&mut w, c)?;
        if c == Compress::No {
            self.k.serialize_with_mode(&mut w, c)?;
        }
        Ok(())
    }
    fn serialized_size(&self, c: Compress) -> usize {
        let n = self.k.serialized_size(c);
        1 + if c == Compress::No { 2 * n } else { n }
    }
}
impl<C: ToyCfg, const S: u8> Valid for G<C, S> {
    fn check(&self) -> Result<(), SerializationError> {
        if self.bad {
            Err(SerializationError::InvalidData)
        } else {
            Ok(())
        }
    }
}
impl<C: ToyCfg, const S: u8> CanonicalDeserialize for G<C, S> {
    fn deserialize_with_mode<R: Read>(mut r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        pt();
        let mut b = [0u8];
        r.read_exact(&mut b)?;
        if b[0] > 1 {
            return Err(SerializationError::InvalidData);
        }
        let k = C::F::deserialize_with_mode(&mut r, c, v)?;
        if c == Compress::No && C::F::deserialize_with_mode(&mut r, c, v)? != k {
            return Err(SerializationError::InvalidData);
        }
        let g = G { k, bad: b[0] == 1 };
        if v == Validate::Yes {
            g.check()?;
        }
        Ok(g)
    }
}

pub struct Cv<C: ToyCfg, const S: u8>(PhantomData<C>);
impl<C: ToyCfg, const S: u8> CurveConfig for Cv<C, S> {
    type BaseField = C::F;
    type ScalarField = C::F;
    const COFACTOR: &'static [u64] = &[2];
    // not computable in a constant; `mul_by_cofactor_inv` is overridden below
    const COFACTOR_INV: C::F = C::F::ZERO;
}

fn from_limbs<F: PrimeField>(l: &[u64]) -> F {
    let mut r = F::zero();
    let two32 = F::from(1u64 << 32);
    for x in l.iter().rev() {
        r = r * two32 + F::from(*x >> 32);
        r = r * two32 + F::from(*x & 0xffff_ffff);
    }
    r
}

impl<C: ToyCfg, const S: u8> AdditiveGroup for G<C, S> {
    type Scalar = C::F;
    const ZERO: Self = Self::new(C::F::ZERO);
}
impl<C: ToyCfg, const S: u8> PrimeGroup for G<C, S> {
    type ScalarField = C::F;
    fn generator() -> Self {
        G::new(C::F::ONE)
    }
    fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self {
        pt();
        G { k: self.k * from_limbs::<C::F>(o.as_ref()), bad: self.bad && o.as_ref().first().is_some_and(|l| l & 1 == 1) }
    }
}
impl<C: ToyCfg, const S: u8> ScalarMul for G<C, S> {
    type MulBase = Self;
    const NEGATION_IS_CHEAP: bool = true;
    fn batch_convert_to_mul_base(b: &[Self]) -> Vec<Self> {
        b.to_vec()
    }
    fn batch_mul(self, v: &[C::F]) -> Vec<Self> {
        v.iter().map(|x| self * x).collect()
    }
}
impl<C: ToyCfg, const S: u8> VariableBaseMSM for G<C, S> {
    fn msm_unchecked(b: &[Self], s: &[C::F]) -> Self {
        b.iter().zip(s).map(|(b, s)| *b * s).sum()
    }
    fn msm_bigint(b: &[Self], s: &[<C::F as PrimeField>::BigInt]) -> Self {
        b.iter().zip(s).map(|(b, s)| PrimeGroup::mul_bigint(b, s.as_ref())).sum()
    }
}
impl<C: ToyCfg, const S: u8> CurveGroup for G<C, S> {
    type Config = Cv<C, S>;
    type BaseField = C::F;
    type Affine = Self;
    type FullGroup = Self;
    fn normalize_batch(v: &[Self]) -> Vec<Self> {
        v.to_vec()
    }
}
impl<C: ToyCfg, const S: u8> AffineRepr for G<C, S> {
    type Config = Cv<C, S>;
    type ScalarField = C::F;
    type BaseField = C::F;
    type Group = Self;
    // As on a curve: P and -P share x, and have opposite y.
    fn xy(&self) -> Option<(C::F, C::F)> {
        if Zero::is_zero(self) {
            None
        } else {
            Some((self.k.square(), self.k))
        }
    }
    fn zero() -> Self {
        Self::default()
    }
    fn generator() -> Self {
        G::new(C::F::ONE)
    }
    fn from_random_bytes(b: &[u8]) -> Option<Self> {
        C::F::from_random_bytes(b).map(G::new)
    }
    fn mul_bigint(&self, by: impl AsRef<[u64]>) -> Self {
        PrimeGroup::mul_bigint(self, by)
    }
    fn clear_cofactor(&self) -> Self {
        *self + *self
    }
    fn mul_by_cofactor_to_group(&self) -> Self {
        *self + *self
    }
    fn mul_by_cofactor_inv(&self) -> Self {
        *self * C::F::from(2u64).inverse().unwrap()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Toy<C: ToyCfg>(PhantomData<C>);

impl<C: ToyCfg> Pairing for Toy<C> {
    type BaseField = C::F;
    type ScalarField = C::F;
    type G1 = G<C, 1>;
    type G1Affine = G<C, 1>;
    type G1Prepared = G<C, 1>;
    type G2 = G<C, 2>;
    type G2Affine = G<C, 2>;
    type G2Prepared = G<C, 2>;
    type TargetField = C::T;
    fn multi_miller_loop(
        a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>,
        b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>,
    ) -> MillerLoopOutput<Self> {
        pt();
        let mut s = C::F::zero();
        // Lists of different length are a panic, as in arkworks' curves.
        let (mut a, mut b) = (a.into_iter(), b.into_iter());
        loop {
            match (a.next(), b.next()) {
                (Some(x), Some(y)) => s += x.into().k * y.into().k,
                (None, None) => break,
                _ => panic!("multi_pairing: lists of different length"),
            }
        }
        MillerLoopOutput(C::gt(&s))
    }
    fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        Some(PairingOutput(m.0))
    }
}
