//! Reference model: the Groth-Sahai proof system written in exponents of the bilinear group.
//! Every group element is its discrete logarithm; e([a]P,[b]Q) has logarithm a*b.
use ark_ff::PrimeField;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Ppe,
    M1,
    M2,
    Quad,
}
pub const KINDS: [Kind; 4] = [Kind::Ppe, Kind::M1, Kind::M2, Kind::Quad];
impl Kind {
    /// X variables (and b constants' counterpart) are scalars
    pub fn xs(self) -> bool {
        matches!(self, Kind::M2 | Kind::Quad)
    }
    pub fn ys(self) -> bool {
        matches!(self, Kind::M1 | Kind::Quad)
    }
    pub fn npi(self) -> usize {
        if self.xs() {
            1
        } else {
            2
        }
    }
    pub fn ntheta(self) -> usize {
        if self.ys() {
            1
        } else {
            2
        }
    }
    /// commitment randomness per variable
    pub fn xr(self) -> usize {
        self.npi()
    }
    pub fn yr(self) -> usize {
        self.ntheta()
    }
    pub fn tag(self) -> u8 {
        match self {
            Kind::Ppe => 0,
            Kind::M1 => 1,
            Kind::M2 => 2,
            Kind::Quad => 3,
        }
    }
    pub fn of(i: u64) -> Kind {
        KINDS[i as usize]
    }
}

pub type P2<F> = [F; 2];

#[derive(Clone, Debug, PartialEq)]
pub struct Key<F> {
    pub u: [P2<F>; 2],
    pub v: [P2<F>; 2],
    pub g1: F,
    pub g2: F,
    pub gt: F,
}
impl<F: PrimeField> Key<F> {
    /// u = [(g, ag), (tg, tag)] on each side
    pub fn binding(g1: F, a1: F, t1: F, g2: F, a2: F, t2: F) -> Self {
        Key {
            u: [[g1, a1 * g1], [t1 * g1, t1 * a1 * g1]],
            v: [[g2, a2 * g2], [t2 * g2, t2 * a2 * g2]],
            g1,
            g2,
            gt: g1 * g2,
        }
    }
    /// second vector minus (0, g)
    pub fn hiding(g1: F, a1: F, t1: F, g2: F, a2: F, t2: F) -> Self {
        let mut k = Self::binding(g1, a1, t1, g2, a2, t2);
        k.u[1][1] -= g1;
        k.v[1][1] -= g2;
        k
    }
    pub fn map1(&self, x: F) -> P2<F> {
        [F::zero(), x]
    }
    pub fn smap1(&self, x: F) -> P2<F> {
        [self.u[1][0] * x, (self.u[1][1] + self.g1) * x]
    }
    pub fn smap2(&self, y: F) -> P2<F> {
        [self.v[1][0] * y, (self.v[1][1] + self.g2) * y]
    }
    /// embedding of an X-side value (constant or variable)
    pub fn i1(&self, scalar: bool, x: F) -> P2<F> {
        if scalar {
            self.smap1(x)
        } else {
            self.map1(x)
        }
    }
    pub fn i2(&self, scalar: bool, y: F) -> P2<F> {
        if scalar {
            self.smap2(y)
        } else {
            self.map1(y)
        }
    }
    pub fn com1(&self, scalar: bool, x: F, r: &[F]) -> P2<F> {
        let mut c = self.i1(scalar, x);
        for (k, r) in r.iter().enumerate() {
            c[0] += self.u[k][0] * r;
            c[1] += self.u[k][1] * r;
        }
        c
    }
    pub fn com2(&self, scalar: bool, y: F, r: &[F]) -> P2<F> {
        let mut c = self.i2(scalar, y);
        for (k, r) in r.iter().enumerate() {
            c[0] += self.v[k][0] * r;
            c[1] += self.v[k][1] * r;
        }
        c
    }
    /// What a commitment opens to under a binding key (u[0] = (g, ag), u[1] a multiple of it).
    pub fn open1(&self, scalar: bool, c: P2<F>) -> F {
        let a = self.u[0][1] / self.u[0][0];
        let x = c[1] - a * c[0];
        if scalar {
            x / self.g1
        } else {
            x
        }
    }
    pub fn open2(&self, scalar: bool, c: P2<F>) -> F {
        let a = self.v[0][1] / self.v[0][0];
        let x = c[1] - a * c[0];
        if scalar {
            x / self.g2
        } else {
            x
        }
    }
    pub fn is_binding(&self) -> bool {
        let par = |w: &[P2<F>; 2], g: F| {
            w[0][0] == g && !g.is_zero() && w[1][0] * w[0][1] == w[1][1] * w[0][0]
        };
        par(&self.u, self.g1) && par(&self.v, self.g2)
    }
}

/// a: n constants (for Y), b: m constants (for X), gamma: m x n.
#[derive(Clone, Debug, PartialEq)]
pub struct Eqn<F> {
    pub kind: Kind,
    pub a: Vec<F>,
    pub b: Vec<F>,
    pub gamma: Vec<Vec<F>>,
    pub t: F,
}
impl<F: PrimeField> Eqn<F> {
    pub fn m(&self) -> usize {
        self.b.len()
    }
    pub fn n(&self) -> usize {
        self.a.len()
    }
    pub fn eval(&self, x: &[F], y: &[F]) -> F {
        let mut s = F::zero();
        for (a, y) in self.a.iter().zip(y) {
            s += *a * y;
        }
        for (i, x) in x.iter().enumerate() {
            s += self.b[i] * x;
            for (j, y) in y.iter().enumerate() {
                s += *x * y * self.gamma[i][j];
            }
        }
        s
    }
    pub fn sat(&self, x: &[F], y: &[F]) -> bool {
        self.eval(x, y) == self.t
    }
}

/// Commitments and proof elements.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Pf<F> {
    pub c: Vec<P2<F>>,
    pub d: Vec<P2<F>>,
    pub pi: Vec<P2<F>>,
    pub th: Vec<P2<F>>,
}

/// The verification relation, all four components.
pub fn verify<F: PrimeField>(k: &Key<F>, e: &Eqn<F>, p: &Pf<F>) -> bool {
    let (xs, ys) = (e.kind.xs(), e.kind.ys());
    assert!(p.c.len() == e.m() && p.d.len() == e.n());
    assert!(p.pi.len() == e.kind.npi() && p.th.len() == e.kind.ntheta());
    let ta = match e.kind {
        Kind::Ppe => [[F::zero(), F::zero()], [F::zero(), e.t]],
        Kind::M1 => outer(k.map1(e.t), k.smap2(F::one())),
        Kind::M2 => outer(k.smap1(F::one()), k.map1(e.t)),
        Kind::Quad => outer(k.smap1(F::one()), k.smap2(e.t)),
    };
    for r in 0..2 {
        for s in 0..2 {
            let mut l = F::zero();
            for (j, d) in p.d.iter().enumerate() {
                // embedding of a_j: constants on the Y side live in A1
                l += k.i1(xs, e.a[j])[r] * d[s];
            }
            for (i, c) in p.c.iter().enumerate() {
                let mut z = k.i2(ys, e.b[i])[s];
                for (j, d) in p.d.iter().enumerate() {
                    z += e.gamma[i][j] * d[s];
                }
                l += c[r] * z;
            }
            let mut q = ta[r][s];
            for (i, pi) in p.pi.iter().enumerate() {
                q += k.u[i][r] * pi[s];
            }
            for (i, th) in p.th.iter().enumerate() {
                q += th[r] * k.v[i][s];
            }
            if l != q {
                return false;
            }
        }
    }
    true
}
pub fn outer<F: PrimeField>(x: P2<F>, y: P2<F>) -> [[F; 2]; 2] {
    [[x[0] * y[0], x[0] * y[1]], [x[1] * y[0], x[1] * y[1]]]
}

/// The honest proof, from the randomness of the commitments and of the proof.
/// r: m x xr, s: n x yr, t: ntheta x npi (row l: coefficients of theta_l over u).
pub fn prove<F: PrimeField>(k: &Key<F>, e: &Eqn<F>, x: &[F], y: &[F], r: &[Vec<F>], s: &[Vec<F>], t: &[Vec<F>]) -> (Vec<P2<F>>, Vec<P2<F>>) {
    let (xs, ys) = (e.kind.xs(), e.kind.ys());
    let (m, n) = (e.m(), e.n());
    let mut pi = vec![[F::zero(); 2]; e.kind.npi()];
    let mut th = vec![[F::zero(); 2]; e.kind.ntheta()];
    for (q, pi) in pi.iter_mut().enumerate() {
        for w in 0..2 {
            for i in 0..m {
                let mut z = k.i2(ys, e.b[i])[w];
                for j in 0..n {
                    z += e.gamma[i][j] * k.com2(ys, y[j], &s[j])[w];
                }
                pi[w] += r[i][q] * z;
            }
            for l in 0..e.kind.ntheta() {
                pi[w] -= t[l][q] * k.v[l][w];
            }
        }
    }
    for (l, th) in th.iter_mut().enumerate() {
        for w in 0..2 {
            for j in 0..n {
                let mut z = k.i1(xs, e.a[j])[w];
                for i in 0..m {
                    z += e.gamma[i][j] * k.i1(xs, x[i])[w];
                }
                th[w] += s[j][l] * z;
            }
            for q in 0..e.kind.npi() {
                th[w] += t[l][q] * k.u[q][w];
            }
        }
    }
    (pi, th)
}
