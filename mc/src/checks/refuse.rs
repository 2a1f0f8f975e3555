//! C21: the prover refuses inputs that do not fit together.
use super::*;
use groth_sahai::prover::Commit;

/// Sizes of everything a proof is made from.
#[derive(Clone, Debug, PartialEq)]
struct Sizes {
    /// lengths of the rows of coefficients
    rows: Vec<usize>,
    a: usize,
    b: usize,
    x: usize,
    y: usize,
    /// openings: how many scalars per committed variable
    r: Vec<usize>,
    s: Vec<usize>,
}
impl Sizes {
    fn fit(kind: Kind, m: usize, n: usize) -> Sizes {
        Sizes { rows: vec![n; m], a: n, b: m, x: m, y: n, r: vec![kind.xr(); m], s: vec![kind.yr(); n] }
    }
    fn is_fit(&self, kind: Kind) -> bool {
        let (m, n) = (self.x, self.y);
        m > 0 && n > 0 && *self == Sizes::fit(kind, m, n)
    }
}
fn joined<C: Commit>(v: Vec<C>, any: impl Fn() -> C) -> C {
    let mut all: Option<C> = None;
    for mut c in v {
        match &mut all {
            None => all = Some(c),
            Some(a) => a.append(&mut c),
        }
    }
    all.unwrap_or_else(|| {
        let (mut a, mut b) = (any(), any());
        a.append(&mut b);
        b
    })
}
/// What the values are: 0 all zero, 1 only constants and coefficients zero, 2 only the randomness zero, 3 generic.
fn case<N: Eng>(kind: Kind, z: &Sizes, what: u64, seed: u64, whole: bool, c: &mut Cnt) -> Result<(), String> {
    let mut q = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    let mut val = |on: bool| {
        q = crate::rng::mix(q);
        if on { N::S::from((q >> 20) % (if N::P == 0 { 1u64 << 40 } else { N::P - 1 }) + 1) } else { N::S::zero() }
    };
    let gamma: Vec<Vec<N::S>> = z.rows.iter().map(|l| (0..*l).map(|_| val(what >= 2)).collect()).collect();
    let a: Vec<N::S> = (0..z.a).map(|_| val(what >= 2)).collect();
    let b: Vec<N::S> = (0..z.b).map(|_| val(what >= 2)).collect();
    let x: Vec<N::S> = (0..z.x).map(|_| val(what >= 1)).collect();
    let y: Vec<N::S> = (0..z.y).map(|_| val(what >= 1)).collect();
    let k = Key::binding(N::S::one(), N::S::from(2u64), N::S::one(), N::S::from(2u64), N::S::one(), N::S::one());
    let fit = z.is_fit(kind);
    if z.x * z.y == 0 && z.x == z.b && z.x == z.r.len() && z.y == z.a && z.y == z.s.len() {
        // an equation without variables on one side, consistent with itself: outside the stated domain
        return Ok(());
    }
    let mut e = Eqn { kind, a, b, gamma, t: N::S::zero() };
    if fit {
        e.t = e.eval(&x, &y);
    }
    let (lk, le) = (crs::<N>(&k), leq::<N>(&e));
    let (xv, yv) = (xvars::<N>(kind.xs(), &x), yvars::<N>(kind.ys(), &y));
    c.st();
    c.tr(1);
    let mut rng = Stream::seeded(seed);
    if whole {
        match (lib(|| le.commit_and_prove(&xv, &yv, &lk, &mut rng)), fit) {
            (Ok(p), true) => {
                c.tag("fits");
                if lib(|| le.verify(&p, &lk)) != Ok(true) {
                    return Err(format!("{kind:?}: a proof from inputs that fit together is not accepted: {z:?}"));
                }
                Ok(())
            }
            (Err(m), true) => Err(format!("{kind:?}: inputs that fit together are refused ({m}): {z:?}")),
            (Ok(_), false) => Err(format!("{kind:?}: committing and proving succeeds although the sizes disagree: {z:?}")),
            (Err(_), false) => {
                c.tag("refused");
                Ok(())
            }
        }
    } else {
        // commitments of the given kinds one after another; none: a list emptied by appending it to another
        let draw = |at: usize| {
            let mut r = Stream::seeded(seed * 64 + at as u64);
            if what == 2 || what == 0 {
                r.w = vec![0; 16];
            }
            r
        };
        let mut cx = vec![];
        for (i, w) in z.r.iter().enumerate() {
            cx.push(commit_x1(&xvars::<N>(*w == 1, &[x.get(i).copied().unwrap_or_default()]), 0, &lk, &mut draw(i)));
        }
        let mut cy = vec![];
        for (i, w) in z.s.iter().enumerate() {
            cy.push(commit_y1(&yvars::<N>(*w == 1, &[y.get(i).copied().unwrap_or_default()]), 0, &lk, &mut draw(32 + i)));
        }
        let (cx, cy) = (joined(cx, || commit_x1(&xvars::<N>(true, &[N::S::one()]), 0, &lk, &mut Stream::seeded(1))), joined(cy, || commit_y1(&yvars::<N>(true, &[N::S::one()]), 0, &lk, &mut Stream::seeded(1))));
        match (lib(|| le.prove(&xv, &yv, &cx, &cy, &lk, &mut rng)), fit) {
            (Ok(p), true) => {
                c.tag("fits");
                let p = groth_sahai::prover::CProof { xcoms: cx, ycoms: cy, equ_proofs: vec![p] };
                if lib(|| le.verify(&p, &lk)) != Ok(true) {
                    return Err(format!("{kind:?}: a proof from inputs that fit together is not accepted: {z:?}"));
                }
                Ok(())
            }
            (Err(m), true) => Err(format!("{kind:?}: inputs that fit together are refused ({m}): {z:?}")),
            (Ok(p), false) => Err(format!("{kind:?}: proving succeeds although the inputs do not fit together: {z:?}: {p:?}")),
            (Err(_), false) => {
                c.tag("refused");
                Ok(())
            }
        }
    }
}
pub fn parts(t: Tier) -> Vec<Part> {
    let mut v = vec![];
    let l = t.q(4u64, 5);
    v.push(
        part("sizes", &format!("order 3: every combination of numbers 0..{} of constants of either side, coefficient rows and columns, variables and commitments of either side, four choices of values, every type", l - 1), 16 * l.pow(8), move |i, c| {
            let mut ix = Ix(i);
            let kind = Kind::of(ix.take(4));
            let what = ix.take(4);
            let d: Vec<usize> = (0..8).map(|_| ix.take(l) as usize).collect();
            let z = Sizes { rows: vec![d[1]; d[0]], a: d[2], b: d[3], x: d[4], y: d[5], r: vec![kind.xr(); d[6]], s: vec![kind.yr(); d[7]] };
            case::<E3>(kind, &z, what, i, false, c)
        })
        .need(&["fits", "refused"]),
    );
    let l = 5u64;
    v.push(
        part("whole", &format!("order 3: committing and proving in one step: every combination of numbers 0..{} of constants, coefficient rows and columns and variables, every type", l - 1), 16 * l.pow(6), move |i, c| {
            let mut ix = Ix(i);
            let kind = Kind::of(ix.take(4));
            let what = ix.take(4);
            let d: Vec<usize> = (0..6).map(|_| ix.take(l) as usize).collect();
            let z = Sizes { rows: vec![d[1]; d[0]], a: d[2], b: d[3], x: d[4], y: d[5], r: vec![kind.xr(); d[4]], s: vec![kind.yr(); d[5]] };
            case::<E3>(kind, &z, what, i, true, c)
        })
        .need(&["fits", "refused"]),
    );
    let shapes: Vec<(usize, usize)> = t.q(vec![(1, 4), (4, 1), (4, 4), (5, 3), (8, 8), (9, 2), (2, 9), (16, 16), (17, 3), (3, 17), (33, 33), (64, 65)], super::complete::wide(Tier::Quick));
    let ns = shapes.len() as u64;
    v.push(
        part("larger", &format!("BLS12-381-sized exponents: {ns} larger shapes, one or two of the eight numbers changed by one, two, to twice, to half, to none or to one, every type"), ns * 4 * 3 * 64 * 7, move |i, c| {
            let mut ix = Ix(i);
            let kind = Kind::of(ix.take(4));
            let what = 1 + ix.take(3);
            let (p, q) = (ix.take(8), ix.take(8));
            let how = ix.take(7);
            let (m, n) = shapes[ix.0 as usize];
            let mut d = [m, n, n, m, m, n, m, n];
            for at in [p, q] {
                let z = &mut d[at as usize];
                let was = [m, n, n, m, m, n, m, n][at as usize];
                *z = match how {
                    0 => was + 1,
                    1 => was - 1,
                    2 => was + 2,
                    3 => was * 2,
                    4 => was / 2,
                    5 => 0,
                    _ => 1,
                };
            }
            let z = Sizes { rows: vec![d[1]; d[0]], a: d[2], b: d[3], x: d[4], y: d[5], r: vec![kind.xr(); d[6]], s: vec![kind.yr(); d[7]] };
            case::<ToyB>(kind, &z, what, i, false, c)
        })
        .need(&["fits", "refused"]),
    );
    let shapes = vec![(1usize, 1usize), (2, 3), (257, 1), (1, 257), (258, 3), (3, 259)];
    let ns = shapes.len() as u64;
    v.push(
        part("wrapped", &format!("BLS12-381-sized exponents: {ns} shapes, one or two of the eight numbers 256 or 512 more or fewer, for 1x1 also one of them 65536 more, every type"), ns * 4 * 3 * 64 * 5, move |i, c| {
            let mut ix = Ix(i);
            let kind = Kind::of(ix.take(4));
            let what = 1 + ix.take(3);
            let (p, q) = (ix.take(8), ix.take(8));
            let by = [0i64, 256, -256, 512, 65536][ix.take(5) as usize];
            let (m, n) = shapes[ix.0 as usize];
            if by == 65536 && (p != q || m * n > 1 || what < 3) || by == 512 && p != q {
                return Ok(());
            }
            let was = [m, n, n, m, m, n, m, n];
            let mut d = was;
            for at in [p as usize, q as usize] {
                d[at] = (was[at] as i64 + by).max(was[at].min(1) as i64) as usize;
            }
            let z = Sizes { rows: vec![d[1]; d[0]], a: d[2], b: d[3], x: d[4], y: d[5], r: vec![kind.xr(); d[6]], s: vec![kind.yr(); d[7]] };
            case::<ToyB>(kind, &z, what, i, false, c)
        })
        .need(&["fits", "refused"]),
    );
    // commitments of the other kind (mixed lists are outside the stated domain)
    let most = t.q(8u64, 20);
    v.push(
        part("kinds", &format!("order 3: commitments to up to {most} variables on either side, all of the right or all of the wrong kind, four choices of values, every type"), most * most * 4 * 4 * 4, move |i, c| {
            let mut ix = Ix(i);
            let kind = Kind::of(ix.take(4));
            let what = ix.take(4);
            let (p, q) = (ix.bit(), ix.bit());
            let (m, n) = (1 + ix.take(most) as usize, 1 + ix.take(most) as usize);
            let mut z = Sizes::fit(kind, m, n);
            if p {
                z.r = vec![3 - kind.xr(); m];
            }
            if q {
                z.s = vec![3 - kind.yr(); n];
            }
            case::<E3>(kind, &z, what, i, false, c)
        })
        .need(&["fits", "refused"]),
    );
    let nb = t.q(48u64, 600);
    v.push(
        part("bls", "BLS12-381: one of the eight numbers changed, or the kind of commitments of one side", nb, move |i, c| {
            let mut ix = Ix(i);
            let kind = Kind::of(ix.take(4));
            let how = ix.take(12);
            let (m, n) = (1 + ix.take(2) as usize, 2);
            let mut d = [m, n, n, m, m, n, m, n];
            if how < 8 {
                d[how as usize] += 1 + (i / 96) as usize;
            }
            let mut z = Sizes { rows: vec![d[1]; d[0]], a: d[2], b: d[3], x: d[4], y: d[5], r: vec![kind.xr(); d[6]], s: vec![kind.yr(); d[7]] };
            if how == 8 {
                z.r = vec![3 - kind.xr(); m];
            }
            if how == 9 {
                z.s = vec![3 - kind.yr(); n];
            }
            c.conf += 1;
            case::<Bls>(kind, &z, 3, i, false, c)
        })
        .need(&["fits", "refused"]),
    );
    v
}
