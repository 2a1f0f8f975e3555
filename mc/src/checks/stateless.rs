//! C10: results depend on the arguments and the random stream only.
//!
//! Every history runs in a process of its own, forked before any library call has been made.
use ark_ff::Field as _;
use super::sound::{honest, ncoords, St};
use super::*;
use crate::env;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use groth_sahai::prover::{CProof, Commit1, Commit2, EquProof};
use groth_sahai::{AbstractCrs, Com1, Com2, ComT, Mat, B1, B2, BT, CRS};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, OnceLock};

pub struct Op {
    pub name: String,
    pub f: Box<dyn Fn() -> Vec<u8> + Send + Sync>,
}
/// Harness code: no scheduling points inside.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let was = rayon_core::mc::points(false);
    let r = f();
    rayon_core::mc::points(was);
    r
}
pub fn hash(b: &[u8]) -> u64 {
    b.chunks(8).fold(b.len() as u64, |h, c| {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        mix(h ^ u64::from_le_bytes(w))
    })
}
impl Op {
    pub fn run(&self) -> u64 {
        match lib(|| (self.f)()) {
            Ok(b) => hash(&b),
            Err(_) => 1,
        }
    }
}
pub type Ops = Vec<Op>;
pub fn op(name: String, f: impl Fn() -> Vec<u8> + Send + Sync + 'static) -> Op {
    Op { name, f: Box::new(f) }
}

// ---------------------------------------------------------------- processes
/// Run job 0..n each in a fresh child process (some at the same time) and collect what they return.
pub fn forked(n: usize, f: &dyn Fn(usize) -> Vec<u8>) -> Vec<Result<Vec<u8>, String>> {
    let width = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
    let mut out: Vec<Option<Result<Vec<u8>, String>>> = (0..n).map(|_| None).collect();
    let mut live: Vec<(libc::pid_t, i32, usize, usize)> = vec![]; // pid, fd, job, slot
    let mut next = 0;
    let mut slots: Vec<usize> = (1..=width).collect();
    while next < n || !live.is_empty() {
        while next < n && live.len() < width {
            let mut fd = [0i32; 2];
            unsafe {
                assert_eq!(libc::pipe(fd.as_mut_ptr()), 0);
                let slot = slots.pop().unwrap();
                let sh = &shared()[slot];
                sh.part.store(shared()[0].part.load(Relaxed), Relaxed);
                sh.index.store(shared()[0].index.load(Relaxed), Relaxed);
                let pid = libc::fork();
                assert!(pid >= 0, "fork");
                if pid == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    libc::close(fd[0]);
                    set_slot(slot);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(next)));
                    let code = match r {
                        Ok(b) => {
                            let mut at = 0;
                            while at < b.len() {
                                let k = libc::write(fd[1], b[at..].as_ptr() as *const _, b.len() - at);
                                if k <= 0 {
                                    break;
                                }
                                at += k as usize;
                            }
                            0
                        }
                        Err(_) => 7,
                    };
                    libc::_exit(code)
                }
                libc::close(fd[1]);
                live.push((pid, fd[0], next, slot));
            }
            next += 1;
        }
        // read from whichever is ready
        let mut p: Vec<libc::pollfd> = live.iter().map(|l| libc::pollfd { fd: l.1, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(p.as_mut_ptr(), p.len() as _, -1) };
        for q in (0..live.len()).rev() {
            if p[q].revents == 0 {
                continue;
            }
            let (pid, fd, job, slot) = live[q];
            let mut b = vec![0u8; 1 << 16];
            let k = unsafe { libc::read(fd, b.as_mut_ptr() as *mut _, b.len()) };
            let o = out[job].get_or_insert_with(|| Ok(vec![]));
            if k > 0 {
                o.as_mut().unwrap().extend_from_slice(&b[..k as usize]);
                continue;
            }
            let mut st = 0;
            unsafe {
                libc::close(fd);
                libc::waitpid(pid, &mut st, 0);
            }
            if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                let inside = shared()[slot].inlib.load(Relaxed) > 0;
                *o = Err(if libc::WIFSIGNALED(st) && inside {
                    format!("the process is killed by signal {} inside a library call", libc::WTERMSIG(st))
                } else {
                    panic!("child of the harness failed with status {st}")
                });
                shared()[slot].inlib.store(0, Relaxed);
            }
            slots.push(slot);
            live.swap_remove(q);
        }
    }
    out.into_iter().map(|o| o.unwrap()).collect()
}

// ---------------------------------------------------------------- the operations
/// Encoded pieces from which commitments and proofs with public parts of one's own can be made without
/// asking the library for a proof; obtained from a helper process.
pub struct Shells<N: Eng> {
    b: [Vec<Vec<u8>>; 4],
    _n: std::marker::PhantomData<N>,
}
impl<N: Eng> Shells<N> {
    pub fn new() -> Arc<Self> {
        let r = forked(4, &|i| {
            let p = skeleton::<N>(Kind::of(i as u64));
            let mut all = vec![];
            for b in [ser(&p.xcoms, Compress::No), ser(&p.ycoms, Compress::No), ser(&p.equ_proofs[0], Compress::No)] {
                all.extend((b.len() as u32).to_le_bytes());
                all.extend(b);
            }
            all
        });
        Arc::new(Shells {
            b: std::array::from_fn(|i| {
                let mut v = vec![];
                let mut r = &r[i].as_ref().expect("helper")[..];
                while !r.is_empty() {
                    let n = u32::from_le_bytes(r[..4].try_into().unwrap()) as usize;
                    v.push(r[4..4 + n].to_vec());
                    r = &r[4 + n..];
                }
                v
            }),
            _n: Default::default(),
        })
    }
    pub fn get(&self, kind: Kind) -> CProof<N::E> {
        let b = &self.b[kind.tag() as usize];
        let (c, v) = (Compress::No, Validate::No);
        CProof {
            xcoms: Commit1::deserialize_with_mode(&b[0][..], c, v).unwrap(),
            ycoms: Commit2::deserialize_with_mode(&b[1][..], c, v).unwrap(),
            equ_proofs: vec![EquProof::deserialize_with_mode(&b[2][..], c, v).unwrap()],
        }
    }
}
pub fn pts<T: CanonicalSerialize>(v: impl IntoIterator<Item = T>) -> Vec<u8> {
    quiet(|| {
        let mut b = vec![];
        for x in v {
            x.serialize_with_mode(&mut b, Compress::No).unwrap();
        }
        b
    })
}
pub fn b1<E: ark_ec::pairing::Pairing>(c: &[Com1<E>]) -> Vec<u8> {
    pts(c.iter().flat_map(|c| [c.0, c.1]))
}
pub fn b2<E: ark_ec::pairing::Pairing>(c: &[Com2<E>]) -> Vec<u8> {
    pts(c.iter().flat_map(|c| [c.0, c.1]))
}
pub fn bt<E: ark_ec::pairing::Pairing>(c: &ComT<E>) -> Vec<u8> {
    pts([c.0, c.1, c.2, c.3])
}
pub fn bcrs<E: ark_ec::pairing::Pairing>(k: &CRS<E>) -> Vec<u8> {
    let mut b = b1(&k.u);
    b.extend(b2(&k.v));
    b.extend(pts([k.g1_gen]));
    b.extend(pts([k.g2_gen]));
    b.extend(pts([k.gt_gen]));
    b
}
pub fn bproof<E: ark_ec::pairing::Pairing>(p: &CProof<E>) -> Vec<u8> {
    quiet(|| {
        let mut b = b1(&p.xcoms.coms);
        b.extend(b2(&p.ycoms.coms));
        for q in &p.equ_proofs {
            b.extend(b2(&q.pi));
            b.extend(b1(&q.theta));
            b.extend(ser(q, Compress::Yes));
        }
        b.extend(ser(&p.xcoms, Compress::Yes));
        b.extend(ser(&p.ycoms, Compress::Yes));
        b
    })
}
pub fn val<F: PrimeField>(seed: u64, i: usize) -> F {
    let mut b = [0u8; 32];
    let z = mix(mix(seed) + i as u64);
    for j in 0..4u64 {
        b[8 * j as usize..][..8].copy_from_slice(&mix(z + j).to_le_bytes());
    }
    let x = F::from_le_bytes_mod_order(&b);
    if x.is_zero() {
        F::one()
    } else {
        x
    }
}
pub fn vals<F: PrimeField>(seed: u64, n: usize) -> Vec<F> {
    (0..n).map(|i| val(seed, i)).collect()
}
pub fn bkey<F: PrimeField>(seed: u64) -> Key<F> {
    let k = vals::<F>(seed, 6);
    Key::binding(k[0], k[1], k[2], k[3], k[4], k[5])
}
pub fn transcript<F: PrimeField>(kind: Kind, m: usize, n: usize, seed: u64) -> St<F> {
    let nc = ncoef(m, n);
    let z = vals::<F>(seed, nc + m + n + ndraw(kind, m, n));
    let k = bkey(seed + 1);
    let (x, y) = (&z[nc..nc + m], &z[nc + m..nc + m + n]);
    let e = eqn_for(kind, m, n, &z, x, y);
    let f = honest(&k, &e, x, y, &z[nc + m + n..]);
    St { k, e, f }
}
pub fn verify_ops<N: Eng>(sh: &Arc<Shells<N>>, kind: Kind, m: usize, n: usize, seed: u64, all: bool, v: &mut Ops) {
    let s = transcript::<N::S>(kind, m, n, seed);
    let mut put = |name: String, s: St<N::S>, sh: &Arc<Shells<N>>| {
        let (k, e, sh) = (crs::<N>(&s.k), leq::<N>(&s.e), sh.clone());
        v.push(op(format!("{} verify {kind:?} {m}x{n} ({seed}) {name}", N::NAME), move || {
            let p = quiet(|| {
                let mut p = sh.get(kind);
                set::<N>(&mut p, kind, &s.f);
                p
            });
            vec![e.verify(&p, &k) as u8]
        }));
    };
    put("honest".into(), s.clone(), sh);
    if all {
        for i in 0..ncoords(kind, m, n) {
            let mut q = s.clone();
            *q.coords()[i] += N::S::one();
            put(format!("coordinate {i} changed"), q, sh);
        }
        // the coordinated change of key generator and target that keeps the relation for some types
        let mut q = s.clone();
        q.f.pi.swap(0, kind.npi() - 1);
        q.f.th.swap(0, kind.ntheta() - 1);
        put("proof order swapped".into(), q, sh);
        let mut q = s.clone();
        q.f.c.reverse();
        q.f.d.reverse();
        put("commitments reversed".into(), q, sh);
        let mut q = s.clone();
        q.f.th.push([N::S::one(); 2]);
        put("extra theta".into(), q, sh);
        let mut q = s.clone();
        q.f.c.pop();
        put("missing commitment".into(), q, sh);
        let s2 = s.clone();
        let sh2 = sh.clone();
        v.push(op(format!("{} verify {kind:?} {m}x{n} wrong type", N::NAME), move || {
            let mut p = sh2.get(kind);
            set::<N>(&mut p, kind, &s2.f);
            p.equ_proofs[0].equ_type = etype(KINDS[(kind.tag() as usize + 1) % 4]);
            vec![leq::<N>(&s2.e).verify(&p, &crs::<N>(&s2.k)) as u8]
        }));
    }
}
/// Everything that proving reads, as one list of coordinates.
#[derive(Clone)]
struct Pr<F> {
    k: Key<F>,
    e: Eqn<F>,
    x: Vec<F>,
    y: Vec<F>,
    seed: u64,
}
pub fn prove_ops<N: Eng>(kind: Kind, m: usize, n: usize, seed: u64, all: bool, v: &mut Ops) {
    let nc = ncoef(m, n);
    let z = vals::<N::S>(seed, nc + m + n);
    let (x, y) = (z[nc..nc + m].to_vec(), z[nc + m..].to_vec());
    let base = Pr { k: bkey(seed + 1), e: eqn_for(kind, m, n, &z, &x, &y), x, y, seed };
    let mut put = |name: String, p: Pr<N::S>| {
        let (lk, le) = (crs::<N>(&p.k), leq::<N>(&p.e));
        let (xv, yv) = (xvars::<N>(kind.xs(), &p.x), yvars::<N>(kind.ys(), &p.y));
        let (lk2, le2, xv2, yv2) = (lk.clone(), le.clone(), xv.clone(), yv.clone());
        v.push(op(format!("{} commit_and_prove {kind:?} {m}x{n} ({seed}) {name}", N::NAME), move || {
            bproof(&le2.commit_and_prove(&xv2, &yv2, &lk2, &mut Stream::seeded(p.seed)))
        }));
        if name == "base" || name.starts_with("other") {
            v.push(op(format!("{} prove twice {kind:?} {m}x{n} ({seed}) {name}", N::NAME), move || {
                let r = &mut Stream::seeded(p.seed);
                let (c, d) = (commit_x(&xv, &lk, r), commit_y(&yv, &lk, r));
                let mut b = vec![];
                for _ in 0..2 {
                    let q = le.prove(&xv, &yv, &c, &d, &lk, r);
                    b.extend(b2(&q.pi));
                    b.extend(b1(&q.theta));
                }
                b
            }));
        }
    };
    put("base".into(), base.clone());
    let mut o = base.clone();
    o.seed += 1;
    put("other randomness".into(), o);
    if all {
        for i in 0..11 {
            let mut q = base.clone();
            let k = &mut q.k;
            let mut l: Vec<&mut N::S> = vec![];
            for z in k.u.iter_mut().chain(k.v.iter_mut()) {
                l.extend(z.iter_mut());
            }
            l.push(&mut k.g1);
            l.push(&mut k.g2);
            l.push(&mut k.gt);
            *l[i] += N::S::one();
            put(format!("key coordinate {i} changed"), q);
        }
        for i in 0..nc + 1 + m + n {
            let mut q = base.clone();
            {
                let mut l: Vec<&mut N::S> = q.e.a.iter_mut().collect();
                l.extend(q.e.b.iter_mut());
                for r in q.e.gamma.iter_mut() {
                    l.extend(r.iter_mut());
                }
                l.push(&mut q.e.t);
                l.extend(q.x.iter_mut());
                l.extend(q.y.iter_mut());
                *l[i] += N::S::one();
            }
            put(format!("statement or witness coordinate {i} changed"), q);
        }
    }
}
pub fn commit_ops<N: Eng>(seed: u64, all: bool, v: &mut Ops) {
    let key = bkey::<N::S>(seed);
    for side in 0..2 {
        for scalar in [false, true] {
            let mut put = |name: String, k: &Key<N::S>, x: Vec<N::S>, seed: u64| {
                for single in [false, true] {
                    let (lk, x) = (crs::<N>(k), x.clone());
                    v.push(op(format!("{} commit side {side} scalar {scalar} single {single} {name}", N::NAME), move || {
                        let r = &mut Stream::seeded(seed);
                        if side == 0 {
                            let xv = xvars::<N>(scalar, &x);
                            let c = if single { commit_x1(&xv, 0, &lk, r) } else { commit_x(&xv, &lk, r) };
                            [b1(&c.coms), ser(&c, Compress::Yes)].concat()
                        } else {
                            let yv = yvars::<N>(scalar, &x);
                            let c = if single { commit_y1(&yv, 0, &lk, r) } else { commit_y(&yv, &lk, r) };
                            [b2(&c.coms), ser(&c, Compress::Yes)].concat()
                        }
                    }));
                }
            };
            let x = vals::<N::S>(seed + 7, 2);
            put("base".into(), &key, x.clone(), seed);
            put("other randomness".into(), &key, x.clone(), seed + 1);
            put("zero".into(), &key, vec![N::S::zero(); 2], seed);
            let mut z = x.clone();
            z[0] += N::S::one();
            put("other value".into(), &key, z, seed);
            put("three values".into(), &key, vals(seed + 7, 3), seed);
            if all {
                for i in 0..11 {
                    let mut k = key.clone();
                    let mut l: Vec<&mut N::S> = vec![];
                    for z in k.u.iter_mut().chain(k.v.iter_mut()) {
                        l.extend(z.iter_mut());
                    }
                    l.push(&mut k.g1);
                    l.push(&mut k.g2);
                    l.push(&mut k.gt);
                    *l[i] += N::S::one();
                    put(format!("key coordinate {i} changed"), &k, x.clone(), seed);
                }
            }
        }
    }
}
pub fn key_ops<N: Eng>(seeds: u64, v: &mut Ops) {
    for s in 0..seeds {
        v.push(op(format!("{} generate_crs stream {s}", N::NAME), move || bcrs(&CRS::<N::E>::generate_crs(&mut Stream::seeded(s)))));
        v.push(op(format!("{} generate_crs twice from stream {s}", N::NAME), move || {
            let r = &mut Stream::seeded(s);
            let mut b = bcrs(&CRS::<N::E>::generate_crs(r));
            b.extend(bcrs(&CRS::<N::E>::generate_crs(r)));
            b
        }));
    }
}

macro_rules! mat_ops {
    ($N:ty, $v:expr, $name:expr, $T:ty, $w:expr, $mk:expr, $enc:expr, $seed:expr, $all:expr) => {{
        type S<N> = <N as Eng>::S;
        let mk = $mk;
        let enc = $enc;
        let build = move |z: &[S<$N>]| -> Vec<Vec<$T>> { z.chunks($w * 3).map(|r| r.chunks($w).map(|c| mk(c)).collect()).collect() };
        let flat = move |m: Vec<Vec<$T>>| -> Vec<u8> {
            let mut b = vec![m.len() as u8];
            for r in &m {
                b.push(r.len() as u8);
                b.extend(enc(r));
            }
            b
        };
        let z = vals::<S<$N>>($seed, 6 * $w);
        let l = vals::<S<$N>>($seed + 1, 4);
        let mut put = |name: String, z: Vec<S<$N>>, l: Vec<S<$N>>| {
            for o in 0..8usize {
                let (m, l) = (build(&z), l.clone());
                let names = ["left_mul", "left_mul parallel", "right_mul", "right_mul parallel", "add", "neg", "scalar_mul", "transpose"];
                $v.push(op(format!("{} {} of {} {name}", <$N>::NAME, names[o], $name), move || {
                    let lm = vec![vec![l[0], l[1]], vec![l[2], l[3]]];
                    let rm = vec![vec![l[0], l[1]], vec![l[2], l[3]], vec![l[1], l[0]]];
                    flat(match o {
                        0 => Mat::left_mul(&m, &lm, false),
                        1 => Mat::left_mul(&m, &lm, true),
                        2 => Mat::right_mul(&m, &rm, false),
                        3 => Mat::right_mul(&m, &rm, true),
                        4 => Mat::add(&m, &m),
                        5 => Mat::neg(&m),
                        6 => Mat::scalar_mul(&m, &l[0]),
                        _ => Mat::transpose(&m),
                    })
                }));
            }
        };
        put("base".into(), z.clone(), l.clone());
        if $all {
            for i in 0..z.len() {
                let mut q = z.clone();
                q[i] += <S<$N>>::one();
                put(format!("entry {i} changed"), q, l.clone());
            }
            for i in 0..4 {
                let mut q = l.clone();
                q[i] += <S<$N>>::one();
                put(format!("factor {i} changed"), z.clone(), q);
            }
        }
        let m = build(&z);
        $v.push(op(format!("{} left_mul of {} with wrong dimension", <$N>::NAME, $name), move || flat(Mat::left_mul(&m, &vec![vec![l[0]; 3]], true))));
    }};
}
pub fn algebra_ops<N: Eng>(seed: u64, all: bool, v: &mut Ops) {
    mat_ops!(N, v, "scalars", N::S, 1, |c: &[N::S]| c[0], |r: &[N::S]| pts(r.iter().copied()), seed, all);
    mat_ops!(N, v, "Com1", Com1<N::E>, 2, |c: &[N::S]| com1::<N>(&[c[0], c[1]]), |r: &[Com1<N::E>]| b1(r), seed, all);
    mat_ops!(N, v, "Com2", Com2<N::E>, 2, |c: &[N::S]| com2::<N>(&[c[0], c[1]]), |r: &[Com2<N::E>]| b2(r), seed, all);
    // pairings
    let z = vals::<N::S>(seed + 2, 8);
    let mut put = |name: String, z: Vec<N::S>| {
        let (x, y) = (vec![com1::<N>(&[z[0], z[1]]), com1::<N>(&[z[2], z[3]])], vec![com2::<N>(&[z[4], z[5]]), com2::<N>(&[z[6], z[7]])]);
        let (x2, y2) = (x[0], y[0]);
        v.push(op(format!("{} pairing_sum {name}", N::NAME), move || bt(&ComT::<N::E>::pairing_sum(&x, &y))));
        v.push(op(format!("{} pairing {name}", N::NAME), move || bt(&ComT::<N::E>::pairing(x2, y2))));
    };
    put("base".into(), z.clone());
    if all {
        for i in 0..8 {
            let mut q = z.clone();
            q[i] += N::S::one();
            put(format!("coordinate {i} changed"), q);
        }
    }
    // embeddings
    let key = bkey::<N::S>(seed + 3);
    let mut put = |name: String, k: &Key<N::S>, z: N::S| {
        for o in 0..10usize {
            let lk = crs::<N>(k);
            v.push(op(format!("{} embedding {o} {name}", N::NAME), move || match o {
                0 => b1(&[Com1::<N::E>::linear_map(&N::g1(&z))]),
                1 => b2(&[Com2::<N::E>::linear_map(&N::g2(&z))]),
                2 => b1(&[Com1::<N::E>::scalar_linear_map(&z, &lk)]),
                3 => b2(&[Com2::<N::E>::scalar_linear_map(&z, &lk)]),
                4 => b1(&Com1::<N::E>::batch_scalar_linear_map(&[z, z + N::S::one()], &lk)),
                5 => b2(&Com2::<N::E>::batch_scalar_linear_map(&[z, z + N::S::one()], &lk)),
                6 => bt(&ComT::<N::E>::linear_map_PPE(&N::gt(&z))),
                7 => bt(&ComT::<N::E>::linear_map_MSMEG1(&N::g1(&z), &lk)),
                8 => bt(&ComT::<N::E>::linear_map_MSMEG2(&N::g2(&z), &lk)),
                _ => bt(&ComT::<N::E>::linear_map_quad(&z, &lk)),
            }));
        }
    };
    put("base".into(), &key, z[0]);
    put("zero".into(), &key, N::S::zero());
    put("other value".into(), &key, z[0] + N::S::one());
    for i in 0..if all { 11 } else { 0 } {
        let mut k = key.clone();
        let mut l: Vec<&mut N::S> = vec![];
        for z in k.u.iter_mut().chain(k.v.iter_mut()) {
            l.extend(z.iter_mut());
        }
        l.push(&mut k.g1);
        l.push(&mut k.g2);
        l.push(&mut k.gt);
        *l[i] += N::S::one();
        put(format!("key coordinate {i} changed"), &k, z[0]);
    }
    // group arithmetic
    for d in 0..3usize {
        let z = vals::<N::S>(seed + 4 + d as u64, 12);
        v.push(op(format!("{} group arithmetic {d}", N::NAME), move || {
            let (a, b) = (com1::<N>(&[z[0], z[1]]), com1::<N>(&[z[2], z[3]]));
            let (c, e) = (com2::<N>(&[z[4], z[5]]), com2::<N>(&[z[6], z[7]]));
            let (f, g) = (comt::<N>(&[[z[0], z[1]], [z[2], z[3]]]), comt::<N>(&[[z[4], z[5]], [z[6], z[7]]]));
            let mut o = b1(&[a + b, a - b, -a, [a, b, a].into_iter().sum()]);
            o.extend(b2(&[c + e, c - e, -c, [c, e, c].into_iter().sum()]));
            o.extend(bt(&(f + g)));
            o.extend(bt(&(f - g)));
            o.extend([(a == b) as u8, (c == e) as u8, (f == g) as u8]);
            o
        }));
    }
}
pub fn encode_ops<N: Eng>(seed: u64, all: bool, v: &mut Ops) {
    for kind in KINDS {
        let s = transcript::<N::S>(kind, 2, 1, seed);
        let n = if all { 1 + ncoords(kind, 2, 1) } else { 2 };
        for i in 0..n {
            let mut s = s.clone();
            if i > 0 {
                let j = i - 1 + if all { 0 } else { 2 * (3 + kind.npi() + kind.ntheta()) };
                *s.coords()[j] += N::S::one();
            }
            let (k, e) = (crs::<N>(&s.k), leq::<N>(&s.e));
            let (k2, e2) = (k.clone(), e.clone());
            v.push(op(format!("{} encode statement and key {kind:?} variant {i}", N::NAME), move || {
                [e2.bytes(Compress::Yes), e2.bytes(Compress::No), ser(&k2, Compress::Yes), ser(&k2, Compress::No)].concat()
            }));
            // the bytes to decode are written with arkworks' own encoding of the parts
            v.push(op(format!("{} decode statement {kind:?} variant {i}", N::NAME), move || {
                let c = if i % 2 == 0 { Compress::Yes } else { Compress::No };
                let b = e.bytes(c);
                let d = LEq::<N::E>::decode(kind, &b, c, Validate::Yes).unwrap();
                let cut = LEq::<N::E>::decode(kind, &b[..b.len() - 1], c, Validate::Yes).is_err();
                let kb = ser(&k, c);
                let kd = CRS::<N::E>::deserialize_with_mode(&kb[..], c, Validate::Yes).unwrap();
                let mut o = bcrs(&kd);
                o.extend([d.same(&e) as u8, cut as u8]);
                o.extend(d.bytes(Compress::No));
                o
            }));
        }
    }
    for t in 0..6u8 {
        v.push(op(format!("decode equation type {t}"), move || {
            match groth_sahai::statement::EquType::deserialize_compressed(&[t][..]) {
                Ok(x) => ser(&x, Compress::Yes),
                Err(_) => vec![9, 9],
            }
        }));
    }
}
pub fn menu<N: Eng>(all: bool, small: bool) -> Ops {
    let mut v = vec![];
    let sh = Shells::<N>::new();
    for kind in KINDS {
        verify_ops::<N>(&sh, kind, 1, 1, 11, all, &mut v);
        verify_ops::<N>(&sh, kind, 2, 2, 12, all && !small, &mut v);
        verify_ops::<N>(&sh, kind, 2, 1, 13, false, &mut v);
        prove_ops::<N>(kind, 1, 1, 21, all, &mut v);
        prove_ops::<N>(kind, 2, 2, 22, all && !small, &mut v);
        prove_ops::<N>(kind, 1, 2, 23, false, &mut v);
    }
    commit_ops::<N>(31, all, &mut v);
    key_ops::<N>(if small { 2 } else { 5 }, &mut v);
    algebra_ops::<N>(41, all && !small, &mut v);
    encode_ops::<N>(51, all && !small, &mut v);
    v
}

/// Calls on many arguments each: every shape, every single entry replaced by 0, 1 or -1, and everything replaced.
pub fn bulk<N: Eng>(max: usize) -> Ops {
    let mut v = vec![];
    let one = N::S::one();
    // the argument lists derived from one
    let patterns = move |z: Vec<N::S>| -> Vec<Vec<N::S>> {
        let mut o = vec![z.clone()];
        for s in [N::S::zero(), one, -one] {
            o.push(vec![s; z.len()]);
            for i in 0..z.len() {
                let mut q = z.clone();
                q[i] = s;
                o.push(q);
            }
        }
        o
    };
    fn rows<A: Clone>(m: &[Vec<A>], enc: impl Fn(&[A]) -> Vec<u8>) -> Vec<u8> {
        let mut b = vec![m.len() as u8];
        for r in m {
            b.push(r.len() as u8);
            b.extend(enc(r));
        }
        b
    }
    for r in 1..=max {
        for k in 1..=max {
            for c in 1..=max {
                v.push(op(format!("{} bulk products {r}x{k}x{c}", N::NAME), move || {
                    let mut b = vec![];
                    for z in patterns(vals(81, r * k)) {
                        let w = vals::<N::S>(82, 2 * k * c);
                        let l: Vec<Vec<N::S>> = z.chunks(k).map(|r| r.to_vec()).collect();
                        let lt: Vec<Vec<N::S>> = (0..k).map(|j| l.iter().map(|r| r[j]).collect()).collect();
                        let f: Vec<Vec<N::S>> = w[..k * c].chunks(c).map(|r| r.to_vec()).collect();
                        let m1: Vec<Vec<Com1<N::E>>> = w.chunks(2 * c).map(|r| r.chunks(2).map(|z| com1::<N>(&[z[0], z[1]])).collect()).collect();
                        let m2: Vec<Vec<Com2<N::E>>> = w.chunks(2 * c).map(|r| r.chunks(2).map(|z| com2::<N>(&[z[0], z[1]])).collect()).collect();
                        let (ft, t1, t2) = (f.transpose(), m1.transpose(), m2.transpose());
                        for p in [false, true] {
                            b.extend(rows(&f.left_mul(&l, p), |r| pts(r.iter().copied())));
                            b.extend(rows(&ft.right_mul(&lt, p), |r| pts(r.iter().copied())));
                            b.extend(rows(&l.right_mul(&f, p), |r| pts(r.iter().copied())));
                            b.extend(rows(&m1.left_mul(&l, p), b1));
                            b.extend(rows(&t1.right_mul(&lt, p), b1));
                            b.extend(rows(&m2.left_mul(&l, p), b2));
                            b.extend(rows(&t2.right_mul(&lt, p), b2));
                        }
                    }
                    b
                }));
            }
        }
    }
    let sh = Shells::<N>::new();
    for kind in KINDS {
        for m in 1..=max.min(3) {
            for n in 1..=max.min(3) {
                let nc = ncoef(m, n);
                let sh2 = sh.clone();
                v.push(op(format!("{} bulk verify {kind:?} {m}x{n}", N::NAME), move || {
                    let mut b = vec![];
                    let k = bkey::<N::S>(83);
                    let r = vals::<N::S>(84, ndraw(kind, m, n));
                    for (i, z) in quiet(|| patterns(vals(85, nc + m + n))).into_iter().enumerate() {
                        let (x, y) = (&z[nc..nc + m], &z[nc + m..]);
                        let e = eqn_for(kind, m, n, &z, x, y);
                        let mut s = St { f: honest(&k, &e, x, y, &r), k: k.clone(), e };
                        let at = i % s.clone().coords().len();
                        for d in [N::S::zero(), one] {
                            *s.coords()[at] += d;
                            let (p, e, k) = quiet(|| {
                                let mut p = sh2.get(kind);
                                set::<N>(&mut p, kind, &s.f);
                                (p, leq::<N>(&s.e), crs::<N>(&s.k))
                            });
                            b.push(e.verify(&p, &k) as u8);
                        }
                    }
                    b
                }));
                v.push(op(format!("{} bulk prove {kind:?} {m}x{n}", N::NAME), move || {
                    let mut b = vec![];
                    let k = bkey::<N::S>(83);
                    for z in patterns(vals(85, nc + m + n)) {
                        let (x, y) = (&z[nc..nc + m], &z[nc + m..]);
                        let e = eqn_for(kind, m, n, &z, x, y);
                        let p = leq::<N>(&e).commit_and_prove(&xvars::<N>(kind.xs(), x), &yvars::<N>(kind.ys(), y), &crs::<N>(&k), &mut Stream::seeded(86));
                        b.extend(bproof(&p));
                    }
                    b
                }));
            }
        }
    }
    for n in 1..=max + 1 {
        v.push(op(format!("{} bulk commitments and embeddings of {n}", N::NAME), move || {
            let mut b = vec![];
            let k = crs::<N>(&bkey::<N::S>(87));
            for z in patterns(vals(88, n)) {
                let r = &mut Stream::seeded(89);
                for s in [false, true] {
                    b.extend(b1(&commit_x(&xvars::<N>(s, &z), &k, r).coms));
                    b.extend(b2(&commit_y(&yvars::<N>(s, &z), &k, r).coms));
                }
                b.extend(b1(&Com1::<N::E>::batch_scalar_linear_map(&z, &k)));
                b.extend(b2(&Com2::<N::E>::batch_scalar_linear_map(&z, &k)));
                let (x, y): (Vec<A1<N>>, Vec<A2<N>>) = (z.iter().map(N::g1).collect(), z.iter().map(N::g2).collect());
                b.extend(b1(&Com1::<N::E>::batch_linear_map(&x)));
                b.extend(b2(&Com2::<N::E>::batch_linear_map(&y)));
                b.extend([bt(&ComT::<N::E>::linear_map_PPE(&N::gt(&z[0]))), bt(&ComT::<N::E>::linear_map_MSMEG1(&x[0], &k)), bt(&ComT::<N::E>::linear_map_MSMEG2(&y[0], &k)), bt(&ComT::<N::E>::linear_map_quad(&z[0], &k))].concat());
            }
            b
        }));
        v.push(op(format!("{} bulk pairing sums of {n}", N::NAME), move || {
            let mut b = vec![];
            for z in patterns(vals(90, 4 * n)) {
                let x: Vec<Com1<N::E>> = z[..2 * n].chunks(2).map(|z| com1::<N>(&[z[0], z[1]])).collect();
                let y: Vec<Com2<N::E>> = z[2 * n..].chunks(2).map(|z| com2::<N>(&[z[0], z[1]])).collect();
                let (s, t) = (ComT::<N::E>::pairing_sum(&x, &y), ComT::<N::E>::pairing(x[0], y[n - 1]));
                b.extend([bt(&s), bt(&(s + t)), bt(&(s - t))].concat());
                b.extend(b1(&[x.iter().copied().sum(), x[0] + x[n - 1], x[0] - x[n - 1], -x[0]]));
                b.extend(b2(&[y.iter().copied().sum(), y[0] + y[n - 1], y[0] - y[n - 1], -y[0]]));
                b.extend([(x[0] == x[n - 1]) as u8, (y[0] == y[n - 1]) as u8, (s == t) as u8]);
            }
            b
        }));
        v.push(op(format!("{} bulk encodings of {n}", N::NAME), move || {
            let mut b = vec![];
            for kind in KINDS {
                for z in patterns(vals(91, ncoef(n, n) + 1)) {
                    let e = leq::<N>(&eqn(kind, n, n, &z, z[ncoef(n, n)]));
                    for c in [Compress::Yes, Compress::No] {
                        let w = e.bytes(c);
                        b.push(LEq::<N::E>::decode(kind, &w, c, Validate::Yes).map_or(2, |d| d.same(&e) as u8));
                        b.extend(w);
                    }
                }
            }
            b
        }));
    }
    v.push(op(format!("{} bulk generate_crs", N::NAME), move || (0..20).flat_map(|s| bcrs(&CRS::<N::E>::generate_crs(&mut Stream::seeded(100 + s)))).collect()));
    v
}

// ---------------------------------------------------------------- histories
/// de Bruijn word: every n-letter word over k letters occurs as a factor of the cyclic word.
fn de_bruijn(k: usize, n: usize) -> Vec<u32> {
    let mut a = vec![0u32; k * n + 1];
    let mut out = vec![];
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<u32>, out: &mut Vec<u32>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k as u32 {
                a[t] = j;
                db(t + 1, t, k, n, a, out);
            }
        }
    }
    db(1, 1, k, n, &mut a, &mut out);
    for i in 0..n - 1 {
        out.push(out[i]);
    }
    out
}
struct Lab {
    ops: Ops,
    base: OnceLock<Vec<u64>>,
}
impl Lab {
    fn new(ops: Ops) -> Arc<Self> {
        Arc::new(Lab { ops, base: OnceLock::new() })
    }
    /// Result of every operation in a process in which it is the first library call.
    fn base(&self) -> Result<&[u64], String> {
        if self.base.get().is_none() {
            let r = forked(self.ops.len(), &|i| self.ops[i].run().to_le_bytes().to_vec());
            let mut b = vec![];
            for (i, r) in r.into_iter().enumerate() {
                b.push(u64::from_le_bytes(r.map_err(|m| format!("{}: {m}", self.ops[i].name))?[..8].try_into().unwrap()));
            }
            let _ = self.base.set(b);
        }
        Ok(self.base.get().unwrap())
    }
    /// Run a history in this process; Some(position) where a result differs.
    fn play(&self, base: &[u64], h: &[u32]) -> Option<usize> {
        h.iter().position(|o| self.ops[*o as usize].run() != base[*o as usize])
    }
    /// All the given histories, each in a fresh process.
    fn histories(&self, hs: &[&[u32]], c: &mut Cnt) -> Result<(), String> {
        let base = self.base()?;
        let r = forked(hs.len(), &|i| match self.play(base, hs[i]) {
            None => vec![],
            Some(p) => (p as u64).to_le_bytes().to_vec(),
        });
        for (i, r) in r.into_iter().enumerate() {
            let h = hs[i];
            let r = r.map_err(|m| format!("{m} during a history of {} operations starting with {}", h.len(), self.ops[h[0] as usize].name))?;
            c.st();
            c.tr(h.len() as u64);
            if r.is_empty() {
                continue;
            }
            let p = u64::from_le_bytes(r[..8].try_into().unwrap()) as usize;
            // a shorter history with the same effect
            let mut k = 1;
            let last = loop {
                let from = (p + 1).saturating_sub(k + 1);
                let w = &h[from..=p];
                let again = forked(1, &|_| vec![matches!(self.play(base, w), Some(q) if q + 1 == w.len()) as u8]);
                if matches!(&again[0], Ok(b) if b == &[1]) || from == 0 {
                    break w;
                }
                k *= 2;
            };
            let names: Vec<&str> = last.iter().rev().take(4).rev().map(|o| self.ops[*o as usize].name.as_str()).collect();
            return Err(format!("the result of an operation depends on history: after {} operations the last of {names:?} gives another result than in a fresh process", last.len() - 1));
        }
        Ok(())
    }
}
/// every ordered n-tuple of consecutive calls, cut into segments that run in their own processes
fn words(name: &str, lab: &Arc<Lab>, pick: Vec<u32>, n: usize, seg: usize) -> Part {
    let lab = lab.clone();
    part(
        name,
        &format!("every sequence of {n} calls out of {} (as factors of de Bruijn words, in {} call segments, each in its own process)", pick.len(), seg),
        1,
        move |_, c| {
            let w: Vec<u32> = de_bruijn(pick.len(), n).into_iter().map(|i| pick[i as usize]).collect();
            let mut hs = vec![];
            let mut at = 0;
            while at + n - 1 < w.len() {
                let end = (at + seg + n - 1).min(w.len());
                hs.push(&w[at..end]);
                at += seg;
            }
            c.tagn(&format!("{n}-call histories"), (w.len() + 1 - n) as u64);
            c.sample(|| w[..n].iter().map(|o| lab.ops[*o as usize].name.clone()).collect::<Vec<_>>().join(" ; "));
            lab.histories(&hs, c)
        },
    )
    .single()
}
fn pairs(name: &str, lab: &Arc<Lab>, pick: Vec<u32>) -> Part {
    let lab = lab.clone();
    part(name, &format!("every ordered pair of {} calls in a process of its own", pick.len()), pick.len() as u64, move |i, c| {
        let hs: Vec<[u32; 2]> = pick.iter().map(|b| [pick[i as usize], *b]).collect();
        let hs: Vec<&[u32]> = hs.iter().map(|h| &h[..]).collect();
        lab.histories(&hs, c)
    })
    .single()
}
fn repeats(name: &str, lab: &Arc<Lab>, pick: Vec<u32>, times: usize) -> Part {
    let lab = lab.clone();
    part(name, &format!("each of {} calls repeated {times} times, and all of them in turn as often", pick.len()), 1, move |_, c| {
        let mut hs: Vec<Vec<u32>> = pick.iter().map(|o| vec![*o; times]).collect();
        hs.push((0..times).map(|i| pick[i % pick.len()]).collect());
        let hs: Vec<&[u32]> = hs.iter().map(|h| &h[..]).collect();
        lab.histories(&hs, c)
    })
    .single()
}
/// `n` operations spread evenly, with every kind of operation (first word of the name) included.
fn spread(ops: &[Op], n: usize) -> Vec<u32> {
    let l = ops.len();
    (0..n.min(l)).map(|i| (i * l / n.min(l)) as u32).collect()
}
fn named(ops: &[Op], f: impl Fn(&str) -> bool) -> Vec<u32> {
    ops.iter().enumerate().filter(|(_, o)| f(&o.name)).map(|(i, _)| i as u32).collect()
}
// ---------------------------------------------------------------- objects changed in place
/// All arguments of the calls on one equation, overwritten in place between calls: the same addresses hold other values.
struct Place<N: Eng> {
    kind: Kind,
    k: CRS<N::E>,
    e: LEq<N::E>,
    x: X<N>,
    y: Y<N>,
    p: CProof<N::E>,
    c: Commit1<N::E>,
    d: Commit2<N::E>,
    m1: Vec<Vec<Com1<N::E>>>,
    m2: Vec<Vec<Com2<N::E>>>,
    fm: Vec<Vec<N::S>>,
}
/// Number of the structural changes that `write` knows besides changes of a coordinate.
const STRUCT: usize = 6;
const CALLS: usize = 14;
impl<N: Eng> Place<N> {
    fn new(kind: Kind, s: &St<N::S>, x: &[N::S], y: &[N::S], sh: &Shells<N>) -> Self {
        let k = crs::<N>(&s.k);
        let r = &mut Stream::seeded(99);
        let (c, d) = (commit_x(&xvars::<N>(kind.xs(), x), &k, r), commit_y(&yvars::<N>(kind.ys(), y), &k, r));
        Self::with(kind, s, x, y, sh, c, d)
    }
    /// With given commitments: calls nothing but decoding.
    fn with(kind: Kind, s: &St<N::S>, x: &[N::S], y: &[N::S], sh: &Shells<N>, c: Commit1<N::E>, d: Commit2<N::E>) -> Self {
        let mut p = sh.get(kind);
        set::<N>(&mut p, kind, &s.f);
        p.xcoms.coms.reserve(2);
        p.ycoms.coms.reserve(2);
        p.equ_proofs.reserve(2);
        p.equ_proofs[0].theta.reserve(2);
        p.equ_proofs[0].pi.reserve(2);
        let k = crs::<N>(&s.k);
        let (x, y) = (xvars::<N>(kind.xs(), x), yvars::<N>(kind.ys(), y));
        let (m1, m2) = (p.xcoms.coms.iter().map(|c| vec![*c]).collect(), p.ycoms.coms.iter().map(|c| vec![*c]).collect());
        Place { kind, k, e: leq::<N>(&s.e), x, y, p, c, d, m1, m2, fm: s.e.gamma.clone() }
    }
    /// Overwrite everything with the values of `s`, `x` and `y`, without moving anything.
    fn write(&mut self, s: &St<N::S>, x: &[N::S], y: &[N::S], st: &[usize]) {
        for (o, k) in self.k.u.iter_mut().zip(&s.k.u) {
            *o = com1::<N>(k);
        }
        for (o, k) in self.k.v.iter_mut().zip(&s.k.v) {
            *o = com2::<N>(k);
        }
        (self.k.g1_gen, self.k.g2_gen, self.k.gt_gen) = (N::g1(&s.k.g1), N::g2(&s.k.g2), N::gt(&s.k.gt));
        let mut gamma = s.e.gamma.clone();
        if st.contains(&0) {
            gamma.reverse();
        }
        let (g1, g2): (fn(&N::S) -> A1<N>, fn(&N::S) -> A2<N>) = (N::g1, N::g2);
        fn put<A: Copy, S>(o: &mut [A], v: &[S], f: impl Fn(&S) -> A) {
            for (o, v) in o.iter_mut().zip(v) {
                *o = f(v);
            }
        }
        let g = match &mut self.e {
            LEq::Ppe(e) => {
                put(&mut e.a_consts, &s.e.a, g1);
                put(&mut e.b_consts, &s.e.b, g2);
                e.target = N::gt(&s.e.t);
                &mut e.gamma
            }
            LEq::M1(e) => {
                put(&mut e.a_consts, &s.e.a, g1);
                put(&mut e.b_consts, &s.e.b, |z| *z);
                e.target = N::g1(&s.e.t);
                &mut e.gamma
            }
            LEq::M2(e) => {
                put(&mut e.a_consts, &s.e.a, |z| *z);
                put(&mut e.b_consts, &s.e.b, g2);
                e.target = N::g2(&s.e.t);
                &mut e.gamma
            }
            LEq::Quad(e) => {
                put(&mut e.a_consts, &s.e.a, |z| *z);
                put(&mut e.b_consts, &s.e.b, |z| *z);
                e.target = s.e.t;
                &mut e.gamma
            }
        };
        for (r, q) in g.iter_mut().zip(&gamma) {
            put(r, q, |z| *z);
        }
        for (r, q) in self.fm.iter_mut().zip(&gamma) {
            put(r, q, |z| *z);
        }
        match &mut self.x {
            Vars::G(v) => put(v, x, g1),
            Vars::S(v) => put(v, x, |z| *z),
        }
        match &mut self.y {
            Vars::G(v) => put(v, y, g2),
            Vars::S(v) => put(v, y, |z| *z),
        }
        self.p.equ_proofs.truncate(1);
        set::<N>(&mut self.p, self.kind, &s.f);
        for (r, c) in self.m1.iter_mut().zip(&self.p.xcoms.coms) {
            r[0] = *c;
        }
        for (r, c) in self.m2.iter_mut().zip(&self.p.ycoms.coms) {
            r[0] = *c;
        }
        let q = &mut self.p.equ_proofs[0];
        if st.contains(&1) {
            q.theta.push(com1::<N>(&[N::S::one(); 2]));
        }
        if st.contains(&2) {
            q.equ_type = etype(KINDS[(self.kind.tag() as usize + 1) % 4]);
        }
        if st.contains(&3) {
            self.p.xcoms.coms.pop();
        }
        if st.contains(&4) {
            self.p.ycoms.coms.reverse();
        }
        if st.contains(&5) {
            let again = self.p.equ_proofs[0].clone();
            self.p.equ_proofs.push(again);
        }
    }
    fn copy(&self) -> Self {
        Place { kind: self.kind, k: self.k.clone(), e: self.e.clone(), x: self.x.clone(), y: self.y.clone(), p: self.p.clone(), c: self.c.clone(), d: self.d.clone(), m1: self.m1.clone(), m2: self.m2.clone(), fm: self.fm.clone() }
    }
    fn call(&self, which: usize) -> u64 {
        let r = lib(|| {
            let r = &mut Stream::seeded(5);
            match which {
                0 => vec![self.e.verify(&self.p, &self.k) as u8],
                1 => bproof(&self.e.commit_and_prove(&self.x, &self.y, &self.k, r)),
                2 => {
                    let q = self.e.prove(&self.x, &self.y, &self.c, &self.d, &self.k, r);
                    [b2(&q.pi), b1(&q.theta)].concat()
                }
                3 => [b1(&commit_x(&self.x, &self.k, r).coms), b1(&commit_x1(&self.x, 0, &self.k, r).coms)].concat(),
                4 => [b2(&commit_y(&self.y, &self.k, r).coms), b2(&commit_y1(&self.y, 0, &self.k, r).coms)].concat(),
                5 => match &self.x {
                    Vars::G(v) => b1(&Com1::<N::E>::batch_linear_map(v)),
                    Vars::S(v) => b1(&Com1::<N::E>::batch_scalar_linear_map(v, &self.k)),
                },
                6 => match &self.y {
                    Vars::G(v) => b2(&Com2::<N::E>::batch_linear_map(v)),
                    Vars::S(v) => b2(&Com2::<N::E>::batch_scalar_linear_map(v, &self.k)),
                },
                7 => bt(&ComT::<N::E>::pairing_sum(&self.k.u, &self.p.equ_proofs[0].pi)),
                8 => self.m2.left_mul(&self.fm, true).iter().flat_map(|r| b2(r)).collect(),
                9 => self.m1.left_mul(&self.fm.transpose(), false).iter().flat_map(|r| b1(r)).collect(),
                10 => pts(self.fm.right_mul(&self.fm, true).concat()),
                11 => {
                    let k = &self.k;
                    match &self.e {
                        LEq::Ppe(e) => [bt(&ComT::<N::E>::linear_map_PPE(&e.target)), b1(&Com1::<N::E>::batch_linear_map(&e.a_consts)), b2(&[Com2::<N::E>::linear_map(&e.b_consts[0])])].concat(),
                        LEq::M1(e) => [bt(&ComT::<N::E>::linear_map_MSMEG1(&e.target, k)), b1(&[Com1::<N::E>::linear_map(&e.a_consts[0])]), b2(&Com2::<N::E>::batch_scalar_linear_map(&e.b_consts, k))].concat(),
                        LEq::M2(e) => [bt(&ComT::<N::E>::linear_map_MSMEG2(&e.target, k)), b1(&Com1::<N::E>::batch_scalar_linear_map(&e.a_consts, k)), b2(&Com2::<N::E>::batch_linear_map(&e.b_consts))].concat(),
                        LEq::Quad(e) => [bt(&ComT::<N::E>::linear_map_quad(&e.target, k)), b1(&[Com1::<N::E>::scalar_linear_map(&e.a_consts[0], k)]), b2(&[Com2::<N::E>::scalar_linear_map(&e.b_consts[0], k)])].concat(),
                    }
                }
                12 => {
                    let (c, d) = (self.p.xcoms.coms[0], self.p.ycoms.coms[0]);
                    let (u, v) = (&self.k.u, &self.k.v);
                    let mut o = b1(&[c + u[0], c - u[1], -c, [c, u[0], u[1]].into_iter().sum()]);
                    o.extend(b2(&[d + v[0], d - v[1], -d, [d, v[0], v[1]].into_iter().sum()]));
                    let (f, g) = (ComT::<N::E>::pairing(c, d), ComT::<N::E>::pairing(u[0], v[1]));
                    o.extend([bt(&f), bt(&(f + g)), bt(&(f - g))].concat());
                    o.extend([(c == u[0]) as u8, (d == v[1]) as u8, (f == g) as u8]);
                    o
                }
                _ => [self.e.bytes(Compress::Yes), ser(&self.k, Compress::No), ser(&self.p.xcoms.coms, Compress::Yes), ser(&self.p.equ_proofs, Compress::No)].concat(),
            }
        });
        r.map_or(1, |b| hash(&b))
    }
}
/// For every call and every two changes i, j of its arguments: base, i, i and j, j, base, all in the same objects.
fn in_place<N: Eng>(name: &str, m: usize, n: usize) -> Part {
    let sh: OnceLock<Arc<Shells<N>>> = OnceLock::new();
    part(name, &format!("arguments of {m}x{n} calls overwritten in place between calls, every two changes, 14 calls, {}; against the same values in objects of their own", N::NAME), 4 * CALLS as u64, move |i, c| {
        let (kind, which) = (KINDS[(i % 4) as usize], (i / 4) as usize);
        let base = transcript::<N::S>(kind, m, n, 61);
        let xy = vals::<N::S>(62, m + n);
        let nc = base.clone().coords().len();
        let total = nc + m + n + STRUCT;
        let config = |t: &[usize]| {
            let (mut s, mut xy, mut st) = (base.clone(), xy.clone(), vec![]);
            for &t in t {
                if t < nc {
                    *s.coords()[t] += N::S::one();
                } else if t < nc + m + n {
                    xy[t - nc] += N::S::one();
                } else {
                    st.push(t - nc - m - n);
                }
            }
            (s, xy, st)
        };
        let sh = sh.get_or_init(|| Shells::<N>::new());
        let walk = |f: usize, fresh: bool| -> Vec<u8> {
            let mut out = vec![];
            let mut at = Place::<N>::new(kind, &base, &xy[..m], &xy[m..], sh);
            for g in f + 1..total {
                for t in [&[][..], &[f][..], &[f, g], &[g], &[]] {
                    let (s, xy, st) = config(t);
                    if fresh {
                        let o = std::mem::replace(&mut at, Place::<N>::new(kind, &base, &xy[..m], &xy[m..], sh));
                        std::mem::forget(o);
                    }
                    at.write(&s, &xy[..m], &xy[m..], &st);
                    if fresh {
                        // where nothing has been before
                        let o = at.copy();
                        std::mem::forget(std::mem::replace(&mut at, o));
                    }
                    out.extend(at.call(which).to_le_bytes());
                }
            }
            out
        };
        let got = forked(total - 1, &|f| walk(f, false));
        let want = forked(total - 1, &|f| walk(f, true));
        for f in 0..total - 1 {
            let (a, b) = (got[f].as_ref().map_err(|m| m.clone())?, want[f].as_ref().map_err(|m| m.clone())?);
            c.st();
            c.tr(a.len() as u64 / 8);
            c.tagn("calls on overwritten objects", a.len() as u64 / 8);
            if let Some(q) = (0..a.len().min(b.len()) / 8).find(|q| a[8 * q..8 * q + 8] != b[8 * q..8 * q + 8]) {
                return Err(format!("call {which} on a {kind:?} equation gives another result when its arguments were overwritten in place (changes {f} and {}, step {})", f + 1 + q / 5, q % 5));
            }
        }
        Ok(())
    })
    .need(&["calls on overwritten objects"])
    .single()
}
/// Calls whose arguments differ in one or two coordinates only, by values that are easily taken for each other:
/// with the same limbs in one or the other representation, opposite, exchanged, with the same sum, both the same.
/// Every two such values one after the other, against each in a process of its own.
fn alike<N: Eng>(name: &str, m: usize, n: usize, two: bool, calls: &'static [usize]) -> Part {
    let sh: OnceLock<Arc<Shells<N>>> = OnceLock::new();
    let coms: OnceLock<Vec<Vec<Vec<u8>>>> = OnceLock::new();
    let what = if two { "two coordinates of the arguments exchanged, moved oppositely or made equal" } else { "one coordinate of the arguments replaced by up to 15 values that resemble it (limb by limb, opposite, 0, 1), every two in a row" };
    part(name, &format!("{m}x{n} calls, {} calls, {}: {what}; against the same call in a process of its own", calls.len(), N::NAME), 4 * calls.len() as u64, move |i, c| {
        let (kind, which) = (KINDS[(i % 4) as usize], calls[(i / 4) as usize]);
        let base = transcript::<N::S>(kind, m, n, 71);
        let xy = vals::<N::S>(72, m + n);
        let nc = base.clone().coords().len();
        let total = nc + m + n;
        let sh = sh.get_or_init(|| Shells::<N>::new());
        let coms = coms.get_or_init(|| {
            forked(4, &|i| {
                let kind = KINDS[i];
                let s = transcript::<N::S>(kind, m, n, 71);
                let k = crs::<N>(&s.k);
                let r = &mut Stream::seeded(99);
                let (c, d) = (commit_x(&xvars::<N>(kind.xs(), &xy[..m]), &k, r), commit_y(&yvars::<N>(kind.ys(), &xy[m..]), &k, r));
                let (c, d) = (ser(&c, Compress::No), ser(&d, Compress::No));
                [(c.len() as u32).to_le_bytes().to_vec(), c, d].concat()
            })
            .into_iter()
            .map(|b| {
                let b = b.expect("helper");
                let l = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
                vec![b[4..4 + l].to_vec(), b[4 + l..].to_vec()]
            })
            .collect()
        });
        let place = || {
            let b = &coms[(i % 4) as usize];
            let (a, q) = (Compress::No, Validate::No);
            Place::<N>::with(kind, &base, &xy[..m], &xy[m..], sh, Commit1::deserialize_with_mode(&b[0][..], a, q).unwrap(), Commit2::deserialize_with_mode(&b[1][..], a, q).unwrap())
        };
        // the histories: each a list of coordinates replaced
        let big = N::P == 0;
        let cheap = N::NAME != "BLS12-381";
        let two64 = N::S::from(1u64 << 32) * N::S::from(1u64 << 32);
        let rinv = if big { two64.pow([4u64]).inverse().unwrap() } else { N::S::one() };
        let get = |t: usize| -> N::S {
            if t < nc {
                *base.clone().coords()[t]
            } else {
                xy[t - nc]
            }
        };
        type Conf<S> = Vec<(usize, S)>;
        let mut hs: Vec<Vec<Conf<N::S>>> = vec![];
        for f in 0..total {
            let v = get(f);
            if two {
                for g in f + 1..total {
                    let w = get(g);
                    let h = vec![
                        vec![],
                        vec![(f, w), (g, v)],
                        vec![(f, v + N::S::one()), (g, w - N::S::one())],
                        vec![(f, v), (g, v)],
                        vec![(f, w), (g, w)],
                        vec![(f, -v), (g, -w)],
                        vec![],
                    ];
                    hs.push(h);
                }
            } else {
                let mut vs = vec![v, -v];
                if big && cheap {
                    vs.extend([N::S::zero(), N::S::one(), v + N::S::one(), v + N::S::from(1u64 << 32), v + two64, v + two64.square(), v + two64.pow([3u64]), v + v]);
                    vs.extend([v + rinv, v + rinv * N::S::from(1u64 << 32), v + rinv * two64, v + rinv * two64.square(), v + rinv * two64.pow([3u64])]);
                } else if cheap {
                    vs = (0..N::P).map(N::S::from).collect();
                }
                hs.push(de_bruijn(vs.len(), 2).into_iter().map(|j| vec![(f, vs[j as usize])]).collect());
            }
        }
        let conf = |at: &mut Place<N>, t: &Conf<N::S>| {
            let (mut s, mut xy) = (base.clone(), xy.clone());
            for (t, z) in t {
                if *t < nc {
                    *s.coords()[*t] = *z;
                } else {
                    xy[*t - nc] = *z;
                }
            }
            at.write(&s, &xy[..m], &xy[m..], &[]);
            at.call(which)
        };
        let mut each: Vec<&Conf<N::S>> = vec![];
        let mut ix: Vec<Vec<usize>> = vec![];
        for h in &hs {
            let from = each.len();
            ix.push(h.iter().map(|t| from + each[from..].iter().position(|o| *o == t).unwrap_or_else(|| { each.push(t); each.len() - 1 - from })).collect());
        }
        let want = forked(each.len(), &|q| conf(&mut place(), each[q]).to_le_bytes().to_vec());
        let got = forked(hs.len(), &|q| {
            let mut at = place();
            hs[q].iter().flat_map(|t| conf(&mut at, t).to_le_bytes()).collect()
        });
        for (q, h) in hs.iter().enumerate() {
            let b = got[q].as_ref().map_err(|m| m.clone())?;
            c.st();
            c.tr(h.len() as u64);
            c.tagn("calls with similar arguments", h.len() as u64);
            if !cheap {
                c.conf += h.len() as u64;
            }
            for (j, t) in h.iter().enumerate() {
                let w = want[ix[q][j]].as_ref().map_err(|m| m.clone())?;
                if b[8 * j..8 * j + 8] != w[..] {
                    return Err(format!("call {which} on a {kind:?} equation gives another result after {j} calls with similar arguments than in a fresh process: coordinates {:?} replaced", t.iter().map(|t| t.0).collect::<Vec<_>>()));
                }
            }
        }
        Ok(())
    })
    .need(&["calls with similar arguments"])
    .single()
}
// ---------------------------------------------------------------- surroundings
#[derive(Clone, Copy, Debug)]
enum Where {
    /// a new thread, parallel calls carried out one after the other, the pool of that many threads
    Inline(usize),
    /// a new thread, rayon's own global pool
    Global,
    /// a worker of a pool of that many threads
    Pool(usize),
}
#[derive(Clone)]
struct Around {
    name: String,
    s: env::Script,
    at: Where,
    /// bytes taken from heap and stack before
    heap: usize,
    stack: usize,
    /// run in the root directory without any environment
    bare: bool,
}
fn surroundings() -> Vec<Around> {
    use env::{Clock, REAL};
    let base = Around { name: String::new(), s: REAL, at: Where::Inline(1), heap: 0, stack: 0, bare: false };
    let mut v = vec![Around { name: "a new thread".into(), ..base.clone() }];
    let mut put = |name: String, a: Around| v.push(Around { name, ..a });
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31, 32, 33, 48, 64, 65, 96, 128, 192, 256] {
        put(format!("{n} processors"), Around { s: env::Script { cores: n, ..REAL }, ..base.clone() });
        put(format!("a pool of {n} threads"), Around { at: Where::Inline(n), ..base.clone() });
    }
    put("no environment variable set".into(), Around { s: env::Script { absent: true, ..REAL }, ..base.clone() });
    for z in [c"", c"0", c"1", c"2", c"3", c"4", c"8", c"16", c"64", c"-1", c"true", c"false", c"on", c"off", c"yes", c"no", c"debug", c"x", c"1,2", c"18446744073709551616"] {
        put(format!("every environment variable asked for set to {z:?}"), Around { s: env::Script { var: Some(z), ..REAL }, ..base.clone() });
    }
    put("no environment, root directory".into(), Around { bare: true, ..base.clone() });
    for c in [Clock::At(0), Clock::At(1 << 62), Clock::At(-1), Clock::Step(0), Clock::Step(1), Clock::Step(1_000), Clock::Step(1_000_000), Clock::Step(1_000_000_000), Clock::Step(3_600_000_000_000), Clock::Step(-1), Clock::Step(-1_000_000)] {
        put(format!("clock {c:?}"), Around { s: env::Script { clock: c, ..REAL }, ..base.clone() });
    }
    for r in [(0u8, 0u8), (255, 0), (1, 1), (170, 85)] {
        put(format!("system randomness {r:?}"), Around { s: env::Script { random: Some(r), ..REAL }, ..base.clone() });
    }
    for n in [1, 2, 3, 8] {
        put(format!("inside a pool of {n} threads"), Around { at: Where::Pool(n), ..base.clone() });
    }
    for z in [c"1", c"2", c"3", c"8"] {
        put(format!("the global pool, RAYON_NUM_THREADS={z:?}"), Around { s: env::Script { var: Some(z), ..REAL }, at: Where::Global, ..base.clone() });
    }
    for n in [1, 2, 5] {
        put(format!("the global pool on {n} processors"), Around { s: env::Script { cores: n, ..REAL }, at: Where::Global, ..base.clone() });
    }
    for n in [16, 32, 48, 64, 4096, 1 << 20] {
        put(format!("{n} bytes of the heap in use"), Around { heap: n, ..base.clone() });
        put(format!("{n} bytes of the stack in use"), Around { stack: n, ..base.clone() });
    }
    v
}
#[inline(never)]
fn deeper(n: usize, f: &mut dyn FnMut()) {
    let pad = std::hint::black_box([0u8; 16]);
    if n <= 16 {
        f()
    } else {
        deeper(n.saturating_sub(64), f)
    }
    std::hint::black_box(pad);
}
/// Every call in every one of the surroundings, each time as the first call of a process.
fn around(name: &str, lab: &Arc<Lab>, pick: Vec<u32>, conf: bool) -> Part {
    let lab = lab.clone();
    let all = surroundings();
    let k = all.len();
    part(name, &format!("{} calls, each in {k} surroundings: number of processors and threads, answers to questions for environment variables, clock, system randomness, thread and pool, memory in use; against the plain call", pick.len()), k as u64, move |i, c| {
        let a = &all[i as usize];
        let base = lab.base()?;
        let got = forked(pick.len(), &|j| {
            let op = &lab.ops[pick[j] as usize];
            let slot = slot();
            if a.heap > 0 {
                for n in 1..4 {
                    std::mem::forget(std::hint::black_box(vec![1u8; a.heap * n]));
                }
            }
            if a.bare {
                unsafe { libc::clearenv() };
                let _ = std::env::set_current_dir("/");
            }
            let run = || {
                set_slot(slot);
                let mut r = 0;
                deeper(a.stack, &mut || r = op.run());
                r
            };
            let r = std::thread::scope(|s| {
                s.spawn(|| {
                    let pool = match a.at {
                        Where::Pool(n) => Some(rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool")),
                        _ => None,
                    };
                    if let Where::Inline(n) = a.at {
                        rayon_core::mc::set_hook(Some(Box::leak(Box::new(rayon_core::mc::Inline(n)))), false);
                    }
                    env::act(a.s);
                    let r = match &pool {
                        Some(p) => p.install(run),
                        None => run(),
                    };
                    std::mem::forget(pool);
                    r
                })
                .join()
            });
            let mut b = r.unwrap_or(2).to_le_bytes().to_vec();
            for n in [&env::VARS, &env::CORES, &env::TIMES, &env::RANDOMS] {
                b.push(n.load(Relaxed).min(255) as u8);
            }
            b
        });
        for (j, r) in got.into_iter().enumerate() {
            let o = pick[j] as usize;
            let b = r.map_err(|m| format!("{}: {m} ({})", lab.ops[o].name, a.name))?;
            c.st();
            c.tr(1);
            c.tagn("calls in other surroundings", 1);
            if conf {
                c.conf += 1;
            }
            for (n, t) in b[8..12].iter().zip(["calls that ask for environment variables", "calls that ask for the number of processors", "calls that ask for the time", "calls that ask for system randomness"]) {
                c.tagn(t, (*n > 0) as u64);
            }
            if b[..8] != base[o].to_le_bytes() {
                return Err(format!("{} gives another result under these conditions: {}", lab.ops[o].name, a.name));
            }
        }
        Ok(())
    })
    .need(&["calls in other surroundings"])
    .single()
}
pub fn parts(t: Tier) -> Vec<Part> {
    let l5 = Lab::new(menu::<E5>(true, false));
    let lb = Lab::new(menu::<ToyB>(true, true));
    let lm = {
        let mut v = menu::<E3>(false, true);
        v.extend(menu::<E5>(false, true));
        v.extend(menu::<ToyB>(false, true));
        v.extend(menu::<Bls>(false, true).into_iter().filter(|o| !o.name.contains("prove") || o.name.contains("1x1")));
        Lab::new(v)
    };
    let lc = Lab::new(menu::<Bls>(false, true));
    let mut v = vec![];
    let all = |l: &Arc<Lab>| (0..l.ops.len() as u32).collect::<Vec<_>>();
    let core = |l: &Arc<Lab>| {
        named(&l.ops, |n| {
            ["verify Ppe 1x1 (11) honest", "verify M1 1x1 (11) honest", "verify Quad 1x1 (11) honest", "verify M2 1x1 (11) coordinate 3 ", "commit_and_prove Ppe 1x1 (21) base", "commit_and_prove Quad 1x1 (21) other",
             "prove twice M1 1x1 (21) base", "commit side 0 scalar false single true base", "commit side 1 scalar true single false zero", "generate_crs stream 0", "left_mul parallel of Com1 base",
             "wrong dimension", "decode statement Ppe variant 0", "embedding 3 base", "pairing_sum base", "verify Ppe 2x2 (12) honest", "extra theta"]
                .iter()
                .any(|s| n.contains(s))
        })
    };
    v.push(words("pairs-p5", &l5, all(&l5), 2, 20000));
    v.push(words("pairs-255", &lb, all(&lb), 2, 20000));
    v.push(words("pairs-engines", &lm, spread(&lm.ops, t.q(120, 400)), 2, 1500));
    v.push(words("triples-p5", &l5, spread(&l5.ops, t.q(100, 160)), 3, 10000));
    let c5 = core(&l5);
    v.push(words("triples-core-p5", &l5, c5.clone(), 3, 1000));
    v.push(words("quadruples-p5", &l5, c5.iter().copied().step_by(1).collect(), 4, 10000));
    v.push(words("quintuples-p5", &l5, c5.iter().copied().step_by(t.q(2, 1)).collect(), 5, 10000));
    v.push(pairs("fresh-pairs-p5", &l5, spread(&l5.ops, t.q(70, 400))));
    v.push(pairs("fresh-pairs-core", &l5, c5.clone()));
    v.push(in_place::<ToyB>("in-place", 2, 2));
    const ALL: [usize; CALLS] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
    v.push(alike::<ToyB>("alike-one", 2, 1, false, &ALL));
    v.push(alike::<ToyB>("alike-two", 1, 1, true, &ALL));
    v.push(alike::<Bls>("alike-bls", 1, 1, false, &[0, 1, 7, 11, 12]));
    if t == Tier::Thorough {
        v.push(alike::<E5>("alike-one-p5", 2, 2, false, &ALL));
        v.push(alike::<ToyB>("alike-one-2x2", 2, 2, false, &ALL));
        v.push(alike::<ToyB>("alike-two-2x1", 2, 1, true, &ALL));
        v.push(alike::<Bls>("alike-two-bls", 1, 1, true, &[0, 1, 7, 11, 12]));
        v.push(in_place::<E5>("in-place-p5", 3, 2));
        v.push(in_place::<ToyB>("in-place-1x3", 1, 3));
    }
    v.push(repeats("repeat-p5", &l5, c5.clone(), t.q(66_000, 300_000)));
    v.push(repeats("repeat-255", &lb, spread(&lb.ops, 40), t.q(5_000, 70_000)));
    v.push(around("surroundings", &lb, all(&lb), false));
    let k5 = Lab::new(bulk::<E5>(4));
    v.push(around("surroundings-bulk", &k5, all(&k5), false));
    let kb = Lab::new(bulk::<ToyB>(t.q(2, 3)));
    v.push(around("surroundings-bulk-255", &kb, all(&kb), false));
    v.push(words("pairs-bulk", &k5, all(&k5), 2, 2000));
    let cb = core(&lc);
    v.push(around("surroundings-bls", &lc, if t == Tier::Quick { cb.iter().copied().step_by(3).collect() } else { all(&lc) }, true));
    if t == Tier::Thorough {
        v.push(around("surroundings-p5", &l5, all(&l5), false));
    }
    let mut p = words("pairs-bls", &lc, if t == Tier::Quick { cb.iter().copied().collect() } else { all(&lc) }, 2, t.q(60, 400));
    let inner = p.f;
    p.f = Box::new(move |i, c| {
        let before = c.tags.get("2-call histories").copied().unwrap_or(0);
        inner(i, c)?;
        c.conf += c.tags["2-call histories"] - before;
        Ok(())
    });
    v.push(p);
    v.push(repeats("repeat-bls", &lc, cb.iter().copied().step_by(4).collect(), t.q(60, 1500)));
    v
}
