//! C11: every schedule of the work-stealing pool gives the sequential result.
use super::stateless::*;
use super::*;
use crate::mcsched::{advance, Sched, INLINE};
use rayon_core::mc::Inline;
use crate::run::{enter, leave};
use groth_sahai::{Com1, Com2, Mat};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Job = Arc<dyn Fn() -> u64 + Send + Sync>;

/// Idle pools of `w` workers and `c` callers.
static POOLS: Mutex<BTreeMap<(usize, usize), Vec<&'static Sched>>> = Mutex::new(BTreeMap::new());
fn pool(w: usize, c: usize) -> &'static Sched {
    let p = POOLS.lock().unwrap().entry((w, c)).or_default().pop();
    p.unwrap_or_else(|| Sched::new(w, c))
}
fn give(w: usize, c: usize, s: &'static Sched) {
    POOLS.lock().unwrap().entry((w, c)).or_default().push(s)
}

/// One exhaustive exploration: these calls, made at the same time by callers outside a pool of `w` workers.
struct Case {
    ops: Vec<Arc<Op>>,
    w: usize,
    split: usize,
    fine: bool,
    /// preemptions, deviations
    bound: (u32, u32),
    cap: u64,
    secs: u64,
}
impl Case {
    fn name(&self) -> String {
        let n: Vec<&str> = self.ops.iter().map(|o| o.name.as_str()).collect();
        format!("{} on {} workers", n.join(" || "), self.w)
    }
    fn explore(&self, c: &mut Cnt) -> Result<(), String> {
        let want: Vec<u64> = self.ops.iter().map(|o| o.run()).collect();
        let jobs: Vec<Job> = self
            .ops
            .iter()
            .map(|o| {
                let o = o.clone();
                Arc::new(move || o.run()) as Job
            })
            .collect();
        let s = pool(self.w, jobs.len());
        let t0 = Instant::now();
        let mut prefix: Vec<u16> = vec![];
        let mut n = 0u64;
        let mut steals = 0;
        let mut deepest = 0;
        loop {
            enter();
            let x = s.run(&jobs, &prefix, self.fine, true, self.split);
            leave();
            n += 1;
            c.st();
            c.tr(x.trace.len() as u64 + 1);
            steals += x.steals;
            deepest = deepest.max(x.trace.len());
            let sched: Vec<u16> = x.trace.iter().map(|t| t.took).collect();
            if x.deadlock {
                return Err(format!("deadlock: {} never returns under schedule {sched:?}", self.name()));
            }
            for i in 0..jobs.len() {
                if x.out[i] != Some(want[i]) {
                    return Err(format!(
                        "{}: {} {} under schedule {sched:?}",
                        self.name(),
                        self.ops[i].name,
                        if x.out[i] == Some(1) { "panics, but not sequentially," } else { "gives another result than sequentially" }
                    ));
                }
            }
            if x.diverged {
                c.tag("schedules not reproduced exactly");
            }
            if x.foreign {
                c.tag("schedules with a caller asleep on a lock");
            }
            match advance(&x.trace, self.bound) {
                None => break,
                Some(p) => prefix = p,
            }
            if n >= self.cap || t0.elapsed() > Duration::from_secs(self.secs) {
                c.tag(crate::CUT);
                break;
            }
        }
        give(self.w, jobs.len(), s);
        c.tagn("schedules", n);
        c.tagn("stolen or injected halves", steals);
        if n > 1 {
            c.tag("cases with more than one schedule");
        }
        c.sample(|| format!("{}: {n} schedules of at most {deepest} decisions, {steals} steals", self.name()));
        if std::env::var_os("GSMC_SCHED").is_some() {
            eprintln!("{n:8} {deepest:5} {:6.2} {}", t0.elapsed().as_secs_f64(), self.name());
        }
        Ok(())
    }
}
fn cases(name: &str, about: &str, v: Vec<Case>) -> Part {
    part(name, about, v.len() as u64, move |i, c| v[i as usize].explore(c))
}

// ---------------------------------------------------------------- the explorer itself
/// Runs all schedules of harness code whose possible outcomes are known, to show that the explorer reaches
/// every one of them.
fn self_test() -> Part {
    use rayon::prelude::*;
    part("self-test", "the explorer on twelve small programs of its own: all outcomes of unordered collections (parallel iterators, scopes, threads), of lost updates and torn caches, of locks held over a join and of waiting are reached", 12, |i, c| {
        let run = |job: Job, w: usize, bound: (u32, u32)| -> (std::collections::BTreeSet<u64>, bool, u64) {
            let (w, bound) = match std::env::var("GSMC_SELF").ok().map(|v| v.split(',').map(|x| x.parse::<u32>().unwrap()).collect::<Vec<_>>()) {
                Some(v) if v[0] == i as u32 => (v[1] as usize, (v[2], v[3])),
                _ => (w, bound),
            };
            let t0 = Instant::now();
            let s = pool(w, 1);
            let (mut prefix, mut seen, mut n) = (vec![], std::collections::BTreeSet::new(), 0);
            loop {
                let x = s.run(&[job.clone()], &prefix, true, true, 2);
                n += 1;
                if x.deadlock {
                    return (seen, true, n);
                }
                seen.insert(x.out[0].unwrap_or(u64::MAX));
                match advance(&x.trace, bound) {
                    Some(p) => prefix = p,
                    None => break,
                }
            }
            give(w, 1, s);
            if std::env::var_os("GSMC_SCHED").is_some() {
                eprintln!("self-test {i}: {n} schedules, {} outcomes, {:?}", seen.len(), t0.elapsed());
            }
            (seen, false, n)
        };
        let bad = |m: &str| Err(format!("harness: the explorer misses schedules: {m}"));
        let n = match i {
            0 => {
                // order of completion of three tasks on three workers
                let job: Job = Arc::new(|| {
                    let l = Mutex::new(vec![]);
                    (0..3usize).into_par_iter().with_max_len(1).for_each(|q| l.lock().unwrap().push(q));
                    l.into_inner().unwrap().iter().fold(0, |a, q| a * 3 + *q as u64)
                });
                let (seen, dead, n) = run(job, 3, (2, 8));
                if seen.len() != 6 || dead {
                    return bad(&format!("{} orders of completion", seen.len()));
                }
                n
            }
            1 => {
                // a counter read and written back in two steps
                let job: Job = Arc::new(|| {
                    let k = std::sync::atomic::AtomicU64::new(0);
                    (0..2usize).into_par_iter().with_max_len(1).for_each(|_| {
                        let v = k.load(std::sync::atomic::Ordering::SeqCst);
                        k.store(v + 1, std::sync::atomic::Ordering::SeqCst);
                    });
                    k.into_inner()
                });
                let (seen, dead, n) = run(job, 2, (2, 8));
                if seen != [1, 2].into() || dead {
                    return bad(&format!("counter values {seen:?}"));
                }
                n
            }
            2 => {
                // a lock held while waiting for a stolen half, whose thief wants the lock
                let job: Job = Arc::new(|| {
                    let l = Mutex::new(0u64);
                    (0..4usize).into_par_iter().with_max_len(1).for_each(|_| {
                        let mut g = l.lock().unwrap();
                        (0..2usize).into_par_iter().with_max_len(1).for_each(|_| rayon_core::mc::point());
                        *g += 1;
                    });
                    l.into_inner().unwrap()
                });
                let (_, dead, n) = run(job, 3, (3, 8));
                if !dead {
                    return bad("no deadlock");
                }
                n
            }
            4 => {
                // order of completion of the tasks of a scope, started outside and inside the pool
                let job: Job = Arc::new(|| {
                    let l = Mutex::new(vec![]);
                    rayon::scope(|s| {
                        for q in 0..3u64 {
                            let l = &l;
                            s.spawn(move |s| {
                                l.lock().unwrap().push(q);
                                if q == 1 {
                                    s.spawn(|_| l.lock().unwrap().push(3));
                                }
                            });
                        }
                    });
                    rayon::in_place_scope(|s| s.spawn(|_| l.lock().unwrap().push(4)));
                    l.into_inner().unwrap().iter().fold(0, |a, q| a * 5 + q)
                });
                let (seen, dead, n) = run(job, 3, (1, 6));
                // four tasks, 1 before 3
                if dead || seen.len() != 12 {
                    return bad(&format!("{} orders of the tasks of a scope, deadlock {dead}", seen.len()));
                }
                n
            }
            5 => {
                // threads of the program's own
                let job: Job = Arc::new(|| {
                    let l = Mutex::new(vec![]);
                    std::thread::scope(|s| {
                        for q in 0..3u64 {
                            let l = &l;
                            s.spawn(move || l.lock().unwrap().push(q));
                        }
                    });
                    l.into_inner().unwrap().iter().fold(0, |a, q| a * 3 + q)
                });
                let (seen, dead, n) = run(job, 1, (1, 5));
                if dead || seen.len() != 6 {
                    return bad(&format!("{} orders of three threads, deadlock {dead}", seen.len()));
                }
                n
            }
            6 => {
                // a result sent by a thread that may or may not be done
                let job: Job = Arc::new(|| {
                    let k = Arc::new(std::sync::atomic::AtomicU64::new(0));
                    let k2 = k.clone();
                    let h = std::thread::spawn(move || k2.store(1, std::sync::atomic::Ordering::Release));
                    let early = k.load(std::sync::atomic::Ordering::Acquire);
                    h.join().unwrap();
                    early * 2 + k.load(std::sync::atomic::Ordering::Acquire)
                });
                let (seen, dead, n) = run(job, 1, (2, 6));
                if dead || seen != [1, 3].into() {
                    return bad(&format!("early reads {seen:?}, deadlock {dead}"));
                }
                n
            }
            7 => {
                // waiting in a loop for another task
                let job: Job = Arc::new(|| {
                    let k = std::sync::atomic::AtomicBool::new(false);
                    rayon::join(
                        || {
                            while !k.load(std::sync::atomic::Ordering::Acquire) {
                                std::hint::spin_loop();
                            }
                        },
                        || k.store(true, std::sync::atomic::Ordering::Release),
                    );
                    7
                });
                // on one worker nobody ever sets it
                let (seen, dead, n) = run(job.clone(), 2, (1, 3));
                if dead || seen != [7].into() {
                    return bad(&format!("waiting for the other half on two workers: {seen:?}, deadlock {dead}"));
                }
                let (_, dead, m) = run(job, 1, (1, 3));
                if !dead {
                    return bad("waiting forever on one worker is not noticed");
                }
                n + m
            }
            8 => {
                // two locked sections that only together are one step
                let job: Job = Arc::new(|| {
                    let key = Mutex::new(0u64);
                    let val = Mutex::new(0u64);
                    (1..3usize).into_par_iter().with_max_len(1).for_each(|q| {
                        let q = q as u64;
                        *key.lock().unwrap() = q;
                        *val.lock().unwrap() = q;
                    });
                    let torn = *key.lock().unwrap() != *val.lock().unwrap();
                    torn as u64
                });
                let (seen, dead, n) = run(job, 2, (2, 6));
                if dead || seen != [0, 1].into() {
                    return bad(&format!("torn cache {seen:?}, deadlock {dead}"));
                }
                n
            }
            9 => {
                // two locks taken in opposite orders
                let job: Job = Arc::new(|| {
                    let (a, b) = (Mutex::new(0u64), Mutex::new(0u64));
                    rayon::join(
                        || {
                            let x = a.lock().unwrap();
                            *b.lock().unwrap() += *x;
                        },
                        || {
                            let x = b.lock().unwrap();
                            *a.lock().unwrap() += *x;
                        },
                    );
                    0
                });
                let (_, dead, n) = run(job, 2, (2, 6));
                if !dead {
                    return bad("no deadlock of two locks");
                }
                n
            }
            10 => {
                // tasks nobody waits for, seen through a channel
                let job: Job = Arc::new(|| {
                    let (tx, rx) = std::sync::mpsc::channel();
                    for q in 0..2u64 {
                        let tx = tx.clone();
                        rayon::spawn(move || tx.send(q).unwrap());
                    }
                    drop(tx);
                    rx.iter().fold(0, |a, q| a * 2 + q)
                });
                let (seen, dead, n) = run(job, 2, (1, 4));
                if dead || seen != [1, 2].into() {
                    return bad(&format!("messages {seen:?}, deadlock {dead}"));
                }
                n
            }
            11 => {
                // initialised once, whoever comes first
                let job: Job = Arc::new(|| {
                    let k = std::sync::OnceLock::new();
                    let v: Vec<u64> = (0..2usize).into_par_iter().with_max_len(1).map(|q| *k.get_or_init(|| q as u64)).collect();
                    assert_eq!(v[0], v[1]);
                    v[0]
                });
                let (seen, dead, n) = run(job, 2, (2, 6));
                if dead || seen != [0, 1].into() {
                    return bad(&format!("once {seen:?}, deadlock {dead}"));
                }
                n
            }
            _ => {
                // a lock released before joining: no deadlock, always the same sum
                let job: Job = Arc::new(|| {
                    let l = Mutex::new(0u64);
                    (0..3usize).into_par_iter().with_max_len(1).for_each(|q| {
                        let mut g = l.lock().unwrap();
                        rayon_core::mc::point();
                        *g += q as u64;
                    });
                    l.into_inner().unwrap()
                });
                let (seen, dead, n) = run(job, 3, (2, 8));
                if dead || seen != [3].into() {
                    return bad(&format!("deadlock {dead}, sums {seen:?}"));
                }
                n
            }
        };
        c.st();
        c.tr(n);
        c.tagn("schedules of the explorer's own programs", n);
        Ok(())
    })
    .single()
}
/// The same calls with every number of threads that a pool may announce, run on one thread.
fn announced<N: Eng>(name: &str, ops: Vec<Arc<Op>>) -> Part {
    static SIZES: [Inline; 20] = [
        Inline(1), Inline(2), Inline(3), Inline(4), Inline(5), Inline(6), Inline(7), Inline(8), Inline(9), Inline(10), Inline(11), Inline(12), Inline(13), Inline(16), Inline(17), Inline(24), Inline(32), Inline(48), Inline(64), Inline(128),
    ];
    part(name, &format!("{} calls with {} numbers of announced threads on {}", ops.len(), SIZES.len(), N::NAME), ops.len() as u64, move |i, c| {
        let o = &ops[i as usize];
        let want = o.run();
        for s in &SIZES {
            rayon_core::mc::set_hook(Some(s), false);
            let got = o.run();
            rayon_core::mc::set_hook(Some(&INLINE), false);
            c.st();
            c.tr(1);
            if got != want {
                return Err(format!("{} gives another result when {} threads are announced", o.name, s.0));
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- products
/// Left and right products of every shape; the expected result is the sequential product.
fn products<N: Eng>(dims: &[[usize; 3]], v: &mut Vec<Arc<Op>>) {
    fn flat<T>(m: Vec<Vec<T>>, enc: impl Fn(&[T]) -> Vec<u8>) -> Vec<u8> {
        let mut b = vec![m.len() as u8];
        for r in &m {
            b.push(r.len() as u8);
            b.extend(enc(r));
        }
        b
    }
    for d in dims {
        let [m, k, n] = *d;
        let sc = |r: usize, c: usize, s: u64| -> Vec<Vec<N::S>> { vals::<N::S>(s, r * c).chunks(c).map(|r| r.to_vec()).collect() };
        let (f, g) = (sc(m, k, 61), sc(k, n, 62));
        let c1 = |r: usize, c: usize, s: u64| -> Vec<Vec<Com1<N::E>>> {
            vals::<N::S>(s, 2 * r * c).chunks(2 * c).map(|r| r.chunks(2).map(|z| com1::<N>(&[z[0], z[1]])).collect()).collect()
        };
        let c2 = |r: usize, c: usize, s: u64| -> Vec<Vec<Com2<N::E>>> {
            vals::<N::S>(s, 2 * r * c).chunks(2 * c).map(|r| r.chunks(2).map(|z| com2::<N>(&[z[0], z[1]])).collect()).collect()
        };
        let (a1, a2, b1m, b2m) = (c1(m, k, 63), c2(m, k, 64), c1(k, n, 65), c2(k, n, 66));
        macro_rules! put {
            ($name:expr, $side:ident, $m:expr, $o:expr, $enc:expr) => {{
                let (m_, o_) = ($m.clone(), $o.clone());
                v.push(Arc::new(op(format!("{} {} {m}x{k} by {k}x{n}", N::NAME, $name), move || flat(Mat::$side(&m_, &o_, true), $enc))));
            }};
        }
        put!("scalar right product", right_mul, f, g, |r: &[N::S]| pts(r.iter().copied()));
        put!("scalar left product", left_mul, g, f, |r: &[N::S]| pts(r.iter().copied()));
        put!("Com1 right product", right_mul, a1, g, |r: &[Com1<N::E>]| b1(r));
        put!("Com1 left product", left_mul, b1m, f, |r: &[Com1<N::E>]| b1(r));
        put!("Com2 right product", right_mul, a2, g, |r: &[Com2<N::E>]| b2(r));
        put!("Com2 left product", left_mul, b2m, f, |r: &[Com2<N::E>]| b2(r));
    }
}
fn shapes(max: usize) -> Vec<[usize; 3]> {
    let mut v = vec![];
    for m in 1..=max {
        for k in 1..=max {
            for n in 1..=max {
                v.push([m, k, n]);
            }
        }
    }
    v
}
/// Library calls; `rich` adds rejected proofs, larger shapes and refused calls.
fn calls<N: Eng>(shapes: &[(usize, usize)]) -> Vec<Arc<Op>> {
    let mut v = vec![];
    let sh = Shells::<N>::new();
    for kind in KINDS {
        for (m, n) in shapes {
            verify_ops::<N>(&sh, kind, *m, *n, 11 + *m as u64 * 3 + *n as u64, false, &mut v);
            prove_ops::<N>(kind, *m, *n, 21 + *m as u64 * 3 + *n as u64, false, &mut v);
        }
    }
    v.into_iter().filter(|o| !o.name.contains("prove twice")).map(Arc::new).collect()
}
fn menu_of<N: Eng>() -> Vec<Arc<Op>> {
    menu::<N>(false, true).into_iter().map(Arc::new).collect()
}
fn pick(ops: &[Arc<Op>], names: &[&str]) -> Vec<Arc<Op>> {
    names.iter().map(|n| ops.iter().find(|o| o.name.contains(n)).unwrap_or_else(|| panic!("no operation {n}")).clone()).collect()
}
/// Calls that also run in the pool without points of their own.
fn rejected<N: Eng>() -> Vec<Arc<Op>> {
    let mut v = vec![];
    let sh = Shells::<N>::new();
    for kind in KINDS {
        let s = transcript::<N::S>(kind, 1, 1, 17);
        for i in [0, 11, 15] {
            let mut q = s.clone();
            let n = q.coords().len();
            *q.coords()[i % n] += N::S::one();
            let (k, e, sh) = (crs::<N>(&q.k), leq::<N>(&q.e), sh.clone());
            v.push(Arc::new(op(format!("{} verify {kind:?} 1x1 coordinate {i} changed", N::NAME), move || {
                let p = quiet(|| {
                    let mut p = sh.get(kind);
                    set::<N>(&mut p, kind, &q.f);
                    p
                });
                vec![e.verify(&p, &k) as u8]
            })));
        }
    }
    v
}
const CORE: &[&str] = &[
    "verify Ppe 1x1 (11) honest",
    "verify Quad 1x1 (11) honest",
    "commit_and_prove Ppe 1x1 (21) base",
    "commit_and_prove Ppe 1x1 (21) other",
    "commit_and_prove M1 1x1 (21) base",
    "commit_and_prove Quad 1x1 (21) base",
    "prove twice M2 1x1 (21) base",
    "verify M2 2x2 (12) honest",
    "verify M1 2x1 (13) honest",
    "commit side 0 scalar false single false base",
    "commit side 0 scalar true single true base",
    "commit side 1 scalar true single false base",
    "commit side 1 scalar false single true other value",
    "generate_crs stream 0",
    "generate_crs stream 1",
    "left_mul parallel of Com1 base",
    "right_mul parallel of Com2 base",
    "left_mul of Com1 with wrong dimension",
    "pairing_sum base",
    "embedding 3 base",
    "decode statement Ppe variant 0",
    "encode statement and key M1 variant 0",
];

/// The same calls on real thread pools of several sizes.
fn conformance<N: Eng>(name: &str, ops: Vec<Arc<Op>>, sizes: Vec<usize>, reps: u64, together: bool) -> Part {
    part(
        name,
        &format!("{} calls on real rayon pools of {sizes:?} threads on {}, {reps} times each", ops.len(), N::NAME),
        sizes.len() as u64,
        move |i, c| {
            let w = sizes[i as usize];
            rayon_core::mc::set_hook(Some(&INLINE), false);
            let want: Vec<u64> = ops.iter().map(|o| o.run()).collect();
            rayon_core::mc::set_hook(None, false);
            let p = rayon_core::ThreadPoolBuilder::new().num_threads(w).build().expect("pool");
            let mut res = Ok(());
            let check = |k: usize| -> Result<(), String> {
                enter();
                let got = p.install(|| ops[k].run());
                leave();
                if got == want[k] {
                    Ok(())
                } else {
                    Err(format!("{} on a real pool of {w} threads gives another result than sequentially", ops[k].name))
                }
            };
            'o: for _ in 0..reps {
                for k in 0..ops.len() {
                    res = check(k);
                    c.st();
                    c.tr(1);
                    c.conf += 1;
                    if res.is_err() {
                        break 'o;
                    }
                }
                if together {
                    let bad: Mutex<Option<String>> = Mutex::new(None);
                    std::thread::scope(|s| {
                        for q in 0..3 {
                            let (bad, ops, want, p) = (&bad, &ops, &want, &p);
                            s.spawn(move || {
                                for k in 0..ops.len() {
                                    let k = (k * (q + 1) + q) % ops.len();
                                    if p.install(|| ops[k].run()) != want[k] {
                                        *bad.lock().unwrap() = Some(format!("{} next to other calls on a real pool of {w} threads gives another result than sequentially", ops[k].name));
                                    }
                                }
                            });
                        }
                    });
                    c.st();
                    c.conf += 3 * ops.len() as u64;
                    if let Some(m) = bad.into_inner().unwrap() {
                        res = Err(m);
                        break 'o;
                    }
                }
            }
            rayon_core::mc::set_hook(Some(&INLINE), false);
            res
        },
    )
}

pub fn parts(t: Tier) -> Vec<Part> {
    let mut v = vec![];
    v.push(self_test());
    let case = |ops: Vec<Arc<Op>>, w: usize, split: usize, fine: bool, bound: (u32, u32)| Case { ops, w, split, fine, bound, cap: t.q(100_000, 4_000_000), secs: t.q(20, 240) };
    // products alone
    let mut pr = vec![];
    products::<E5>(&shapes(4), &mut pr);
    let mut l = vec![];
    for (i, o) in pr.iter().enumerate() {
        let [m, k, n] = shapes(4)[i / 6];
        for w in 1..=3usize {
            let b = match w {
                3 if m * n <= 6 && k <= 2 => t.q((3, 5), (4, 8)),
                3 => t.q((2, 5), (3, 12)),
                _ => t.q((3, 6), (3, 12)),
            };
            l.push(case(vec![o.clone()], w, 2, false, b));
        }
    }
    v.push(cases("products-joins", "one parallel product, preemptions where halves are pushed, finished and stolen", l));
    let mut big = vec![];
    products::<E5>(&[[4, 1, 4], [1, 4, 4], [4, 4, 1], [8, 1, 1], [1, 1, 8], [2, 1, 6], [5, 2, 2], [16, 1, 1]], &mut big);
    let mut l = vec![];
    for o in &big {
        l.push(case(vec![o.clone()], 3, 4, false, t.q((2, 4), (3, 6))));
        l.push(case(vec![o.clone()], 2, 8, false, t.q((2, 4), (3, 6))));
    }
    v.push(cases("products-split", "long rows and columns, split for 4 and 8 threads", l));
    let mut sm = vec![];
    products::<E3>(&[[1, 1, 2], [2, 1, 1], [2, 1, 2], [2, 2, 1], [1, 2, 2], [2, 2, 2]], &mut sm);
    let mut l = vec![];
    for o in &sm {
        l.push(case(vec![o.clone()], 2, 2, true, t.q((3, 6), (4, 8))));
    }
    v.push(cases("products-fine", "one parallel product, preemptions at every group operation", l));
    // single calls
    let ca = calls::<E5>(t.q(&[(1, 1), (2, 1), (2, 2)], &[(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3)]));
    let mut l = vec![];
    for o in &ca {
        l.push(case(vec![o.clone()], 2, 2, false, t.q((2, 3), (2, 6))));
        l.push(case(vec![o.clone()], 3, 3, false, t.q((2, 3), (2, 4))));
    }
    v.push(cases("calls-joins", "prove and verify, one caller, preemptions where halves are pushed, finished and stolen", l));
    let cf = calls::<E3>(t.q(&[(1, 1), (2, 1)], &[(1, 1), (2, 1), (1, 2), (2, 2)]));
    let mut l = vec![];
    for o in &cf {
        l.push(case(vec![o.clone()], 2, 2, true, t.q((2, 3), (2, 4))));
    }
    v.push(cases("calls-fine", "prove and verify, one caller, preemptions at every group operation and draw", l));
    // concurrent callers
    let mut me = menu_of::<E5>();
    me.extend(rejected::<E5>());
    let core = pick(&me, CORE);
    let mut l = vec![];
    for i in 0..core.len() {
        for j in 0..=i {
            let heavy = core[i].name.contains("prove") && core[j].name.contains("prove");
            l.push(case(vec![core[i].clone(), core[j].clone()], 2, 2, false, if heavy { t.q((1, 2), (2, 4)) } else { t.q((1, 3), (2, 5)) }));
            l.push(case(vec![core[i].clone(), core[j].clone()], 2, 2, true, if heavy { t.q((1, 1), (1, 2)) } else { t.q((1, 2), (2, 2)) }));
        }
    }
    v.push(cases("pairs", "every two of the core calls at the same time, with and without preemptions inside tasks", l));
    let rej = rejected::<E5>();
    let mut l = vec![];
    for r in &rej {
        for o in [&core[0], &core[1], &core[2], r] {
            l.push(case(vec![r.clone(), o.clone()], 2, 2, true, t.q((1, 2), (2, 2))));
        }
    }
    v.push(cases("rejections", "refused proofs next to other calls", l));
    let few: Vec<Arc<Op>> = core.iter().step_by(t.q(3, 2)).cloned().collect();
    let mut l = vec![];
    for i in 0..few.len() {
        for j in 0..=i {
            for k in 0..=j {
                l.push(case(vec![few[i].clone(), few[j].clone(), few[k].clone()], 2, 2, false, t.q((1, 2), (2, 4))));
            }
        }
    }
    v.push(cases("triples", "three calls at the same time", l));
    // numbers of threads
    let mut an = calls::<E5>(&[(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3), (4, 4), (5, 3), (3, 5), (6, 6), (7, 2), (2, 7), (8, 8), (9, 1), (1, 9), (16, 3), (3, 17)]);
    an.extend(me.iter().cloned());
    products::<E7>(&shapes(t.q(6, 9)), &mut an);
    products::<E7>(&[[8, 8, 8], [9, 9, 9], [16, 2, 3], [17, 3, 2], [2, 16, 3], [3, 33, 2], [2, 3, 17], [64, 1, 2], [65, 2, 1], [1, 65, 1], [2, 64, 2], [1, 2, 65], [100, 3, 3]], &mut an);
    v.push(announced::<E5>("announced", an));
    // real pools
    v.push(conformance::<E5>("real-pools", me.clone(), vec![1, 2, 3, 4, 5, 6, 7, 8, 12, 16], t.q(12, 200), true).single());
    let cb = calls::<Bls>(t.q(&[(2, 2)], &[(1, 1), (2, 1), (1, 2), (2, 2), (3, 3)]));
    v.push(conformance::<Bls>("real-pools-bls", cb, vec![1, 2, 3, 4, 8], t.q(2, 20), true).single());
    v
}
