//! Exhaustive exploration of indexed case spaces on all cores, with replay, watchdog and evidence.
use crate::mcsched::INLINE;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn q<T>(self, quick: T, thorough: T) -> T {
        if self == Tier::Quick {
            quick
        } else {
            thorough
        }
    }
}

/// Per-worker counters.
#[derive(Default)]
pub struct Cnt {
    pub states: u64,
    pub trans: u64,
    pub conf: u64,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: Vec<String>,
}
impl Cnt {
    pub fn st(&mut self) {
        self.states += 1
    }
    pub fn tr(&mut self, n: u64) {
        self.trans += n
    }
    pub fn tag(&mut self, s: &str) {
        self.tagn(s, 1)
    }
    pub fn tagn(&mut self, s: &str, n: u64) {
        if let Some(x) = self.tags.get_mut(s) {
            *x += n;
        } else {
            self.tags.insert(s.into(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f())
        }
    }
    fn merge(&mut self, o: Cnt) {
        self.states += o.states;
        self.trans += o.trans;
        self.conf += o.conf;
        for (k, v) in o.tags {
            *self.tags.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s)
            }
        }
        for s in o.known {
            if !self.known.contains(&s) {
                self.known.push(s)
            }
        }
    }
}

pub type CaseFn = Box<dyn Fn(u64, &mut Cnt) -> Result<(), String> + Sync + Send>;
pub struct Part {
    pub name: String,
    pub about: String,
    pub n: u64,
    /// run on the main thread only (parts that fork or schedule threads themselves)
    pub single: bool,
    /// tags that must have been counted at least once, or the exploration was vacuous
    pub need: Vec<&'static str>,
    pub f: CaseFn,
}
pub fn part(name: &str, about: &str, n: u64, f: impl Fn(u64, &mut Cnt) -> Result<(), String> + Sync + Send + 'static) -> Part {
    Part { name: name.into(), about: about.into(), n, single: false, need: vec![], f: Box::new(f) }
}
impl Part {
    pub fn need(mut self, t: &[&'static str]) -> Self {
        self.need = t.to_vec();
        self
    }
    pub fn single(mut self) -> Self {
        self.single = true;
        self
    }
}

// ---- shared with the supervising parent process: what each worker is doing ----
pub const SLOTS: usize = 64;
#[repr(C)]
pub struct Slot {
    pub part: AtomicU64,
    pub index: AtomicU64,
    pub beat: AtomicU64,
    pub inlib: AtomicU64,
    pub hang: AtomicU64,
}
static mut SHARED: *const Slot = std::ptr::null();
pub fn shared() -> &'static [Slot] {
    unsafe { std::slice::from_raw_parts(SHARED, SLOTS) }
}
pub fn init_shared() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SLOTS * std::mem::size_of::<Slot>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHARED = p as *const Slot;
    }
}
thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
pub fn slot() -> usize {
    SLOT.with(|s| s.get())
}
pub fn set_slot(i: usize) {
    SLOT.with(|s| s.set(i))
}
#[inline]
pub fn enter() {
    let i = SLOT.with(|s| s.get());
    if i < SLOTS {
        let s = &shared()[i];
        s.beat.store(s.beat.load(Relaxed).wrapping_add(1), Relaxed);
        s.inlib.store(s.inlib.load(Relaxed) + 1, Relaxed);
    }
}
#[inline]
pub fn leave() {
    let i = SLOT.with(|s| s.get());
    if i < SLOTS {
        let s = &shared()[i];
        s.inlib.store(s.inlib.load(Relaxed) - 1, Relaxed);
    }
}

pub struct Report {
    pub cnt: Cnt,
    pub exhaustive: bool,
    pub parts: Vec<(String, String, u64, u64, f64)>,
    pub violation: Option<Viol>,
    pub vacuous: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub part: usize,
    pub index: u64,
    pub msg: String,
}

/// Seconds without any progress inside a library call before it counts as not returning.
pub const HANG_S: u64 = 100;

pub fn explore(parts: &[Part], budget: Duration, threads: usize) -> Report {
    let start = Instant::now();
    let mut rep = Report { cnt: Cnt::default(), exhaustive: true, parts: vec![], violation: None, vacuous: vec![] };
    for (pi, p) in parts.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let viol: Mutex<Option<Viol>> = Mutex::new(None);
        let total: Mutex<Cnt> = Mutex::new(Cnt::default());
        let chunk = (p.n / (threads as u64 * 64)).clamp(1, 4096);
        let work = |slot: usize| {
            rayon_core::mc::set_hook(Some(&INLINE), false);
            set_slot(slot);
            let sh = &shared()[slot];
            sh.part.store(pi as u64, Relaxed);
            let mut c = Cnt::default();
            'o: loop {
                let a = next.fetch_add(chunk, Relaxed);
                if a >= p.n {
                    break;
                }
                for i in a..(a + chunk).min(p.n) {
                    if stop.load(Relaxed) || start.elapsed() > budget {
                        break 'o;
                    }
                    sh.index.store(i, Relaxed);
                    let r = (p.f)(i, &mut c);
                    done.fetch_add(1, Relaxed);
                    if let Err(msg) = r {
                        let mut v = viol.lock().unwrap();
                        if v.as_ref().map_or(true, |o| o.index > i) {
                            *v = Some(Viol { part: pi, index: i, msg });
                        }
                        stop.store(true, Relaxed);
                        break 'o;
                    }
                }
            }
            total.lock().unwrap().merge(c);
            set_slot(usize::MAX);
        };
        if p.single {
            work(0);
        } else {
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads)
                    .map(|t| {
                        let w = &work;
                        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || w(t)).unwrap()
                    })
                    .collect();
                for h in hs {
                    if let Err(e) = h.join() {
                        std::panic::resume_unwind(e)
                    }
                }
            });
        }
        let c = total.into_inner().unwrap();
        let d = done.load(Relaxed);
        rep.violation = viol.into_inner().unwrap();
        if d < p.n {
            rep.exhaustive = false;
        } else if rep.violation.is_none() {
            for n in &p.need {
                if c.tags.get(*n).copied().unwrap_or(0) == 0 {
                    rep.vacuous.push(format!("{}: nothing counted under '{}'", p.name, n));
                }
            }
        }
        rep.cnt.merge(c);
        rep.parts.push((p.name.clone(), p.about.clone(), p.n, d, t0.elapsed().as_secs_f64()));
        if rep.violation.is_some() {
            break;
        }
    }
    rep
}

// ---- mixed-radix case indices ----
pub struct Ix(pub u64);
impl Ix {
    pub fn take(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    pub fn bit(&mut self) -> bool {
        self.take(2) == 1
    }
    pub fn f<F: ark_ff::PrimeField>(&mut self, p: u64) -> F {
        F::from(self.take(p))
    }
    pub fn fs<F: ark_ff::PrimeField>(&mut self, p: u64, n: usize) -> Vec<F> {
        (0..n).map(|_| self.f(p)).collect()
    }
    pub fn p2<F: ark_ff::PrimeField>(&mut self, p: u64) -> [F; 2] {
        [self.f(p), self.f(p)]
    }
    pub fn p2s<F: ark_ff::PrimeField>(&mut self, p: u64, n: usize) -> Vec<[F; 2]> {
        (0..n).map(|_| self.p2(p)).collect()
    }
    pub fn mat<F: ark_ff::PrimeField>(&mut self, p: u64, m: usize, n: usize) -> Vec<Vec<F>> {
        (0..m).map(|_| self.fs(p, n)).collect()
    }
}
pub fn pw(b: u64, e: usize) -> u64 {
    b.checked_pow(e as u32).expect("case space too large")
}
