//! A controlled work-stealing pool: every decision of rayon's `join` protocol (who runs next, who steals
//! what, where a running task is interrupted) is a choice that the explorer enumerates.
//!
//! Workers and callers are OS threads, but exactly one of them runs at any time; the others wait for
//! the token.  A thread that waits for a lock (or any other futex) or yields hands the token on: the
//! futex system calls of the code under test come here instead of going to the kernel.  Threads that the
//! code under test creates become threads of the model, and every atomic operation in it is a scheduling
//! point (see mc/atoms).  The protocol is rayon-core's: `join` pushes its second half on the worker's own deque
//! and runs the first; afterwards it pops the second half again, or, if that was stolen, works on
//! older jobs of its own deque, then on stolen and injected jobs, until the thief is done.
use rayon_core::mc::{Hook, Inline, Task};
use libc::{c_int, c_long};
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

pub static INLINE: Inline = Inline(1);

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stat {
    Off,
    Ready,
    Idle,
    /// in `join`, the pushed half was stolen
    Waiting(usize),
    /// outside the pool, waiting for an injected job
    Injected(usize),
    Done,
    /// asleep on a futex (a lock, condition variable, ... of the code under test)
    Futex,
    /// gave up the processor
    Yielded,
    /// waiting for the thread in that slot to end
    Join(usize),
    /// asleep or spinning on something the scheduler does not know (a lock of the code under test)
    Foreign,
}
#[derive(Clone, Copy)]
enum Act {
    Go,
    Run(usize, Task),
}
#[derive(Clone, Copy, PartialEq)]
enum From {
    None,
    Own,
    Steal(usize),
    Inject,
}
#[derive(Clone, Copy, Debug)]
pub struct Choice {
    pub n: u16,
    pub took: u16,
    /// a preemption if anything but the first option is taken
    pub costs: bool,
}
struct State {
    cur: Option<usize>,
    stat: Vec<Stat>,
    grant: Vec<Option<Act>>,
    deque: Vec<VecDeque<(usize, Task)>>,
    inject: VecDeque<(usize, Task)>,
    done: Vec<bool>,
    trace: Vec<Choice>,
    prefix: Vec<u16>,
    diverged: bool,
    /// woken before it went to sleep
    woken: Vec<bool>,
    foreign: bool,
    over: bool,
    dead: bool,
    progress: u64,
    steals: u64,
    jobs: Vec<Option<Arc<dyn Fn() -> u64 + Send + Sync>>>,
    out: Vec<Option<u64>>,
    tids: Vec<i32>,
    /// has run something in this execution; workers that have not are interchangeable
    used: Vec<bool>,
    fine: bool,
    symmetric: bool,
    split: usize,
    /// the threads created by the code under test, by slot
    pthread: Vec<u64>,
    /// reads since this thread last did something else
    reads: Vec<u32>,
    /// decisions since something other than giving up the processor happened
    idling: u64,
}
/// Slots for threads that the code under test creates.
const KIDS: usize = 12;
pub struct Sched {
    w: usize,
    c: usize,
    m: Mutex<State>,
    cv: Vec<Condvar>,
    main: Condvar,
}
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    /// the pool this thread belongs to, while it runs code under test
    static CONTROLLED: Cell<Option<&'static Sched>> = const { Cell::new(None) };
    /// this thread (which belongs to no pool) is running the scheduler's code
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
struct Busy(bool);
fn busy() -> Busy {
    Busy(BUSY.with(|b| b.replace(true)))
}
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.with(|b| b.set(self.0));
    }
}
fn me() -> usize {
    ME.with(|m| m.get())
}
/// The scheduler's own code: its futexes are the kernel's business.
struct Inside(Option<&'static Sched>);
fn inside() -> Inside {
    Inside(CONTROLLED.with(|c| c.take()))
}
fn outside(s: &'static Sched) -> Inside {
    Inside(CONTROLLED.with(|c| c.replace(Some(s))))
}
impl Drop for Inside {
    fn drop(&mut self) {
        CONTROLLED.with(|c| c.set(self.0));
    }
}
/// Controlled threads asleep on a futex: address, pool, thread.
static ASLEEP: Mutex<Vec<(usize, &'static Sched, usize)>> = Mutex::new(Vec::new());
static ASLEEP_N: AtomicUsize = AtomicUsize::new(0);

unsafe fn raw_syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
/// Takes the place of libc's function of this name in this program, so that the standard library's locks,
/// condition variables, barriers and parking come here.
#[no_mangle]
unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_futex {
        let op = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            if let Some(s) = controlled() {
                let r = if d != 0 {
                    // a timed wait: let the others run, then the time is up
                    let _i = inside();
                    s.pass(me(), Stat::Yielded);
                    libc::ETIMEDOUT
                } else {
                    s.futex_wait(a as usize, c as u32)
                };
                if r != 0 {
                    *libc::__errno_location() = r;
                    return -1;
                }
                return 0;
            }
        } else if (op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET) && ASLEEP_N.load(SeqCst) > 0 {
            let free = ME.try_with(|m| m.get()).is_ok() && ((me() == usize::MAX && !BUSY.with(|b| b.get())) || CONTROLLED.with(|c| c.get()).is_some());
            if free {
                futex_wake(a as usize, c.max(0) as usize);
            }
        }
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}
fn futex_wake(addr: usize, mut n: usize) {
    let (_i, _b) = (inside(), busy());
    let mut woken = vec![];
    {
        let mut l = ASLEEP.lock().unwrap_or_else(|e| e.into_inner());
        l.retain(|x| {
            if x.0 == addr && n > 0 {
                n -= 1;
                woken.push((x.1, x.2));
                return false;
            }
            true
        });
        ASLEEP_N.store(l.len(), SeqCst);
    }
    for (s, t) in woken {
        let mut g = s.lock();
        g.progress += 1;
        if g.stat[t] == Stat::Futex {
            g.stat[t] = Stat::Ready;
            if g.cur.is_none() {
                s.main.notify_one();
            }
        } else {
            g.woken[t] = true;
        }
    }
}
/// As above: giving up the processor lets the other threads run.
#[no_mangle]
unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(s) = controlled() {
        let _i = inside();
        s.pass(me(), Stat::Yielded);
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}
/// Before every atomic operation of the code under test.
fn atomic(_addr: usize, reads: bool) {
    if let Some(s) = controlled() {
        let _i = inside();
        let t = me();
        let spins = {
            let mut g = s.lock();
            g.reads[t] = if reads { g.reads[t] + 1 } else { 0 };
            g.reads[t] > 100
        };
        // whoever only reads, and reads on, waits for someone to write
        s.pass(t, if spins { Stat::Yielded } else { Stat::Ready });
    }
}
type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
struct Kid {
    s: &'static Sched,
    slot: usize,
    start: Start,
    arg: *mut libc::c_void,
}
extern "C" fn kid(k: *mut libc::c_void) -> *mut libc::c_void {
    let k = unsafe { Box::from_raw(k as *mut Kid) };
    let (s, t) = (k.s, k.slot);
    ME.with(|m| m.set(t));
    rayon_core::mc::set_hook(Some(s), true);
    let g = {
        let mut g = s.lock();
        g.tids[t] = unsafe { libc::gettid() };
        g
    };
    s.sleep(g, t);
    let r = {
        let _o = outside(s);
        (k.start)(k.arg)
    };
    let mut g = s.lock();
    g.stat[t] = Stat::Done;
    drop(s.yield_from(g, t));
    rayon_core::mc::set_hook(None, false);
    ME.with(|m| m.set(usize::MAX));
    r
}
fn real(name: &'static [u8]) -> *mut libc::c_void {
    unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const libc::c_char) }
}
fn controlled() -> Option<&'static Sched> {
    if rayon_core::mc::points_on() {
        CONTROLLED.try_with(|c| c.get()).ok().flatten()
    } else {
        None
    }
}
/// As above: threads made by the code under test belong to the scheduler.
#[no_mangle]
unsafe extern "C" fn pthread_create(th: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: Start, arg: *mut libc::c_void) -> c_int {
    let make: extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> c_int = std::mem::transmute(real(b"pthread_create\0"));
    let Some(s) = controlled() else { return make(th, attr, start, arg) };
    let _i = inside();
    let slot = {
        let mut g = s.lock();
        let Some(k) = (s.w + s.c..g.stat.len()).find(|k| g.stat[*k] == Stat::Off) else {
            drop(g);
            return make(th, attr, start, arg);
        };
        g.stat[k] = Stat::Ready;
        g.grant[k] = None;
        g.woken[k] = false;
        g.reads[k] = 0;
        g.tids[k] = 0;
        g.used[k] = true;
        k
    };
    let b = Box::into_raw(Box::new(Kid { s, slot, start, arg }));
    let r = make(th, attr, kid, b as *mut libc::c_void);
    if r != 0 {
        drop(Box::from_raw(b));
        s.lock().stat[slot] = Stat::Off;
        return r;
    }
    {
        let mut g = s.lock();
        for k in s.w + s.c..g.stat.len() {
            if g.pthread[k] == *th as u64 {
                g.pthread[k] = 0;
            }
        }
        g.pthread[slot] = *th as u64;
    }
    s.pass(me(), Stat::Ready);
    0
}
#[no_mangle]
unsafe extern "C" fn pthread_join(th: libc::pthread_t, ret: *mut *mut libc::c_void) -> c_int {
    let join: extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> c_int = std::mem::transmute(real(b"pthread_join\0"));
    if let Some(s) = controlled() {
        let _i = inside();
        let k = {
            let g = s.lock();
            (s.w + s.c..g.stat.len()).find(|k| g.pthread[*k] == th as u64 && g.stat[*k] != Stat::Off)
        };
        if let Some(k) = k {
            s.pass(me(), Stat::Join(k));
            let r = join(th, ret);
            let mut g = s.lock();
            g.stat[k] = Stat::Off;
            g.pthread[k] = 0;
            return r;
        }
    }
    join(th, ret)
}
/// As above: time passes for whoever sleeps, and the others run.
#[no_mangle]
unsafe extern "C" fn clock_nanosleep(clock: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if let Some(s) = controlled() {
        let _i = inside();
        s.pass(me(), Stat::Yielded);
        return 0;
    }
    let r = raw_syscall(libc::SYS_clock_nanosleep, clock as c_long, flags as c_long, req as c_long, rem as c_long, 0, 0);
    -(r as c_int)
}
/// What one execution did.
pub struct Exec {
    pub trace: Vec<Choice>,
    pub out: Vec<Option<u64>>,
    pub deadlock: bool,
    pub foreign: bool,
    pub diverged: bool,
    pub steals: u64,
}
impl Sched {
    /// `w` workers and `c` callers outside the pool, all waiting. Never freed.
    pub fn new(w: usize, c: usize) -> &'static Sched {
        atoms::on_atomic(atomic);
        let n = w + c + KIDS;
        let s: &'static Sched = Box::leak(Box::new(Sched {
            w,
            c,
            m: Mutex::new(State {
                cur: None,
                stat: vec![Stat::Off; n],
                grant: (0..n).map(|_| None).collect(),
                deque: (0..w).map(|_| VecDeque::new()).collect(),
                inject: VecDeque::new(),
                done: vec![],
                trace: vec![],
                prefix: vec![],
                diverged: false,
                woken: vec![false; n],
                foreign: false,
                over: false,
                dead: false,
                progress: 0,
                steals: 0,
                jobs: (0..n).map(|_| None).collect(),
                out: vec![None; n],
                tids: vec![0; n],
                used: vec![false; n],
                fine: true,
                symmetric: true,
                split: w,
                pthread: vec![0; n],
                reads: vec![0; n],
                idling: 0,
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
            main: Condvar::new(),
        }));
        for t in 0..w + c {
            std::thread::Builder::new().stack_size(8 << 20).spawn(move || s.thread(t)).unwrap();
        }
        while s.lock().tids[..w + c].iter().any(|t| *t == 0) {
            std::thread::sleep(Duration::from_millis(1));
        }
        s
    }
    fn lock(&self) -> MutexGuard<'_, State> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn thread(&'static self, t: usize) {
        ME.with(|m| m.set(t));
        rayon_core::mc::set_hook(Some(self), true);
        self.lock().tids[t] = unsafe { libc::syscall(libc::SYS_gettid) as i32 };
        let mut g = self.lock();
        loop {
            match self.sleep(g, t) {
                Act::Run(id, task) => {
                    // taken, but not begun: its owner may come to wait for it
                    self.pass(t, Stat::Ready);
                    {
                        let _o = outside(self);
                        unsafe { task.run() };
                    }
                    g = self.lock();
                    g.done[id] = true;
                    g.stat[t] = Stat::Idle;
                }
                Act::Go => {
                    let j = self.lock().jobs[t].clone().expect("caller has a job");
                    let r = {
                        let _o = outside(self);
                        j()
                    };
                    drop(j);
                    g = self.lock();
                    g.out[t] = Some(r);
                    g.jobs[t] = None;
                    g.stat[t] = Stat::Done;
                }
            }
            g = self.yield_from(g, t);
        }
    }
    /// wait for the token
    fn sleep(&self, mut g: MutexGuard<'_, State>, t: usize) -> Act {
        loop {
            if let Some(a) = g.grant[t].take() {
                g.progress += 1;
                return a;
            }
            g = self.cv[t].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    /// Every continuation from here: who, doing what. The first is "go on", if possible.
    fn options(&self, s: &State, t: Option<usize>) -> Vec<(usize, From)> {
        let mut o = vec![];
        let ready = |x: usize| match s.stat[x] {
            Stat::Ready => true,
            Stat::Waiting(id) | Stat::Injected(id) => s.done[id],
            Stat::Join(k) => matches!(s.stat[k], Stat::Done | Stat::Off),
            _ => false,
        };
        let yielded = |x: usize| s.stat[x] == Stat::Yielded;
        if let Some(t) = t {
            if ready(t) {
                o.push((t, From::None));
            }
        }
        let mut idle = false;
        for x in 0..s.stat.len() {
            if Some(x) != t && ready(x) {
                o.push((x, From::None));
            }
        }
        for x in 0..self.w {
            let wait = matches!(s.stat[x], Stat::Waiting(id) if !s.done[id]);
            let fresh = s.stat[x] == Stat::Idle && !s.used[x];
            if !wait && !(s.stat[x] == Stat::Idle && !(fresh && idle && s.symmetric)) {
                continue;
            }
            idle |= fresh;
            if !s.deque[x].is_empty() {
                o.push((x, From::Own));
                continue;
            }
            for v in 0..self.w {
                if v != x && !s.deque[v].is_empty() {
                    o.push((x, From::Steal(v)));
                }
            }
            if !s.inject.is_empty() {
                o.push((x, From::Inject));
            }
        }
        // those who gave up the processor come last
        for x in (0..s.stat.len()).filter(|x| yielded(*x)) {
            o.push((x, From::None));
        }
        o
    }
    /// Have all calls returned?
    fn returned(&self, s: &State) -> bool {
        s.stat[self.w..self.w + self.c].iter().all(|x| matches!(x, Stat::Done | Stat::Off))
    }
    /// Decide who runs next. True if it is `t`.
    fn decide(&self, s: &mut State, t: Option<usize>) -> bool {
        s.progress += 1;
        if matches!(t, Some(t) if s.stat[t] == Stat::Yielded) {
            s.idling += 1;
            if s.idling > 20_000 {
                // everyone waits for the others to change something
                s.cur = None;
                s.dead = true;
                self.main.notify_one();
                return false;
            }
        } else {
            s.idling = 0;
        }
        let o = self.options(s, t);
        if o.is_empty() {
            s.cur = None;
            if self.returned(s) {
                s.over = true;
            } else if !s.stat.contains(&Stat::Foreign) && !s.stat.contains(&Stat::Futex) {
                s.dead = true;
            }
            self.main.notify_one();
            return false;
        }
        let costs = matches!(t, Some(t) if o[0] == (t, From::None) && s.stat[t] != Stat::Yielded);
        let mut k = 0;
        if o.len() > 1 {
            let i = s.trace.len();
            k = s.prefix.get(i).copied().unwrap_or(0) as usize;
            if k >= o.len() {
                s.diverged = true;
                k = 0;
            }
            s.trace.push(Choice { n: o.len() as u16, took: k as u16, costs });
        }
        let (x, from) = o[k];
        let act = match from {
            From::None => Act::Go,
            From::Own => {
                let (id, t) = s.deque[x].pop_back().unwrap();
                Act::Run(id, t)
            }
            From::Steal(v) => {
                s.steals += 1;
                let (id, t) = s.deque[v].pop_front().unwrap();
                Act::Run(id, t)
            }
            From::Inject => {
                let (id, t) = s.inject.pop_front().unwrap();
                Act::Run(id, t)
            }
        };
        s.used[x] = true;
        if matches!(s.stat[x], Stat::Yielded | Stat::Join(_)) {
            s.stat[x] = Stat::Ready;
        }
        s.grant[x] = Some(act);
        s.cur = Some(x);
        if Some(x) != t {
            self.cv[x].notify_one();
        }
        Some(x) == t
    }
    /// Thread `t` (whose status is set) gives the others a chance; returns when it has the token again
    /// or immediately with its grant pending.
    fn yield_from<'a>(&'a self, mut g: MutexGuard<'a, State>, t: usize) -> MutexGuard<'a, State> {
        if g.cur == Some(t) {
            self.decide(&mut g, Some(t));
        } else {
            // woken by something foreign while another thread has the token
            g.progress += 1;
            if g.cur.is_none() {
                self.main.notify_one();
            }
        }
        g
    }
    fn pass(&self, t: usize, st: Stat) -> Act {
        let mut g = self.lock();
        g.stat[t] = st;
        g = self.yield_from(g, t);
        self.sleep(g, t)
    }
    /// The current thread waits until the futex is woken. Returns 0 or an error number.
    fn futex_wait(&'static self, addr: usize, val: u32) -> i32 {
        let _i = inside();
        let t = me();
        {
            let mut l = ASLEEP.lock().unwrap_or_else(|e| e.into_inner());
            if unsafe { (*(addr as *const AtomicU32)).load(SeqCst) } != val {
                return libc::EAGAIN;
            }
            l.push((addr, self, t));
            ASLEEP_N.store(l.len(), SeqCst);
        }
        let mut g = self.lock();
        g.foreign = true;
        if g.woken[t] {
            g.woken[t] = false;
            return 0;
        }
        g.stat[t] = Stat::Futex;
        g = self.yield_from(g, t);
        self.sleep(g, t);
        0
    }
    /// Works on other tasks until `id` is done; outside the pool, waits.
    fn work_until(&self, t: usize, id: usize, i: &Inside) {
        while !self.lock().done[id] {
            match self.pass(t, if t < self.w { Stat::Waiting(id) } else { Stat::Injected(id) }) {
                Act::Go => return,
                Act::Run(other, task) => {
                    self.pass(t, Stat::Ready);
                    {
                        let _o = Inside(CONTROLLED.with(|c| c.replace(i.0)));
                        unsafe { task.run() };
                    }
                    self.lock().done[other] = true;
                }
            }
        }
    }
    fn new_id(s: &mut State) -> usize {
        s.done.push(false);
        s.done.len() - 1
    }

    /// One execution: the callers run `jobs`, scheduling follows `prefix` and then always the first option.
    pub fn run(&self, jobs: &[Arc<dyn Fn() -> u64 + Send + Sync>], prefix: &[u16], fine: bool, symmetric: bool, split: usize) -> Exec {
        let _b = busy();
        let mut g = self.lock();
        let n = g.stat.len();
        for t in 0..n {
            g.reads[t] = 0;
            if t >= self.w + self.c {
                // a thread that outlives the call that made it stays where it is
                if g.stat[t] == Stat::Done {
                    g.stat[t] = Stat::Off;
                }
                continue;
            }
            g.stat[t] = if t < self.w { Stat::Idle } else if t - self.w < jobs.len() { Stat::Ready } else { Stat::Off };
            g.grant[t] = None;
            g.used[t] = false;
            g.woken[t] = false;
            g.out[t] = None;
            g.jobs[t] = if t >= self.w { jobs.get(t - self.w).cloned() } else { None };
        }
        for d in g.deque.iter_mut() {
            d.clear();
        }
        g.inject.clear();
        g.done.clear();
        g.trace.clear();
        g.prefix = prefix.to_vec();
        (g.diverged, g.foreign, g.over, g.dead, g.steals) = (false, false, false, false, 0);
        (g.fine, g.symmetric, g.split) = (fine, symmetric, split);
        g.idling = 0;
        self.decide(&mut g, None);
        let mut last = (g.progress, Instant::now());
        let mut asleep = 0;
        while !g.over && !g.dead {
            let (h, _) = self.main.wait_timeout(g, Duration::from_millis(15)).unwrap_or_else(|e| e.into_inner());
            g = h;
            if g.over || g.dead {
                break;
            }
            if g.progress != last.0 {
                last = (g.progress, Instant::now());
                asleep = 0;
            }
            if g.cur.is_none() {
                // someone may have come back from a foreign wait
                if !self.options(&g, None).is_empty() {
                    self.decide(&mut g, None);
                } else if self.returned(&g) && !g.stat.contains(&Stat::Foreign) {
                    g.over = true;
                } else if last.1.elapsed() > Duration::from_millis(1500) && (0..n).all(|t| g.stat[t] != Stat::Foreign || sleeping(g.tids[t])) {
                    g.dead = true;
                } else if last.1.elapsed() > Duration::from_secs(20) {
                    g.dead = true;
                }
                continue;
            }
            let c = g.cur.unwrap();
            if g.grant[c].is_none() && sleeping(g.tids[c]) {
                asleep += 1;
            } else {
                asleep = 0;
            }
            // asleep outside of our control, or spinning until another thread does something
            let stalled = g.grant[c].is_none() && last.1.elapsed() > Duration::from_millis(400);
            if asleep >= 4 || stalled {
                asleep = 0;
                g.foreign = true;
                g.stat[c] = Stat::Foreign;
                self.decide(&mut g, None);
                last = (g.progress, Instant::now());
            }
        }
        Exec { trace: std::mem::take(&mut g.trace), out: g.out[self.w..self.w + self.c].to_vec(), deadlock: g.dead, foreign: g.foreign, diverged: g.diverged, steals: g.steals }
    }
}
fn sleeping(tid: i32) -> bool {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return false };
    s.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S'))
}
impl Hook for Sched {
    fn apart(&self, f: &mut dyn FnMut()) {
        let _i = inside();
        f()
    }
    fn num_threads(&self) -> usize {
        let _i = inside();
        // the guard must be gone before `_i` is: its atomics are not points
        let n = self.lock().split;
        n
    }
    fn index(&self) -> Option<usize> {
        let t = me();
        if t < self.w {
            Some(t)
        } else {
            None
        }
    }
    fn inject(&self, task: Task) {
        let _i = inside();
        let t = me();
        let id = {
            let mut g = self.lock();
            let id = Self::new_id(&mut g);
            g.inject.push_back((id, task));
            id
        };
        match self.pass(t, Stat::Injected(id)) {
            Act::Go => {}
            _ => unreachable!(),
        }
    }
    fn push(&self, task: Task) -> u64 {
        let _i = inside();
        let t = me();
        let id = {
            let mut g = self.lock();
            let id = Self::new_id(&mut g);
            g.deque[t].push_back((id, task));
            id
        };
        self.pass(t, Stat::Ready);
        id as u64
    }
    fn latch(&self) -> u64 {
        let _i = inside();
        let id = Self::new_id(&mut self.lock());
        id as u64
    }
    fn spawn(&self, task: Task) {
        let _i = inside();
        let t = me();
        {
            let mut g = self.lock();
            let id = Self::new_id(&mut g);
            if t < self.w {
                g.deque[t].push_back((id, task));
            } else {
                g.inject.push_back((id, task));
            }
        }
        self.pass(t, Stat::Ready);
    }
    fn set(&self, latch: u64) {
        let _i = inside();
        self.lock().done[latch as usize] = true;
    }
    fn wait(&self, latch: u64) {
        let _i = inside();
        let t = me();
        self.pass(t, Stat::Ready);
        self.work_until(t, latch as usize, &_i);
    }
    fn detached(&self) -> bool {
        true
    }
    fn finish(&self, id: u64) -> bool {
        let _i = inside();
        let (t, id) = (me(), id as usize);
        self.pass(t, Stat::Ready);
        {
            let mut g = self.lock();
            if matches!(g.deque[t].back(), Some((i, _)) if *i == id) {
                g.deque[t].pop_back();
                return true;
            }
            if g.done[id] {
                return false;
            }
        }
        self.work_until(t, id, &_i);
        false
    }
    fn point(&self) {
        let _i = inside();
        let t = me();
        let fine = self.lock().fine;
        if fine {
            self.pass(t, Stat::Ready);
        }
    }
}

/// Next choice sequence within the bounds, deepest first: at most `bound.0` preemptions (another thread is
/// taken although the running one could go on) and at most `bound.1` deviations of any kind from the default.
pub fn advance(trace: &[Choice], bound: (u32, u32)) -> Option<Vec<u16>> {
    let mut cost = vec![(0u32, 0u32); trace.len() + 1];
    for (i, c) in trace.iter().enumerate() {
        let d = (c.took > 0) as u32;
        cost[i + 1] = (cost[i].0 + if c.costs { d } else { 0 }, cost[i].1 + d);
    }
    for i in (0..trace.len()).rev() {
        let c = trace[i];
        if c.took + 1 < c.n && cost[i].0 + c.costs as u32 <= bound.0 && cost[i].1 < bound.1 {
            let mut p: Vec<u16> = trace[..i].iter().map(|c| c.took).collect();
            p.push(c.took + 1);
            return Some(p);
        }
    }
    None
}
