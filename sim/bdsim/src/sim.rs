//! The simulator core: scheduling points, the cooperative scheduler, and every seam through which
//! the code under test could meet something nondeterministic.
//!
//! Exactly one simulated task runs at any time. Tasks are real OS threads that are parked and
//! released one by one; who runs is decided by the plan alone. Scheduling points are every
//! basic-block edge, load and store of the instrumented code (sanitizer coverage callbacks), every
//! allocation, every log record, every pixel read and component call, and every blocking system
//! call. `SIM` is true exactly while instrumented code runs inside an operation of a task.
#![allow(static_mut_refs)]

use libc::{c_int, c_long, c_void};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

pub static mut SIM: bool = false;
static mut STEP: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut REC: bool = false;
static mut G: *mut Global = std::ptr::null_mut();

const COVN: usize = 1 << 16;
static mut COV: [u8; COVN] = [0; COVN];
static mut GUARDS: usize = 0;
static mut LAST_EDGE: u32 = 0;
static mut LOG_ADDR: [usize; 8] = [0; 8];
static mut PROBE: bool = false;

/// Steps a task may take in one go while others could run.
const QUANTUM: u64 = 200_000_000;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Site {
    Start,
    Edge,
    Static,
    Alloc,
    Log,
    Px,
    Comp,
    Sys,
}
impl Site {
    pub fn name(self) -> &'static str {
        match self {
            Site::Start => "op-start",
            Site::Edge => "edge",
            Site::Static => "static-access",
            Site::Alloc => "alloc",
            Site::Log => "log",
            Site::Px => "pixel",
            Site::Comp => "component",
            Site::Sys => "syscall",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Preempt {
    pub task: usize,
    pub op: usize,
    pub step: u64,
    pub to: usize,
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum State {
    Runnable,
    /// waiting on a futex word, until a simulated time if there is a timeout
    Blocked(usize, Option<u64>),
    Joining(usize),
    Done,
}

struct Task {
    state: State,
    gate: AtomicU32,
    op: usize,
    step: u64,
    next: u64,
    pre: Vec<Preempt>,
    prei: usize,
    /// step at which the others get their turn even if nothing is scripted, so that a task that
    /// spins until another one has done its part does not spin for ever
    quantum: u64,
    timed_out: bool,
    /// created by the code under test, not by the plan
    spawned: bool,
    pthread: usize,
}

/// Interesting places found while recording an operation: (step, site).
pub type Places = Vec<(u64, Site)>;

#[derive(Default, Clone, Debug)]
pub struct OpStats {
    pub steps: u64,
    pub allocs: u64,
    pub peak: i64,
    pub live: i64,
    pub logs: u64,
    pub pixels: u64,
    pub places: Places,
    pub effects: Vec<String>,
}

pub struct Env {
    pub clock_ns: i64,
    pub clock_jumps: Vec<(u64, i64)>,
    pub entropy: u64,
    /// seed of the environment variables and of the number of processors, 0 for none and one
    pub vars: u64,
    /// What some of the seeded environment variables say.
    pub words: Vec<std::ffi::CString>,
    pub log_level: u8,
    pub sched_seed: u64,
    pub budget: u64,
}

pub struct Global {
    tasks: Vec<Box<Task>>,
    cur: usize,
    main_gate: AtomicU32,
    switches: u64,
    sched_seed: u64,
    pub hash: u64,
    pub events: Vec<String>,
    pub total: u64,
    clock_ns: i64,
    clock_jumps: Vec<(u64, i64)>,
    clock_read: u64,
    entropy: crate::rng::Rng,
    pub entropy_read: u64,
    vars: u64,
    words: Vec<std::ffi::CString>,
    pub env_read: u64,
    pub cpu_read: u64,
    budget: u64,
    op: OpStats,
    live_at: i64,
    rec_static: usize,
    rec_other: usize,
    pub fs: crate::disk::Disk,
    pub switch_sites: Vec<(u32, Site)>,
    /// called on log records and other seams, installed by the operation that is running
    pub hooks: Vec<Option<Box<dyn FnMut(Site, u64)>>>,
    roots: usize,
    pub hang: Option<String>,
    pub futex_waits: u64,
    pub threads_spawned: u64,
}

pub fn g() -> &'static mut Global {
    unsafe { &mut *G }
}

pub fn mix_hash(h: &mut u64, s: &str) {
    for b in s.as_bytes() {
        *h ^= *b as u64;
        *h = h.wrapping_mul(0x100000001b3);
    }
    *h ^= 0xff;
    *h = h.wrapping_mul(0x100000001b3);
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325;
    mix_hash(&mut h, s);
    h
}

pub fn event(s: String) {
    let gl = g();
    mix_hash(&mut gl.hash, &s);
    if gl.events.len() < 400 {
        gl.events.push(s);
    }
}

// ------------------------------------------------------------------ instrumentation callbacks

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    let n = (b as usize - a as usize) / 4;
    for i in 0..n {
        GUARDS += 1;
        *a.add(i) = (GUARDS % COVN) as u32;
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(gd: *mut u32) {
    if !SIM {
        return;
    }
    STEP += 1;
    LAST_EDGE = *gd;
    COV[LAST_EDGE as usize] = 1;
    if STEP >= NEXT {
        slow(Site::Edge);
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
unsafe fn access(p: *const u8) {
    if !SIM {
        return;
    }
    STEP += 1;
    if REC || PROBE {
        let a = p as usize;
        if a >= &__data_start as *const u8 as usize && a < &_end as *const u8 as usize {
            static_access(a);
        }
    }
    if STEP >= NEXT {
        slow(Site::Edge);
    }
}

#[cold]
#[inline(never)]
unsafe fn static_access(a: usize) {
    if PROBE {
        for s in LOG_ADDR.iter_mut() {
            if *s == 0 || *s == a {
                *s = a;
                return;
            }
        }
        return;
    }
    if LOG_ADDR.contains(&a) {
        return;
    }
    let gl = g();
    if gl.rec_static < 600 {
        gl.rec_static += 1;
        masked(|| g().op.places.push((STEP, Site::Static)));
    }
}

macro_rules! loads_stores {
    ($($f:ident)*) => { $( #[no_mangle] pub unsafe extern "C" fn $f(p: *const u8) { access(p) } )* };
}
loads_stores!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4
    __sanitizer_cov_load8 __sanitizer_cov_load16 __sanitizer_cov_store1 __sanitizer_cov_store2
    __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// Learn which static addresses the log macros read, so that they do not count as shared state.
pub fn probe_log() {
    unsafe {
        PROBE = true;
        SIM = true;
        subject::touch_log();
        SIM = false;
        PROBE = false;
        STEP = 0;
    }
}

pub fn coverage() -> Vec<u8> {
    unsafe { COV.to_vec() }
}
pub fn guards() -> usize {
    unsafe { GUARDS }
}

// ------------------------------------------------------------------ allocator

pub struct SimAlloc;
/// What memory holds that nobody has written to.
pub static mut STALE: u8 = 0;
static mut LIVE: i64 = 0;
static mut PEAK: i64 = 0;

/// Bytes in front of every block, which say who asked for it: the balance is that of the code
/// under test, whoever gives its blocks back.
#[inline]
fn head(l: &Layout) -> usize {
    l.align().max(16)
}
#[inline]
unsafe fn wide(l: &Layout, n: usize) -> Layout {
    Layout::from_size_align_unchecked(n + head(l), l.align().max(16))
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let mine = SIM;
        if mine {
            on_alloc(l.size() as i64);
        }
        let p = System.alloc(wide(&l, l.size()));
        if p.is_null() {
            return p;
        }
        let q = p.add(head(&l));
        *(q.sub(8) as *mut u64) = mine as u64;
        if mine {
            q.write_bytes(STALE, l.size());
        }
        q
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let mine = SIM;
        if mine {
            on_alloc(l.size() as i64);
        }
        let p = System.alloc_zeroed(wide(&l, l.size()));
        if p.is_null() {
            return p;
        }
        let q = p.add(head(&l));
        *(q.sub(8) as *mut u64) = mine as u64;
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if *(p.sub(8) as *mut u64) == 1 {
            LIVE -= l.size() as i64;
        }
        System.dealloc(p.sub(head(&l)), wide(&l, l.size()))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let mine = *(p.sub(8) as *mut u64) == 1;
        if SIM {
            on_alloc(if mine { n as i64 - l.size() as i64 } else { 0 });
        } else if mine {
            LIVE += n as i64 - l.size() as i64;
        }
        let r = System.realloc(p.sub(head(&l)), wide(&l, l.size()), n + head(&l));
        if r.is_null() {
            return r;
        }
        let q = r.add(head(&l));
        if mine && n > l.size() {
            q.add(l.size()).write_bytes(STALE, n - l.size());
        }
        q
    }
}

#[inline]
unsafe fn on_alloc(d: i64) {
    LIVE += d;
    if LIVE > PEAK {
        PEAK = LIVE;
    }
    let gl = g();
    gl.op.allocs += 1;
    STEP += 1;
    if REC && (gl.op.allocs <= 64 || gl.op.allocs % 97 == 0) {
        note(Site::Alloc);
    }
    if STEP >= NEXT {
        slow(Site::Alloc);
    }
}

unsafe fn note(s: Site) {
    let gl = g();
    if gl.rec_other < 3000 {
        gl.rec_other += 1;
        masked(|| g().op.places.push((STEP, s)));
    }
}

// ------------------------------------------------------------------ entering and leaving

/// Run harness code inside a callback of the code under test.
pub fn masked<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let old = SIM;
        SIM = false;
        let r = f();
        SIM = old;
        r
    }
}

/// Run code under test. Panics are caught; simulated crashes unwind through here as well.
pub fn enter<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    unsafe {
        let old = SIM;
        SIM = true;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        SIM = old;
        r
    }
}

pub struct Killed;

/// A crash of the decode that is running: unwind out of it from a callback.
pub fn kill() -> ! {
    std::panic::resume_unwind(Box::new(Killed))
}

/// A seam was crossed (log record, pixel read, component call): a scheduling point, and the place
/// where the operation's scripted faults fire.
#[inline]
pub fn seam(s: Site) {
    unsafe {
        if !SIM {
            return;
        }
        STEP += 1;
        let gl = g();
        let n = match s {
            Site::Log => {
                gl.op.logs += 1;
                gl.op.logs
            }
            Site::Px => {
                gl.op.pixels += 1;
                gl.op.pixels
            }
            _ => 0,
        };
        if REC && (n < 40 || n % 251 == 0) {
            note(s);
        }
        if STEP >= NEXT {
            slow(s);
        }
        let cur = g().cur;
        if g().hooks[cur].is_some() {
            SIM = false;
            let mut h = g().hooks[cur].take().unwrap();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h(s, n)));
            let cur = g().cur;
            if g().hooks[cur].is_none() {
                g().hooks[cur] = Some(h);
            }
            SIM = true;
            if let Err(e) = r {
                std::panic::resume_unwind(e);
            }
        }
    }
}

pub fn set_hook(h: Option<Box<dyn FnMut(Site, u64)>>) {
    let gl = g();
    let c = gl.cur;
    gl.hooks[c] = h;
}

/// Log records and pixel reads of the operation so far.
pub fn counts() -> (u64, u64) {
    (g().op.logs, g().op.pixels)
}

/// A system call is not free: code that repeats one for ever runs out of steps soon.
pub fn charge() {
    unsafe {
        STEP += 5_000;
        let gl = g();
        if STEP >= gl.budget {
            let c = gl.cur;
            gl.hang = Some(format!("operation {} of task {} exceeded {} steps", gl.tasks[c].op, c, gl.budget));
            crate::exec::emergency_exit();
        }
    }
}

pub fn cur() -> usize {
    g().cur
}

pub fn setup(env: &Env, ntasks: usize, pre: &[Preempt], record: bool) {
    let mut tasks = vec![];
    for t in 0..ntasks {
        let mut p: Vec<Preempt> = pre.iter().filter(|p| p.task == t).cloned().collect();
        p.sort_by_key(|p| (p.op, p.step));
        tasks.push(Box::new(Task {
            // a recording runs everything on the first task
            state: if record && t > 0 { State::Done } else { State::Runnable },
            gate: AtomicU32::new(0),
            op: 0,
            step: 0,
            next: u64::MAX,
            pre: p,
            prei: 0,
            quantum: QUANTUM,
            timed_out: false,
            spawned: false,
            pthread: 0,
        }));
    }
    let gl = Box::new(Global {
        tasks,
        cur: 0,
        main_gate: AtomicU32::new(0),
        switches: 0,
        sched_seed: env.sched_seed,
        hash: 0xcbf29ce484222325,
        events: vec![],
        total: 0,
        clock_ns: env.clock_ns,
        clock_jumps: env.clock_jumps.clone(),
        clock_read: 0,
        entropy: crate::rng::Rng::new(env.entropy),
        entropy_read: 0,
        vars: env.vars,
        words: env.words.clone(),
        env_read: 0,
        cpu_read: 0,
        budget: env.budget,
        op: OpStats::default(),
        live_at: 0,
        rec_static: 0,
        rec_other: 0,
        fs: crate::disk::Disk::new(),
        switch_sites: vec![],
        hooks: (0..64).map(|_| None).collect(),
        roots: ntasks,
        hang: None,
        futex_waits: 0,
        threads_spawned: 0,
    });
    unsafe {
        G = Box::into_raw(gl);
        REC = record;
        NEXT = u64::MAX;
        STEP = 0;
        LIVE = 0;
        PEAK = 0;
    }
    log::set_max_level(
        [
            log::LevelFilter::Off,
            log::LevelFilter::Error,
            log::LevelFilter::Warn,
            log::LevelFilter::Info,
            log::LevelFilter::Debug,
            log::LevelFilter::Trace,
        ][env.log_level.min(5) as usize],
    );
}

fn arm() {
    let gl = g();
    let c = gl.cur;
    let t = &mut gl.tasks[c];
    let mut next = gl.budget.min(t.quantum);
    while t.prei < t.pre.len() && t.pre[t.prei].op < t.op {
        t.prei += 1;
    }
    if t.prei < t.pre.len() && t.pre[t.prei].op == t.op {
        next = next.min(t.pre[t.prei].step);
    }
    unsafe { NEXT = next };
}

/// Start of operation `op` of the current task (harness context).
pub fn begin_op(op: usize) {
    let gl = g();
    let c = gl.cur;
    gl.tasks[c].op = op;
    gl.tasks[c].quantum = QUANTUM;
    gl.op = OpStats::default();
    gl.rec_static = 0;
    gl.rec_other = 0;
    unsafe {
        STEP = 0;
        gl.live_at = LIVE;
        PEAK = LIVE;
    }
    event(format!("t{} begin {}", c, op));
    arm();
    unsafe {
        if NEXT == 0 {
            slow(Site::Start);
        }
    }
}

pub fn end_op(digest: &str) -> OpStats {
    let gl = g();
    let c = gl.cur;
    let mut s = std::mem::take(&mut gl.op);
    unsafe {
        s.steps = STEP;
        s.live = LIVE - gl.live_at;
        s.peak = PEAK - gl.live_at;
        gl.total += STEP;
        STEP = 0;
        NEXT = u64::MAX;
    }
    event(format!("t{} end {} steps={} allocs={} -> {:016x}", c, gl.tasks[c].op, s.steps, s.allocs, hash_str(digest)));
    s
}

pub fn effect(s: String) {
    let e = &mut g().op.effects;
    if e.len() < 2000 {
        e.push(s);
    }
}

// ------------------------------------------------------------------ scheduler

unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn gate_wait(w: &AtomicU32) {
    while w.load(Ordering::Acquire) == 0 {
        raw(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAIT as usize | 128, 0, 0, 0, 0);
    }
    w.store(0, Ordering::Release);
}
unsafe fn gate_open(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    raw(libc::SYS_futex, w as *const _ as usize, libc::FUTEX_WAKE as usize | 128, 1, 0, 0, 0);
}

fn runnable() -> Vec<usize> {
    let gl = g();
    (0..gl.tasks.len()).filter(|t| gl.tasks[*t].state == State::Runnable).collect()
}

/// Reached the armed step: a scripted preemption, or the step budget of the operation.
#[cold]
#[inline(never)]
unsafe fn slow(site: Site) {
    SIM = false;
    loop {
        let gl = g();
        let c = gl.cur;
        if STEP >= gl.budget {
            gl.hang = Some(format!("operation {} of task {} exceeded {} steps", gl.tasks[c].op, c, gl.budget));
            crate::exec::emergency_exit();
        }
        if STEP >= gl.tasks[c].quantum {
            gl.tasks[c].quantum = STEP + QUANTUM;
            let r: Vec<usize> = runnable().into_iter().filter(|t| *t != c).collect();
            if !r.is_empty() {
                let pick = r[(crate::rng::mix(&[gl.sched_seed, gl.switches]) % r.len() as u64) as usize];
                switch(pick, site);
            }
            continue;
        }
        let t = &mut gl.tasks[c];
        if t.prei < t.pre.len() && t.pre[t.prei].op == t.op && t.pre[t.prei].step <= STEP {
            let to = t.pre[t.prei].to;
            t.prei += 1;
            if to != c && to < gl.tasks.len() && gl.tasks[to].state == State::Runnable {
                gl.switch_sites.push((LAST_EDGE, site));
                switch(to, site);
            }
            continue;
        }
        break;
    }
    arm();
    SIM = true;
}

/// Hand the processor to `to` and wait until it comes back.
unsafe fn switch(to: usize, site: Site) {
    let gl = g();
    let c = gl.cur;
    gl.switches += 1;
    event(format!("t{}@{}:{} ->t{} ({})", c, gl.tasks[c].op, STEP, to, site.name()));
    save_cur();
    gl.cur = to;
    gate_open(&gl.tasks[to].gate);
    gate_wait(&gl.tasks[c].gate);
    g().cur = c;
    load_cur();
}

struct Saved {
    op: OpStats,
    live_at: i64,
    rs: usize,
    ro: usize,
    rec: bool,
}
static mut SAVED: BTreeMap<usize, Saved> = BTreeMap::new();

unsafe fn save_cur() {
    let gl = g();
    let c = gl.cur;
    gl.tasks[c].step = STEP;
    gl.tasks[c].next = NEXT;
    let s = Saved { op: std::mem::take(&mut gl.op), live_at: gl.live_at, rs: gl.rec_static, ro: gl.rec_other, rec: REC };
    SAVED.insert(c, s);
}
unsafe fn load_cur() {
    let gl = g();
    let c = gl.cur;
    STEP = gl.tasks[c].step;
    NEXT = gl.tasks[c].next;
    if let Some(s) = SAVED.remove(&c) {
        gl.op = s.op;
        gl.live_at = s.live_at;
        gl.rec_static = s.rs;
        gl.rec_other = s.ro;
        REC = s.rec;
    }
}

/// The current task cannot go on: pick who runs next. Returns when it is our turn again.
unsafe fn block(site: Site) {
    loop {
        let r = runnable();
        let gl = g();
        let c = gl.cur;
        if r.is_empty() {
            // everybody waits: let simulated time pass until the first timeout
            let first = gl
                .tasks
                .iter()
                .enumerate()
                .filter_map(|(i, t)| match t.state {
                    State::Blocked(_, Some(d)) => Some((d, i)),
                    _ => None,
                })
                .min();
            match first {
                Some((d, i)) => {
                    if (d as i64) > gl.clock_ns {
                        gl.clock_ns = d as i64;
                    }
                    gl.tasks[i].state = State::Runnable;
                    gl.tasks[i].timed_out = true;
                    continue;
                }
                None => {
                    gl.hang = Some(format!("deadlock: {:?}", gl.tasks.iter().map(|t| t.state.clone()).collect::<Vec<_>>()));
                    crate::exec::emergency_exit();
                }
            }
        }
        if gl.tasks[c].state == State::Runnable && r.contains(&c) && r.len() == 1 {
            return;
        }
        let pick = r[(crate::rng::mix(&[gl.sched_seed, gl.switches]) % r.len() as u64) as usize];
        if pick == c {
            return;
        }
        switch(pick, site);
        if g().tasks[g().cur].state == State::Runnable {
            return;
        }
    }
}

/// The current task is finished: run somebody else, or wake the main thread. Never returns.
unsafe fn finish() -> ! {
    SIM = false;
    let gl = g();
    let c = gl.cur;
    gl.tasks[c].state = State::Done;
    event(format!("t{} done", c));
    for t in gl.tasks.iter_mut() {
        if t.state == State::Joining(c) {
            t.state = State::Runnable;
        }
    }
    if (0..gl.roots).all(|t| gl.tasks[t].state == State::Done) {
        gate_open(&gl.main_gate);
    } else {
        let r = runnable();
        if r.is_empty() {
            let w = gl.tasks.iter().position(|t| matches!(t.state, State::Blocked(_, Some(_))));
            match w {
                Some(i) => {
                    gl.tasks[i].state = State::Runnable;
                    gl.tasks[i].timed_out = true;
                    gl.cur = i;
                    gate_open(&gl.tasks[i].gate);
                }
                None => {
                    gl.hang = Some("deadlock after a task ended".into());
                    crate::exec::emergency_exit();
                }
            }
        } else {
            let pick = r[(crate::rng::mix(&[gl.sched_seed, gl.switches]) % r.len() as u64) as usize];
            gl.switches += 1;
            gl.cur = pick;
            gate_open(&gl.tasks[pick].gate);
        }
    }
    loop {
        raw(libc::SYS_pause, 0, 0, 0, 0, 0, 0);
    }
}

/// Run the root tasks, one thread each, until all are done.
pub fn run_tasks(bodies: Vec<Box<dyn FnOnce() + Send>>) {
    static READY: AtomicUsize = AtomicUsize::new(0);
    let n = bodies.len();
    for (i, b) in bodies.into_iter().enumerate() {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || unsafe {
                READY.fetch_add(1, Ordering::SeqCst);
                gate_wait(&g().tasks[i].gate);
                load_cur();
                b();
                finish();
            })
            .expect("thread");
    }
    while READY.load(Ordering::SeqCst) < n {
        unsafe { raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) };
    }
    let gl = g();
    let first = (crate::rng::mix(&[gl.sched_seed, 0xF1]) % n as u64) as usize;
    gl.cur = first;
    unsafe {
        gate_open(&gl.tasks[first].gate);
        gate_wait(&gl.main_gate);
    }
}

// ------------------------------------------------------------------ clock and entropy

pub fn now_ns(realtime: bool) -> i64 {
    let gl = g();
    let mut t = gl.clock_ns + ((gl.total + unsafe { STEP }) as i64) * 10;
    gl.clock_read += 1;
    if realtime {
        for (n, d) in &gl.clock_jumps {
            if gl.clock_read >= *n {
                t += d;
            }
        }
    } else {
        t &= i64::MAX;
    }
    t
}
pub fn advance_clock(ns: i64) {
    g().clock_ns += ns;
}
pub fn clock_reads() -> u64 {
    g().clock_read
}

unsafe fn ret(r: isize) -> c_long {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r as c_long
    }
}
pub unsafe fn fail(e: c_int) -> c_int {
    *libc::__errno_location() = e;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if !SIM {
        return ret(raw(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int;
    }
    let t = masked(|| now_ns(id == libc::CLOCK_REALTIME));
    (*ts).tv_sec = t.div_euclid(1_000_000_000);
    (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    if !SIM {
        return ret(raw(libc::SYS_gettimeofday, tv as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let t = masked(|| now_ns(true));
    (*tv).tv_sec = t.div_euclid(1_000_000_000);
    (*tv).tv_usec = t.rem_euclid(1_000_000_000) / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    let t = if SIM {
        masked(|| now_ns(true)).div_euclid(1_000_000_000)
    } else {
        let mut ts: libc::timespec = std::mem::zeroed();
        raw(libc::SYS_clock_gettime, 0, &mut ts as *mut _ as usize, 0, 0, 0, 0);
        ts.tv_sec
    };
    if !p.is_null() {
        *p = t;
    }
    t
}
unsafe fn sim_sleep(ts: *const libc::timespec) -> c_int {
    masked(|| {
        let d = (*ts).tv_sec as i64 * 1_000_000_000 + (*ts).tv_nsec as i64;
        let gl = g();
        let c = gl.cur;
        charge();
        let until = now_ns(false) + d;
        gl.tasks[c].state = State::Blocked(0, Some(until as u64));
        event(format!("t{} sleeps {}ns", c, d));
        block(Site::Sys);
        g().tasks[c].timed_out = false;
        arm();
    });
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !SIM {
        return ret(raw(libc::SYS_nanosleep, ts as usize, rem as usize, 0, 0, 0, 0)) as c_int;
    }
    sim_sleep(ts)
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !SIM {
        let r = raw(libc::SYS_clock_nanosleep, id as usize, fl as usize, ts as usize, rem as usize, 0, 0);
        return -r as c_int;
    }
    if fl == 0 {
        sim_sleep(ts)
    } else {
        let t = masked(|| now_ns(false));
        let target = (*ts).tv_sec as i64 * 1_000_000_000 + (*ts).tv_nsec as i64;
        let d = (target - t).max(0);
        let rel = libc::timespec { tv_sec: d / 1_000_000_000, tv_nsec: d % 1_000_000_000 };
        sim_sleep(&rel)
    }
}
unsafe fn sim_random(p: *mut u8, n: usize) {
    masked(|| {
        g().entropy_read += 1;
        for i in 0..n {
            *p.add(i) = g().entropy.next() as u8;
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: usize, fl: u32) -> isize {
    if !SIM {
        return ret(raw(libc::SYS_getrandom, p as usize, n, fl as usize, 0, 0, 0)) as isize;
    }
    sim_random(p as *mut u8, n);
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut c_void, n: usize) -> c_int {
    if !SIM {
        return if raw(libc::SYS_getrandom, p as usize, n, 0, 0, 0, 0) == n as isize { 0 } else { -1 };
    }
    sim_random(p as *mut u8, n);
    0
}

// ------------------------------------------------------------------ the process environment

extern "C" {
    static environ: *const *const libc::c_char;
}
static mut VALUES: [&[u8]; 12] = [
    b"1\0", b"0\0", b"true\0", b"\0", b"off\0", b"8\0", b"debug\0", b"/tmp\0", b"C\0", b"fr_FR.ISO-8859-1\0", b"C.UTF-8\0", b"-1\0",
];

/// Variables that are not seeded: where the scratch disk is, and what the standard library itself
/// makes of its environment (stack sizes, backtraces) on its own behalf.
const OWN: [&[u8]; 4] = [b"TMPDIR", b"RUST_MIN_STACK", b"RUST_BACKTRACE", b"RUST_LIB_BACKTRACE"];

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    if SIM && !OWN.contains(&n) {
        return masked(|| {
            let gl = g();
            gl.env_read += 1;
            if gl.vars == 0 {
                return std::ptr::null_mut();
            }
            let h = crate::rng::mix(&[gl.vars, hash_str(&String::from_utf8_lossy(n))]);
            if h % 3 == 0 {
                return std::ptr::null_mut();
            }
            let k = (h >> 8) as usize;
            if !gl.words.is_empty() && h >> 4 & 1 == 0 {
                return gl.words[k % gl.words.len()].as_ptr() as *mut libc::c_char;
            }
            VALUES[k % VALUES.len()].as_ptr() as *mut libc::c_char
        });
    }
    if environ.is_null() {
        return std::ptr::null_mut();
    }
    let mut p = environ;
    while !(*p).is_null() {
        let e = std::slice::from_raw_parts(*p as *const u8, libc::strlen(*p));
        if e.len() > n.len() && &e[..n.len()] == n && e[n.len()] == b'=' {
            return (*p).add(n.len() + 1) as *mut libc::c_char;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

fn sim_cpus() -> usize {
    masked(|| {
        let gl = g();
        gl.cpu_read += 1;
        match gl.vars {
            0 => 1,
            v => [1, 2, 3, 4, 8, 61][(v >> 20) as usize % 6],
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: usize, set: *mut libc::cpu_set_t) -> c_int {
    if !SIM {
        let r = raw(libc::SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0);
        if r < 0 {
            return ret(r) as c_int;
        }
        // what the kernel did not fill in
        std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - (r as usize).min(n));
        return 0;
    }
    std::ptr::write_bytes(set as *mut u8, 0, n);
    for c in 0..sim_cpus().min(n * 8) {
        *(set as *mut u8).add(c / 8) |= 1 << (c % 8);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(name: c_int) -> c_long {
    if SIM && (name == libc::_SC_NPROCESSORS_ONLN || name == libc::_SC_NPROCESSORS_CONF) {
        return sim_cpus() as c_long;
    }
    let f = real(b"sysconf\0");
    let f: extern "C" fn(c_int) -> c_long = std::mem::transmute(f);
    f(name)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !SIM {
        return ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int;
    }
    masked(|| {
        charge();
        block(Site::Sys);
        arm();
    });
    0
}

// ------------------------------------------------------------------ futexes and threads

unsafe fn sim_futex(addr: usize, op: c_int, val: u32, ts: *const libc::timespec) -> c_long {
    let cmd = op & 0x7f;
    masked(|| match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let gl = g();
            let c = gl.cur;
            if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            gl.futex_waits += 1;
            let deadline = if ts.is_null() {
                None
            } else {
                let t = (*ts).tv_sec as i64 * 1_000_000_000 + (*ts).tv_nsec as i64;
                Some(if cmd == libc::FUTEX_WAIT { now_ns(false) + t } else { t } as u64)
            };
            gl.tasks[c].state = State::Blocked(addr, deadline);
            gl.tasks[c].timed_out = false;
            event(format!("t{} waits", c));
            block(Site::Sys);
            let to = g().tasks[c].timed_out;
            g().tasks[c].timed_out = false;
            arm();
            if to {
                *libc::__errno_location() = libc::ETIMEDOUT;
                return -1;
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let gl = g();
            let mut n = 0;
            for t in gl.tasks.iter_mut() {
                if n >= val as c_long {
                    break;
                }
                if matches!(t.state, State::Blocked(a, _) if a == addr) {
                    t.state = State::Runnable;
                    n += 1;
                }
            }
            n
        }
        _ => {
            *libc::__errno_location() = libc::ENOSYS;
            -1
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if SIM {
        match n {
            libc::SYS_futex => return sim_futex(a, b as c_int, c as u32, d as *const _),
            libc::SYS_getrandom => {
                sim_random(a as *mut u8, b);
                return b as c_long;
            }
            libc::SYS_statx => return crate::disk::statx_path(a as c_int, b as *const _) as c_long,
            libc::SYS_gettid => return 1000 + g().cur as c_long,
            _ => {
                masked(|| effect(format!("syscall {}", n)));
                *libc::__errno_location() = libc::ENOSYS;
                return -1;
            }
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot {
    f: Start,
    arg: *mut c_void,
    task: usize,
}

extern "C" fn boot(p: *mut c_void) -> *mut c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Boot);
        gate_wait(&g().tasks[b.task].gate);
        load_cur();
        g().cur = b.task;
        arm();
        SIM = true;
        (b.f)(b.arg);
        finish()
    }
}

unsafe fn real(name: &[u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut libc::pthread_t, attr: *const c_void, f: Start, arg: *mut c_void) -> c_int {
    let was = SIM;
    SIM = false;
    let r: extern "C" fn(*mut libc::pthread_t, *const c_void, Start, *mut c_void) -> c_int =
        std::mem::transmute(real(b"pthread_create\0"));
    let rc = if !was {
        r(out, attr, f, arg)
    } else {
        // a thread started by the code under test becomes one more simulated task
        let gl = g();
        let id = gl.tasks.len();
        let op = gl.tasks[gl.cur].op;
        gl.threads_spawned += 1;
        gl.tasks.push(Box::new(Task {
            state: State::Runnable,
            gate: AtomicU32::new(0),
            op,
            step: 0,
            next: u64::MAX,
            pre: vec![],
            prei: 0,
            quantum: QUANTUM,
            timed_out: false,
            spawned: true,
            pthread: 0,
        }));
        event(format!("t{} spawns t{}", gl.cur, id));
        let rc = r(out, attr, boot, Box::into_raw(Box::new(Boot { f, arg, task: id })) as *mut c_void);
        gl.tasks[id].pthread = *out as usize;
        rc
    };
    SIM = was;
    rc
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, res: *mut *mut c_void) -> c_int {
    let was = SIM;
    SIM = false;
    let rc = if was {
        let gl = g();
        match gl.tasks.iter().position(|x| x.spawned && x.pthread == t as usize) {
            Some(i) => {
                let c = gl.cur;
                if gl.tasks[i].state != State::Done {
                    gl.tasks[c].state = State::Joining(i);
                    block(Site::Sys);
                    arm();
                }
                if !res.is_null() {
                    *res = std::ptr::null_mut();
                }
                0
            }
            None => libc::ESRCH,
        }
    } else {
        let r: extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(real(b"pthread_join\0"));
        r(t, res)
    };
    SIM = was;
    rc
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: libc::pthread_t) -> c_int {
    if SIM {
        return 0;
    }
    let r: extern "C" fn(libc::pthread_t) -> c_int = std::mem::transmute(real(b"pthread_detach\0"));
    r(t)
}
