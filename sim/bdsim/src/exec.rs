//! Executing one plan in a forked child, so that every run starts from the same pristine process
//! image and a crash, abort or hang of the code under test cannot take the simulator with it.
#![allow(static_mut_refs)]
use crate::ops;
use crate::sim::{self, Env, Preempt};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// Exit status of a child in which the harness itself failed.
const HARNESS_FAULT: i32 = 117;
static mut OUT_FD: i32 = -1;
static mut OBS: Vec<Vec<Value>> = Vec::new();
static mut OPSTATS: Vec<Vec<Value>> = Vec::new();
static mut CRASHED: bool = false;

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// observations per task, per operation
    pub obs: Vec<Vec<Value>>,
    pub stats: Vec<Vec<Value>>,
    pub hash: u64,
    pub events: Vec<String>,
    pub total: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub hang: Option<String>,
    /// simulated process crash (power cut) took place
    pub crashed: bool,
    /// the child died for real
    pub died: Option<String>,
    pub counters: BTreeMap<String, u64>,
    pub coverage: Vec<u32>,
    pub disk: Vec<(String, i64)>,
    pub clock_ns: i64,
}

pub fn env_of(plan: &Value) -> Env {
    let e = &plan["env"];
    Env {
        clock_ns: e["clock"].as_i64().unwrap_or(1_700_000_000_000_000_000),
        clock_jumps: e["jumps"]
            .as_array()
            .map(|a| a.iter().map(|x| (x[0].as_u64().unwrap(), x[1].as_i64().unwrap())).collect())
            .unwrap_or_default(),
        entropy: e["entropy"].as_u64().unwrap_or(1),
        vars: e["vars"].as_u64().unwrap_or(0),
        words: e["words"]
            .as_array()
            .into_iter()
            .flatten()
            .filter_map(|w| std::ffi::CString::new(w.as_str()?).ok())
            .collect(),
        log_level: e["log"].as_u64().unwrap_or(0) as u8,
        sched_seed: e["sched"].as_u64().unwrap_or(0),
        budget: e["budget"].as_u64().unwrap_or(6_000_000_000),
    }
}

pub fn preempts_of(plan: &Value) -> Vec<Preempt> {
    plan["preempt"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|x| Preempt {
                    task: x[0].as_u64().unwrap() as usize,
                    op: x[1].as_u64().unwrap() as usize,
                    step: x[2].as_u64().unwrap(),
                    to: x[3].as_u64().unwrap() as usize,
                })
                .collect()
        })
        .unwrap_or_default()
}

fn send_all() {
    unsafe {
        let g = sim::g();
        let mut cov = vec![];
        for (i, c) in sim::coverage().iter().enumerate() {
            if *c != 0 {
                cov.push(i as u32);
            }
        }
        let mut counters: BTreeMap<String, u64> = BTreeMap::new();
        for (e, s) in &g.switch_sites {
            *counters.entry(format!("preempt@{}", s.name())).or_insert(0) += 1;
            let _ = e;
        }
        for (k, v) in &g.fs.fired {
            *counters.entry(format!("disk:{}", k)).or_insert(0) += v;
        }
        for (k, v) in &g.fs.counts {
            *counters.entry(format!("fscall:{}", k)).or_insert(0) += v;
        }
        counters.insert("futex_waits".into(), g.futex_waits);
        counters.insert("threads_spawned".into(), g.threads_spawned);
        counters.insert("clock_reads".into(), sim::clock_reads());
        counters.insert("entropy_reads".into(), g.entropy_read);
        counters.insert("environment_reads".into(), g.env_read);
        counters.insert("processor_count_reads".into(), g.cpu_read);
        for (k, v) in ops::fired() {
            *counters.entry(k.clone()).or_insert(0) += v;
        }
        let mut sh = 0xcbf29ce484222325u64;
        for (e, s) in &g.switch_sites {
            sim::mix_hash(&mut sh, &format!("{}:{}", e, s.name()));
        }
        for e in &g.events {
            if e.contains("->t") && !e.contains(" -> ") {
                // task pair and operation of each switch, without the step
                let head = e.split('@').next().unwrap_or("");
                let tail = e.rsplit("->").next().unwrap_or("");
                sim::mix_hash(&mut sh, head);
                sim::mix_hash(&mut sh, tail);
            }
        }
        let v = json!({
            "obs": OBS.clone(), "stats": OPSTATS.clone(), "hash": g.hash, "events": g.events, "total": g.total,
            "switches": g.switch_sites.len(), "sched_hash": sh, "hang": g.hang, "crashed": CRASHED,
            "counters": counters, "coverage": cov, "clock": sim::now_ns(false),
            "disk": g.fs.nodes.iter().map(|(k, v)| json!([k, v.as_ref().map_or(-1, |d| d.len() as i64)])).collect::<Vec<_>>(),
        });
        let s = serde_json::to_vec(&v).unwrap();
        let mut off = 0;
        while off < s.len() {
            let n = libc::write(OUT_FD, s[off..].as_ptr() as *const _, s.len() - off);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
    }
}

/// Called from any simulated thread, with SIM off: report what there is and end the process.
pub fn emergency_exit() -> ! {
    unsafe {
        sim::SIM = false;
        send_all();
        libc::_exit(0)
    }
}

/// A simulated power cut.
pub fn crash_exit() -> ! {
    unsafe {
        CRASHED = true;
    }
    emergency_exit()
}

struct SimLog;
impl log::Log for SimLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct Sink(u64);
        impl std::fmt::Write for Sink {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += s.len() as u64;
                Ok(())
            }
        }
        sim::seam(sim::Site::Log);
        let mut s = Sink(0);
        let _ = std::fmt::write(&mut s, *r.args());
    }
    fn flush(&self) {}
}
static LOGGER: SimLog = SimLog;

pub fn init_process() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Off);
    sim::probe_log();
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<Knock>() {
            unsafe { ANSWERED = true };
            return;
        }
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if unsafe { sim::SIM } {
            sim::masked(|| ops::note_panic(format!("{} at {}", msg, loc)));
        } else {
            eprintln!("harness panic: {} at {}", msg, loc);
            if unsafe { OUT_FD >= 0 } {
                // in the child of a run, possibly on a thread nobody waits for
                unsafe { libc::_exit(HARNESS_FAULT) };
            }
        }
    }));
}

/// Is the application's panic hook still in place?
struct Knock;
static mut ANSWERED: bool = false;

/// What an operation may leave behind in its process: nothing.
fn leftovers(level: log::LevelFilter) {
    unsafe { ANSWERED = false };
    let _ = std::panic::catch_unwind(|| std::panic::panic_any(Knock));
    if unsafe { !ANSWERED } {
        sim::effect("replaced the panic hook".into());
    }
    if log::max_level() != level {
        sim::effect("changed the level of the log facade".into());
        log::set_max_level(level);
    }
}

fn child(plan: &Value, record: bool) -> ! {
    unsafe {
        let env = env_of(plan);
        let tasks = plan["tasks"].as_array().cloned().unwrap_or_default();
        let pre = if record { vec![] } else { preempts_of(plan) };
        sim::STALE = (env.entropy >> 9) as u8;
        sim::setup(&env, tasks.len().max(1), &pre, record);
        ops::setup_disk(plan);
        OBS = tasks.iter().map(|_| vec![]).collect();
        OPSTATS = OBS.clone();
        if tasks.len() == 1 || record {
            // in recording mode the tasks run one after the other
            for (i, t) in tasks.into_iter().enumerate() {
                run_body(i, t, record);
            }
        } else {
            let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
            for (i, t) in tasks.into_iter().enumerate() {
                bodies.push(Box::new(move || run_body(i, t, false)));
            }
            sim::run_tasks(bodies);
        }
        sim::event("end".into());
        send_all();
        libc::_exit(0)
    }
}

fn run_body(ti: usize, task: Value, record: bool) {
    let mut ctx = ops::Ctx::new();
    let mut delivered: BTreeMap<u64, std::collections::BTreeSet<String>> = BTreeMap::new();
    for (k, op) in task["ops"].as_array().unwrap().iter().enumerate() {
        // operations keep their number when a plan is minimised
        let id = op["id"].as_u64().unwrap_or(k as u64) as usize;
        if let Some(at) = op["at_ns"].as_i64() {
            sim::advance_clock(at);
        }
        sim::begin_op(id);
        // a client that has all it wanted stops presenting
        let done = match (op["g"].as_u64(), op["need"].as_u64()) {
            (Some(g), Some(n)) => delivered.entry(g).or_default().len() as u64 >= n,
            _ => false,
        };
        let level = log::max_level();
        let o = if done { json!({"skipped": true}) } else { ops::execute(op, &mut ctx) };
        sim::masked(|| leftovers(level));
        if let Some(g) = op["g"].as_u64() {
            for x in o["res"].as_array().into_iter().flatten() {
                if let Some(t) = x["ok"].as_str() {
                    delivered.entry(g).or_default().insert(t.to_string());
                }
            }
        }
        let st = sim::end_op(&o.to_string());
        let mut v = json!({"steps": st.steps, "allocs": st.allocs, "peak": st.peak, "live": st.live,
            "logs": st.logs, "pixels": st.pixels, "effects": st.effects, "id": id});
        if record {
            v["places"] = Value::Array(st.places.iter().map(|(s, k)| json!([s, k.name()])).collect());
        }
        unsafe {
            OBS[ti].push(o);
            OPSTATS[ti].push(v);
        }
    }
}

fn parse(v: Value) -> Outcome {
    let arr2 = |x: &Value| -> Vec<Vec<Value>> {
        x.as_array()
            .map(|a| a.iter().map(|t| t.as_array().cloned().unwrap_or_default()).collect())
            .unwrap_or_default()
    };
    Outcome {
        obs: arr2(&v["obs"]),
        stats: arr2(&v["stats"]),
        hash: v["hash"].as_u64().unwrap_or(0),
        events: v["events"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default(),
        total: v["total"].as_u64().unwrap_or(0),
        switches: v["switches"].as_u64().unwrap_or(0),
        sched_hash: v["sched_hash"].as_u64().unwrap_or(0),
        hang: v["hang"].as_str().map(|s| s.to_string()),
        crashed: v["crashed"].as_bool().unwrap_or(false),
        died: None,
        counters: v["counters"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect()).unwrap_or_default(),
        coverage: v["coverage"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()).unwrap_or_default(),
        disk: v["disk"].as_array().map(|a| a.iter().map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_i64().unwrap())).collect()).unwrap_or_default(),
        clock_ns: v["clock"].as_i64().unwrap_or(0),
    }
}

/// Run the plan in a fresh child. `record` runs the tasks one after another and notes the places
/// where a preemption would be interesting.
pub fn run(plan: &Value, record: bool) -> Outcome {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            OUT_FD = fds[1];
            let lim = libc::rlimit { rlim_cur: 90, rlim_max: 95 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            // a thread as Rust starts them has this much
            let stack = libc::rlimit { rlim_cur: 2 << 20, rlim_max: 2 << 20 };
            libc::setrlimit(libc::RLIMIT_STACK, &stack);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let mem = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            child(plan, record);
        }
        libc::close(fds[1]);
        let mut buf: Vec<u8> = Vec::new();
        let mut chunk = vec![0u8; 1 << 16];
        loop {
            let n = libc::read(fds[0], chunk.as_mut_ptr() as *mut _, chunk.len());
            if n < 0 {
                if *libc::__errno_location() == libc::EINTR {
                    continue;
                }
                break;
            }
            if n == 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        match serde_json::from_slice::<Value>(&buf) {
            Ok(v) => parse(v),
            Err(_) => {
                let why = if libc::WIFSIGNALED(st) {
                    match libc::WTERMSIG(st) {
                        libc::SIGXCPU | libc::SIGKILL => "used up its processor time (hang)".to_string(),
                        s => format!("died of signal {}", s),
                    }
                } else if libc::WEXITSTATUS(st) == HARNESS_FAULT {
                    panic!("the harness failed in the child");
                } else {
                    format!("exited with status {}", libc::WEXITSTATUS(st))
                };
                Outcome { died: Some(why), ..Default::default() }
            }
        }
    }
}
