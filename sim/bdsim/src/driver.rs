//! The command line: seeded search over many runs, replay of one, and self-tests.
use crate::exec;
use crate::minimise::Minimiser;
use crate::props::{self, Lab, Verdict};
use crate::rng::mix;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

struct Opts {
    m: BTreeMap<String, String>,
}
impl Opts {
    fn parse(a: &[String]) -> (Vec<String>, Opts) {
        let mut pos = vec![];
        let mut m = BTreeMap::new();
        let mut i = 0;
        while i < a.len() {
            if let Some(k) = a[i].strip_prefix("--") {
                m.insert(k.to_string(), a.get(i + 1).cloned().unwrap_or_default());
                i += 2;
            } else {
                pos.push(a[i].clone());
                i += 1;
            }
        }
        (pos, Opts { m })
    }
    fn s(&self, k: &str) -> Option<&str> {
        self.m.get(k).map(|s| s.as_str())
    }
    fn n(&self, k: &str) -> Option<u64> {
        self.s(k).and_then(|s| s.parse().ok())
    }
}

pub fn main(a: Vec<String>) -> i32 {
    let (pos, o) = Opts::parse(&a);
    match pos.first().map(|s| s.as_str()) {
        Some("check") if pos.len() > 1 => check(&pos[1], &o),
        Some("replay") if pos.len() > 1 => replay(&pos[1]),
        Some("observe") => observe(),
        Some("show") if pos.len() > 1 => show(&pos[1], &o),
        Some("render") if pos.len() > 2 => {
            // the frames of a plan, to look at
            let plan: Value = serde_json::from_str(&std::fs::read_to_string(&pos[1]).expect("plan")).expect("json");
            let plan = if plan["plan"].is_object() { plan["plan"].clone() } else { plan };
            for (t, task) in plan["tasks"].as_array().unwrap().iter().enumerate() {
                for (k, op) in task["ops"].as_array().unwrap().iter().enumerate() {
                    if op["w"].is_u64() {
                        crate::ops::image_of(op, false).save(format!("{}-{}-{}.png", pos[2], t, k)).expect("png");
                    }
                }
            }
            0
        }
        Some("determinism") => determinism(&o),
        Some("run") if pos.len() > 1 => {
            let plan: Value = serde_json::from_str(&std::fs::read_to_string(&pos[1]).expect("plan")).expect("json");
            let r = exec::run(&plan, o.s("record").is_some());
            println!("{:#?}", Brief(&r));
            0
        }
        _ => {
            eprintln!("check ID [--tier T --seed N --runs N --workers N --secs N --evidence F --replays D --known F] | replay FILE | show ID --index N | run PLAN | observe | determinism");
            2
        }
    }
}

struct Brief<'a>(&'a exec::Outcome);
impl std::fmt::Debug for Brief<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let mut o = self.0.clone();
        o.coverage = vec![];
        write!(f, "{:#?}", o)
    }
}

/// Results of each operation, for the comparison of two builds.
fn observe() -> i32 {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).expect("stdin");
    let plan: Value = serde_json::from_str(&s).expect("plan");
    let o = exec::run(&plan, false);
    if let Some(h) = o.hang.or(o.died) {
        let none: Vec<Vec<Value>> = plan["tasks"]
            .as_array()
            .unwrap()
            .iter()
            .map(|t| t["ops"].as_array().unwrap().iter().map(|_| json!({ "lost": h })).collect())
            .collect();
        println!("{}", json!(none));
    } else {
        println!("{}", json!(o.obs));
    }
    0
}

fn show(p: &str, o: &Opts) -> i32 {
    let mut lab = Lab::default();
    let seed = o.n("seed").unwrap_or(1);
    let plan = props::generate(p, seed, o.n("index").unwrap_or(0), &mut lab);
    if o.s("plan").is_some() {
        println!("{}", serde_json::to_string_pretty(&plan).unwrap());
        return 0;
    }
    let v = props::judge(&plan, &mut lab);
    println!("{:#?}\nverdict {:?} hash {:016x}", Brief(&lab.last), v, lab.run_hash);
    0
}

// ------------------------------------------------------------------ known findings

struct Known {
    property: String,
    class: String,
    has: String,
    what: String,
}

/// Lines `finding: property=<id> class=<class> input=<text that must occur in the violation> :: what fails`.
fn known(o: &Opts) -> Vec<Known> {
    let Some(f) = o.s("known") else { return vec![] };
    let Ok(s) = std::fs::read_to_string(f) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (head, what) = l.split_once(" :: ")?;
            let (property, rest) = head.split_once(" class=")?;
            let (class, has) = rest.split_once(" input=")?;
            Some(Known { property: property.into(), class: class.into(), has: has.into(), what: what.into() })
        })
        .collect()
}

// ------------------------------------------------------------------ check

struct Shared {
    first_bad: *const AtomicU64,
    next: *const AtomicU64,
}
impl Shared {
    fn new() -> Shared {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let a = p as *const AtomicU64;
            (*a).store(u64::MAX, Ordering::SeqCst);
            Shared { first_bad: a, next: a.add(8) }
        }
    }
    fn bad(&self) -> u64 {
        unsafe { (*self.first_bad).load(Ordering::SeqCst) }
    }
    /// The next run nobody has taken.
    fn take(&self) -> u64 {
        unsafe { (*self.next).fetch_add(1, Ordering::SeqCst) }
    }
    fn found(&self, i: u64) {
        unsafe { (*self.first_bad).fetch_min(i, Ordering::SeqCst) };
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(p: &str, seed: u64, n: u64, runs: u64, until: Instant, sh: &Shared, known: &[Known]) -> Value {
    let mut lab = Lab::default();
    let mut done = 0u64;
    let mut last = None;
    let mut found: Option<(u64, Value, Verdict)> = None;
    let mut samples = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut rechecked = 0u64;
    let mut unstable = vec![];
    let mut discard = Lab::default();
    loop {
        let i = sh.take();
        if i >= runs {
            break;
        }
        if Instant::now() >= until || sh.bad() < i {
            break;
        }
        let plan = props::generate(p, seed, i, &mut lab);
        let v = props::judge(&plan, &mut lab);
        done += 1;
        last = Some(i);
        if let Some(v) = v {
            match known.iter().find(|k| k.property == p && k.class == v.class && v.detail.contains(&k.has)) {
                Some(k) => *known_hits.entry(k.what.clone()).or_insert(0) += 1,
                None => {
                    sh.found(i);
                    found = Some((i, plan, v));
                    break;
                }
            }
        } else if mix(&[seed, i, 77]) % 64 == 0 {
            // the same seed again, from scratch: it has to be the same execution
            let h = lab.run_hash;
            let again = props::generate(p, seed, i, &mut discard);
            let _ = props::judge(&again, &mut discard);
            rechecked += 1;
            if discard.run_hash != h || again != plan {
                unstable.push(i);
            }
        }
        if samples.len() < 2 && i < 3 * n {
            samples.push(sample(&plan, &lab));
        }
    }
    json!({
        "done": done, "last": last, "samples": samples, "rechecked": rechecked, "unstable": unstable,
        "known": known_hits,
        "found": found.map(|(i, p, v)| json!({"index": i, "plan": p, "class": v.class, "detail": v.detail})),
        "counters": lab.counters, "cov": lab.cov, "scheds": lab.scheds, "distinct": lab.distinct, "evals": lab.evals,
        "execs": lab.execs, "steps": lab.steps, "sim_ns": lab.sim_ns, "switches": lab.switches, "multi": lab.multi,
        "maxima": lab.maxima,
    })
}

/// A case of this run, written out short enough to read.
fn sample(plan: &Value, lab: &Lab) -> Value {
    fn cut(v: &Value, depth: usize) -> Value {
        match v {
            Value::String(s) if s.len() > 80 => json!(format!("{}... ({} characters)", s.chars().take(60).collect::<String>(), s.len())),
            Value::Array(a) => {
                let mut o: Vec<Value> = a.iter().take(6).map(|x| cut(x, depth + 1)).collect();
                if a.len() > 6 {
                    o.push(json!(format!("... {} in all", a.len())));
                }
                Value::Array(o)
            }
            Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), cut(x, depth + 1))).collect()),
            x => x.clone(),
        }
    }
    json!({"plan": cut(plan, 0), "observed": cut(&json!(lab.last.obs), 0), "history": cut(&json!(lab.last.events), 0),
        "execution_hash": format!("{:016x}", lab.run_hash)})
}

fn spawn(f: impl FnOnce() -> Value) -> (i32, std::fs::File) {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| json!({"harness": "panicked"}));
            let mut out = std::fs::File::from_raw_fd(fds[1]);
            let _ = out.write_all(&serde_json::to_vec(&r).unwrap());
            drop(out);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        (pid, std::fs::File::from_raw_fd(fds[0]))
    }
}

fn check(p: &str, o: &Opts) -> i32 {
    let start = Instant::now();
    if !props::ALL.contains(&p) {
        eprintln!("unknown property {}", p);
        return 2;
    }
    let tier = o.s("tier").unwrap_or("quick").to_string();
    let seed = o.n("seed").unwrap_or(1);
    let quick = props::quick_runs(p);
    let runs = o.n("runs").unwrap_or(if tier == "thorough" { quick * 20 } else { quick });
    let workers = o.n("workers").unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64)).max(1);
    // time is only a stop for slow machines; what a run is depends on its seed alone
    let secs = o.n("secs").unwrap_or(if tier == "thorough" { 3000 } else { 300 });
    let until = start + Duration::from_secs(secs);
    let known = known(o);
    let sh = Shared::new();
    let mut kids = vec![];
    for _ in 0..workers {
        kids.push(spawn(|| worker(p, seed, workers, runs, until, &sh, &known)));
    }
    let mut parts: Vec<Value> = vec![];
    for (pid, mut f) in kids {
        let mut b = vec![];
        let _ = f.read_to_end(&mut b);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<Value>(&b) {
            Ok(v) if v.get("harness").is_none() => parts.push(v),
            _ => {
                eprintln!("a worker failed (status {})", st);
                return 2;
            }
        }
    }
    let sum = |k: &str| parts.iter().map(|x| x[k].as_u64().unwrap_or(0)).sum::<u64>();
    let set = |k: &str| {
        let mut s = BTreeSet::new();
        for x in &parts {
            s.extend(x[k].as_array().into_iter().flatten().map(|v| v.as_u64().unwrap()));
        }
        s
    };
    let map = |k: &str, max: bool| {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for x in &parts {
            for (k, v) in x[k].as_object().into_iter().flatten() {
                let e = m.entry(k.clone()).or_insert(0);
                let v = v.as_u64().unwrap_or(0);
                *e = if max { (*e).max(v) } else { *e + v };
            }
        }
        m
    };
    let counters = map("counters", false);
    let done = sum("done");
    let searched = start.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut code = 0;
    let first = parts.iter().filter(|x| x["found"].is_object()).min_by_key(|x| x["found"]["index"].as_u64().unwrap());
    let mut report = Value::Null;
    if let Some(x) = first {
        violations = 1;
        code = 1;
        let f = &x["found"];
        let v = Verdict { class: f["class"].as_str().unwrap().into(), detail: f["detail"].as_str().unwrap().into() };
        eprintln!("run {} of seed {}: {}: {}", f["index"], seed, v.class, v.detail);
        let budget = o.n("minimise-secs").unwrap_or(if v.class == "hang" { 60 } else { 45 });
        let mut lab = Lab::default();
        let mut m = Minimiser::new(&v, &mut lab, Instant::now() + Duration::from_secs(budget));
        let small = m.run(f["plan"].clone());
        let tries = m.tries;
        let mut lab = Lab::default();
        let v2 = props::judge(&small, &mut lab).unwrap_or(v);
        let file = json!({
            "property": p, "seed": seed, "run": f["index"], "class": v2.class, "what": v2.detail,
            "plan": small, "schedule_and_faults": lab.last.events, "fired": lab.last.counters,
            "execution_hash": format!("{:016x}", lab.run_hash), "minimiser_runs": tries,
            "original_plan_bytes": f["plan"].to_string().len(), "plan_bytes": small.to_string().len(),
        });
        let dir = o.s("replays").unwrap_or("/verif/replays");
        let _ = std::fs::create_dir_all(dir);
        let path = format!("{}/{}-{}-{}.json", dir, p, seed, f["index"]);
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).expect("replay file");
        eprintln!("minimised to {} bytes in {} runs: {}: {}", small.to_string().len(), tries, v2.class, v2.detail);
        println!("VIOLATION property={} replay={}", p, path);
        report = json!({"class": v2.class, "what": v2.detail, "replay": path});
    }
    for (k, n) in map("known", false) {
        println!("KNOWN-FINDING: property={} {} (met in {} runs)", p, k, n);
    }
    let unstable: Vec<u64> = parts.iter().flat_map(|x| x["unstable"].as_array().cloned().unwrap_or_default()).map(|v| v.as_u64().unwrap()).collect();
    if !unstable.is_empty() {
        eprintln!("warning: runs {:?} were not the same execution when repeated", unstable);
    }
    let wall = start.elapsed().as_secs_f64();
    let (mut faults, mut probes, mut seams, mut combos) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new(), 0u64);
    for (k, v) in &counters {
        if let Some(n) = k.strip_prefix("probe:") {
            probes.insert(n.to_string(), *v);
        } else if k.starts_with("combo:") {
            combos += 1;
        } else if k.starts_with("fscall:") || matches!(k.as_str(), "futex_waits" | "threads_spawned" | "clock_reads" | "entropy_reads") {
            seams.insert(k.clone(), *v);
        } else if *v > 0 {
            faults.insert(k.strip_prefix("fault:").unwrap_or(k).to_string(), *v);
        }
    }
    let samples: Vec<Value> = parts.iter().flat_map(|x| x["samples"].as_array().cloned().unwrap_or_default()).take(3).collect();
    let cov = set("cov").len() as u64;
    let scheds = set("scheds").len() as u64;
    let ev = json!({
        "property": p, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum("evals"),
            "distinct_nontrivial": set("distinct").len(),
            "rule": props::rule(p),
            "samples": samples,
            "simulated_runs": done,
            "runs_asked_for": runs,
            "stopped_by_time": done < runs && violations == 0,
            "executions": sum("execs"),
            "runs_per_hour": (done as f64 / searched * 3600.0) as u64,
            "seeds_per_hour": (done as f64 / searched * 3600.0) as u64,
            "simulated_time_s": sum("sim_ns") as f64 / 1e9,
            "steps_of_real_code": sum("steps"),
            "faults_injected": faults,
            "situations_reached": probes,
            "version_level_pairs": combos,
            "runs_with_context_switches": sum("multi"),
            "context_switches": sum("switches"),
            "distinct_interleavings": scheds,
            "interleaving_measure": "sequences of (code edge, kind of place, task, operation, next task) over all switches of a run",
            "code_edges_reached": cov,
            "code_edges_instrumented": crate::sim::guards(),
            "maxima": map("maxima", true),
            "seam_calls": seams,
            "repeated_for_determinism": sum("rechecked"),
            "not_repeatable": unstable,
            "real_code": "bardecoder from /repo's working tree (prepare, detect, extract, decode, utilities, Decoder and builder), and the image crate it uses",
            "stubs": "clock, sleep, entropy, file system, processes, sockets, standard streams, futexes and thread creation (libc interposition); allocator (accounting, over the system's); log sink; the camera and the symbols in front of it; for C12 all four components, for C13 the detector",
            "workers": workers,
        },
        "assumptions": [
            "the reference encoder/decoder of the harness (refqr.rs) follows ISO/IEC 18004; it shares no code with bardecoder",
            "code between two instrumented points (edges, loads, stores, allocations, log records, pixel reads, component and system calls) of bardecoder is atomic; memory is sequentially consistent",
            "code of the standard library and of dependencies is not preempted inside, except at allocations and blocking calls",
        ],
        "wall_s": wall,
        "violations": violations,
        "violation": report,
    });
    if let Some(f) = o.s("evidence") {
        if let Some(d) = std::path::Path::new(f).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(f, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    println!(
        "{} {} seed {}: {} runs, {} cases ({} distinct), {} steps, {} interleavings, {:.1} s{}",
        p,
        tier,
        seed,
        done,
        sum("evals"),
        set("distinct").len(),
        sum("steps"),
        scheds,
        wall,
        if code == 0 { ": held" } else { "" }
    );
    code
}

fn replay(path: &str) -> i32 {
    let f: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let mut hashes = BTreeSet::new();
    let mut verdict = None;
    for _ in 0..3 {
        let mut lab = Lab::default();
        let v = props::judge(&f["plan"], &mut lab);
        hashes.insert(format!("{:016x} {:?}", lab.run_hash, v.as_ref().map(|v| (&v.class, &v.detail))));
        if verdict.is_none() {
            for e in &lab.last.events {
                println!("  {}", e);
            }
        }
        verdict = Some((v, lab.run_hash));
    }
    let (v, h) = verdict.unwrap();
    if hashes.len() != 1 {
        println!("three executions of the plan were not the same: {:?}", hashes);
        return 2;
    }
    let same = format!("{:016x}", h) == f["execution_hash"].as_str().unwrap_or("");
    match v {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("execution {:016x}, {} the recorded one", h, if same { "identical to" } else { "different from" });
            println!("VIOLATION property={} replay={}", f["property"].as_str().unwrap_or("?"), path);
            1
        }
        None => {
            println!("the property held; execution {:016x}, {} the recorded one", h, if same { "identical to" } else { "different from" });
            0
        }
    }
}

/// Every property: the same seeds twice, in different processes, have to give the same executions.
fn determinism(o: &Opts) -> i32 {
    let n = o.n("runs").unwrap_or(40);
    let seed = o.n("seed").unwrap_or(1);
    let mut bad = 0;
    for p in props::ALL {
        if *p == "C14" && std::env::var_os("BDSIM_PLAIN").is_none() {
            continue;
        }
        let hashes = |k: u64| -> Vec<String> {
            let (pid, mut f) = spawn(|| {
                let mut lab = Lab::default();
                let mut out = vec![];
                // another order, another history of the process
                let order: Vec<u64> = if k == 0 { (0..n).collect() } else { (0..n).rev().collect() };
                for i in order {
                    let plan = props::generate(p, seed, i, &mut lab);
                    let v = props::judge(&plan, &mut lab);
                    out.push(format!("{:04} {:016x} {:?}", i, lab.run_hash, v));
                }
                out.sort();
                json!(out)
            });
            let mut b = vec![];
            let _ = f.read_to_end(&mut b);
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            serde_json::from_slice(&b).unwrap_or_default()
        };
        let (a, b) = (hashes(0), hashes(1));
        let d = a.iter().zip(&b).filter(|(x, y)| x != y).count();
        println!("{}: {} runs twice, {} differ", p, a.len(), d);
        if d > 0 || a.len() != n as usize || b.len() != a.len() {
            bad = 1;
            for (x, y) in a.iter().zip(&b).filter(|(x, y)| x != y).take(3) {
                println!("  {}\n  {}", x, y);
            }
        }
    }
    bad
}
