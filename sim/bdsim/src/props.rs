//! The properties: how a run of each is generated from its seed, and how its history is judged.
use crate::exec::{self, Outcome};
use crate::gen::*;
use crate::ops::{damage, hex, segs_of, segs_to_json, symbol_of, unhex};
use crate::refqr::*;
use crate::rng::{mix, Rng};
use crate::sim::hash_str;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug)]
pub struct Verdict {
    pub class: String,
    pub detail: String,
}
fn bad(class: &str, detail: String) -> Option<Verdict> {
    Some(Verdict { class: class.into(), detail })
}

/// Executes plans and keeps count of what happened.
#[derive(Default)]
pub struct Lab {
    memo: HashMap<String, Value>,
    pub counters: BTreeMap<String, u64>,
    pub cov: BTreeSet<u32>,
    pub scheds: BTreeSet<u64>,
    pub distinct: BTreeSet<u64>,
    pub evals: u64,
    pub execs: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub multi: u64,
    pub last: Outcome,
    pub run_hash: u64,
    pub log_runs: Vec<(u64, u64)>,
    pub maxima: BTreeMap<String, u64>,
}

impl Lab {
    pub fn go(&mut self, plan: &Value, record: bool) -> Outcome {
        let o = exec::run(plan, record);
        self.execs += 1;
        self.steps += o.total;
        if !record {
            for (k, v) in &o.counters {
                *self.counters.entry(k.clone()).or_insert(0) += v;
            }
            self.cov.extend(o.coverage.iter());
            let start = exec::env_of(plan).clock_ns;
            self.sim_ns += (o.clock_ns - start).max(0) as u64;
            self.switches += o.switches;
            if o.switches > 0 {
                self.multi += 1;
                self.scheds.insert(o.sched_hash);
            }
            self.run_hash = mix(&[self.run_hash, o.hash]);
            self.last = o.clone();
        }
        o
    }
    fn hit(&mut self, k: &str) {
        *self.counters.entry(k.into()).or_insert(0) += 1;
    }
    fn max(&mut self, k: &str, v: u64) {
        let e = self.maxima.entry(k.into()).or_insert(0);
        *e = (*e).max(v);
    }
    /// One checked case, and what makes it distinct (None: trivial).
    fn case(&mut self, key: Option<String>) {
        self.evals += 1;
        if let Some(k) = key {
            self.distinct.insert(hash_str(&k));
        }
    }
    /// What the operation does alone, in a process that has never done anything else.
    pub fn pristine(&mut self, op: &Value) -> Value {
        let mut o = op.clone();
        if let Some(m) = o.as_object_mut() {
            for k in ["id", "at_ns", "ctl", "fresh"] {
                m.remove(k);
            }
        }
        let key = o.to_string();
        if let Some(v) = self.memo.get(&key) {
            return v.clone();
        }
        let p = json!({"env": {"budget": BUDGET, "log": 0}, "tasks": [{"ops": [o]}]});
        let r = exec::run(&p, false);
        self.execs += 1;
        self.steps += r.total;
        let v = if let Some(h) = r.hang.or(r.died) {
            json!({ "lost": h })
        } else {
            r.obs.first().and_then(|t| t.first()).cloned().unwrap_or(Value::Null)
        };
        if self.memo.len() > 400 {
            self.memo.clear();
        }
        self.memo.insert(key, v.clone());
        v
    }
}

/// Steps an operation may take before it counts as not terminating. The costliest operation that
/// is generated takes about a thirtieth of this.
pub const BUDGET: u64 = 4_000_000_000;

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C20",
];

/// Simulated runs of a quick check.
pub fn quick_runs(p: &str) -> u64 {
    match p {
        "C01" => 8000,
        "C02" => 8000,
        "C03" => 8000,
        "C04" => 6000,
        "C05" => 20000,
        "C06" => 40000,
        "C07" => 4000,
        "C08" => 3500,
        "C09" => 6000,
        "C10" => 1500,
        "C11" => 3500,
        "C12" => 30000,
        "C13" => 4000,
        "C14" => 900,
        "C15" => 900,
        "C16" => 5000,
        "C17" => 6000,
        "C18" => 600,
        "C20" => 3000,
        _ => 100,
    }
}

/// How the cases of a property are made, and what makes one count.
pub fn rule(p: &str) -> &'static str {
    match p {
        "C01" | "C03" => "one case = one symbol (walk over the 160 version/level pairs, random mask, random segments) with seeded damage of at most the guaranteed capacity in every block, in a history of several symbols on one decoder; distinct and non-trivial = at least one module changed, counted by version, level, mask, errors per block, format flips and exact damage",
        "C02" => "one case = one symbol damaged beyond capacity in at least one block (or placed next to another codeword, or smudged); distinct and non-trivial = really beyond capacity, counted by exact damage",
        "C04" => "one case = one symbol with seeded damage to the two copies of its format information; distinct and non-trivial = some format bit flipped, counted by version, level, mask and exact damage",
        "C05" => "one case = one symbol with a complete, full, torn, corrupted or made-up data stream; distinct = by version, level and stream",
        "C06" => "one case = one sequence of reads of one byte sequence; distinct = by bytes and requests",
        "C07" | "C08" => "one case = one operation whose result was compared with what it gives alone in a fresh process; distinct = by operation",
        "C09" => "one case = one frame (noise, false patterns, symbols, camera faults); distinct = by its description",
        "C10" => "one case = one group of up to eight clean presentations; distinct = by the texts to be delivered",
        "C11" => "one case = one frame decoded while it is being overwritten, or one still picture in every container; distinct = by its description",
        "C12" => "one case = one build and use of a pipeline of scripted components; distinct = by script",
        "C13" => "one case = one frame with several symbols and a list of true and bogus locations; distinct and non-trivial = more than one location, by description",
        "C14" => "one case = one operation of the debug-images build on one faulty disk; distinct = by operation and disk",
        "C15" => "one case = one long history of operations of which the live and peak bytes were followed; distinct = by first operation",
        "C17" => "one case = one frame prepared before and after a late fault, with seeded block sizes; distinct = by its description",
        "C20" => "one case = one symbol in a black and white picture whose modules were read, with and without what is around it; distinct = by its description",
        "C18" => "one case = one frame in which symbols were looked for; distinct = by its description",
        _ => "one case = one operation of the default build, all outward calls of which were recorded; distinct = by operation",
    }
}

fn finish(mut plan: Value, rng: &mut Rng) -> Value {
    if plan["env"].is_null() {
        plan["env"] = json!({"sched": rng.next() >> 1});
    }
    if plan["env"]["budget"].is_null() {
        plan["env"]["budget"] = json!(BUDGET);
    }
    for t in plan["tasks"].as_array_mut().unwrap() {
        for (k, o) in t["ops"].as_array_mut().unwrap().iter_mut().enumerate() {
            o["id"] = json!(k);
        }
    }
    plan
}

pub fn generate(prop: &str, seed: u64, index: u64, lab: &mut Lab) -> Value {
    let pn: u64 = prop[1..].parse().unwrap();
    let mut rng = Rng::new(mix(&[seed, pn, index]));
    let r = &mut rng;
    let plan = match prop {
        "C01" => gen_repair(r, seed, index, false),
        "C02" => gen_beyond(r, seed, index),
        "C03" => gen_repair(r, seed, index, true),
        "C04" => gen_format(r, seed, index),
        "C05" => gen_payload(r, index),
        "C06" => gen_chomp(r),
        "C07" => gen_concurrent(r),
        "C08" => gen_history(r),
        "C09" if index == 0 => {
            let mut p = gen_crowd(r, index);
            p["tasks"][0]["ops"][0] = json!({"op": "frame", "src": "sim", "w": 340, "h": 340, "fx": [["crowd", 6, 6, 32, 10, 1]]});
            // there is no need to wait longer
            p["env"]["budget"] = json!(BUDGET / 8);
            p
        }
        "C09" => gen_garbled(r),
        "C10" => gen_delivery(r, index),
        "C11" => gen_live(r),
        "C12" => gen_pipelines(r),
        "C13" => gen_neighbours(r),
        "C14" => gen_debug_disk(r),
        "C15" if index < 2 => gen_crowd(r, index),
        "C15" => gen_memory(r),
        "C17" => gen_prepare(r),
        "C18" => gen_locate(r, index),
        "C20" => gen_extract(r),
        _ => gen_effects(r),
    };
    let mut plan = finish(plan, r);
    plan["prop"] = json!(prop);
    plan["seed"] = json!(seed);
    plan["index"] = json!(index);
    let n = plan["tasks"].as_array().unwrap().len();
    if n > 1 {
        let rec = lab.go(&plan, true);
        plan["preempt"] = Value::Array(preemptions(r, &rec, n));
    }
    plan
}

/// Judge the plan: run it, and compare the recorded history with the model.
pub fn judge(plan: &Value, lab: &mut Lab) -> Option<Verdict> {
    lab.run_hash = 0;
    let prop = plan["prop"].as_str().unwrap();
    if prop == "C14" {
        return judge_debug_disk(plan, lab);
    }
    let o = lab.go(plan, false);
    let crowds: String = plan["tasks"].as_array().unwrap().iter().flat_map(|t| t["ops"].as_array().unwrap()).map(crowd).collect();
    if let Some(h) = &o.hang {
        return bad("hang", format!("{}{}", h, crowds));
    }
    if let Some(h) = &o.died {
        return bad("died", format!("{}{}", h, crowds));
    }
    // cross invariant of every run: nothing leaves the process
    if prop == "C16" {
        return judge_effects(plan, &o, lab);
    }
    if prop == "C15" {
        return judge_memory(plan, &o, lab);
    }
    if prop == "C10" {
        return judge_delivery(plan, &o, lab);
    }
    if prop == "C18" {
        return judge_locate(plan, &o, lab);
    }
    for (t, task) in plan["tasks"].as_array().unwrap().iter().enumerate() {
        for (k, op) in task["ops"].as_array().unwrap().iter().enumerate() {
            let Some(obs) = o.obs.get(t).and_then(|x| x.get(k)) else {
                return bad("lost-operation", format!("task {} operation {} left no result", t, k));
            };
            if let Some(e) = obs.get("harness-error") {
                panic!("harness: {}", e);
            }
            let v = match prop {
                "C01" => judge_repair(op, obs, lab),
                "C02" => judge_beyond(op, obs, lab),
                "C03" => judge_account(op, obs, lab),
                "C04" => judge_format(op, obs, lab),
                "C05" => judge_payload(op, obs, lab),
                "C06" => judge_chomp(op, obs, lab),
                "C07" | "C08" => judge_isolated(op, obs, lab),
                "C09" => judge_garbled(op, obs, lab),
                "C11" => judge_live(op, obs, lab),
                "C12" => judge_pipeline(op, obs, lab),
                "C13" => judge_neighbours(op, obs, lab),
                "C20" => judge_extract(op, obs, lab),
                "C17" => judge_prepare(op, obs, lab),
                _ => None,
            };
            if let Some(mut v) = v {
                v.detail = format!("task {} operation {}: {}", t, k, v.detail);
                return Some(v);
            }
        }
    }
    None
}

// ------------------------------------------------------------------ what was sent, what arrived

struct Sent {
    text: Option<String>,
    version: usize,
    level: Level,
    modules: Vec<bool>,
    /// corrupted codewords per block
    block_errors: Vec<usize>,
    bit_errors: u32,
    fmt: [u32; 2],
}

fn sent(op: &Value) -> Sent {
    let s = symbol_of(op);
    let m = damage(&s, &op["faults"], false);
    let lay = &s.layout;
    let mut block_errors = vec![];
    let mut bit_errors = 0;
    for b in &lay.at {
        let mut n = 0;
        for c in b {
            let d = c.iter().filter(|k| m[**k as usize] != s.modules[**k as usize]).count();
            bit_errors += d as u32;
            n += usize::from(d > 0);
        }
        block_errors.push(n);
    }
    let fmt = [0, 1].map(|c| lay.fmt[c].iter().filter(|k| m[**k as usize] != s.modules[**k as usize]).count() as u32);
    let text = match op["raw"].as_str() {
        Some(r) => {
            let mut d = unhex(r);
            d.resize(data_codewords(s.version, s.level), 0);
            parse_stream(&d, s.version)
        }
        None => text_of(&segs_of(&op["segs"])),
    };
    Sent { text, version: s.version, level: s.level, modules: m, block_errors, bit_errors, fmt }
}

impl Sent {
    fn within(&self) -> bool {
        let cap = capacity(self.version, self.level);
        self.block_errors.iter().all(|e| *e <= cap)
    }
    /// Can the first copy be read unambiguously, or else the second?
    fn format_ok(&self) -> bool {
        self.fmt[0] <= 3
            || (format_decode(read_format(&self.modules, &layout(self.version, self.level), 0)).is_none() && self.fmt[1] <= 3)
    }
    /// Texts a receiver may make of what arrived, other than the text that was sent.
    fn alternatives(&self) -> Vec<String> {
        let lay = layout(self.version, Level::L);
        let mut out = vec![];
        for c in 0..2 {
            let f = format_decode(read_format(&self.modules, &lay, c));
            for reach in [Reach::Guaranteed, Reach::Maximal] {
                if let Ok(r) = reference_receive(&self.modules, self.version, f, reach) {
                    if let Some(t) = parse_stream(&r.data, self.version) {
                        out.push(t);
                    }
                }
            }
        }
        out
    }
    fn key(&self, op: &Value) -> String {
        format!("{}{}{}|{:?}|{:?}|{}", op["v"], op["l"], op["m"], self.block_errors, self.fmt, hash_str(&op["faults"].to_string()))
    }
}

fn show(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 300 {
        format!("{}... ({} bytes)", s.chars().take(280).collect::<String>(), s.len())
    } else {
        s
    }
}

fn describe(op: &Value, s: &Sent) -> String {
    format!(
        "version {} level {} mask {}: corrupted codewords per block {:?} (capacity {}), format flips {:?}",
        s.version,
        s.level.name(),
        op["m"],
        s.block_errors,
        capacity(s.version, s.level),
        s.fmt
    )
}

// ------------------------------------------------------------------ C01, C03: repair and accounts

fn size_of_history(r: &mut Rng, v: usize) -> usize {
    let max = if v > 25 {
        2
    } else if v > 12 {
        4
    } else {
        10
    };
    1 + r.below(max)
}

fn gen_repair(r: &mut Rng, seed: u64, index: u64, account: bool) -> Value {
    let mut ops = vec![];
    let (v0, l0) = combo(mix(&[seed, 0]) % 160 + index);
    let n = size_of_history(r, v0);
    for k in 0..n {
        let (v, l) = if k == 0 || r.chance(0.3) {
            (v0, l0)
        } else {
            // neighbours of this size: what is left behind by one must not harm the next
            ((v0 as i64 + r.range(-2, 2)).clamp(1, 40) as usize, lvl(r))
        };
        let mut s = sym(r, v, l);
        s["op"] = json!("sym");
        let mut f = if account && r.chance(0.15) { vec![] } else { within(r, v, l) };
        if r.chance(0.3) {
            harmless(r, v, l, &mut f);
        }
        if r.chance(0.4) {
            let n = r.below(4);
            format_flips(r, 0, n, &mut f);
            let n = r.below(4);
            format_flips(r, 1, n, &mut f);
        }
        if r.chance(if account { 0.1 } else { 0.03 }) {
            f.clear();
            wiped(r, &s, &mut f);
        } else if r.chance(0.1) {
            // a symbol nobody can read, in between
            let lay = layout(v, l);
            for (b, (nd, len)) in lay.blocks.iter().enumerate() {
                let (e, _) = block_errors(r, *len, *nd, *len);
                cw_faults(&mut f, b, &e);
            }
        }
        s["faults"] = json!(f);
        if r.chance(0.1) {
            s["white"] = json!(1 + r.below(255));
        }
        ops.push(s);
    }
    json!({"env": env(r), "tasks": [{"ops": ops}]})
}

fn judge_repair(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    let s = sent(op);
    let Some(text) = &s.text else { return None };
    if !s.within() || !(s.fmt[0] <= 3 && s.fmt[1] <= 3) {
        lab.hit("probe:beyond-capacity-in-history");
        return None;
    }
    let cap = capacity(s.version, s.level);
    if s.block_errors.iter().any(|e| *e == cap) {
        lab.hit("probe:block-at-capacity");
    }
    if s.block_errors.iter().all(|e| *e == cap) {
        lab.hit("probe:all-blocks-at-capacity");
    }
    lab.hit(&format!("combo:{}{}", s.version, s.level.name()));
    lab.case((s.bit_errors > 0 || s.fmt != [0, 0]).then(|| s.key(op)));
    for d in ["plain", "info"] {
        if obs[d]["ok"].as_str() != Some(text) {
            let class = if obs[d].get("panic").is_some() {
                "repair-panic"
            } else if obs[d].get("ok").is_some() {
                "repair-wrong-text"
            } else {
                "repair-refused"
            };
            return bad(class, format!("{}; expected {}, {} decoder gave {}", describe(op, &s), show(&json!(text)), d, show(&obs[d])));
        }
    }
    None
}

fn judge_account(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    let s = sent(op);
    let Some(text) = &s.text else { return None };
    let got = &obs["info"];
    if got["ok"].as_str() != Some(text) {
        // whether it had to be delivered is another property; here: both decoders agree
        if s.within() && s.fmt[0] <= 3 && s.fmt[1] <= 3 {
            lab.hit("probe:not-delivered");
        }
        if obs["plain"]["ok"] != got["ok"] {
            return bad("account-disagree", format!("{}; plain {} but info {}", describe(op, &s), show(&obs["plain"]), show(got)));
        }
        return None;
    }
    if s.block_errors.iter().any(|e| *e > ecc_per_block(s.version, s.level) / 2) {
        // damaged so much that it is closer to another message, which happens to say the same
        lab.hit("probe:same-text-from-another-message");
        return None;
    }
    lab.case(Some(s.key(op)));
    lab.hit(&format!("combo:{}{}", s.version, s.level.name()));
    if s.bit_errors == 0 {
        lab.hit("probe:undamaged");
    }
    let want = json!([s.version, s.level.name(), data_codewords(s.version, s.level) * 8, s.bit_errors]);
    if got["info"] != want {
        let names = ["version", "level", "total_data", "errors"];
        let k = (0..4).find(|k| got["info"][k] != want[k]).unwrap_or(0);
        return bad(&format!("account-{}", names[k]), format!("{}; expected info {} got {}", describe(op, &s), want, got["info"]));
    }
    if obs["plain"]["ok"] != got["ok"] {
        return bad("account-disagree", format!("{}; plain {} but info {}", describe(op, &s), show(&obs["plain"]), show(got)));
    }
    None
}

// ------------------------------------------------------------------ C02: beyond capacity

/// Flips that turn block `b` of the symbol into the given codewords.
fn block_to(lay: &Layout, modules_data: &[Vec<u8>], b: usize, word: &[u8], out: &mut Vec<Value>) {
    let _ = lay;
    for (c, w) in word.iter().enumerate() {
        let d = modules_data[b][c] ^ w;
        if d != 0 {
            out.push(json!(["cw", b, c, d]));
        }
    }
}

/// The codewords of the undamaged symbol, block by block.
fn codewords(op: &Value) -> (Vec<Vec<u8>>, std::sync::Arc<Layout>) {
    let s = symbol_of(op);
    let n = s.n;
    let w = s
        .layout
        .at
        .iter()
        .map(|b| {
            b.iter()
                .map(|c| {
                    (0..8).fold(0u8, |a, bit| {
                        let k = c[bit] as usize;
                        a | ((s.modules[k] ^ mask_bit(s.mask, k % n, k / n)) as u8) << bit
                    })
                })
                .collect()
        })
        .collect();
    (w, s.layout.clone())
}

/// Part of the codewords wiped out: all of the same value, as they are or as modules.
fn wiped(r: &mut Rng, s: &Value, out: &mut Vec<Value>) {
    let (w, lay) = codewords(s);
    let b = r.below(w.len());
    let (nd, len) = lay.blocks[b];
    let (from, to) = match r.below(5) {
        0 => (nd, len),
        1 => (0, nd),
        2 => (0, len),
        _ => {
            let a = r.below(len);
            (a, (a + 1 + r.below(len)).min(len))
        }
    };
    let sv = symbol_of(s);
    let n = lay.n;
    let blocks = if r.chance(0.3) { (0..w.len()).collect() } else { vec![b] };
    let style = r.below(5);
    for b in blocks {
        let len = w[b].len();
        for c in from.min(len)..to.min(len) {
            let x = match style {
                0 => 0,
                1 => 0xFF,
                2 => w[b][from.min(len - 1)],
                // all white, all black
                k => (0..8).fold(0u8, |a, bit| {
                    let m = lay.at[b][c][bit] as usize;
                    a | ((mask_bit(sv.mask, m % n, m / n) ^ (k == 4)) as u8) << bit
                }),
            };
            let d = w[b][c] ^ x;
            if d != 0 {
                out.push(json!(["cw", b, c, d]));
            }
        }
    }
}

fn gen_beyond(r: &mut Rng, seed: u64, index: u64) -> Value {
    let mut ops = vec![];
    let (v0, l0) = combo(mix(&[seed, 2]) % 160 + index);
    let n = size_of_history(r, v0);
    for k in 0..n {
        let (v, l) = if k == 0 || r.chance(0.5) { (v0, l0) } else { ((v0 as i64 + r.range(-1, 1)).clamp(1, 40) as usize, lvl(r)) };
        let mut s = sym(r, v, l);
        s["op"] = json!("sym");
        let lay = layout(v, l);
        let ecc = ecc_per_block(v, l);
        let max = ecc / 2;
        let mut f = vec![];
        let hot = r.below(lay.blocks.len());
        match r.below(15) {
            13 | 14 => wiped(r, &s, &mut f),
            // a code word to a receiver that looks at too few of the syndromes
            10..=12 => {
                let (nd, len) = lay.blocks[hot];
                let word = nearly_codeword(r, len, ecc, 2 * capacity(v, l));
                let mut d = vec![0u8; len];
                for (p, m) in word {
                    d[p] ^= m;
                }
                let more = match r.below(3) {
                    0 => 0,
                    1 => capacity(v, l),
                    _ => r.below(capacity(v, l) + 1),
                };
                for (p, m) in block_errors(r, len, nd, more).0 {
                    d[p] ^= m;
                }
                for (c, x) in d.iter().enumerate().filter(|x| *x.1 != 0) {
                    f.push(json!(["cw", hot, c, x]));
                }
            }
            // just too much in one block (or a few), the rest fine
            0..=2 => {
                let many = r.chance(0.3);
                for (b, (nd, len)) in lay.blocks.iter().enumerate() {
                    let c = if b == hot || (many && r.chance(0.5)) {
                        max + 1 + r.below(2)
                    } else if r.chance(0.5) {
                        r.below(capacity(v, l) + 1)
                    } else {
                        0
                    };
                    let (e, _) = block_errors(r, *len, *nd, c);
                    cw_faults(&mut f, b, &e);
                }
            }
            // anything beyond, in one block
            3 | 4 => {
                let (nd, len) = lay.blocks[hot];
                let c = (max + 1 + r.below(len - max)).min(len);
                let (e, _) = block_errors(r, len, nd, c);
                cw_faults(&mut f, hot, &e);
            }
            // near another codeword, just outside of what may be corrected towards it
            5..=7 => {
                let (w, lay) = codewords(&s);
                let (nd, _) = lay.blocks[hot];
                let away = match r.below(4) {
                    0 => max,
                    1 => max + 1,
                    2 => max + 2,
                    _ => capacity(v, l),
                };
                let word = near_other(r, &w[hot][..nd], ecc, away);
                block_to(&lay, &w, hot, &word, &mut f);
            }
            // between the guaranteed and the maximal capacity, or all of it lost
            8 => {
                for (b, (nd, len)) in lay.blocks.iter().enumerate() {
                    let (e, _) = block_errors(r, *len, *nd, max);
                    cw_faults(&mut f, b, &e);
                }
            }
            _ => {
                let n = lay.n;
                f.push(json!(["box", r.below(n), r.below(n), 1 + r.below(n), 1 + r.below(n), r.below(2)]));
            }
        }
        if r.chance(0.15) {
            // a readable one in between, so that there is something stale to deliver
            f.clear();
        }
        s["faults"] = json!(f);
        ops.push(s);
    }
    json!({"env": env(r), "tasks": [{"ops": ops}]})
}

fn judge_beyond(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    let s = sent(op);
    let alt = s.alternatives();
    let hopeless = !s.within() || s.fmt[0] > 3;
    lab.case(hopeless.then(|| s.key(op)));
    if hopeless {
        lab.hit("probe:beyond-capacity");
        lab.hit(&format!("combo:{}{}", s.version, s.level.name()));
    }
    if hopeless && !alt.is_empty() {
        lab.hit("probe:decodes-to-another-message-by-the-standard");
    }
    for d in ["plain", "info"] {
        let g = &obs[d];
        if g.get("panic").is_some() {
            return bad("beyond-panic", format!("{}; {} decoder: {}", describe(op, &s), d, show(g)));
        }
        if let Some(t) = g["ok"].as_str() {
            if s.text.as_deref() != Some(t) && !alt.iter().any(|a| a == t) {
                return bad(
                    "beyond-wrong-text",
                    format!("{}; nobody sent {}, which the {} decoder delivered", describe(op, &s), show(&g["ok"]), d),
                );
            }
        }
        if g["err"].is_string() {
            lab.hit("probe:reported-as-error");
        }
    }
    None
}

// ------------------------------------------------------------------ C04: format information

fn pattern3(mut k: usize) -> u16 {
    // number k of the 576 words of weight <= 3
    for w in 0..1u32 << 15 {
        if w.count_ones() <= 3 {
            if k == 0 {
                return w as u16;
            }
            k -= 1;
        }
    }
    0
}

fn gen_format(r: &mut Rng, seed: u64, index: u64) -> Value {
    let mut ops = vec![];
    let per = 16u64;
    for k in 0..per {
        // walk over all 32 formats x 576 flips x 2 copies in a scrambled order
        let g = (mix(&[seed, 4]) + index * per + k) % 36864;
        let g = g * 10007 % 36864;
        let (fmt, rest) = (g % 32, g / 32);
        let (pat, copy) = (pattern3((rest % 576) as usize), (rest / 576) as usize);
        let l = LEVELS[(fmt / 8) as usize];
        let m = fmt % 8;
        let v = match r.below(12) {
            0 => 7 + r.below(10),
            1 => 17 + r.below(24),
            _ => 1 + r.below(6),
        };
        let mut s = sym(r, v, l);
        s["m"] = json!(m);
        s["op"] = json!("sym");
        let mut f = vec![];
        for b in 0..15 {
            if pat >> b & 1 == 1 {
                f.push(json!(["fmt", copy, b]));
            }
        }
        match (copy, r.below(6)) {
            // the first copy is readable; the second may be anything
            (0, 0) => {}
            (0, 1) => {
                let n = r.below(4);
                format_flips(r, 1, n, &mut f)
            }
            (0, 2) => {
                let n = 4 + r.below(12);
                format_flips(r, 1, n, &mut f)
            }
            (0, 3) => {
                // the second copy claims something else
                let w = format_codeword(lvl(r), r.below(8));
                format_to(l, m as usize, 1, w, &mut f);
            }
            (0, 4) => format_to(l, m as usize, 1, [0, 0x7FFF][r.below(2)], &mut f),
            (0, _) => {
                let w = unreadable_format(r);
                format_to(l, m as usize, 1, w, &mut f)
            }
            // the first copy cannot be read, so the second has to do
            (_, 5) => {
                // or is damaged as much but readable
                let n = r.below(4);
                format_flips(r, 0, n, &mut f)
            }
            (_, _) => {
                let w = unreadable_format(r);
                format_to(l, m as usize, 0, w, &mut f)
            }
        }
        if r.chance(0.08) {
            // both copies gone: an error, or the right text
            f.clear();
            let (a, b) = (unreadable_format(r), r.below(1 << 15) as u16);
            format_to(l, m as usize, 0, a, &mut f);
            format_to(l, m as usize, 1, b, &mut f);
        }
        if r.chance(0.3) {
            f.extend(within(r, v, l));
        }
        s["faults"] = json!(f);
        ops.push(s);
    }
    json!({"env": env(r), "tasks": [{"ops": ops}]})
}

fn judge_format(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    let s = sent(op);
    let Some(text) = &s.text else { return None };
    let must = s.within() && s.format_ok();
    lab.case((s.fmt != [0, 0]).then(|| s.key(op)));
    lab.hit(match (s.fmt[0] <= 3, s.fmt[1] <= 3) {
        (true, true) => "probe:both-copies-readable",
        (true, false) => "probe:only-first-copy-readable",
        (false, true) => "probe:only-second-copy-readable",
        _ => "probe:no-copy-readable",
    });
    let alt = s.alternatives();
    for d in ["plain", "info"] {
        let g = &obs[d];
        if g.get("panic").is_some() {
            return bad("format-panic", format!("{}; {} decoder: {}", describe(op, &s), d, show(g)));
        }
        match g["ok"].as_str() {
            Some(t) => {
                if t != text && !alt.iter().any(|a| a == t) {
                    return bad("format-wrong-text", format!("{}; {} decoder delivered {}", describe(op, &s), d, show(&g["ok"])));
                }
                if must && t != text {
                    return bad("format-misread", format!("{}; {} decoder delivered {}", describe(op, &s), d, show(&g["ok"])));
                }
            }
            None if must => {
                return bad("format-refused", format!("{}; {} decoder gave {}", describe(op, &s), d, show(g)));
            }
            None => {}
        }
        if must && d == "info" && g["info"][1].as_str() != Some(s.level.name()) {
            return bad("format-level", format!("{}; level reported as {}", describe(op, &s), g["info"][1]));
        }
    }
    None
}

// ------------------------------------------------------------------ C05: payload

fn gen_payload(r: &mut Rng, index: u64) -> Value {
    let mut ops = vec![];
    let n = 1 + r.below(8);
    for k in 0..n {
        let crumbled = r.chance(0.02);
        let v = match (index + k as u64) % 5 {
            _ if crumbled => 1 + r.below(40),
            0 => 1 + r.below(9),
            1 => 10 + r.below(4),
            2 => [9, 10, 26, 27][r.below(4)],
            3 => 1 + r.below(4),
            _ => {
                if r.chance(0.15) {
                    27 + r.below(14)
                } else {
                    1 + r.below(9)
                }
            }
        };
        let l = lvl(r);
        let cap = data_codewords(v, l);
        let mut s = json!({"op": "sym", "v": v, "l": l.name(), "m": r.below(8)});
        let fill = [1.0, 0.97, 0.5, r.f()][r.below(4)];
        let segs = if crumbled { crumbs(r, v, l) } else { random_segments(r, v, l, fill) };
        let mut b = Bits(vec![]);
        for g in &segs {
            g.put(&mut b, v);
        }
        match if crumbled { r.below(8) } else { r.below(10) } {
            0 | 1 => {
                s["segs"] = segs_to_json(&segs);
            }
            2 => {
                // exactly full, or one of the last few bits left, by cutting the padding off
                let mut d = finish_stream(Bits(b.0.clone()), cap);
                let used = b.0.len();
                for k in used..cap * 8 {
                    // keep at most a terminator; fill the rest with junk that must not matter
                    if k >= used + 4 && r.chance(0.5) {
                        d[k / 8] ^= 1 << (7 - k % 8);
                    }
                }
                s["raw"] = json!(hex(&d));
            }
            3 => {
                // no terminator: something that is no segment follows
                let mut d = finish_stream(Bits(b.0.clone()), cap);
                let used = b.0.len();
                if used + 4 <= cap * 8 {
                    let m = r.below(16) as u8;
                    for k in 0..4 {
                        let p = used + k;
                        d[p / 8] = d[p / 8] & !(1 << (7 - p % 8)) | (m >> (3 - k) & 1) << (7 - p % 8);
                    }
                }
                s["raw"] = json!(hex(&d));
            }
            4 => s["raw"] = json!(random_bytes(r, cap)),
            5 => {
                // the sender's memory was corrupted before the symbol was made
                let mut d = finish_stream(b, cap);
                for _ in 0..1 + r.below(4) {
                    let k = r.below(d.len());
                    d[k] ^= 1 << r.below(8);
                }
                s["raw"] = json!(hex(&d));
            }
            6 => {
                // torn: the tail of the stream never made it
                let mut d = finish_stream(b, cap);
                let at = r.below(d.len() + 1);
                let junk = r.below(3);
                for x in d.iter_mut().skip(at) {
                    *x = [0, 0xFF, r.next() as u8][junk];
                }
                s["raw"] = json!(hex(&d));
            }
            7 => {
                // counts that do not fit what follows
                let mode = [1u8, 2, 4][r.below(3)];
                let mut c = Bits(vec![]);
                let keep = if segs.is_empty() { 0 } else { r.below(segs.len()) };
                for g in segs.iter().take(keep) {
                    g.put(&mut c, v);
                }
                c.put(mode as u32, 4);
                let cb = count_bits(mode, v);
                let room = (cap * 8).saturating_sub(c.0.len() + cb);
                let fit = match mode {
                    1 => room / 10 * 3,
                    2 => room / 11 * 2,
                    _ => room / 8,
                } as i64;
                let want = (fit + r.range(-3, 4)).clamp(0, (1 << cb) - 1);
                c.put(want as u32, cb);
                let mut k = 0;
                let style = r.below(3);
                while c.0.len() < cap * 8 {
                    k += 1;
                    c.0.push(match style {
                        0 => false,
                        1 => k % 4 == 0,
                        _ => r.chance(0.3),
                    });
                }
                c.0.truncate(cap * 8);
                s["raw"] = json!(hex(&finish_stream(c, cap)));
            }
            8 => {
                // digits and characters that do not exist, at the edges
                let mut c = Bits(vec![]);
                if r.chance(0.5) {
                    let len = 1 + r.below(8);
                    c.put(1, 4);
                    c.put(len as u32, count_bits(1, v));
                    let mut left = len;
                    while left > 0 {
                        let k = left.min(3);
                        let edge: u32 = 10u32.pow(k as u32);
                        let x = match r.below(6) {
                            0 => edge,
                            1 => edge - 1,
                            2 => (1 << [0, 4, 7, 10][k]) - 1,
                            _ => r.below(edge as usize) as u32,
                        };
                        c.put(x, [0, 4, 7, 10][k]);
                        left -= k;
                    }
                } else {
                    let len = 1 + r.below(6);
                    c.put(2, 4);
                    c.put(len as u32, count_bits(2, v));
                    let mut left = len;
                    while left > 0 {
                        let k = left.min(2);
                        let (edge, bits) = if k == 2 { (2025u32, 11) } else { (45, 6) };
                        let x = match r.below(6) {
                            0 => edge,
                            1 => edge - 1,
                            2 => (1 << bits) - 1,
                            3 => 44 * 45,
                            _ => r.below(edge as usize) as u32,
                        };
                        c.put(x, bits);
                        left -= k;
                    }
                }
                if c.0.len() <= cap * 8 {
                    s["raw"] = json!(hex(&finish_stream(c, cap)));
                } else {
                    s["segs"] = segs_to_json(&segs);
                }
            }
            _ => {
                // bytes that are almost UTF-8
                let room = cap.saturating_sub(2 + usize::from(v >= 10));
                let mut d: Vec<u8> = vec![];
                let goal = 1 + r.below(room.max(1));
                while d.len() < goal {
                    match r.below(7) {
                        0 => d.extend([0xC3, 0x80 + r.below(64) as u8]),
                        1 => d.push(0xC3),
                        2 => d.push(r.next() as u8),
                        3 => d.extend("€".as_bytes()),
                        4 => d.extend([0xC3, 0x28]),
                        5 => d.extend("🎈".as_bytes()),
                        _ => d.push(32 + r.below(95) as u8),
                    }
                }
                d.truncate(room.max(1).min(goal + 3));
                let mut c = Bits(vec![]);
                Segment::Byte(d).put(&mut c, v);
                if c.0.len() <= cap * 8 {
                    s["raw"] = json!(hex(&finish_stream(c, cap)));
                } else {
                    s["segs"] = segs_to_json(&segs);
                }
            }
        }
        if r.chance(0.25) {
            s["faults"] = json!(within(r, v, l));
        }
        ops.push(s);
    }
    json!({"env": env(r), "tasks": [{"ops": ops}]})
}

fn judge_payload(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    let s = sent(op);
    if !s.within() || s.fmt[0] > 3 {
        return None;
    }
    lab.case(Some(format!("{}{}{}{}", op["v"], op["l"], op["raw"], op["segs"])));
    lab.hit(if s.text.is_some() { "probe:well-formed-stream" } else { "probe:malformed-stream" });
    for d in ["plain", "info"] {
        let g = &obs[d];
        match &s.text {
            Some(t) => {
                if g["ok"].as_str() != Some(t) {
                    return bad("payload-wrong", format!("version {}: stream means {}, {} decoder gave {}", s.version, show(&json!(t)), d, show(g)));
                }
            }
            None => {
                if !g["err"].is_string() {
                    return bad(
                        if g.get("panic").is_some() { "payload-panic" } else { "payload-invented" },
                        format!("version {}: stream {} is malformed, {} decoder gave {}", s.version, show(&op["raw"]), d, show(g)),
                    );
                }
            }
        }
    }
    None
}

// ------------------------------------------------------------------ C06: bit reader

fn gen_chomp(r: &mut Rng) -> Value {
    let mut ops = vec![];
    for _ in 0..1 + r.below(6) {
        let n = match r.below(4) {
            0 => r.below(4),
            1 => 1,
            _ => r.below(24),
        };
        let mut reqs = vec![];
        let mut left = n * 8;
        let style = r.below(5);
        let sticky = 1 + r.below(16);
        for _ in 0..4 + r.below(60) {
            let k = ["c", "o", "w"][r.below(3)];
            let max = if k == "w" { 16 } else { 8 };
            let want = match style {
                0 => 1 + r.below(max),
                1 => sticky.min(max),
                2 => {
                    if r.chance(0.2) {
                        max + 1 + r.below(40)
                    } else {
                        1 + r.below(max)
                    }
                }
                3 => {
                    // just more than is left, then exactly what is left
                    if left < 16 && r.chance(0.7) {
                        (left + r.below(3)).clamp(1, max)
                    } else {
                        1 + r.below(max)
                    }
                }
                _ => [1, max, 7, 9][r.below(4)],
            };
            if want <= left && want <= max {
                left -= want;
            }
            let want = if r.chance(0.03) { 0 } else { want };
            reqs.push(json!([k, want]));
        }
        ops.push(json!({"op": "chomp", "bytes": random_bytes(r, n), "reqs": reqs}));
    }
    json!({"env": env(r), "tasks": [{"ops": ops}]})
}

fn judge_chomp(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    let bytes = unhex(op["bytes"].as_str().unwrap());
    let mut pos = 0usize;
    let total = bytes.len() * 8;
    let mut failed = false;
    let got = obs["res"].as_array().cloned().unwrap_or_default();
    let reqs = op["reqs"].as_array().unwrap();
    lab.case(Some(format!("{}{}", op["bytes"], op["reqs"])));
    for (k, q) in reqs.iter().enumerate() {
        let n = q[1].as_u64().unwrap() as usize;
        let max = if q[0] == "w" { 16 } else { 8 };
        let want = if n > max || pos + n > total {
            if n <= max {
                failed = true;
                lab.hit("probe:request-larger-than-rest");
            } else {
                lab.hit("probe:request-larger-than-word");
            }
            Value::Null
        } else {
            if failed {
                lab.hit("probe:read-after-failed-request");
            }
            let mut v = 0u64;
            for _ in 0..n {
                v = v << 1 | (bytes[pos / 8] >> (7 - pos % 8) & 1) as u64;
                pos += 1;
            }
            json!(v)
        };
        match got.get(k) {
            Some(g) if *g == want => {}
            // what nothing is, nobody says; nothing may be used up for it
            Some(g) if n == 0 && g.is_null() => {}
            g => {
                return bad(
                    if g.map_or(false, |x| x.get("panic").is_some()) { "chomp-panic" } else { "chomp-model" },
                    format!("request {} ({} bits, {} bits read, {} in all): expected {} got {}", k, n, pos, total, want, show(&json!(g))),
                )
            }
        }
    }
    None
}

// ------------------------------------------------------------------ C07, C08: isolation

/// A family of operations that differ in one respect each, so that whatever one leaves behind
/// fits the next just well enough to be noticed.
struct Twins {
    v: usize,
    l: Level,
    sym: Value,
    frame: Value,
    /// several symbols at once
    scene: Value,
}

impl Twins {
    fn new(r: &mut Rng, small: bool) -> Twins {
        let v = if small { 1 + r.below(3) } else { [1, 1, 2, 3, 4, 7, 10][r.below(7)] };
        let l = lvl(r);
        let mut s = sym(r, v, l);
        if r.chance(0.5) {
            s["segs"] = json!([["A", "CODE-0000"]]);
            if data_codewords(v, l) < 9 {
                s["segs"] = json!([["A", "CODE"]]);
            }
        }
        let fv = 1 + r.below(3);
        let fl = lvl(r);
        let mut fs = sym(r, fv, fl);
        if r.chance(0.5) {
            fs["segs"] = json!([["N", "1234567"]]);
        }
        let mut frame = presentation(r, &fs);
        frame["place"][0]["s"] = json!(3);
        let k = 3 + r.below(if small { 2 } else { 4 });
        let scene = crowded(r, k);
        Twins { v, l, sym: s, frame, scene }
    }

    fn twist(r: &mut Rng, s: &mut Value) {
        let v = s["v"].as_u64().unwrap() as usize;
        let l = Level::from_name(s["l"].as_str().unwrap());
        match r.below(9) {
            0 => {}
            1 | 2 => {
                // one character
                if let Some(t) = s["segs"][0][1].as_str().map(|x| x.to_string()) {
                    let mut c: Vec<u8> = t.into_bytes();
                    if !c.is_empty() && s["segs"][0][0] != "B" {
                        let k = r.below(c.len());
                        c[k] = b'0' + r.below(10) as u8;
                    }
                    s["segs"][0][1] = json!(String::from_utf8(c).unwrap());
                }
            }
            3 => s["m"] = json!(r.below(8)),
            4 => {
                let l2 = lvl(r);
                let fits = segs_of(&s["segs"]).iter().map(|g| g.bits(v)).sum::<usize>() <= data_codewords(v, l2) * 8;
                if fits {
                    s["l"] = json!(l2.name());
                    s["faults"] = json!([]);
                }
            }
            5 => s["faults"] = json!(within(r, v, l)),
            6 => {
                let lay = layout(v, l);
                let b = r.below(lay.blocks.len());
                let (nd, len) = lay.blocks[b];
                let (e, _) = block_errors(r, len, nd, len / 2 + 1);
                let mut f = vec![];
                cw_faults(&mut f, b, &e);
                s["faults"] = json!(f);
            }
            7 => {
                let mut f = vec![];
                let n = r.below(6);
                format_flips(r, r.clone().below(2), n, &mut f);
                s["faults"] = json!(f);
            }
            _ => {
                let n = data_codewords(v, l);
                s["raw"] = json!(random_bytes(r, n));
            }
        }
    }

    fn op(&self, r: &mut Rng) -> Value {
        match r.below(23) {
            22 => handed(r),
            20 => {
                let mut f = self.scene.clone();
                if r.chance(0.4) {
                    let k = r.below(f["place"].as_array().unwrap().len());
                    let mut s = f["place"][k]["sym"].clone();
                    Self::twist(r, &mut s);
                    f["place"][k]["sym"] = s;
                }
                f["info"] = json!(r.chance(0.5));
                f["op"] = json!(["frame", "frame", "wrapped"][r.below(3)]);
                f
            }
            21 => {
                let mut f = self.frame.clone();
                f["op"] = json!("wrapped");
                f["info"] = json!(r.chance(0.5));
                f
            }
            0..=8 => {
                let mut s = if r.chance(0.8) { self.sym.clone() } else { sym(r, self.v, self.l) };
                Self::twist(r, &mut s);
                s["op"] = json!("sym");
                s
            }
            9..=13 => {
                let mut f = self.frame.clone();
                match r.below(6) {
                    0 => {}
                    1 | 2 => {
                        let mut s = f["place"][0]["sym"].clone();
                        Self::twist(r, &mut s);
                        f["place"][0]["sym"] = s;
                    }
                    3 => f["place"][0]["a"] = json!(90 * r.below(4)),
                    4 => f["fx"] = json!([camera_fault(r, f["w"].as_i64().unwrap(), f["h"].as_i64().unwrap())]),
                    _ => {
                        f["fg"] = json!([40, 40, 40]);
                        f["bg"] = json!([220, 220, 220]);
                    }
                }
                f["info"] = json!(r.chance(0.5));
                f["src"] = json!(["sim", "sim", "rgba", "dyn"][r.below(4)]);
                f
            }
            14 | 15 => {
                let mut f = self.frame.clone();
                f["op"] = json!("located");
                f["locs"] = json!([{"of": 0}]);
                f["info"] = json!(r.chance(0.5));
                f
            }
            16 | 17 => {
                let mut p = gen_pipeline(r)["tasks"][0]["ops"][0].clone();
                p.as_object_mut().unwrap().remove("id");
                p
            }
            _ => gen_chomp(r)["tasks"][0]["ops"][0].clone(),
        }
    }
}

/// A frame with a number of small symbols.
fn crowded(r: &mut Rng, k: usize) -> Value {
    let syms: Vec<Value> = (0..k)
        .map(|i| {
            let (v, l) = (1 + r.below(2), lvl(r));
            let mut s = sym(r, v, l);
            s["segs"] = json!([["N", format!("{}{}", i, r.below(1000))]]);
            s
        })
        .collect();
    let cols = 1 + r.below(3);
    let mut f = scene(r, &syms, cols);
    f["op"] = json!("frame");
    f
}

/// Any operation at all, as the other properties make them.
fn any_op(r: &mut Rng) -> Value {
    let (seed, index) = (r.next() >> 20, r.next() >> 40);
    let p = match r.below(14) {
        13 => return extract_op(r),
        11 => return prepare_op(r),
        12 => return locate_op(garbled_frame(r)),
        10 => {
            let k = 2 + r.below(5);
            let mut f = crowded(r, k);
            f["op"] = json!(["frame", "wrapped"][r.below(2)]);
            f["info"] = json!(r.chance(0.4));
            return f;
        }
        0..=3 => gen_payload(r, index),
        4 | 5 => gen_beyond(r, seed, index),
        6 => gen_format(r, seed, index),
        7 => gen_repair(r, seed, index, false),
        8 => return garbled_frame(r),
        _ => gen_neighbours(r),
    };
    let ops = p["tasks"][0]["ops"].as_array().unwrap();
    let mut o = ops[r.below(ops.len())].clone();
    o.as_object_mut().unwrap().remove("id");
    o
}

/// A place inside of an operation where something can be made to happen.
fn place(r: &mut Rng, op: &Value) -> (&'static str, usize) {
    let seams: &[&str] = match op["op"].as_str().unwrap_or("") {
        "wrapped" => &["component", "component", "pixel", "log"],
        "located" => &["component", "pixel", "pixel", "log"],
        "pipe" => &["component"],
        "handed" => &["component", "component", "log"],
        "frame" => &["pixel", "pixel", "log"],
        _ => &["log"],
    };
    let at = seams[r.below(seams.len())];
    let n = match at {
        "log" => 1 + r.below(60),
        "pixel" => 1 + r.below(4000),
        _ => 1 + r.below(8),
    };
    (["log", "pixel", "component"].into_iter().find(|x| *x == at).unwrap(), if r.chance(0.3) { 1 + r.below(3) } else { n })
}

fn ctl(r: &mut Rng, tw: &Twins, op: &Value, kill: bool, depth: usize) -> Value {
    let (at, n) = place(r, op);
    if kill {
        return json!({"at": at, "n": n, "do": "kill"});
    }
    if r.chance(0.12) {
        return json!({"at": at, "n": n, "do": "slow", "ns": 5_000_000_000u64});
    }
    let mut inner = tw.op(r);
    if depth > 1 {
        // and inside of that another one
        let mut c = vec![ctl(r, tw, &inner, r.clone().chance(0.1), depth - 1)];
        if c[0]["op"]["op"].is_string() && depth > 2 && r.chance(0.8) {
            c[0]["n"] = json!(1 + r.below(3));
        }
        if r.chance(0.15) {
            c.push(ctl(r, tw, &inner, false, 1));
        }
        inner["ctl"] = json!(c);
    }
    json!({"at": at, "n": n, "do": "nest", "same": r.chance(0.3), "op": inner})
}

fn gen_concurrent(r: &mut Rng) -> Value {
    let tw = Twins::new(r, true);
    let nt = if r.chance(0.15) { 1 } else { 2 + r.below(2) };
    let mut tasks = vec![];
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..1 + r.below(3) {
            let mut o = tw.op(r);
            if nt == 1 || r.chance(0.2) {
                let depth = if nt > 1 || r.chance(0.5) { 1 } else { 2 + r.below(6) };
                o["ctl"] = json!([ctl(r, &tw, &o, false, depth)]);
            }
            ops.push(o);
        }
        tasks.push(json!({ "ops": ops }));
    }
    let mut e = env(r);
    if r.chance(0.5) {
        e["log"] = json!(5);
    }
    json!({"env": e, "tasks": tasks})
}

fn gen_history(r: &mut Rng) -> Value {
    let tw = Twins::new(r, false);
    let mut ops = vec![];
    for _ in 0..3 + r.below(10) {
        let mut o = match r.below(12) {
            0 => garbled_frame(r),
            1 | 2 => any_op(r),
            _ => tw.op(r),
        };
        if r.chance(0.15) {
            o["ctl"] = json!([ctl(r, &tw, &o, true, 1)]);
        }
        if r.chance(0.1) {
            o["fresh"] = json!(true);
        }
        if r.chance(0.2) {
            o["at_ns"] = json!(r.range(0, 7_200_000_000_000));
        }
        ops.push(o);
    }
    let mut e = env(r);
    if r.chance(0.4) {
        e["log"] = json!(5);
    }
    if r.chance(0.03) {
        // a history that is longer than small counters can tell
        let many = if r.chance(0.03) { 65_000 + r.below(2000) } else { 250 + r.below(300) };
        let mut o = loop {
            let o = tw.op(r);
            let small = o["op"] == "chomp" || o["op"] == "sym" && o["v"].as_u64().unwrap() <= if many > 1000 { 1 } else { 3 };
            if small || many < 1000 && o["op"] == "frame" && o["w"].as_u64().unwrap() < 150 {
                break o;
            }
            if r.chance(0.05) {
                let l = lvl(r);
                let mut o = sym(r, 1, l);
                o["op"] = json!("sym");
                break o;
            }
        };
        o["rep"] = json!(many);
        if let Some(m) = o.as_object_mut() {
            m.remove("ctl");
        }
        e["log"] = json!(0);
        let at = r.below(ops.len());
        ops.insert(at, o);
    }
    json!({"env": e, "tasks": [{"ops": ops}]})
}

fn judge_isolated(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    judge_alone(op, obs, 0, lab)
}

/// Compare what an operation gave, and what those gave that ran inside of it, with what each of
/// them gives alone.
fn judge_alone(op: &Value, obs: &Value, depth: u64, lab: &mut Lab) -> Option<Verdict> {
    let mut got = obs.clone();
    let nested = got.as_object_mut().and_then(|m| m.remove("nested"));
    if got.to_string().contains("\"killed\":true") {
        lab.hit("probe:decode-killed-midway");
    } else {
        let mut once = op.clone();
        if let Some(n) = once.as_object_mut().and_then(|m| m.remove("rep")) {
            lab.hit("probe:long-history");
            lab.max("operations-in-a-row", n.as_u64().unwrap_or(1));
        }
        let want = lab.pristine(&once);
        lab.case(Some(op.to_string()));
        if got != want {
            return match depth {
                0 => bad("not-isolated", format!("{} gave {} but alone it gives {}", op["op"], show(&got), show(&want))),
                _ => bad("nested-not-isolated", format!("{} inside of {} other decodes gave {} but alone it gives {}", op["op"], depth, show(&got), show(&want))),
            };
        }
    }
    for n in nested.iter().filter_map(|n| n.as_array()).flatten() {
        lab.hit("probe:re-entrant-decode");
        lab.max("re-entrancy-depth", depth + 1);
        let c = &op["ctl"][n["ctl"].as_u64().unwrap() as usize];
        if let Some(mut v) = judge_alone(&c["op"], &n["gave"], depth + 1, lab) {
            v.class = "nested-not-isolated".into();
            return Some(v);
        }
    }
    None
}

// ------------------------------------------------------------------ C09: garbled frames

/// A symbol in a frame that something happened to, but not much.
fn scratched_frame(r: &mut Rng) -> Value {
    let v = [1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 14][r.below(12)];
    let l = lvl(r);
    let mut s = sym(r, v, l);
    if r.chance(0.4) {
        s["faults"] = json!(within(r, v, l));
    } else if r.chance(0.3) {
        // unreadable, but where it is can be seen
        let lay = layout(v, l);
        let b = r.below(lay.blocks.len());
        let (_, len) = lay.blocks[b];
        // at random: errors that cancel out would make it another message, and a valid one
        let e: Vec<(usize, u8)> = r.sample(len, len / 2 + 1).into_iter().map(|p| (p, 1 + r.below(255) as u8)).collect();
        let mut f = vec![];
        cw_faults(&mut f, b, &e);
        s["faults"] = json!(f);
    }
    let mut f = presentation(r, &s);
    let (w, h) = (f["w"].as_i64().unwrap(), f["h"].as_i64().unwrap());
    let m = f["place"][0]["s"].as_i64().unwrap();
    if r.chance(0.3) {
        let a = f["place"][0]["a"].as_f64().unwrap();
        f["place"][0]["a"] = json!(a + r.f() * 6.0 - 3.0);
    }
    if r.chance(0.2) {
        f["place"][0]["s"] = json!(m as f64 * (0.8 + 0.2 * r.f()));
    }
    if r.chance(0.2) {
        // partially out of sight
        let d = m * r.range(1, side(v) as i64 / 2);
        let k = ["cx", "cy"][r.below(2)];
        let at = f["place"][0][k].as_f64().unwrap();
        let far = f[if k == "cx" { "w" } else { "h" }].as_f64().unwrap() - at;
        f["place"][0][k] = json!(if r.chance(0.5) { at - d as f64 } else { at.max(far) + d as f64 });
    }
    let mut fx = vec![];
    for _ in 0..r.below(3) {
        fx.push(moderate_fault(r, w, h, m));
    }
    if r.chance(0.15) {
        for _ in 0..1 + r.below(2) {
            fx.push(streak(r, &f));
        }
    }
    if r.chance(0.15) {
        fx.push(json!([(["finder", "align"][r.below(2)]), r.range(-4, w), r.range(-4, h), m]));
    }
    if r.chance(0.25) {
        let d = 20 + r.below(107) as i64;
        f["fg"] = json!([128 - d / 2, 128 - d / 2, 128 - d / 3]);
        f["bg"] = json!([(128 + d).min(255), (128 + d / 2).min(255), (128 + d).min(255)]);
    }
    f["fx"] = json!(fx);
    f["info"] = json!(r.chance(0.4));
    f["src"] = json!(["sim", "sim", "sim", "rgba", "dyn", "luma"][r.below(6)]);
    f
}

/// What a camera of today delivers: megapixels, with something small in them.
fn big_frame(r: &mut Rng) -> Value {
    let (w, h) = (1200 + r.below(2200) as i64, 1200 + r.below(2200) as i64);
    let mut f = json!({"op": (["frame", "frame", "locate"][r.below(3)]), "w": w, "h": h, "info": r.chance(0.4)});
    let mut place = vec![];
    for _ in 0..r.below(3) {
        let (v, l) = (1 + r.below(8), lvl(r));
        let scale = 3 + r.below(10) as i64;
        let half = (side(v) as i64 + 8) * scale / 2;
        let s = sym(r, v, l);
        place.push(json!({"sym": s, "cx": r.range(half, w - half), "cy": r.range(half, h - half), "s": scale, "a": 90 * r.below(4), "p": [0, 0], "mir": false, "q": true}));
    }
    f["place"] = json!(place);
    if r.chance(0.3) {
        f["fx"] = json!([["finder", r.range(0, w), r.range(0, h), 1 + r.below(12)]]);
    }
    f
}

fn garbled_frame(r: &mut Rng) -> Value {
    if r.chance(0.55) {
        return scratched_frame(r);
    }
    let tiny = r.chance(0.06);
    let (w, h) = if tiny {
        (r.below(12) as i64, r.below(12) as i64)
    } else if r.chance(0.1) {
        (1 + r.below(400) as i64, 1 + r.below(8) as i64)
    } else if r.chance(0.02) {
        // a strip of a panorama, one in a dozen with more columns than 16 bits count
        let long = if r.chance(0.08) { 65000 + r.below(3000) } else { 1000 + r.below(5000) } as i64;
        let short = 25 + r.below(60) as i64;
        if r.chance(0.5) { (long, short) } else { (short, long) }
    } else {
        (30 + r.below(230) as i64, 30 + r.below(230) as i64)
    };
    let mut f = json!({"op": "frame", "w": w, "h": h, "info": r.chance(0.4)});
    if r.chance(0.2) {
        f["fill"] = json!(r.next() >> 33);
        f["fillstyle"] = json!(r.below(4));
    }
    let mut place = vec![];
    if !tiny {
        for _ in 0..r.below(3) {
            let v = [1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 14][r.below(12)];
            let l = lvl(r);
            let mut s = sym(r, v, l);
            if r.chance(0.3) {
                s["faults"] = json!(within(r, v, l));
            }
            let scale = match r.below(5) {
                0 => 1.0 + r.f(),
                1 => 2.0 + r.f() * 6.0,
                2 => w.min(h) as f64 / (side(v) as f64 + 1.0),
                _ => 1.0 + r.below(5) as f64,
            };
            let a = match r.below(4) {
                0 => r.f() * 360.0,
                1 => r.f() * 8.0 - 4.0,
                _ => 90.0 * r.below(4) as f64,
            };
            let cx = match r.below(3) {
                0 => r.f() * w as f64,
                1 => w as f64 / 2.0,
                _ => (side(v) as f64 * scale / 2.0).round() + r.range(-3, 30) as f64,
            };
            let cy = match r.below(3) {
                0 => r.f() * h as f64,
                1 => h as f64 / 2.0,
                _ => (side(v) as f64 * scale / 2.0).round() + r.range(-3, 30) as f64,
            };
            let p = if r.chance(0.2) { [r.f() * 0.6 - 0.3, r.f() * 0.6 - 0.3] } else { [0.0, 0.0] };
            place.push(json!({"sym": s, "cx": cx, "cy": cy, "s": scale, "a": a, "p": p, "mir": r.chance(0.2), "q": r.chance(0.5)}));
        }
    }
    let mut fx = vec![];
    if r.chance(0.4) {
        // finder patterns without a symbol, some at right angles and equal distances
        let ms = 1 + r.below(5) as i64;
        let (x, y) = (r.range(-4, w), r.range(-4, h));
        let d = r.range(8 * ms, (w.max(h)).max(8 * ms + 1));
        let tilt = if r.chance(0.3) { r.range(-d / 6, d / 6) } else { 0 };
        for (dx, dy) in [(0, 0), (d, tilt), (-tilt, d), (d, d)].iter().take(2 + r.below(3)) {
            let j = |r: &mut Rng| if r.chance(0.2) { r.range(-3, 3) } else { 0 };
            fx.push(json!(["finder", x + dx + j(r), y + dy + j(r), ms]));
        }
        for _ in 0..r.below(4) {
            fx.push(json!(["finder", r.range(-8, w), r.range(-8, h), 1 + r.below(6)]));
        }
        if r.chance(0.5) {
            fx.push(json!(["align", x + d - 3 * ms + r.range(-2, 2), y + d - 3 * ms + r.range(-2, 2), ms]));
        }
    }
    if r.chance(0.05) {
        let ms = 1 + r.below(3) as i64;
        fx.push(json!(["crowd", r.range(-5, w / 2), r.range(-5, h / 2), 2 + r.below(4), ms * r.range(9, 14), ms]));
    }
    let quiet = r.chance(0.25);
    for _ in 0..if quiet { 0 } else { 1 + r.below(4) } {
        fx.push(camera_fault(r, w, h));
    }
    if r.chance(0.25) {
        let d = 1 + r.below(127) as i64;
        f["fg"] = json!([128 - d / 2, 128 - d / 2, 128 - d / 3]);
        f["bg"] = json!([(128 + d).min(255), (128 + d / 2).min(255), (128 + d).min(255)]);
    }
    f["place"] = json!(place);
    f["fx"] = json!(fx);
    f["src"] = json!(["sim", "sim", "sim", "rgba", "dyn", "luma"][r.below(6)]);
    f
}

fn gen_garbled(r: &mut Rng) -> Value {
    if r.chance(0.003) {
        let mut f = big_frame(r);
        f["op"] = json!("frame");
        return json!({"env": env(r), "tasks": [{"ops": [f]}]});
    }
    let mut ops = vec![];
    for _ in 0..1 + r.below(5) {
        ops.push(garbled_frame(r));
    }
    json!({"env": env(r), "tasks": [{"ops": ops}]})
}

/// The texts that are on show in a frame (what a symbol says that was damaged beyond its capacity
/// is up to the standard).
fn texts(op: &Value) -> Vec<String> {
    let mut out = vec![];
    for p in op["place"].as_array().into_iter().flatten() {
        let s = sent(&p["sym"]);
        if !s.within() {
            out.extend(s.alternatives());
        }
        out.extend(s.text);
    }
    out
}

fn judge_garbled(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    let known = texts(op);
    lab.case(Some(op.to_string()));
    if let Some(p) = obs["res"].get("panic") {
        return bad("frame-panic", format!("decoding a {}x{} frame panicked: {}", op["w"], op["h"], p));
    }
    if obs["oob"].as_u64().unwrap_or(0) > 0 {
        return bad("read-outside", format!("{} pixels outside of the {}x{} frame were read", obs["oob"], op["w"], op["h"]));
    }
    for x in obs["res"].as_array().into_iter().flatten() {
        lab.hit(if x["ok"].is_string() { "probe:delivered" } else { "probe:reported-as-error" });
        if let Some(t) = x["ok"].as_str() {
            if !known.iter().any(|k| k == t) {
                return bad("phantom-text", format!("the frame shows {} but {} was delivered", show(&json!(known)), show(&x["ok"])));
            }
            if x["info"].is_array() {
                // whatever the camera did, the account fits a symbol that says this
                let fits = op["place"].as_array().into_iter().flatten().any(|p| {
                    let y = &p["sym"];
                    let (v, l) = (y["v"].as_u64().unwrap() as usize, Level::from_name(y["l"].as_str().unwrap()));
                    let most: usize = layout(v, l).blocks.iter().map(|_| ecc_per_block(v, l) / 2 * 8).sum();
                    x["info"][0] == json!(v)
                        && x["info"][1].as_str() == Some(l.name())
                        && x["info"][2] == json!(data_codewords(v, l) * 8)
                        && x["info"][3].as_u64().map_or(false, |e| e as usize <= most)
                });
                if !fits {
                    return bad("frame-account", format!("{} was delivered with info {}", show(&x["ok"]), x["info"]));
                }
            }
        } else if !x["qr"].as_bool().unwrap_or(true) {
            return bad("foreign-error", format!("an error that is not a QR error: {}", show(x)));
        }
    }
    if obs["res"].as_array().map_or(true, |a| a.is_empty()) {
        lab.hit("probe:nothing-found");
    }
    None
}

// ------------------------------------------------------------------ C10: delivery

fn gen_delivery(r: &mut Rng, index: u64) -> Value {
    if index % 4 == 1 {
        return gen_conveyor(r);
    }
    let multi = index % 4 == 3;
    let mut ops = vec![];
    if index % 40 == 8 {
        // right in front of the lens
        let l = lvl(r);
        let s = sym(r, 1, l);
        let scale = 50 + r.below(70);
        for _ in 0..8 {
            let mut f = presentation_at(r, &s, scale);
            f["g"] = json!(0);
            f["need"] = json!(1);
            f["src"] = json!(["sim", "rgba", "dyn", "luma"][r.below(4)]);
            ops.push(f);
        }
    } else if index % 40 == 28 {
        // somewhere in a wide view, now and then one with more columns or rows than 16 bits count
        let v = 1 + r.below(3);
        let l = lvl(r);
        let s = sym(r, v, l);
        let vast = index % 400 == 28;
        let dir = r.below(2);
        for _ in 0..8 {
            let mut f = presentation_at(r, &s, 3);
            if vast {
                let (size, at) = [("w", "cx"), ("h", "cy")][dir];
                let m = 65536 + r.below(2000);
                f[size] = json!(f[size].as_u64().unwrap() as usize + m);
                f["place"][0][at] = json!(f["place"][0][at].as_f64().unwrap() + m as f64);
            } else {
                widen(r, &mut f, 4000);
            }
            f["g"] = json!(0);
            f["need"] = json!(1);
            f["src"] = json!(["sim", "rgba", "dyn", "luma"][r.below(4)]);
            f["info"] = json!(r.chance(0.3));
            ops.push(f);
        }
    } else if multi {
        let k = match index % 40 {
            // a sheet of labels
            15 => 10 + r.below(15),
            _ if r.chance(0.2) => 5 + r.below(5),
            _ => 2 + r.below(3),
        };
        let syms: Vec<Value> = (0..k)
            .map(|i| {
                let v = 1 + r.below(if k > 4 { 3 } else { 5 });
                let l = lvl(r);
                let mut s = sym(r, v, l);
                if data_codewords(v, l) >= 12 {
                    s["segs"] = json!([["A", format!("BOX {} {}", i, r.below(1000))]]);
                } else {
                    s["segs"] = json!([["A", format!("B {} {}", i, r.below(100))]]);
                }
                s
            })
            .collect();
        let cols = if k > 9 { 3 + r.below(3) } else { 1 + r.below(if k > 4 { 3 } else { 2 }) };
        for _ in 0..8 {
            let mut f = scene(r, &syms, cols);
            f["op"] = json!("frame");
            f["g"] = json!(0);
            f["need"] = json!(k);
            f["src"] = json!(["sim", "rgba", "dyn", "luma"][r.below(4)]);
            f["info"] = json!(r.chance(0.3));
            ops.push(f);
        }
    } else {
        let groups = 1 + r.below(3);
        for g in 0..groups {
            let v = match r.below(10) {
                0 => 20 + r.below(21),
                1 | 2 => 8 + r.below(12),
                _ => 1 + r.below(8),
            };
            if g > 0 && v > 12 {
                break;
            }
            let l = lvl(r);
            let s = sym(r, v, l);
            let troubled = r.chance(0.4);
            for k in 0..8 {
                if troubled && k < 3 {
                    // trouble first: whatever it does, it has to be over with the fault
                    for _ in 0..1 + r.below(2) {
                        let mut f = presentation(r, &s);
                        let (w, h) = (f["w"].as_i64().unwrap(), f["h"].as_i64().unwrap());
                        f["fx"] = json!([camera_fault(r, w, h), camera_fault(r, w, h)]);
                        f["g"] = json!(g);
                        f["need"] = json!(1);
                        f["trouble"] = json!(true);
                        f["src"] = json!(["sim", "rgba", "dyn", "luma"][r.below(4)]);
                        ops.push(f);
                    }
                }
                let mut f = presentation(r, &s);
                f["g"] = json!(g);
                f["need"] = json!(1);
                f["src"] = json!(["sim", "rgba", "dyn", "luma"][r.below(4)]);
                f["info"] = json!(r.chance(0.3));
                ops.push(f);
            }
        }
    }
    json!({"env": env(r), "tasks": [{"ops": ops}]})
}

/// Kinds of mounts. Each of them disturbs the picture in a way that is harmless most of the time.
const MOUNTS: [&str; 15] = [
    "clean", "light", "contrast", "colour", "fraction", "tilt", "worn", "small", "big", "dust", "turned", "aslant", "wide", "close", "far",
];

/// A mounted camera over a conveyor: different symbols pass, each is seen once.
fn gen_conveyor(r: &mut Rng) -> Value {
    let kind = MOUNTS[r.below(MOUNTS.len())];
    let angle = 90 * r.below(4);
    let (vmin, vmax, n) = match r.below(6) {
        // what turns or recedes is read reliably only as long as it is small
        _ if kind == "turned" => (1, 6, 16),
        _ if kind == "aslant" => (2, 6, 16),
        _ if kind == "close" => (1, 2, 6),
        _ if kind == "far" => (1, 4, 10),
        0 if kind != "big" => (7, 14, 16),
        1 if kind == "clean" => (20, 40, 6),
        _ => (1, 6, 24),
    };
    let scale = match kind {
        "small" => 2.0,
        "big" => 7.0 + r.below(4) as f64,
        "close" => 11.0 + r.below(14) as f64,
        "fraction" => 3.0 + 3.0 * r.f(),
        _ => 3.0 + r.below(4) as f64,
    };
    let level = if r.chance(0.5) { Some(lvl(r)) } else { None };
    let fixed = if kind == "tilt" { r.f() * 6.0 - 3.0 } else { 0.0 };
    let (gx, gy) = (r.range(-50, 50), r.range(-50, 50));
    let d = 30 + r.below(60) as i64;
    let mid = 90 + r.below(75) as i64;
    let hue = r.below(3);
    let src = ["sim", "rgba", "dyn", "luma"][r.below(4)];
    let info = r.chance(0.3);
    let mut ops = vec![];
    for _ in 0..n {
        let v = vmin + r.below(vmax - vmin + 1);
        let l = level.unwrap_or(lvl(r));
        let mut s = sym(r, v, l);
        if kind == "worn" {
            s["faults"] = json!(within(r, v, l));
        }
        // held by hand, each a little differently
        let slant = match kind {
            "turned" => (3.0 + 6.0 * r.f()) * if r.chance(0.5) { 1.0 } else { -1.0 },
            _ => fixed,
        };
        let (ps, pc) = (r.f() * std::f64::consts::TAU).sin_cos();
        let pm = 10.0 + 30.0 * r.f();
        let px = side(v) as f64 * scale;
        let wide = match kind {
            "wide" => 40.0,
            "turned" | "aslant" => 10.0,
            "close" => 1.0,
            _ => 6.0,
        };
        let least = if kind == "turned" || kind == "aslant" { 4.5 + side(v) as f64 * 0.1 } else { 4.5 };
        let q = |r: &mut Rng| ((least + wide * r.f()) * scale).ceil();
        let (x0, x1, y0, y1) = (q(r), q(r), q(r), q(r));
        let (w, h) = (x0 + x1 + px.ceil(), y0 + y1 + px.ceil());
        let mut f = json!({"op": "frame", "w": w as i64, "h": h as i64, "mount": kind, "of": n, "src": src, "info": info,
            "place": [{"sym": s, "cx": x0 + px / 2.0, "cy": y0 + px / 2.0, "s": scale, "a": angle as f64 + slant}]});
        if kind == "aslant" {
            f["place"][0]["p"] = json!([(pc * pm).round() / 1000.0, (ps * pm).round() / 1000.0]);
        }
        match kind {
            "light" => {
                f["bg"] = json!([200, 200, 200]);
                f["fg"] = json!([60, 60, 60]);
                f["fx"] = json!([["grad", gx, gy]]);
            }
            "contrast" => {
                f["bg"] = json!([mid + d, mid + d, mid + d]);
                f["fg"] = json!([mid - d, mid - d, mid - d]);
            }
            "colour" => {
                let (b, g) = ([[255, 255, 160], [200, 255, 220], [255, 220, 220]][hue], [[0, 60, 120], [90, 0, 60], [0, 80, 0]][hue]);
                f["bg"] = json!(b);
                f["fg"] = json!(g);
            }
            "far" => widen(r, &mut f, 1500),
            "dust" => f["fx"] = json!([["noise", (r.next() >> 12), (w * h * 0.0003) as u64 + 1]]),
            _ => {}
        }
        ops.push(f);
    }
    json!({"env": env(r), "tasks": [{"ops": ops}]})
}

fn judge_conveyor(plan: &Value, o: &Outcome, lab: &mut Lab) -> Option<Verdict> {
    let ops = plan["tasks"][0]["ops"].as_array().unwrap();
    let mut seen = 0;
    for (op, obs) in ops.iter().zip(&o.obs[0]) {
        if let Some(p) = obs["res"].get("panic") {
            return bad("delivery-panic", format!("{}", p));
        }
        let known = texts(op);
        let mut ok = false;
        for x in obs["res"].as_array().into_iter().flatten() {
            if let Some(t) = x["ok"].as_str() {
                if !known.iter().any(|k| k == t) {
                    return bad("delivery-wrong", format!("the frame shows {} but {} was delivered", show(&json!(known)), show(&x["ok"])));
                }
                ok = true;
            }
        }
        seen += usize::from(ok);
    }
    let n = ops.len();
    let kind = ops.first().and_then(|f| f["mount"].as_str()).unwrap_or("").to_string();
    lab.case(Some(plan["tasks"].to_string()));
    lab.hit(&format!("probe:conveyor-{}", kind));
    *lab.counters.entry("probe:conveyor-symbols".into()).or_insert(0) += n as u64;
    *lab.counters.entry("probe:conveyor-missed-at-first-sight".into()).or_insert(0) += (n - seen) as u64;
    lab.max(&format!("conveyor-missed-of-one-batch-{}", kind), (n - seen) as u64);
    // a share of all that passed: a batch from which some were taken out says nothing
    let by_hand = kind == "turned" || kind == "aslant";
    if n >= ops[0]["of"].as_u64().unwrap_or(6) as usize && (seen * 4 < n * 3 && !by_hand || seen * 8 < n * 5) {
        return bad("delivery-rate", format!("only {} of {} symbols that passed once were delivered ({} mount)", seen, n, kind));
    }
    None
}

fn judge_delivery(plan: &Value, o: &Outcome, lab: &mut Lab) -> Option<Verdict> {
    if plan["tasks"][0]["ops"][0]["mount"].is_string() {
        return judge_conveyor(plan, o, lab);
    }
    let mut groups: BTreeMap<u64, (BTreeSet<String>, BTreeSet<String>, usize, usize)> = BTreeMap::new();
    for (op, obs) in plan["tasks"][0]["ops"].as_array().unwrap().iter().zip(&o.obs[0]) {
        let e = groups.entry(op["g"].as_u64().unwrap_or(0)).or_default();
        let trouble = op["trouble"].as_bool().unwrap_or(false);
        e.2 += usize::from(!trouble);
        let known = texts(op);
        e.0.extend(known.iter().cloned());
        if obs.get("skipped").is_some() {
            continue;
        }
        e.3 += usize::from(!trouble);
        if let Some(p) = obs["res"].get("panic") {
            return bad("delivery-panic", format!("{}", p));
        }
        for x in obs["res"].as_array().into_iter().flatten() {
            if let Some(t) = x["ok"].as_str() {
                if !known.iter().any(|k| k == t) {
                    return bad("delivery-wrong", format!("the frame shows {} but {} was delivered", show(&json!(known)), show(&x["ok"])));
                }
                e.1.insert(t.to_string());
            }
        }
    }
    for (g, (want, got, n, tried)) in groups {
        lab.case(Some(format!("{:?}", want)));
        lab.hit(&format!("probe:delivered-at-attempt-{}", tried));
        if n >= 8 && want != got {
            let missing: Vec<&String> = want.difference(&got).collect();
            return bad("never-delivered", format!("group {}: {} not delivered in {} clean presentations", g, show(&json!(missing)), n));
        }
    }
    None
}

// ------------------------------------------------------------------ C11: live buffer

fn gen_live(r: &mut Rng) -> Value {
    let mut ops = vec![];
    for _ in 0..1 + r.below(3) {
        let (v, l) = (1 + r.below(3), lvl(r));
        let s = sym(r, v, l);
        let mut f = if r.chance(0.25) { garbled_frame(r) } else { presentation(r, &s) };
        f["info"] = json!(r.chance(0.5));
        if r.chance(0.15) {
            // a still picture: every kind of container says the same
            f["src"] = json!("kinds");
            if r.chance(0.6) {
                let m = [3, 20, 90][r.below(3)];
                f["crop"] = json!([r.below(m), r.below(m), r.below(m), r.below(m), r.below(1 << 30)]);
            }
            if r.chance(0.6) {
                f["deep"] = json!(r.below(1 << 30));
            }
            ops.push(f);
            continue;
        }
        f["src"] = json!("live");
        if r.chance(0.3) {
            let (b, m) = ([5, 5, 1, 2, 8][r.below(5)], [7, 7, 3, 5][r.below(4)]);
            f["prep"] = json!([b, m]);
            if r.chance(0.7) {
                // grey on grey, where each pixel tells
                let (m, d) = (r.range(20, 230), r.range(1, 20));
                f["fg"] = json!([m - d, m - d, m - d]);
                f["bg"] = json!([m + d, m + d, m + d]);
            }
            if r.chance(0.4) {
                let (w, h) = (1 + r.below(30), 1 + r.below(30));
                f["w"] = json!(w);
                f["h"] = json!(h);
                f["place"] = json!([]);
                f["fill"] = json!(r.next() >> 33);
                f["fillstyle"] = json!(r.below(4));
            }
            f["info"] = json!(false);
        }
        let (w, h) = (f["w"].as_u64().unwrap(), f["h"].as_u64().unwrap());
        let mut next = vec![];
        for _ in 0..1 + r.below(3) {
            let mut g = f.clone();
            match r.below(6) {
                5 => g["fx"] = json!([(if r.chance(0.5) { json!(["clear"]) } else { json!(["alpha", r.below(256)]) })]),
                0 => {
                    let l2 = lvl(r);
                    let s2 = sym(r, v, l2);
                    g = presentation(r, &s2);
                }
                1 => g["fx"] = json!([["invert"]]),
                2 => g["place"] = json!([]),
                3 => g["fx"] = json!([camera_fault(r, w as i64, h as i64)]),
                _ => {
                    let d = r.range(-8, 8) as f64;
                    if let Some(p) = g["place"].as_array_mut().and_then(|a| a.first_mut()) {
                        p["cx"] = json!(p["cx"].as_f64().unwrap() + d);
                    }
                }
            }
            let at = match r.below(6) {
                0 => 0,
                1 => w * h,
                5 => 1 + r.below(3) as u64,
                2 => r.below((3 * w * h + 1) as usize) as u64,
                _ => r.below((w * h + 1) as usize) as u64,
            };
            g.as_object_mut().unwrap().remove("src");
            next.push((at, g));
        }
        next.sort_by_key(|x| x.0);
        f["next"] = Value::Array(next.into_iter().map(|(a, g)| json!({"at": a, "frame": g})).collect());
        ops.push(f);
    }
    json!({"env": env(r), "tasks": [{"ops": ops}]})
}

fn judge_live(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    lab.case(Some(op.to_string()));
    if op["src"] == "kinds" {
        let k = obs["kinds"].as_array().cloned().unwrap_or_default();
        for (i, x) in k.iter().enumerate() {
            if x != &k[0] {
                return bad("container-matters", format!("container {} gave {}, container 0 gave {}", i, show(x), show(&k[0])));
            }
        }
        for p in obs["pairs"].as_array().into_iter().flatten() {
            lab.hit("probe:deep-container");
            if p[0] != p[1] {
                return bad("container-matters", format!("a container gave {}, the pixels it shows {}", show(&p[0]), show(&p[1])));
            }
        }
        if op["crop"].is_array() {
            lab.hit("probe:part-of-a-picture");
        }
        return None;
    }
    if obs["oob"].as_u64().unwrap_or(0) > 0 {
        return bad("live-read-outside", format!("{} reads outside of the frame", obs["oob"]));
    }
    if obs["res"].get("panic").is_some() {
        return bad("live-panic", show(&obs["res"]));
    }
    for k in ["frozen", "buffer"] {
        if obs["res"] != obs[k] {
            return bad(
                "not-a-snapshot",
                format!("decoded while it was being overwritten: {}; the frame that was read, decoded again ({}): {}", show(&obs["res"]), k, show(&obs[k])),
            );
        }
    }
    if obs["unread"].as_u64().unwrap_or(0) > 0 {
        lab.hit("probe:pixels-never-read");
    }
    None
}

// ------------------------------------------------------------------ C12: pipeline

fn gen_pipelines(r: &mut Rng) -> Value {
    if r.chance(0.06) {
        // somebody else's extraction, and a shipped decoder
        return json!({"env": env(r), "tasks": [{"ops": [handed(r)]}]});
    }
    if !r.chance(0.03) {
        return gen_pipeline(r);
    }
    // the shipped components, watched
    let mut f = if r.chance(0.6) {
        let k = 1 + r.below(5);
        crowded(r, k)
    } else {
        garbled_frame(r)
    };
    f["op"] = json!("wrapped");
    f["info"] = json!(r.chance(0.5));
    f.as_object_mut().unwrap().remove("src");
    json!({"env": env(r), "tasks": [{"ops": [f]}]})
}

fn handed(r: &mut Rng) -> Value {
    let mut items = vec![];
    let level = lvl(r);
    for k in 0..r.below(8) {
        if r.chance(0.35) {
            let e = [format!("lost {}", r.below(100)), String::new(), "Data cannot be read".into(), "\u{e9}\n%s{}".into()][r.below(4)].clone();
            items.push(json!({ "err": e }));
            continue;
        }
        let most = if r.chance(0.2) { 12 } else { 4 };
        let v = 1 + r.below(most);
        let l = if r.chance(0.5) { level } else { lvl(r) };
        let mut s = sym(r, v, l);
        match r.below(4) {
            0 => {
                Twins::twist(r, &mut s);
            }
            1 => s["faults"] = json!(within(r, v, l)),
            2 if k > 0 => {
                if let Some(old) = items.iter().rev().find(|i| i["err"].is_null()) {
                    s = old.clone();
                }
            }
            _ => {}
        }
        items.push(s);
    }
    json!({"op": "handed", "items": items, "info": r.chance(0.5), "rounds": 1 + r.below(3)})
}

fn judge_handed(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    lab.case(Some(op.to_string()));
    lab.hit("probe:shipped-decoder-behind-other-components");
    let info = op["info"].as_bool().unwrap_or(false);
    let want: Vec<Value> = op["items"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|i| match i["err"].as_str() {
            Some(e) => json!({"err": format!("Error decoding QR Code: {}", e), "qr": true}),
            None => {
                let mut s = i.clone();
                s["op"] = json!("sym");
                let alone = lab.pristine(&s)[if info { "info" } else { "plain" }].clone();
                match alone["err"].as_str() {
                    Some(e) => json!({"err": format!("Error decoding QR Code: {}", e), "qr": true}),
                    None => alone,
                }
            }
        })
        .collect();
    let rounds = op["rounds"].as_u64().unwrap_or(1) as usize;
    let want = Value::Array(vec![Value::Array(want); rounds]);
    if obs["res"] != want {
        return bad("handed-over", format!("what was extracted decodes alone to {}, in a pipeline to {}", show(&want), show(&obs["res"])));
    }
    None
}

fn judge_watched(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    lab.case(Some(op.to_string()));
    lab.hit("probe:shipped-components-watched");
    let n = obs["res"].as_array().map_or(0, |a| a.len()) as u64;
    for (c, want) in [("prepare", 1), ("detect", 1), ("extract", n), ("decode", n)] {
        let got = obs["calls"][c].as_u64().unwrap_or(0);
        if got != want {
            return bad(&format!("watched-{}", c), format!("{} results, but {} was called {} times", n, c, got));
        }
    }
    let mut plain = op.clone();
    plain["op"] = json!("frame");
    let want = lab.pristine(&plain);
    if obs["res"] != want["res"] {
        return bad("default-components", format!("the shipped components give {}, the default decoder {}", show(&obs["res"]), show(&want["res"])));
    }
    None
}

fn gen_pipeline(r: &mut Rng) -> Value {
    let mut parts = vec![];
    let n = 3 + r.below(4);
    for k in 0..n {
        let kind = if k < 3 { ["prepare", "detect", "qr"][k] } else { ["prepare", "detect", "qr"][r.below(3)] };
        let tag = format!("{}{}", kind, k);
        let nl = [0, 1, 1, 2, 3, 7, 30][r.below(7)];
        let dup = r.chance(0.3);
        parts.push(match kind {
            "prepare" => json!({"part": kind, "tag": tag, "out": 100 + k}),
            "detect" => json!({"part": kind, "tag": tag,
                "locs": (0..nl).map(|i| if dup { r.below(3) } else { i * 7 % 31 }).collect::<Vec<_>>()}),
            _ => {
                let ex: Vec<Value> = (0..1 + r.below(5))
                    .map(|_| if r.chance(0.35) { json!(["err", format!("x{}", r.below(100))]) } else { json!(["ok", r.below(40), r.below(41)]) })
                    .collect();
                let de: Vec<Value> = (0..1 + r.below(5))
                    .map(|_| match r.below(5) {
                        0 => json!(["err", format!("d{}", r.below(100))]),
                        1 => json!(["recover"]),
                        _ => json!(["pass"]),
                    })
                    .collect();
                json!({"part": kind, "tag": tag, "extract": ex, "decode": de})
            }
        });
    }
    if r.chance(0.004) {
        // more locations than small counters can tell
        let m = if r.chance(0.05) { 65_500 + r.below(3000) } else { 200 + r.below(1000) };
        for p in parts.iter_mut().filter(|p| p["part"] == "detect") {
            p["locs"] = json!({ "many": m });
        }
    }
    r.shuffle(&mut parts);
    if r.chance(0.12) {
        // a component is missing
        let gone = ["prepare", "detect", "qr"][r.below(3)];
        parts.retain(|p| p["part"] != gone);
    }
    json!({"env": env(r), "tasks": [{"ops": [{"op": "pipe", "parts": parts, "input": r.below(1000), "rounds": 1 + r.below(3)}]}]})
}

fn judge_pipeline(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    if op["op"] == "wrapped" {
        return judge_watched(op, obs, lab);
    }
    if op["op"] == "handed" {
        return judge_handed(op, obs, lab);
    }
    lab.case(Some(op.to_string()));
    let parts = op["parts"].as_array().unwrap();
    let last = |k: &str| parts.iter().rev().find(|p| p["part"] == k);
    let (Some(p), Some(d), Some(q)) = (last("prepare"), last("detect"), last("qr")) else {
        lab.hit("probe:component-missing");
        if obs["build"] != "panic" {
            return bad("build-accepted", "a decoder was built although a component is missing".into());
        }
        return None;
    };
    if obs["build"] != "ok" {
        return bad("build-refused", format!("a complete decoder could not be built: {}", show(obs)));
    }
    let locs = crate::ops::places(&d["locs"]);
    if locs.len() > 60_000 {
        lab.hit("probe:tens-of-thousands-of-locations");
    }
    let ex = q["extract"].as_array().unwrap();
    let de = q["decode"].as_array().unwrap();
    let rounds = op["rounds"].as_u64().unwrap_or(1);
    let mut nth = 0usize; // calls of the decode component
    // expected calls per component, and results
    let mut want: BTreeMap<&str, Vec<Value>> = BTreeMap::new();
    let mut results = vec![];
    for k in 0..rounds {
        want.entry("prepare").or_default().push(json!(["prepare", p["tag"], op["input"].as_u64().unwrap() + k]));
        want.entry("detect").or_default().push(json!(["detect", d["tag"], p["out"]]));
        let mut res = vec![];
        for l in &locs {
            want.entry("extract").or_default().push(json!(["extract", q["tag"], p["out"], l, true]));
            let s = &ex[*l as usize % ex.len()];
            let got: Result<(u64, u64), String> = if s[0] == "err" {
                Err(format!("{}-{}", s[1].as_str().unwrap(), l))
            } else {
                Ok((s[1].as_u64().unwrap(), s[2].as_u64().unwrap()))
            };
            want.entry("decode").or_default().push(match &got {
                Ok((len, v)) => json!(["decode", q["tag"], "ok", if *len > 0 { json!(*l as u8) } else { Value::Null }, len, v, 4 * v + 17]),
                Err(e) => json!(["decode", q["tag"], "err", e]),
            });
            let s = &de[nth % de.len()];
            res.push(match (s[0].as_str().unwrap(), got) {
                ("err", _) => {
                    let m = format!("{}-{}", s[1].as_str().unwrap(), nth);
                    json!({"err": m, "shown": format!("Error decoding QR Code: {}", m)})
                }
                ("pass", Err(e)) => json!({"err": e, "shown": format!("Error decoding QR Code: {}", e)}),
                ("recover", Err(_)) => json!({"ok": 9000 + nth}),
                _ => json!({"ok": 1000 + nth}),
            });
            nth += 1;
        }
        results.push(Value::Array(res));
    }
    let trace = obs["trace"].as_array().unwrap();
    for k in ["prepare", "detect", "extract", "decode"] {
        let got: Vec<&Value> = trace.iter().filter(|t| t[0] == k).collect();
        let w: Vec<&Value> = want.get(k).map(|v| v.iter().collect()).unwrap_or_default();
        if got != w {
            return bad(&format!("pipeline-{}", k), format!("calls of {}: expected {} got {}", k, show(&json!(w)), show(&json!(got))));
        }
    }
    if obs["rounds"] != Value::Array(results.clone()) {
        return bad("pipeline-results", format!("expected {} got {}", show(&json!(results)), show(&obs["rounds"])));
    }
    if locs.is_empty() {
        lab.hit("probe:nothing-detected");
    }
    None
}

// ------------------------------------------------------------------ C13: neighbours

fn gen_neighbours(r: &mut Rng) -> Value {
    let k = 2 + r.below(4);
    let mut syms = vec![];
    for i in 0..k {
        let v = [1, 1, 2, 3, 4, 5, 6, 7][r.below(8)];
        let l = lvl(r);
        let mut s = sym(r, v, l);
        if r.chance(0.5) {
            s["segs"] = json!([["N", format!("{}{}", i, r.below(1000))]]);
        }
        match r.below(5) {
            0 => {
                let lay = layout(v, l);
                let b = r.below(lay.blocks.len());
                let (nd, len) = lay.blocks[b];
                let (e, _) = block_errors(r, len, nd, len / 2 + 2);
                let mut f = vec![];
                cw_faults(&mut f, b, &e);
                s["faults"] = json!(f);
            }
            1 => s["faults"] = json!(within(r, v, l)),
            _ => {}
        }
        syms.push(s);
    }
    let cols = 1 + r.below(3);
    let mut f = scene(r, &syms, cols);
    f["op"] = json!("located");
    let mut locs: Vec<Value> = (0..k).map(|i| json!({ "of": i })).collect();
    // a faulty detector: things that are not there, things reported twice, wrong sizes
    for _ in 0..r.below(4) {
        let (w, h) = (f["w"].as_f64().unwrap(), f["h"].as_f64().unwrap());
        let mut at = r.below(locs.len() + 1);
        if r.chance(0.35) {
            // next to a true one, something that is nearly the same
            let i = at.min(locs.len() - 1);
            if let (Some(of), true) = (locs[i]["of"].as_u64(), locs[i]["v"].is_null()) {
                let mut j = vec![0.0; 6];
                let (dx, dy) = (r.f() * w - w / 2.0, r.f() * h - h / 2.0);
                match r.below(4) {
                    // one corner elsewhere
                    0 | 1 => {
                        let c = 2 * r.below(3);
                        (j[c], j[c + 1]) = (dx, dy);
                    }
                    // two
                    2 => {
                        let c = r.below(3);
                        for k in (0..3).filter(|k| *k != c) {
                            (j[2 * k], j[2 * k + 1]) = (dx * (k as f64 - 0.5), dy);
                        }
                    }
                    // a little off
                    _ => j.iter_mut().for_each(|x| *x = r.f() * 8.0 - 4.0),
                }
                at = i + r.below(2);
                locs.insert(at, json!({"of": of, "j": j, "junk": true}));
                continue;
            }
        }
        locs.insert(
            at,
            match r.below(9) {
                8 => {
                    // all but outside: its outermost modules are within a pixel or two of the border
                    let v = [1, 1, 1, 1, 2, 3][r.below(6)];
                    let m = 1.0 + r.f() * 5.0;
                    let n = side(v) as f64 - 7.0;
                    let turn = r.below(4);
                    let mut corner = |len: f64| {
                        let d = r.f() * 3.0 - 1.5;
                        if r.chance(0.7) { len + d - (n + 3.0) * m } else { d + 3.0 * m }
                    };
                    let (x, y) = (corner(w), corner(h));
                    let at = |i: usize| [(x, y), (x + n * m, y), (x + n * m, y + n * m), (x, y + n * m)][(turn + i) % 4];
                    let (a, b, c) = (at(0), at(1), at(3));
                    json!({"raw": [a.0, a.1, b.0, b.1, c.0, c.1, m], "v": v})
                }
                6 => json!({"of": r.below(k), "v": ([0, 41, 42, 64, 250, 1000, 4096, 100_000, 0x4000_0000, u32::MAX as u64][r.below(10)]), "junk": true}),
                7 => {
                    // numbers that are none, or far too large
                    let mut c: Vec<Value> = (0..7).map(|_| json!(r.f() * w)).collect();
                    for _ in 0..1 + r.below(3) {
                        c[r.below(7)] = match r.below(12) {
                            0 => json!("nan"),
                            1 => json!("inf"),
                            2 => json!("-inf"),
                            k => json!([1e300, -1e300, 1e308, -1.0, -0.4, 4294967295.0, 1e-300, w, h - 0.5][k - 3]),
                        };
                    }
                    json!({"raw": c, "v": 1 + r.below(45)})
                }
                0 => json!({"of": r.below(k)}),
                1 => json!({"raw": [w + 50.0, 10.0, w + 90.0, 10.0, w + 50.0, 50.0, 3.0], "v": 1 + r.below(40)}),
                2 => json!({"raw": [-30.0, -30.0, 20.0, -30.0, -30.0, 20.0, 3.0], "v": 1 + r.below(40)}),
                3 => json!({"raw": [r.f() * w, r.f() * h, r.f() * w, r.f() * h, r.f() * w, r.f() * h, 1.0 + r.f() * 8.0], "v": 1 + r.below(45)}),
                4 => {
                    let p = r.f() * w;
                    json!({"raw": [p, 5.0, p, 5.0, p, 5.0, 0.0], "v": 1 + r.below(40)})
                }
                _ => json!({"of": r.below(k), "v": 1 + r.below(40), "junk": true}),
            },
        );
    }
    if r.chance(0.3) {
        r.shuffle(&mut locs);
    }
    f["locs"] = json!(locs);
    f["info"] = json!(r.chance(0.4));
    f["id"] = json!(0);
    let mut ops = vec![f];
    if r.chance(0.3) {
        let mut again = ops[0].clone();
        again["info"] = json!(!again["info"].as_bool().unwrap());
        ops.push(again);
    }
    json!({"env": env(r), "tasks": [{"ops": ops}]})
}

/// Whether a symbol with as much damage as it can take was lost because the picture itself shows a
/// module wrongly: it is lost without the other locations, too, and without its damage it is read
/// with an account of errors.
fn misread(op: &Value, k: usize, lab: &mut Lab) -> bool {
    let mut one = op.clone();
    one["locs"] = json!([op["locs"][k]]);
    one["info"] = json!(true);
    if lab.pristine(&one)["res"][0]["ok"].is_string() {
        return false;
    }
    let of = op["locs"][k]["of"].as_u64().unwrap() as usize;
    one["place"][of]["sym"]["faults"] = json!([]);
    let clean = lab.pristine(&one)["res"][0].clone();
    let it_is = clean["info"][3].as_u64().unwrap_or(0) > 0;
    if it_is {
        lab.hit("probe:module-misread-in-the-picture");
    }
    it_is
}

fn judge_neighbours(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    let locs = op["locs"].as_array().unwrap();
    lab.case((locs.len() > 1).then(|| op.to_string()));
    if obs["res"].get("panic").is_some() {
        return bad("neighbour-panic", show(&obs["res"]));
    }
    let res = obs["res"].as_array().cloned().unwrap_or_default();
    if res.len() != locs.len() {
        return bad("result-count", format!("{} locations, {} results", locs.len(), res.len()));
    }
    let all = texts(op);
    for (k, (l, g)) in locs.iter().zip(&res).enumerate() {
        let exact = l["of"].is_u64() && l["v"].is_null() && l["j"].is_null();
        if exact {
            let s = sent(&op["place"][l["of"].as_u64().unwrap() as usize]["sym"]);
            if s.within() {
                lab.hit("probe:readable-symbol-among-others");
                if g["ok"].as_str() != s.text.as_deref() && !misread(op, k, lab) {
                    return bad("neighbour-lost", format!("location {}: expected {} got {}", k, show(&json!(s.text)), show(g)));
                }
                if g["info"].is_array() && g["info"][3] != json!(s.bit_errors) {
                    // a module that the picture shows on the border of two counts as well: what
                    // matters is that it does without the others
                    let mut one = op.clone();
                    one["locs"] = json!([l]);
                    let alone = lab.pristine(&one)["res"][0].clone();
                    if *g != alone {
                        return bad("neighbour-account", format!("location {}: {} among others, {} alone, {} bits were flipped", k, show(g), show(&alone), s.bit_errors));
                    }
                    lab.hit("probe:module-misread-in-the-picture");
                }
            } else {
                lab.hit("probe:unreadable-symbol-among-others");
                if let Some(t) = g["ok"].as_str() {
                    if s.text.as_deref() != Some(t) && !s.alternatives().iter().any(|a| a == t) {
                        return bad("neighbour-wrong", format!("location {}: delivered {}", k, show(&g["ok"])));
                    }
                }
            }
        } else {
            lab.hit("fault:bogus-location");
            if let Some(t) = g["ok"].as_str() {
                if !all.iter().any(|a| a == t) {
                    return bad("neighbour-phantom", format!("location {} is bogus but delivered {}", k, show(&g["ok"])));
                }
            }
        }
    }
    None
}

// ------------------------------------------------------------------ C14: debug images

fn gen_debug_disk(r: &mut Rng) -> Value {
    let tmp = ["/tmp", "/var/scratch/deep", "/tmp/a b", "/ro"][r.below(4)];
    let mut dirs = vec![json!("/tmp"), json!("/ro")];
    if r.chance(0.7) {
        dirs.push(json!(tmp));
    }
    let mut files = vec![];
    let base = format!("{}/bardecoder-debug-images", tmp);
    match r.below(6) {
        0 => files.push(json!([base, 3])),
        1 => dirs.push(json!(format!("{}/candidates.png", base))),
        2 => {
            dirs.push(json!(base));
            files.push(json!([format!("{}/extract", base), 1]));
        }
        3 => {
            dirs.push(json!(format!("{}/extract", base)));
            dirs.push(json!(format!("{}/alignment", base)));
            files.push(json!([format!("{}/candidates.png", base), 100]));
        }
        _ => {}
    }
    let mut faults = vec![];
    for _ in 0..r.below(6) {
        let call = ["open", "write", "write", "write", "mkdir", "stat", "close", "lseek", "fsync", "readdir"][r.below(10)];
        let act = match call {
            "write" => ["EIO", "ENOSPC", "short", "torn", "lost", "EINTR", "EDQUOT"][r.below(7)],
            "open" => ["EMFILE", "EACCES", "EROFS", "EIO", "EINTR"][r.below(5)],
            "mkdir" => ["EROFS", "EACCES", "ENOSPC", "EIO"][r.below(4)],
            _ => ["EIO", "EACCES"][r.below(2)],
        };
        // an interrupted call is retried for as long as it is interrupted
        let nth = if act != "EINTR" && r.chance(0.2) { 0 } else { 1 + r.below(30) };
        faults.push(json!([call, nth, act]));
    }
    let crash = r.chance(0.3);
    if crash {
        faults.push(json!([(["open", "write", "mkdir", "close"][r.below(4)]), 1 + r.below(12), "crash"]));
    }
    let mut disk = json!({"dirs": dirs, "files": files, "faults": faults, "tmpdir": tmp});
    if r.chance(0.2) {
        // what years of debugging have left behind
        let n = [20, 300, 1200][r.below(3)];
        let fill: Vec<Value> = ["", "/extract", "/alignment"].iter().filter(|_| r.chance(0.6)).map(|d| json!([format!("{}{}", base, d), n])).collect();
        disk["fill"] = json!(fill);
    }
    if r.chance(0.25) {
        disk["capacity"] = json!(r.below(60000));
    }
    if r.chance(0.15) {
        disk["fds"] = json!(r.below(2));
    }
    let mut ops = vec![];
    for _ in 0..1 + r.below(3) {
        let mut o = if r.chance(0.5) {
            let (v, l) = (1 + r.below(3), lvl(r));
            let mut s = sym(r, v, l);
            if r.chance(0.3) {
                s["faults"] = json!(within(r, v, l));
            }
            presentation(r, &s)
        } else if r.chance(0.7) {
            garbled_frame(r)
        } else {
            gen_neighbours(r)["tasks"][0]["ops"][0].clone()
        };
        // each pattern of a crowd is in dozens of symbols that are none, each with hundreds of images
        for f in o["fx"].as_array_mut().into_iter().flatten().filter(|f| f[0] == "crowd") {
            f[3] = json!(2);
        }
        o["info"] = json!(r.chance(0.4));
        ops.push(o);
    }
    let nt = if r.chance(0.25) && ops.len() > 1 { 2 } else { 1 };
    let tasks: Vec<Value> = if nt == 2 {
        let b = ops.split_off(1);
        vec![json!({ "ops": ops }), json!({ "ops": b })]
    } else {
        vec![json!({ "ops": ops })]
    };
    let mut e = env(r);
    if r.chance(0.5) {
        e["log"] = json!(0);
    }
    json!({"env": e, "disk": disk, "tasks": tasks})
}

/// Ask the build without the feature what the operations give.
fn plain_results(plan: &Value) -> Vec<Vec<Value>> {
    use std::io::Write;
    let bin = std::env::var("BDSIM_PLAIN").expect("BDSIM_PLAIN");
    let mut p = plan.clone();
    p.as_object_mut().unwrap().remove("disk");
    p.as_object_mut().unwrap().remove("preempt");
    let mut c = std::process::Command::new(bin)
        .arg("observe")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("plain build");
    c.stdin.take().unwrap().write_all(p.to_string().as_bytes()).unwrap();
    let out = c.wait_with_output().unwrap();
    let v: Value = serde_json::from_slice(&out.stdout).expect("plain build output");
    v.as_array().unwrap().iter().map(|t| t.as_array().unwrap().clone()).collect()
}

fn judge_debug_disk(plan: &Value, lab: &mut Lab) -> Option<Verdict> {
    if cfg!(not(feature = "debug-images")) {
        panic!("harness: C14 needs the debug-images build");
    }
    let want = plain_results(plan);
    // some two hundred images of the frame are drawn for every location: with many of them it takes
    // minutes, and is no hang
    let mut pixels = 0.0;
    for (t, obs) in want.iter().enumerate() {
        for (k, w) in obs.iter().enumerate() {
            let op = &plan["tasks"][t]["ops"][k];
            let n = w["res"].as_array().map_or(0, |r| r.len()) as f64;
            pixels += 200.0 * n * op["w"].as_f64().unwrap_or(300.0) * op["h"].as_f64().unwrap_or(300.0);
        }
    }
    if pixels > 1e9 {
        lab.hit("probe:undecided-too-many-debug-images");
        return None;
    }
    let mut plan = plan.clone();
    let tmp = plan["disk"]["tmpdir"].as_str().unwrap_or("/tmp").to_string();
    let base = format!("{}/bardecoder-debug-images", tmp);
    for round in 0..2 {
        let o = lab.go(&plan, false);
        if let Some(h) = o.hang.clone().or(o.died.clone()) {
            return bad("debug-hang", h);
        }
        for (t, obs) in o.obs.iter().enumerate() {
            for (k, g) in obs.iter().enumerate() {
                let w = want.get(t).and_then(|x| x.get(k)).cloned().unwrap_or(Value::Null);
                lab.case(Some(format!("{}{}", plan["disk"], plan["tasks"][t]["ops"][k])));
                if *g != w {
                    return bad("debug-changes-result", format!("task {} operation {}: {} with debug images, {} without", t, k, show(g), show(&w)));
                }
                for e in o.stats[t][k]["effects"].as_array().into_iter().flatten() {
                    let e = e.as_str().unwrap();
                    let path = e.split_once(' ').map_or("", |x| x.1);
                    let writes = !e.starts_with("open-read");
                    // what has the name of the directory but is none belongs to somebody else
                    let inside = path.starts_with(&format!("{}/", base)) || path == base && e.starts_with("mkdir ");
                    // creating the directories on the way there is part of it
                    let above = e.starts_with("mkdir ") && (tmp == path || tmp.starts_with(&format!("{}/", path)));
                    if writes && !inside && !above {
                        return bad("debug-effect-elsewhere", format!("task {} operation {}: {}", t, k, e));
                    }
                    lab.hit("probe:debug-image-effect");
                }
            }
        }
        if !o.crashed || round == 1 {
            break;
        }
        // power came back: only what had reached the disk is there
        lab.hit("fault:power-cut");
        let mut dirs = vec![];
        let mut files = vec![];
        for (p, n) in &o.disk {
            if *n < 0 {
                dirs.push(json!(p));
            } else {
                files.push(json!([p, n]));
            }
        }
        plan["disk"]["dirs"] = json!(dirs);
        plan["disk"]["files"] = json!(files);
        plan["disk"].as_object_mut().unwrap().remove("fill");
        let keep: Vec<Value> = plan["disk"]["faults"].as_array().into_iter().flatten().filter(|f| f[2] != "crash").cloned().collect();
        plan["disk"]["faults"] = json!(keep);
    }
    None
}

// ------------------------------------------------------------------ C15: memory

fn gen_memory(r: &mut Rng) -> Value {
    let tw = Twins::new(r, true);
    let distinct = r.chance(0.5);
    let mut cycle = vec![];
    for _ in 0..1 + r.below(3) {
        cycle.push(match r.below(5) {
            0 => garbled_frame(r),
            1 => any_op(r),
            _ => tw.op(r),
        });
    }
    if r.chance(0.12) {
        return gen_marathon(r);
    }
    if r.chance(0.005) {
        return json!({"env": {"log": 0, "sched": 1}, "tasks": [{"ops": [big_frame(r)]}]});
    }
    if r.chance(0.04) {
        // more to be looked at than there are symbols
        let n = 2 + r.below(4);
        let ms = 1 + r.below(3);
        let step = ms * (9 + r.below(6));
        let w = n * step + 20;
        let f = json!({"op": "frame", "src": "sim", "w": w, "h": w, "info": r.chance(0.5), "fx": [["crowd", 6, 6, n, step, ms]]});
        return json!({"env": {"log": 0, "sched": 1}, "tasks": [{"ops": [f]}]});
    }
    let killer = r.chance(0.25);
    let mut ops = vec![];
    let rounds = 24 / cycle.len();
    for _ in 0..rounds {
        for c in &cycle {
            let mut o = c.clone();
            if distinct && o["op"] == "sym" && o["raw"].is_null() {
                // never the same content twice
                let v = o["v"].as_u64().unwrap() as usize;
                let l = Level::from_name(o["l"].as_str().unwrap());
                o["segs"] = json!([["N", format!("{}", 100000 + r.below(900000))]]);
                if r.chance(0.5) {
                    o["faults"] = json!(within(r, v, l));
                }
            }
            if killer {
                let (at, n) = place(r, &o);
                o["ctl"] = json!([{"at": at, "n": n, "do": "kill"}]);
            }
            ops.push(o);
        }
    }
    json!({"env": {"log": r.below(2) * 5, "sched": 1}, "tasks": [{"ops": ops}]})
}

/// Thousands of small operations, always the same few: not one byte may be left behind in the
/// second half of them.
fn gen_marathon(r: &mut Rng) -> Value {
    let mut cycle = vec![];
    for _ in 0..1 + r.below(2) {
        let tw = Twins::new(r, true);
        let mut o = loop {
            let o = tw.op(r);
            let often = o["op"] == "sym" || o["op"] == "chomp" || o["op"] == "pipe" && r.chance(0.3);
            if often || r.chance(0.1) {
                break o;
            }
        };
        if o["op"] == "sym" && r.chance(0.4) {
            o = loop {
                let o = any_op(r);
                if o["op"] == "sym" && o["v"].as_u64().unwrap() < 6 {
                    break o;
                }
            };
        }
        o["rep"] = json!(match o["op"].as_str().unwrap() {
            "frame" | "located" | "wrapped" => 3,
            "pipe" => 40,
            _ if o["v"].as_u64().unwrap_or(1) > 2 => 30,
            _ => 80,
        });
        if o["op"] != "chomp" && r.chance(0.35) {
            // given up every time
            let (at, n) = place(r, &o);
            o["ctl"] = json!([{"at": at, "n": n, "do": "kill"}]);
        }
        cycle.push(o);
    }
    let rounds = 24 / cycle.len();
    let ops: Vec<Value> = (0..rounds).flat_map(|_| cycle.iter().cloned()).collect();
    json!({"env": {"log": r.below(2) * 5, "sched": 1}, "tasks": [{"ops": ops}]})
}

/// Far more finder patterns than there is room for symbols.
fn gen_crowd(r: &mut Rng, index: u64) -> Value {
    let n = if index == 0 { 16 } else { 2 + r.below(5) };
    let (ms, step) = if index == 0 { (2, 20) } else { (1 + r.below(2), 20) };
    let w = n * step + 20;
    let f = json!({"op": "detect", "w": w, "h": w, "fx": [["crowd", 6, 6, n, step, ms]]});
    json!({"env": {"log": 0, "sched": 1}, "tasks": [{"ops": [f]}]})
}

/// The crowd in front of the camera, if there is one.
fn crowd(op: &Value) -> String {
    op["fx"]
        .as_array()
        .into_iter()
        .flatten()
        .filter(|f| f[0] == "crowd")
        .map(|f| format!(", in front of it a crowd of {} finder patterns", f[3].as_u64().unwrap_or(0).pow(2)))
        .collect()
}

fn judge_memory(plan: &Value, o: &Outcome, lab: &mut Lab) -> Option<Verdict> {
    let ops = plan["tasks"][0]["ops"].as_array().unwrap();
    let stats = &o.stats[0];
    let n = stats.len();
    for (k, (op, st)) in ops.iter().zip(stats).enumerate() {
        let px = op["w"].as_u64().unwrap_or(0) * op["h"].as_u64().unwrap_or(0);
        let peak = st["peak"].as_i64().unwrap();
        lab.max(if px > 0 { "peak-bytes-frame" } else { "peak-bytes-symbol" }, peak.max(0) as u64);
        // the tightest use seen is about three bytes per pixel
        let bound = 4_000_000 + 64 * px as i64;
        if peak > bound {
            return bad("memory-peak", format!("operation {} ({}) had {} bytes allocated at once, bound {}{}", k, op["op"], peak, bound, crowd(op)));
        }
    }
    if n >= 16 {
        let half = n / 2;
        let growth: i64 = stats[half..].iter().map(|s| s["live"].as_i64().unwrap()).sum();
        let growing = stats[half..].iter().filter(|s| s["live"].as_i64().unwrap() > 0).count();
        lab.case(Some(ops[0].to_string()));
        lab.max("late-growth-bytes", growth.max(0) as u64);
        if ops.iter().all(|o| o["rep"].is_u64()) {
            lab.hit("probe:marathon");
            if growth > 0 {
                return bad("memory-growth", format!("of {} times the same, the second half kept {} bytes", ops.iter().map(|o| o["rep"].as_u64().unwrap()).sum::<u64>(), growth));
            }
        }
        if growth > 0 && growing >= (n - half) / 3 {
            return bad("memory-growth", format!("operations {}..{} kept {} bytes that they allocated ({} of them grew)", half, n, growth, growing));
        }
    }
    None
}

// ------------------------------------------------------------------ C16: effects

fn gen_effects(r: &mut Rng) -> Value {
    let mut p = match r.below(7) {
        _ if r.chance(0.008) => json!({"env": env(r), "tasks": [{ "ops": [big_frame(r)] }]}),
        0 => gen_history(r),
        1 => gen_garbled(r),
        2 => gen_concurrent(r),
        3 => gen_neighbours(r),
        _ => {
            let ops: Vec<Value> = (0..2 + r.below(6)).map(|_| any_op(r)).collect();
            json!({"env": env(r), "tasks": [{ "ops": ops }]})
        }
    };
    if r.chance(0.5) {
        // somewhere an effect could go, or not
        p["disk"] = json!({"dirs": ["/tmp", "/cwd"], "files": [], "faults": [], "tmpdir": "/tmp"});
    } else {
        p["disk"] = json!({"dirs": [], "files": [], "faults": [["open", 0, "EACCES"], ["mkdir", 0, "EROFS"]], "tmpdir": "/tmp"});
    }
    p
}

fn judge_effects(plan: &Value, o: &Outcome, lab: &mut Lab) -> Option<Verdict> {
    for (t, task) in plan["tasks"].as_array().unwrap().iter().enumerate() {
        for (k, op) in task["ops"].as_array().unwrap().iter().enumerate() {
            let Some(st) = o.stats.get(t).and_then(|x| x.get(k)) else { continue };
            lab.case(Some(op.to_string()));
            if let Some(e) = st["effects"].as_array().and_then(|a| a.first()) {
                return bad("effect", format!("task {} operation {} ({}) did: {}", t, k, op["op"], e));
            }
        }
    }
    if o.counters.get("threads_spawned").copied().unwrap_or(0) > 0 {
        lab.hit("probe:threads-spawned");
    }
    None
}

// ------------------------------------------------------------------ C17: preparation

fn prepare_op(r: &mut Rng) -> Value {
    let mut f = if r.chance(0.6) {
        garbled_frame(r)
    } else {
        let (v, l) = (1 + r.below(4), lvl(r));
        let s = sym(r, v, l);
        presentation(r, &s)
    };
    for k in ["src", "info"] {
        f.as_object_mut().unwrap().remove(k);
    }
    let (w, h) = (f["w"].as_i64().unwrap(), f["h"].as_i64().unwrap());
    if r.chance(0.4) {
        // little contrast, anywhere between black and white
        let lo = r.below(250);
        let hi = (lo + 1 + r.below(60)).min(255);
        let (fg, bg) = if r.chance(0.8) { (lo, hi) } else { (hi, lo) };
        f["fg"] = json!([fg, fg, fg]);
        f["bg"] = json!([bg, bg, bg]);
    }
    f["op"] = json!("prepare");
    let b = [5, 5, 5, 1, 2, 3, 4, 6, 7, 8, 11, 16, 32, 300][r.below(14)];
    let m = [7, 7, 7, 3, 4, 5, 6, 8, 9, 15, 101][r.below(11)];
    let m = if b < 16 { m.min(if b < 3 { 5 } else { 15 }) } else { m };
    // now and then a view of the whole, from blocks that are small
    let far = w <= 270 && h <= 270 && r.chance(0.03);
    let (b, m) = if far { (3 + r.below(6), 17 + r.below(90)) } else { (b, m) };
    f["block"] = json!([b, m]);
    let mut late = vec![];
    for _ in 0..1 + r.below(2) {
        late.push(match r.below(8) {
            0 => camera_fault(r, w, h),
            1 => json!(["torn", r.range(0, h), r.range(0, w)]),
            2 => json!(["noise", r.next() >> 20, 1 + r.below(3)]),
            3 => json!(["rect", r.range(0, w), r.range(0, h), 1, 1, r.below(256)]),
            4 => json!(["rect", r.range(-3, 3), r.range(0, h), w / 2, 1 + r.below(3), r.below(256)]),
            5 => {
                let (x, y) = ([0, w - 1][r.below(2)], [0, h - 1][r.below(2)]);
                json!(["rect", x, y, 1, 1, r.below(256)])
            }
            6 => json!(["lost", h - 1 - r.range(0, 12), r.below(256)]),
            _ => json!(["rect", r.range(0, w), r.range(0, h), 1 + r.below(30), 1 + r.below(30), r.below(256)]),
        });
    }
    f["late"] = json!(late);
    f
}

fn gen_prepare(r: &mut Rng) -> Value {
    let ops: Vec<Value> = (0..1 + r.below(3)).map(|_| prepare_op(r)).collect();
    json!({"env": env(r), "tasks": [{ "ops": ops }]})
}

/// Luminance and pixels of all blocks, summed up from the top left.
struct Sums {
    s: Vec<(u64, u64)>,
    row: usize,
    /// for each column and row of blocks, where its surroundings may begin and end
    ends: [Vec<Vec<(usize, usize)>>; 2],
}

impl Sums {
    fn new(g: &[u8], w: usize, h: usize, b: usize, m: usize) -> Sums {
        let all = (w.div_ceil(b), h.div_ceil(b));
        let row = all.0 + 1;
        let mut s = vec![(0u64, 0u64); row * (all.1 + 1)];
        for y in 0..h {
            for x in 0..w {
                let e = &mut s[(y / b + 1) * row + x / b + 1];
                e.0 += g[y * w + x] as u64;
                e.1 += 1;
            }
        }
        for y in 1..=all.1 {
            for x in 1..=all.0 {
                let (a, b, c) = (s[y * row + x - 1], s[(y - 1) * row + x], s[(y - 1) * row + x - 1]);
                let e = &mut s[y * row + x];
                *e = (e.0 + a.0 + b.0 - c.0, e.1 + a.1 + b.1 - c.1);
            }
        }
        let ends = |all: usize, full: usize| {
            let one = |at: usize| {
                let mut v = vec![];
                for stride in [(m - 1) / 2, m / 2] {
                    for a in [at.saturating_sub(stride), (at + 1).saturating_sub(stride)] {
                        for b in [at + stride, at + stride + 1] {
                            v.extend([(a, b.min(all)), (a, b.min(full))]);
                        }
                    }
                }
                v.sort();
                v.dedup();
                v
            };
            (0..all).map(one).collect()
        };
        let ends = [ends(all.0, w / b), ends(all.1, h / b)];
        Sums { s, row, ends }
    }

    /// The least and the greatest mean of the surroundings of a block: whether the outermost blocks
    /// belong to them, and blocks that the frame cuts, is left open.
    fn around(&self, bx: usize, by: usize) -> Option<(f64, f64)> {
        let (mut least, mut most) = (f64::MAX, f64::MIN);
        for &(y0, y1) in &self.ends[1][by] {
            for &(x0, x1) in &self.ends[0][bx] {
                if x0 >= x1 || y0 >= y1 {
                    return None;
                }
                let at = |x: usize, y: usize| self.s[y * self.row + x];
                let (a, b, c, d) = (at(x1, y1), at(x0, y1), at(x1, y0), at(x0, y0));
                let mean = (a.0 + d.0 - b.0 - c.0) as f64 / (a.1 + d.1 - b.1 - c.1) as f64;
                least = least.min(mean);
                most = most.max(mean);
            }
        }
        Some((least - 1e-6, most + 1e-6))
    }
}

fn judge_prepare(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    lab.case(Some(op.to_string()));
    let img = crate::ops::image_of(op, false);
    let mut late = img.clone();
    for f in op["late"].as_array().into_iter().flatten() {
        crate::frame::disturb(&mut late, f);
    }
    let (w, h) = img.dimensions();
    let (b, m) = (op["block"][0].as_u64().unwrap() as usize, op["block"][1].as_u64().unwrap() as usize);
    let reach = m / 2;
    let mut seen = [0u64; 5];
    let (w, h) = (w as usize, h as usize);
    let mut white: Vec<Vec<bool>> = vec![];
    let grey = [crate::ops::luma(&img).into_raw(), crate::ops::luma(&late).into_raw()];
    for (k, g) in ["as-it-is", "late"].iter().zip(&grey) {
        let o = &obs[k];
        if let Some(p) = o.get("panic") {
            return bad("prepare-panic", format!("{} x {} pixels, blocks of {}, {} of them: {}", w, h, b, m, p));
        }
        if o["oob"] != 0 {
            return bad("prepare-outside", format!("{} reads outside of the frame", o["oob"]));
        }
        if o["w"] != json!(w) || o["h"] != json!(h) {
            return bad("prepare-size", format!("{} x {} pixels became {} x {}", w, h, o["w"], o["h"]));
        }
        if o["grey"] != 0 {
            return bad("prepare-grey", format!("{} pixels are neither black nor white", o["grey"]));
        }
        let bits = unhex(o["bits"].as_str().unwrap());
        let wh: Vec<bool> = (0..w * h).map(|i| bits[i / 8] >> (i % 8) & 1 == 1).collect();
        // one threshold for each block, and the extremes of what each block sees
        let (bw, bh) = (w.div_ceil(b), h.div_ceil(b));
        let mut range = vec![(255u8, 0u8); bw * bh];
        let sums = Sums::new(g, w, h, b, m);
        for by in 0..bh {
            for bx in 0..bw {
                let (mut black, mut lightest) = (None, None);
                for y in by * b..((by + 1) * b).min(h) {
                    for x in bx * b..((bx + 1) * b).min(w) {
                        let p = g[y * w + x];
                        let e = &mut range[by * bw + bx];
                        *e = (e.0.min(p), e.1.max(p));
                        if wh[y * w + x] {
                            lightest = Some(lightest.map_or(p, |q: u8| q.min(p)));
                        } else {
                            black = Some(black.map_or(p, |q: u8| q.max(p)));
                        }
                    }
                }
                if let (Some(d), Some(l)) = (black, lightest) {
                    seen[0] += 1;
                    if d >= l {
                        return bad("prepare-threshold", format!("block {},{} ({}): luminance {} became black and {} white", bx, by, k, d, l));
                    }
                }
                if let Some((least, most)) = sums.around(bx, by) {
                    seen[4] += 1;
                    let low = black.map_or(false, |d| d as f64 > most) && least >= 5.0;
                    let high = lightest.map_or(false, |l| l as f64 <= least) && most <= 250.0;
                    if low || high {
                        return bad(
                            "prepare-mean",
                            format!("block {},{} ({}): luminance up to {:?} became black and from {:?} white, the mean of its surroundings is {:.2} to {:.2}", bx, by, k, black, lightest, least, most),
                        );
                    }
                }
            }
        }
        for by in 0..bh {
            for bx in 0..bw {
                let (mut lo, mut hi) = (255u8, 0u8);
                for y in by.saturating_sub(reach)..(by + reach + 1).min(bh) {
                    for x in bx.saturating_sub(reach)..(bx + reach + 1).min(bw) {
                        let e = range[y * bw + x];
                        lo = lo.min(e.0);
                        hi = hi.max(e.1);
                    }
                }
                let own = range[by * bw + bx];
                let before = if bx > 0 && by > 0 { range[(by - 1) * bw + bx - 1] } else { own };
                for y in by * b..((by + 1) * b).min(h) {
                    for x in bx * b..((bx + 1) * b).min(w) {
                        let (p, is) = (g[y * w + x], wh[y * w + x]);
                        if p == lo && hi <= 250 {
                            seen[1] += 1;
                            if is {
                                return bad("prepare-darkest", format!("{},{} ({}) is as dark as anything around ({}, up to {}) and became white", x, y, k, p, hi));
                            }
                        }
                        if bx > 0 && by > 0 && p == hi && before.0 < p && lo >= 5 {
                            seen[2] += 1;
                            if !is {
                                return bad("prepare-lightest", format!("{},{} ({}) is as light as anything around ({}, down to {}) and became black", x, y, k, p, lo));
                            }
                        }
                    }
                }
            }
        }
        white.push(wh);
    }
    // what happened elsewhere does not show here
    let (bw, bh) = (w.div_ceil(b), h.div_ceil(b));
    let mut touched = vec![false; bw * bh];
    for y in 0..h {
        for x in 0..w {
            touched[y / b * bw + x / b] |= grey[0][y * w + x] != grey[1][y * w + x];
        }
    }
    for by in 0..bh {
        for bx in 0..bw {
            let near = (by.saturating_sub(reach)..(by + reach + 1).min(bh)).any(|y| (bx.saturating_sub(reach)..(bx + reach + 1).min(bw)).any(|x| touched[y * bw + x]));
            if near {
                continue;
            }
            seen[3] += 1;
            for y in by * b..((by + 1) * b).min(h) {
                for x in bx * b..((bx + 1) * b).min(w) {
                    if white[0][y * w + x] != white[1][y * w + x] {
                        return bad("prepare-reach", format!("{},{} changed although nothing did within {} blocks of {} pixels", x, y, reach, b));
                    }
                }
            }
        }
    }
    for (k, n) in ["block-of-both-colours", "darkest-far-and-wide", "lightest-far-and-wide", "block-out-of-reach-of-a-fault", "threshold-against-the-mean"].iter().zip(seen) {
        *lab.counters.entry(format!("probe:{}", k)).or_insert(0) += n;
    }
    None
}

// ------------------------------------------------------------------ C18: detection

fn locate_op(mut o: Value) -> Value {
    // "clean" is what the detector owes an answer for
    o["clean"] = json!(o["g"].is_u64() && o["trouble"].is_null() || o["mount"].is_string());
    o["op"] = json!("detect");
    o["where"] = json!(true);
    for k in ["need", "src", "trouble", "info"] {
        o.as_object_mut().unwrap().remove(k);
    }
    o
}

fn gen_locate(r: &mut Rng, index: u64) -> Value {
    let p = if index % 3 == 0 { gen_garbled(r) } else { gen_delivery(r, index / 3 * 2 + index % 3 - 1) };
    let ops: Vec<Value> = p["tasks"][0]["ops"].as_array().unwrap().iter().cloned().map(locate_op).collect();
    json!({"env": env(r), "tasks": [{ "ops": ops }]})
}

/// Which symbols of a frame were reported (by place), and how often. Every location has to make
/// sense whatever the frame looks like.
fn located(op: &Value, obs: &Value) -> Result<Vec<usize>, Option<Verdict>> {
    if let Some(p) = obs.get("panic") {
        return Err(bad("detect-panic", show(p)));
    }
    let (w, h) = (op["w"].as_f64().unwrap(), op["h"].as_f64().unwrap());
    let placed: Vec<_> = op["place"].as_array().into_iter().flatten().map(|p| (crate::ops::placed_of(p, false), p["sym"]["v"].as_f64().unwrap())).collect();
    let mut per = vec![0; placed.len()];
    for l in obs["locations"].as_array().into_iter().flatten() {
        let f = |k: usize| l[k].as_f64().unwrap_or(f64::NAN);
        if (1..8).any(|k| !f(k).is_finite()) || f(1) <= 0.0 {
            return Err(bad("detect-nonsense", format!("location {}", l)));
        }
        if (0..3).any(|k| f(2 + 2 * k) < 0.0 || f(3 + 2 * k) < 0.0 || f(2 + 2 * k) > w || f(3 + 2 * k) > h) {
            return Err(bad("detect-outside", format!("location {} in a frame of {} x {}", l, w, h)));
        }
        for (n, (p, v)) in per.iter_mut().zip(&placed) {
            let off = p.finders().iter().enumerate().map(|(k, q)| (f(2 + 2 * k) - q.0).hypot(f(3 + 2 * k) - q.1)).fold(0.0, f64::max);
            if off <= p.scale && f(0) == *v && (f(1) / p.scale - 1.0).abs() < 0.15 {
                *n += 1;
            }
        }
    }
    Ok(per)
}

fn judge_locate(plan: &Value, o: &Outcome, lab: &mut Lab) -> Option<Verdict> {
    let ops = plan["tasks"][0]["ops"].as_array().unwrap();
    // per batch: symbols that passed, and those that were reported
    let mut passed: BTreeMap<(u64, usize), (usize, usize)> = BTreeMap::new();
    for (k, (op, obs)) in ops.iter().zip(&o.obs[0]).enumerate() {
        lab.case(Some(op.to_string()));
        let per = match located(op, obs) {
            Ok(p) => p,
            Err(v) => {
                return v.map(|mut v| {
                    v.detail = format!("operation {}: {}", k, v.detail);
                    v
                })
            }
        };
        if op["clean"] != true {
            lab.hit("probe:located-in-a-garbled-frame");
            continue;
        }
        for (i, n) in per.iter().enumerate() {
            if *n > 1 {
                return bad("detect-twice", format!("operation {}: symbol {} was reported {} times", k, i, n));
            }
            // of a mount the batch counts, of presentations every symbol
            let e = passed.entry((op["g"].as_u64().unwrap_or(0), if op["mount"].is_null() { i } else { 0 })).or_insert((0, 0));
            e.0 += 1;
            e.1 += n;
        }
    }
    for ((g, i), (n, found)) in passed {
        *lab.counters.entry("probe:symbols-shown".into()).or_insert(0) += n as u64;
        *lab.counters.entry("probe:symbols-not-located-at-first-sight".into()).or_insert(0) += (n - found) as u64;
        let first = ops.iter().find(|o| o["clean"] == true && o["g"].as_u64().unwrap_or(0) == g).unwrap();
        let kind = first["mount"].as_str().unwrap_or("presented");
        lab.max(&format!("not-located-{}", kind), (n - found) as u64);
        // a batch from which some were taken out says nothing
        if n < first["of"].as_u64().unwrap_or(8) as usize {
            continue;
        }
        let by_hand = kind == "turned" || kind == "aslant";
        let (most, of) = if first["mount"].is_null() || by_hand { (5, 8) } else { (3, 4) };
        if found * of < n * most {
            return bad("detect-rate", format!("{} of {} reports ({}, group {}, symbol {}) were where the symbol was, of its size and version", found, n, kind, g, i));
        }
    }
    None
}

// ------------------------------------------------------------------ C20: extraction

fn extract_op(r: &mut Rng) -> Value {
    let kind = r.below(8);
    let v = match kind {
        2 => 1,
        3 => 2 + r.below(9),
        _ => match r.below(8) {
            0 => 1 + r.below(40),
            1 => 7 + r.below(10),
            _ => 1 + r.below(6),
        },
    };
    let l = lvl(r);
    let mut s = sym(r, v, l);
    let n = side(v);
    // what is displayed is what has to be read, readable or not
    if r.chance(0.5) {
        let mut f = s["faults"].as_array().cloned().unwrap_or_default();
        for _ in 0..1 + r.below(30) {
            let (x, y) = (r.below(n), r.below(n));
            if x + 12 < n || y + 12 < n {
                f.push(json!(["px", y * n + x]));
            }
        }
        if r.chance(0.3) {
            f.push(json!(["box", r.below(n), r.below(n.saturating_sub(16) + 1), 1 + r.below(9), 1 + r.below(4), r.below(2)]));
        }
        s["faults"] = json!(f);
    }
    let most = if v > 12 { 4 } else { 8 };
    let s8 = match kind {
        5 if v < 10 => 5.0 + r.below(4) as f64,
        // right in front of the lens
        _ if v < 5 && r.chance(0.04) => 10.0 + r.below(60) as f64,
        _ => 1.0 + r.below(most) as f64,
    };
    let (scale, angle) = match kind {
        2 => (2.5 + 7.0 * r.f(), 360.0 * r.f()),
        3 => (6.0 + 4.0 * r.f(), 360.0 * r.f()),
        1 => (3.5 + 4.0 * r.f(), 90.0 * r.below(4) as f64),
        _ => (s8, 90.0 * r.below(4) as f64),
    };
    let px = n as f64 * scale;
    // the box around it, however it is turned
    let (sin, cos) = (angle.to_radians().sin().abs(), angle.to_radians().cos().abs());
    let b = if angle % 90.0 == 0.0 { px } else { (px * (sin + cos)).ceil() + 4.0 };
    let mut m = || if r.chance(0.25) { r.below(3) as f64 } else { r.below(150) as f64 };
    let (mut x0, x1, mut y0, y1) = (m(), m(), m(), m());
    if b < 120.0 && r.chance(0.003) {
        // more columns or rows than 16 bits count
        *[&mut x0, &mut y0][r.below(2)] += 65_500.0;
    }
    let (mut w, mut h) = ((x0 + b + x1).ceil(), (y0 + b + y1).ceil());
    let (mut cx, mut cy) = (x0 + b / 2.0, y0 + b / 2.0);
    if kind == 4 {
        // the rest of it was never in the picture
        let cut = (1.2 + r.f() * n as f64 * 0.7) * scale;
        match r.below(4) {
            0 => (cx, w) = (cx - (x0 + cut).round(), w - (x0 + cut).round()),
            1 => (cy, h) = (cy - (y0 + cut).round(), h - (y0 + cut).round()),
            2 => w = (w - x1 - cut).floor(),
            _ => h = (h - y1 - cut).floor(),
        }
        (w, h) = (w.max(1.0), h.max(1.0));
    }
    let mut p = json!({"sym": s, "cx": cx, "cy": cy, "s": scale, "a": angle});
    let mut loc = json!({"of": 0});
    match kind {
        5 => {
            // not quite where it is, or seen at an angle
            let much = r.chance(0.3);
            if r.chance(0.4) {
                let e = if much { 0.5 } else { r.f() * if v == 1 { 0.1 } else { 0.2 } };
                loc["j"] = json!((0..6).map(|_| (r.f() * 2.0 - 1.0) * e * scale).collect::<Vec<_>>());
            } else {
                let e = if much { 0.06 * r.f() } else if v == 1 { 0.02 } else { 0.03 };
                let (s, c) = (r.f() * 6.2832).sin_cos();
                p["p"] = json!([s * e, c * e]);
            }
        }
        6 => loc["v"] = json!([0, 41, 42, 64, 250, 1000, 4096, 100_000, 0x4000_0000, u32::MAX as u64, 1 + r.below(40) as u64][r.below(11)]),
        7 => {
            let mut c: Vec<Value> = (0..7).map(|_| json!(r.f() * w)).collect();
            for _ in 0..r.below(4) {
                c[r.below(7)] = match r.below(12) {
                    0 => json!("nan"),
                    1 => json!("inf"),
                    2 => json!("-inf"),
                    k => json!([1e300, -1e300, 1e308, -1.0, -0.4, 4294967295.0, 1e-300, w, h - 0.5][k - 3]),
                };
            }
            loc = json!({"raw": c, "v": 1 + r.below(45)});
        }
        _ => {}
    }
    let mut op = json!({"op": "extract", "w": w as u64, "h": h as u64, "place": [p], "loc": loc});
    // what is around it
    if r.chance(0.6) {
        op["fill"] = json!(r.next() >> 12);
        op["fillstyle"] = json!(r.below(4));
    }
    if r.chance(0.3) {
        let v = 1 + r.below(6);
        let l = lvl(r);
        let s = sym(r, v, l);
        let other = json!({"sym": s, "cx": r.f() * w, "cy": r.f() * h, "s": 1 + r.below(5), "a": 90 * r.below(4), "q": r.chance(0.5)});
        op["place"].as_array_mut().unwrap().push(other);
    }
    if r.chance(0.5) {
        op["fx"] = json!((0..1 + r.below(3))
            .map(|_| match r.below(3) {
                0 => json!([(["finder", "align"][r.below(2)]), r.range(0, w as i64), r.range(0, h as i64), r.range(1, 6)]),
                _ => camera_fault(r, w as i64, h as i64),
            })
            .collect::<Vec<_>>());
    }
    op
}

fn gen_extract(r: &mut Rng) -> Value {
    let ops: Vec<Value> = (0..3 + r.below(6)).map(|_| extract_op(r)).collect();
    json!({"env": env(r), "tasks": [{ "ops": ops }]})
}

fn judge_extract(op: &Value, obs: &Value, lab: &mut Lab) -> Option<Verdict> {
    lab.case(Some(op.to_string()));
    for k in ["full", "blank", "again"] {
        if let Some(p) = obs[k].get("panic") {
            return bad("extract-panic", show(p));
        }
    }
    let got = &obs["full"];
    if obs["again"] != *got {
        return bad("extract-unsteady", format!("first {}, then {}", show(got), show(&obs["again"])));
    }
    let p = &op["place"][0];
    let (v, loc) = (p["sym"]["v"].as_u64().unwrap(), &op["loc"]);
    let asked = loc["v"].as_u64().unwrap_or(v);
    let n = side(v as usize);
    for k in ["full", "blank"] {
        let g = &obs[k];
        if g["err"].is_string() {
            continue;
        }
        if asked < 1 || asked > 40 {
            return bad("extract-version", format!("something was read as a symbol of version {}", asked));
        }
        let m = 4 * asked + 17;
        if g["v"] != json!(asked) || g["side"] != json!(m) || g["len"] != json!(m * m) || g["grey"] != json!(0) {
            return bad("extract-shape", format!("a symbol of version {} gave version {}, side {}, {} modules, {} of them neither black nor white", asked, g["v"], g["side"], g["len"], g["grey"]));
        }
    }
    if loc["raw"].is_array() || loc["v"].is_u64() {
        lab.hit("probe:nonsense-location");
        return None;
    }
    // the alignment pattern that is looked for has to be there
    let pl = crate::ops::placed_of(p, false);
    let intact = symbol_of(&p["sym"]);
    let aligned = v == 1 || (n - 9..n - 4).all(|y| (n - 9..n - 4).all(|x| pl.modules[y * n + x] == intact.modules[y * n + x]));
    if !aligned {
        lab.hit("probe:alignment-pattern-damaged");
        return None;
    }
    let (w, h) = (op["w"].as_f64().unwrap(), op["h"].as_f64().unwrap());
    let centre = |k: usize| pl.at((k % n) as f64 + 0.5, (k / n) as f64 + 0.5);
    // how far outside of the picture
    let out = |k: usize| {
        let (x, y) = centre(k);
        (-x).max(-y).max(x - w).max(y - h)
    };
    let most = (0..n * n).map(out).fold(f64::MIN, f64::max);
    let exact = loc["j"].is_null() && p["p"].is_null();
    if most > 1.0 {
        lab.hit("probe:cut-off");
        if exact && !got["err"].is_string() {
            return bad("extract-invented", format!("the symbol is cut off, its farthest module {:.1} pixels outside of the {}x{} picture, but {} modules were read", most, op["w"], op["h"], got["len"]));
        }
        return None;
    }
    if most > -1.0 && !(most <= -0.5 && exact && pl.angle % 90.0 == 0.0 && pl.scale.fract() == 0.0) {
        return None;
    }
    if *got != obs["blank"] {
        return bad("extract-surroundings", format!("what is around the symbol changes what is read of it: {} instead of {}", show(got), show(&obs["blank"])));
    }
    if !exact {
        // as far off as is made up for: a part of a module, a slight angle
        let off = loc["j"].as_array().into_iter().flatten().map(|x| x.as_f64().unwrap().abs()).fold(0.0, f64::max) / pl.scale;
        let angle = pl.persp.0.hypot(pl.persp.1);
        if off > if v == 1 { 0.1 } else { 0.2 } || angle > 0.0 && (pl.scale < 5.0 || v > 9 || angle > if v == 1 { 0.0201 } else { 0.0301 }) {
            lab.hit("probe:somewhere-else");
            return None;
        }
        lab.hit(if angle > 0.0 { "probe:seen-at-an-angle" } else { "probe:not-quite-where-it-is" });
    }
    if got["err"].is_string() {
        return bad("extract-refused", format!("version {} at {} pixels per module, turned by {}: {}", v, pl.scale, pl.angle, got["err"]));
    }
    let bits = crate::ops::unhex(got["bits"].as_str().unwrap());
    let wrong: Vec<usize> = (0..n * n).filter(|k| (bits[k / 8] >> (k % 8) & 1 == 1) != pl.modules[*k]).collect();
    lab.hit(if pl.angle % 90.0 == 0.0 { "probe:read-upright" } else { "probe:read-turned" });
    if !wrong.is_empty() {
        return bad("extract-wrong", format!("version {} at {} pixels per module, turned by {}: {} modules were not read as displayed, the first at ({}, {})", v, pl.scale, pl.angle, wrong.len(), wrong[0] % n, wrong[0] / n));
    }
    None
}
