//! Shrinking a failing plan: fewer tasks, operations, faults, preemptions and simpler values, as
//! long as the same kind of violation is still there.
use crate::props::{self, Lab, Verdict};
use serde_json::{json, Value};
use std::time::Instant;

pub struct Minimiser<'a> {
    class: String,
    lab: &'a mut Lab,
    until: Instant,
    pub tries: u64,
}

/// A place in the plan: a path of keys and indices.
type Path = Vec<Value>;

fn at<'a>(v: &'a Value, p: &[Value]) -> &'a Value {
    let mut v = v;
    for k in p {
        v = match k {
            Value::String(s) => &v[s.as_str()],
            k => &v[k.as_u64().unwrap() as usize],
        };
    }
    v
}
fn at_mut<'a>(v: &'a mut Value, p: &[Value]) -> &'a mut Value {
    let mut v = v;
    for k in p {
        v = match k {
            Value::String(s) => &mut v[s.as_str()],
            k => &mut v[k.as_u64().unwrap() as usize],
        };
    }
    v
}

/// Every array that can lose elements, outermost first.
fn arrays(v: &Value, here: &mut Path, out: &mut Vec<Path>) {
    const CAN: &[&str] = &["ops", "ctl", "faults", "place", "fx", "locs", "items", "segs", "reqs", "next", "parts", "jumps", "preempt", "files", "dirs", "fill"];
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                here.push(json!(k));
                if x.is_array() && CAN.contains(&k.as_str()) {
                    out.push(here.clone());
                }
                arrays(x, here, out);
                here.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                if x.is_object() {
                    here.push(json!(i));
                    arrays(x, here, out);
                    here.pop();
                }
            }
        }
        _ => {}
    }
}

/// Values that could be simpler, and what to try instead (null: leave the key out).
fn scalars(v: &Value, here: &mut Path, out: &mut Vec<(Path, Value)>) {
    if let Value::Object(m) = v {
        for (k, x) in m {
            here.push(json!(k));
            let simple = match k.as_str() {
                "info" | "mir" | "q" | "fresh" if x == &json!(true) => Some(json!(false)),
                "src" if x.is_string() && x != "sim" && x != "live" && x != "kinds" => Some(json!("sim")),
                "a" if x.as_f64().map_or(false, |f| f != 0.0) => Some(json!(0)),
                "log" | "entropy" | "vars" | "sched" if x.as_u64().map_or(false, |f| f != 0) => Some(json!(0)),
                "clock" if x.as_i64() != Some(0) => Some(json!(0)),
                "white" | "fill" | "words" | "crop" | "deep" | "at_ns" | "capacity" | "fds" | "bg" | "fg" if !x.is_null() => Some(Value::Null),
                "rounds" if x.as_u64().map_or(false, |f| f > 1) => Some(json!(1)),
                _ => None,
            };
            if let Some(s) = simple {
                out.push((here.clone(), s));
            }
            scalars(x, here, out);
            here.pop();
        }
    } else if let Value::Array(a) = v {
        for (i, x) in a.iter().enumerate() {
            if x.is_object() {
                here.push(json!(i));
                scalars(x, here, out);
                here.pop();
            }
        }
    }
}

impl<'a> Minimiser<'a> {
    pub fn new(v: &Verdict, lab: &'a mut Lab, until: Instant) -> Self {
        Minimiser { class: v.class.clone(), lab, until, tries: 0 }
    }
    fn late(&self) -> bool {
        Instant::now() >= self.until
    }
    fn fails(&mut self, plan: &Value) -> bool {
        if self.late() {
            return false;
        }
        self.tries += 1;
        let lab = &mut *self.lab;
        let class = &self.class;
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            props::judge(plan, lab).map_or(false, |v| v.class == *class)
        }))
        .unwrap_or(false)
    }

    pub fn run(&mut self, mut plan: Value) -> Value {
        loop {
            let before = plan.to_string();
            plan = self.tasks(plan);
            let mut paths = vec![];
            arrays(&plan, &mut vec![], &mut paths);
            for p in paths {
                if self.late() {
                    return plan;
                }
                // an outer array may have lost what this was in
                if at(&plan, &p).is_array() {
                    plan = self.ddmin(plan, &p);
                }
            }
            let mut sc = vec![];
            scalars(&plan, &mut vec![], &mut sc);
            for (p, s) in sc {
                if at(&plan, &p).is_null() || at(&plan, &p) == &s {
                    continue;
                }
                let mut q = plan.clone();
                let (last, head) = p.split_last().unwrap();
                let parent = at_mut(&mut q, head);
                if s.is_null() {
                    parent.as_object_mut().map(|m| m.remove(last.as_str().unwrap()));
                } else {
                    parent[last.as_str().unwrap()] = s;
                }
                if self.fails(&q) {
                    plan = q;
                }
            }
            if plan.to_string() == before || self.late() {
                return plan;
            }
        }
    }

    /// Tasks keep their number, so they are emptied, not removed; trailing empty ones go.
    fn tasks(&mut self, mut plan: Value) -> Value {
        let n = plan["tasks"].as_array().map_or(0, |a| a.len());
        for t in (0..n).rev() {
            let mut q = plan.clone();
            if t + 1 == q["tasks"].as_array().unwrap().len() && t > 0 {
                q["tasks"].as_array_mut().unwrap().pop();
                if self.fails(&q) {
                    plan = q;
                    continue;
                }
                q = plan.clone();
            }
            if q["tasks"][t]["ops"].as_array().map_or(true, |a| a.is_empty()) {
                continue;
            }
            q["tasks"][t]["ops"] = json!([]);
            if self.fails(&q) {
                plan = q;
            }
        }
        plan
    }

    fn ddmin(&mut self, mut plan: Value, p: &[Value]) -> Value {
        let mut n = 2usize;
        loop {
            let cur = at(&plan, p).as_array().cloned().unwrap_or_default();
            if cur.is_empty() {
                return plan;
            }
            let chunk = (cur.len() + n - 1) / n;
            let mut hit = false;
            let mut s = 0;
            while s < cur.len() {
                let mut rest = cur.clone();
                rest.drain(s..(s + chunk).min(cur.len()));
                let mut q = plan.clone();
                *at_mut(&mut q, p) = Value::Array(rest);
                if self.fails(&q) {
                    plan = q;
                    hit = true;
                    break;
                }
                s += chunk;
            }
            if self.late() {
                return plan;
            }
            if hit {
                n = n.saturating_sub(1).max(2);
            } else if chunk <= 1 {
                return plan;
            } else {
                n = (n * 2).min(cur.len());
            }
        }
    }
}
