//! Building blocks of the workload and fault generators.
use crate::exec::Outcome;
use crate::ops::{hex, segs_to_json};
use crate::refqr::*;
use crate::rng::Rng;
use serde_json::{json, Value};

pub fn lvl(rng: &mut Rng) -> Level {
    LEVELS[rng.below(4)]
}

/// A symbol with random content.
pub fn sym(rng: &mut Rng, v: usize, l: Level) -> Value {
    let fill = match rng.below(4) {
        0 => 1.0,
        1 => rng.f(),
        2 => rng.f() * 0.3,
        _ => 0.02,
    };
    json!({"v": v, "l": l.name(), "m": rng.below(8), "segs": segs_to_json(&random_segments(rng, v, l, fill))})
}

/// Version/level pair number g of an endless walk that visits all 160 evenly.
pub fn combo(g: u64) -> (usize, Level) {
    let k = (g % 160 * 61 % 160) as usize;
    (k % 40 + 1, LEVELS[k / 40])
}

fn pos_x(len: usize, p: usize) -> u8 {
    gpow(2, (len - 1 - p) as u32)
}

/// Error magnitudes for the given positions that make the syndromes listed in `zero` vanish.
/// None if there is no such pattern without a zero magnitude (in a few attempts).
pub fn cancelling(rng: &mut Rng, len: usize, pos: &[usize], zero: &[usize]) -> Option<Vec<u8>> {
    let t = pos.len();
    if zero.len() >= t {
        return None;
    }
    let mut a: Vec<Vec<u8>> = zero.iter().map(|j| pos.iter().map(|p| gpow(pos_x(len, *p), *j as u32)).collect()).collect();
    let mut pivots = vec![];
    let mut row = 0;
    for col in 0..t {
        if row >= a.len() {
            break;
        }
        let Some(p) = (row..a.len()).find(|r| a[*r][col] != 0) else { continue };
        a.swap(row, p);
        let inv = ginv(a[row][col]);
        for k in 0..t {
            a[row][k] = gmul(a[row][k], inv);
        }
        for r in 0..a.len() {
            if r != row && a[r][col] != 0 {
                let f = a[r][col];
                for k in 0..t {
                    let v = gmul(f, a[row][k]);
                    a[r][k] ^= v;
                }
            }
        }
        pivots.push(col);
        row += 1;
    }
    for _ in 0..40 {
        let mut e = vec![0u8; t];
        for (c, x) in e.iter_mut().enumerate() {
            if !pivots.contains(&c) {
                *x = 1 + rng.below(255) as u8;
            }
        }
        for (r, c) in pivots.iter().enumerate() {
            let mut v = 0;
            for k in 0..t {
                if k != *c {
                    v ^= gmul(a[r][k], e[k]);
                }
            }
            e[*c] = v;
        }
        if e.iter().all(|x| *x != 0) {
            return Some(e);
        }
    }
    None
}

/// `count` corrupted codewords of a block of `len` (data codewords first, `nd` of them).
pub fn block_errors(rng: &mut Rng, len: usize, nd: usize, count: usize) -> (Vec<(usize, u8)>, &'static str) {
    let count = count.min(len);
    if count == 0 {
        return (vec![], "none");
    }
    let shape = rng.below(9);
    let (pos, name): (Vec<usize>, &'static str) = match shape {
        0 => {
            let s = rng.below(len - count + 1);
            ((s..s + count).collect(), "burst")
        }
        1 => ((0..count).collect(), "head"),
        2 => ((len - count..len).collect(), "tail"),
        3 if count <= nd => (rng.sample(nd, count), "data-only"),
        4 if count <= len - nd => (rng.sample(len - nd, count).iter().map(|x| nd + x).collect(), "check-only"),
        5 => {
            let step = (len / count).max(1);
            let off = rng.below(len - step * (count - 1));
            ((0..count).map(|i| off + i * step).collect(), "periodic")
        }
        6 if count >= 3 => {
            // the locators add up to zero
            let mut out = None;
            for _ in 0..60 {
                let mut p = rng.sample(len, count - 1);
                let s = p.iter().fold(0u8, |a, q| a ^ pos_x(len, *q));
                if let Some(q) = (0..len).find(|q| pos_x(len, *q) == s && !p.contains(q)) {
                    p.push(q);
                    out = Some(p);
                    break;
                }
            }
            match out {
                Some(p) => (p, "locators-cancel"),
                None => (rng.sample(len, count), "scattered"),
            }
        }
        _ => (rng.sample(len, count), "scattered"),
    };
    let mag = rng.below(7);
    let mags: Vec<u8> = match mag {
        0 => {
            let m = 1 + rng.below(255) as u8;
            vec![m; count]
        }
        1 => (0..count).map(|_| 1u8 << rng.below(8)).collect(),
        2 => vec![0xFF; count],
        3 | 4 if count >= 2 => {
            // as many leading (or other) syndromes as possible vanish
            let k = 1 + rng.below(count - 1);
            let zero: Vec<usize> = match rng.below(3) {
                0 => (0..k).collect(),
                1 => {
                    let s = rng.below(2 * count - k);
                    (s..s + k).collect()
                }
                _ => rng.sample(2 * count, k),
            };
            match cancelling(rng, len, &pos, &zero) {
                Some(m) => m,
                None => (0..count).map(|_| 1 + rng.below(255) as u8).collect(),
            }
        }
        _ => (0..count).map(|_| 1 + rng.below(255) as u8).collect(),
    };
    (pos.into_iter().zip(mags).collect(), name)
}

pub fn cw_faults(out: &mut Vec<Value>, block: usize, e: &[(usize, u8)]) {
    for (p, m) in e {
        out.push(json!(["cw", block, p, m]));
    }
}

/// Damage every block stays within the guaranteed capacity of; at least one block is at capacity
/// most of the time.
pub fn within(rng: &mut Rng, v: usize, l: Level) -> Vec<Value> {
    let lay = layout(v, l);
    let cap = capacity(v, l);
    let nb = lay.blocks.len();
    let mut out = vec![];
    let plan = rng.below(6);
    let hot = rng.below(nb);
    for (b, (nd, len)) in lay.blocks.iter().enumerate() {
        let count = match plan {
            0 => cap,
            1 => usize::from(b == hot) * cap,
            2 => {
                if b == hot {
                    cap
                } else {
                    rng.below(cap + 1)
                }
            }
            3 => rng.below(cap + 1),
            4 => usize::from(b == hot) * (1 + rng.below(cap)),
            _ => {
                if rng.chance(0.5) {
                    cap - rng.below(2.min(cap + 1))
                } else {
                    0
                }
            }
        };
        let (e, _) = block_errors(rng, *len, *nd, count);
        cw_faults(&mut out, b, &e);
    }
    out
}

/// Damage to modules that carry no payload.
pub fn harmless(rng: &mut Rng, v: usize, l: Level, out: &mut Vec<Value>) {
    let lay = layout(v, l);
    let pool: Vec<usize> = (0..lay.n * lay.n)
        .filter(|k| !matches!(lay.kind[*k], Kind::Code(..) | Kind::Format(..)))
        .collect();
    let n = match rng.below(4) {
        0 => 1,
        1 => 1 + rng.below(20),
        2 => 1 + rng.below(pool.len()),
        _ => pool.len(),
    };
    for i in rng.sample(pool.len(), n.min(400)) {
        out.push(json!(["px", pool[i]]));
    }
}

pub fn format_flips(rng: &mut Rng, copy: usize, n: usize, out: &mut Vec<Value>) {
    for b in rng.sample(15, n) {
        out.push(json!(["fmt", copy, b]));
    }
}

/// Flips that bring the copy to the given word.
pub fn format_to(level: Level, mask: usize, copy: usize, word: u16, out: &mut Vec<Value>) {
    let d = format_codeword(level, mask) ^ word;
    for b in 0..15 {
        if d >> b & 1 == 1 {
            out.push(json!(["fmt", copy, b]));
        }
    }
}

/// A format word that is more than three bits from every valid one.
pub fn unreadable_format(rng: &mut Rng) -> u16 {
    loop {
        let w = rng.below(1 << 15) as u16;
        if format_decode(w).is_none() {
            return w;
        }
    }
}

/// A word the given number of codewords away from another message of the same block: what a
/// decoder that goes too far would turn into a text nobody sent.
pub fn near_other(rng: &mut Rng, data: &[u8], ecc: usize, away: usize) -> Vec<u8> {
    let mut d = data.to_vec();
    match rng.below(3) {
        0 => {
            let k = rng.below(d.len());
            d[k] ^= 1 + rng.below(255) as u8;
        }
        1 => {
            for x in d.iter_mut() {
                *x = rng.next() as u8;
            }
        }
        _ => {
            let k = rng.below(d.len());
            d[k] ^= 1 << rng.below(8);
        }
    }
    let mut w = d.clone();
    w.extend(rs_encode(&d, ecc));
    let len = w.len();
    for (p, m) in block_errors(rng, len, d.len(), away).0 {
        w[p] ^= m;
    }
    w
}

/// Damage whose syndromes vanish except for a few: nothing seems to be wrong with it unless all of
/// them are looked at. `used`: how many of them it takes to correct errors.
pub fn nearly_codeword(rng: &mut Rng, len: usize, ecc: usize, used: usize) -> Vec<(usize, u8)> {
    let keep: Vec<usize> = match rng.below(5) {
        0 | 1 if used < ecc => (used..ecc).collect(),
        0 => vec![ecc - 1],
        1 => vec![0],
        2 => (ecc - 1 - rng.below(ecc / 2)..ecc).collect(),
        3 => (0..1 + rng.below(ecc / 2)).collect(),
        _ => {
            let n = 1 + rng.below(3);
            rng.sample(ecc, n)
        }
    };
    let zero: Vec<usize> = (0..ecc).filter(|j| !keep.contains(j)).collect();
    for _ in 0..20 {
        let pos = if rng.chance(0.5) {
            let at = rng.below(len - zero.len());
            (at..at + zero.len() + 1).collect()
        } else {
            rng.sample(len, zero.len() + 1)
        };
        if let Some(m) = cancelling(rng, len, &pos, &zero) {
            return pos.into_iter().zip(m).collect();
        }
    }
    block_errors(rng, len, len - ecc, ecc / 2 + 1).0
}

/// Words that mean something to the code under test: the short string literals of its sources.
/// They only ever end up in a plan, as contents of symbols and as values of environment variables.
pub fn words() -> &'static [String] {
    static WORDS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    WORDS.get_or_init(|| {
        fn walk(d: &std::path::Path, out: &mut std::collections::BTreeSet<String>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    walk(&p, out);
                } else if p.extension().is_some_and(|x| x == "rs") {
                    for l in std::fs::read_to_string(&p).unwrap_or_default().lines() {
                        if l.trim_start().starts_with("//") {
                            continue;
                        }
                        for w in l.split('"').skip(1).step_by(2) {
                            if (1..=24).contains(&w.len()) && w.bytes().all(|b| (33..127).contains(&b) && b != b'{' && b != b'\\') {
                                out.insert(w.to_string());
                            }
                        }
                    }
                }
            }
        }
        let mut out = Default::default();
        walk(std::path::Path::new("/repo/src"), &mut out);
        out.into_iter().collect()
    })
}

pub fn env(rng: &mut Rng) -> Value {
    let mut jumps = vec![];
    for _ in 0..rng.below(3) {
        let d = match rng.below(4) {
            0 => -3_600_000_000_000i64,
            1 => 86_400_000_000_000 * 365,
            2 => -1,
            _ => rng.range(-2_000_000_000, 2_000_000_000),
        };
        jumps.push(json!([1 + rng.below(6), d]));
    }
    let clock: i64 = match rng.below(4) {
        0 => 0,
        1 => 1_700_000_000_000_000_000,
        2 => 4_102_444_799_999_999_999,
        _ => rng.range(0, 2_000_000_000_000_000_000),
    };
    let w = words();
    let said: Vec<&String> = if w.is_empty() { vec![] } else { (0..rng.below(4)).map(|_| &w[rng.below(w.len())]).collect() };
    json!({"clock": clock, "jumps": jumps, "entropy": rng.next() >> 1, "vars": rng.next() >> 1, "words": said, "log": rng.below(6), "sched": rng.next() >> 1})
}

// ------------------------------------------------------------------ frames

/// One clean presentation of a symbol in front of the camera, alone in its frame.
pub fn presentation(rng: &mut Rng, s: &Value) -> Value {
    let v = s["v"].as_u64().unwrap();
    let scale = match rng.below(24) {
        0 if v <= 3 => 7 + rng.below(14),
        1 if v <= 10 => 7 + rng.below(4),
        _ => 3 + rng.below(4),
    };
    presentation_at(rng, s, scale)
}

/// The same at a given number of pixels per module.
pub fn presentation_at(rng: &mut Rng, s: &Value, scale: usize) -> Value {
    let n = side(s["v"].as_u64().unwrap() as usize);
    let px = n * scale;
    let q = |r: &mut Rng| 4 * scale + r.below(8 * scale);
    let (l, r, t, b) = (q(rng), q(rng), q(rng), q(rng));
    json!({"op": "frame", "w": l + r + px, "h": t + b + px,
        "place": [{"sym": s, "cx": l as f64 + px as f64 / 2.0, "cy": t as f64 + px as f64 / 2.0,
            "s": scale, "a": 90 * rng.below(4)}]})
}

/// The same in a wider view: more of nothing around it, on one side or on two.
pub fn widen(rng: &mut Rng, f: &mut Value, most: usize) {
    let sides = 1 + rng.below(2);
    for _ in 0..sides {
        let m = (most / 8 + rng.below(most * 7 / 8)) / sides;
        let (size, at) = [("w", "cx"), ("h", "cy")][rng.below(2)];
        f[size] = json!(f[size].as_u64().unwrap() as usize + m);
        if rng.chance(0.6) {
            // the symbols move away from the origin
            for p in f["place"].as_array_mut().unwrap() {
                p[at] = json!(p[at].as_f64().unwrap() + m as f64);
            }
        }
    }
}

/// Several symbols next to each other, each with its quiet zone. Returns w, h, place.
pub fn scene(rng: &mut Rng, syms: &[Value], cols: usize) -> Value {
    let scale = 3 + rng.below(3);
    let mut place = vec![];
    let mut y = 0usize;
    let mut w = 0usize;
    for row in syms.chunks(cols) {
        let mut x = 0usize;
        let mut h = 0usize;
        for s in row {
            let px = side(s["v"].as_u64().unwrap() as usize) * scale;
            let ql = 4 * scale + rng.below(6 * scale);
            let qt = 4 * scale + rng.below(6 * scale);
            place.push(json!({"sym": s, "cx": (x + ql) as f64 + px as f64 / 2.0, "cy": (y + qt) as f64 + px as f64 / 2.0,
                "s": scale, "a": 90 * rng.below(4)}));
            x += ql + px + 4 * scale + rng.below(3 * scale);
            h = h.max(qt + px + 4 * scale + rng.below(3 * scale));
        }
        w = w.max(x);
        y += h;
    }
    json!({"w": w, "h": y, "place": place})
}

/// One thing a camera can do to a frame.
pub fn camera_fault(rng: &mut Rng, w: i64, h: i64) -> Value {
    let (w, h) = (w.max(1), h.max(1));
    let s = (rng.next() >> 12) as i64;
    match rng.below(12) {
        0 => json!(["noise", s, rng.range(1, 1 + w * h / 60)]),
        1 => json!(["noise", s, rng.range(1, 1 + w * h / 4)]),
        2 => json!(["rect", rng.range(0, w - 1), rng.range(0, h - 1), rng.range(1, w / 3 + 1), rng.range(1, h / 3 + 1), ([0, 255, 128][rng.below(3)])]),
        3 => json!(["torn", rng.range(0, h - 1), rng.range(-w / 2, w / 2)]),
        4 => json!(["stuck", rng.range(1, h), rng.range(1, h / 4 + 1)]),
        5 => json!(["lost", rng.range(0, h - 1), ([0, 255, 128][rng.below(3)])]),
        6 => json!(["swap", rng.range(0, h - 1), rng.range(0, h - 1), rng.range(1, h / 4 + 1)]),
        7 => json!(["dup", rng.range(0, h - 1), rng.range(0, h - 1), rng.range(1, h / 4 + 1)]),
        8 => json!(["grad", rng.range(-200, 200), rng.range(-200, 200)]),
        9 => json!(["invert"]),
        10 => json!(["bits", s, rng.range(1, 1 + w * h / 20)]),
        _ => json!(["rect", rng.range(0, w - 1), rng.range(0, h - 1), rng.range(1, 12), rng.range(1, 12), ([0, 255][rng.below(2)])]),
    }
}

/// A fault that leaves most of a frame with one symbol readable. `m` is the size of a module.
pub fn moderate_fault(rng: &mut Rng, w: i64, h: i64, m: i64) -> Value {
    let (w, h, m) = (w.max(1), h.max(1), m.max(1));
    let s = (rng.next() >> 12) as i64;
    match rng.below(11) {
        0 => json!(["noise", s, rng.range(1, 1 + w * h / 400)]),
        1 => json!(["bits", s, rng.range(1, 1 + w * h / 100)]),
        2 | 3 => json!(["rect", rng.range(0, w - 1), rng.range(0, h - 1), rng.range(1, 4 * m), rng.range(1, 4 * m), ([0, 255, 128][rng.below(3)])]),
        4 => json!(["rect", rng.range(0, w - 1), rng.range(0, h - 1), rng.range(1, m), rng.range(1, h / 2), ([0, 255][rng.below(2)])]),
        5 => json!(["torn", rng.range(0, h - 1), rng.range(-2 * m, 2 * m)]),
        6 => json!(["stuck", rng.range(1, h), rng.range(1, 2 * m)]),
        7 => json!(["lost", rng.range(h * 3 / 4, h - 1), ([0, 255, 128][rng.below(3)])]),
        8 => {
            let y = rng.range(0, h - 1);
            json!(["swap", y, y + rng.range(1, 2 * m), rng.range(1, 2 * m)])
        }
        9 => json!(["dup", rng.range(0, h - 1), rng.range(0, h - 1), rng.range(1, 2 * m)]),
        _ => json!(["grad", rng.range(-90, 90), rng.range(-90, 90)]),
    }
}

/// A scratch, a pen line, the edge of a shadow: from a place that matters in the first symbol of
/// the frame to the border of the frame, or nearly.
pub fn streak(rng: &mut Rng, f: &Value) -> Value {
    let p = &f["place"][0];
    let n = side(p["sym"]["v"].as_u64().unwrap() as usize) as f64;
    let (w, h) = (f["w"].as_i64().unwrap(), f["h"].as_i64().unwrap());
    let (u, v) = match rng.below(6) {
        0 => (3.5, 3.5),
        1 => (n - 3.5, 3.5),
        2 => (3.5, n - 3.5),
        3 => (rng.f() * n, rng.f() * n),
        _ => (n - 6.5, n - 6.5),
    };
    let s = p["s"].as_f64().unwrap();
    let (sin, cos) = p["a"].as_f64().unwrap_or(0.0).to_radians().sin_cos();
    let (u, v) = ((u - n / 2.0) * s, (v - n / 2.0) * s);
    let x = (p["cx"].as_f64().unwrap() + u * cos - v * sin) as i64;
    let y = (p["cy"].as_f64().unwrap() + u * sin + v * cos) as i64;
    let t = (s * (0.3 + 2.5 * rng.f())) as i64 + 1;
    let gap = if rng.chance(0.3) { rng.range(0, 6) } else { 0 };
    let c = [0, 0, 0, 255][rng.below(4)];
    match rng.below(4) {
        0 => json!(["rect", x, y - t / 2, w - x - gap, t, c]),
        1 => json!(["rect", gap, y - t / 2, x - gap, t, c]),
        2 => json!(["rect", x - t / 2, y, t, h - y - gap, c]),
        _ => json!(["rect", x - t / 2, gap, t, y - gap, c]),
    }
}

/// Where to take the processor away, chosen among what a recording of the run reached.
pub fn preemptions(rng: &mut Rng, rec: &Outcome, ntasks: usize) -> Vec<Value> {
    let mut out: Vec<Value> = vec![];
    if ntasks < 2 {
        return out;
    }
    // (task, op, steps, places)
    let mut ops = vec![];
    for (t, l) in rec.stats.iter().enumerate() {
        for s in l {
            let places: Vec<(u64, String)> = s["places"]
                .as_array()
                .into_iter()
                .flatten()
                .map(|p| (p[0].as_u64().unwrap(), p[1].as_str().unwrap().to_string()))
                .collect();
            ops.push((t, s["id"].as_u64().unwrap(), s["steps"].as_u64().unwrap(), places));
        }
    }
    if ops.is_empty() {
        return out;
    }
    let other = |rng: &mut Rng, t: usize| {
        let k = rng.below(ntasks - 1);
        if k >= t {
            k + 1
        } else {
            k
        }
    };
    let style = rng.below(5);
    if style == 4 {
        // round robin with a quantum
        let total: u64 = ops.iter().map(|o| o.2).sum();
        let n = 4 + rng.below(56) as u64;
        let quantum = (total / n).max(1);
        for (t, o, steps, _) in &ops {
            let mut s = rng.below(quantum as usize) as u64;
            while s < *steps && out.len() < 200 {
                out.push(json!([t, o, s, (t + 1) % ntasks]));
                s += quantum;
            }
        }
        return out;
    }
    let n = 1 + rng.below([3, 12, 40, 12][style]);
    for _ in 0..n {
        let (t, o, steps, places) = rng.pick(&ops).clone();
        let kinds: Vec<&str> = {
            let mut k: Vec<&str> = places.iter().map(|p| p.1.as_str()).collect();
            k.sort();
            k.dedup();
            k
        };
        let step = if style == 0 || kinds.is_empty() || rng.chance(0.25) {
            match rng.below(8) {
                0 => 0,
                _ => rng.below(steps.max(1) as usize) as u64,
            }
        } else {
            let kind = if kinds.contains(&"static-access") && rng.chance(0.6) { "static-access" } else { kinds[rng.below(kinds.len())] };
            let of: Vec<u64> = places.iter().filter(|p| p.1 == kind).map(|p| p.0).collect();
            of[rng.below(of.len())] + rng.below(3) as u64
        };
        out.push(json!([t, o, step, other(rng, t)]));
    }
    out
}

pub fn random_bytes(rng: &mut Rng, n: usize) -> String {
    hex(&(0..n).map(|_| rng.next() as u8).collect::<Vec<u8>>())
}
