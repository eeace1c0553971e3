//! Operations a simulated task can perform on the real code, and what is observed of them.
#![allow(static_mut_refs)]
use crate::frame::{disturb, Placed};
use crate::refqr::*;
use crate::sim::{self, masked, seam, Site};
use bardecoder::decode::Decode;
use bardecoder::detect::{Detect, Location};
use bardecoder::extract::Extract;
use bardecoder::prepare::Prepare;
use bardecoder::util::qr::{ECLevel, QRData, QRError, QRInfo, QRLocation};
use bardecoder::util::Point;
use image::{DynamicImage, GrayImage, RgbaImage};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use subject::{Frame, SimFrame, Station, Tok};

static mut FIRED: BTreeMap<String, u64> = BTreeMap::new();
static mut PANIC: Option<String> = None;

pub fn fired() -> &'static BTreeMap<String, u64> {
    unsafe { &FIRED }
}
pub fn fire(k: &str) {
    unsafe { *FIRED.entry(k.to_string()).or_insert(0) += 1 }
}
pub fn note_panic(s: String) {
    unsafe {
        if PANIC.is_none() {
            PANIC = Some(s)
        }
    }
}

pub struct Ctx {
    station: Option<Rc<Station>>,
}
impl Ctx {
    pub fn new() -> Ctx {
        Ctx { station: None }
    }
    fn station(&mut self) -> &Station {
        if self.station.is_none() {
            self.station = sim::enter(|| Rc::new(Station::new())).ok();
        }
        self.station.as_ref().expect("station")
    }
}

pub fn setup_disk(plan: &Value) {
    let d = &mut sim::g().fs;
    d.mkdirs("/cwd");
    let v = &plan["disk"];
    if v.is_null() {
        d.mkdirs("/tmp");
        return;
    }
    for p in v["dirs"].as_array().into_iter().flatten() {
        d.mkdirs(p.as_str().unwrap());
    }
    for p in v["files"].as_array().into_iter().flatten() {
        d.nodes.insert(p[0].as_str().unwrap().into(), Some(vec![0; p[1].as_u64().unwrap_or(0) as usize]));
    }
    for f in v["fill"].as_array().into_iter().flatten() {
        let dir = f[0].as_str().unwrap();
        d.mkdirs(dir);
        for k in 0..f[1].as_u64().unwrap() {
            d.nodes.insert(format!("{}/left_over_{}.png", dir, k), Some(vec![0; 60]));
        }
    }
    if let Some(c) = v["capacity"].as_u64() {
        d.capacity = c as usize;
    }
    if let Some(c) = v["fds"].as_u64() {
        d.max_fds = c as usize;
    }
    for f in v["faults"].as_array().into_iter().flatten() {
        d.faults.push(crate::disk::FsFault {
            call: f[0].as_str().unwrap().into(),
            nth: f[1].as_u64().unwrap(),
            act: f[2].as_str().unwrap().into(),
        });
    }
    // set before any code under test runs, in this single-threaded child
    if let Some(t) = v["tmpdir"].as_str() {
        std::env::set_var("TMPDIR", t);
    }
}

// ------------------------------------------------------------------ values

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn segs_to_json(segs: &[Segment]) -> Value {
    Value::Array(
        segs.iter()
            .map(|s| match s {
                Segment::Numeric(t) => json!(["N", t]),
                Segment::Alnum(t) => json!(["A", t]),
                Segment::Byte(b) => json!(["B", hex(b)]),
            })
            .collect(),
    )
}
pub fn segs_of(v: &Value) -> Vec<Segment> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|s| {
                    let t = s[1].as_str().unwrap();
                    match s[0].as_str().unwrap() {
                        "N" => Segment::Numeric(t.into()),
                        "A" => Segment::Alnum(t.into()),
                        _ => Segment::Byte(unhex(t)),
                    }
                })
                .collect()
        })
        .unwrap_or_default()
}

/// The symbol a "sym" value describes, undamaged.
pub fn symbol_of(v: &Value) -> Symbol {
    let version = v["v"].as_u64().unwrap() as usize;
    let level = Level::from_name(v["l"].as_str().unwrap());
    let mask = v["m"].as_u64().unwrap() as usize;
    if let Some(raw) = v["raw"].as_str() {
        let mut d = unhex(raw);
        d.resize(data_codewords(version, level), 0);
        Symbol::from_data(layout(version, level), mask, &d)
    } else {
        encode(&segs_of(&v["segs"]), version, level, mask)
    }
}

/// Apply the channel faults of a "sym" value to the modules.
pub fn damage(sym: &Symbol, faults: &Value, count: bool) -> Vec<bool> {
    let mut m = sym.modules.clone();
    let lay = &sym.layout;
    for f in faults.as_array().into_iter().flatten() {
        let i = |k: usize| f[k].as_u64().unwrap() as usize;
        let kind = match f[0].as_str().unwrap() {
            "cw" => {
                let (b, c, x) = (i(1), i(2), i(3));
                for bit in 0..8 {
                    if x >> bit & 1 == 1 {
                        let k = lay.at[b][c][bit] as usize;
                        m[k] = !m[k];
                    }
                }
                "codeword-corruption"
            }
            "px" => {
                let k = i(1);
                m[k] = !m[k];
                "module-flip"
            }
            "fmt" => {
                let k = lay.fmt[i(1)][i(2)] as usize;
                m[k] = !m[k];
                "format-flip"
            }
            "box" => {
                // a smudge: a rectangle of modules forced to one colour
                for y in i(2)..(i(2) + i(4)).min(sym.n) {
                    for x in i(1)..(i(1) + i(3)).min(sym.n) {
                        m[y * sym.n + x] = i(5) != 0;
                    }
                }
                "smudge"
            }
            _ => "unknown",
        };
        if count {
            fire(kind);
        }
    }
    m
}

pub fn placed_of(v: &Value, count: bool) -> Placed {
    let s = symbol_of(&v["sym"]);
    let modules = damage(&s, &v["sym"]["faults"], count);
    Placed {
        n: s.n,
        modules,
        cx: v["cx"].as_f64().unwrap(),
        cy: v["cy"].as_f64().unwrap(),
        scale: v["s"].as_f64().unwrap(),
        angle: v["a"].as_f64().unwrap_or(0.0),
        mirror: v["mir"].as_bool().unwrap_or(false),
        persp: (v["p"][0].as_f64().unwrap_or(0.0), v["p"][1].as_f64().unwrap_or(0.0)),
    }
}

fn rgb(v: &Value, d: [u8; 3]) -> [u8; 3] {
    match v.as_array() {
        Some(a) => [a[0].as_u64().unwrap() as u8, a[1].as_u64().unwrap() as u8, a[2].as_u64().unwrap() as u8],
        None => d,
    }
}

pub fn image_of(v: &Value, count: bool) -> RgbaImage {
    let (w, h) = (v["w"].as_u64().unwrap() as u32, v["h"].as_u64().unwrap() as u32);
    let bg = rgb(&v["bg"], [255; 3]);
    let fg = rgb(&v["fg"], [0; 3]);
    let mut img = RgbaImage::from_pixel(w, h, image::Rgba([bg[0], bg[1], bg[2], 255]));
    if let Some(s) = v["fill"].as_u64() {
        // a frame of noise
        let mut r = crate::rng::Rng::new(s);
        let style = v["fillstyle"].as_u64().unwrap_or(0);
        for (x, y, p) in img.enumerate_pixels_mut() {
            let g = match style {
                0 => r.next() as u8,
                1 => {
                    if r.next() & 1 == 0 {
                        0
                    } else {
                        255
                    }
                }
                2 => {
                    // stripes of random width
                    if (x / (1 + s as u32 % 7)) % 2 == 0 {
                        0
                    } else {
                        255
                    }
                }
                _ => {
                    if (y / (1 + s as u32 % 5) + x / (1 + s as u32 % 3)) % 2 == 0 {
                        0
                    } else {
                        255
                    }
                }
            };
            *p = image::Rgba([g, g, g, 255]);
        }
    }
    for p in v["place"].as_array().into_iter().flatten() {
        let pl = placed_of(p, count);
        pl.draw(&mut img, fg, if p["q"].as_bool().unwrap_or(false) { Some(bg) } else { None });
    }
    for f in v["fx"].as_array().into_iter().flatten() {
        let k = disturb(&mut img, f);
        if count {
            fire(k);
        }
    }
    img
}

fn info_json(i: &QRInfo) -> Value {
    let l = match i.ec_level {
        ECLevel::LOW => "L",
        ECLevel::MEDIUM => "M",
        ECLevel::QUARTILE => "Q",
        ECLevel::HIGH => "H",
    };
    json!([i.version, l, i.total_data, i.errors])
}

fn results_json(r: &subject::Results) -> Value {
    Value::Array(
        r.iter()
            .map(|x| match x {
                Ok((t, None)) => json!({ "ok": t }),
                Ok((t, Some(i))) => json!({"ok": t, "info": info_json(i)}),
                Err(e) => json!({"err": format!("{}", e), "qr": e.downcast_ref::<QRError>().is_some()}),
            })
            .collect(),
    )
}

fn caught(r: Result<Value, Box<dyn std::any::Any + Send>>) -> Value {
    match r {
        Ok(v) => v,
        Err(e) => {
            if e.is::<sim::Killed>() {
                json!({"killed": true})
            } else {
                let m = unsafe { PANIC.take() }.unwrap_or_default();
                json!({ "panic": m })
            }
        }
    }
}

// ------------------------------------------------------------------ pixel sources

struct LiveSource {
    frames: Vec<RgbaImage>,
    /// read count at which the next frame replaces the current one
    at: Vec<u64>,
    reads: RefCell<u64>,
    first: Option<Rc<RefCell<Vec<Option<[u8; 4]>>>>>,
    oob: Rc<RefCell<u64>>,
}
impl subject::Source for LiveSource {
    fn dims(&self) -> (u32, u32) {
        self.frames[0].dimensions()
    }
    fn px(&self, x: u32, y: u32) -> [u8; 4] {
        seam(Site::Px);
        masked(|| {
            let (w, h) = self.frames[0].dimensions();
            let mut n = self.reads.borrow_mut();
            let k = self.at.iter().filter(|a| **a <= *n).count().min(self.frames.len() - 1);
            if k > 0 && self.at.contains(&n) {
                fire("buffer-overwritten-while-read");
            }
            *n += 1;
            if x >= w || y >= h {
                *self.oob.borrow_mut() += 1;
                return [0, 0, 0, 255];
            }
            let p = self.frames[k].get_pixel(x, y).0;
            if let Some(f) = &self.first {
                let f = &mut f.borrow_mut()[(y * w + x) as usize];
                if f.is_none() {
                    *f = Some(p);
                }
            }
            p
        })
    }
}

// ------------------------------------------------------------------ operations

pub fn execute(op: &Value, ctx: &mut Ctx) -> Value {
    let nested: Rc<RefCell<Vec<Value>>> = Rc::new(RefCell::new(vec![]));
    let ctl: Vec<Value> = op["ctl"].as_array().cloned().unwrap_or_default();
    let rep = op["rep"].as_u64().unwrap_or(1);
    let mut o = Value::Null;
    // the same over and over; all of them have to give the same
    for k in 0..rep {
        if !ctl.is_empty() {
            // a decoder may be used again from inside one of its own calls
            let own = Ctx { station: ctl.iter().any(|c| c["same"] == true).then(|| { ctx.station(); ctx.station.clone() }).flatten() };
            sim::set_hook(Some(hook(ctl.clone(), nested.clone(), own, k + 1 == rep)));
        }
        nested.borrow_mut().clear();
        let now = execute_plain(op, ctx);
        sim::set_hook(None);
        if k > 0 && ctl.is_empty() && now != o {
            o = json!({ "unsteady": k, "first": o, "then": now });
            break;
        }
        o = now;
    }
    let n = nested.borrow();
    if !n.is_empty() {
        o["nested"] = Value::Array(n.clone());
    }
    o
}

/// What is scripted to happen at the seams of an operation.
fn hook(ctl: Vec<Value>, nested: Rc<RefCell<Vec<Value>>>, mut own: Ctx, count: bool) -> Box<dyn FnMut(Site, u64)> {
    let mut comp = 0u64;
    // records and reads are counted from here on
    let (logs, pixels) = sim::counts();
    let fire = move |k: String| {
        if count {
            fire(&k)
        }
    };
    Box::new(move |s, n| {
        let n = match s {
            Site::Comp => {
                comp += 1;
                comp
            }
            Site::Log => n - logs,
            Site::Px => n - pixels,
            _ => n,
        };
        for (k, c) in ctl.iter().enumerate() {
            if c["at"].as_str() != Some(s.name()) || c["n"].as_u64() != Some(n) {
                continue;
            }
            match c["do"].as_str().unwrap_or("") {
                "kill" => {
                    fire(format!("crash-mid-decode@{}", s.name()));
                    if count {
                        sim::event(format!("kill at {} {}", s.name(), n));
                    }
                    sim::kill();
                }
                "nest" => {
                    fire(format!("re-entrant-call@{}", s.name()));
                    let o = if c["same"] == true {
                        execute(&c["op"], &mut own)
                    } else {
                        execute(&c["op"], &mut Ctx::new())
                    };
                    nested.borrow_mut().push(json!({"ctl": k, "gave": o}));
                }
                "slow" => {
                    fire("slow-component".into());
                    sim::advance_clock(c["ns"].as_i64().unwrap_or(1_000_000_000));
                }
                _ => {}
            }
        }
    })
}

fn execute_plain(op: &Value, ctx: &mut Ctx) -> Value {
    unsafe { PANIC = None };
    if op["fresh"].as_bool().unwrap_or(false) {
        ctx.station = None;
        fire("decoder-restart");
    }
    match op["op"].as_str().unwrap_or("") {
        "sym" => op_sym(op, ctx),
        "frame" => op_frame(op, ctx),
        "located" => op_located(op),
        "wrapped" => op_wrapped(op),
        "detect" => op_detect(op),
        "prepare" => op_prepare(op),
        "extract" => op_extract(op),
        "pipe" => op_pipe(op),
        "handed" => op_handed(op),
        "chomp" => op_chomp(op),
        "bait" => op_bait(op),
        x => json!({ "harness-error": format!("unknown operation {}", x) }),
    }
}

fn op_sym(op: &Value, ctx: &mut Ctx) -> Value {
    let s = symbol_of(op);
    let m = damage(&s, &op["faults"], true);
    let white = op["white"].as_u64().unwrap_or(255) as u8;
    let pixels: Vec<u8> = m.iter().map(|b| if *b { 0 } else { white }).collect();
    let version = s.version as u32;
    let which = op["dec"].as_str().unwrap_or("both").to_string();
    let st = ctx.station();
    let mut out = json!({});
    if which != "info" {
        let r = sim::enter(|| {
            let r = st.symbol(pixels.clone(), version);
            masked(|| match &r {
                Ok(t) => json!({ "ok": t }),
                Err(e) => json!({"err": e.msg}),
            })
        });
        out["plain"] = caught(r);
    }
    if which != "plain" {
        let r = sim::enter(|| {
            let r = st.symbol_info(pixels.clone(), version);
            masked(|| match &r {
                Ok((t, i)) => json!({"ok": t, "info": info_json(i)}),
                Err(e) => json!({"err": e.msg}),
            })
        });
        out["info"] = caught(r);
    }
    out
}

/// Not through the image crate, which does not take images without pixels.
pub fn luma(img: &RgbaImage) -> GrayImage {
    use image::Pixel;
    let (w, h) = img.dimensions();
    GrayImage::from_raw(w, h, img.as_raw().chunks(4).map(|p| image::Rgba([p[0], p[1], p[2], p[3]]).to_luma()[0]).collect()).expect("luma")
}

fn sim_frame(img: RgbaImage) -> SimFrame {
    SimFrame {
        src: Box::new(LiveSource { frames: vec![img], at: vec![], reads: RefCell::new(0), first: None, oob: Rc::new(RefCell::new(0)) }),
        at: (0, 0),
    }
}

fn op_frame(op: &Value, ctx: &mut Ctx) -> Value {
    let img = image_of(op, true);
    let info = op["info"].as_bool().unwrap_or(false);
    let st = ctx.station();
    let (w, h) = img.dimensions();
    let run = |f: &Frame| -> Value {
        caught(sim::enter(|| {
            let r = st.decode(f, info);
            masked(|| results_json(&r))
        }))
    };
    match op["src"].as_str().unwrap_or("sim") {
        "rgba" => json!({ "res": run(&Frame::Rgba(img)) }),
        "dyn" => json!({ "res": run(&Frame::Dyn(DynamicImage::ImageRgba8(img))) }),
        "luma" => json!({ "res": run(&Frame::Dyn(DynamicImage::ImageLuma8(luma(&img)))) }),
        "kinds" => {
            // the same still picture in every kind of container
            let still = |i: RgbaImage| Frame::Sim(sim_frame(i));
            let gray = luma(&img);
            let d = DynamicImage::ImageRgba8(img.clone());
            let mut k = vec![run(&still(img.clone())), run(&Frame::Rgba(img.clone())), run(&Frame::Dyn(d.clone()))];
            if img.pixels().all(|p| p[0] == p[1] && p[1] == p[2] && p[3] == 255) {
                // without colour, so nothing is lost in any of these
                k.push(run(&Frame::Dyn(DynamicImage::ImageLuma8(gray))));
                k.push(run(&Frame::Dyn(DynamicImage::ImageRgb8(d.to_rgb8()))));
                k.push(run(&Frame::Dyn(DynamicImage::ImageLumaA8(d.to_luma_alpha8()))));
            }
            // a part of a larger picture
            if let Some(a) = op["crop"].as_array() {
                let n = |k: usize| a[k].as_u64().unwrap() as u32;
                let mut part = sim_frame(img.clone());
                part.at = (n(0), n(1));
                k.push(run(&Frame::Sim(part)));
                let mut r = crate::rng::Rng::new(n(4) as u64);
                let mut whole = RgbaImage::from_fn(w + n(0) + n(2), h + n(1) + n(3), |_, _| image::Rgba([if r.next() & 1 == 0 { 0 } else { 255 }; 4]));
                image::imageops::replace(&mut whole, &img, n(0) as i64, n(1) as i64);
                k.push(caught(sim::enter(|| {
                    let r = subject::cropped(whole, (n(0), n(1)), (w, h), info);
                    masked(|| results_json(&r))
                })));
            }
            // containers with more to them than eight bits: what they show is what counts
            let mut pairs = vec![];
            if let Some(s) = op["deep"].as_u64().filter(|_| w > 0 && h > 0) {
                let mut r = crate::rng::Rng::new(s);
                let mut low = |p: &mut [u16]| p.iter_mut().for_each(|x| *x = (*x & 0xff00) | r.next() as u16 & 0xff);
                let deep = match s % 8 {
                    0 => { let mut i = d.to_luma16(); low(&mut i); DynamicImage::ImageLuma16(i) }
                    1 => { let mut i = d.to_luma_alpha16(); low(&mut i); DynamicImage::ImageLumaA16(i) }
                    2 => { let mut i = d.to_rgb16(); low(&mut i); DynamicImage::ImageRgb16(i) }
                    3 => { let mut i = d.to_rgba16(); low(&mut i); DynamicImage::ImageRgba16(i) }
                    4 => DynamicImage::ImageRgb32F(d.to_rgb32f()),
                    5 => DynamicImage::ImageRgba32F(d.to_rgba32f()),
                    6 => DynamicImage::ImageRgb8(d.to_rgb8()),
                    _ => DynamicImage::ImageLumaA8(d.to_luma_alpha8()),
                };
                let view = RgbaImage::from_fn(w, h, |x, y| image::GenericImageView::get_pixel(&deep, x, y));
                pairs.push(json!([run(&Frame::Dyn(deep)), run(&Frame::Rgba(view))]));
            }
            json!({ "kinds": k, "pairs": pairs })
        }
        "live" => {
            let mut frames = vec![img];
            let mut at = vec![];
            for nf in op["next"].as_array().into_iter().flatten() {
                let mut f = nf["frame"].clone();
                f["w"] = json!(w);
                f["h"] = json!(h);
                frames.push(image_of(&f, true));
                at.push(nf["at"].as_u64().unwrap());
            }
            let first = Rc::new(RefCell::new(vec![None; (w * h) as usize]));
            let oob = Rc::new(RefCell::new(0));
            let base = frames[0].clone();
            let f = Frame::Sim(SimFrame {
                src: Box::new(LiveSource { frames, at, reads: RefCell::new(0), first: Some(first.clone()), oob: oob.clone() }),
                at: (0, 0),
            });
            // the pipeline, or its first stage, where every pixel shows
            let run = |f: &Frame| match (&op["prep"], f) {
                (Value::Array(a), Frame::Sim(i)) => prepared(i, a[0].as_u64().unwrap() as u32, a[1].as_u64().unwrap() as u32),
                _ => run(f),
            };
            let res = run(&f);
            // what was read, frozen
            let mut frozen = base;
            let mut unread = 0u64;
            for (k, v) in first.borrow().iter().enumerate() {
                let (x, y) = (k as u32 % w, k as u32 / w);
                match v {
                    Some(p) => frozen.put_pixel(x, y, image::Rgba(*p)),
                    None => unread += 1,
                }
            }
            let again = run(&Frame::Sim(sim_frame(frozen.clone())));
            let buf = if op["prep"].is_array() { again.clone() } else { run(&Frame::Rgba(frozen)) };
            let o = *oob.borrow();
            json!({"res": res, "frozen": again, "buffer": buf, "oob": o, "unread": unread})
        }
        _ => {
            let oob = Rc::new(RefCell::new(0));
            let f = Frame::Sim(SimFrame {
                src: Box::new(LiveSource { frames: vec![img], at: vec![], reads: RefCell::new(0), first: None, oob: oob.clone() }),
                at: (0, 0),
            });
            let res = run(&f);
            let o = *oob.borrow();
            json!({"res": res, "oob": o})
        }
    }
}

struct FixedDetect(Vec<(u32, f64, [f64; 6])>);
impl Detect<GrayImage> for FixedDetect {
    fn detect(&self, _: &GrayImage) -> Vec<Location> {
        seam(Site::Comp);
        self.0
            .iter()
            .map(|(v, s, p)| {
                Location::QR(QRLocation {
                    top_left: Point { x: p[0], y: p[1] },
                    top_right: Point { x: p[2], y: p[3] },
                    bottom_left: Point { x: p[4], y: p[5] },
                    module_size: *s,
                    version: *v,
                })
            })
            .collect()
    }
}

/// Where an (exact, or disturbed) detector says the symbols of the frame are.
fn locations(op: &Value) -> Vec<(u32, f64, [f64; 6])> {
    let mut out = vec![];
    for l in op["locs"].as_array().into_iter().flatten() {
        if let Some(k) = l["of"].as_u64() {
            let p = &op["place"][k as usize];
            let pl = placed_of(p, false);
            let [a, b, c] = pl.finders();
            // a mirrored symbol is reported the way the shipped detector reports it
            let j: Vec<f64> = l["j"].as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap()).collect()).unwrap_or(vec![0.0; 6]);
            let v = l["v"].as_u64().unwrap_or(p["sym"]["v"].as_u64().unwrap()) as u32;
            out.push((v, pl.scale, [a.0 + j[0], a.1 + j[1], b.0 + j[2], b.1 + j[3], c.0 + j[4], c.1 + j[5]]));
        } else {
            let r: Vec<f64> = l["raw"].as_array().unwrap().iter().map(|x| match x.as_str() {
                    Some("nan") => f64::NAN,
                    Some("inf") => f64::INFINITY,
                    Some(_) => f64::NEG_INFINITY,
                    None => x.as_f64().unwrap(),
                })
                .collect();
            out.push((l["v"].as_u64().unwrap() as u32, r[6], [r[0], r[1], r[2], r[3], r[4], r[5]]));
        }
    }
    out
}

fn op_located(op: &Value) -> Value {
    let img = image_of(op, true);
    let locs = locations(op);
    let info = op["info"].as_bool().unwrap_or(false);
    let f = sim_frame(img);
    let r = sim::enter(|| {
        let d = masked(|| (Box::new(FixedDetect(locs.clone())), Box::new(FixedDetect(locs))));
        let l = subject::Located::new(d.0, d.1);
        let r = l.decode(&f, info);
        masked(|| results_json(&r))
    });
    json!({ "res": caught(r) })
}

struct Tap(Rc<RefCell<BTreeMap<String, u64>>>);
impl subject::Tap for Tap {
    fn tap(&self, component: &str, done: bool) {
        seam(Site::Comp);
        if done {
            masked(|| *self.0.borrow_mut().entry(component.to_string()).or_insert(0) += 1)
        }
    }
}

/// The shipped components as components of the user, who looks on.
fn op_wrapped(op: &Value) -> Value {
    let img = image_of(op, true);
    let info = op["info"].as_bool().unwrap_or(false);
    let f = sim_frame(img);
    let calls = Rc::new(RefCell::new(BTreeMap::new()));
    let r = sim::enter(|| {
        let w = subject::wrapped(|| masked(|| Rc::new(Tap(calls.clone())) as Rc<dyn subject::Tap>));
        let r = w.decode(&f, info);
        masked(|| results_json(&r))
    });
    let c = calls.borrow().clone();
    json!({ "res": caught(r), "calls": c })
}

/// Finding symbols without reading them.
fn op_detect(op: &Value) -> Value {
    let f = sim_frame(image_of(op, true));
    let r = sim::enter(|| {
        let g = subject::prepare(&f);
        let l = subject::detect(&g);
        let v = masked(|| {
            if op["where"] != true {
                return json!({ "locations": l.len() });
            }
            let w: Vec<Value> = l
                .iter()
                .map(|l| {
                    let Location::QR(q) = l;
                    json!([q.version, q.module_size, q.top_left.x, q.top_left.y, q.top_right.x, q.top_right.y, q.bottom_left.x, q.bottom_left.y])
                })
                .collect();
            json!({ "locations": w })
        });
        drop(l);
        v
    });
    caught(r)
}

/// A frame prepared as it is, and as it arrives after a late fault.
/// What the preparation makes of a frame.
fn prepared(f: &SimFrame, b: u32, m: u32) -> Value {
    caught(sim::enter(|| {
        let g = subject::prepare_with(f, b, m);
        let v = masked(|| {
            let (w, h) = g.dimensions();
            let bits: Vec<u8> = g.as_raw().chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, x)| a | u8::from(*x == 255) << i)).collect();
            json!({"w": w, "h": h, "bits": hex(&bits), "grey": g.as_raw().iter().filter(|x| **x != 0 && **x != 255).count()})
        });
        drop(g);
        v
    }))
}

fn op_prepare(op: &Value) -> Value {
    let (b, m) = (op["block"][0].as_u64().unwrap() as u32, op["block"][1].as_u64().unwrap() as u32);
    let img = image_of(op, true);
    let mut late = img.clone();
    for f in op["late"].as_array().into_iter().flatten() {
        fire(disturb(&mut late, f));
    }
    let mut out = json!({});
    for (k, i) in [("as-it-is", img), ("late", late)] {
        let oob = Rc::new(RefCell::new(0));
        let f = SimFrame {
            src: Box::new(LiveSource { frames: vec![i], at: vec![], reads: RefCell::new(0), first: None, oob: oob.clone() }),
            at: (0, 0),
        };
        out[k] = prepared(&f, b, m);
        out[k]["oob"] = json!(*oob.borrow());
    }
    out
}

// ---- scripted pipeline

type Trace = Rc<RefCell<Vec<Value>>>;
struct P {
    tag: String,
    t: Trace,
    out: u64,
}
struct D {
    tag: String,
    t: Trace,
    locs: Vec<u64>,
}
struct X {
    tag: String,
    t: Trace,
    script: Vec<Value>,
}
struct C {
    tag: String,
    t: Trace,
    script: Vec<Value>,
    n: RefCell<usize>,
}

impl Prepare<Tok, Tok> for P {
    fn prepare(&self, i: &Tok) -> Tok {
        seam(Site::Comp);
        masked(|| self.t.borrow_mut().push(json!(["prepare", self.tag, i.0])));
        Tok(self.out)
    }
}
impl Detect<Tok> for D {
    fn detect(&self, i: &Tok) -> Vec<Location> {
        seam(Site::Comp);
        masked(|| self.t.borrow_mut().push(json!(["detect", self.tag, i.0])));
        self.locs
            .iter()
            .map(|k| {
                let p = |d: f64| Point { x: *k as f64 + d, y: d };
                Location::QR(QRLocation { top_left: p(0.0), top_right: p(0.25), bottom_left: p(0.5), module_size: *k as f64 / 4.0, version: *k as u32 })
            })
            .collect()
    }
}
impl Extract<Tok, QRLocation, QRData, QRError> for X {
    fn extract(&self, i: &Tok, l: QRLocation) -> Result<QRData, QRError> {
        seam(Site::Comp);
        let k = l.top_left.x as usize;
        let intact = l.top_right.x == k as f64 + 0.25 && l.bottom_left.x == k as f64 + 0.5 && l.version == k as u32 && l.module_size == k as f64 / 4.0;
        masked(|| self.t.borrow_mut().push(json!(["extract", self.tag, i.0, k, intact])));
        let s = &self.script[k % self.script.len()];
        match s[0].as_str().unwrap() {
            "err" => {
                masked(|| fire("component-error@extract"));
                Err(QRError { msg: format!("{}-{}", s[1].as_str().unwrap(), k) })
            }
            _ => Ok(QRData::new(vec![k as u8; s[1].as_u64().unwrap() as usize], s[2].as_u64().unwrap() as u32)),
        }
    }
}
impl Decode<QRData, Tok, QRError> for C {
    fn decode(&self, d: Result<QRData, QRError>) -> Result<Tok, QRError> {
        seam(Site::Comp);
        let n = masked(|| {
            let mut n = self.n.borrow_mut();
            *n += 1;
            let e = match &d {
                Ok(q) => json!(["decode", self.tag, "ok", q.data.first().copied(), q.data.len(), q.version, q.side]),
                Err(e) => json!(["decode", self.tag, "err", e.msg]),
            };
            self.t.borrow_mut().push(e);
            *n - 1
        });
        let s = &self.script[n % self.script.len()];
        match (s[0].as_str().unwrap(), d) {
            ("err", _) => {
                masked(|| fire("component-error@decode"));
                Err(QRError { msg: format!("{}-{}", s[1].as_str().unwrap(), n) })
            }
            ("pass", Err(e)) => Err(e),
            ("recover", Err(_)) => {
                masked(|| fire("component-recovery@decode"));
                Ok(Tok(9000 + n as u64))
            }
            (_, _) => Ok(Tok(1000 + n as u64)),
        }
    }
}

/// The modules read off a black and white picture: with whatever is around the symbol, and with
/// nothing around it.
fn op_extract(op: &Value) -> Value {
    let mut around = op.clone();
    let own = placed_of(&op["place"][0], true);
    around["place"].as_array_mut().unwrap().remove(0);
    let picture = |mut img: RgbaImage| {
        own.draw(&mut img, [0; 3], Some([255; 3]));
        let (w, h) = img.dimensions();
        GrayImage::from_fn(w, h, |x, y| image::Luma([if img.get_pixel(x, y)[0] < 128 { 0 } else { 255 }]))
    };
    let full = picture(image_of(&around, true));
    let (w, h) = full.dimensions();
    let blank = picture(RgbaImage::from_pixel(w, h, image::Rgba([255; 4])));
    let mut of = op.clone();
    of["locs"] = json!([op["loc"]]);
    let (version, module_size, q) = locations(&of)[0];
    let mut out = json!({});
    for (k, img) in [("full", &full), ("blank", &blank), ("again", &full)] {
        // the centre of the first pixel is at the origin
        let p = |i: usize| Point { x: q[i] - 0.5, y: q[i + 1] - 0.5 };
        let loc = QRLocation { top_left: p(0), top_right: p(2), bottom_left: p(4), module_size, version };
        let r = sim::enter(|| {
            let d = subject::extract(img, loc);
            masked(|| match d {
                Ok(d) => {
                    let bits: Vec<u8> = d.data.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, x)| a | u8::from(*x == 0) << i)).collect();
                    json!({"v": d.version, "side": d.side, "len": d.data.len(), "bits": hex(&bits),
                        "grey": d.data.iter().filter(|x| **x != 0 && **x != 255).count()})
                }
                Err(e) => json!({ "err": e.msg }),
            })
        });
        out[k] = caught(r);
    }
    out
}

/// What a scripted detector finds: a list, or so and so many.
pub fn places(l: &Value) -> Vec<u64> {
    match l["many"].as_u64() {
        Some(m) => (0..m).map(|k| k * 7 % 31).collect(),
        None => l.as_array().into_iter().flatten().map(|x| x.as_u64().unwrap()).collect(),
    }
}

fn op_pipe(op: &Value) -> Value {
    let t: Trace = Rc::new(RefCell::new(vec![]));
    let mut parts = vec![];
    let list = |v: &Value| -> Vec<Value> { v.as_array().cloned().unwrap_or_default() };
    for p in list(&op["parts"]) {
        let tag = p["tag"].as_str().unwrap().to_string();
        parts.push(match p["part"].as_str().unwrap() {
            "prepare" => subject::Part::Prepare(Box::new(P { tag, t: t.clone(), out: p["out"].as_u64().unwrap() })),
            "detect" => subject::Part::Detect(Box::new(D {
                tag,
                t: t.clone(),
                locs: places(&p["locs"]),
            })),
            _ => subject::Part::Qr(
                Box::new(X { tag: tag.clone(), t: t.clone(), script: list(&p["extract"]) }),
                Box::new(C { tag, t: t.clone(), script: list(&p["decode"]), n: RefCell::new(0) }),
            ),
        });
    }
    let input = op["input"].as_u64().unwrap();
    let rounds = op["rounds"].as_u64().unwrap_or(1);
    let built = sim::enter(|| subject::build_pipe(parts));
    let pipe = match built {
        Ok(p) => p,
        Err(e) => {
            unsafe { PANIC = None };
            drop(e);
            return json!({"build": "panic", "trace": t.borrow().clone()});
        }
    };
    let mut res = vec![];
    for k in 0..rounds {
        let r = sim::enter(|| {
            let r = subject::pipe_decode(&pipe, &Tok(input + k));
            masked(|| {
                Value::Array(
                    r.iter()
                        .map(|x| match x {
                            Ok(t) => json!({"ok": t.0}),
                            Err(e) => json!({"err": e.downcast_ref::<QRError>().map(|q| q.msg.clone()), "shown": format!("{}", e)}),
                        })
                        .collect(),
                )
            })
        });
        res.push(caught(r));
    }
    let tr = t.borrow().clone();
    json!({"build": "ok", "rounds": res, "trace": tr})
}

/// Hands symbols, or errors, to whatever decodes them.
struct Hand {
    items: Vec<Result<(Vec<u8>, u32), String>>,
}
impl Extract<Tok, QRLocation, QRData, QRError> for Hand {
    fn extract(&self, _: &Tok, l: QRLocation) -> Result<QRData, QRError> {
        seam(Site::Comp);
        match &self.items[l.version as usize] {
            Ok((p, v)) => Ok(QRData::new(p.clone(), *v)),
            Err(e) => {
                masked(|| fire("component-error@extract"));
                Err(QRError { msg: e.clone() })
            }
        }
    }
}

/// A pipeline of the user's components that ends in a shipped decoder.
fn op_handed(op: &Value) -> Value {
    let items: Vec<Result<(Vec<u8>, u32), String>> = op["items"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|i| match i["err"].as_str() {
            Some(e) => Err(e.to_string()),
            None => {
                let s = symbol_of(i);
                Ok((damage(&s, &i["faults"], true).iter().map(|b| if *b { 0 } else { 255 }).collect(), s.version as u32))
            }
        })
        .collect();
    let t: Trace = Rc::new(RefCell::new(vec![]));
    let (info, rounds) = (op["info"].as_bool().unwrap_or(false), op["rounds"].as_u64().unwrap_or(1));
    let n = items.len() as u64;
    let r = sim::enter(|| {
        let (p, d, x) = masked(|| {
            (
                Box::new(P { tag: "p".into(), t: t.clone(), out: 1 }),
                Box::new(D { tag: "d".into(), t: t.clone(), locs: (0..n).collect() }),
                Box::new(Hand { items }),
            )
        });
        let r = subject::handed(p, d, x, info, rounds);
        masked(|| Value::Array(r.iter().map(results_json).collect()))
    });
    json!({ "res": caught(r) })
}

// ---- bit reader

fn op_chomp(op: &Value) -> Value {
    let bytes = unhex(op["bytes"].as_str().unwrap());
    let reqs = op["reqs"].as_array().cloned().unwrap_or_default();
    let mut out = vec![];
    let r = sim::enter(|| subject::Reader::new(bytes.clone()));
    let mut rd = match r {
        Ok(x) => x,
        Err(e) => return json!({"res": [caught(Err(e))]}),
    };
    for (k, q) in reqs.iter().enumerate() {
        let n = q[1].as_u64().unwrap() as u8;
        let kind = q[0].as_str().unwrap();
        let tag = format!("e{}", k);
        let want = tag.clone();
        let v = sim::enter(|| match kind {
            "c" => rd.chomp(n).map(|x| x as u64).ok_or(String::new()),
            "o" => rd.chomp_or(n, tag).map(|x| x as u64),
            _ => rd.chomp_or_u16(n, tag).map(|x| x as u64),
        });
        match v {
            Ok(Ok(x)) => out.push(json!(x)),
            Ok(Err(e)) => {
                if kind != "c" && e != want {
                    out.push(json!({"wrong-error": e}));
                } else {
                    out.push(Value::Null);
                }
            }
            Err(e) => {
                out.push(caught(Err(e)));
                break;
            }
        }
    }
    json!({ "res": out })
}

/// Self-test of the simulator: code that is deliberately nondeterministic unless the seams hold.
fn op_bait(op: &Value) -> Value {
    let what = op["what"].as_str().unwrap_or("").to_string();
    caught(sim::enter(|| match what.as_str() {
        "clock" => {
            let a = std::time::Instant::now();
            std::thread::sleep(std::time::Duration::from_secs(3600));
            let b = a.elapsed();
            let s = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos() as u64).unwrap_or(0);
            masked(|| json!({"slept": b.as_nanos() as u64, "now": s}))
        }
        "hash" => {
            let mut m = std::collections::HashMap::new();
            for i in 0..50u32 {
                m.insert(i, i);
            }
            let v: Vec<u32> = m.keys().copied().collect();
            masked(|| json!(v))
        }
        "threads" => {
            let m = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
            let hs: Vec<_> = (0..3)
                .map(|i| {
                    let m = m.clone();
                    std::thread::spawn(move || {
                        for k in 0..3 {
                            m.lock().unwrap().push(i * 10 + k);
                            std::thread::yield_now();
                        }
                    })
                })
                .collect();
            for h in hs {
                let _ = h.join();
            }
            let v = m.lock().unwrap().clone();
            masked(|| json!(v))
        }
        "disk" => {
            let r1 = std::fs::create_dir_all("/cwd/a/b").is_ok();
            let r2 = std::fs::write("/cwd/a/b/c", b"hello").is_ok();
            let r3 = std::fs::read("/cwd/a/b/c").map(|v| v.len()).unwrap_or(99);
            let r4 = std::fs::read("/etc/passwd").is_ok();
            let r5 = std::process::Command::new("/bin/true").status().is_ok();
            let r6 = std::net::TcpStream::connect("127.0.0.1:1").is_ok();
            println!("hidden");
            masked(|| json!([r1, r2, r3, r4, r5, r6]))
        }
        "env" => {
            let a: Vec<String> = ["BARDECODER_FAST", "HOME", "LANG", "DEBUG", "RUST_LOG"].iter().map(|k| std::env::var(k).unwrap_or("-".into())).collect();
            let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(0);
            masked(|| json!([a, n]))
        }
        "spin" => loop {
            std::thread::yield_now();
            unsafe { std::ptr::read_volatile(&FIRED as *const _ as *const u8) };
            std::hint::spin_loop();
            let b = Box::new(1u8);
            std::hint::black_box(&b);
        },
        _ => json!(null),
    }))
}
