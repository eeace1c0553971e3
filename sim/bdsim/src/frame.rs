//! The optical channel: rendering symbols into a frame, and the faults a camera adds to it.
use crate::rng::Rng;
use image::{Rgba, RgbaImage};
use serde_json::Value;

/// One symbol placed in a frame. Coordinates are pixel edges (the centre of pixel 0 is at 0.5).
#[derive(Clone)]
pub struct Placed {
    pub n: usize,
    pub modules: Vec<bool>,
    /// centre of the symbol
    pub cx: f64,
    pub cy: f64,
    pub scale: f64,
    /// degrees
    pub angle: f64,
    pub mirror: bool,
    /// perspective: how much closer the right (lower) side is to the camera, per symbol width
    pub persp: (f64, f64),
}

impl Placed {
    fn basis(&self) -> (f64, f64, f64, f64) {
        let (s, c) = match self.angle {
            a if a == 0.0 => (0.0, 1.0),
            a if a == 90.0 => (1.0, 0.0),
            a if a == 180.0 => (0.0, -1.0),
            a if a == 270.0 => (-1.0, 0.0),
            a => a.to_radians().sin_cos(),
        };
        let m = if self.mirror { -1.0 } else { 1.0 };
        // module axes in pixels: u (x of the symbol), v (y of the symbol)
        (c * self.scale * m, s * self.scale * m, -s * self.scale, c * self.scale)
    }
    /// Pixel position of a point given in modules.
    pub fn at(&self, u: f64, v: f64) -> (f64, f64) {
        let (ux, uy, vx, vy) = self.basis();
        let (u, v) = (u - self.n as f64 / 2.0, v - self.n as f64 / 2.0);
        let (x, y) = (u * ux + v * vx, u * uy + v * vy);
        // the further away, the smaller
        let z = 1.0 - (x * self.persp.0 + y * self.persp.1) / (self.n as f64 * self.scale);
        (self.cx + x / z, self.cy + y / z)
    }
    /// Centres of the three finders: top left, top right, bottom left.
    pub fn finders(&self) -> [(f64, f64); 3] {
        let n = self.n as f64;
        [self.at(3.5, 3.5), self.at(n - 3.5, 3.5), self.at(3.5, n - 3.5)]
    }
    pub fn draw(&self, img: &mut RgbaImage, fg: [u8; 3], quiet: Option<[u8; 3]>) {
        let (w, h) = img.dimensions();
        let (ux, uy, vx, vy) = self.basis();
        let det = ux * vy - uy * vx;
        let r = (self.n as f64 / 2.0 + 4.0) * self.scale * 1.5;
        let x0 = (self.cx - r).floor().max(0.0) as u32;
        let x1 = (self.cx + r).ceil().min(w as f64).max(0.0) as u32;
        let y0 = (self.cy - r).floor().max(0.0) as u32;
        let y1 = (self.cy + r).ceil().min(h as f64).max(0.0) as u32;
        let half = self.n as f64 / 2.0;
        for y in y0..y1 {
            for x in x0..x1 {
                let (dx, dy) = (x as f64 + 0.5 - self.cx, y as f64 + 0.5 - self.cy);
                // undo the perspective, which is none at all most of the time
                let z = 1.0 + (dx * self.persp.0 + dy * self.persp.1) / (self.n as f64 * self.scale);
                let (dx, dy) = (dx / z, dy / z);
                let u = (dx * vy - dy * vx) / det + half;
                let v = (dy * ux - dx * uy) / det + half;
                let (mu, mv) = (u.floor(), v.floor());
                if mu >= 0.0 && mv >= 0.0 && mu < self.n as f64 && mv < self.n as f64 {
                    if self.modules[mv as usize * self.n + mu as usize] {
                        img.put_pixel(x, y, Rgba([fg[0], fg[1], fg[2], 255]));
                    } else if let Some(q) = quiet {
                        img.put_pixel(x, y, Rgba([q[0], q[1], q[2], 255]));
                    }
                } else if let Some(q) = quiet {
                    if u >= -4.0 && v >= -4.0 && u < self.n as f64 + 4.0 && v < self.n as f64 + 4.0 {
                        img.put_pixel(x, y, Rgba([q[0], q[1], q[2], 255]));
                    }
                }
            }
        }
    }
}

fn gray(g: u8) -> Rgba<u8> {
    Rgba([g, g, g, 255])
}

/// Apply one camera fault. Returns its kind.
pub fn disturb(img: &mut RgbaImage, f: &Value) -> &'static str {
    let (w, h) = img.dimensions();
    let i = |k: usize| f[k].as_i64().unwrap_or(0);
    match f[0].as_str().unwrap_or("") {
        "noise" => {
            let mut r = Rng::new(i(1) as u64);
            if w > 0 && h > 0 {
                for _ in 0..i(2) {
                    let (x, y) = (r.below(w as usize) as u32, r.below(h as usize) as u32);
                    img.put_pixel(x, y, gray(r.next() as u8));
                }
            }
            "salt-and-pepper"
        }
        "rect" => {
            for y in i(2).max(0)..(i(2) + i(4)).min(h as i64) {
                for x in i(1).max(0)..(i(1) + i(3)).min(w as i64) {
                    img.put_pixel(x as u32, y as u32, gray(i(5) as u8));
                }
            }
            "occlusion"
        }
        "torn" => {
            let d = i(2).rem_euclid(w.max(1) as i64);
            let old = img.clone();
            for y in i(1).max(0)..h as i64 {
                for x in 0..w {
                    let sx = (x as i64 + d) % w as i64;
                    img.put_pixel(x, y as u32, *old.get_pixel(sx as u32, y as u32));
                }
            }
            "torn-frame"
        }
        "stuck" => {
            for y in i(1).max(1)..(i(1) + i(2)).min(h as i64) {
                for x in 0..w {
                    let p = *img.get_pixel(x, y as u32 - 1);
                    img.put_pixel(x, y as u32, p);
                }
            }
            "stuck-lines"
        }
        "lost" => {
            // the rest of the frame never arrived
            for y in i(1).max(0)..h as i64 {
                for x in 0..w {
                    img.put_pixel(x, y as u32, gray(i(2) as u8));
                }
            }
            "truncated-frame"
        }
        "swap" => {
            // two row packets delivered in the wrong order
            let old = img.clone();
            let (a, b, n) = (i(1).max(0), i(2).max(0), i(3).max(0));
            for k in 0..n {
                if a + k < h as i64 && b + k < h as i64 {
                    for x in 0..w {
                        img.put_pixel(x, (a + k) as u32, *old.get_pixel(x, (b + k) as u32));
                        img.put_pixel(x, (b + k) as u32, *old.get_pixel(x, (a + k) as u32));
                    }
                }
            }
            "reordered-lines"
        }
        "dup" => {
            let old = img.clone();
            let (a, b, n) = (i(1).max(0), i(2).max(0), i(3).max(0));
            for k in 0..n {
                if a + k < h as i64 && b + k < h as i64 {
                    for x in 0..w {
                        img.put_pixel(x, (b + k) as u32, *old.get_pixel(x, (a + k) as u32));
                    }
                }
            }
            "duplicated-lines"
        }
        "grad" => {
            for y in 0..h {
                for x in 0..w {
                    let d = (x as i64 * i(1) / w as i64) + (y as i64 * i(2) / h as i64);
                    let p = img.get_pixel_mut(x, y);
                    for c in 0..3 {
                        p[c] = (p[c] as i64 + d).clamp(0, 255) as u8;
                    }
                }
            }
            "illumination"
        }
        "invert" => {
            for p in img.pixels_mut() {
                for c in 0..3 {
                    p[c] = 255 - p[c];
                }
            }
            "inverted"
        }
        "alpha" => {
            for p in img.pixels_mut() {
                p[3] = i(1) as u8;
            }
            "alpha-channel"
        }
        "clear" => {
            // the buffer was zeroed before it is filled again
            for p in img.pixels_mut() {
                *p = image::Rgba([0; 4]);
            }
            "cleared-buffer"
        }
        k @ ("finder" | "align") => {
            // a pattern with no symbol around it
            let (n, ms) = (if k == "finder" { 7 } else { 5 }, i(3).max(1));
            for y in 0..n * ms {
                for x in 0..n * ms {
                    let d = (x / ms - n / 2).abs().max((y / ms - n / 2).abs());
                    let dark = if k == "finder" { d != 2 } else { d != 1 };
                    let (px, py) = (i(1) + x, i(2) + y);
                    if px >= 0 && py >= 0 && px < w as i64 && py < h as i64 {
                        img.put_pixel(px as u32, py as u32, gray(if dark { 0 } else { 255 }));
                    }
                }
            }
            "false-pattern"
        }
        "crowd" => {
            // a grid of patterns without symbols: x, y, how many each way, how far apart, module size
            for gy in 0..i(3) {
                for gx in 0..i(3) {
                    disturb(img, &serde_json::json!(["finder", i(1) + gx * i(4), i(2) + gy * i(4), i(5)]));
                }
            }
            "crowd-of-false-patterns"
        }
        "bits" => {
            let mut r = Rng::new(i(1) as u64);
            let n = (w as usize * h as usize * 4).max(1);
            let raw: &mut [u8] = img;
            if !raw.is_empty() {
                for _ in 0..i(2) {
                    let k = r.below(n);
                    raw[k] ^= 1 << r.below(8);
                }
            }
            "bit-flips"
        }
        _ => "unknown",
    }
}
