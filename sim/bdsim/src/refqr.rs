//! Independent reference model of ISO/IEC 18004: the sender's side of the channel (encoder), the
//! layout of a symbol (which module carries which bit of which codeword), and a bounded-distance
//! Reed-Solomon / BCH decoder used as the oracle for damaged symbols.
//!
//! Nothing here is derived from bardecoder's source: field arithmetic is carry-less multiplication,
//! tables are the ISO ones in their compact form, decoding is Berlekamp-Massey.

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Level {
    L,
    M,
    Q,
    H,
}
pub const LEVELS: [Level; 4] = [Level::L, Level::M, Level::Q, Level::H];

impl Level {
    pub fn idx(self) -> usize {
        self as usize
    }
    fn format_bits(self) -> u16 {
        match self {
            Level::L => 1,
            Level::M => 0,
            Level::Q => 3,
            Level::H => 2,
        }
    }
    pub fn from_format_bits(b: u16) -> Level {
        match b {
            1 => Level::L,
            0 => Level::M,
            3 => Level::Q,
            _ => Level::H,
        }
    }
    pub fn name(self) -> &'static str {
        ["L", "M", "Q", "H"][self.idx()]
    }
    pub fn from_name(s: &str) -> Level {
        LEVELS[["L", "M", "Q", "H"].iter().position(|x| *x == s).unwrap()]
    }
}

const ECC_PER_BLOCK: [[u8; 40]; 4] = [
    [
        7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30,
        30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30,
    ],
    [
        10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28,
        28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28,
    ],
    [
        13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30,
        30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30,
    ],
    [
        17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30,
        30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30,
    ],
];

const NUM_BLOCKS: [[u8; 40]; 4] = [
    [
        1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13,
        14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25,
    ],
    [
        1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23,
        25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49,
    ],
    [
        1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29,
        34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68,
    ],
    [
        1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35,
        37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81,
    ],
];

pub fn ecc_per_block(version: usize, level: Level) -> usize {
    ECC_PER_BLOCK[level.idx()][version - 1] as usize
}

/// Number of codewords per block that ISO 18004 guarantees to be correctable (Table 9, "r").
/// In the small symbols some check codewords are reserved for misdecode protection.
pub fn capacity(version: usize, level: Level) -> usize {
    match (version, level) {
        (1, Level::L) => 2,
        (1, Level::M) => 4,
        (1, Level::Q) => 6,
        (1, Level::H) => 8,
        (2, Level::L) => 4,
        (3, Level::L) => 7,
        _ => ecc_per_block(version, level) / 2,
    }
}

pub fn side(version: usize) -> usize {
    4 * version + 17
}

fn raw_data_modules(v: usize) -> usize {
    let mut r = (16 * v + 128) * v + 64;
    if v >= 2 {
        let n = v / 7 + 2;
        r -= (25 * n - 10) * n - 55;
        if v >= 7 {
            r -= 36;
        }
    }
    r
}

/// (data codewords, total codewords) of each block, in order.
pub fn block_sizes(version: usize, level: Level) -> Vec<(usize, usize)> {
    let total = raw_data_modules(version) / 8;
    let n = NUM_BLOCKS[level.idx()][version - 1] as usize;
    let ecc = ecc_per_block(version, level);
    let short = n - total % n;
    (0..n)
        .map(|i| {
            let t = total / n + usize::from(i >= short);
            (t - ecc, t)
        })
        .collect()
}

pub fn data_codewords(version: usize, level: Level) -> usize {
    block_sizes(version, level).iter().map(|b| b.0).sum()
}

// ---------------------------------------------------------------- GF(256), polynomial 0x11D

const fn gmul_slow(a: u8, b: u8) -> u8 {
    let (mut a, mut b, mut r) = (a as u16, b as u16, 0u16);
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x100 != 0 {
            a ^= 0x11D;
        }
        b >>= 1;
    }
    r as u8
}

const fn gtable() -> [[u8; 256]; 256] {
    let mut t = [[0u8; 256]; 256];
    let mut a = 0;
    while a < 256 {
        let mut b = 0;
        while b < 256 {
            t[a][b] = gmul_slow(a as u8, b as u8);
            b += 1;
        }
        a += 1;
    }
    t
}
#[allow(long_running_const_eval)]
static GTABLE: [[u8; 256]; 256] = gtable();

#[inline]
pub fn gmul(a: u8, b: u8) -> u8 {
    GTABLE[a as usize][b as usize]
}

pub fn gpow(mut a: u8, mut e: u32) -> u8 {
    let mut r = 1u8;
    while e > 0 {
        if e & 1 == 1 {
            r = gmul(r, a);
        }
        a = gmul(a, a);
        e >>= 1;
    }
    r
}

pub fn ginv(a: u8) -> u8 {
    gpow(a, 254)
}

fn rs_generator(n: usize) -> Vec<u8> {
    // coefficients from x^(n-1) down to x^0, leading 1 implied
    let mut g = vec![0u8; n];
    g[n - 1] = 1;
    let mut root = 1u8;
    for _ in 0..n {
        for j in 0..n {
            g[j] = gmul(g[j], root);
            if j + 1 < n {
                g[j] ^= g[j + 1];
            }
        }
        root = gmul(root, 2);
    }
    g
}

thread_local! {
    static GENS: std::cell::RefCell<std::collections::BTreeMap<usize, Vec<u8>>> =
        const { std::cell::RefCell::new(std::collections::BTreeMap::new()) };
}

pub fn rs_encode(data: &[u8], n: usize) -> Vec<u8> {
    let g = GENS.with(|c| c.borrow_mut().entry(n).or_insert_with(|| rs_generator(n)).clone());
    let mut rem = vec![0u8; n];
    for d in data {
        let f = d ^ rem[0];
        rem.copy_within(1.., 0);
        rem[n - 1] = 0;
        for j in 0..n {
            rem[j] ^= gmul(g[j], f);
        }
    }
    rem
}

pub fn rs_syndromes(block: &[u8], n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| {
            let a = gpow(2, i as u32);
            block.iter().fold(0u8, |s, c| gmul(s, a) ^ c)
        })
        .collect()
}

/// The codeword within distance `t` of `block`, if there is one (unique because 2t <= n).
pub fn rs_decode(block: &[u8], n: usize, t: usize) -> Option<Vec<u8>> {
    let s = rs_syndromes(block, n);
    if s.iter().all(|x| *x == 0) {
        return Some(block.to_vec());
    }
    // Berlekamp-Massey
    let mut c = vec![1u8];
    let mut b = vec![1u8];
    let (mut l, mut m, mut bb) = (0usize, 1usize, 1u8);
    for i in 0..n {
        let mut d = s[i];
        for j in 1..=l {
            if j < c.len() {
                d ^= gmul(c[j], s[i - j]);
            }
        }
        if d == 0 {
            m += 1;
            continue;
        }
        let coef = gmul(d, ginv(bb));
        let tmp = c.clone();
        if c.len() < b.len() + m {
            c.resize(b.len() + m, 0);
        }
        for (j, v) in b.iter().enumerate() {
            c[j + m] ^= gmul(coef, *v);
        }
        if 2 * l <= i {
            l = i + 1 - l;
            b = tmp;
            bb = d;
            m = 1;
        } else {
            m += 1;
        }
    }
    while c.last() == Some(&0) {
        c.pop();
    }
    if l > t || c.len() != l + 1 {
        return None;
    }
    // Chien search over the positions that exist
    let len = block.len();
    let mut pos = vec![];
    for p in 0..len {
        let e = (len - 1 - p) as u32; // X = 2^e
        let xinv = ginv(gpow(2, e));
        let v = c.iter().rev().fold(0u8, |acc, k| gmul(acc, xinv) ^ k);
        if v == 0 {
            pos.push(p);
        }
    }
    if pos.len() != l {
        return None;
    }
    // Forney, by solving the Vandermonde system (independent of the derivative form)
    let xs: Vec<u8> = pos.iter().map(|p| gpow(2, (len - 1 - p) as u32)).collect();
    let mut a: Vec<Vec<u8>> = (0..l)
        .map(|i| {
            let mut row: Vec<u8> = xs.iter().map(|x| gpow(*x, i as u32)).collect();
            row.push(s[i]);
            row
        })
        .collect();
    for i in 0..l {
        let p = (i..l).find(|r| a[*r][i] != 0)?;
        a.swap(i, p);
        let inv = ginv(a[i][i]);
        for k in i..=l {
            a[i][k] = gmul(a[i][k], inv);
        }
        for r in 0..l {
            if r != i && a[r][i] != 0 {
                let f = a[r][i];
                for k in i..=l {
                    let v = gmul(f, a[i][k]);
                    a[r][k] ^= v;
                }
            }
        }
    }
    let mut out = block.to_vec();
    for (i, p) in pos.iter().enumerate() {
        if a[i][l] == 0 {
            return None;
        }
        out[*p] ^= a[i][l];
    }
    if rs_syndromes(&out, n).iter().any(|x| *x != 0) {
        return None;
    }
    Some(out)
}

// ---------------------------------------------------------------- format information

pub fn format_codeword(level: Level, mask: usize) -> u16 {
    let data = (level.format_bits() << 3) | mask as u16;
    let mut rem = data;
    for _ in 0..10 {
        rem = (rem << 1) ^ (((rem >> 9) & 1) * 0x537);
    }
    (data << 10 | rem) ^ 0x5412
}

/// The format codeword within Hamming distance 3 of `bits`, if any (minimum distance is 7).
pub fn format_decode(bits: u16) -> Option<(Level, usize)> {
    for d in 0..32u16 {
        let level = Level::from_format_bits(d >> 3);
        let mask = (d & 7) as usize;
        if (format_codeword(level, mask) ^ bits).count_ones() <= 3 {
            return Some((level, mask));
        }
    }
    None
}

pub fn mask_bit(mask: usize, x: usize, y: usize) -> bool {
    let (i, j) = (y, x);
    (match mask {
        0 => (i + j) % 2,
        1 => i % 2,
        2 => j % 3,
        3 => (i + j) % 3,
        4 => (i / 2 + j / 3) % 2,
        5 => (i * j) % 2 + (i * j) % 3,
        6 => ((i * j) % 2 + (i * j) % 3) % 2,
        _ => ((i + j) % 2 + (i * j) % 3) % 2,
    }) == 0
}

// ---------------------------------------------------------------- layout

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Finder,
    Separator,
    Timing,
    Alignment,
    Dark,
    VersionInfo,
    /// copy (1|2), bit number 14..0 (14 = most significant)
    Format(u8, u8),
    /// block, index within block, bit number 7..0
    Code(u16, u16, u8),
    Remainder,
}

pub fn alignment_positions(v: usize) -> Vec<usize> {
    if v == 1 {
        return vec![];
    }
    let n = v / 7 + 2;
    let step = if v == 32 {
        26
    } else {
        (v * 4 + n * 2 + 1) / (n * 2 - 2) * 2
    };
    let mut r = vec![6];
    let mut rest: Vec<usize> = (0..n - 1).map(|i| side(v) - 7 - i * step).collect();
    rest.reverse();
    r.extend(rest);
    r
}

#[derive(Clone)]
pub struct Layout {
    pub version: usize,
    pub level: Level,
    pub n: usize,
    /// row major, index y * n + x
    pub kind: Vec<Kind>,
    /// fixed colour of function modules (true = black); meaningless for Format/Code/Remainder
    pub fixed: Vec<bool>,
    pub blocks: Vec<(usize, usize)>,
    /// where[block][codeword][bit 7..0] = module index
    pub at: Vec<Vec<[u32; 8]>>,
    /// format module of copy c (0|1), bit b
    pub fmt: [[u32; 15]; 2],
}

impl Layout {
    pub fn new(version: usize, level: Level) -> Layout {
        let n = side(version);
        let mut kind: Vec<Option<Kind>> = vec![None; n * n];
        let mut fixed = vec![false; n * n];
        // timing
        for i in 0..n {
            for (x, y) in [(i, 6), (6, i)] {
                kind[y * n + x] = Some(Kind::Timing);
                fixed[y * n + x] = i % 2 == 0;
            }
        }
        // finders and separators
        for (cx, cy) in [(3i64, 3i64), (n as i64 - 4, 3), (3, n as i64 - 4)] {
            for dy in -4i64..=4 {
                for dx in -4i64..=4 {
                    let (x, y) = (cx + dx, cy + dy);
                    if x < 0 || y < 0 || x >= n as i64 || y >= n as i64 {
                        continue;
                    }
                    let d = dx.abs().max(dy.abs());
                    let k = y as usize * n + x as usize;
                    kind[k] = Some(if d == 4 { Kind::Separator } else { Kind::Finder });
                    fixed[k] = d != 2 && d != 4;
                }
            }
        }
        // alignment
        let ap = alignment_positions(version);
        for (i, cx) in ap.iter().enumerate() {
            for (j, cy) in ap.iter().enumerate() {
                let last = ap.len() - 1;
                if (i == 0 && j == 0) || (i == 0 && j == last) || (i == last && j == 0) {
                    continue;
                }
                for dy in -2i64..=2 {
                    for dx in -2i64..=2 {
                        let k = (*cy as i64 + dy) as usize * n + (*cx as i64 + dx) as usize;
                        kind[k] = Some(Kind::Alignment);
                        fixed[k] = dx.abs().max(dy.abs()) != 1;
                    }
                }
            }
        }
        // version information
        if version >= 7 {
            let mut rem = version as u32;
            for _ in 0..12 {
                rem = (rem << 1) ^ ((rem >> 11) * 0x1F25);
            }
            let bits = (version as u32) << 12 | rem;
            for i in 0..18 {
                let b = (bits >> i) & 1 == 1;
                let (a, c) = (n - 11 + i % 3, i / 3);
                for k in [c * n + a, a * n + c] {
                    kind[k] = Some(Kind::VersionInfo);
                    fixed[k] = b;
                }
            }
        }
        // format information: bit i (0 = least significant)
        let mut fmt = [[0u32; 15]; 2];
        for i in 0..15usize {
            let (x, y) = match i {
                0..=5 => (8, i),
                6 => (8, 7),
                7 => (8, 8),
                8 => (7, 8),
                _ => (14 - i, 8),
            };
            fmt[0][i] = (y * n + x) as u32;
            kind[y * n + x] = Some(Kind::Format(1, i as u8));
            let (x, y) = if i < 8 { (n - 1 - i, 8) } else { (8, n - 15 + i) };
            fmt[1][i] = (y * n + x) as u32;
            kind[y * n + x] = Some(Kind::Format(2, i as u8));
        }
        kind[(n - 8) * n + 8] = Some(Kind::Dark);
        fixed[(n - 8) * n + 8] = true;

        // data, zigzag
        let blocks = block_sizes(version, level);
        let mut order = vec![]; // transmission order of codewords: (block, idx)
        let maxd = blocks.iter().map(|b| b.0).max().unwrap();
        for i in 0..maxd {
            for (b, (d, _)) in blocks.iter().enumerate() {
                if i < *d {
                    order.push((b, i));
                }
            }
        }
        let ecc = ecc_per_block(version, level);
        for i in 0..ecc {
            for (b, (d, _)) in blocks.iter().enumerate() {
                order.push((b, d + i));
            }
        }
        let mut at: Vec<Vec<[u32; 8]>> = blocks.iter().map(|b| vec![[0; 8]; b.1]).collect();
        let mut k = 0usize;
        let mut right = n as i64 - 1;
        let mut upward = true;
        while right >= 1 {
            if right == 6 {
                right = 5;
            }
            for v in 0..n {
                for j in 0..2 {
                    let x = (right - j) as usize;
                    let y = if upward { n - 1 - v } else { v };
                    if kind[y * n + x].is_none() {
                        if k / 8 < order.len() {
                            let (b, c) = order[k / 8];
                            let bit = 7 - (k % 8) as u8;
                            kind[y * n + x] = Some(Kind::Code(b as u16, c as u16, bit));
                            at[b][c][bit as usize] = (y * n + x) as u32;
                        } else {
                            kind[y * n + x] = Some(Kind::Remainder);
                        }
                        k += 1;
                    }
                }
            }
            upward = !upward;
            right -= 2;
        }
        Layout {
            version,
            level,
            n,
            kind: kind.into_iter().map(|k| k.unwrap()).collect(),
            fixed,
            blocks,
            at,
            fmt,
        }
    }
}

// ---------------------------------------------------------------- segments

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Segment {
    Numeric(String),
    Alnum(String),
    Byte(Vec<u8>),
}

pub const ALNUM: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

pub struct Bits(pub Vec<bool>);
impl Bits {
    pub fn put(&mut self, v: u32, n: usize) {
        for i in (0..n).rev() {
            self.0.push((v >> i) & 1 == 1);
        }
    }
}

pub fn count_bits(mode: u8, version: usize) -> usize {
    let c = if version < 10 {
        0
    } else if version < 27 {
        1
    } else {
        2
    };
    match mode {
        1 => [10, 12, 14][c],
        2 => [9, 11, 13][c],
        _ => [8, 16, 16][c],
    }
}

impl Segment {
    pub fn put(&self, b: &mut Bits, version: usize) {
        match self {
            Segment::Numeric(s) => {
                b.put(1, 4);
                b.put(s.len() as u32, count_bits(1, version));
                let d = s.as_bytes();
                for c in d.chunks(3) {
                    let v = c.iter().fold(0u32, |a, x| a * 10 + (x - b'0') as u32);
                    b.put(v, [0, 4, 7, 10][c.len()]);
                }
            }
            Segment::Alnum(s) => {
                b.put(2, 4);
                b.put(s.len() as u32, count_bits(2, version));
                let idx = |x: &u8| ALNUM.iter().position(|a| a == x).unwrap() as u32;
                for c in s.as_bytes().chunks(2) {
                    if c.len() == 2 {
                        b.put(idx(&c[0]) * 45 + idx(&c[1]), 11);
                    } else {
                        b.put(idx(&c[0]), 6);
                    }
                }
            }
            Segment::Byte(d) => {
                b.put(4, 4);
                b.put(d.len() as u32, count_bits(4, version));
                for x in d {
                    b.put(*x as u32, 8);
                }
            }
        }
    }
    pub fn bits(&self, version: usize) -> usize {
        match self {
            Segment::Numeric(s) => {
                4 + count_bits(1, version) + s.len() / 3 * 10 + [0, 4, 7][s.len() % 3]
            }
            Segment::Alnum(s) => 4 + count_bits(2, version) + s.len() / 2 * 11 + s.len() % 2 * 6,
            Segment::Byte(d) => 4 + count_bits(4, version) + d.len() * 8,
        }
    }
    /// The text a receiver has to deliver for this segment. Byte segments are ISO-8859-1 unless they
    /// hold the byte 0xC3, in which case they are UTF-8 (the library's documented-by-code rule).
    pub fn text(&self) -> Option<String> {
        match self {
            Segment::Numeric(s) | Segment::Alnum(s) => Some(s.clone()),
            Segment::Byte(d) => {
                if d.contains(&0xC3) {
                    String::from_utf8(d.clone()).ok()
                } else {
                    Some(d.iter().map(|b| *b as char).collect())
                }
            }
        }
    }
}

/// What a data bit stream means. None: the stream is not a well-formed sequence of segments.
pub fn parse_stream(data: &[u8], version: usize) -> Option<String> {
    let total = data.len() * 8;
    let mut pos = 0usize;
    let get = |pos: &mut usize, n: usize| -> Option<u32> {
        if *pos + n > total {
            return None;
        }
        let mut v = 0u32;
        for _ in 0..n {
            v = v << 1 | (data[*pos / 8] >> (7 - *pos % 8) & 1) as u32;
            *pos += 1;
        }
        Some(v)
    };
    let mut out = String::new();
    loop {
        if total - pos < 4 {
            return Some(out);
        }
        match get(&mut pos, 4)? {
            0 => return Some(out),
            1 => {
                let mut len = get(&mut pos, count_bits(1, version))?;
                while len > 0 {
                    let k = len.min(3) as usize;
                    let v = get(&mut pos, [0, 4, 7, 10][k])?;
                    if v >= 10u32.pow(k as u32) {
                        return None;
                    }
                    out.push_str(&format!("{:0w$}", v, w = k));
                    len -= k as u32;
                }
            }
            2 => {
                let mut len = get(&mut pos, count_bits(2, version))?;
                while len > 0 {
                    if len >= 2 {
                        let v = get(&mut pos, 11)? as usize;
                        if v >= 45 * 45 {
                            return None;
                        }
                        out.push(ALNUM[v / 45] as char);
                        out.push(ALNUM[v % 45] as char);
                        len -= 2;
                    } else {
                        let v = get(&mut pos, 6)? as usize;
                        if v >= 45 {
                            return None;
                        }
                        out.push(ALNUM[v] as char);
                        len -= 1;
                    }
                }
            }
            4 => {
                let len = get(&mut pos, count_bits(4, version))?;
                let mut d = vec![];
                for _ in 0..len {
                    d.push(get(&mut pos, 8)? as u8);
                }
                out.push_str(&Segment::Byte(d).text()?);
            }
            _ => return None,
        }
    }
}

// ---------------------------------------------------------------- symbols

#[derive(Clone)]
pub struct Symbol {
    pub version: usize,
    pub level: Level,
    pub mask: usize,
    pub n: usize,
    /// true = black, row major
    pub modules: Vec<bool>,
    pub layout: std::sync::Arc<Layout>,
}

/// Turn a bit stream into full data codewords: terminator, zero fill, pad bytes.
pub fn finish_stream(mut b: Bits, cap: usize) -> Vec<u8> {
    assert!(b.0.len() <= cap * 8, "payload does not fit");
    let term = (cap * 8 - b.0.len()).min(4);
    b.put(0, term);
    while b.0.len() % 8 != 0 {
        b.0.push(false);
    }
    let mut out: Vec<u8> = b
        .0
        .chunks(8)
        .map(|c| c.iter().fold(0u8, |a, x| a << 1 | *x as u8))
        .collect();
    let mut pad = [0xEC, 0x11].iter().cycle();
    while out.len() < cap {
        out.push(*pad.next().unwrap());
    }
    out
}

impl Symbol {
    /// Lay out the given data codewords (exactly as many as the symbol holds).
    pub fn from_data(layout: std::sync::Arc<Layout>, mask: usize, data: &[u8]) -> Symbol {
        let (version, level, n) = (layout.version, layout.level, layout.n);
        let ecc = ecc_per_block(version, level);
        let mut modules = layout.fixed.clone();
        let mut off = 0;
        for (b, (d, _)) in layout.blocks.iter().enumerate() {
            let mut cw = data[off..off + d].to_vec();
            off += d;
            cw.extend(rs_encode(&cw, ecc));
            for (c, byte) in cw.iter().enumerate() {
                for bit in 0..8 {
                    modules[layout.at[b][c][bit] as usize] = byte >> bit & 1 == 1;
                }
            }
        }
        assert_eq!(off, data.len());
        let f = format_codeword(level, mask);
        for i in 0..n * n {
            match layout.kind[i] {
                Kind::Code(..) | Kind::Remainder => {
                    let v = if layout.kind[i] == Kind::Remainder {
                        false
                    } else {
                        modules[i]
                    };
                    modules[i] = v ^ mask_bit(mask, i % n, i / n);
                }
                Kind::Format(_, b) => modules[i] = f >> b & 1 == 1,
                _ => {}
            }
        }
        Symbol {
            version,
            level,
            mask,
            n,
            modules,
            layout,
        }
    }

    /// The module colours as the decoder's extract step hands them over: 0 = black, 255 = white.
    pub fn pixels(&self) -> Vec<u8> {
        self.modules.iter().map(|m| if *m { 0 } else { 255 }).collect()
    }
}

/// What a receiver limited to the guarantees of the standard makes of the (damaged) modules.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Received {
    pub level: Level,
    pub mask: usize,
    pub data: Vec<u8>,
    /// bits of codewords that differ between what was received and the corrected codewords
    pub bit_errors: u32,
    pub max_block_errors: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RefFail {
    Format,
    /// a block is not within `capacity` (but maybe within ecc/2) of a codeword
    Block(usize),
}

pub fn read_format(modules: &[bool], layout: &Layout, copy: usize) -> u16 {
    (0..15).fold(0u16, |a, b| {
        a | (modules[layout.fmt[copy][b] as usize] as u16) << b
    })
}

/// How far the receiver corrects: what the standard guarantees, or all that is unambiguous.
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum Reach {
    Guaranteed,
    Maximal,
}

/// The level and mask a receiver reads: the first copy, or the second if the first is unreadable.
pub fn received_format(modules: &[bool], version: usize) -> Option<(Level, usize)> {
    let l0 = layout(version, Level::L);
    format_decode(read_format(modules, &l0, 0)).or_else(|| format_decode(read_format(modules, &l0, 1)))
}

pub fn reference_receive(
    modules: &[bool],
    version: usize,
    format: Option<(Level, usize)>,
    reach: Reach,
) -> Result<Received, RefFail> {
    let (level, mask) = format.ok_or(RefFail::Format)?;
    let lay = layout(version, level);
    let n = lay.n;
    let ecc = ecc_per_block(version, level);
    let mut data = vec![];
    let mut bit_errors = 0;
    let mut max_block_errors = 0;
    for (b, (d, t)) in lay.blocks.iter().enumerate() {
        let mut cw = vec![0u8; *t];
        for (c, byte) in cw.iter_mut().enumerate() {
            for bit in 0..8 {
                let k = lay.at[b][c][bit] as usize;
                *byte |= ((modules[k] ^ mask_bit(mask, k % n, k / n)) as u8) << bit;
            }
        }
        let t = match reach {
            Reach::Guaranteed => capacity(version, level),
            Reach::Maximal => ecc / 2,
        };
        let fixed = rs_decode(&cw, ecc, t).ok_or(RefFail::Block(b))?;
        let mut be = 0;
        for (a, z) in cw.iter().zip(&fixed) {
            bit_errors += (a ^ z).count_ones();
            be += usize::from(a != z);
        }
        max_block_errors = max_block_errors.max(be);
        data.extend_from_slice(&fixed[..*d]);
    }
    Ok(Received {
        level,
        mask,
        data,
        bit_errors,
        max_block_errors,
    })
}

use std::sync::Arc;
thread_local! {
    static LAYOUTS: std::cell::RefCell<std::collections::BTreeMap<(usize, Level), Arc<Layout>>> =
        const { std::cell::RefCell::new(std::collections::BTreeMap::new()) };
}

/// Cached layout (harness side only).
pub fn layout(version: usize, level: Level) -> Arc<Layout> {
    LAYOUTS.with(|l| {
        l.borrow_mut()
            .entry((version, level))
            .or_insert_with(|| Arc::new(Layout::new(version, level)))
            .clone()
    })
}

/// Pieces of real labels.
const PHRASES: [&[u8]; 18] = [
    b"http://", b"https://example.org/?q=%20&r=a+b#", b"WIFI:T:WPA;S:net;P:\\;\\:;;", b"BEGIN:VCARD\r\nVERSION:3.0\r\n", b"\r\n",
    b"\xEF\xBB\xBF", b"mailto:", b"tel:+49", b"(01)09506000134352", b"]C1", b"\\000026", b"\\\\", b"%%", b"  ", b"\n\n", b"{}", b"<&>\"'", b"null",
];
/// Characters of UTF-8 that are easily mistreated.
const EXOTIC: [char; 16] = [
    '\0', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{fffd}', '\u{feff}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}',
    '\u{301}', '\u{200d}', '\n',
];

/// Random segments that fit into the symbol. `fill`: how much of the capacity to aim for.
pub fn random_segments(
    rng: &mut crate::rng::Rng,
    version: usize,
    level: Level,
    fill: f64,
) -> Vec<Segment> {
    let cap = data_codewords(version, level) * 8;
    let goal = (cap as f64 * fill) as usize;
    let mut used = 0;
    let mut out: Vec<Segment> = vec![];
    let max_segs = 1 + rng.below(5);
    for k in 0..max_segs {
        let mode = [1u8, 2, 4, 4][rng.below(4)];
        let head = 4 + count_bits(mode, version);
        let limit = if rng.chance(0.15) { cap } else { goal.max(head).min(cap) };
        if used + head > limit {
            break;
        }
        let room = limit - used - head;
        let max_chars = match mode {
            1 => {
                room / 10 * 3
                    + if room % 10 >= 7 {
                        2
                    } else if room % 10 >= 4 {
                        1
                    } else {
                        0
                    }
            }
            2 => room / 11 * 2 + usize::from(room % 11 >= 6),
            _ => (room / 8).min((1 << count_bits(4, version)) - 1),
        };
        let max_chars = max_chars.min((1usize << count_bits(mode, version)) - 1);
        let len = if k + 1 == max_segs || rng.chance(0.3) {
            max_chars
        } else {
            rng.below(max_chars + 1)
        };
        let seg = match mode {
            1 => {
                let same = rng.chance(0.08).then(|| [0, 9, 1, rng.below(10)][rng.below(4)]);
                Segment::Numeric((0..len).map(|_| (b'0' + same.unwrap_or_else(|| rng.below(10)) as u8) as char).collect())
            }
            2 => {
                let same = rng.chance(0.08).then(|| [36, 44, 0, rng.below(45)][rng.below(4)]);
                Segment::Alnum((0..len).map(|_| ALNUM[same.unwrap_or_else(|| rng.below(45))] as char).collect())
            }
            _ => {
                let style = rng.below(6);
                let mut d: Vec<u8> = vec![];
                match style {
                    0 | 1 => d.extend((0..len).map(|_| 32 + rng.below(95) as u8)),
                    2 => {
                        // ISO 8859-1, without the byte that switches to UTF-8
                        while d.len() < len {
                            let b = rng.below(256) as u8;
                            if b != 0xC3 {
                                d.push(b);
                            }
                        }
                    }
                    3 => {
                        // what is found on real labels, and words that mean something to the code
                        while d.len() < len {
                            let words = crate::gen::words();
                            let w: &[u8] = match rng.below(4) {
                                0 if !words.is_empty() => words[rng.below(words.len())].as_bytes(),
                                1 => &[[9, 10, 13, 29, 30, 4, 0, 127, 0x80, 0xA0, 0xAD, 0xFF][rng.below(12)]],
                                _ => PHRASES[rng.below(PHRASES.len())],
                            };
                            if d.len() + w.len() <= len {
                                d.extend(w);
                            } else {
                                d.push(b"\0 \n\r0aZ\x1d"[rng.below(8)]);
                            }
                        }
                    }
                    _ => {
                        // UTF-8 with at least one character of U+00C0..U+00FF
                        if len >= 5 && rng.chance(0.2) {
                            d.extend("\u{feff}".as_bytes());
                        }
                        if len >= 2 {
                            d.extend("é".as_bytes());
                        }
                        while d.len() < len {
                            let c = match rng.below(6) {
                                5 => EXOTIC[rng.below(EXOTIC.len())],
                                0 => char::from_u32(0xC0 + rng.below(0x40) as u32).unwrap(),
                                1 => char::from_u32(0x3B1 + rng.below(24) as u32).unwrap(),
                                2 => char::from_u32(0x4E00 + rng.below(5000) as u32).unwrap(),
                                _ => (32 + rng.below(95) as u8) as char,
                            };
                            let mut buf = [0; 4];
                            let e = c.encode_utf8(&mut buf).as_bytes();
                            if d.len() + e.len() <= len {
                                d.extend(e);
                            } else {
                                d.push(b'.');
                            }
                        }
                    }
                }
                Segment::Byte(d)
            }
        };
        used += seg.bits(version);
        debug_assert!(used <= cap);
        out.push(seg);
        if used >= goal {
            break;
        }
    }
    out
}

/// As many segments as there is room for, each next to empty.
pub fn crumbs(rng: &mut crate::rng::Rng, version: usize, level: Level) -> Vec<Segment> {
    let cap = data_codewords(version, level) * 8;
    let most = rng.below(3);
    let modes: Vec<u8> = (0..1 + rng.below(3)).map(|_| [1u8, 2, 4][rng.below(3)]).collect();
    let mut used = 0;
    let mut out = vec![];
    loop {
        let len = rng.below(most + 1);
        let g = match modes[rng.below(modes.len())] {
            1 => Segment::Numeric((0..len).map(|_| (b'0' + rng.below(10) as u8) as char).collect()),
            2 => Segment::Alnum((0..len).map(|_| ALNUM[rng.below(45)] as char).collect()),
            _ => Segment::Byte((0..len).map(|_| 32 + rng.below(95) as u8).collect()),
        };
        used += g.bits(version);
        if used > cap {
            return out;
        }
        out.push(g);
    }
}

pub fn text_of(segs: &[Segment]) -> Option<String> {
    let mut s = String::new();
    for g in segs {
        s.push_str(&g.text()?);
    }
    Some(s)
}

pub fn encode(segs: &[Segment], version: usize, level: Level, mask: usize) -> Symbol {
    let mut b = Bits(vec![]);
    for s in segs {
        s.put(&mut b, version);
    }
    let data = finish_stream(b, data_codewords(version, level));
    Symbol::from_data(layout(version, level), mask, &data)
}
