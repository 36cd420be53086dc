//! Image model: generation, encoding and comparison with a decoded tree.
use crate::canvas::{self, CanvasM};
use crate::crypt;
use crate::rng::Rng;
use crate::stats::Stats;
use std::collections::HashMap;
use wz_reader::property::{WzSoundType, WzSubProperty, WzValue};
use wz_reader::{WzNodeArc, WzNodeCast, WzObjectType};

pub type Kids = Vec<(String, V)>;

#[derive(Clone, Debug)]
pub struct SoundM {
    pub duration: i32,
    pub header: Vec<u8>,
    pub data: Vec<u8>,
}
impl SoundM {
    pub fn kind(&self) -> WzSoundType {
        if self.header.len() != 0x46 {
            return WzSoundType::Mp3;
        }
        let f = u32::from_le_bytes(self.header[0x38..0x3c].try_into().unwrap());
        if f == self.data.len() as u32 && self.duration == 1000 {
            WzSoundType::Binary
        } else {
            WzSoundType::Wav
        }
    }
    /// the bytes extraction must deliver
    pub fn payload(&self) -> Vec<u8> {
        if self.kind() != WzSoundType::Wav {
            return self.data.clone();
        }
        let n = self.data.len() as u32;
        let mut v = b"RIFF".to_vec();
        v.extend_from_slice(&(n + 36).to_le_bytes());
        v.extend_from_slice(b"WAVEfmt ");
        v.extend_from_slice(&16u32.to_le_bytes());
        v.extend_from_slice(&self.header[0x34..0x44]);
        v.extend_from_slice(b"data");
        v.extend_from_slice(&n.to_le_bytes());
        v.extend_from_slice(&self.data);
        v
    }
}

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Short(i16),
    Int(i32),
    Long(i64),
    Float(f32),
    Double(f64),
    Str(String),
    Uol(String),
    Vector(i32, i32),
    Convex(Vec<V>),
    Prop(Kids),
    Canvas(CanvasM, Option<Kids>),
    Sound(SoundM),
    Raw(u8, Option<Kids>, Vec<u8>),
    Video(Vec<u8>),
    Unknown(String, Vec<u8>),
    /// a type byte outside the format; reads as an empty value once that byte is repaired to 0
    Bad,
}

impl V {
    pub fn kind(&self) -> &'static str {
        match self {
            V::Null => "null",
            V::Short(_) => "short",
            V::Int(_) => "int",
            V::Long(_) => "long",
            V::Float(_) => "float",
            V::Double(_) => "double",
            V::Str(_) => "string",
            V::Uol(_) => "uol",
            V::Vector(..) => "vector",
            V::Convex(_) => "convex",
            V::Prop(_) => "property",
            V::Canvas(..) => "canvas",
            V::Sound(_) => "sound",
            V::Raw(..) => "raw",
            V::Video(_) => "video",
            V::Unknown(..) => "unknown",
            V::Bad => "bad",
        }
    }
    /// named children in stored order
    pub fn kids(&self) -> Vec<(String, &V)> {
        match self {
            V::Prop(k) | V::Canvas(_, Some(k)) | V::Raw(_, Some(k), _) => k.iter().map(|(n, v)| (n.clone(), v)).collect(),
            V::Convex(l) => l.iter().enumerate().map(|(i, v)| (i.to_string(), v)).collect(),
            _ => vec![],
        }
    }
}

/// The three image flavours.
#[derive(Clone, Debug)]
pub enum Img {
    Props(Kids),
    Lua(Vec<u8>, &'static str), // plain text, cipher
    Txt(Vec<u8>),               // whole block is the payload (name ends with .txt)
    Pack(Vec<u8>),              // "#Property" + payload
}

// ---------------------------------------------------------------- generation

pub struct GenCfg {
    pub max_depth: usize,
    pub budget: usize,
    pub canvases: bool,
    pub uol: bool,
    pub special_names: bool,
    pub unknown: bool,
    pub blobs: usize,
    pub wide: bool,
}
impl Default for GenCfg {
    fn default() -> Self {
        GenCfg { max_depth: 5, budget: 60, canvases: true, uol: true, special_names: true, unknown: true, blobs: 300, wide: false }
    }
}

pub fn gen_text(rng: &mut Rng) -> String {
    let n = match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => *rng.pick(&[126usize, 127, 128, 129, 130, 255, 256]),
        3 => rng.below(600),
        4 => {
            if rng.chance(1, 12) {
                *rng.pick(&[4095usize, 4096, 4097, 5000, 9000])
            } else {
                rng.below(60)
            }
        }
        _ => 1 + rng.below(24),
    };
    gen_text_n(rng, n)
}
pub fn gen_text_n(rng: &mut Rng, n: usize) -> String {
    let mode = rng.below(5);
    let mut s = String::new();
    for _ in 0..n {
        let c = match mode {
            0 | 1 => (0x20 + rng.below(0x5f) as u8) as char,
            2 => (rng.below(0x80) as u8) as char,
            3 => {
                let pools: [(u32, u32); 6] =
                    [(0xAC00, 0xD7A3), (0x4E00, 0x9FFF), (0x3040, 0x30FF), (0xA0, 0x17F), (0x20, 0x7e), (0x400, 0x4ff)];
                let (a, b) = *rng.pick(&pools);
                char::from_u32(a + rng.below((b - a + 1) as usize) as u32).unwrap_or('x')
            }
            _ => {
                if rng.chance(1, 6) {
                    char::from_u32(0x1F300 + rng.below(0x200) as u32).unwrap()
                } else if rng.chance(1, 6) {
                    *rng.pick(&['\u{FFFF}', '\u{FFFD}', '\u{E000}', '\u{1}', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{AAAA}'])
                } else {
                    (0x20 + rng.below(0x5f) as u8) as char
                }
            }
        };
        s.push(c);
    }
    s
}

/// A sibling-unique name without '/' (path separator), not "" and not "..".
pub fn gen_name(rng: &mut Rng, used: &mut std::collections::HashSet<String>, special: bool) -> String {
    loop {
        let mut s = match rng.below(10) {
            0..=2 => rng.below(200).to_string(),
            3 => {
                if special {
                    rng.pick(&["_inlin", "origin", "z", "delay", "head", "0_outlink", "link", "Property", "Canvas", "UOL", "x", "y"]).to_string()
                } else {
                    format!("n{}", rng.below(50))
                }
            }
            4 if special => {
                let n = *rng.pick(&[1usize, 2, 10, 126, 127, 128, 129, 200]);
                gen_text_n(rng, n)
            }
            5 if special => gen_text(rng),
            6 => format!("{}.img", rng.below(30)),
            _ => {
                let n = 1 + rng.below(12);
                (0..n).map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-. ") as char).collect()
            }
        };
        s = s.replace('/', "|");
        if s.is_empty() || s == ".." || s == "." || s == "_inlink" || s == "_outlink" {
            s = format!("e{}", rng.below(100));
        }
        if used.insert(s.clone()) {
            return s;
        }
    }
}

pub fn gen_kids(rng: &mut Rng, cfg: &GenCfg, depth: usize, budget: &mut usize, iv: [u8; 4]) -> Kids {
    let want = if cfg.wide && depth == 0 && rng.chance(1, 10) {
        130 + rng.below(200)
    } else {
        match rng.below(6) {
            0 => 0,
            1 => 1,
            _ => 1 + rng.below(9),
        }
    };
    let n = if depth == 0 { want.max(1) } else { want.min(*budget) };
    *budget = budget.saturating_sub(n);
    let mut used = Default::default();
    (0..n)
        .map(|_| {
            let name = gen_name(rng, &mut used, cfg.special_names);
            let v = gen_v(rng, cfg, depth, budget, iv);
            (name, v)
        })
        .collect()
}

fn gen_v(rng: &mut Rng, cfg: &GenCfg, depth: usize, budget: &mut usize, iv: [u8; 4]) -> V {
    loop {
        let k = rng.below(24);
        return match k {
            0 => V::Null,
            1 => V::Short(*rng.pick(&[0, 1, -1, i16::MAX, i16::MIN, 127, 128, -128, 0x1234])),
            2 => V::Short(rng.u32() as i16),
            3 | 4 => V::Int(rng.i32x()),
            5 => V::Long(rng.i64x()),
            6 => V::Float(match rng.below(5) {
                4 => rng.below(256) as f32,
                0 => 0.0,
                1 => *rng.pick(&[1.0, -0.0, f32::MIN_POSITIVE, f32::MAX, -1.5, 1e-40, 16777217.0]),
                2 => f32::from_bits(rng.u32()),
                _ => rng.below(1000) as f32 / 8.0,
            }),
            7 => V::Double(match rng.below(3) {
                0 => *rng.pick(&[0.0, -0.0, 1.0, f64::MAX, f64::MIN_POSITIVE, 1e-310]),
                1 => f64::from_bits(rng.u64()),
                _ => rng.below(100000) as f64 / 64.0,
            }),
            8 if rng.chance(1, 500) => {
                let n = *rng.pick(&[21846usize, 32767, 32768, 65535, 65536, 65537, 70000]);
                V::Str(gen_text_n(rng, n))
            }
            8..=10 => V::Str(gen_text(rng)),
            11 | 12 => V::Vector(rng.i32x(), rng.i32x()),
            13 => {
                let n = if rng.chance(1, 20) { 130 } else { rng.below(6) };
                V::Convex(
                    (0..n)
                        .map(|i| match rng.below(12) {
                            0 if depth + 1 < cfg.max_depth && *budget > 0 => V::Prop(gen_kids(rng, cfg, depth + 1, budget, iv)),
                            1 if cfg.uol => V::Uol(format!("../{}nowhere{}", rng.below(9), i)),
                            _ => V::Vector(rng.i32x(), rng.i32x()),
                        })
                        .collect(),
                )
            }
            14..=17 if depth + 1 < cfg.max_depth && *budget > 0 => V::Prop(gen_kids(rng, cfg, depth + 1, budget, iv)),
            18 | 19 if cfg.canvases => {
                let f = *rng.pick(canvas::FORMATS);
                let (w, h) = canvas::gen_size(rng, f, 12);
                let c = canvas::gen(rng, iv, f, w, h);
                let kids = if depth + 1 < cfg.max_depth && *budget > 0 && rng.chance(2, 3) {
                    Some(gen_kids(rng, cfg, depth + 1, budget, iv))
                } else {
                    None
                };
                V::Canvas(c, kids)
            }
            20 if cfg.blobs > 0 => gen_sound(rng, cfg.blobs),
            21 if cfg.blobs > 0 => {
                let ver = *rng.pick(&[0u8, 0, 1, 1, 1, 2]);
                let kids = if ver == 1 && depth + 1 < cfg.max_depth && *budget > 0 && rng.chance(1, 2) {
                    Some(gen_kids(rng, cfg, depth + 1, budget, iv))
                } else {
                    None
                };
                let n = blob_len(rng, cfg.blobs);
                V::Raw(ver, kids, rng.bytes(n))
            }
            22 if cfg.blobs > 0 => {
                let n = blob_len(rng, cfg.blobs);
                V::Video(rng.bytes(n))
            }
            23 => {
                if cfg.unknown && rng.chance(1, 2) {
                    let n = rng.below(60);
                    V::Unknown(rng.pick(&["Foo", "Canvas2", "property", "Shape2D#Poly", "Sound", "", "UOL "]).to_string(), rng.bytes(n))
                } else if cfg.uol {
                    V::Uol(format!("../{}x{}", "../".repeat(rng.below(4)), 1000 + rng.below(1000)))
                } else {
                    continue;
                }
            }
            _ => continue,
        };
    }
}

fn blob_len(rng: &mut Rng, max: usize) -> usize {
    if max >= 40 && rng.chance(1, 400) {
        *rng.pick(&[32768usize, 65535, 65536, 65537, 70000, 131072])
    } else {
        rng.below(max)
    }
}

/// tens of thousands of small properties
pub fn gen_many(rng: &mut Rng, n: usize) -> Kids {
    (0..n)
        .map(|i| {
            let v = match rng.below(5) {
                0 => V::Null,
                1 => V::Short(rng.u32() as i16),
                2 => V::Str(format!("s{}", rng.below(9))),
                _ => V::Int(rng.i32x()),
            };
            (format!("k{i}"), v)
        })
        .collect()
}

pub fn gen_sound(rng: &mut Rng, max: usize) -> V {
    let n = blob_len(rng, max.max(1));
    let data = rng.bytes(n);
    let hl = *rng.pick(&[0x46usize, 0x46, 0x46, 0, 0x10, 0x3b, 0x3c, 0x3d, 0x45, 0x47, 0x52, 0x60, 0x50]);
    let mut header = rng.bytes(hl);
    let mut duration = rng.i32x().max(0);
    if hl >= 0x3c {
        match rng.below(4) {
            0 => {
                header[0x38..0x3c].copy_from_slice(&(n as u32).to_le_bytes());
                duration = 1000;
            }
            1 => header[0x38..0x3c].copy_from_slice(&(n as u32).to_le_bytes()),
            2 => duration = 1000,
            _ => {}
        }
    }
    V::Sound(SoundM { duration, header, data })
}

// ---------------------------------------------------------------- encoding

/// Byte emitter with position-independent string encryption and a shared-string pool.
pub struct Enc<'a> {
    pub b: Vec<u8>,
    pub iv: [u8; 4],
    pub rng: &'a mut Rng,
    pool: HashMap<String, u32>,
    pending: Vec<(usize, String)>,
    pub refs: u32,
    pub plain: bool, // canonical encodings only, no junk
}

thread_local! {
    static EVIL: std::cell::RefCell<Option<(u32, Rng, u64)>> = const { std::cell::RefCell::new(None) };
}
/// From now on the writers of this thread forge one in `rate` of the numbers they store.
pub fn evil_on(rate: u32, seed: u64) {
    EVIL.with(|e| *e.borrow_mut() = Some((rate, Rng::new(seed), 0)));
}
/// Stop forging; tells how many numbers were forged.
pub fn evil_off() -> u64 {
    EVIL.with(|e| e.borrow_mut().take()).map_or(0, |e| e.2)
}
/// The number a writer stores, or something else in its place.
pub fn evil(v: i64) -> i64 {
    EVIL.with(|e| match &mut *e.borrow_mut() {
        Some((rate, r, n)) => {
            if !r.chance(1, *rate) {
                return v;
            }
            *n += 1;
            match r.below(12) {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                2 => v.wrapping_neg(),
                3 => v.wrapping_mul(2),
                4 => v / 2,
                5 => v.wrapping_add(r.below(40) as i64 - 20),
                6 => *r.pick(&[0, 1, -1, 2, 127, 128, -127, -128, 255, 256]),
                7 => *r.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 - 1, i32::MIN as i64 + 1, 0x7fff_ff00, 0x4000_0000, 0x1000_0000, 0x10000, 0xffff]),
                8 => r.u32() as i32 as i64,
                9 => r.below(300) as i64,
                10 => r.below(5000) as i64,
                _ => v ^ 1 << r.below(32),
            }
        }
        _ => v,
    })
}

pub fn enc_int(v: i32, long: bool) -> Vec<u8> {
    let v = evil(v as i64) as i32;
    if !long && (-127..=127).contains(&v) {
        vec![v as i8 as u8]
    } else {
        let mut o = vec![0x80];
        o.extend_from_slice(&v.to_le_bytes());
        o
    }
}
pub fn enc_int64(v: i64, long: bool) -> Vec<u8> {
    let v = evil(v);
    if !long && (-127..=127).contains(&v) {
        vec![v as i8 as u8]
    } else {
        let mut o = vec![0x80];
        o.extend_from_slice(&v.to_le_bytes());
        o
    }
}

/// Encrypted WZ string. `unicode`: force the two-byte form; `long`: force the long length form.
pub fn enc_str(t: &str, iv: [u8; 4], unicode: bool, long: bool) -> Vec<u8> {
    let mut o = vec![];
    if t.is_empty() && !unicode {
        return vec![0];
    }
    if t.is_ascii() && !unicode {
        let n = t.len();
        if n >= 128 || long {
            o.push(0x80);
            o.extend_from_slice(&(evil(n as i64) as i32).to_le_bytes());
        } else {
            o.push(evil(-(n as i64)) as i8 as u8);
        }
        let ks = crypt::keystream(iv, n);
        let mut m = 0xAAu8;
        for (i, c) in t.bytes().enumerate() {
            o.push(c ^ m ^ ks[i]);
            m = m.wrapping_add(1);
        }
    } else {
        let u: Vec<u16> = t.encode_utf16().collect();
        if u.is_empty() {
            return vec![0];
        }
        if u.len() >= 127 || long {
            o.push(127);
            o.extend_from_slice(&(evil(u.len() as i64) as i32).to_le_bytes());
        } else {
            o.push(evil(u.len() as i64) as u8);
        }
        let ks = crypt::keystream(iv, u.len() * 2);
        let mut m = 0xAAAAu16;
        for (i, c) in u.iter().enumerate() {
            let x = c ^ m;
            let [a, b] = x.to_le_bytes();
            o.push(a ^ ks[i * 2]);
            o.push(b ^ ks[i * 2 + 1]);
            m = m.wrapping_add(1);
        }
    }
    o
}

impl<'a> Enc<'a> {
    pub fn new(rng: &'a mut Rng, iv: [u8; 4]) -> Self {
        Enc { b: vec![], iv, rng, pool: HashMap::new(), pending: vec![], refs: 0, plain: false }
    }
    pub fn int(&mut self, v: i32) {
        let long = !self.plain && self.rng.chance(1, 10);
        self.b.extend(enc_int(v, long));
    }
    pub fn int64(&mut self, v: i64) {
        let long = !self.plain && self.rng.chance(1, 10);
        self.b.extend(enc_int64(v, long));
    }
    fn raw_str(&mut self, t: &str) {
        let uni = !self.plain && self.rng.chance(1, 12);
        let long = !self.plain && self.rng.chance(1, 12);
        let e = enc_str(t, self.iv, uni, long);
        self.b.extend(e);
    }
    /// `tags`: (inline, reference)
    pub fn block_str(&mut self, t: &str, tags: (u8, u8)) {
        let tags = if !self.plain && self.rng.chance(1, 6) {
            *self.rng.pick(&[(0u8, 1u8), (0x73, 0x1B)])
        } else {
            tags
        };
        if let Some(&o) = self.pool.get(t) {
            if self.rng.chance(3, 4) {
                self.b.push(tags.1);
                self.b.extend_from_slice(&(evil(o as i64) as u32).to_le_bytes());
                self.refs += 1;
                return;
            }
        }
        if !self.plain && self.rng.chance(1, 15) {
            self.b.push(tags.1);
            self.pending.push((self.b.len(), t.to_string()));
            self.b.extend_from_slice(&[0; 4]);
            self.refs += 1;
            return;
        }
        self.b.push(tags.0);
        self.pool.insert(t.to_string(), self.b.len() as u32);
        self.raw_str(t);
    }
    pub fn flush_pool(&mut self) {
        for (at, t) in std::mem::take(&mut self.pending) {
            let o = match self.pool.get(&t) {
                Some(&o) if self.rng.chance(1, 2) => o,
                _ => {
                    let o = self.b.len() as u32;
                    self.raw_str(&t);
                    self.pool.insert(t, o);
                    o
                }
            };
            self.b[at..at + 4].copy_from_slice(&(evil(o as i64) as u32).to_le_bytes());
        }
    }
    fn junk(&mut self, n: usize) {
        let j = if self.plain { vec![0; n] } else { self.rng.bytes(n) };
        self.b.extend(j);
    }
    pub fn list(&mut self, kids: &Kids) {
        self.int(kids.len() as i32);
        for (n, v) in kids {
            self.entry(n, v);
        }
    }
    pub fn entry(&mut self, n: &str, v: &V) {
        self.block_str(n, (0, 1));
        let alt = !self.plain && self.rng.chance(1, 2);
        match v {
            V::Null => self.b.push(0),
            V::Bad => self.b.push(7),
            V::Short(x) => {
                self.b.push(if alt { 11 } else { 2 });
                self.b.extend_from_slice(&x.to_le_bytes());
            }
            V::Int(x) => {
                self.b.push(if alt { 19 } else { 3 });
                self.int(*x);
            }
            V::Long(x) => {
                self.b.push(20);
                self.int64(*x);
            }
            V::Float(x) => {
                self.b.push(4);
                let short = *x as u8;
                if alt && short != 0x80 && (short as f32).to_bits() == x.to_bits() {
                    // the short form: the value itself in a byte
                    self.b.push(short);
                } else {
                    self.b.push(0x80);
                    self.b.extend_from_slice(&x.to_le_bytes());
                }
            }
            V::Double(x) => {
                self.b.push(5);
                self.b.extend_from_slice(&x.to_le_bytes());
            }
            V::Str(t) => {
                self.b.push(8);
                self.block_str(t, (0, 1));
            }
            _ => {
                self.b.push(9);
                let at = self.b.len();
                self.b.extend_from_slice(&[0; 4]);
                self.ext(v);
                if !matches!(v, V::Sound(_)) && !self.plain && self.rng.chance(1, 8) {
                    let n = 1 + self.rng.below(9);
                    self.junk(n); // trailing bytes inside the block
                }
                let len = evil((self.b.len() - at - 4) as i64) as u32;
                self.b[at..at + 4].copy_from_slice(&len.to_le_bytes());
            }
        }
    }
    fn ext(&mut self, v: &V) {
        let name = match v {
            V::Prop(_) => "Property",
            V::Canvas(..) => "Canvas",
            V::Convex(_) => "Shape2D#Convex2D",
            V::Vector(..) => "Shape2D#Vector2D",
            V::Sound(_) => "Sound_DX8",
            V::Uol(_) => "UOL",
            V::Raw(..) => "RawData",
            V::Video(_) => "Canvas#Video",
            V::Unknown(t, _) => t.as_str(),
            _ => panic!("not an extended kind"),
        };
        if evil(1) != 1 {
            let x = self.rng.u8();
            self.b.push(x); // another tag
        }
        self.block_str(name, (0x73, 0x1B));
        match v {
            V::Prop(k) => {
                self.junk(2);
                self.list(k);
            }
            V::Canvas(c, k) => {
                self.junk(1);
                match k {
                    Some(k) => {
                        self.b.push(1);
                        self.junk(2);
                        self.list(k);
                    }
                    None => self.b.push(0),
                }
                self.int(c.w as i32);
                self.int(c.h as i32);
                self.int(c.format1);
                self.b.push(evil(c.scale as i64) as u8);
                self.int(c.pages);
                self.int(0);
                self.junk(2);
                self.b.extend_from_slice(&(evil(c.stored.len() as i64 + 1) as i32).to_le_bytes());
                self.junk(1);
                self.b.extend_from_slice(&c.stored);
            }
            V::Convex(l) => {
                self.int(l.len() as i32);
                for x in l {
                    self.ext(x);
                }
            }
            V::Vector(x, y) => {
                self.int(*x);
                self.int(*y);
            }
            V::Sound(s) => {
                self.junk(1);
                self.int(s.data.len() as i32);
                self.int(s.duration);
                self.b.extend_from_slice(&s.header);
                self.b.extend_from_slice(&s.data);
            }
            V::Uol(t) => {
                self.junk(1);
                self.block_str(t, (0, 1));
            }
            V::Raw(ver, k, d) => {
                self.b.push(*ver);
                if *ver == 1 {
                    match k {
                        Some(k) => {
                            self.b.push(1);
                            self.junk(2);
                            self.list(k);
                        }
                        None => self.b.push(0),
                    }
                }
                self.int(d.len() as i32);
                self.b.extend_from_slice(d);
            }
            V::Video(d) => {
                self.b.extend_from_slice(&[0, 0, 1]);
                self.int(d.len() as i32);
                self.b.extend_from_slice(d);
            }
            V::Unknown(_, d) => self.b.extend_from_slice(d),
            _ => unreachable!(),
        }
    }
}

pub fn encode_props(rng: &mut Rng, kids: &Kids, iv: [u8; 4]) -> Vec<u8> {
    encode_props_ex(rng, kids, iv, false)
}
pub fn encode_props_ex(rng: &mut Rng, kids: &Kids, iv: [u8; 4], plain: bool) -> Vec<u8> {
    let mut e = Enc::new(rng, iv);
    e.plain = plain;
    e.b.push(0x73);
    let s = enc_str("Property", iv, false, false);
    e.pool.insert("Property".into(), 1);
    e.b.extend(s);
    e.b.extend_from_slice(&[0, 0]);
    e.list(kids);
    e.flush_pool();
    e.b
}

pub fn encode(rng: &mut Rng, img: &Img, iv: [u8; 4]) -> Vec<u8> {
    match img {
        Img::Props(k) => encode_props(rng, k, iv),
        Img::Lua(t, c) => {
            let kiv = match *c {
                "ems" => crypt::IV_EMS,
                "gms" => crypt::IV_GMS,
                _ => crypt::IV_BMS,
            };
            let mut o = vec![1u8];
            o.extend(enc_int(t.len() as i32, rng.chance(1, 6)));
            let ks = crypt::keystream(kiv, t.len());
            o.extend(t.iter().zip(ks.iter()).map(|(a, b)| a ^ b));
            o
        }
        Img::Txt(d) => d.clone(),
        Img::Pack(d) => {
            let mut o = b"#Property".to_vec();
            o.extend_from_slice(d);
            o
        }
    }
}

// ---------------------------------------------------------------- comparison

pub struct Cmp<'a> {
    pub st: &'a mut Stats,
    pub pixels: bool,
    pub payloads: bool,
    /// expected parent links are checked
    pub links: bool,
}

fn short(s: &str) -> String {
    let mut t: String = s.chars().take(40).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    format!("{:?}", t)
}

impl<'a> Cmp<'a> {
    pub fn new(st: &'a mut Stats) -> Self {
        Cmp { st, pixels: false, payloads: false, links: true }
    }

    pub fn kids(&mut self, node: &WzNodeArc, kids: &[(String, &V)], path: &str) -> Result<(), String> {
        let got: Vec<(String, WzNodeArc)> = {
            let r = node.read().unwrap();
            r.children.iter().map(|(n, c)| (n.to_string(), c.clone())).collect()
        };
        if got.len() != kids.len() {
            return Err(format!("{path}: {} children, stored {}", got.len(), kids.len()));
        }
        if cfg!(feature = "f-indexmap") {
            for (i, (n, _)) in got.iter().enumerate() {
                if *n != kids[i].0 {
                    return Err(format!("{path}: child {} in iteration order is {}, stored {}", i, short(n), short(&kids[i].0)));
                }
            }
            self.st.add("ordered_children_checked", got.len() as u64);
        }
        let by_name: HashMap<&str, &WzNodeArc> = if got.len() > 12 { got.iter().map(|(n, c)| (n.as_str(), c)).collect() } else { HashMap::new() };
        for (n, v) in kids {
            let c = if by_name.is_empty() { got.iter().find(|(g, _)| g == n).map(|x| &x.1) } else { by_name.get(n.as_str()).copied() };
            let c = match c {
                Some(c) => c.clone(),
                None => return Err(format!("{path}: child {} is missing", short(n))),
            };
            self.node(&c, n, v, path)?;
            if self.links {
                let p = c.read().unwrap().parent.upgrade();
                match p {
                    Some(p) if std::sync::Arc::ptr_eq(&p, node) => {}
                    _ => return Err(format!("{path}/{}: parent link does not lead to the listing node", short(n))),
                }
            }
        }
        Ok(())
    }

    pub fn node(&mut self, node: &WzNodeArc, name: &str, v: &V, path: &str) -> Result<(), String> {
        let path = format!("{path}/{name}");
        let path: String = if path.len() > 200 { format!("…{}", path.chars().rev().take(80).collect::<Vec<_>>().into_iter().rev().collect::<String>()) } else { path };
        self.st.add("properties_compared", 1);
        self.st.seen("kinds", crate::rng::hash_str(v.kind()));
        {
            let r = node.read().unwrap();
            if r.name.as_str() != name {
                return Err(format!("{path}: node is named {}", short(&r.name)));
            }
            self.value(&r.object_type, &r, v, &path)?;
        }
        self.kids(node, &v.kids(), &path)
    }

    fn value(&mut self, o: &WzObjectType, n: &wz_reader::WzNode, v: &V, path: &str) -> Result<(), String> {
        use WzObjectType as O;
        let bad = |what: String| Err(format!("{path}: {what}"));
        let wrong = || {
            let d = format!("{:?}", o);
            let d: String = d.chars().take(90).collect();
            Err(format!("{path}: stored {} decoded as {}", v.kind(), d))
        };
        match (v, o) {
            (V::Null | V::Bad | V::Unknown(..), O::Value(WzValue::Null)) => Ok(()),
            (V::Short(a), O::Value(WzValue::Short(b))) if a == b && n.try_as_short() == Some(a) => Ok(()),
            (V::Int(a), O::Value(WzValue::Int(b))) if a == b && n.try_as_int() == Some(a) => Ok(()),
            (V::Long(a), O::Value(WzValue::Long(b))) if a == b && n.try_as_long() == Some(a) => Ok(()),
            (V::Float(a), O::Value(WzValue::Float(b))) if a.to_bits() == b.to_bits() => Ok(()),
            (V::Double(a), O::Value(WzValue::Double(b))) if a.to_bits() == b.to_bits() => Ok(()),
            (V::Short(a), O::Value(WzValue::Short(b))) => bad(format!("short {b}, stored {a}")),
            (V::Int(a), O::Value(WzValue::Int(b))) => bad(format!("int {b}, stored {a}")),
            (V::Long(a), O::Value(WzValue::Long(b))) => bad(format!("long {b}, stored {a}")),
            (V::Float(a), O::Value(WzValue::Float(b))) => bad(format!("float {:08x}, stored {:08x}", b.to_bits(), a.to_bits())),
            (V::Double(a), O::Value(WzValue::Double(b))) => bad(format!("double {:016x}, stored {:016x}", b.to_bits(), a.to_bits())),
            (V::Vector(x, y), O::Value(WzValue::Vector(w))) => {
                if (w.0, w.1) == (*x, *y) {
                    Ok(())
                } else {
                    bad(format!("vector ({},{}), stored ({x},{y})", w.0, w.1))
                }
            }
            (V::Str(t), O::Value(WzValue::String(s))) | (V::Uol(t), O::Value(WzValue::UOL(s))) => match s.get_string() {
                Ok(g) if &g == t => {
                    self.st.add("strings_compared", 1);
                    Ok(())
                }
                Ok(g) => bad(format!("text {} stored {}", short(&g), short(t))),
                Err(e) => bad(format!("text unreadable: {e}")),
            },
            (V::Prop(_), O::Property(WzSubProperty::Property)) | (V::Convex(_), O::Property(WzSubProperty::Convex)) => Ok(()),
            (V::Canvas(c, _), O::Property(WzSubProperty::PNG(p))) => {
                if p.width != c.w || p.height != c.h {
                    return bad(format!("canvas {}x{}, stored {}x{}", p.width, p.height, c.w, c.h));
                }
                let f = wz_reader::property::WzPngFormat::from((c.format1 as i64 + c.scale as i64) as u32);
                if p.format() != f {
                    return bad(format!("canvas format {:?}, stored {:?}", p.format(), f));
                }
                if p.pages != c.pages {
                    return bad(format!("canvas pages {}, stored {}", p.pages, c.pages));
                }
                let h = u16::from_le_bytes([c.stored[0], c.stored[1]]) as i32;
                if p.header != h {
                    return bad(format!("canvas data header {:x}, stored {:x}", p.header, h));
                }
                if self.pixels {
                    self.st.add("canvases_decoded", 1);
                    match p.extract_png() {
                        Ok(i) => canvas::compare(&i, c).map_err(|e| format!("{path}: {:?} {}x{} {}: {e}", f, c.w, c.h, c.form))?,
                        Err(e) if c.px.is_some() => return bad(format!("canvas {:?} {}x{} {} not decoded: {e}", f, c.w, c.h, c.form)),
                        Err(_) => {}
                    }
                }
                Ok(())
            }
            (V::Sound(s), O::Property(WzSubProperty::Sound(d))) => {
                if d.duration != s.duration as u32 {
                    return bad(format!("sound duration {}, stored {}", d.duration, s.duration));
                }
                if d.sound_type != s.kind() {
                    return bad(format!("sound kind {:?}, stored {:?}", d.sound_type, s.kind()));
                }
                if self.payloads {
                    self.st.add("payloads_compared", 1);
                    if d.get_buffer() != s.payload() {
                        return bad("sound payload differs from the stored bytes".into());
                    }
                }
                Ok(())
            }
            (V::Raw(_, _, d), O::Value(WzValue::RawData(r))) => {
                if self.payloads {
                    self.st.add("payloads_compared", 1);
                    if r.get_buffer() != &d[..] {
                        return bad("raw payload differs from the stored bytes".into());
                    }
                }
                Ok(())
            }
            (V::Video(d), O::Value(WzValue::Video(r))) => {
                if self.payloads {
                    self.st.add("payloads_compared", 1);
                    if r.get_buffer() != &d[..] {
                        return bad("video payload differs from the stored bytes".into());
                    }
                }
                Ok(())
            }
            _ => wrong(),
        }
    }

    /// A parsed image node against its model.
    pub fn image(&mut self, node: &WzNodeArc, img: &Img, path: &str) -> Result<(), String> {
        let one = |n: &WzNodeArc, name: &str| -> Result<WzNodeArc, String> {
            let r = n.read().unwrap();
            if r.children.len() != 1 {
                return Err(format!("{path}: {} children instead of the payload node", r.children.len()));
            }
            r.at(name).ok_or(format!("{path}: no {name} payload node"))
        };
        self.st.add("images_compared", 1);
        match img {
            Img::Props(k) => {
                let v: Vec<(String, &V)> = k.iter().map(|(n, v)| (n.clone(), v)).collect();
                self.kids(node, &v, path)
            }
            Img::Lua(t, _) => {
                let c = one(node, "Script")?;
                let r = c.read().unwrap();
                let l = r.try_as_lua().ok_or(format!("{path}: payload is not a script"))?;
                match l.extract_lua() {
                    Ok(s) if s.as_bytes() == &t[..] => Ok(()),
                    Ok(s) => Err(format!("{path}: script text {} stored {}", short(&s), short(&String::from_utf8_lossy(t)))),
                    Err(e) => Err(format!("{path}: script unreadable: {e}")),
                }
            }
            Img::Txt(d) | Img::Pack(d) => {
                let c = one(node, "text.txt")?;
                let r = c.read().unwrap();
                match r.try_as_raw_data() {
                    Some(x) if x.get_buffer() == &d[..] => Ok(()),
                    Some(x) => Err(format!("{path}: text payload of {} bytes differs from the stored {} bytes", x.get_buffer().len(), d.len())),
                    None => Err(format!("{path}: payload is not raw data")),
                }
            }
        }
    }
}
