//! Canvas formats: random stored pixel data plus the pixels the format defines for it.
use crate::crypt;
use crate::rng::Rng;
use std::io::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Px {
    Rgba(Vec<u8>),
    Rgb(Vec<u8>),
    Rgba16(Vec<u16>),
}

#[derive(Clone, Debug)]
pub struct CanvasM {
    pub w: u32,
    pub h: u32,
    pub format1: i32,
    pub scale: i8,
    pub pages: i32,
    /// stored bytes (after the length field and its one-byte gap)
    pub stored: Vec<u8>,
    pub px: Option<Px>, // None: format is unsupported
    pub form: &'static str,
}

pub const FORMATS: &[u32] = &[1, 2, 3, 257, 513, 517, 769, 1026, 2050, 2562, 4098];
pub const UNSUPPORTED: &[u32] = &[4097, 2304, 4100, 0, 4, 1025, 5000];

fn x5(v: u32) -> u8 {
    ((v << 3) | (v >> 2)) as u8
}
fn x6(v: u32) -> u8 {
    ((v << 2) | (v >> 4)) as u8
}
fn c565(c: u16) -> [u8; 3] {
    let c = c as u32;
    [x5(c >> 11), x6((c >> 5) & 63), x5(c & 31)]
}
fn le16(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes([b[i], b[i + 1]])
}

/// random data biased to hit both orders of end points
fn blk(rng: &mut Rng) -> Vec<u8> {
    let mut b = rng.bytes(16);
    match rng.below(8) {
        0 => {
            b[8] = b[10];
            b[9] = b[11];
        } // equal colours
        1 => b[0] = b[1],
        2 => {
            b[8..12].copy_from_slice(&[0, 0, 255, 255]);
        }
        3 => {
            b[0] = 255;
            b[1] = 0;
        }
        4 => {
            b[9] = b[11];
        }
        _ => {}
    }
    b
}

fn dxt_colors(b: &[u8]) -> [[u8; 3]; 4] {
    let c0 = le16(b, 8);
    let c1 = le16(b, 10);
    let a = c565(c0);
    let d = c565(c1);
    let mut t = [[0u8; 3]; 4];
    t[0] = a;
    t[1] = d;
    for k in 0..3 {
        let (p, q) = (a[k] as u32, d[k] as u32);
        if c0 > c1 {
            t[2][k] = ((2 * p + q + 1) / 3) as u8;
            t[3][k] = ((p + 2 * q + 1) / 3) as u8;
        } else {
            t[2][k] = ((p + q) / 2) as u8;
            t[3][k] = 0;
        }
    }
    t
}
fn dxt_index(b: &[u8], i: usize) -> usize {
    let bits = u32::from_le_bytes([b[12], b[13], b[14], b[15]]);
    ((bits >> (2 * i)) & 3) as usize
}
fn dxt3_px(b: &[u8], i: usize) -> [u8; 4] {
    let al = u64::from_le_bytes(b[0..8].try_into().unwrap());
    let a = ((al >> (4 * i)) & 15) as u8;
    let c = dxt_colors(b)[dxt_index(b, i)];
    [c[0], c[1], c[2], a * 17]
}
fn dxt5_px(b: &[u8], i: usize) -> [u8; 4] {
    let (a0, a1) = (b[0] as u32, b[1] as u32);
    let mut bits = 0u64;
    for k in 0..6 {
        bits |= (b[2 + k] as u64) << (8 * k);
    }
    let idx = ((bits >> (3 * i)) & 7) as u32;
    let a = match idx {
        0 => a0,
        1 => a1,
        n if a0 > a1 => ((8 - n) * a0 + (n - 1) * a1 + 3) / 7,
        6 => 0,
        7 => 255,
        n => ((6 - n) * a0 + (n - 1) * a1 + 2) / 5,
    };
    let c = dxt_colors(b)[dxt_index(b, i)];
    [c[0], c[1], c[2], a as u8]
}

/// A BC7 block of mode 6 and its pixels, written from the format's definition.
fn bc7_mode6(rng: &mut Rng) -> ([u8; 16], [[u8; 4]; 16]) {
    const W: [u32; 16] = [0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64];
    let mut bits: u128 = 1 << 6;
    let mut at = 7;
    let mut put = |v: u32, n: u32| {
        bits |= (v as u128) << at;
        at += n;
    };
    let mut e = [[0u32; 4]; 2];
    for ch in 0..4 {
        for k in 0..2 {
            e[k][ch] = rng.below(128) as u32;
            put(e[k][ch], 7);
        }
    }
    for k in 0..2 {
        let p = rng.below(2) as u32;
        put(p, 1);
        for ch in 0..4 {
            e[k][ch] = e[k][ch] << 1 | p;
        }
    }
    let mut px = [[0u8; 4]; 16];
    for (i, p) in px.iter_mut().enumerate() {
        let ix = rng.below(if i == 0 { 8 } else { 16 });
        put(ix as u32, if i == 0 { 3 } else { 4 });
        for ch in 0..4 {
            p[ch] = (((64 - W[ix]) * e[0][ch] + W[ix] * e[1][ch] + 32) >> 6) as u8;
        }
    }
    (bits.to_le_bytes(), px)
}

/// (stored decompressed bytes, pixels)
pub fn gen_pixels(rng: &mut Rng, fmt: u32, w: u32, h: u32) -> (Vec<u8>, Option<Px>) {
    let n = (w * h) as usize;
    let (bw, bh) = (w.div_ceil(4) as usize, h.div_ceil(4) as usize);
    match fmt {
        1 => {
            let d = rng.bytes(n * 2);
            let mut o = Vec::with_capacity(n * 4);
            for i in 0..n {
                let v = le16(&d, i * 2) as u32;
                for sh in [8, 4, 0, 12] {
                    o.push(((v >> sh) & 15) as u8 * 17);
                }
            }
            (d, Some(Px::Rgba(o)))
        }
        2 => {
            let d = rng.bytes(n * 4);
            let mut o = Vec::with_capacity(n * 4);
            for p in d.chunks(4) {
                o.extend_from_slice(&[p[2], p[1], p[0], p[3]]);
            }
            (d, Some(Px::Rgba(o)))
        }
        257 => {
            let d = rng.bytes(n * 2);
            let mut o = Vec::with_capacity(n * 4);
            for i in 0..n {
                let v = le16(&d, i * 2) as u32;
                o.extend_from_slice(&[
                    x5((v >> 10) & 31),
                    x5((v >> 5) & 31),
                    x5(v & 31),
                    if v >> 15 == 1 { 255 } else { 0 },
                ]);
            }
            (d, Some(Px::Rgba(o)))
        }
        513 => {
            let d = rng.bytes(n * 2);
            let mut o = Vec::with_capacity(n * 3);
            for i in 0..n {
                o.extend_from_slice(&c565(le16(&d, i * 2)));
            }
            (d, Some(Px::Rgb(o)))
        }
        517 => {
            // one 565 colour per 16x16 cell
            let (cw, ch) = ((w / 16) as usize, (h / 16) as usize);
            let d = rng.bytes(cw * ch * 2);
            let mut o = vec![0u8; n * 3];
            for y in 0..h as usize {
                for x in 0..w as usize {
                    let c = c565(le16(&d, ((y / 16) * cw + x / 16) * 2));
                    o[(y * w as usize + x) * 3..][..3].copy_from_slice(&c);
                }
            }
            (d, Some(Px::Rgb(o)))
        }
        769 => {
            let d = rng.bytes(n * 2);
            let mut o = Vec::with_capacity(n * 4);
            for i in 0..n {
                o.extend_from_slice(&[le16(&d, i * 2), 0, 0, 0xffff]);
            }
            (d, Some(Px::Rgba16(o)))
        }
        2562 => {
            let d = rng.bytes(n * 4);
            let mut o = Vec::with_capacity(n * 4);
            for p in d.chunks(4) {
                let v = u32::from_le_bytes(p.try_into().unwrap());
                o.extend_from_slice(&[
                    ((v & 1023) >> 2) as u8,
                    (((v >> 10) & 1023) >> 2) as u8,
                    (((v >> 20) & 1023) >> 2) as u8,
                    [0, 85, 170, 255][(v >> 30) as usize],
                ]);
            }
            (d, Some(Px::Rgba(o)))
        }
        3 | 1026 | 2050 | 4098 => {
            let mut d = Vec::with_capacity(bw * bh * 16);
            let mut bc7: Vec<[[u8; 4]; 16]> = vec![];
            for _ in 0..bw * bh {
                if fmt != 4098 {
                    d.extend_from_slice(&blk(rng));
                } else if rng.chance(1, 2) {
                    let (b, px) = bc7_mode6(rng);
                    d.extend_from_slice(&b);
                    bc7.push(px);
                } else {
                    // the other modes: one block at a time by the decoder library
                    let b = blk(rng);
                    let mut img = [0u32; 16];
                    texture2ddecoder::decode_bc7(&b, 4, 4, &mut img).unwrap();
                    d.extend_from_slice(&b);
                    bc7.push(img.map(|v| {
                        let v = v.to_le_bytes();
                        [v[2], v[1], v[0], v[3]]
                    }));
                }
            }
            let mut o = vec![0u8; n * 4];
            for y in 0..h as usize {
                for x in 0..w as usize {
                    let bi = (y / 4) * bw + x / 4;
                    let i = (y % 4) * 4 + x % 4;
                    let b = &d[bi * 16..bi * 16 + 16];
                    let p = match fmt {
                        2050 => dxt5_px(b, i),
                        4098 => bc7[bi][i],
                        _ => dxt3_px(b, i),
                    };
                    o[(y * w as usize + x) * 4..][..4].copy_from_slice(&p);
                }
            }
            (d, Some(Px::Rgba(o)))
        }
        _ => (rng.bytes(n.min(64) * 4), None),
    }
}

thread_local! {
    /// the same streams in every build
    pub static PORTABLE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    if PORTABLE.get() {
        let mut v = miniz_oxide::deflate::compress_to_vec_zlib(data, level as u8);
        v[..2].copy_from_slice(&header(level));
        return v;
    }
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    let mut v = e.finish().unwrap();
    // canonical header for the level, whatever the compression backend writes
    v[..2].copy_from_slice(&header(level));
    v
}

fn header(level: u32) -> [u8; 2] {
    match level {
        0 | 1 => [0x78, 0x01],
        2..=5 => [0x78, 0x5E],
        6 => [0x78, 0x9C],
        _ => [0x78, 0xDA],
    }
}

/// cipher-chunked form of a zlib stream
pub fn chunked(rng: &mut Rng, z: &[u8], iv: [u8; 4]) -> Vec<u8> {
    // its own stream: the length of `z` depends on the compression library of this build
    let rng = &mut Rng::new(rng.u64());
    let mut out = vec![];
    let mut p = 0;
    let style = rng.below(3);
    while p < z.len() {
        let left = z.len() - p;
        let n = match style {
            0 => left,
            1 => (1 + rng.below(64)).min(left),
            _ => (1 + rng.below(6000)).min(left),
        };
        out.extend_from_slice(&(n as i32).to_le_bytes());
        let ks = crypt::keystream(iv, n);
        out.extend(z[p..p + n].iter().zip(ks.iter()).map(|(a, b)| a ^ b));
        p += n;
    }
    out
}

pub fn is_zlib_magic(b: &[u8]) -> bool {
    b.len() >= 2 && b[0] == 0x78 && [0x9C, 0xDA, 0x01, 0x5E].contains(&b[1])
}

pub fn split_format(rng: &mut Rng, fmt: u32) -> (i32, i8) {
    // the stored pair (format, scale) sums to the format id
    if rng.chance(1, 2) {
        (fmt as i32, 0)
    } else {
        let s = rng.below(1 + (fmt as usize).min(100)) as i32;
        (fmt as i32 - s, s as i8)
    }
}

pub fn gen_size(rng: &mut Rng, fmt: u32, max: u32) -> (u32, u32) {
    let dim = |r: &mut Rng| -> u32 {
        match r.below(5) {
            0 => 1 + r.below(8) as u32,
            1 => 4 * (1 + r.below((max / 4).max(1) as usize) as u32),
            2 => *r.pick(&[1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33]),
            _ => 1 + r.below(max as usize) as u32,
        }
        .clamp(1, max)
    };
    let (mut w, mut h) = (dim(rng), dim(rng));
    if fmt == 517 {
        w = (w.div_ceil(16) * 16).min(256);
        h = (h.div_ceil(16) * 16).min(256);
    }
    (w, h)
}

pub fn gen(rng: &mut Rng, iv: [u8; 4], fmt: u32, w: u32, h: u32) -> CanvasM {
    let (mut data, px) = gen_pixels(rng, fmt, w, h);
    // compressible data sometimes
    if rng.chance(1, 4) && px.is_some() && fmt == 2 {
        data.iter_mut().for_each(|b| *b &= 0x11);
    }
    let px = if fmt == 2 && px.is_some() {
        let mut o = Vec::with_capacity(data.len());
        for p in data.chunks(4) {
            o.extend_from_slice(&[p[2], p[1], p[0], p[3]]);
        }
        Some(Px::Rgba(o))
    } else {
        px
    };
    let level = *rng.pick(&[0u32, 1, 3, 5, 6, 7, 9]);
    let z = zlib(&data, level);
    let (stored, form) = if rng.chance(1, 2) {
        (z, "zlib")
    } else {
        let c = chunked(rng, &z, iv);
        if is_zlib_magic(&c) {
            (z, "zlib")
        } else {
            (c, "chunked")
        }
    };
    let (format1, scale) = split_format(rng, fmt);
    CanvasM { w, h, format1, scale, pages: rng.below(3) as i32, stored, px, form }
}

pub fn compare(img: &image::DynamicImage, m: &CanvasM) -> Result<(), String> {
    use image::DynamicImage as D;
    if img.width() != m.w || img.height() != m.h {
        return Err(format!("dimensions {}x{} expected {}x{}", img.width(), img.height(), m.w, m.h));
    }
    fn diff<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T], ch: usize, w: u32) -> Result<(), String> {
        if a.len() != b.len() {
            return Err(format!("pixel buffer length {} expected {}", a.len(), b.len()));
        }
        match a.iter().zip(b).position(|(x, y)| x != y) {
            None => Ok(()),
            Some(i) => {
                let p = i / ch;
                Err(format!(
                    "pixel ({},{}) is {:?} expected {:?}",
                    p % w as usize,
                    p / w as usize,
                    &a[p * ch..p * ch + ch],
                    &b[p * ch..p * ch + ch]
                ))
            }
        }
    }
    match (img, m.px.as_ref()) {
        (D::ImageRgba8(i), Some(Px::Rgba(e))) => diff(i.as_raw(), e, 4, m.w),
        (D::ImageRgb8(i), Some(Px::Rgb(e))) => diff(i.as_raw(), e, 3, m.w),
        (D::ImageRgba16(i), Some(Px::Rgba16(e))) => diff(i.as_raw(), e, 4, m.w),
        // the same pixels with an explicit opaque alpha
        (D::ImageRgba8(i), Some(Px::Rgb(e))) => {
            let e: Vec<u8> = e.chunks(3).flat_map(|p| [p[0], p[1], p[2], 255]).collect();
            diff(i.as_raw(), &e, 4, m.w)
        }
        (i, Some(_)) => Err(format!("unexpected pixel layout {:?}", i.color())),
        (_, None) => Err("an unsupported format was decoded".into()),
    }
}
