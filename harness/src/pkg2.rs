//! Independent model of the PKG2 container: check equations, offset formulas, directory layouts, headers.
use crate::crypt;
use crate::img;
use crate::rng::Rng;
use crate::wz::{self, T, TE};
use std::collections::HashMap;
use wz_reader::util::profile::WzProfileVersion as P;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Gen {
    K1196,
    K1197,
    K1198,
    K1199,
    K1200,
    K1201,
    K1202,
}
pub const ALL: [Gen; 7] = [Gen::K1196, Gen::K1197, Gen::K1198, Gen::K1199, Gen::K1200, Gen::K1201, Gen::K1202];

const K: u32 = 0x1A2B3C4D;
pub const C: u32 = 0x581C3F6D;

pub fn mix(mut k: u32) -> u32 {
    k ^= k >> 16;
    k = k.wrapping_mul(0x7FEB352D);
    k ^= k >> 15;
    k = k.wrapping_mul(0x846CA68B);
    k ^ (k >> 16)
}

/// the stored second hash of a (first hash, version hash) pair; `v` is the number of the check equation
pub fn hash2(v: u32, h1: u64, t: u64) -> u64 {
    let (a, b) = (h1 as u32, t as u32);
    (match v {
        1 => a.rotate_left(7) ^ b,
        2 => (a ^ b.wrapping_add(K)).rotate_left(b & 31) ^ b,
        3 => !((a ^ b.wrapping_add(K)).rotate_left(((b & 15) + (a & 15)) & 31) ^ b ^ a),
        4 | 5 => {
            let mb = a ^ b;
            let mx = mix(mb ^ 0x6D4C3B2A) ^ 0x91E10DA5;
            let rb = a ^ (mx & 0xffff).wrapping_add(b).wrapping_add(K);
            let ra = ((mx ^ b) & 15) + (a & 15);
            let x = rb.rotate_left(ra & 31) ^ mb.wrapping_add(mx);
            if v == 4 {
                !x
            } else {
                x ^ 0x2A2C818B
            }
        }
        _ => return h1 ^ t ^ 0xABCDEF0123456789,
    }) as u64
}

/// key word xored to the stored offset; `f` is the number of the formula (0 = PKG1), plus the constant added at the end
pub fn enc_offset(f: u32, pos: usize, fstart: usize, h1: u64, t: u64, target: usize) -> u32 {
    if f == 0 {
        return wz::pkg1_enc(pos, fstart, t as u32, target);
    }
    let (a, b) = (h1 as u32, t as u32);
    let o = !((pos as u32).wrapping_sub(fstart as u32));
    let plain = (target as u32).wrapping_sub(fstart as u32);
    let tail = a.wrapping_mul(0x01010101);
    match f {
        1 => (o.wrapping_mul(b).wrapping_sub(C) ^ tail).rotate_left((a ^ b) & 31) ^ plain,
        2 => !((o.wrapping_mul(a ^ b).wrapping_sub(C) ^ tail).rotate_left((a ^ b) & 31) ^ plain),
        3 => {
            let pre = a ^ b;
            let mx = mix(pre ^ 0x6D4C3B2A) ^ 0x91E10DA5;
            let x = o.wrapping_mul(pre.wrapping_add(mx ^ 0xA7E3C093)).wrapping_sub(C);
            !((x ^ tail ^ mx.wrapping_mul(0x9E3779B9)).rotate_left((pre ^ mx) & 31) ^ plain)
        }
        _ => {
            let pre = a ^ b;
            let mx = pre ^ 0x33BBBB33;
            let x = o.wrapping_mul(pre.wrapping_add(mx ^ 0xA7E3C093)).wrapping_sub(C);
            !((x ^ tail ^ mx.wrapping_mul(0x9E3779B9)).rotate_left(19) ^ plain)
        }
    }
}

impl Gen {
    pub fn check(self) -> u32 {
        match self {
            Gen::K1196 => 1,
            Gen::K1197 => 2,
            Gen::K1198 => 3,
            Gen::K1199 | Gen::K1201 => 4,
            Gen::K1200 => 5,
            Gen::K1202 => 6,
        }
    }
    pub fn formula(self) -> u32 {
        match self {
            Gen::K1196 => 1,
            Gen::K1197 | Gen::K1198 => 2,
            Gen::K1199 | Gen::K1200 | Gen::K1201 => 3,
            Gen::K1202 => 4,
        }
    }
    pub fn profile(self) -> P {
        match self {
            Gen::K1196 => P::Pkg2V1196,
            Gen::K1197 => P::Pkg2V1197,
            Gen::K1198 => P::Pkg2V1198,
            Gen::K1199 => P::Pkg2V1199,
            Gen::K1200 => P::Pkg2V1200,
            Gen::K1201 => P::Pkg2V1201,
            Gen::K1202 => P::Pkg2V1202,
        }
    }
    pub fn wide(self) -> bool {
        self == Gen::K1202
    }
    /// first names under a cipher of their own?
    pub fn own_names(self) -> bool {
        !matches!(self, Gen::K1196 | Gen::K1197)
    }
    pub fn name_pattern(self, h1: u64, t: u64) -> [u8; 8] {
        crypt::pkg2_pattern(match self {
            Gen::K1198 => 0xDEADBEEF,
            Gen::K1202 => crypt::kmst1202_key(h1, t),
            _ => crypt::kmst1199_key(h1 as u32, t as u32) as u64,
        })
    }
}

pub struct Pkg2 {
    pub gen: Gen,
    /// cipher of ordinary strings
    pub iv: [u8; 4],
    pub h1: u64,
    pub t: u64,
    pub fstart: usize,
    pub junk: bool,
}

pub struct Built {
    pub bytes: Vec<u8>,
    pub tree: Vec<TE>,
    pub first_name: Vec<u8>,
    pub negative_counts: usize,
}

struct Block {
    bytes: Vec<u8>,
    /// places of encrypted offsets, with the block they lead to
    offs: Vec<(usize, usize)>,
    at: usize,
}
struct W<'a> {
    rng: &'a mut Rng,
    o: &'a Pkg2,
    blocks: Vec<Block>,
    ids: HashMap<*const TE, usize>,
    first: Vec<u8>,
    neg: usize,
}

impl W<'_> {
    fn first_name(&mut self, name: &str) -> Vec<u8> {
        let u: Vec<u16> = name.encode_utf16().collect();
        let n = img::evil(-(u.len() as i64));
        let mut v = if self.o.gen.wide() { (n as i16).to_le_bytes().to_vec() } else { vec![n as i8 as u8] };
        let p = self.o.gen.name_pattern(self.o.h1, self.o.t);
        let b: Vec<u8> = u.iter().flat_map(|c| c.to_le_bytes()).collect();
        v.extend(b.iter().enumerate().map(|(i, b)| b ^ p[i % 8]));
        v
    }
    fn dir(&mut self, kids: &mut [TE], root: bool) -> usize {
        let mut ids = vec![];
        for k in kids.iter_mut() {
            let id = match &mut k.t {
                T::Img(_, e) => {
                    k.size = e.len();
                    self.blocks.push(Block { bytes: e.clone(), offs: vec![], at: 0 });
                    self.blocks.len() - 1
                }
                T::Dir(sub) => {
                    let empty = sub.is_empty();
                    let id = self.dir(sub, false);
                    let n = self.blocks[id].bytes.len();
                    k.size = match self.rng.below(4) {
                        _ if empty && !self.o.gen.wide() => 0,
                        0 if empty => 0,
                        1 => 1,
                        2 => 1 + self.rng.below(n),
                        _ => n,
                    };
                    id
                }
            };
            ids.push(id);
        }
        let long = self.rng.chance(1, 8);
        let count = if self.o.gen.wide() {
            let plain = ((kids.len() as u64) << 16) | self.rng.below(65536) as u64;
            let e = (plain ^ self.o.h1 ^ self.o.t ^ 0x550EC4DD02C468EC) as i64;
            if e < 0 {
                self.neg += 1;
            }
            img::enc_int64(e, long)
        } else {
            // the count's own value is of no interest to the reader, it only marks the end of the list;
            // being encrypted it hardly ever fits one byte, where it could be taken for other data
            let own = self.o.gen.own_names();
            loop {
                let e = match self.rng.below(3) {
                    _ if own => *self.rng.pick(&[-1i32, 1]) * (128 + self.rng.below(0x7fffff00) as i32),
                    0 => self.rng.i32x(),
                    1 => -(1 + self.rng.below(0x7fffffff) as i32),
                    _ => self.rng.u32() as i32,
                };
                let b = img::enc_int(e, long);
                if !(1..=4).contains(&b[0]) {
                    if e < 0 {
                        self.neg += 1;
                    }
                    break b;
                }
            }
        };
        let mut b = Block { bytes: count.clone(), offs: vec![], at: 0 };
        for (i, k) in kids.iter().enumerate() {
            b.bytes.push(if matches!(k.t, T::Dir(_)) { 3u8 } else { 4 });
            if i == 0 && self.o.gen.own_names() {
                let n = self.first_name(&k.name);
                b.bytes.extend(n);
            } else {
                let (uni, lg) = (self.rng.chance(1, 10) && !(root && i == 0), self.rng.chance(1, 10));
                let e = img::enc_str(&k.name, self.o.iv, uni, lg);
                if root && i == 0 {
                    self.first = e.clone();
                }
                b.bytes.extend(e);
            }
            let lg = self.rng.chance(1, 8);
            b.bytes.extend(img::enc_int(k.size as i32, lg));
            let mut c = self.rng.i32x();
            if i == 0 && root && self.o.gen.own_names() {
                // a byte sum over a whole entry; tiny values could be taken for entry types
                c = c.wrapping_mul(65537) | 0x10000;
            }
            let lg = self.rng.chance(1, 8);
            b.bytes.extend(img::enc_int(c, lg));
        }
        if !self.o.gen.wide() {
            b.bytes.extend(count);
        }
        for (i, k) in kids.iter().enumerate() {
            b.offs.push((b.bytes.len(), ids[i]));
            b.bytes.extend([0; 4]);
            self.ids.insert(k as *const TE, ids[i]);
        }
        self.blocks.push(b);
        self.blocks.len() - 1
    }
    fn fill(&self, kids: &mut [TE]) {
        for k in kids.iter_mut() {
            k.off = self.blocks[self.ids[&(k as *const TE)]].at;
            if let T::Dir(s) = &mut k.t {
                self.fill(s);
            }
        }
    }
}

pub fn build(rng: &mut Rng, mut tree: Vec<TE>, o: &Pkg2) -> Built {
    let h2 = hash2(o.gen.check(), o.h1, o.t);
    let mut w = W { rng, o, blocks: vec![], ids: HashMap::new(), first: vec![], neg: 0 };
    let root = w.dir(&mut tree, true);
    let mut out: Vec<u8> = match o.gen {
        Gen::K1201 => w.rng.bytes(68),
        Gen::K1202 => w.rng.bytes(150),
        _ => {
            let mut v = b"PKG2".to_vec();
            v.extend([0; 8]);
            v.extend((o.fstart as u32).to_le_bytes());
            while v.len() < o.fstart {
                let x = w.rng.u8();
                v.push(x);
            }
            v.extend((o.h1 as u32).to_le_bytes());
            v.extend((h2 as u32).to_le_bytes());
            v
        }
    };
    let header = out.len();
    let mut order: Vec<usize> = (0..w.blocks.len()).filter(|i| *i != root).collect();
    w.rng.shuffle(&mut order);
    order.insert(0, root);
    for i in order {
        if i != root && o.junk && w.rng.chance(1, 3) {
            let n = w.rng.below(20);
            let j = w.rng.bytes(n);
            out.extend(j);
        }
        w.blocks[i].at = out.len();
        out.extend(w.blocks[i].bytes.clone());
    }
    // an empty directory needs a readable place too
    out.extend(w.rng.bytes(12));
    for b in &w.blocks {
        for (p, id) in &b.offs {
            let pos = b.at + p;
            let v = enc_offset(o.gen.formula(), pos, o.fstart, o.h1, o.t, img::evil(w.blocks[*id].at as i64) as u32 as usize);
            out[pos..pos + 4].copy_from_slice(&v.to_le_bytes());
        }
    }
    let body = (out.len() - header) as u32;
    let mut put = |at: &[usize], v: &[u8]| {
        for (a, b) in at.iter().zip(v) {
            out[*a] = *b;
        }
    };
    match o.gen {
        Gen::K1201 => {
            put(&[0x43, 0x1A, 0x30, 0x10], &(o.h1 as u32).to_le_bytes());
            put(&[0x2D, 0x07, 0x3F, 0x2E], &(h2 as u32).to_le_bytes());
            put(&[0x15, 0x19, 0x39, 0x41], &body.to_le_bytes());
        }
        Gen::K1202 => {
            put(&[0x48, 0x24, 0x0F, 0x31, 0x46, 0x47, 0x63, 0x67], &o.h1.to_le_bytes());
            put(&[0x8E, 0x8C, 0x93, 0x0E, 0x64, 0x7B, 0x2E, 0x4D], &h2.to_le_bytes());
            put(&[0x12, 0x09, 0x02, 0x95], &body.to_le_bytes());
        }
        _ => {
            let f = (out.len() - o.fstart) as u64;
            out[4..12].copy_from_slice(&f.to_le_bytes());
        }
    }
    if o.gen == Gen::K1201 && out.len() >= 150 {
        // must not look like the wider scrambled header
        let v = u32::from_le_bytes([out[0x12], out[0x09], out[0x02], out[0x95]]);
        if v as usize == out.len() - 150 {
            out[0x12] ^= 1;
        }
    }
    w.fill(&mut tree);
    Built { first_name: w.first.clone(), negative_counts: w.neg, bytes: out, tree }
}
