//! Archive models and independent PKG1 / PKG2 writers, with a comparator for parsed trees.
use crate::crypt;
use crate::img::{self, Cmp, GenCfg, Img};
use crate::rng::Rng;
use crate::stats::Stats;
use std::collections::{HashMap, HashSet};
use wz_reader::{WzNodeArc, WzObjectType};

#[derive(Clone, Debug)]
pub enum T {
    Dir(Vec<TE>),
    Img(Img, Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct TE {
    pub name: String,
    pub t: T,
    pub byref: bool,
    /// stored size field and place (filled by the writer)
    pub size: usize,
    pub off: usize,
}

pub struct TreeCfg {
    pub budget: usize,
    pub depth: usize,
    pub img: GenCfg,
    pub byref: bool,
    pub special_names: bool,
    pub only_props: bool,
    pub root_min: usize,
    pub wide: bool,
    /// entries of one very large directory (in the root where root_min says the same)
    pub many: usize,
}
impl Default for TreeCfg {
    fn default() -> Self {
        TreeCfg {
            budget: 24,
            depth: 4,
            img: GenCfg { max_depth: 3, budget: 8, blobs: 40, canvases: true, ..Default::default() },
            byref: true,
            special_names: true,
            only_props: false,
            root_min: 1,
            wide: true,
            many: 0,
        }
    }
}

pub fn gen_img(rng: &mut Rng, cfg: &GenCfg, iv: [u8; 4], only_props: bool) -> Img {
    match if only_props { 9 } else { rng.below(12) } {
        0 => {
            let mut t = img::gen_text(rng);
            if t.is_empty() {
                t.push('x');
            }
            Img::Lua(t.into_bytes(), *rng.pick(&["ems", "gms", "none"]))
        }
        1 => {
            let n = rng.below(200);
            let mut d = rng.bytes(n.max(1));
            d[0] = *rng.pick(&[0x73, 0x01, 0x23]);
            Img::Txt(d)
        }
        2 => {
            let n = rng.below(200);
            Img::Pack(rng.bytes(n))
        }
        _ => {
            let mut b = cfg.budget;
            Img::Props(img::gen_kids(rng, cfg, 0, &mut b, iv))
        }
    }
}

/// Would a script of this text be found under an earlier cipher of the documented order?
pub fn lua_ambiguous(t: &[u8], cipher: &str) -> bool {
    let order = [("ems", crypt::IV_EMS), ("gms", crypt::IV_GMS), ("none", crypt::IV_BMS)];
    let own = order.iter().find(|o| o.0 == cipher).unwrap().1;
    let n = t.len().min(64);
    let kown = crypt::keystream(own, n);
    for (c, iv) in order {
        if c == cipher {
            return false;
        }
        let k = crypt::keystream(iv, n);
        let d: Vec<u8> = (0..n).map(|i| t[i] ^ kown[i] ^ k[i]).collect();
        if std::str::from_utf8(&d).is_ok() || matches!(std::str::from_utf8(&d), Err(e) if e.error_len().is_none()) {
            return true;
        }
    }
    false
}

/// A tree with one very large directory.
pub fn gen_many(rng: &mut Rng, n: usize, iv: [u8; 4], root: bool) -> Vec<TE> {
    let small = GenCfg { max_depth: 1, budget: 2, blobs: 0, canvases: false, ..Default::default() };
    let some: Vec<(Img, Vec<u8>)> = (0..6)
        .map(|_| {
            let i = gen_img(rng, &small, iv, true);
            let e = img::encode(rng, &i, iv);
            (i, e)
        })
        .collect();
    let many: Vec<TE> = (0..n)
        .map(|k| {
            let (i, e) = rng.pick(&some).clone();
            let t = if rng.chance(1, 20) { T::Dir(vec![]) } else { T::Img(i, e) };
            TE { name: format!("e{k}"), t, byref: false, size: 0, off: 0 }
        })
        .collect();
    if root {
        return many;
    }
    let (i, e) = some[0].clone();
    let te = |name: &str, t| TE { name: name.into(), t, byref: false, size: 0, off: 0 };
    vec![te("first.img", T::Img(i, e)), te("many", T::Dir(many))]
}

pub fn gen_tree(rng: &mut Rng, cfg: &TreeCfg, iv: [u8; 4]) -> Vec<TE> {
    if cfg.many > 0 {
        return gen_many(rng, cfg.many, iv, cfg.root_min == cfg.many);
    }
    let mut b = cfg.budget;
    gen_dir(rng, cfg, iv, 0, &mut b)
}

fn gen_dir(rng: &mut Rng, cfg: &TreeCfg, iv: [u8; 4], depth: usize, budget: &mut usize) -> Vec<TE> {
    let wide = cfg.wide && rng.chance(1, 14);
    let want = if wide {
        *rng.pick(&[126usize, 127, 128, 129, 200, 256, 300])
    } else if rng.chance(1, 8) {
        0
    } else {
        1 + rng.below(7)
    };
    let mut n = if wide { want } else { want.min(*budget) };
    if depth == 0 {
        n = n.max(cfg.root_min);
    }
    *budget = budget.saturating_sub(n);
    let mut used = HashSet::new();
    let mut v: Vec<TE> = vec![];
    for _ in 0..n {
        let mut name = img::gen_name(rng, &mut used, cfg.special_names);
        let sub = depth + 1 < cfg.depth && rng.chance(2, 5);
        let t = if sub {
            if wide {
                T::Dir(vec![])
            } else {
                T::Dir(gen_dir(rng, cfg, iv, depth + 1, budget))
            }
        } else {
            let small = GenCfg { max_depth: 1, budget: 2, blobs: 0, canvases: false, ..Default::default() };
            let mut i = gen_img(rng, if wide { &small } else { &cfg.img }, iv, cfg.only_props || wide);
            if let Img::Lua(t, c) = &i {
                if lua_ambiguous(t, c) {
                    i = Img::Pack(vec![1, 2, 3]);
                }
            }
            let suffix = match &i {
                Img::Lua(..) => ".lua",
                Img::Txt(_) => ".txt",
                _ => {
                    if name.ends_with(".txt") || (name.ends_with(".lua")) {
                        "_"
                    } else {
                        ""
                    }
                }
            };
            if !suffix.is_empty() {
                used.remove(&name);
                name.push_str(suffix);
                while !used.insert(name.clone()) {
                    name = format!("q{name}");
                }
            }
            let e = img::encode(rng, &i, iv);
            T::Img(i, e)
        };
        v.push(TE { name, t, byref: cfg.byref && rng.chance(1, 5), size: 0, off: 0 });
    }
    v
}

/// Does the first entry's stored name (bytes `enc` of the usual string form) read as plain ASCII under `iv`?
pub fn ascii_under(enc: &[u8], iv: [u8; 4]) -> bool {
    let len = enc[0] as i8;
    let (uni, n, at) = match len {
        0 => return true,
        127 => (true, i32::from_le_bytes(enc[1..5].try_into().unwrap()) as usize, 5),
        -128 => (false, i32::from_le_bytes(enc[1..5].try_into().unwrap()) as usize, 5),
        l if l > 0 => (true, l as usize, 1),
        l => (false, (-(l as i32)) as usize, 1),
    };
    if uni {
        let k = crypt::keystream(iv, n * 2);
        (0..n).all(|i| {
            let c = u16::from_le_bytes([enc[at + 2 * i] ^ k[2 * i], enc[at + 2 * i + 1] ^ k[2 * i + 1]]);
            c ^ 0xAAAAu16.wrapping_add(i as u16) < 0x80
        })
    } else {
        let k = crypt::keystream(iv, n);
        (0..n).all(|i| enc[at + i] ^ k[i] ^ 0xAAu8.wrapping_add(i as u8) < 0x80)
    }
}

pub fn ver_hash(v: i32) -> u32 {
    v.to_string().bytes().fold(0u32, |h, c| h.wrapping_mul(32).wrapping_add(c as u32 + 1))
}
pub fn ver_enc(h: u32) -> u16 {
    let b = h.to_le_bytes();
    (0xff ^ b[0] ^ b[1] ^ b[2] ^ b[3]) as u16
}

const C: u32 = 0x581C3F6D;

/// stored (encrypted) offset for PKG1
pub fn pkg1_enc(pos: usize, fstart: usize, hash: u32, target: usize) -> u32 {
    let mut o = !((pos - fstart) as u32);
    o = o.wrapping_mul(hash).wrapping_sub(C);
    o = o.rotate_left(o & 31);
    o ^ (target as u32).wrapping_sub(2 * fstart as u32)
}

enum Hole {
    Off(usize),           // block id whose place is stored here (encrypted)
    Name(u8, String),     // by-reference name
}
struct Block {
    bytes: Vec<u8>,
    holes: Vec<(usize, Hole)>,
    inline: Vec<(usize, u8, String)>,
    at: usize,
}

pub struct Pkg1 {
    pub fstart: usize,
    pub version: i32,
    pub encver: bool,
    pub iv: [u8; 4],
    pub ignorable: bool,
    pub junk: bool,
    pub plain: bool,
}

pub struct Built {
    pub bytes: Vec<u8>,
    pub tree: Vec<TE>,
    pub hash: u32,
    pub ignored: usize,
    pub byref: usize,
    /// encoded name of the first stored root entry
    pub first_name: Vec<u8>,
    /// where the place of each root entry is stored, its size, and whether it is an image
    root: Vec<(usize, usize, bool)>,
    fstart: usize,
    encver: bool,
    version: i32,
}

impl Built {
    /// Could the root entries be those of an archive of this version as well? (every one of them inside the
    /// file, every image beginning like one)
    pub fn passes(&self, version: i32) -> bool {
        let hash = ver_hash(version);
        self.root.iter().all(|(pos, size, image)| {
            let e = u32::from_le_bytes(self.bytes[*pos..pos + 4].try_into().unwrap());
            let at = (e ^ pkg1_enc(*pos, self.fstart, hash, 2 * self.fstart)).wrapping_add(2 * self.fstart as u32) as usize;
            at + size <= self.bytes.len() && (!image || self.bytes.get(at).is_none_or(|b| [0x73, 0x01, 0x23, 0x1b].contains(b)))
        })
    }
    /// Is there another version, earlier in the order of the detection, that the archive could be of?
    /// (the stored value may be the check value of a version or the version itself)
    pub fn version_ambiguous(&self) -> bool {
        let first = if self.encver { 1 } else { 770 };
        let e = ver_enc(ver_hash(self.version));
        !self.root.is_empty() && (first..self.version).any(|v| (!self.encver || ver_enc(ver_hash(v)) == e || v == e as i32) && self.passes(v))
    }
}

struct W<'a> {
    rng: &'a mut Rng,
    o: &'a Pkg1,
    blocks: Vec<Block>,
    pool: Vec<(u8, String)>,
    ignored: usize,
    byref: usize,
    first: Option<Vec<u8>>,
    ids: HashMap<*const TE, usize>,
}

impl<'a> W<'a> {
    fn int(&mut self, v: i32) -> Vec<u8> {
        let l = !self.o.plain && self.rng.chance(1, 8);
        img::enc_int(v, l)
    }
    fn dir(&mut self, kids: &mut [TE], root: bool) -> usize {
        // children first: their sizes are stored here
        let mut ids = vec![];
        for k in kids.iter_mut() {
            let id = match &mut k.t {
                T::Img(_, e) => {
                    k.size = e.len();
                    self.blocks.push(Block { bytes: e.clone(), holes: vec![], inline: vec![], at: 0 });
                    self.blocks.len() - 1
                }
                T::Dir(sub) => {
                    let empty = sub.is_empty();
                    let id = self.dir(sub, false);
                    let n = self.blocks[id].bytes.len();
                    k.size = match self.rng.below(4) {
                        0 if empty => 0,
                        1 => 1,
                        2 => 1 + self.rng.below(n),
                        _ => n,
                    };
                    id
                }
            };
            ids.push(id);
        }
        let mut ign: Vec<usize> = vec![];
        if self.o.ignorable && self.rng.chance(1, 2) {
            for _ in 0..1 + self.rng.below(3) {
                ign.push(self.rng.below(kids.len() + 1));
            }
        }
        self.ignored += ign.len();
        let mut b = Block { bytes: self.int((kids.len() + ign.len()) as i32), holes: vec![], inline: vec![], at: 0 };
        for i in 0..=kids.len() {
            for _ in ign.iter().filter(|x| **x == i) {
                b.bytes.push(1);
                let j = self.rng.bytes(10);
                b.bytes.extend(j);
            }
            if i == kids.len() {
                break;
            }
            let k = &kids[i];
            let ty = if matches!(k.t, T::Dir(_)) { 3u8 } else { 4 };
            if k.byref {
                self.byref += 1;
                b.bytes.push(2);
                b.holes.push((b.bytes.len(), Hole::Name(ty, k.name.clone())));
                b.bytes.extend([0; 4]);
                if !self.pool.contains(&(ty, k.name.clone())) {
                    self.pool.push((ty, k.name.clone()));
                }
                if root && self.first.is_none() {
                    self.first = Some(img::enc_str(&k.name, self.o.iv, false, false));
                }
            } else {
                b.inline.push((b.bytes.len(), ty, k.name.clone()));
                b.bytes.push(ty);
                let uni = !self.o.plain && self.rng.chance(1, 10);
                let long = !self.o.plain && self.rng.chance(1, 10);
                let e = img::enc_str(&k.name, self.o.iv, uni, long);
                if root && self.first.is_none() {
                    self.first = Some(e.clone());
                }
                b.bytes.extend(e);
            }
            let s = self.int(k.size as i32);
            b.bytes.extend(s);
            let c = self.rng.i32x();
            let s = self.int(c);
            b.bytes.extend(s);
            b.holes.push((b.bytes.len(), Hole::Off(ids[i])));
            b.bytes.extend([0; 4]);
            self.ids.insert(k as *const TE, ids[i]);
        }
        self.blocks.push(b);
        self.blocks.len() - 1
    }
    fn fill(&self, kids: &mut [TE]) {
        for k in kids.iter_mut() {
            let id = self.ids[&(k as *const TE)];
            k.off = self.blocks[id].at;
            if let T::Dir(s) = &mut k.t {
                self.fill(s);
            }
        }
    }
}

pub fn build_pkg1(rng: &mut Rng, mut tree: Vec<TE>, o: &Pkg1) -> Built {
    let hash = ver_hash(o.version);
    let mut w = W { rng, o, blocks: vec![], pool: vec![], ignored: 0, byref: 0, first: None, ids: HashMap::new() };
    let root = w.dir(&mut tree, true);
    let inline: HashSet<(u8, String)> = w.blocks.iter().flat_map(|b| b.inline.iter().map(|x| (x.1, x.2.clone()))).collect();
    let mut pool_ids: HashMap<(u8, String), usize> = HashMap::new();
    for (ty, n) in std::mem::take(&mut w.pool) {
        if inline.contains(&(ty, n.clone())) && w.rng.chance(1, 2) {
            continue;
        }
        let mut bytes = vec![ty];
        let uni = !o.plain && w.rng.chance(1, 10);
        bytes.extend(img::enc_str(&n, o.iv, uni, false));
        w.blocks.push(Block { bytes, holes: vec![], inline: vec![], at: 0 });
        pool_ids.insert((ty, n), w.blocks.len() - 1);
    }
    let mut out: Vec<u8> = b"PKG1".to_vec();
    out.extend([0u8; 8]);
    out.extend((o.fstart as u32).to_le_bytes());
    let cr = b"Package file v1.0 Copyright 2002 Wizet, ZMS\0";
    while out.len() < o.fstart {
        let i = out.len() - 16;
        let c = if i < cr.len() { cr[i] } else { w.rng.u8() };
        out.push(c);
    }
    if o.encver {
        out.extend(ver_enc(hash).to_le_bytes());
    }
    let mut order: Vec<usize> = (0..w.blocks.len()).filter(|i| *i != root).collect();
    w.rng.shuffle(&mut order);
    order.insert(0, root);
    for i in order {
        if i != root && o.junk && w.rng.chance(1, 3) {
            let n = w.rng.below(20);
            let j = w.rng.bytes(n);
            out.extend(j);
        }
        w.blocks[i].at = out.len();
        out.extend(w.blocks[i].bytes.clone());
    }
    if o.junk && w.rng.chance(1, 3) {
        let n = w.rng.below(40);
        let j = w.rng.bytes(n);
        out.extend(j);
    }
    let mut where_inline: HashMap<(u8, String), Vec<usize>> = HashMap::new();
    for b in &w.blocks {
        for (p, ty, n) in &b.inline {
            where_inline.entry((*ty, n.clone())).or_default().push(b.at + p);
        }
    }
    let mut first_at = None;
    for (bi, b) in w.blocks.iter().enumerate() {
        for (p, h) in &b.holes {
            let pos = b.at + p;
            let v = match h {
                Hole::Off(id) => pkg1_enc(pos, o.fstart, hash, img::evil(w.blocks[*id].at as i64) as u32 as usize),
                Hole::Name(ty, n) => {
                    let key = (*ty, n.clone());
                    let at = match pool_ids.get(&key) {
                        Some(id) => w.blocks[*id].at,
                        None => *w.rng.pick(&where_inline[&key]),
                    };
                    if bi == root && first_at.is_none() && tree.first().map(|t| t.byref && &t.name == n).unwrap_or(false) {
                        first_at = Some(at + 1);
                    }
                    img::evil((at - o.fstart) as i64) as u32
                }
            };
            out[pos..pos + 4].copy_from_slice(&v.to_le_bytes());
        }
    }
    let fsize = (out.len() - o.fstart) as u64;
    out[4..12].copy_from_slice(&fsize.to_le_bytes());
    w.fill(&mut tree);
    let (ignored, byref, mut first_name) = (w.ignored, w.byref, w.first.clone().unwrap_or_default());
    if let Some(at) = first_at {
        first_name = out[at..].to_vec();
    }
    let rb = &w.blocks[root];
    let offs: Vec<usize> = rb.holes.iter().filter(|h| matches!(h.1, Hole::Off(_))).map(|h| rb.at + h.0).collect();
    let rooted = tree.iter().zip(offs).map(|(t, p)| (p, t.size, matches!(t.t, T::Img(..)))).collect();
    Built { bytes: out, tree, hash, ignored, byref, first_name, root: rooted, fstart: o.fstart, encver: o.encver, version: o.version }
}

pub fn count(tree: &[TE]) -> (usize, usize) {
    let (mut d, mut i) = (0, 0);
    for t in tree {
        match &t.t {
            T::Dir(k) => {
                d += 1;
                let x = count(k);
                d += x.0;
                i += x.1;
            }
            T::Img(..) => i += 1,
        }
    }
    (d, i)
}
pub fn shape(tree: &[TE]) -> u64 {
    let mut h = 7u64;
    for t in tree {
        h = h.wrapping_mul(0x100000001b3) ^ crate::rng::hash_str(&t.name) ^ t.size as u64;
        if let T::Dir(k) = &t.t {
            h = h.wrapping_mul(31).wrapping_add(shape(k));
        }
    }
    h
}

/// Compare the parsed tree below `node` with the stored tree. `parse`: also parse images and compare their content.
pub fn compare(st: &mut Stats, node: &WzNodeArc, tree: &[TE], path: &str, parse: bool, pixels: bool) -> Result<(), String> {
    let got: Vec<(String, WzNodeArc)> = node.read().unwrap().children.iter().map(|(n, c)| (n.to_string(), c.clone())).collect();
    st.add("directories_compared", 1);
    if got.len() != tree.len() {
        return Err(format!("{path}: {} entries, stored {}", got.len(), tree.len()));
    }
    if cfg!(feature = "f-indexmap") {
        for (g, t) in got.iter().zip(tree) {
            if g.0 != t.name {
                return Err(format!("{path}: iteration order has {:?} where {:?} is stored", g.0, t.name));
            }
        }
    }
    let map: HashMap<&str, &WzNodeArc> = got.iter().map(|(n, c)| (n.as_str(), c)).collect();
    for t in tree {
        let p = format!("{path}/{}", t.name.chars().take(30).collect::<String>());
        let c = *map.get(t.name.as_str()).ok_or_else(|| format!("{path}: stored entry {:?} is missing", t.name))?;
        st.add("entries_compared", 1);
        let r = c.read().unwrap();
        if r.name.as_str() != t.name {
            return Err(format!("{p}: node is named {:?}", r.name.as_str()));
        }
        match r.parent.upgrade() {
            Some(q) if std::sync::Arc::ptr_eq(&q, node) => {}
            _ => return Err(format!("{p}: parent link does not lead to the listing node")),
        }
        match (&t.t, &r.object_type) {
            (T::Dir(k), WzObjectType::Directory(d)) => {
                if d.offset != t.off {
                    return Err(format!("{p}: directory offset {}, stored {}", d.offset, t.off));
                }
                if d.block_size != t.size {
                    return Err(format!("{p}: directory size {}, stored {}", d.block_size, t.size));
                }
                drop(r);
                compare(st, c, k, &p, parse, pixels)?;
            }
            (T::Img(i, _), WzObjectType::Image(m)) => {
                if m.offset != t.off {
                    return Err(format!("{p}: image offset {}, stored {}", m.offset, t.off));
                }
                if m.block_size != t.size {
                    return Err(format!("{p}: image size {}, stored {}", m.block_size, t.size));
                }
                if m.name.as_str() != t.name {
                    return Err(format!("{p}: image is named {:?}", m.name.as_str()));
                }
                drop(r);
                if parse {
                    c.write().unwrap().parse(c).map_err(|e| format!("{p}: image does not parse: {e}"))?;
                    let mut cmp = Cmp::new(st);
                    cmp.pixels = pixels;
                    cmp.payloads = true;
                    cmp.image(c, i, &p)?;
                }
            }
            (T::Dir(_), _) => return Err(format!("{p}: stored directory read as something else")),
            (T::Img(..), _) => return Err(format!("{p}: stored image read as something else")),
        }
    }
    Ok(())
}
