//! C19: build features change speed and order only.
//! Every build runs the same cases; each case ends in a digest of everything that came out of it,
//! which the supervisor compares between the builds. With ordered maps the stored order is checked in place.
use super::{c01, c06, c12, c14, c15, c16, c18};
use crate::canvas::{self, PORTABLE};
use crate::img::{self, Cmp, GenCfg, Img, Kids, V as Val};
use crate::pkg2;
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, TreeCfg, T};
use crate::{crypt, ms};
use std::fmt::Write;
use std::sync::{Arc, RwLock};
use wz_reader::property::{WzSubProperty, WzValue};
use wz_reader::util::profile::PKG2_PROFILE_CACHE;
use wz_reader::util::string_decryptor::EcbDecryptor;
use wz_reader::util::version::pkg2::{Pkg2VersionGen, VersionGen};
use wz_reader::util::{node_util, resolve_base, resolve_root_wz_file_dir};
use wz_reader::{SharedWzStringDecryptor, WzImage, WzNode, WzNodeArc, WzNodeCast, WzObjectType, WzReader};

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        quick: 6000,
        thorough: 200000,
        case,
        evals: "inputs_digested",
        distinct: "digests",
        rule: "each case is one input (archive, pack, image, canvases, damaged bytes, hash search, split layout) read by every build; distinct: digests of everything read from it",
        need: &["nodes_digested", "pixels_digested", "payloads_digested", "json_digested", "damaged_inputs", "searches", "layouts", "packs", "pkg1", "pkg2", "cross_build_digests_compared"],
        cpu_case: 300,
        digests: true,
        workers: 8,
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

struct D<'a> {
    c: &'a mut Ctx,
    text: String,
    pixels: bool,
    nodes: usize,
}
impl D<'_> {
    fn line(&mut self, s: impl AsRef<str>) {
        self.text.push_str(s.as_ref());
        self.text.push('\n');
    }
    fn image(&mut self, r: Result<image::DynamicImage, impl Sized>) -> String {
        match r {
            Ok(i) => {
                self.c.st.add("pixels_digested", i.width() as u64 * i.height() as u64);
                format!("{}x{} {:?} {:x}", i.width(), i.height(), i.color(), hash_bytes(i.as_bytes()))
            }
            Err(_) => "not decoded".into(),
        }
    }
    fn value(&mut self, n: &WzNode) -> String {
        let mut payload = |b: &[u8]| {
            self.c.st.add("payloads_digested", 1);
            format!("{} bytes {:x}", b.len(), hash_bytes(b))
        };
        match &n.object_type {
            WzObjectType::File(f) => format!("file {} {} {} {:x}", f.wz_file_meta.patch_version, f.wz_file_meta.wz_version_header, f.wz_file_meta.wz_with_encrypt_version_header, f.wz_file_meta.hash),
            WzObjectType::MsFile(_) => "ms file".into(),
            WzObjectType::Directory(d) => format!("directory {} {}", d.offset, d.block_size),
            WzObjectType::Image(i) => format!("image {} {} {}", i.name, i.offset, i.block_size),
            WzObjectType::MsImage(i) => format!("ms image {:?}", i.meta),
            WzObjectType::Property(WzSubProperty::PNG(p)) => {
                let a = format!("canvas {}x{} {:?} header {:x} pages {}", p.width, p.height, p.format(), p.header, p.pages);
                if self.pixels {
                    let b = self.image(p.extract_png());
                    format!("{a} {b}")
                } else {
                    a
                }
            }
            WzObjectType::Property(WzSubProperty::Sound(s)) => format!("sound {:?} {} {}", s.sound_type, s.duration, payload(&s.get_buffer())),
            WzObjectType::Property(p) => format!("property {}", kind(p)),
            WzObjectType::Value(WzValue::String(s)) => format!("string {:?}", s.get_string().ok()),
            WzObjectType::Value(WzValue::UOL(s)) => format!("uol {:?}", s.get_string().ok()),
            WzObjectType::Value(WzValue::RawData(d)) => format!("raw {}", payload(&d.get_buffer())),
            WzObjectType::Value(WzValue::Video(v)) => format!("video {}", payload(&v.get_buffer())),
            WzObjectType::Value(WzValue::Lua(l)) => format!("lua {:?}", l.extract_lua().ok()),
            WzObjectType::Value(WzValue::Float(f)) => format!("float {:x}", f.to_bits()),
            WzObjectType::Value(WzValue::Double(f)) => format!("double {:x}", f.to_bits()),
            WzObjectType::Value(WzValue::Vector(v)) => format!("vector {} {}", v.0, v.1),
            WzObjectType::Value(v) => format!("{v:?}"),
        }
    }
    /// everything below `n`, images parsed on the way
    fn tree(&mut self, n: &WzNodeArc, depth: usize, up: Option<&WzNodeArc>) {
        self.nodes += 1;
        if self.nodes > 20_000 || depth > 60 {
            return;
        }
        self.c.st.add("nodes_digested", 1);
        let img = matches!(n.read().unwrap().object_type, WzObjectType::Image(_) | WzObjectType::MsImage(_));
        let mut s = format!("{:depth$}", "");
        if img {
            let e = n.write().unwrap().parse(n).is_err();
            if e {
                s.push_str("(not parsed) ");
            }
        }
        let (name, own, mut kids) = {
            let r = n.read().unwrap();
            let v = self.value(&r);
            let same = match (r.parent.upgrade(), up) {
                (Some(a), Some(b)) => Arc::ptr_eq(&a, b),
                (None, None) => true,
                _ => false,
            };
            let k: Vec<(String, WzNodeArc)> = r.children.iter().map(|(k, c)| (k.to_string(), c.clone())).collect();
            (r.name.to_string(), format!("{v}{}", if same { "" } else { " (elsewhere)" }), k)
        };
        let _ = write!(s, "{name:?} {own} [{}]", kids.len());
        self.line(s);
        kids.sort_by(|a, b| a.0.cmp(&b.0));
        for (k, c) in kids {
            // what a link leads to is written where it lies
            let linked = match c.read().unwrap().parent.upgrade() {
                Some(p) => !Arc::ptr_eq(&p, n),
                None => true,
            };
            if linked {
                let full = c.read().unwrap().get_full_path();
                self.line(format!("{:depth$} {k:?} -> {full:?}", ""));
                continue;
            }
            self.tree(&c, depth + 1, Some(n));
        }
        if self.pixels {
            let linked = {
                let r = n.read().unwrap();
                matches!(r.object_type, WzObjectType::Property(WzSubProperty::PNG(_))) && (r.children.get("_inlink").is_some() || r.children.get("_outlink").is_some())
            };
            if linked {
                let r = wz_reader::property::get_image(n);
                let d = self.image(r);
                self.line(format!("{:depth$} linked {d}", ""));
            }
        }
    }
    fn json(&mut self, n: &WzNodeArc) {
        let dir = self.c.dir.to_string_lossy().to_string();
        let r = n.read().unwrap();
        for j in [r.to_json(), r.to_simple_json()] {
            match j {
                Ok(v) => {
                    let t = v.to_string().replace(&dir, "");
                    self.c.st.add("json_digested", 1);
                    self.text.push_str(&format!("json {} {:x}\n", t.len(), hash_bytes(t.as_bytes())));
                }
                Err(_) => self.text.push_str("no json\n"),
            }
        }
    }
    fn opened(&mut self, r: Result<WzNode, impl std::fmt::Display>) -> Option<WzNodeArc> {
        match r {
            Ok(n) => Some(n.into_lock()),
            Err(_) => {
                self.line("not opened");
                None
            }
        }
    }
    fn whole(&mut self, n: &WzNodeArc, json: bool) {
        let ok = n.write().unwrap().parse(n).is_ok();
        self.line(if ok { "parsed" } else { "not parsed" });
        self.tree(n, 0, None);
        if json {
            self.json(n);
        }
    }
}

fn kind(p: &WzSubProperty) -> &'static str {
    match p {
        WzSubProperty::Convex => "convex",
        WzSubProperty::Sound(_) => "sound",
        WzSubProperty::PNG(_) => "canvas",
        _ => "list",
    }
}

fn links(n: &WzNodeArc) -> bool {
    // exports and walks of trees with links to what is above never end
    let kids: Vec<(String, WzNodeArc)> = n.read().unwrap().children.iter().map(|(k, c)| (k.to_string(), c.clone())).collect();
    kids.iter().any(|(_, c)| match c.read().unwrap().parent.upgrade() {
        Some(p) => !Arc::ptr_eq(&p, n),
        None => true,
    } || links(c))
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    PORTABLE.set(true);
    let mut rng = c.rng(idx);
    let dir = c.dir.join(format!("d{idx}"));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut d = D { c, text: String::new(), pixels: true, nodes: 0 };
    let k = if idx < 2 { 100 } else { rng.below(20) };
    let r = match k {
        100 => exhaustive(&mut d, &mut rng, idx),
        0..=2 => pkg1(&mut d, &mut rng, &dir),
        3 | 4 => pkg2_case(&mut d, &mut rng, &dir),
        5 | 6 => pack(&mut d, &mut rng, &dir),
        7..=9 => image(&mut d, &mut rng, &dir),
        10..=13 => canvases(&mut d, &mut rng, &dir),
        14 | 15 => damaged(&mut d, &mut rng, &dir),
        16 => streams(&mut d, &mut rng, &dir),
        17 => layout(&mut d, &mut rng, &dir),
        _ => searches(&mut d, &mut rng),
    };
    PORTABLE.set(false);
    let text = std::mem::take(&mut d.text);
    let c = d.c;
    r?;
    let h = hash_bytes(text.as_bytes());
    c.digests.insert(idx, h);
    c.st.add("inputs_digested", 1);
    c.st.seen("digests", h);
    if let Ok(p) = std::env::var("WZMON_DUMP") {
        std::fs::write(p, &text).unwrap();
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

fn ivs(rng: &mut Rng) -> [u8; 4] {
    *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS])
}

fn pkg1(d: &mut D, rng: &mut Rng, dir: &std::path::Path) -> Result<(), Fail> {
    let mut cfg = TreeCfg::default();
    cfg.budget = *rng.pick(&[4, 20, 60]);
    let g = c01::gen(rng, &cfg, true);
    let f = dir.join("a.wz");
    std::fs::write(&f, &g.b.bytes).unwrap();
    d.line(format!("input {:x}", hash_bytes(&g.b.bytes)));
    d.c.st.add("pkg1", 1);
    d.c.st.sample(|| format!("archive of {} bytes, {:?} directories and images", g.b.bytes.len(), wz::count(&g.b.tree)));
    let ver = if rng.chance(1, 2) { Some(c01::version_of(g.o.iv)) } else { None };
    let Some(root) = d.opened(WzNode::from_wz_file_full(&f, ver, None, None, None)) else { return Ok(()) };
    d.whole(&root, true);
    // the stored order, where maps keep it
    wz::compare(&mut d.c.st, &root, &g.b.tree, "", true, false).map_err(Fail::from)
}

fn pkg2_case(d: &mut D, rng: &mut Rng, dir: &std::path::Path) -> Result<(), Fail> {
    let g = *rng.pick(&pkg2::ALL);
    let cfg = TreeCfg { byref: false, budget: *rng.pick(&[4, 15, 40]), ..Default::default() };
    let (o, b) = c06::make(rng, g, &cfg);
    let f = dir.join("b.wz");
    std::fs::write(&f, &b.bytes).unwrap();
    d.line(format!("input {:x}", hash_bytes(&b.bytes)));
    d.c.st.add("pkg2", 1);
    // the searches of the first generations and of the 64-bit one are quick
    let cold = g.wide() && rng.chance(1, 2);
    *PKG2_PROFILE_CACHE.write().unwrap() = if cold { vec![] } else { vec![c06::cached(g, o.t)] };
    let Some(root) = d.opened(WzNode::from_wz_file_full(&f, None, None, None, None)) else { return Ok(()) };
    d.whole(&root, true);
    wz::compare(&mut d.c.st, &root, &b.tree, "", true, false).map_err(Fail::from)
}

fn pack(d: &mut D, rng: &mut Rng, dir: &std::path::Path) -> Result<(), Fail> {
    let (p, _) = c14::gen(rng, 20);
    let b = ms::build(rng, &p);
    let f = dir.join(&p.file);
    std::fs::write(&f, &b.bytes).unwrap();
    d.line(format!("input {:x}", hash_bytes(&b.bytes)));
    d.c.st.add("packs", 1);
    let Some(root) = d.opened(WzNode::from_ms_file(&f, None)) else { return Ok(()) };
    d.whole(&root, false);
    if cfg!(feature = "f-indexmap") {
        let got: Vec<String> = root.read().unwrap().children.keys().map(|k| k.to_string()).collect();
        let want: Vec<String> = b.entries.iter().map(|e| e.name.clone()).collect();
        if got != want {
            return Err("the entries of a pack are not in stored order".into());
        }
    }
    Ok(())
}

/// a name more than once: the order in which a map takes them decides
fn repeat(rng: &mut Rng, k: &mut Kids) {
    if k.len() > 1 && rng.chance(1, 3) {
        let n = rng.pick(k).0.clone();
        let at = rng.below(k.len());
        k[at].0 = n;
    }
    for (_, v) in k.iter_mut() {
        if let Val::Prop(s) = v {
            repeat(rng, s);
        }
    }
}

fn image(d: &mut D, rng: &mut Rng, dir: &std::path::Path) -> Result<(), Fail> {
    let iv = ivs(rng);
    let cfg = GenCfg { wide: true, budget: *rng.pick(&[10, 60, 150]), ..Default::default() };
    let mut b = cfg.budget;
    let mut kids = img::gen_kids(rng, &cfg, 0, &mut b, iv);
    if rng.chance(1, 2) {
        c15::plainer(&mut kids);
    }
    let mut plain = true;
    if rng.chance(1, 2) {
        c15::link(rng, &mut kids);
        plain = false;
    }
    if rng.chance(1, 4) {
        repeat(rng, &mut kids);
        plain = false;
    }
    let im = Img::Props(kids);
    let bytes = img::encode(rng, &im, iv);
    let f = dir.join("i.img");
    std::fs::write(&f, &bytes).unwrap();
    d.line(format!("input {:x}", hash_bytes(&bytes)));
    d.c.st.add("images", 1);
    let Some(root) = d.opened(WzNode::from_img_file(&f, Some(c01::version_of(iv)), None)) else { return Ok(()) };
    d.whole(&root, false);
    if !links(&root) {
        d.json(&root);
        // children moved to another node
        let to = WzNode::from_str("to", WzObjectType::Value(WzValue::Null), None).into_lock();
        let order: Vec<String> = root.read().unwrap().children.keys().map(|k| k.to_string()).collect();
        if plain {
            let mut cmp = Cmp::new(&mut d.c.st);
            cmp.image(&root, &im, "").map_err(Fail::from)?;
        }
        root.write().unwrap().transfer_childs(&to);
        if cfg!(feature = "f-indexmap") {
            let got: Vec<String> = to.read().unwrap().children.keys().map(|k| k.to_string()).collect();
            if got != order {
                return Err("transferred children are in another order".into());
            }
        }
        d.line("transferred");
        d.tree(&to, 0, None);
    }
    Ok(())
}

fn canvases(d: &mut D, rng: &mut Rng, dir: &std::path::Path) -> Result<(), Fail> {
    let iv = ivs(rng);
    let mut kids: Kids = vec![];
    for i in 0..1 + rng.below(8) {
        let f = if rng.chance(1, 12) { *rng.pick(canvas::UNSUPPORTED) } else { *rng.pick(canvas::FORMATS) };
        let (mut w, mut h) = c12::size(rng, f);
        if rng.chance(1, 40) {
            w = 0;
        }
        if rng.chance(1, 40) {
            h = 0;
        }
        let mut m = canvas::gen(rng, iv, f, w, h);
        // sizes that do not fit the data: more than needed, or fewer
        if rng.chance(1, 8) {
            m.w = m.w.saturating_sub(rng.below(3) as u32);
        }
        if rng.chance(1, 20) {
            m.h += 1;
        }
        kids.push((format!("c{i}"), Val::Canvas(m, None)));
    }
    let bytes = img::encode_props(rng, &kids, iv);
    let f = dir.join("c.img");
    std::fs::write(&f, &bytes).unwrap();
    d.line(format!("input {:x}", hash_bytes(&bytes)));
    d.c.st.add("canvas_images", 1);
    let Some(root) = d.opened(WzNode::from_img_file(&f, Some(c01::version_of(iv)), None)) else { return Ok(()) };
    d.whole(&root, false);
    Ok(())
}

/// compressed data that ends early or goes on
fn streams(d: &mut D, rng: &mut Rng, dir: &std::path::Path) -> Result<(), Fail> {
    let iv = ivs(rng);
    let mut kids: Kids = vec![];
    for i in 0..1 + rng.below(8) {
        let f = *rng.pick(canvas::FORMATS);
        let (w, h) = canvas::gen_size(rng, f, 40);
        let mut m = canvas::gen(rng, iv, f, w, h);
        match rng.below(3) {
            // (a cut chunk takes the rest from what follows, which is no deflate data)
            0 if m.form == "zlib" => {
                let n = m.stored.len();
                m.stored.truncate(n - rng.below(n.min(40)));
            }
            1 if m.form == "zlib" => {
                let n = 1 + rng.below(30);
                let more = rng.bytes(n);
                m.stored.extend(more);
            }
            _ => {}
        }
        d.c.st.add("cut_or_continued_streams", 1);
        kids.push((format!("c{i}"), Val::Canvas(m, None)));
    }
    let bytes = img::encode_props(rng, &kids, iv);
    let f = dir.join("s.img");
    std::fs::write(&f, &bytes).unwrap();
    d.line(format!("input {:x}", hash_bytes(&bytes)));
    let Some(root) = d.opened(WzNode::from_img_file(&f, Some(c01::version_of(iv)), None)) else { return Ok(()) };
    d.whole(&root, false);
    Ok(())
}

fn damaged(d: &mut D, rng: &mut Rng, dir: &std::path::Path) -> Result<(), Fail> {
    // damaged streams are the business of the inflate backends
    d.pixels = false;
    d.c.st.add("damaged_inputs", 1);
    if rng.chance(2, 3) {
        let iv = ivs(rng);
        let cfg = GenCfg { budget: *rng.pick(&[4, 20, 60]), ..Default::default() };
        let mut im = wz::gen_img(rng, &cfg, iv, false);
        if let Img::Props(k) = &mut im {
            repeat(rng, k);
        }
        img::evil_on(*rng.pick(&[8, 30, 120, 300]), rng.u64());
        let mut b = img::encode(rng, &im, iv);
        img::evil_off();
        if rng.chance(1, 2) {
            c16::damage(d.c, rng, &mut b);
        }
        d.line(format!("input {:x}", hash_bytes(&b)));
        let name = match &im {
            Img::Lua(..) => "a.lua",
            Img::Txt(_) => "a.txt",
            _ => "a.img",
        };
        let reader = Arc::new(WzReader::from_buff(&b).with_iv(iv));
        let root = WzNode::from_str(name, WzImage::new(&name.into(), 0, b.len(), &reader), None).into_lock();
        d.whole(&root, false);
    } else {
        let budget = *rng.pick(&[3, 8, 25]);
        let g = c01::gen_with(rng, &TreeCfg { budget, ..Default::default() }, true, None);
        let mut b = g.b.bytes;
        img::evil_on(*rng.pick(&[8, 30, 120]), rng.u64());
        if rng.chance(1, 2) {
            b = wz::build_pkg1(rng, g.b.tree, &g.o).bytes;
        }
        img::evil_off();
        c16::damage(d.c, rng, &mut b);
        let f = dir.join("d.wz");
        std::fs::write(&f, &b).unwrap();
        d.line(format!("input {:x}", hash_bytes(&b)));
        // damaged into the second package kind: minutes of searching
        if b.starts_with(b"PKG2") {
            return Ok(());
        }
        let key: SharedWzStringDecryptor = Arc::new(RwLock::new(EcbDecryptor::from_iv(g.o.iv)));
        let Some(root) = d.opened(WzNode::from_wz_file_full(&f, None, None, None, Some(&key))) else { return Ok(()) };
        d.whole(&root, false);
    }
    Ok(())
}

fn layout(d: &mut D, rng: &mut Rng, dir: &std::path::Path) -> Result<(), Fail> {
    let l = loop {
        if let Some(l) = c18::layout(rng) {
            break l;
        }
    };
    d.c.st.add("layouts", 1);
    for x in &l.dirs {
        std::fs::create_dir_all(dir.join(x)).unwrap();
    }
    for (p, b) in &l.files {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, b).unwrap();
        d.line(format!("input {:x}", hash_bytes(b)));
    }
    let p = dir.join(&l.file);
    let r = if l.base { resolve_base(&p, None) } else { resolve_root_wz_file_dir(&p, None) };
    match r {
        Ok(n) => {
            d.tree(&n, 0, None);
            d.json(&n);
        }
        Err(_) => d.line("not resolved"),
    }
    Ok(())
}

fn gen(v: u32) -> Pkg2VersionGen {
    super::c07::g(v)
}

fn searches(d: &mut D, rng: &mut Rng) -> Result<(), Fail> {
    for v in [1u32, 2, 3, 6] {
        let (h1, t) = if v == 6 { (rng.u64(), rng.u64()) } else { (rng.u32() as u64, rng.u32() as u64) };
        let h2 = if rng.chance(2, 3) { pkg2::hash2(v, h1, t) } else if v == 6 { rng.u64() } else { rng.u32() as u64 };
        let found: Vec<u64> = if v == 6 { gen(v).get_generator_u64(h1, h2).get_iter().collect() } else { gen(v).get_generator(h1, h2).get_iter().map(|x| x as u64).collect() };
        d.line(format!("search {v} {h1:x} {h2:x}: {found:x?}"));
        d.c.st.add("searches", 1);
    }
    let (h1, h2) = (rng.u32(), rng.u32());
    let found: Vec<u32> = VersionGen::new(h1, h2).collect();
    d.line(format!("chained {h1:x} {h2:x}: {found:x?}"));
    Ok(())
}

/// the searches that run through all candidates, in parallel in some builds
fn exhaustive(d: &mut D, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let v = 4 + (idx % 2) as u32;
    let (h1, t) = (rng.u32() as u64, rng.u32() as u64);
    let h2 = pkg2::hash2(v, h1, t);
    d.c.status(idx, "exhaustive hash search");
    let found: Vec<u64> = gen(v).get_generator(h1, h2).get_iter().map(|x| x as u64).collect();
    d.line(format!("search {v} {h1:x} {h2:x}: {found:x?}"));
    d.c.st.add("exhaustive_searches", 1);
    Ok(())
}
