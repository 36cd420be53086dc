//! C17: concurrent use.
//!
//! Built plainly, the threads of a case run freely and the supervisor watches for a process in which every thread
//! waits. Built as variant `sched` the locks of the library are those of shim/wzstd.rs: one thread runs at a time, the
//! scheduler chooses at every lock operation, and a deadlock is seen when nobody can go on.
use crate::img::{self, GenCfg, Img, Kids, V as Val};
use crate::ms;
use crate::rng::{hash_str, Rng};
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, T, TE};
use crate::{canvas, crypt};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::{Arc, RwLock};
use wz_reader::property::{get_image, resolve_string_from_node, WzSubProperty, WzValue};
use wz_reader::util::node_util;
use wz_reader::util::string_decryptor::EcbDecryptor;
use wz_reader::util::walk_node;
use wz_reader::{SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast, WzObjectType};

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        quick: 4000,
        thorough: 60000,
        case,
        evals: "operations_checked",
        distinct: "histories",
        rule: "each case opens an archive or pack several times and runs 2 to 8 threads of random operations on each tree; distinct: schedules (the order of all lock operations) under the scheduler, the sequences of observed outcomes where threads run freely",
        need: &["rounds", "operations_checked", "saw_unparsed", "saw_parsed", "linked_canvases", "unparse_rounds", "pack_rounds", "upward_rounds", "racing_parsers"],
        cpu_case: 120,
        digests: false,
        workers: 8,
    }
}

/// what a node is when nobody disturbs
#[derive(Clone)]
struct Exp {
    value: u64,
    kids: Vec<String>,
    image: bool,
    /// the node is reached through a link: its name and parent are another's
    linked: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Wz,
    Ms,
}

struct World {
    kind: Kind,
    file: PathBuf,
    iv: [u8; 4],
    exp: BTreeMap<String, Exp>,
    images: Vec<String>,
    dirs: Vec<String>,
    canvases: Vec<String>,
    strings: Vec<String>,
    below: Vec<String>,
    /// canvas path -> (pixels with its links followed, its own pixels)
    pixels: BTreeMap<String, (u64, u64)>,
    /// image path -> export when parsed, when not
    json: BTreeMap<String, (String, String)>,
    text: BTreeMap<String, Option<String>>,
    /// canvases with an inlink or outlink: (canvas, is inlink, link, where it leads)
    links: Vec<(String, bool, String, String)>,
}

fn hash_bytes(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

/// kind and value of one node, apart from its children
fn value(n: &WzNode) -> u64 {
    let s = match &n.object_type {
        WzObjectType::File(_) => "file".into(),
        WzObjectType::MsFile(_) => "msfile".into(),
        WzObjectType::Directory(_) => "dir".into(),
        WzObjectType::Image(_) | WzObjectType::MsImage(_) => "image".into(),
        WzObjectType::Property(WzSubProperty::PNG(p)) => format!("png {}x{} {:?}", p.width, p.height, p.extract_png().map(|i| hash_bytes(i.as_bytes())).map_err(|e| e.to_string())),
        WzObjectType::Property(WzSubProperty::Sound(s)) => format!("sound {:?}", s.get_buffer()),
        WzObjectType::Property(p) => format!("{:?}", std::mem::discriminant(p)),
        WzObjectType::Value(WzValue::String(s) | WzValue::UOL(s)) => format!("string {:?}", s.get_string().map_err(|e| e.to_string())),
        WzObjectType::Value(WzValue::RawData(d)) => format!("raw {:?}", d.get_buffer()),
        WzObjectType::Value(WzValue::Lua(l)) => format!("lua {:?}", l.extract_lua().ok()),
        WzObjectType::Value(WzValue::Video(v)) => format!("video {:?}", v.get_buffer()),
        WzObjectType::Value(WzValue::ParsedString(v)) => format!("text {v:?}"),
        WzObjectType::Value(v @ (WzValue::Null | WzValue::Short(_) | WzValue::Int(_) | WzValue::Long(_) | WzValue::Float(_) | WzValue::Double(_) | WzValue::Vector(_))) => format!("{v:?}"),
        _ => "other".into(),
    };
    hash_str(&s)
}

fn kids_of(n: &WzNode) -> Vec<String> {
    let mut v: Vec<String> = n.children.keys().map(|k| k.to_string()).collect();
    v.sort();
    v
}

fn is_image(n: &WzNode) -> bool {
    matches!(n.object_type, WzObjectType::Image(_) | WzObjectType::MsImage(_))
}

/// never more than one lock at a time
fn find(root: &WzNodeArc, path: &str) -> Option<WzNodeArc> {
    let mut n = root.clone();
    if path.is_empty() {
        return Some(n);
    }
    for p in path.split('/') {
        let next = n.read().unwrap().at(p)?;
        n = next;
    }
    Some(n)
}

fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.to_string()
    } else {
        format!("{a}/{b}")
    }
}

impl World {
    fn open(&self) -> Result<WzNodeArc, Fail> {
        let n = match self.kind {
            Kind::Wz => {
                // keys of its own, so that they grow while the threads read
                let key: SharedWzStringDecryptor = Arc::new(RwLock::new(EcbDecryptor::from_iv(self.iv)));
                WzNode::from_wz_file_full(&self.file, None, Some(83), None, Some(&key))
            }
            Kind::Ms => WzNode::from_ms_file(&self.file, None),
        };
        Ok(n.map_err(|e| Fail::new("the file does not open", format!("{e}")))?.into_lock())
    }

    fn build(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<World, Fail> {
        let kind = if rng.chance(1, 6) { Kind::Ms } else { Kind::Wz };
        let iv = if kind == Kind::Ms { crypt::IV_BMS } else { *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]) };
        let dir = c.dir.join(format!("w{idx}"));
        std::fs::create_dir_all(&dir).unwrap();
        let mut links = vec![];
        let names: Vec<String> = match kind {
            Kind::Wz => vec!["a/x.img", "a/y.img", "b/x.img", "z.img"],
            Kind::Ms => vec!["Mob_x.img", "y.img"],
        }
        .into_iter()
        .map(|s| s.to_string())
        .collect();
        let mut imgs = vec![];
        for (i, n) in names.iter().enumerate() {
            let others: Vec<&String> = names.iter().collect();
            imgs.push(image(rng, iv, n, &others, kind, i, &mut links));
        }
        let mut w = World {
            kind,
            file: dir.join(if kind == Kind::Wz { "Base.wz" } else { "pack.ms" }),
            iv,
            exp: BTreeMap::new(),
            images: vec![],
            dirs: vec![],
            canvases: vec![],
            strings: vec![],
            below: vec![],
            pixels: BTreeMap::new(),
            json: BTreeMap::new(),
            text: BTreeMap::new(),
            links,
        };
        let bytes = match kind {
            Kind::Wz => {
                let mut tree: Vec<TE> = vec![];
                let te = |name: &str, t: T| TE { name: name.into(), t, byref: false, size: 0, off: 0 };
                for (n, k) in names.iter().zip(imgs) {
                    let im = Img::Props(k);
                    let e = img::encode(rng, &im, iv);
                    match n.split_once('/') {
                        None => tree.push(te(n, T::Img(im, e))),
                        Some((d, f)) => match tree.iter_mut().find(|t| t.name == d) {
                            Some(t) => {
                                if let T::Dir(v) = &mut t.t {
                                    v.push(te(f, T::Img(im, e)));
                                }
                            }
                            None => tree.push(te(d, T::Dir(vec![te(f, T::Img(im, e))]))),
                        },
                    }
                }
                // the first name tells the cipher
                tree.insert(0, te("the first directory", T::Dir(vec![])));
                let o = wz::Pkg1 { fstart: 60, version: 83, encver: true, iv, ignorable: false, junk: false, plain: false };
                wz::build_pkg1(rng, tree, &o).bytes
            }
            Kind::Ms => {
                let entries = names
                    .iter()
                    .zip(imgs)
                    .map(|(n, k)| ms::Entry { name: n.clone(), data: img::encode(rng, &Img::Props(k), iv), start: 0, aligned: 0, fields: [0; 6], key: [7; 16] })
                    .collect::<Vec<_>>();
                let n = entries.len();
                let p = ms::Pack { v2: rng.chance(1, 2), file: "pack.ms".into(), salt: b"0123456789".to_vec(), entries, order: (0..n).collect(), gaps: vec![0; n], slack: vec![0; n] };
                ms::build(rng, &p).bytes
            }
        };
        std::fs::write(&w.file, bytes).unwrap();

        // alone, what is where
        let root = w.open()?;
        let err = |e: String| Fail::new("the file does not parse when nobody disturbs", e);
        node_util::parse_node(&root).map_err(|e| err(e.to_string()))?;
        let mut stack = vec![(String::new(), root.clone(), false)];
        while let Some((p, n, linked)) = stack.pop() {
            let image = is_image(&n.read().unwrap());
            if image {
                let before = n.read().unwrap().to_simple_json().unwrap().to_string();
                node_util::parse_node(&n).map_err(|e| err(format!("{p}: {e}")))?;
                let after = n.read().unwrap().to_simple_json().unwrap().to_string();
                w.json.insert(p.clone(), (after, before));
                w.images.push(p.clone());
            }
            let r = n.read().unwrap();
            let inside = w.images.iter().any(|i| p.starts_with(&format!("{i}/")));
            if !image && !inside {
                w.dirs.push(p.clone());
            }
            if inside {
                w.below.push(p.clone());
            }
            if r.try_as_png().is_some() {
                w.canvases.push(p.clone());
            }
            if r.try_as_string().is_some() {
                w.strings.push(p.clone());
                w.text.insert(p.clone(), resolve_string_from_node(&n).ok());
            }
            w.exp.insert(p.clone(), Exp { value: value(&r), kids: kids_of(&r), image, linked });
            for (k, ch) in r.children.iter() {
                let there = ch.read().unwrap();
                let l = linked || there.name.as_str() != k.as_str() || !matches!(there.parent.upgrade(), Some(x) if Arc::ptr_eq(&x, &n));
                stack.push((join(&p, k), ch.clone(), l));
            }
        }
        for p in &w.canvases {
            let n = find(&root, p).unwrap();
            let own = n.read().unwrap().try_as_png().unwrap().extract_png().map(|i| hash_bytes(i.as_bytes())).unwrap_or(0);
            let with = get_image(&n).map(|i| hash_bytes(i.as_bytes())).unwrap_or(1);
            if with != own {
                c.st.add("linked_canvases", 1);
            }
            w.pixels.insert(p.clone(), (with, own));
        }
        Ok(w)
    }

    /// a node seen under its read lock: all or nothing
    fn check(&self, n: &WzNode, p: &str, all: bool) -> Result<u64, String> {
        let e = &self.exp[p];
        let kids = kids_of(n);
        let container = e.image || matches!(n.object_type, WzObjectType::File(_) | WzObjectType::MsFile(_) | WzObjectType::Directory(_));
        if kids != e.kids && !(container && kids.is_empty()) {
            return Err(format!("partly parsed|{p:?} has the children {kids:?}, all of them are {:?}", e.kids));
        }
        match &n.object_type {
            WzObjectType::Image(i) if i.is_parsed != (kids.len() == e.kids.len()) => {
                return Err(format!("partly parsed|{p:?} says parsed: {} with {} of {} children", i.is_parsed, kids.len(), e.kids.len()));
            }
            WzObjectType::MsImage(_) if !kids.is_empty() => return Err(format!("partly parsed|{p:?} is a raw entry with {} children", kids.len())),
            WzObjectType::File(f) if f.is_parsed && kids.len() != e.kids.len() => return Err(format!("partly parsed|the file says it is parsed with {} of {} children", kids.len(), e.kids.len())),
            _ => {}
        }
        if all && kids != e.kids {
            return Err(format!("unparsed after its parse|{p:?} has {} of {} children after it was parsed and nothing was unparsed", kids.len(), e.kids.len()));
        }
        if value(n) != e.value {
            return Err(format!("another value than alone|{p:?} has another value than alone"));
        }
        Ok((kids.len() == e.kids.len()) as u64)
    }
}

fn image(rng: &mut Rng, iv: [u8; 4], me: &str, others: &[&String], kind: Kind, nr: usize, links: &mut Vec<(String, bool, String, String)>) -> Kids {
    let cv = |rng: &mut Rng| {
        let f = *rng.pick(&[1u32, 2, 513]);
        let (w, h) = (1 + rng.below(6) as u32, 1 + rng.below(6) as u32);
        canvas::gen(rng, iv, f, w, h)
    };
    let text = |rng: &mut Rng| {
        let n = *rng.pick(&[3usize, 40, 300, 5000]);
        img::gen_text_n(rng, n)
    };
    let s = |t: &str| Val::Str(t.to_string());
    let small = GenCfg { max_depth: 2, budget: 5, uol: false, special_names: false, ..Default::default() };
    let mut b = 5;
    let mut k: Kids = vec![
        (format!("id{nr}"), Val::Int(nr as i32 * 1000 + 7)),
        ("p".into(), Val::Prop(vec![("c".into(), Val::Canvas(cv(rng), None)), ("t".into(), Val::Str(text(rng))), ("q".into(), Val::Prop(vec![("d".into(), Val::Canvas(cv(rng), None)), ("w".into(), Val::Str(text(rng)))]))])),
        ("s".into(), Val::Str(text(rng))),
        ("in".into(), Val::Canvas(cv(rng), Some(vec![("_inlink".into(), s("p/q/d"))]))),
        ("u".into(), Val::Uol("p/q".into())),
        ("r".into(), Val::Prop(img::gen_kids(rng, &small, 0, &mut b, iv))),
    ];
    links.push((format!("{me}/in"), true, "p/q/d".into(), format!("{me}/p/q/d")));
    if kind == Kind::Wz {
        let to = rng.pick(others);
        let t = *rng.pick(&["p/c", "p/q/d"]);
        k.push(("out".into(), Val::Canvas(cv(rng), Some(vec![("_outlink".into(), s(&format!("{to}/{t}")))]))));
        links.push((format!("{me}/out"), false, format!("{to}/{t}"), format!("{to}/{t}")));
        // a chain, which may also come back to where it started
        let to = rng.pick(others);
        k.push(("far".into(), Val::Prop(vec![("o".into(), Val::Canvas(cv(rng), Some(vec![("_outlink".into(), s(&format!("{to}/{}", rng.pick(&["out", "in", "p/c"]))))])))])));
    }
    k
}

#[derive(Clone, Debug)]
enum Op {
    Parse(String),
    Snap(String),
    Force(String),
    Direct(String),
    Pixels(String),
    Text(String),
    Link(usize),
    Json(String),
    FullJson(String),
    Walk(String),
    WalkParse(String),
    Unparse(String),
    FullPath(String),
    Relative(String),
    Above(String),
    Open,
}

#[derive(Clone, Copy)]
struct Mode {
    /// something is unparsed meanwhile: what is below may be gone
    wild: bool,
    /// directories and files are unparsed, too
    wilder: bool,
    /// questions upwards from a node the caller holds, but none downwards from one it holds
    up: bool,
}

fn gen_op(rng: &mut Rng, w: &World, m: Mode) -> Op {
    loop {
        let any = |rng: &mut Rng, v: &Vec<String>| rng.pick(v).clone();
        let o = match rng.below(18) {
            0 | 1 => Op::Parse(if rng.chance(1, 4) { any(rng, &w.dirs) } else { any(rng, &w.images) }),
            2 => Op::Snap(if rng.chance(1, 3) { any(rng, &w.below) } else { any(rng, &w.images) }),
            3 | 4 => Op::Force(any(rng, &w.below)),
            5 => Op::Direct(any(rng, &w.below)),
            6 | 7 => Op::Pixels(any(rng, &w.canvases)),
            8 if !w.strings.is_empty() => Op::Text(any(rng, &w.strings)),
            9 => Op::Link(rng.below(w.links.len())),
            10 => Op::Json(any(rng, &w.images)),
            11 => Op::FullJson(any(rng, &w.dirs)),
            12 => Op::Walk(if rng.chance(1, 2) { any(rng, &w.dirs) } else { any(rng, &w.images) }),
            13 if m.wild => Op::WalkParse(if rng.chance(1, 2) { any(rng, &w.dirs) } else { any(rng, &w.images) }),
            14 if m.wild => Op::Unparse(if m.wilder && rng.chance(1, 4) { any(rng, &w.dirs) } else { any(rng, &w.images) }),
            15 => Op::FullPath(any(rng, &w.below)),
            16 => match rng.below(2) {
                0 => Op::Relative(any(rng, &w.below)),
                _ => Op::Above(any(rng, &w.below)),
            },
            17 if rng.chance(1, 3) => Op::Open,
            _ => continue,
        };
        let down = matches!(o, Op::Force(_) | Op::Direct(_) | Op::Json(_) | Op::FullJson(_));
        let up = matches!(o, Op::FullPath(_) | Op::Relative(_) | Op::Above(_));
        if (down && m.up) || (up && !m.up) {
            continue;
        }
        return o;
    }
}

type Held = Vec<(String, WzNodeArc)>;

/// Err: "signature|details"
fn run_op(w: &World, root: &WzNodeArc, o: &Op, m: Mode, held: &mut Held) -> Result<u64, String> {
    let see = |n: &WzNodeArc, p: &str| w.check(&n.read().unwrap(), p, false);
    // in a tree from which nothing is taken, what was once there stays
    let keep = |held: &mut Held, p: &str, n: &WzNodeArc| {
        if !m.wild {
            held.push((p.to_string(), n.clone()));
        }
    };
    let image_of = |p: &str| w.images.iter().find(|i| p.starts_with(&format!("{i}/"))).cloned().unwrap_or_default();
    match o {
        Op::Parse(p) => {
            let Some(n) = find(root, p) else { return if m.wilder { Ok(0) } else { Err(format!("lookup|{p:?} is not there")) } };
            node_util::parse_node(&n).map_err(|e| format!("parse fails|{p:?}: {e}"))?;
            let r = n.read().unwrap();
            w.check(&r, p, !m.wild)
        }
        Op::Snap(p) => match find(root, p) {
            Some(n) => {
                keep(held, p, &n);
                Ok(2 + see(&n, p)?)
            }
            None => Ok(0),
        },
        Op::Force(p) => {
            let n = { root.read().unwrap().at_path_parsed(p) };
            match n {
                Ok(n) => {
                    keep(held, p, &n);
                    Ok(2 + see(&n, p)?)
                }
                Err(_) if m.wilder => Ok(0),
                Err(e) => Err(format!("lookup|at_path_parsed({p:?}): {e}")),
            }
        }
        Op::Direct(p) => match node_util::get_node_without_parse(root, p) {
            Some(n) => {
                let r = n.read().unwrap();
                if value(&r) != w.exp[p].value && !w.exp[p].linked && !matches!(r.object_type, WzObjectType::Value(WzValue::UOL(_))) {
                    return Err(format!("another value than alone|{p:?} found directly has another value"));
                }
                Ok(1)
            }
            None if m.wilder || w.exp[p].linked => Ok(0),
            None => Err(format!("lookup|get_node_without_parse({p:?}) finds nothing")),
        },
        Op::Pixels(p) => {
            // parsed first, on the way down
            let img = image_of(p);
            let Some(i) = find(root, &img) else { return Ok(0) };
            node_util::parse_node(&i).map_err(|e| format!("parse fails|{img:?}: {e}"))?;
            drop(i);
            let Some(n) = find(root, p) else { return if m.wild { Ok(0) } else { Err(format!("lookup|{p:?} is gone")) } };
            let got = get_image(&n).map(|i| hash_bytes(i.as_bytes()));
            let (with, own) = w.pixels[p];
            match got {
                Ok(h) if h == with => Ok(1),
                Ok(h) if m.wild && (h == own || w.pixels.values().any(|x| x.1 == h)) => Ok(2),
                Err(_) if m.wild || with == 1 => Ok(3),
                Ok(_) => Err(format!("another value than alone|other pixels of {p:?}")),
                Err(e) => Err(format!("another value than alone|no pixels of {p:?}: {e}")),
            }
        }
        Op::Text(p) => match find(root, p) {
            Some(n) => {
                let got = resolve_string_from_node(&n).ok();
                if got != w.text[p] {
                    return Err(format!("another value than alone|the text of {p:?} is {got:?}"));
                }
                Ok(1)
            }
            None => Ok(0),
        },
        Op::Link(i) => {
            let (p, inl, l, to) = &w.links[*i];
            let Some(n) = find(root, p) else { return Ok(0) };
            let t = if *inl { node_util::resolve_inlink(l, &n) } else { node_util::resolve_outlink(l, &n, true) };
            match t {
                Some(t) => {
                    if value(&t.read().unwrap()) != w.exp[to].value {
                        return Err(format!("another value than alone|the link of {p:?} leads to another value"));
                    }
                    keep(held, to, &t);
                    Ok(1)
                }
                None if m.wild => Ok(2),
                None => Err(format!("lookup|the link of {p:?} leads nowhere")),
            }
        }
        Op::Json(p) => {
            let Some(n) = find(root, p) else { return Ok(0) };
            let j = n.read().unwrap().to_simple_json().map_err(|e| format!("export|{p:?}: {e}"))?.to_string();
            let (a, b) = &w.json[p];
            if j == *a {
                Ok(1)
            } else if j == *b {
                Ok(2)
            } else {
                Err(format!("partly parsed|the export of {p:?} is neither that of the parsed nor of the unparsed image"))
            }
        }
        Op::FullJson(p) => {
            let Some(n) = find(root, p) else { return Ok(0) };
            let _ = n.read().unwrap().to_json();
            Ok(1)
        }
        Op::Walk(p) | Op::WalkParse(p) => {
            let Some(n) = find(root, p) else { return Ok(0) };
            let bad = std::cell::RefCell::new(None);
            let count = std::cell::Cell::new(0u64);
            let images = std::cell::Cell::new(0u64);
            walk_node(&n, matches!(o, Op::WalkParse(_)), &|n| {
                count.set(count.get() + 1);
                if bad.borrow().is_some() {
                    return;
                }
                let r = n.read().unwrap();
                let ok = if is_image(&r) {
                    // which one it is, its marker tells
                    images.set(images.get() + 1);
                    let kids = kids_of(&r);
                    kids.is_empty() || w.images.iter().any(|i| w.exp[i].kids == kids)
                } else {
                    true
                };
                if m.up {
                    let _ = r.get_full_path().len();
                }
                let _ = value(&r);
                if !ok {
                    *bad.borrow_mut() = Some(format!("partly parsed|a walk came to an image with the children {:?}", kids_of(&r)));
                }
            });
            if let Some(b) = bad.into_inner() {
                return Err(b);
            }
            if w.images.contains(p) && images.get() == 0 {
                return Err(format!("walk|the walk from {p:?} did not call for the node itself"));
            }
            Ok(if m.wild { 1 } else { count.get() })
        }
        Op::Unparse(p) => {
            let Some(n) = find(root, p) else { return Ok(0) };
            n.write().unwrap().unparse();
            Ok(1)
        }
        Op::FullPath(p) => {
            let Some(n) = find(root, p) else { return Ok(0) };
            let r = n.read().unwrap();
            let (full, from_root, from_image) = (r.get_full_path(), r.get_path_from_root(), r.get_path_from_image());
            if w.exp[p].linked {
                return Ok(1);
            }
            let base = if w.kind == Kind::Wz { "Base" } else { "pack" };
            let want = format!("{base}/{p}");
            let img = image_of(p);
            let rest = p[img.len() + 1..].to_string();
            let strip = |s: &str| s.trim_start_matches("pack.ms/").trim_start_matches("pack/").to_string();
            let good = if w.kind == Kind::Ms { strip(&full) == *p && from_root == *p } else { full == want && from_root == *p };
            let good = good && from_image == rest;
            // what is above may be gone meanwhile
            if good || (m.wild && want.ends_with(&full)) {
                Ok(2)
            } else {
                Err(format!("paths|{p:?}: full path {full:?}, from the root {from_root:?}, from the image {from_image:?}"))
            }
        }
        Op::Relative(p) => {
            let Some(n) = find(root, p) else { return Ok(0) };
            if w.exp[p].linked {
                return Ok(1);
            }
            let name = p.rsplit('/').next().unwrap();
            let back = n.read().unwrap().at_path_relative(&format!("../{name}"));
            match back {
                Some(b) if Arc::ptr_eq(&b, &n) => Ok(2),
                // unparsed and parsed again meanwhile
                _ if m.wild => Ok(3),
                _ => Err(format!("paths|{p:?}: up and back down leads elsewhere")),
            }
        }
        Op::Above(p) => {
            let Some(n) = find(root, p) else { return Ok(0) };
            if w.exp[p].linked {
                return Ok(1);
            }
            let img = { n.read().unwrap().get_parent_wz_image() };
            let base = { n.read().unwrap().get_base_wz_file() };
            if m.wild {
                return Ok(2);
            }
            let want = find(root, &image_of(p)).unwrap();
            if !matches!(&img, Some(i) if Arc::ptr_eq(i, &want)) || (w.kind == Kind::Wz && !matches!(&base, Some(b) if Arc::ptr_eq(b, root))) {
                return Err(format!("paths|the image or the base file above {p:?} is not found"));
            }
            Ok(3)
        }
        Op::Open => {
            let r = w.open().map_err(|f| format!("open fails|{}", f.msg))?;
            node_util::parse_node(&r).map_err(|e| format!("open fails|{e}"))?;
            let g = r.read().unwrap();
            w.check(&g, "", true)
        }
    }
}

struct Round {
    ops: u64,
    unparsed: u64,
    parsed: u64,
    outcome: u64,
}

type Jobs = Vec<Vec<Op>>;

/// Everything each thread saw, or what went wrong first.
fn run_round(c: &mut Ctx, w: &Arc<World>, root: &WzNodeArc, jobs: Jobs, m: Mode, seed: u64, sched: u64) -> Result<Round, Fail> {
    let n = jobs.len();
    let out: Arc<std::sync::Mutex<Vec<Option<(Vec<u64>, Held)>>>> = Arc::new(std::sync::Mutex::new((0..n).map(|_| None).collect()));
    let bad: Arc<std::sync::Mutex<Option<Fail>>> = Arc::new(std::sync::Mutex::new(None));
    let gate = Arc::new(std::sync::Barrier::new(n));
    let shown = format!("{jobs:?}");
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (i, ops) in jobs.into_iter().enumerate() {
        let (w, root, out, bad, gate) = (w.clone(), root.clone(), out.clone(), bad.clone(), gate.clone());
        fs.push(Box::new(move || {
            if cfg!(not(wz_sched)) {
                gate.wait();
            }
            let mut held = vec![];
            let mut seen = vec![];
            let r = crate::guard(|| {
                for o in &ops {
                    #[cfg(wz_sched)]
                    std::sched::label(&format!("{o:?}"));
                    match run_op(&w, &root, o, m, &mut held) {
                        Ok(x) => seen.push(x),
                        Err(e) => {
                            let (s, d) = e.split_once('|').unwrap_or(("", &e));
                            return Err(Fail::new(s, format!("{d} (in {o:?})")));
                        }
                    }
                }
                Ok(())
            });
            if let Err(f) = r {
                bad.lock().unwrap().get_or_insert(f);
            }
            out.lock().unwrap()[i] = Some((seen, held));
        }));
    }
    #[cfg(wz_sched)]
    let schedule = {
        let rep = std::sched::run(seed, sched, 400_000, fs);
        c.st.add("scheduling_points", rep.steps);
        c.st.add("thread_switches", rep.switches);
        c.st.add("waits_for_a_lock", rep.blocked);
        c.st.max("locks_in_one_round", rep.locks);
        c.st.add("schedules_run", 1);
        if let Some(o) = rep.over {
            let kind = o.split(": ").next().unwrap().to_string();
            return Err(Fail::new(if kind == "deadlock" { "deadlock: no thread can go on" } else { "endless: the threads never end" }, format!("{o} ({shown})").chars().take(1500).collect::<String>()));
        }
        rep.schedule
    };
    #[cfg(not(wz_sched))]
    let schedule = {
        let _ = (seed, sched);
        let hs: Vec<_> = fs.into_iter().map(|f| std::thread::spawn(f)).collect();
        for h in hs {
            let _ = h.join();
        }
        0u64
    };
    if let Some(f) = bad.lock().unwrap().take() {
        return Err(Fail::new(f.sig, format!("{} ({shown})", f.msg).chars().take(1500).collect::<String>()));
    }
    let mut r = Round { ops: 0, unparsed: 0, parsed: 0, outcome: schedule };
    let out = std::mem::take(&mut *out.lock().unwrap());
    let mut once: HashSet<String> = HashSet::new();
    for o in out {
        let (seen, held) = o.ok_or_else(|| Fail::new("a thread left no result", "a thread left no result".to_string()))?;
        for x in &seen {
            r.ops += 1;
            r.unparsed += (*x == 0 || *x == 2) as u64;
            r.parsed += (*x == 1 || *x == 3) as u64;
            if schedule == 0 {
                r.outcome = r.outcome.wrapping_mul(31).wrapping_add(*x + 1);
            }
        }
        if schedule == 0 {
            r.outcome = r.outcome.rotate_left(7) ^ hash_str(&shown);
        }
        for (p, n) in held {
            if !once.insert(format!("{p} {:p}", Arc::as_ptr(&n))) {
                continue;
            }
            match find(root, &p) {
                Some(x) if Arc::ptr_eq(&x, &n) => {}
                _ => return Err(Fail::new("a node was replaced", format!("{p:?} is another node than the one a thread found before, and nothing was unparsed ({shown})").chars().take(1500).collect::<String>())),
            }
        }
    }
    Ok(r)
}

/// quiet again: everything parsed is what it is alone
fn settle(w: &World, root: &WzNodeArc, shown: &str) -> Result<(), Fail> {
    let bad = |p: &str, e: String| Fail::new("the tree is another one afterwards", format!("{p:?}: {e} (after {shown})"));
    let mut stack = vec![(String::new(), root.clone())];
    let mut n_seen = 0;
    while let Some((p, n)) = stack.pop() {
        n.write().unwrap().parse(&n).map_err(|e| bad(&p, e.to_string()))?;
        let r = n.read().unwrap();
        if !w.exp.contains_key(&p) {
            return Err(bad(&p, "was not there alone".into()));
        }
        w.check(&r, &p, true).map_err(|e| bad(&p, e))?;
        n_seen += 1;
        for (k, ch) in r.children.iter() {
            let q = join(&p, k);
            if w.exp.get(&q).is_some_and(|e| !e.linked) {
                let x = ch.read().unwrap();
                if x.name.as_str() != k.as_str() || !matches!(x.parent.upgrade(), Some(y) if Arc::ptr_eq(&y, &n)) {
                    return Err(bad(&q, "its parent link does not lead to its parent".into()));
                }
            }
            stack.push((q, ch.clone()));
        }
    }
    if n_seen != w.exp.len() {
        return Err(bad("", format!("{n_seen} nodes, alone {}", w.exp.len())));
    }
    Ok(())
}

/// The listed finding: a lookup downwards under the caller's guard of the root, a path asked for under the caller's
/// guard of a node below, and someone who waits to write to the root.
#[cfg(wz_sched)]
fn up_meets_down(w: &World) -> Result<(), Fail> {
    let root = w.open()?;
    node_util::parse_node(&root).map_err(|e| Fail::new("parse fails", e.to_string()))?;
    let a = root.read().unwrap().at("a").unwrap();
    for seed in 0..3000 {
        let mut fs: Vec<Box<dyn FnOnce() + Send>> = vec![];
        let r = root.clone();
        fs.push(Box::new(move || {
            std::sched::label("root.read().at_path_parsed(\"a/x.img\")");
            let _ = r.read().unwrap().at_path_parsed("a/x.img");
        }));
        let n = a.clone();
        fs.push(Box::new(move || {
            std::sched::label("a.read().get_full_path()");
            let _ = n.read().unwrap().get_full_path();
        }));
        let r = root.clone();
        fs.push(Box::new(move || {
            std::sched::label("parse_node(root)");
            let _ = node_util::parse_node(&r);
        }));
        if let Some(o) = std::sched::run(seed, 2, 100_000, fs).over {
            return Err(Fail::new("deadlock: a path asked for under a guard meets a lookup from above", o));
        }
    }
    Ok(())
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    let rng = &mut rng;
    #[cfg(wz_sched)]
    if idx == 0 {
        let w = loop {
            let w = World::build(c, rng, idx)?;
            if w.kind == Kind::Wz {
                break w;
            }
        };
        return up_meets_down(&w);
    }
    let w = Arc::new(World::build(c, rng, idx)?);
    let rounds = if cfg!(wz_sched) { 8 } else { 3 };
    for round in 0..rounds {
        c.status(idx, "");
        let wild = rng.chance(1, 2);
        let m = Mode { wild, wilder: wild && rng.chance(1, 3), up: rng.chance(1, 3) };
        let threads = 2 + rng.below(if cfg!(wz_sched) { 4 } else { 7 });
        let per = 1 + rng.below(if cfg!(wz_sched) { 6 } else { 16 });
        let root = w.open()?;
        let race_root = rng.chance(1, 4);
        if !race_root {
            node_util::parse_node(&root).map_err(|e| Fail::new("parse fails", e.to_string()))?;
        }
        // some of it is parsed before
        if !race_root && rng.chance(1, 2) {
            for i in &w.images {
                if rng.chance(1, 2) {
                    let n = find(&root, i).unwrap();
                    node_util::parse_node(&n).map_err(|e| Fail::new("parse fails", e.to_string()))?;
                }
            }
        }
        let focus = rng.chance(1, 3).then(|| rng.pick(&w.images).clone());
        let mut jobs: Jobs = (0..threads).map(|_| (0..per).map(|_| gen_op(rng, &w, m)).collect()).collect();
        for j in jobs.iter_mut() {
            if let Some(f) = &focus {
                j.insert(0, Op::Parse(f.clone()));
                c.st.add("racing_parsers", 1);
            }
            if race_root {
                j.insert(0, Op::Parse(String::new()));
                c.st.add("racing_parsers", 1);
            }
        }
        let shown: String = format!("{jobs:?}").chars().take(700).collect();
        c.st.sample(|| format!("round {round} wild {} up {}: {shown}", m.wild, m.up));
        let sched = *rng.pick(&[0u64, 0, 1, 2, 3, 6, 15]);
        let seed = rng.u64();
        let r = run_round(c, &w, &root, jobs, m, seed, sched)?;
        settle(&w, &root, &shown)?;
        c.st.add("rounds", 1);
        c.st.add("operations_checked", r.ops);
        c.st.add("saw_unparsed", r.unparsed);
        c.st.add("saw_parsed", r.parsed);
        c.st.add("unparse_rounds", m.wild as u64);
        c.st.add("upward_rounds", m.up as u64);
        c.st.add("pack_rounds", (w.kind == Kind::Ms) as u64);
        c.st.seen("histories", r.outcome);
    }
    let _ = std::fs::remove_dir_all(w.file.parent().unwrap());
    Ok(())
}
