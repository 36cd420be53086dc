//! C21: what a holder keeps stays readable, whatever happens to the rest of the tree or to the file.
use crate::img::{self, Cmp, GenCfg, Img, V};
use crate::props::{c01, c06, c14};
use crate::rng::{hash_str, Rng};
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{TreeCfg, T, TE};
use crate::{crypt, ms, pkg2};
use std::path::{Path, PathBuf};
use std::sync::{Arc, RwLock, Weak};
use wz_reader::{WzImage, WzNode, WzNodeArc, WzObjectType, WzReader};

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        quick: 60000,
        thorough: 500_000,
        case,
        evals: "held_checked",
        distinct: "histories",
        rule: "each case opens one archive, pack, standalone image or buffer, keeps some of its nodes and copies of its values, then drops the root and other handles, unparses what lies above, deletes the file and asks from other threads, in random order, checking after every step everything that is still held (content, links upwards) and which nodes are alive; distinct: histories of steps and what was held",
        need: &[
            "archives", "pkg2_archives", "packs", "standalone_images", "buffers", "roots_dropped", "unparsed_above", "files_deleted", "checked_elsewhere", "parsed_without_root", "parsed_without_file", "values_kept", "objects_kept", "orphans", "upward_chains", "all_released", "more_taken", "handles_dropped",
        ],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

enum Item<'a> {
    Dir(&'a [TE]),
    Pack,
    Img(&'a Img),
    Val(&'a V),
    /// the single payload of an image
    Payload,
}
struct E<'a> {
    name: String,
    item: Item<'a>,
    weak: Weak<RwLock<WzNode>>,
    parent: Option<usize>,
    kids: Vec<usize>,
    /// its children are visible
    open: bool,
    held: Option<WzNodeArc>,
}
/// a copy of what a node holds
struct Copy<'a> {
    name: String,
    o: WzObjectType,
    item: CopyOf<'a>,
}
enum CopyOf<'a> {
    V(&'a V),
    Img(&'a Img),
}

struct World<'a> {
    e: Vec<E<'a>>,
    copies: Vec<Copy<'a>>,
    file: Option<PathBuf>,
    deleted: bool,
    log: Vec<String>,
}

fn mapped(f: &Path) -> bool {
    let n = f.file_name().unwrap().to_string_lossy().to_string();
    std::fs::read_to_string("/proc/self/maps").map(|m| m.contains(&n)).unwrap_or(false)
}

impl<'a> World<'a> {
    fn put(&mut self, name: &str, item: Item<'a>, node: &WzNodeArc, parent: Option<usize>, open: bool) -> usize {
        self.e.push(E { name: name.into(), item, weak: Arc::downgrade(node), parent, kids: vec![], open, held: None });
        let i = self.e.len() - 1;
        if let Some(p) = parent {
            self.e[p].kids.push(i);
        }
        i
    }
    fn vals(&mut self, node: &WzNodeArc, kids: Vec<(String, &'a V)>, parent: usize) -> Result<(), Fail> {
        for (n, v) in kids {
            let x = node.read().unwrap().at(&n).ok_or("a stored property is missing")?;
            let i = self.put(&n, Item::Val(v), &x, Some(parent), true);
            let below: Vec<(String, &'a V)> = match v {
                V::Prop(k) | V::Canvas(_, Some(k)) | V::Raw(_, Some(k), _) => k.iter().map(|(n, v)| (n.clone(), v)).collect(),
                V::Convex(l) => l.iter().enumerate().map(|(i, v)| (i.to_string(), v)).collect(),
                _ => vec![],
            };
            self.vals(&x, below, i)?;
        }
        Ok(())
    }
    fn image(&mut self, name: &str, node: &WzNodeArc, im: &'a Img, parent: Option<usize>, parse: bool) -> Result<usize, Fail> {
        if parse {
            node.write().unwrap().parse(node).map_err(|e| format!("image does not parse: {e}"))?;
        }
        let i = self.put(name, Item::Img(im), node, parent, parse);
        if parse {
            match im {
                Img::Props(k) => self.vals(node, k.iter().map(|(n, v)| (n.clone(), v)).collect(), i)?,
                _ => {
                    let (n, x) = node.read().unwrap().children.iter().next().map(|(n, x)| (n.to_string(), x.clone())).ok_or("no payload")?;
                    self.put(&n, Item::Payload, &x, Some(i), true);
                }
            }
        }
        Ok(i)
    }
    fn dir(&mut self, rng: &mut Rng, node: &WzNodeArc, tree: &'a [TE], at: usize) -> Result<(), Fail> {
        for t in tree {
            let x = node.read().unwrap().at(&t.name).ok_or("a stored entry is missing")?;
            match &t.t {
                T::Dir(k) => {
                    let i = self.put(&t.name, Item::Dir(k), &x, Some(at), true);
                    self.dir(rng, &x, k, i)?;
                }
                T::Img(im, _) => {
                    self.image(&t.name, &x, im, Some(at), rng.chance(2, 3))?;
                }
            }
        }
        Ok(())
    }
    fn alive(&self) -> Vec<bool> {
        let mut a: Vec<bool> = vec![];
        for e in &self.e {
            // parents come first
            let listed = e.parent.is_some_and(|p| a[p] && self.e[p].open);
            a.push(e.held.is_some() || listed);
        }
        a
    }
    fn fail(&self, what: &str, i: Option<usize>) -> Fail {
        let n = i.map(|i| {
            let mut v = vec![self.e[i].name.clone()];
            let mut p = self.e[i].parent;
            while let Some(x) = p {
                v.push(self.e[x].name.clone());
                p = self.e[x].parent;
            }
            v.reverse();
            v.join("/")
        });
        let sig = what.split(": ").next().unwrap_or(what).to_string();
        Fail::new(sig, format!("{what} ({:?}; {})", n, self.log.join("; ")))
    }
    /// the visible content below an entry
    fn content(&self, c: &mut Ctx, node: &WzNodeArc, i: usize) -> Result<(), Fail> {
        let e = &self.e[i];
        if node.read().unwrap().name.as_str() != e.name {
            return Err(self.fail("a kept node changed its name", Some(i)));
        }
        let mut cmp = Cmp::new(&mut c.st);
        cmp.links = false;
        cmp.payloads = true;
        cmp.pixels = true;
        match &e.item {
            Item::Val(v) => cmp.node(node, &e.name, v, "").map_err(|x| self.fail(&format!("content of a kept property: {x}"), Some(i)))?,
            Item::Img(im) if e.open => cmp.image(node, im, "").map_err(|x| self.fail(&format!("content of a kept image: {x}"), Some(i)))?,
            Item::Payload => {
                let p = e.parent.unwrap();
                let r = node.read().unwrap();
                let Item::Img(im) = &self.e[p].item else { return Err("payload of no image".into()) };
                if !payload(&r.object_type, im) {
                    return Err(self.fail("content of a kept payload: differs", Some(i)));
                }
            }
            Item::Dir(_) | Item::Pack if e.open => {
                let kids: Vec<(String, WzNodeArc)> = node.read().unwrap().children.iter().map(|(n, c)| (n.to_string(), c.clone())).collect();
                if kids.len() != e.kids.len() {
                    return Err(self.fail(&format!("content of a kept directory: {} entries instead of {}", kids.len(), e.kids.len()), Some(i)));
                }
                for k in &e.kids {
                    let x = kids.iter().find(|x| x.0 == self.e[*k].name).ok_or_else(|| self.fail("content of a kept directory: an entry is missing", Some(*k)))?;
                    if !Weak::ptr_eq(&Arc::downgrade(&x.1), &self.e[*k].weak) {
                        return Err(self.fail("content of a kept directory: another node", Some(*k)));
                    }
                    self.content(c, &x.1, *k)?;
                }
            }
            _ => {
                if !node.read().unwrap().children.is_empty() {
                    return Err(self.fail("an unparsed node has children", Some(i)));
                }
            }
        }
        Ok(())
    }
    /// questions upwards
    fn upwards(&self, c: &mut Ctx, node: &WzNodeArc, i: usize, alive: &[bool]) -> Result<(), Fail> {
        let mut chain = vec![];
        let mut p = self.e[i].parent;
        while let Some(x) = p {
            if !alive[x] {
                break;
            }
            chain.push(x);
            p = self.e[x].parent;
        }
        let r = node.read().unwrap();
        let same = |a: &Option<WzNodeArc>, b: Option<usize>| match (a, b) {
            (None, None) => true,
            (Some(a), Some(b)) => Weak::ptr_eq(&Arc::downgrade(a), &self.e[b].weak),
            _ => false,
        };
        let first = chain.first().copied();
        if !same(&r.parent.upgrade(), first) || !same(&r.at_relative(".."), first) {
            return Err(self.fail(&format!("parent of a kept node: {}", if first.is_some() { "lost" } else { "there although nothing holds it" }), Some(i)));
        }
        if first.is_none() && self.e[i].parent.is_some() {
            c.st.add("orphans", 1);
        }
        if chain.len() > 1 {
            c.st.add("upward_chains", 1);
        }
        let names: Vec<&str> = chain.iter().rev().map(|x| self.e[*x].name.as_str()).chain([self.e[i].name.as_str()]).collect();
        let full = names.join("/");
        let from_root = if chain.is_empty() { String::new() } else { names[1..].join("/") };
        if r.get_full_path() != full || r.get_path_from_root() != from_root {
            return Err(self.fail(&format!("path of a kept node: {:?} and {:?} instead of {full:?}", r.get_full_path(), r.get_path_from_root()), Some(i)));
        }
        let img = chain.iter().position(|x| matches!(self.e[*x].item, Item::Img(_)));
        if !same(&r.get_parent_wz_image(), img.map(|x| chain[x])) {
            return Err(self.fail("image of a kept node: another one", Some(i)));
        }
        let want = img.map(|x| names[names.len() - 1 - x..].join("/")).unwrap_or_default();
        if r.get_path_from_image() != want {
            return Err(self.fail(&format!("path in the image of a kept node: {:?} instead of {want:?}", r.get_path_from_image()), Some(i)));
        }
        let up = vec![".."; chain.len() + 1].join("/");
        if r.at_path_relative(&up).is_some() || !chain.is_empty() && !same(&r.at_path_relative(&up[3..]), chain.last().copied()) {
            return Err(self.fail("steps upwards from a kept node: lead elsewhere", Some(i)));
        }
        Ok(())
    }
    fn check(&self, c: &mut Ctx) -> Result<(), Fail> {
        let alive = self.alive();
        for (i, e) in self.e.iter().enumerate() {
            if e.weak.upgrade().is_some() != alive[i] {
                return Err(self.fail(if alive[i] { "lost: a node that is still held or listed is gone" } else { "kept: a node that nobody holds is alive" }, Some(i)));
            }
        }
        for (i, e) in self.e.iter().enumerate() {
            if let Some(n) = &e.held {
                self.content(c, n, i)?;
                self.upwards(c, n, i, &alive)?;
                c.st.add("held_checked", 1);
            }
        }
        for k in &self.copies {
            match &k.item {
                CopyOf::V(v) => {
                    let n = WzNode::from_str(&k.name, k.o.clone(), None).into_lock();
                    let flat = flat(v);
                    let mut cmp = Cmp::new(&mut c.st);
                    cmp.payloads = true;
                    cmp.pixels = true;
                    cmp.node(&n, &k.name, &flat, "").map_err(|x| self.fail(&format!("content of a kept value: {x}"), None))?;
                    c.st.add("values_kept", 1);
                }
                CopyOf::Img(im) => {
                    let n = WzNode::from_str(&k.name, k.o.clone(), None).into_lock();
                    n.write().unwrap().unparse();
                    n.write().unwrap().parse(&n).map_err(|e| self.fail(&format!("a copied image does not parse: {e}"), None))?;
                    let mut cmp = Cmp::new(&mut c.st);
                    cmp.payloads = true;
                    cmp.image(&n, im, "").map_err(|x| self.fail(&format!("content of a copied image: {x}"), None))?;
                    c.st.add("objects_kept", 1);
                }
            }
        }
        Ok(())
    }
    fn hold(&mut self, i: usize) {
        self.e[i].held = self.e[i].weak.upgrade();
    }
    /// parse a kept container whose children are not visible, compare, and close it again
    fn reopen(&mut self, c: &mut Ctx, i: usize) -> Result<(), Fail> {
        let n = self.e[i].held.clone().unwrap();
        n.write().unwrap().parse(&n).map_err(|e| self.fail(&format!("a kept node does not parse: {e}"), Some(i)))?;
        match &self.e[i].item {
            Item::Img(im) => {
                let mut cmp = Cmp::new(&mut c.st);
                cmp.payloads = true;
                cmp.pixels = true;
                cmp.image(&n, im, "").map_err(|x| self.fail(&format!("content of a kept image parsed late: {x}"), Some(i)))?;
            }
            Item::Dir(t) => crate::wz::compare(&mut c.st, &n, t, "", true, false).map_err(|x| self.fail(&format!("content of a kept directory parsed late: {x}"), Some(i)))?,
            _ => {}
        }
        n.write().unwrap().unparse();
        if self.e[0].held.is_none() && i > 0 {
            c.st.add("parsed_without_root", 1);
        }
        if self.deleted {
            c.st.add("parsed_without_file", 1);
        }
        Ok(())
    }
}

/// the value without its children
fn flat(v: &V) -> V {
    match v {
        V::Prop(_) => V::Prop(vec![]),
        V::Convex(_) => V::Convex(vec![]),
        V::Canvas(m, _) => V::Canvas(m.clone(), None),
        V::Raw(a, _, d) => V::Raw(*a, None, d.clone()),
        v => v.clone(),
    }
}

fn payload(o: &WzObjectType, im: &Img) -> bool {
    use wz_reader::property::WzValue;
    match (o, im) {
        (WzObjectType::Value(WzValue::Lua(l)), Img::Lua(t, _)) => l.extract_lua().is_ok_and(|s| s.as_bytes() == &t[..]),
        (WzObjectType::Value(WzValue::RawData(r)), Img::Txt(d) | Img::Pack(d)) => r.get_buffer() == &d[..],
        _ => false,
    }
}

fn drive(c: &mut Ctx, rng: &mut Rng, w: &mut World) -> Result<(), Fail> {
    // the whole of it once, before anything happens
    w.check(c)?;
    let n = w.e.len();
    for _ in 0..1 + rng.below(6) {
        let i = rng.below(n);
        w.hold(i);
        w.log.push(format!("hold {i}"));
    }
    let copies = rng.below(5);
    for _ in 0..copies {
        let i = rng.below(n);
        let Some(x) = w.e[i].weak.upgrade() else { continue };
        let o = x.read().unwrap().object_type.clone();
        let item = match &w.e[i].item {
            Item::Val(v) => CopyOf::V(v),
            Item::Img(im) => CopyOf::Img(im),
            _ => continue,
        };
        let name = w.e[i].name.clone();
        w.copies.push(Copy { name, o, item });
        w.log.push(format!("copy {i}"));
    }
    w.check(c)?;
    let steps = 2 + rng.below(7);
    for _ in 0..steps {
        match rng.below(9) {
            0 | 1 => {
                if w.e[0].held.is_some() {
                    w.e[0].held = None;
                    w.log.push("drop the root".into());
                    c.st.add("roots_dropped", 1);
                }
            }
            2 | 3 => {
                let a = w.alive();
                let v: Vec<usize> = (0..n).filter(|i| a[*i] && w.e[*i].open && !matches!(w.e[*i].item, Item::Val(_) | Item::Payload)).collect();
                if v.is_empty() {
                    continue;
                }
                let i = *rng.pick(&v);
                if matches!(w.e[i].item, Item::Pack) && rng.chance(1, 2) {
                    continue;
                }
                let x = w.e[i].weak.upgrade().ok_or("a node is gone")?;
                x.write().unwrap().unparse();
                w.e[i].open = false;
                w.log.push(format!("unparse {i}"));
                c.st.add("unparsed_above", 1);
            }
            4 => {
                if let (Some(f), false) = (&w.file, w.deleted) {
                    std::fs::remove_file(f).unwrap();
                    w.deleted = true;
                    w.log.push("delete the file".into());
                    c.st.add("files_deleted", 1);
                }
            }
            5 | 6 => {
                let v: Vec<usize> = (0..n).filter(|i| w.e[*i].held.is_some() && !w.e[*i].open && !matches!(w.e[*i].item, Item::Pack)).collect();
                if !v.is_empty() {
                    let i = *rng.pick(&v);
                    w.log.push(format!("parse {i}"));
                    w.reopen(c, i)?;
                }
            }
            7 => {
                // one more handle, or one less
                let a = w.alive();
                let v: Vec<usize> = (1..n).filter(|i| a[*i]).collect();
                if v.is_empty() {
                    continue;
                }
                let i = *rng.pick(&v);
                if w.e[i].held.is_some() {
                    w.e[i].held = None;
                    w.log.push(format!("drop {i}"));
                    c.st.add("handles_dropped", 1);
                } else {
                    w.hold(i);
                    w.log.push(format!("hold {i}"));
                    c.st.add("more_taken", 1);
                }
            }
            _ => {
                let r = std::thread::scope(|s| s.spawn(|| w.check(c)).join());
                match r {
                    Ok(r) => r?,
                    Err(_) => return Err(w.fail("panic on another thread", None)),
                }
                c.st.add("checked_elsewhere", 1);
            }
        }
        w.check(c)?;
    }
    c.st.seen("histories", hash_str(&format!("{} {}", n, w.log.join(";"))));
    c.st.sample(|| format!("{} nodes: {}", n, w.log.iter().take(10).cloned().collect::<Vec<_>>().join("; ")));
    // everything goes
    let mut order: Vec<usize> = (0..n).filter(|i| w.e[*i].held.is_some()).collect();
    rng.shuffle(&mut order);
    for i in order {
        w.e[i].held = None;
        if rng.chance(1, 3) {
            w.check(c)?;
        }
    }
    w.check(c)?;
    w.copies.clear();
    if let Some(f) = &w.file {
        if mapped(f) {
            return Err(w.fail("the file is still mapped after everything was dropped", None));
        }
        if !w.deleted {
            std::fs::remove_file(f).unwrap();
        }
    }
    c.st.add("all_released", 1);
    Ok(())
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    let rng = &mut rng;
    let mut w = World { e: vec![], copies: vec![], file: None, deleted: false, log: vec![] };
    let icfg = GenCfg { max_depth: 4, budget: 8, blobs: 40, ..Default::default() };
    match idx % 8 {
        0..=3 => {
            let cfg = TreeCfg { budget: 10, depth: 4, wide: false, img: icfg, ..Default::default() };
            let f = c.dir.join(format!("keep{idx}k.wz"));
            let tree = if idx % 8 == 3 {
                let g = *rng.pick(&pkg2::ALL);
                let (o, b) = c06::make(rng, g, &cfg);
                *wz_reader::util::profile::PKG2_PROFILE_CACHE.write().unwrap() = vec![c06::cached(g, o.t)];
                std::fs::write(&f, &b.bytes).unwrap();
                c.st.add("pkg2_archives", 1);
                b.tree
            } else {
                let g = c01::gen(rng, &cfg, true);
                std::fs::write(&f, &g.b.bytes).unwrap();
                c.st.add("archives", 1);
                g.b.tree
            };
            let root = WzNode::from_wz_file(&f, None).map_err(|e| format!("not opened: {e}"))?.into_lock();
            root.write().unwrap().parse(&root).map_err(|e| format!("does not parse: {e}"))?;
            w.file = Some(f);
            w.put(&format!("keep{idx}k"), Item::Dir(&tree), &root, None, true);
            w.dir(rng, &root, &tree, 0)?;
            w.e[0].held = Some(root);
            drive(c, rng, &mut w)
        }
        4 | 5 => {
            let (mut p, imgs) = c14::gen(rng, 12);
            p.file = format!("keep{idx}k.ms");
            p.salt.truncate(30);
            let b = ms::build(rng, &p);
            let f = c.dir.join(&p.file);
            std::fs::write(&f, &b.bytes).unwrap();
            let root = WzNode::from_ms_file(&f, None).map_err(|e| format!("pack not opened: {e}"))?.into_lock();
            root.write().unwrap().parse(&root).map_err(|e| format!("pack does not parse: {e}"))?;
            c.st.add("packs", 1);
            w.file = Some(f);
            w.put(&format!("keep{idx}k"), Item::Pack, &root, None, true);
            for (e, i) in b.entries.iter().zip(&imgs) {
                let x = root.read().unwrap().at(&e.name).ok_or("an entry is missing")?;
                w.image(&e.name, &x, i, Some(0), rng.chance(2, 3))?;
            }
            w.e[0].held = Some(root);
            drive(c, rng, &mut w)
        }
        k => {
            let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
            let mut b = 30;
            let im = Img::Props(img::gen_kids(rng, &icfg, 0, &mut b, iv));
            let bytes = img::encode(rng, &im, iv);
            let (name, root) = if k == 6 {
                let f = c.dir.join(format!("keep{idx}k.img"));
                std::fs::write(&f, &bytes).unwrap();
                let r = WzNode::from_img_file(&f, None, None).map_err(|e| format!("not opened: {e}"))?.into_lock();
                w.file = Some(f);
                c.st.add("standalone_images", 1);
                (format!("keep{idx}k.img"), r)
            } else {
                let reader = Arc::new(WzReader::from_buff(&bytes).with_iv(iv));
                c.st.add("buffers", 1);
                ("x.img".to_string(), WzNode::from_str("x.img", WzImage::new(&"x.img".into(), 0, bytes.len(), &reader), None).into_lock())
            };
            w.image(&name, &root, &im, None, true)?;
            w.e[0].held = Some(root);
            drive(c, rng, &mut w)
        }
    }
}
