//! C09: parse / unparse / walk / release.
use crate::img::{self, Cmp, GenCfg, Img, Kids, V};
use crate::props::{c01, c06, c14};
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, TreeCfg, T, TE};
use crate::{crypt, ms, pkg2};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::os::unix::fs::FileExt;
use std::sync::{Arc, Weak};
use wz_reader::util::walk_node;
use wz_reader::{WzNode, WzNodeArc, WzObjectType};

type WeakNode = Weak<std::sync::RwLock<WzNode>>;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        quick: 20000,
        thorough: 700000,
        case,
        evals: "operations",
        distinct: "histories",
        rule: "each case drives one archive or image through a random history of parses, unparses, walks and on-disk faults, comparing the whole visible tree, its handles and what was released with a model after every operation; distinct: operation histories",
        need: &[
            "parses", "reparses_of_parsed", "unparses", "failed_parses", "repaired_parses", "plain_walks", "forced_walks", "nodes_visited", "released", "drops", "root_faults",
            "linked_images", "pkg2_trees", "standalone_images", "handles_kept", "pack_trees",
        ],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

/// The model of a container: what is stored, and what is visible now.
enum Kind<'a> {
    Dir(&'a [TE]),
    Img(&'a Img),
}
struct M<'a> {
    kind: Kind<'a>,
    /// children visible
    open: bool,
    /// offset in the file of a type byte that makes the parse fail, when broken
    fault: Option<u64>,
    broken: bool,
}

fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.to_string()
    } else {
        format!("{a}/{b}")
    }
}

fn all_nodes(node: &WzNodeArc, path: &str, out: &mut Vec<(String, WzNodeArc)>) {
    out.push((path.to_string(), node.clone()));
    let kids: Vec<(String, WzNodeArc)> = node.read().unwrap().children.iter().map(|(n, c)| (n.to_string(), c.clone())).collect();
    for (n, c) in kids {
        all_nodes(&c, &join(path, &n), out);
    }
}

fn prop_paths(kids: &[(String, &V)], path: &str, out: &mut Vec<String>) {
    for (n, v) in kids {
        let p = join(path, n);
        out.push(p.clone());
        prop_paths(&v.kids(), &p, out);
    }
}
fn img_paths(i: &Img, path: &str, out: &mut Vec<String>) {
    match i {
        Img::Props(k) => {
            let k: Vec<(String, &V)> = k.iter().map(|(n, v)| (n.clone(), v)).collect();
            prop_paths(&k, path, out)
        }
        Img::Lua(..) => out.push(join(path, "Script")),
        _ => out.push(join(path, "text.txt")),
    }
}

struct World<'a> {
    root: WzNodeArc,
    m: BTreeMap<String, M<'a>>,
    file: std::fs::File,
    handles: HashMap<String, WeakNode>,
    log: Vec<String>,
    hist: u64,
}

fn add<'a>(m: &mut BTreeMap<String, M<'a>>, t: &'a [TE], path: &str, faults: &HashMap<String, u64>) {
    for e in t {
        let p = join(path, &e.name);
        match &e.t {
            T::Dir(k) => {
                m.insert(p.clone(), M { kind: Kind::Dir(k), open: false, fault: None, broken: false });
                add(m, k, &p, faults);
            }
            T::Img(i, _) => {
                let fault = faults.get(&p).map(|f| f + e.off as u64);
                m.insert(p.clone(), M { kind: Kind::Img(i), open: false, fault, broken: false });
            }
        }
    }
}

impl<'a> World<'a> {
    /// is the container at this path reachable now?
    fn visible(&self, path: &str) -> bool {
        if path.is_empty() {
            return true;
        }
        let mut p = String::new();
        let mut ok = self.m[""].open;
        let mut rest = path;
        // names may not contain '/', so walk by components
        while let Some((a, b)) = rest.split_once('/') {
            p = join(&p, a);
            ok &= self.m[&p].open;
            rest = b;
        }
        ok
    }
    fn pick(&self, rng: &mut Rng) -> String {
        let v: Vec<&String> = self.m.keys().filter(|p| self.visible(p)).collect();
        let imgs: Vec<&&String> = v.iter().filter(|p| matches!(self.m[**p].kind, Kind::Img(_))).collect();
        if !imgs.is_empty() && rng.chance(1, 2) {
            return imgs[rng.below(imgs.len())].to_string();
        }
        v[rng.below(v.len())].clone()
    }
    fn node(&self, path: &str) -> Result<WzNodeArc, Fail> {
        if path.is_empty() {
            return Ok(self.root.clone());
        }
        self.root.read().unwrap().at_path(path).ok_or_else(|| self.fail(format!("{path:?} is not there")))
    }
    fn fail(&self, what: String) -> Fail {
        let tail: Vec<String> = self.log.iter().rev().take(12).rev().cloned().collect();
        Fail::new(what.split(':').next().unwrap_or("").to_string(), format!("{what}\n  after: {}", tail.join("; ")))
    }
    /// containers below (and at) path become open when their listing is (re)read
    fn open_below(&mut self, path: &str) {
        let pre = join(path, "");
        for (p, m) in self.m.iter_mut() {
            if p == path || path.is_empty() || p.starts_with(&pre) {
                m.open = matches!(m.kind, Kind::Dir(_)) || (p == path);
            }
        }
    }
    fn expected(&self, path: &str, out: &mut Vec<String>) {
        let m = &self.m[path];
        if !m.open {
            return;
        }
        match &m.kind {
            Kind::Dir(k) => {
                for e in k.iter() {
                    let p = join(path, &e.name);
                    out.push(p.clone());
                    self.expected(&p, out);
                }
            }
            Kind::Img(i) => img_paths(i, path, out),
        }
    }
    /// the whole visible tree against the model; `changed`: path below which handles may be new
    fn check(&mut self, c: &mut Ctx, changed: Option<&str>) -> Result<(), Fail> {
        let mut nodes = vec![];
        all_nodes(&self.root, "", &mut nodes);
        let mut want = vec![String::new()];
        self.expected("", &mut want);
        want.sort();
        let mut got: Vec<String> = nodes.iter().map(|x| x.0.clone()).collect();
        got.sort();
        if got != want {
            let g: HashSet<&String> = got.iter().collect();
            let w: HashSet<&String> = want.iter().collect();
            let miss = want.iter().find(|x| !g.contains(x));
            let extra = got.iter().find(|x| !w.contains(x));
            return Err(self.fail(format!("visible tree differs from the model: {} nodes, expected {}; missing {:?}, unexpected {:?}", got.len(), want.len(), miss, extra)));
        }
        let mut now: HashMap<String, WeakNode> = HashMap::new();
        for (p, n) in &nodes {
            now.insert(p.clone(), Arc::downgrade(n));
        }
        for (p, w) in &self.handles {
            let may_change = changed.map(|c| c.is_empty() && !p.is_empty() || p.starts_with(&join(c, ""))).unwrap_or(false);
            match now.get(p) {
                Some(n) if !may_change => {
                    if !n.ptr_eq(w) {
                        return Err(self.fail(format!("node replaced although nothing changed it: {p:?}")));
                    }
                    c.st.add("handles_kept", 1);
                }
                Some(n) if n.ptr_eq(w) => {}
                _ => {
                    if w.upgrade().is_some() {
                        return Err(self.fail(format!("node still alive after it was released: {p:?}")));
                    }
                    c.st.add("released", 1);
                }
            }
        }
        self.handles = now;
        // container flags and content
        for (p, m) in &self.m {
            if !self.visible(p) {
                continue;
            }
            let n = self.node(p)?;
            let r = n.read().unwrap();
            let flag = match &r.object_type {
                WzObjectType::Image(i) => i.is_parsed,
                WzObjectType::File(f) => f.is_parsed,
                WzObjectType::MsFile(f) => f.is_parsed,
                WzObjectType::MsImage(_) => false,
                _ => continue,
            };
            if flag != m.open {
                return Err(self.fail(format!("parsed flag is {flag}, expected {}: {p:?}", m.open)));
            }
        }
        Ok(())
    }
    fn content(&self, c: &mut Ctx, path: &str) -> Result<(), Fail> {
        if let Kind::Img(i) = self.m[path].kind {
            let n = self.node(path)?;
            let mut cmp = Cmp::new(&mut c.st);
            cmp.payloads = true;
            cmp.image(&n, i, path).map_err(|e| self.fail(format!("content of a parsed image: {e}")))?;
        }
        Ok(())
    }
    fn parse(&mut self, c: &mut Ctx, path: &str) -> Result<(), Fail> {
        self.log.push(format!("parse {path:?}"));
        let n = self.node(path)?;
        let res = if path.len() % 2 == 0 { n.write().unwrap().parse(&n).map_err(|e| e.to_string()) } else { wz_reader::util::node_util::parse_node(&n).map_err(|e| e.to_string()) };
        drop(n);
        let (was, broken) = (self.m[path].open, self.m[path].broken);
        match res {
            Ok(()) if broken && !was => return Err(self.fail(format!("parse of a broken node succeeds: {path:?}"))),
            Ok(()) => {
                if was {
                    c.st.add("reparses_of_parsed", 1);
                    self.check(c, None)?;
                } else {
                    c.st.add("parses", 1);
                    self.open_below(path);
                    self.check(c, Some(path))?;
                    self.content(c, path)?;
                }
            }
            Err(e) if !broken => return Err(self.fail(format!("parse fails: {path:?}: {e}"))),
            Err(_) => {
                c.st.add("failed_parses", 1);
                if was {
                    return Err(self.fail(format!("parse of a parsed node fails: {path:?}")));
                }
                self.check(c, None)?;
            }
        }
        Ok(())
    }
    fn unparse(&mut self, c: &mut Ctx, path: &str) -> Result<(), Fail> {
        self.log.push(format!("unparse {path:?}"));
        c.st.add("unparses", 1);
        let n = self.node(path)?;
        n.write().unwrap().unparse();
        drop(n);
        let pre = join(path, "");
        for (p, m) in self.m.iter_mut() {
            if p == path || path.is_empty() || p.starts_with(&pre) {
                m.open = false;
            }
        }
        self.check(c, Some(path))
    }
    fn walk(&mut self, c: &mut Ctx, path: &str, force: bool) -> Result<(), Fail> {
        self.log.push(format!("walk {path:?} force {force}"));
        let n = self.node(path)?;
        let seen: RefCell<Vec<(String, WeakNode, usize)>> = RefCell::new(vec![]);
        walk_node(&n, force, &|x| {
            let r = x.read().unwrap();
            seen.borrow_mut().push((r.get_full_path(), Arc::downgrade(x), r.children.len()));
        });
        // reported paths start with the root's name
        let rootname = self.root.read().unwrap().name.to_string();
        drop(n);
        let seen = seen.into_inner();
        c.st.add("nodes_visited", seen.len() as u64);
        if force {
            c.st.add("forced_walks", 1);
            let keys: Vec<String> = self.m.keys().filter(|p| *p == path || path.is_empty() || p.starts_with(&join(path, ""))).cloned().collect();
            // during the walk everything that can be parsed is
            let saved: Vec<(String, bool)> = keys.iter().map(|k| (k.clone(), self.m[k].open)).collect();
            for k in &keys {
                let m = self.m.get_mut(k).unwrap();
                m.open |= !m.broken;
            }
            let mut want = vec![path.to_string()];
            self.expected(path, &mut want);
            self.compare_visits(&rootname, &seen, want)?;
            for (k, was) in saved {
                let m = self.m.get_mut(&k).unwrap();
                if matches!(m.kind, Kind::Img(_)) {
                    m.open = false;
                } else if m.broken {
                    m.open = was;
                }
            }
            self.check(c, Some(path))?;
            // what the walk opened in images is gone again
            for (p, w, _) in &seen {
                let rel = p.strip_prefix(&rootname).unwrap_or(p).trim_start_matches('/');
                if !self.handles.contains_key(rel) && w.upgrade().is_some() {
                    return Err(self.fail(format!("node still alive after a walk: {rel:?}")));
                }
            }
        } else {
            c.st.add("plain_walks", 1);
            let mut want = vec![path.to_string()];
            self.expected(path, &mut want);
            self.compare_visits(&rootname, &seen, want)?;
            for (p, w, _) in &seen {
                let rel = p.strip_prefix(&rootname).unwrap_or(p).trim_start_matches('/');
                match self.handles.get(rel) {
                    Some(h) if h.ptr_eq(w) => {}
                    _ => return Err(self.fail(format!("walk visits a node that is not in the tree: {rel:?}"))),
                }
            }
            self.check(c, None)?;
        }
        Ok(())
    }
    fn compare_visits(&self, rootname: &str, seen: &[(String, WeakNode, usize)], want: Vec<String>) -> Result<(), Fail> {
        let mut at: HashMap<String, usize> = HashMap::new();
        for (i, (p, _, _)) in seen.iter().enumerate() {
            if at.insert(p.clone(), i).is_some() {
                return Err(self.fail(format!("walk visits a node twice: {p:?}")));
            }
        }
        if seen.len() != want.len() {
            let have: HashSet<&str> = seen.iter().map(|x| x.0.as_str()).collect();
            let miss = want.iter().find(|w| !have.contains(join(rootname, w).trim_end_matches('/')));
            return Err(self.fail(format!("walk visits {} nodes instead of {}: {:?} not visited", seen.len(), want.len(), miss)));
        }
        for w in &want {
            let full = if w.is_empty() { rootname.to_string() } else { format!("{rootname}/{w}") };
            let Some(i) = at.get(&full) else { return Err(self.fail(format!("walk does not visit {w:?}"))) };
            if let Some((h, _)) = full.rsplit_once('/') {
                if let Some(j) = at.get(h) {
                    if j > i {
                        return Err(self.fail(format!("walk visits a child before its parent: {w:?}")));
                    }
                }
            }
        }
        Ok(())
    }
    fn fault(&mut self, path: &str, broken: bool) {
        let m = self.m.get_mut(path).unwrap();
        if let Some(at) = m.fault {
            self.file.write_all_at(&[if broken { 7 } else { 0 }], at).unwrap();
            m.broken = broken;
            self.log.push(format!("{} {path:?}", if broken { "break" } else { "repair" }));
        }
    }
}

pub fn mapped(path: &std::path::Path) -> bool {
    let name = path.to_str().unwrap();
    std::fs::read_to_string("/proc/self/maps").unwrap().lines().any(|l| l.contains(name))
}

/// names that no path can address
fn slashes(t: &[TE]) -> bool {
    t.iter().any(|e| e.name.contains('/') || e.name.is_empty() || matches!(&e.t, T::Dir(k) if slashes(k)))
}

/// put a repairable fault into some images: path -> offset inside the image
fn plant(rng: &mut Rng, t: &mut [TE], path: &str, iv: [u8; 4], faults: &mut HashMap<String, u64>) {
    for e in t.iter_mut() {
        let p = join(path, &e.name);
        match &mut e.t {
            T::Dir(k) => plant(rng, k, &p, iv, faults),
            T::Img(Img::Props(k), bytes) if rng.chance(1, 2) => {
                if let Some((at, b)) = fault_in(rng, k, iv) {
                    *bytes = b;
                    faults.insert(p, at);
                }
            }
            _ => {}
        }
    }
}

/// add a breakable property to the list; returns where its type byte is, and the encoded image
fn fault_in(rng: &mut Rng, k: &mut Kids, iv: [u8; 4]) -> Option<(u64, Vec<u8>)> {
    if k.iter().any(|x| x.0 == "faulty") {
        return None;
    }
    let at = rng.below(k.len() + 1);
    // sometimes below another property
    let mut path = vec![];
    let deep = rng.chance(1, 2);
    let list: &mut Kids = if deep {
        match k.iter_mut().position(|x| matches!(x.1, V::Prop(_))) {
            Some(i) => {
                path.push(i);
                match &mut k[i].1 {
                    V::Prop(l) => l,
                    _ => unreachable!(),
                }
            }
            None => k,
        }
    } else {
        k
    };
    let at = at.min(list.len());
    list.insert(at, ("faulty".into(), V::Bad));
    let r = rng.clone();
    let bad = img::encode_props(&mut r.clone(), k, iv);
    let list: &mut Kids = match path.first() {
        Some(&i) => match &mut k[i].1 {
            V::Prop(l) => l,
            _ => unreachable!(),
        },
        None => k,
    };
    list[at].1 = V::Null;
    let good = img::encode_props(&mut r.clone(), k, iv);
    let d: Vec<usize> = (0..good.len()).filter(|i| good[*i] != bad[*i]).collect();
    assert!(good.len() == bad.len() && d.len() == 1);
    Some((d[0] as u64, good))
}

fn drive(c: &mut Ctx, rng: &mut Rng, w: &mut World) -> Result<(), Fail> {
    w.check(c, None)?;
    // every operation is followed by a comparison of the whole tree: fewer of them on the wide ones
    let n = if w.m.len() > 80 { 4 } else { 6 + rng.below(24) };
    for _ in 0..n {
        let p = w.pick(rng);
        let k = rng.below(12);
        w.hist = w.hist.wrapping_mul(0x100000001b3) ^ (k as u64) ^ crate::rng::hash_str(&p);
        c.st.add("operations", 1);
        match k {
            0..=4 => w.parse(c, &p)?,
            5 | 6 => w.unparse(c, &p)?,
            7 => w.walk(c, &p, false)?,
            8 => w.walk(c, &p, true)?,
            9 | 10 => {
                let fs: Vec<String> = w.m.iter().filter(|x| x.1.fault.is_some()).map(|x| x.0.clone()).collect();
                if !fs.is_empty() {
                    let f = fs[rng.below(fs.len())].clone();
                    let to = !w.m[&f].broken;
                    w.fault(&f, to);
                    if w.visible(&f) && !w.m[&f].open {
                        let was = !to;
                        w.parse(c, &f)?;
                        if was && w.m[&f].open {
                            c.st.add("repaired_parses", 1);
                        }
                    }
                }
            }
            _ => {
                // every visible container again
                let mut all: Vec<String> = w.m.keys().cloned().collect();
                if all.len() > 80 {
                    all.sort();
                    rng.shuffle(&mut all);
                    all.truncate(12);
                }
                for p in all {
                    if w.visible(&p) {
                        w.parse(c, &p)?;
                    }
                }
            }
        }
    }
    // finally everything, repaired, equals the stored tree
    for f in w.m.keys().cloned().collect::<Vec<_>>() {
        if w.m[&f].broken {
            w.fault(&f, false);
        }
    }
    loop {
        let next = w.m.keys().find(|p| w.visible(p) && !w.m[*p].open).cloned();
        match next {
            Some(p) => w.parse(c, &p)?,
            None => break,
        }
    }
    for p in w.m.keys().cloned().collect::<Vec<_>>() {
        w.content(c, &p)?;
    }
    Ok(())
}

fn finish(c: &mut Ctx, rng: &mut Rng, w: World, f: &std::path::Path) -> Result<(), Fail> {
    c.st.seen("histories", w.hist);
    let mut nodes = vec![];
    all_nodes(&w.root, "", &mut nodes);
    let weak: Vec<(String, WeakNode)> = nodes.iter().map(|(p, n)| (p.clone(), Arc::downgrade(n))).collect();
    let keep = if rng.chance(1, 3) { Some(rng.below(nodes.len())) } else { None };
    if !mapped(f) {
        return Err("the file is not mapped while its tree is in use".to_string().into());
    }
    let kept = keep.map(|i| nodes[i].clone());
    drop(nodes);
    drop(w);
    let below = kept.as_ref().map(|k| k.0.clone());
    for (p, x) in &weak {
        let inside = match &below {
            Some(b) => p == b || b.is_empty() || p.starts_with(&join(b, "")),
            None => false,
        };
        if inside != x.upgrade().is_some() {
            return Err(Fail::new("release", format!("{p:?} {} after the root was dropped (kept: {below:?})", if inside { "gone" } else { "still alive" })));
        }
    }
    drop(kept);
    for (p, x) in &weak {
        if x.upgrade().is_some() {
            return Err(Fail::new("release", format!("{p:?} still alive after everything was dropped")));
        }
    }
    if mapped(f) {
        return Err(Fail::new("mapping", "the file is still mapped after everything was dropped"));
    }
    c.st.add("drops", 1);
    std::fs::remove_file(f).unwrap();
    Ok(())
}

fn archive(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let cfg = TreeCfg { budget: 10, depth: 4, wide: rng.chance(1, 30), img: GenCfg { max_depth: 3, budget: 6, blobs: 20, ..Default::default() }, ..Default::default() };
    let f = c.dir.join(format!("w{idx}.wz"));
    let mut faults = HashMap::new();
    let (bytes, tree, root_fault, version): (Vec<u8>, Vec<TE>, Option<u64>, Option<(wz_reader::util::version::WzMapleVersion, i32)>);
    if idx % 5 == 4 {
        let g = *rng.pick(&pkg2::ALL);
        let mut cfg = cfg;
        cfg.byref = false;
        let (o, b) = loop {
            let x = c06::make(rng, g, &cfg);
            if !slashes(&x.1.tree) {
                break x;
            }
        };
        *wz_reader::util::profile::PKG2_PROFILE_CACHE.write().unwrap() = vec![c06::cached(g, o.t)];
        (bytes, tree, root_fault, version) = (b.bytes, b.tree, None, None);
        c.st.add("pkg2_trees", 1);
    } else {
        let (o, b) = loop {
            let g = c01::gen(rng, &cfg, true);
            let mut t = g.b.tree;
            faults.clear();
            plant(rng, &mut t, "", g.o.iv, &mut faults);
            let b = wz::build_pkg1(rng, t, &g.o);
            if !b.version_ambiguous() {
                break (g.o, b);
            }
        };
        // the type byte of the first root entry
        let at = o.fstart + if o.encver { 2 } else { 0 };
        let at = at + if b.bytes[at] == 0x80 { 5 } else { 1 };
        root_fault = if b.tree.is_empty() || b.bytes[at] == 1 { None } else { Some(at as u64) };
        version = Some((c01::version_of(o.iv), o.version));
        (bytes, tree) = (b.bytes, b.tree);
    }
    std::fs::write(&f, &bytes).unwrap();
    let file = std::fs::OpenOptions::new().write(true).open(&f).unwrap();
    let root = match version {
        Some((v, p)) if rng.chance(1, 2) => WzNode::from_wz_file_full(&f, Some(v), Some(p), None, None),
        _ => WzNode::from_wz_file(&f, None),
    }
    .map_err(|e| format!("not opened: {e}"))?
    .into_lock();
    let mut m = BTreeMap::new();
    m.insert(String::new(), M { kind: Kind::Dir(&tree), open: false, fault: None, broken: false });
    add(&mut m, &tree, "", &faults);
    let mut w = World { root, m, file, handles: HashMap::new(), log: vec![], hist: 1 };
    if let Some(at) = root_fault {
        if rng.chance(1, 2) {
            // the whole listing unreadable at first
            let good = bytes[at as usize];
            w.file.write_all_at(&[0x66], at).unwrap();
            w.m.get_mut("").unwrap().broken = true;
            w.parse(c, "")?;
            w.parse(c, "")?;
            w.file.write_all_at(&[good], at).unwrap();
            w.m.get_mut("").unwrap().broken = false;
            w.parse(c, "")?;
            c.st.add("root_faults", 1);
            c.st.add("repaired_parses", 1);
        }
    }
    drive(c, rng, &mut w)?;
    c.st.sample(|| format!("{} containers: {}", w.m.len(), w.log.iter().take(6).cloned().collect::<Vec<_>>().join("; ")));
    finish(c, rng, w, &f)
}

fn standalone(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let cfg = GenCfg { budget: 30, ..Default::default() };
    let mut b = 30;
    let mut kids = img::gen_kids(rng, &cfg, 0, &mut b, iv);
    let (fault, bytes) = match fault_in(rng, &mut kids, iv) {
        Some((a, b)) => (Some(a), b),
        None => (None, img::encode_props(rng, &kids, iv)),
    };
    let im = Img::Props(kids);
    let f = c.dir.join(format!("s{idx}.img"));
    std::fs::write(&f, &bytes).unwrap();
    let file = std::fs::OpenOptions::new().write(true).open(&f).unwrap();
    let root = WzNode::from_img_file(&f, None, None).map_err(|e| format!("not opened: {e}"))?.into_lock();
    let mut m = BTreeMap::new();
    m.insert(String::new(), M { kind: Kind::Img(&im), open: false, fault, broken: false });
    let mut w = World { root, m, file, handles: HashMap::new(), log: vec![], hist: 2 };
    c.st.add("standalone_images", 1);
    drive(c, rng, &mut w)?;
    finish(c, rng, w, &f)
}

fn pack(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let (p, tree) = loop {
        let (p, imgs) = c14::gen(rng, 6);
        let tree: Vec<TE> = p.entries.iter().zip(imgs).map(|(e, i)| TE { name: e.name.clone(), t: T::Img(i, vec![]), byref: false, size: 0, off: 0 }).collect();
        if !slashes(&tree) && tree.iter().all(|e| e.name != "..") {
            break (p, tree);
        }
    };
    let b = ms::build(rng, &p);
    let dir = c.dir.join(format!("m{idx}"));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join(&p.file);
    std::fs::write(&f, &b.bytes).unwrap();
    let file = std::fs::OpenOptions::new().write(true).open(&f).unwrap();
    let root = WzNode::from_ms_file(&f, None).map_err(|e| format!("not opened: {e}"))?.into_lock();
    let mut m = BTreeMap::new();
    m.insert(String::new(), M { kind: Kind::Dir(&tree), open: false, fault: None, broken: false });
    add(&mut m, &tree, "", &HashMap::new());
    let mut w = World { root, m, file, handles: HashMap::new(), log: vec![], hist: 3 };
    c.st.add("pack_trees", 1);
    drive(c, rng, &mut w)?;
    finish(c, rng, w, &f)?;
    let _ = std::fs::remove_dir(&dir);
    Ok(())
}

/// names of a linked tree, to address nodes
fn link_paths(k: &Kids, pre: &[String], out: &mut Vec<Vec<String>>) {
    for (n, v) in k {
        let mut p = pre.to_vec();
        p.push(n.clone());
        out.push(p.clone());
        for (m, v) in v.kids() {
            let mut q = p.clone();
            q.push(m.clone());
            out.push(q.clone());
            if let V::Prop(k) = v {
                link_paths(k, &q, out);
            }
        }
    }
}
/// relative path from the holder of a link at `from` (path of the link itself) to `to`
pub fn relative(from: &[String], to: &[String]) -> String {
    let base = &from[..from.len() - 1];
    let same = base.iter().zip(to).take_while(|(a, b)| a == b).count();
    let mut v: Vec<String> = vec!["..".into(); base.len() - same];
    v.extend(to[same..].iter().cloned());
    if v.is_empty() {
        // the holder itself
        v = vec!["..".into(), base.last().cloned().unwrap_or_default()];
    }
    v.join("/")
}

fn put_link(k: &mut Kids, path: &[String], i: usize, text: String) {
    if i + 1 == path.len() {
        k.push((path[i].clone(), V::Uol(text)));
        return;
    }
    if let Some((_, V::Prop(l))) = k.iter_mut().find(|x| x.0 == path[i]) {
        put_link(l, path, i + 1, text);
    }
}

/// every path with its shape, bounded
fn shape(n: &WzNodeArc, path: &str, out: &mut Vec<String>, budget: &mut usize) {
    if *budget == 0 {
        return;
    }
    *budget -= 1;
    let r = n.read().unwrap();
    out.push(format!("{path} {}", r.name));
    let mut kids: Vec<(String, WzNodeArc)> = r.children.iter().map(|(n, c)| (n.to_string(), c.clone())).collect();
    drop(r);
    kids.sort_by(|a, b| a.0.cmp(&b.0));
    for (m, c) in kids {
        shape(&c, &format!("{path}/{m}"), out, budget);
    }
}

/// images whose links lead to each other, to ancestors and to shared nodes
fn linked(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let mut kids: Kids = (0..2 + rng.below(3))
        .map(|i| {
            let sub: Kids = (0..rng.below(3))
                .map(|j| {
                    let l: Kids = (0..rng.below(3)).map(|x| (format!("v{x}"), V::Int(x as i32))).collect();
                    (format!("s{j}"), V::Prop(l))
                })
                .collect();
            (format!("t{i}"), V::Prop(sub))
        })
        .collect();
    let mut all = vec![];
    link_paths(&kids, &[], &mut all);
    let holders: Vec<Vec<String>> = all.iter().filter(|p| !p.last().unwrap().starts_with('v')).cloned().collect();
    for i in 0..1 + rng.below(6) {
        let mut at = if rng.chance(1, 5) { vec![] } else { rng.pick(&holders).clone() };
        at.push(format!("l{i}"));
        let to = match rng.below(5) {
            // an ancestor of the link
            0 => at[..rng.below(at.len())].to_vec(),
            _ => rng.pick(&all).clone(),
        };
        let mut t = if to.is_empty() { vec![".."; at.len() - 1].join("/") } else { relative(&at, &to) };
        if t.is_empty() {
            t = "..".into();
        }
        put_link(&mut kids, &at.clone(), 0, t);
    }
    let bytes = img::encode_props(rng, &kids, iv);
    let f = c.dir.join(format!("l{idx}.img"));
    std::fs::write(&f, &bytes).unwrap();
    let root = WzNode::from_img_file(&f, None, None).map_err(|e| format!("not opened: {e}"))?.into_lock();
    c.st.add("linked_images", 1);
    let mut first: Option<Vec<String>> = None;
    let mut weak: Vec<WeakNode> = vec![];
    for round in 0..3 {
        c.st.add("operations", 2);
        root.write().unwrap().parse(&root).map_err(|e| format!("image with links does not parse: {e}"))?;
        let mut s = vec![];
        let mut budget = 20000;
        shape(&root, "", &mut s, &mut budget);
        if budget == 0 {
            return Err(Fail::new("link cycle", format!("a link makes the tree endless: {kids:?}")));
        }
        let n = RefCell::new(0u64);
        walk_node(&root, false, &|x| {
            *n.borrow_mut() += 1;
            if round == 0 && *n.borrow() < 5000 {
                // collected for the release check
                let _ = x;
            }
        });
        if *n.borrow() != s.len() as u64 {
            return Err(Fail::new("walk of links", format!("walk makes {} visits, {} places exist: {kids:?}", n.borrow(), s.len())));
        }
        c.st.add("nodes_visited", s.len() as u64);
        let mut nodes = vec![];
        all_nodes(&root, "", &mut nodes);
        for (p, x) in nodes {
            if !p.is_empty() {
                weak.push(Arc::downgrade(&x));
            }
        }
        match &first {
            None => first = Some(s),
            Some(f) if *f != s => return Err(Fail::new("links repeat", format!("parsing again after unparse resolves the links differently: {kids:?}"))),
            _ => {}
        }
        if round < 2 {
            root.write().unwrap().unparse();
            if weak.iter().any(|w| w.upgrade().is_some()) {
                return Err(Fail::new("links leak", format!("unparse does not release an image with links: {kids:?}")));
            }
        }
    }
    drop(root);
    if weak.iter().any(|w| w.upgrade().is_some()) || mapped(&f) {
        return Err(Fail::new("links leak", format!("dropping the root does not release an image with links: {kids:?}")));
    }
    c.st.add("drops", 1);
    std::fs::remove_file(&f).unwrap();
    Ok(())
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    match idx % 6 {
        4 => standalone(c, &mut rng, idx),
        5 => linked(c, &mut rng, idx),
        3 if idx % 12 == 3 => pack(c, &mut rng, idx),
        _ => archive(c, &mut rng, idx),
    }
}
