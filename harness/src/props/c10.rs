//! C10: parent links, paths and lookups describe one consistent tree.
use crate::img::{self, GenCfg, Img, V};
use crate::props::c01;
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{TreeCfg, T, TE};
use std::collections::HashMap;
use std::sync::Arc;
use wz_reader::property::{WzSubProperty, WzValue};
use wz_reader::util::node_util::resolve_childs_parent;
use wz_reader::{WzDirectory, WzFile, WzImage, WzNode, WzNodeArc, WzObjectType};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        quick: 40000,
        thorough: 1500000,
        case,
        evals: "nodes_checked",
        distinct: "trees",
        rule: "each case parses one archive, or builds trees through the node interface and merges and repairs them, and compares every link, path and lookup with an independent model of the tree; distinct: tree shapes",
        need: &["parsed_trees", "built_trees", "transfers", "merged_containers", "moved_nodes", "repairs", "relative_paths", "inside_images", "below_base", "filters", "missing_paths", "appended"],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    File,
    Dir,
    Img,
    Other,
}

/// Independent description of the tree.
struct N {
    name: String,
    kind: K,
    parent: Option<usize>,
    kids: Vec<usize>,
    node: WzNodeArc,
}
struct Model {
    n: Vec<N>,
}
impl Model {
    fn new() -> Self {
        Model { n: vec![] }
    }
    fn add(&mut self, name: &str, kind: K, parent: Option<usize>, node: WzNodeArc) -> usize {
        self.n.push(N { name: name.into(), kind, parent, kids: vec![], node });
        let i = self.n.len() - 1;
        if let Some(p) = parent {
            self.n[p].kids.push(i);
        }
        i
    }
    fn kid(&self, i: usize, name: &str) -> Option<usize> {
        self.n[i].kids.iter().copied().find(|k| self.n[*k].name == name)
    }
    fn chain(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while let Some(p) = self.n[*v.last().unwrap()].parent {
            v.push(p);
        }
        v
    }
    fn below(&self, i: usize, out: &mut Vec<usize>) {
        out.push(i);
        for k in &self.n[i].kids {
            self.below(*k, out);
        }
    }
    fn path(&self, i: usize, top: usize) -> String {
        let mut v = vec![];
        let mut x = i;
        while x != top {
            v.push(self.n[x].name.clone());
            x = self.n[x].parent.unwrap();
        }
        v.reverse();
        v.join("/")
    }
    /// what the destination looks like after the children of `from` were moved there
    fn transfer(&mut self, from: usize, to: usize, moved: &mut u64, merged: &mut u64) {
        for k in std::mem::take(&mut self.n[from].kids) {
            let name = self.n[k].name.clone();
            match self.kid(to, &name) {
                Some(old) => {
                    *merged += 1;
                    self.transfer(k, old, moved, merged)
                }
                None => {
                    *moved += 1;
                    self.n[k].parent = Some(to);
                    self.n[to].kids.push(k);
                }
            }
        }
    }
}

fn same(a: &Option<WzNodeArc>, b: Option<&WzNodeArc>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => Arc::ptr_eq(a, b),
        (None, None) => true,
        _ => false,
    }
}
fn name_of(a: &Option<WzNodeArc>) -> String {
    a.as_ref().map(|x| format!("{:?}", x.read().unwrap().name.as_str())).unwrap_or("nothing".into())
}

/// everything below `top` of the model against the real tree
fn check(c: &mut Ctx, rng: &mut Rng, m: &Model, top: usize, what: &str) -> Result<(), Fail> {
    let mut ids = vec![];
    m.below(top, &mut ids);
    let root = m.n[top].node.clone();
    for &i in &ids {
        c.st.add("nodes_checked", 1);
        let e = &m.n[i];
        let r = e.node.read().unwrap();
        let d = |x: String| Fail::new(x.split(':').next().unwrap().to_string(), format!("{what}: {:?}: {x}", m.path(i, top)));
        if r.name.as_str() != e.name {
            return Err(d(format!("name: {:?}, listed as {:?}", r.name.as_str(), e.name)));
        }
        if !same(&r.parent.upgrade(), e.parent.map(|p| &m.n[p].node)) {
            return Err(d(format!("parent: {}, listed by {:?}", name_of(&r.parent.upgrade()), e.parent.map(|p| m.n[p].name.clone()))));
        }
        if r.children.len() != e.kids.len() {
            return Err(d(format!("children: {} instead of {}", r.children.len(), e.kids.len())));
        }
        for k in &e.kids {
            let g = r.at(&m.n[*k].name);
            if !same(&g, Some(&m.n[*k].node)) {
                return Err(d(format!("child: {:?} is {}", m.n[*k].name, name_of(&g))));
            }
            if !same(&r.at_relative(&m.n[*k].name), Some(&m.n[*k].node)) {
                return Err(d(format!("relative child: {:?}", m.n[*k].name)));
            }
        }
        let chain = m.chain(i);
        let true_root = *chain.last().unwrap();
        let path = m.path(i, true_root);
        let got = r.get_path_from_root();
        if got != path {
            return Err(d(format!("path from root: {got:?}, expected {path:?}")));
        }
        let full = if path.is_empty() { e.name.clone() } else { format!("{}/{path}", m.n[true_root].name) };
        if r.get_full_path() != full {
            return Err(d(format!("full path: {:?}, expected {full:?}", r.get_full_path())));
        }
        if !same(&r.at_relative(".."), e.parent.map(|p| &m.n[p].node)) {
            return Err(d("'..': does not lead to the listing node".into()));
        }
        let img = chain[1..].iter().find(|x| m.n[**x].kind == K::Img).copied();
        if !same(&r.get_parent_wz_image(), img.map(|x| &m.n[x].node)) {
            return Err(d(format!("nearest image: {}, expected {:?}", name_of(&r.get_parent_wz_image()), img.map(|x| m.path(x, true_root)))));
        }
        let ip = img.map(|x| m.path(i, x)).unwrap_or_default();
        if r.get_path_from_image() != ip {
            return Err(d(format!("path from image: {:?}, expected {ip:?}", r.get_path_from_image())));
        }
        if img.is_some() {
            c.st.add("inside_images", 1);
        }
        let base = chain[1..].iter().find(|x| m.n[**x].kind == K::File && m.n[**x].name == "Base").copied();
        if !same(&r.get_base_wz_file(), base.map(|x| &m.n[x].node)) {
            return Err(d(format!("base file: {}, expected {:?}", name_of(&r.get_base_wz_file()), base.map(|x| m.path(x, true_root)))));
        }
        if base.is_some() {
            c.st.add("below_base", 1);
        }
        if rng.chance(1, 3) {
            let nm = if rng.chance(1, 4) { "nope".to_string() } else { m.n[chain[rng.below(chain.len())]].name.clone() };
            let want = chain[1..].iter().find(|x| m.n[**x].name == nm).copied();
            let got = r.filter_parent(|n| n.name.as_str() == nm);
            if !same(&got, want.map(|x| &m.n[x].node)) {
                return Err(d(format!("filter: for {nm:?} gives {}, expected {:?}", name_of(&got), want)));
            }
            c.st.add("filters", 1);
        }
        drop(r);
        if i != top && true_root == top {
            let b = root.read().unwrap().at_path(&path);
            if !same(&b, Some(&e.node)) {
                return Err(d(format!("lookup of its path: gives {}", name_of(&b))));
            }
        }
        // a relative walk to some other node of the tree, or past it
        let j = ids[rng.below(ids.len())];
        let cj = m.chain(j);
        let k = chain.iter().position(|x| cj.contains(x)).unwrap();
        let up = k + if rng.chance(1, 8) { 1 } else { 0 };
        let mut rel = vec![".."; up];
        let mut at = chain.get(up).copied();
        let down = m.path(j, chain[k]);
        let down: Vec<String> = down.split('/').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        let mut steps: Vec<String> = rel.drain(..).map(|x| x.to_string()).collect();
        steps.extend(down);
        if rng.chance(1, 8) {
            steps.push("nope".into());
        }
        // by hand
        if !steps.is_empty() {
            for s in &steps[up..] {
                at = at.and_then(|a| m.kid(a, s));
            }
            let g = e.node.read().unwrap().at_path_relative(&steps.join("/"));
            if !same(&g, at.map(|a| &m.n[a].node)) {
                return Err(d(format!("relative path: {:?} leads to {}, expected {:?}", steps.join("/"), name_of(&g), at.map(|a| m.path(a, true_root)))));
            }
            c.st.add("relative_paths", 1);
            if at.is_none() {
                c.st.add("missing_paths", 1);
            }
        }
    }
    Ok(())
}

fn take(m: &mut Model, node: &WzNodeArc, v: &[(String, &V)], parent: usize) -> Result<(), Fail> {
    for (n, v) in v {
        let c = node.read().unwrap().children.get(n.as_str()).cloned().ok_or_else(|| format!("{n:?} is missing"))?;
        let i = m.add(n, K::Other, Some(parent), c.clone());
        take(m, &c, &v.kids(), i)?;
    }
    Ok(())
}
fn take_tree(m: &mut Model, node: &WzNodeArc, t: &[TE], parent: usize) -> Result<(), Fail> {
    for e in t {
        let c = node.read().unwrap().children.get(e.name.as_str()).cloned().ok_or_else(|| format!("{:?} is missing", e.name))?;
        match &e.t {
            T::Dir(k) => {
                let i = m.add(&e.name, K::Dir, Some(parent), c.clone());
                take_tree(m, &c, k, i)?;
            }
            T::Img(im, _) => {
                c.write().unwrap().parse(&c).map_err(|e| format!("image does not parse: {e}"))?;
                let i = m.add(&e.name, K::Img, Some(parent), c.clone());
                match im {
                    Img::Props(k) => {
                        let k: Vec<(String, &V)> = k.iter().map(|(n, v)| (n.clone(), v)).collect();
                        take(m, &c, &k, i)?;
                    }
                    _ => {
                        let n = if matches!(im, Img::Lua(..)) { "Script" } else { "text.txt" };
                        let x = c.read().unwrap().children.get(n).cloned().ok_or_else(|| format!("{n:?} is missing"))?;
                        m.add(n, K::Other, Some(i), x);
                    }
                }
            }
        }
    }
    Ok(())
}

fn parsed(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let cfg = TreeCfg { budget: 12, depth: 5, wide: rng.chance(1, 40), img: GenCfg { max_depth: 4, budget: 12, blobs: 10, ..Default::default() }, ..Default::default() };
    let g = c01::gen(rng, &cfg, true);
    let stem = if rng.chance(1, 2) { "Base".to_string() } else { format!("Mob{idx}") };
    let dir = c.dir.join(format!("d{idx}"));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join(format!("{stem}.wz"));
    std::fs::write(&f, &g.b.bytes).unwrap();
    let mut m = Model::new();
    // sometimes below another node
    let above = if rng.chance(1, 3) {
        let n = WzNode::from_str("Data", WzDirectory::default(), None).into_lock();
        Some(m.add("Data", K::Dir, None, n))
    } else {
        None
    };
    let ap = above.map(|a| m.n[a].node.clone());
    let root = WzNode::from_wz_file_full(&f, Some(c01::version_of(g.o.iv)), Some(g.o.version), ap.as_ref(), None).map_err(|e| format!("not opened: {e}"))?.into_lock();
    if let Some(a) = &ap {
        a.write().unwrap().add(&root);
    }
    let top = m.add(&stem, K::File, above, root.clone());
    root.write().unwrap().parse(&root).map_err(|e| format!("root does not parse: {e}"))?;
    take_tree(&mut m, &root, &g.b.tree, top)?;
    c.st.add("parsed_trees", 1);
    check(c, rng, &m, 0, "parsed tree")?;
    std::fs::remove_dir_all(&dir).unwrap();
    Ok(())
}

fn new_node(rng: &mut Rng, name: &str, parent: Option<&WzNodeArc>, leaf: bool) -> (K, WzNodeArc) {
    let (k, o): (K, WzObjectType) = match rng.below(if leaf { 3 } else { 9 }) {
        0 => (K::Other, (rng.u32() as i32).into()),
        1 => (K::Other, WzObjectType::Value(WzValue::Null)),
        2 => (K::Other, WzObjectType::Property(WzSubProperty::Convex)),
        3 => (K::Other, WzObjectType::Property(WzSubProperty::Property)),
        4 => (K::File, WzFile::default().into()),
        5 | 6 => (K::Img, WzImage::default().into()),
        _ => (K::Dir, WzDirectory::default().into()),
    };
    (k, WzNode::from_str(name, o, parent).into_lock())
}

fn grow(rng: &mut Rng, m: &mut Model, at: usize, depth: usize, budget: &mut usize, names: &[String]) {
    let n = rng.below(5).min(*budget);
    *budget -= n;
    for _ in 0..n {
        let name = if rng.chance(1, 10) { "Base".to_string() } else { rng.pick(names).clone() };
        if m.kid(at, &name).is_some() {
            continue;
        }
        let p = m.n[at].node.clone();
        let (k, node) = new_node(rng, &name, Some(&p), false);
        let ins = m.add(&name, k, Some(at), node.clone());
        p.write().unwrap().add(&node);
        if depth > 0 && rng.chance(2, 3) {
            grow(rng, m, ins, depth - 1, budget, names);
        }
    }
}

fn built(c: &mut Ctx, rng: &mut Rng) -> Result<(), Fail> {
    let mut used = Default::default();
    let names: Vec<String> = (0..3 + rng.below(5)).map(|_| img::gen_name(rng, &mut used, true)).collect();
    let mut m = Model::new();
    let nroots = 2 + rng.below(3);
    let mut roots = vec![];
    for i in 0..nroots {
        let nm = if rng.chance(1, 3) { "Base".to_string() } else { format!("root{i}") };
        let (k, node) = new_node(rng, &nm, None, false);
        let r = m.add(&nm, k, None, node);
        let mut b = 5 + rng.below(30);
        let d = 1 + rng.below(6);
        for _ in 0..3 {
            grow(rng, &mut m, r, d, &mut b, &names);
        }
        roots.push(r);
    }
    c.st.add("built_trees", nroots as u64);
    for &r in &roots {
        check(c, rng, &m, r, "built tree")?;
    }
    // move and merge
    for step in 0..1 + rng.below(5) {
        let (a, b) = (roots[rng.below(nroots)], roots[rng.below(nroots)]);
        if a == b {
            continue;
        }
        let (mut ia, mut ib) = (vec![], vec![]);
        m.below(a, &mut ia);
        m.below(b, &mut ib);
        let from = if rng.chance(1, 2) { a } else { ia[rng.below(ia.len())] };
        let to = if rng.chance(1, 2) { b } else { ib[rng.below(ib.len())] };
        let (mut moved, mut merged) = (0, 0);
        let src = m.n[from].node.clone();
        let dst = m.n[to].node.clone();
        src.write().unwrap().transfer_childs(&dst);
        m.transfer(from, to, &mut moved, &mut merged);
        c.st.add("transfers", 1);
        c.st.add("moved_nodes", moved);
        c.st.add("merged_containers", merged);
        for &r in &roots {
            check(c, rng, &m, r, &format!("after transfer {step}"))?;
        }
    }
    // appended by hand
    {
        let r = roots[rng.below(nroots)];
        let p = m.n[r].node.clone();
        let (k, n) = new_node(rng, "appended", Some(&p), true);
        p.write().unwrap().add(&n);
        m.add("appended", k, Some(r), n);
        c.st.add("appended", 1);
        check(c, rng, &m, r, "after adding a child")?;
    }
    // links lost or wrong, then repaired
    let r = roots[rng.below(nroots)];
    let mut ids = vec![];
    m.below(r, &mut ids);
    let sub = if rng.chance(1, 2) { r } else { ids[rng.below(ids.len())] };
    let mut inside = vec![];
    m.below(sub, &mut inside);
    for &i in &inside {
        if i == sub {
            continue;
        }
        match rng.below(3) {
            0 => m.n[i].node.write().unwrap().parent = Default::default(),
            1 => m.n[i].node.write().unwrap().parent = Arc::downgrade(&m.n[ids[rng.below(ids.len())]].node),
            _ => {}
        }
    }
    resolve_childs_parent(&m.n[sub].node);
    c.st.add("repairs", 1);
    check(c, rng, &m, r, "after repairing the parents")?;
    let mut h: u64 = 7;
    let mut deg: HashMap<usize, u64> = HashMap::new();
    for n in &m.n {
        *deg.entry(n.kids.len()).or_default() += 1;
        h = h.wrapping_mul(31).wrapping_add(n.kids.len() as u64 * 7 + n.kind as u64).wrapping_add(crate::rng::hash_str(&n.name));
    }
    c.st.seen("trees", h);
    c.st.sample(|| format!("{} nodes in {nroots} trees, fan-outs {:?}", m.n.len(), deg));
    Ok(())
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    if idx % 4 == 3 {
        parsed(c, &mut rng, idx)
    } else {
        built(c, &mut rng)
    }
}
