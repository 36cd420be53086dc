//! C11: relative links, in-image links and base-relative links.
use crate::canvas::{self, CanvasM};
use crate::img::{self, Cmp, GenCfg, Img, Kids, V};
use crate::props::c01;
use crate::props::c09::relative;
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, Pkg1, TreeCfg, T, TE};
use crate::crypt;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex};
use wz_reader::property::{get_image, WzSubProperty, WzValue};
use wz_reader::util::node_util::{get_resolved_uol_path, resolve_inlink, resolve_outlink, resolve_uol};
use wz_reader::util::walk_node;
use wz_reader::{WzNode, WzNodeArc, WzObjectType};

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        quick: 30000,
        thorough: 1500000,
        case,
        evals: "links_checked",
        distinct: "layouts",
        rule: "each case places relative links in an image (or canvas links in the images of one or two archives), and compares what every link leads to with an independent resolution over the stored tree; distinct: link layouts",
        need: &[
            "uol_resolved", "uol_dangling", "uol_own_ancestor", "uol_chained", "uol_above_image", "top_level_links", "links_in_canvases", "links_in_convexes", "links_in_raw_data", "late_targets", "resolved_texts",
            "inlinks", "outlinks", "own_pixels", "chains", "circles", "unparsed_targets", "second_archive", "walks",
        ],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

// ------------------------------------------------------------ paths in a stored tree

fn at_mut<'a>(k: &'a mut Kids, path: &[String]) -> Option<&'a mut V> {
    let v = &mut k.iter_mut().find(|x| x.0 == path[0])?.1;
    down_mut(v, &path[1..])
}
fn down_mut<'a>(v: &'a mut V, path: &[String]) -> Option<&'a mut V> {
    if path.is_empty() {
        return Some(v);
    }
    match v {
        V::Prop(k) | V::Canvas(_, Some(k)) | V::Raw(_, Some(k), _) => at_mut(k, path),
        V::Convex(l) => down_mut(l.get_mut(path[0].parse::<usize>().ok()?)?, &path[1..]),
        _ => None,
    }
}

struct N {
    path: Vec<String>,
    parent: usize,
    kids: Vec<usize>,
    link: Option<String>,
    kind: &'static str,
}
/// node 0 is the image
fn arena(k: &Kids) -> Vec<N> {
    let mut v = vec![N { path: vec![], parent: 0, kids: vec![], link: None, kind: "image" }];
    fn go(v: &mut Vec<N>, at: usize, kids: &[(String, &V)]) {
        for (n, x) in kids {
            let mut path = v[at].path.clone();
            path.push(n.clone());
            let link = if let V::Uol(t) = x { Some(t.clone()) } else { None };
            v.push(N { path, parent: at, kids: vec![], link, kind: x.kind() });
            let i = v.len() - 1;
            v[at].kids.push(i);
            go(v, i, &x.kids());
        }
    }
    let kk: Vec<(String, &V)> = k.iter().map(|(n, v)| (n.clone(), v)).collect();
    go(&mut v, 0, &kk);
    v
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Want {
    /// must be replaced by that node
    To(usize),
    /// must stay as it is
    Stays,
    /// depends on the order in which other links are resolved
    Open,
}

/// where links lead, from their texts and the stored tree alone
fn resolve(a: &[N]) -> (HashMap<usize, Want>, HashMap<usize, &'static str>) {
    let links: Vec<usize> = (0..a.len()).filter(|i| a[*i].link.is_some()).collect();
    let comps = |l: usize| -> Vec<String> { a[l].link.as_ref().unwrap().split('/').filter(|x| *x != ".").map(|x| x.to_string()).collect() };
    // everything a link may lead to, links on the way included
    let mut pot: HashMap<usize, HashSet<usize>> = links.iter().map(|l| (*l, HashSet::new())).collect();
    let mut met: HashSet<usize> = HashSet::new();
    let mut above: HashSet<usize> = HashSet::new();
    loop {
        let mut grew = false;
        for &l in &links {
            let mut at: HashSet<usize> = HashSet::from([a[l].parent]);
            for c in comps(l) {
                let mut next = HashSet::new();
                for &n in &at {
                    if c == ".." {
                        if n != 0 {
                            next.insert(a[n].parent);
                        } else {
                            above.insert(l);
                        }
                    } else if let Some(&k) = a[n].kids.iter().find(|k| *a[**k].path.last().unwrap() == c) {
                        next.insert(k);
                        if let Some(p) = pot.get(&k) {
                            met.insert(l);
                            next.extend(p);
                        }
                    }
                }
                at = next;
            }
            let p = pot.get_mut(&l).unwrap();
            for n in at {
                grew |= p.insert(n);
            }
        }
        if !grew {
            break;
        }
    }
    // nodes reachable from a node through children and whatever links may have put below it
    let reach = |from: usize| -> HashSet<usize> {
        let mut seen = HashSet::new();
        let mut st = vec![from];
        while let Some(n) = st.pop() {
            if seen.insert(n) {
                st.extend(&a[n].kids);
                if let Some(p) = pot.get(&n) {
                    st.extend(p);
                }
            }
        }
        seen
    };
    let mut out = HashMap::new();
    let mut why = HashMap::new();
    for &l in &links {
        let w = if met.contains(&l) {
            why.insert(l, "uol_chained");
            Want::Open
        } else {
            match pot[&l].iter().next() {
                None => {
                    why.insert(l, if above.contains(&l) { "uol_above_image" } else { "uol_dangling" });
                    Want::Stays
                }
                Some(&t) => {
                    let mut anc = vec![a[l].parent];
                    while *anc.last().unwrap() != 0 {
                        anc.push(a[*anc.last().unwrap()].parent);
                    }
                    if t == l || anc.contains(&t) {
                        why.insert(l, "uol_own_ancestor");
                        Want::Stays
                    } else if reach(t).contains(&a[l].parent) {
                        why.insert(l, "uol_mutual");
                        Want::Open
                    } else {
                        why.insert(l, "uol_resolved");
                        Want::To(t)
                    }
                }
            }
        };
        out.insert(l, w);
    }
    (out, why)
}

fn walk_to(root: &WzNodeArc, path: &[String]) -> Option<WzNodeArc> {
    let mut n = root.clone();
    for p in path {
        let k = n.read().unwrap().at(p)?;
        n = k;
    }
    Some(n)
}

fn uol_case(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let cfg = GenCfg { max_depth: 2 + rng.below(5), budget: 10 + rng.below(50), uol: false, blobs: 30, ..Default::default() };
    let mut b = cfg.budget;
    let mut kids = img::gen_kids(rng, &cfg, 0, &mut b, iv);
    let n = 1 + rng.below(8);
    for i in 0..n {
        let a = arena(&kids);
        // the place
        let holders: Vec<usize> = (0..a.len())
            .filter(|x| match a[*x].kind {
                "image" => true,
                "property" | "convex" => true,
                "canvas" => matches!(at_mut(&mut kids, &a[*x].path), Some(V::Canvas(_, Some(_)))),
                "raw" => matches!(at_mut(&mut kids, &a[*x].path), Some(V::Raw(1, Some(_), _))),
                _ => false,
            })
            .collect();
        let h = if rng.chance(1, 5) { 0 } else { *rng.pick(&holders) };
        let name = if a[h].kind == "convex" { a[h].kids.len().to_string() } else { format!("l{i}") };
        if a[h].kids.iter().any(|k| *a[*k].path.last().unwrap() == name) {
            continue;
        }
        let mut at = a[h].path.clone();
        at.push(name.clone());
        // the text
        let to = match rng.below(12) {
            0 => a[rng.below(a[h].path.len() + 1).min(a.len() - 1)].path.clone(),
            1 => a[h].path[..rng.below(a[h].path.len() + 1)].to_vec(),
            2 => at.clone(),
            _ => a[rng.below(a.len())].path.clone(),
        };
        let mut t = if to.is_empty() { vec![".."; at.len() - 1].join("/") } else { relative(&at, &to) };
        if t.is_empty() {
            t = "..".into();
        }
        match rng.below(14) {
            0 => t = format!("{t}/nowhere"),
            1 => t = format!("../{t}"),
            2 => t = format!("./{t}"),
            3 => {
                let parts: Vec<&str> = t.split('/').collect();
                let at = rng.below(parts.len() + 1);
                let mut p = parts.clone();
                p.insert(at, ".");
                t = p.join("/");
            }
            // through a sibling of the link and back
            4 if !a[h].kids.is_empty() => {
                let s = a[*rng.pick(&a[h].kids)].path.last().unwrap().clone();
                t = format!("{s}/../{t}");
            }
            5 => t = format!("{}{t}", "../".repeat(9)),
            6 if rng.chance(1, 3) => t = rng.pick(&["", ".", "..", "/", "../", "l0/..", "....", "no/../x", "\u{AC00}"]).to_string(),
            7 => {
                // almost the right path
                t.pop();
            }
            _ => {}
        }
        let v = V::Uol(t);
        if h == 0 {
            let p = rng.below(kids.len() + 1);
            kids.insert(p, (name, v));
        } else {
            match at_mut(&mut kids, &a[h].path) {
                Some(V::Prop(k) | V::Canvas(_, Some(k)) | V::Raw(_, Some(k), _)) => {
                    let p = rng.below(k.len() + 1);
                    k.insert(p, (name, v))
                }
                Some(V::Convex(l)) => l.push(v),
                _ => unreachable!(),
            }
        }
        c.st.add(
            match a[h].kind {
                "image" => "top_level_links",
                "canvas" => "links_in_canvases",
                "convex" => "links_in_convexes",
                "raw" => "links_in_raw_data",
                _ => "links_in_properties",
            },
            1,
        );
    }
    let a = arena(&kids);
    let (want, why) = resolve(&a);
    let desc = || {
        let l: Vec<String> = (0..a.len()).filter(|i| a[*i].link.is_some()).map(|i| format!("{:?} -> {:?}", a[i].path.join("/"), a[i].link.as_ref().unwrap())).collect();
        format!("links {}", l.join(", "))
    };
    let mut layout: Vec<String> = want.iter().map(|(l, w)| format!("{} {} {:?}", a[*l].path.join("/"), a[*l].link.as_ref().unwrap(), w)).collect();
    layout.sort();
    c.st.seen_s("layouts", &layout.join(";"));
    c.st.sample(&desc);
    let bytes = img::encode_props(rng, &kids, iv);
    let f = c.dir.join(format!("u{idx}.img"));
    std::fs::write(&f, &bytes).unwrap();
    let root = WzNode::from_img_file(&f, Some(c01::version_of(iv)), None).map_err(|e| format!("not opened: {e}"))?.into_lock();
    for round in 0..2 {
        root.write().unwrap().parse(&root).map_err(|e| format!("image with links does not parse: {e}; {}", desc()))?;
        for (i, e) in a.iter().enumerate() {
            if i == 0 || a[e.parent].link.is_some() {
                continue;
            }
            let path = e.path.join("/");
            let d = |s: &str, x: String| Fail::new(s, format!("{s}: {path:?}: {x}; {}", desc()));
            let listed = walk_to(&root, &e.path).ok_or_else(|| d("node of an image with links is missing", String::new()))?;
            let holder = walk_to(&root, &a[e.parent].path).unwrap();
            let r = listed.read().unwrap();
            match want.get(&i) {
                None => {
                    if r.name.as_str() != e.path.last().unwrap() {
                        return Err(d("sibling of a link is another node", format!("named {:?}", r.name.as_str())));
                    }
                    if !r.parent.upgrade().map(|p| Arc::ptr_eq(&p, &holder)).unwrap_or(false) {
                        return Err(d("sibling of a link has another parent", String::new()));
                    }
                    if r.children.len() != e.kids.len() {
                        return Err(d("sibling of a link has other children", format!("{} instead of {}", r.children.len(), e.kids.len())));
                    }
                    if e.kids.is_empty() {
                        drop(r);
                        let v = at_mut(&mut kids, &e.path).unwrap();
                        let name = e.path.last().unwrap();
                        Cmp::new(&mut c.st).node(&listed, name, v, "").map_err(|x| d("value beside a link", x))?;
                    }
                }
                Some(w) => {
                    c.st.add("links_checked", 1);
                    if round == 0 {
                        c.st.add(why[&i], 1);
                    }
                    let stays = || -> Result<bool, Fail> {
                        match &r.object_type {
                            WzObjectType::Value(WzValue::UOL(s)) if r.name.as_str() == e.path.last().unwrap() => {
                                if s.get_string().ok().as_ref() != e.link.as_ref() {
                                    return Err(d("text of an unresolved link", format!("{:?}", s.get_string())));
                                }
                                if !r.parent.upgrade().map(|p| Arc::ptr_eq(&p, &holder)).unwrap_or(false) {
                                    return Err(d("parent of an unresolved link", String::new()));
                                }
                                Ok(true)
                            }
                            _ => Ok(false),
                        }
                    };
                    match w {
                        Want::Open => {
                            // replaced by whatever other links made of its path, or as stored
                            if r.parent.upgrade().map(|p| Arc::ptr_eq(&p, &holder)).unwrap_or(false) && r.name.as_str() == e.path.last().unwrap() {
                                let _ = stays()?;
                            }
                        }
                        Want::Stays => {
                            if !stays()? {
                                return Err(d("link that leads nowhere is replaced", format!("by {:?}", r.get_full_path())));
                            }
                        }
                        Want::To(t) => {
                            let target = walk_to(&root, &a[*t].path).unwrap();
                            if !Arc::ptr_eq(&target, &listed) {
                                return Err(d("link does not lead to its target", format!("to {:?}, not {:?}", r.get_full_path(), a[*t].path.join("/"))));
                            }
                            drop(r);
                            // the textual helper computes the same place
                            let text = e.link.as_ref().unwrap();
                            let full = format!("{}/{path}", root.read().unwrap().name.as_str());
                            for (p, strip) in [(path.clone(), false), (full, true)] {
                                let q = get_resolved_uol_path(&p, text);
                                let mut parts: Vec<&str> = q.split('/').collect();
                                if strip {
                                    if parts.is_empty() || parts[0] != root.read().unwrap().name.as_str() {
                                        return Err(d("path of a link by text", format!("get_resolved_uol_path({p:?}, {text:?}) = {q:?}")));
                                    }
                                    parts.remove(0);
                                }
                                let q2: Vec<String> = parts.iter().map(|x| x.to_string()).collect();
                                if !walk_to(&root, &q2).map(|n| Arc::ptr_eq(&n, &target)).unwrap_or(false) {
                                    return Err(d("path of a link by text", format!("get_resolved_uol_path({p:?}, {text:?}) = {q:?}")));
                                }
                                c.st.add("resolved_texts", 1);
                            }
                        }
                    }
                }
            }
        }
        if round == 0 {
            root.write().unwrap().unparse();
        }
    }
    // targets that appear later
    for (i, e) in a.iter().enumerate() {
        if want.get(&i) != Some(&Want::Stays) || a[e.parent].link.is_some() {
            continue;
        }
        let text = e.link.as_ref().unwrap().clone();
        let mut parts: Vec<String> = text.split('/').filter(|x| *x != ".").map(|x| x.to_string()).collect();
        let last = parts.pop().unwrap_or_default();
        if last == ".." || last.is_empty() {
            continue;
        }
        // the node that would hold the target, over plain nodes only
        let mut at = Some(e.parent);
        for p in &parts {
            at = at.and_then(|n| {
                if a[n].link.is_some() {
                    None
                } else if p == ".." {
                    if n == 0 { None } else { Some(a[n].parent) }
                } else {
                    a[n].kids.iter().copied().find(|k| a[*k].path.last().unwrap() == p)
                }
            });
        }
        let Some(h) = at.filter(|h| a[*h].link.is_none()) else { continue };
        let holder = walk_to(&root, &a[h].path).unwrap();
        let link = walk_to(&root, &e.path).unwrap();
        let owner = walk_to(&root, &a[e.parent].path).unwrap();
        resolve_uol(&link, None);
        let d = |x: &str| Fail::new(x, format!("{x}: {:?} -> {text:?}; {}", e.path.join("/"), desc()));
        if holder.read().unwrap().at(&last).is_some() {
            continue;
        }
        let same = |n: &WzNodeArc| owner.read().unwrap().at(e.path.last().unwrap()).map(|x| Arc::ptr_eq(&x, n)).unwrap_or(false);
        if !same(&link) {
            return Err(d("link without target is replaced when resolved again"));
        }
        let new = WzNode::from_str(&last, 7, Some(&holder)).into_lock();
        holder.write().unwrap().add(&new);
        resolve_uol(&link, None);
        c.st.add("late_targets", 1);
        c.st.add("links_checked", 1);
        if !same(&new) {
            return Err(d("link whose target appeared later is not resolved"));
        }
        break;
    }
    std::fs::remove_file(&f).unwrap();
    Ok(())
}

// ------------------------------------------------------------ canvas links

struct Can {
    file: usize,
    /// from the base, image path first
    img: Vec<String>,
    path: Vec<String>,
    m: CanvasM,
    inl: Option<String>,
    out: Option<String>,
}

fn canvases(kids: &[(String, &V)], pre: &[String], out: &mut Vec<(Vec<String>, CanvasM)>) {
    for (n, v) in kids {
        let mut p = pre.to_vec();
        p.push(n.clone());
        if let V::Canvas(m, _) = v {
            out.push((p.clone(), m.clone()));
        }
        canvases(&v.kids(), &p, out);
    }
}
fn images(t: &[TE], pre: &[String], out: &mut Vec<(Vec<String>, Kids)>) {
    for e in t {
        let mut p = pre.to_vec();
        p.push(e.name.clone());
        match &e.t {
            T::Dir(k) => images(k, &p, out),
            T::Img(Img::Props(k), _) => out.push((p, k.clone())),
            _ => {}
        }
    }
}
fn img_mut<'a>(t: &'a mut [TE], path: &[String]) -> &'a mut T {
    let e = t.iter_mut().find(|e| e.name == path[0]).unwrap();
    if path.len() == 1 {
        return &mut e.t;
    }
    match &mut e.t {
        T::Dir(k) => img_mut(k, &path[1..]),
        _ => unreachable!(),
    }
}
/// more canvases at every kind of place
fn add_canvases(rng: &mut Rng, kids: &mut Kids, iv: [u8; 4], depth: usize) {
    for (_, v) in kids.iter_mut() {
        match v {
            V::Prop(k) | V::Raw(1, Some(k), _) if depth < 4 => add_canvases(rng, k, iv, depth + 1),
            V::Canvas(_, Some(k)) if depth < 4 && rng.chance(1, 3) => add_canvases(rng, k, iv, depth + 1),
            V::Convex(l) if rng.chance(1, 3) => l.push(some_canvas(rng, iv)),
            _ => {}
        }
    }
    for i in 0..rng.below(3) {
        let n = format!("c{i}");
        if !kids.iter().any(|x| x.0 == n) {
            let p = rng.below(kids.len() + 1);
            kids.insert(p, (n, some_canvas(rng, iv)));
        }
    }
}
fn some_canvas(rng: &mut Rng, iv: [u8; 4]) -> V {
    let f = *rng.pick(&[1u32, 2, 257, 513, 769]);
    let (w, h) = (1 + rng.below(4) as u32, 1 + rng.below(4) as u32);
    V::Canvas(canvas::gen(rng, iv, f, w, h), if rng.chance(1, 2) { Some(vec![]) } else { None })
}

fn canvas_case(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let nfiles = 1 + rng.below(2);
    let based = !rng.chance(1, 8);
    let mut trees: Vec<Vec<TE>> = vec![];
    for fi in 0..nfiles {
        let cfg = TreeCfg {
            budget: 8,
            depth: 3,
            img: GenCfg { max_depth: 4, budget: 10, uol: false, blobs: 20, canvases: true, ..Default::default() },
            wide: false,
            root_min: 2,
            ..Default::default()
        };
        let mut t = wz::gen_tree(rng, &cfg, iv);
        if fi == 1 {
            t.retain(|e| e.name != "c0");
        }
        let mut im = vec![];
        images(&t, &[], &mut im);
        for (p, mut k) in im {
            add_canvases(rng, &mut k, iv, 0);
            if let T::Img(Img::Props(x), _) = img_mut(&mut t, &p) {
                *x = k;
            }
        }
        t[0].name = format!("{}first", ["a", "b"][fi]);
        if matches!(&t[0].t, T::Img(Img::Lua(..) | Img::Txt(_), _)) {
            t[0].t = T::Dir(vec![]);
        }
        let mut names = HashSet::new();
        t.retain(|e| names.insert(e.name.clone()));
        trees.push(t);
    }
    // the second archive hangs below the base as "Map"
    let mut all: Vec<Can> = vec![];
    for (fi, t) in trees.iter().enumerate() {
        let mut im = vec![];
        images(t, &[], &mut im);
        for (p, k) in im {
            let kk: Vec<(String, &V)> = k.iter().map(|(n, v)| (n.clone(), v)).collect();
            let mut cs = vec![];
            canvases(&kk, &[], &mut cs);
            for (q, m) in cs {
                let mut ip = p.clone();
                if fi == 1 {
                    ip.insert(0, "Map".into());
                }
                all.push(Can { file: fi, img: ip, path: q, m, inl: None, out: None });
            }
        }
    }
    if all.is_empty() {
        return Ok(());
    }
    let n = all.len();
    let place = |x: &Can| (x.img.clone(), x.path.clone());
    let index: HashMap<_, usize> = all.iter().enumerate().map(|(i, x)| (place(x), i)).collect();
    let mut next: Vec<Option<usize>> = vec![None; n];
    for i in 0..n {
        if !rng.chance(2, 3) {
            continue;
        }
        let mate: Vec<usize> = (0..n).filter(|j| all[*j].img == all[i].img && (*j != i || rng.chance(1, 10))).collect();
        if rng.chance(1, 2) && !mate.is_empty() {
            let j = *rng.pick(&mate);
            let mut t = all[j].path.join("/");
            match rng.below(6) {
                0 => t.push_str("/nowhere"),
                1 => t = format!("no{t}"),
                _ => next[i] = Some(j),
            }
            all[i].inl = Some(t);
        }
        if rng.chance(1, 2) {
            let j = rng.below(n);
            let mut p = all[j].img.clone();
            p.extend(all[j].path.clone());
            let mut t = p.join("/");
            let ok = match rng.below(7) {
                0 => {
                    t.push_str("/nowhere");
                    false
                }
                1 => {
                    t = format!("No/{t}");
                    false
                }
                _ => based,
            };
            if next[i].is_none() && ok {
                next[i] = Some(j);
            }
            all[i].out = Some(t);
        }
    }
    let _ = index;
    // into the stored images
    for x in &all {
        if x.inl.is_none() && x.out.is_none() {
            continue;
        }
        let ip = if x.file == 1 { &x.img[1..] } else { &x.img[..] };
        if let T::Img(Img::Props(k), _) = img_mut(&mut trees[x.file], ip) {
            if let Some(V::Canvas(_, kids)) = at_mut(k, &x.path) {
                let kids = kids.get_or_insert_with(Vec::new);
                let mut add = vec![];
                if let Some(t) = &x.inl {
                    add.push(("_inlink".to_string(), V::Str(t.clone())));
                }
                if let Some(t) = &x.out {
                    add.push(("_outlink".to_string(), V::Str(t.clone())));
                }
                rng.shuffle(&mut add);
                for a in add {
                    let p = rng.below(kids.len() + 1);
                    kids.insert(p, a);
                }
            }
        }
    }
    let end = |i: usize| -> (Option<usize>, usize) {
        let (mut at, mut seen) = (i, vec![i]);
        while let Some(j) = next[at] {
            if seen.contains(&j) {
                return (None, seen.len());
            }
            seen.push(j);
            at = j;
        }
        (Some(at), seen.len())
    };
    let names = ["Base", "Map"];
    let mut files = vec![];
    let mut built: Vec<Vec<TE>> = vec![];
    for (fi, mut t) in trees.into_iter().enumerate() {
        fn enc(rng: &mut Rng, t: &mut [TE], iv: [u8; 4]) {
            for e in t {
                match &mut e.t {
                    T::Dir(k) => enc(rng, k, iv),
                    T::Img(i, b) => *b = img::encode(rng, i, iv),
                }
            }
        }
        enc(rng, &mut t, iv);
        let o = Pkg1 { fstart: 60, version: 83, encver: true, iv, ignorable: false, junk: true, plain: false };
        let b = wz::build_pkg1(rng, t, &o);
        if b.version_ambiguous() {
            return Ok(());
        }
        let d = c.dir.join(format!("b{idx}_{fi}"));
        std::fs::create_dir_all(&d).unwrap();
        let f = d.join(format!("{}.wz", if fi == 0 && !based { "Other" } else { names[fi] }));
        std::fs::write(&f, &b.bytes).unwrap();
        files.push((d, f));
        built.push(b.tree);
    }
    let ver = c01::version_of(iv);
    let base = WzNode::from_wz_file_full(&files[0].1, Some(ver), Some(83), None, None).map_err(|e| format!("not opened: {e}"))?.into_lock();
    base.write().unwrap().parse(&base).map_err(|e| format!("root does not parse: {e}"))?;
    if nfiles == 2 {
        let second = WzNode::from_wz_file_full(&files[1].1, Some(ver), Some(83), Some(&base), None).map_err(|e| format!("not opened: {e}"))?.into_lock();
        if rng.chance(1, 2) {
            second.write().unwrap().parse(&second).map_err(|e| format!("root does not parse: {e}"))?;
        }
        if base.read().unwrap().at("Map").is_some() {
            return Ok(());
        }
        second.write().unwrap().parent = Arc::downgrade(&base);
        base.write().unwrap().add(&second);
    }
    let mut layout: Vec<String> = all.iter().map(|x| format!("{:?} {:?} {:?} {:?}", x.img, x.path, x.inl, x.out)).collect();
    layout.sort();
    c.st.seen_s("layouts", &layout.join(";"));
    let desc = |x: &Can| format!("canvas {:?} in {:?} (_inlink {:?}, _outlink {:?})", x.path.join("/"), x.img.join("/"), x.inl, x.out);
    c.st.sample(|| all.iter().filter(|x| x.inl.is_some() || x.out.is_some()).take(3).map(desc).collect::<Vec<_>>().join("; "));
    let judge = |c: &mut Ctx, i: usize, got: Result<image::DynamicImage, String>| -> Result<(), Fail> {
        c.st.add("links_checked", 1);
        let x = &all[i];
        let (to, hops) = end(i);
        match (to, got) {
            (None, Err(_)) => {
                c.st.add("circles", 1);
                Ok(())
            }
            (None, Ok(_)) => Err(Fail::new("circle of canvas links", format!("circle of canvas links yields pixels: {}", desc(x)))),
            (Some(j), Ok(g)) => {
                c.st.add(if hops > 2 { "chains" } else if hops == 1 { "own_pixels" } else if x.inl.is_some() && all[j].img == x.img && x.inl.as_ref() == Some(&all[j].path.join("/")) { "inlinks" } else { "outlinks" }, 1);
                if all[j].file != x.file {
                    c.st.add("second_archive", 1);
                }
                canvas::compare(&g, &all[j].m).map_err(|e| Fail::new("pixels of a linked canvas", format!("pixels of a linked canvas: {}, ends at {:?} in {:?}: {e}", desc(x), all[j].path.join("/"), all[j].img.join("/"))))
            }
            (Some(_), Err(e)) => Err(Fail::new("linked canvas not decoded", format!("linked canvas not decoded: {}: {e}", desc(x)))),
        }
    };
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    for i in order.into_iter().take(40) {
        let x = &all[i];
        let p: Vec<&str> = x.img.iter().map(|s| s.as_str()).collect();
        // names may hold '/' in no place, so the path is unambiguous
        let im = base.read().unwrap().at_path_parsed(&p.join("/")).map_err(|e| format!("image {:?} not reached: {e}", x.img))?;
        if let Some(j) = next[i] {
            let q: Vec<&str> = all[j].img.iter().map(|s| s.as_str()).collect();
            let un = base.read().unwrap().at_path(&q.join("/")).map(|n| match &n.read().unwrap().object_type {
                WzObjectType::Image(i) => !i.is_parsed,
                _ => false,
            });
            if un != Some(false) {
                c.st.add("unparsed_targets", 1);
            }
        }
        im.write().unwrap().parse(&im).map_err(|e| format!("image {:?} does not parse: {e}", x.img))?;
        let node = walk_to(&im, &x.path).ok_or_else(|| Fail::new("canvas missing", format!("{} is not there", desc(x))))?;
        judge(c, i, get_image(&node).map_err(|e| e.to_string()))?;
        // the helpers
        if let Some(t) = &x.inl {
            let want = all.iter().position(|y| y.img == x.img && y.path.join("/") == *t);
            let got = resolve_inlink(t, &node);
            let w = want.and_then(|j| walk_to(&im, &all[j].path));
            match (&w, &got) {
                (Some(a), Some(b)) if Arc::ptr_eq(a, b) => {}
                (None, None) => {}
                _ => return Err(Fail::new("resolve_inlink", format!("resolve_inlink of {}: {:?}", desc(x), got.map(|g| g.read().unwrap().get_full_path())))),
            }
        }
        if let Some(t) = &x.out {
            let got = resolve_outlink(t, &node, true);
            let want = all.iter().position(|y| based && y.img.iter().chain(&y.path).cloned().collect::<Vec<_>>().join("/") == *t);
            let w = want.and_then(|j| walk_to(&base, &all[j].img).and_then(|m| walk_to(&m, &all[j].path)));
            match (&w, &got) {
                (Some(a), Some(b)) if Arc::ptr_eq(a, b) => {}
                (None, None) => {}
                _ => return Err(Fail::new("resolve_outlink", format!("resolve_outlink of {}: {:?}", desc(x), got.map(|g| g.read().unwrap().get_full_path())))),
            }
            // without parsing, only what is there already is found
            let got = resolve_outlink(t, &node, false);
            if !same(&got, &w) {
                return Err(Fail::new("resolve_outlink", format!("resolve_outlink of {} without parsing, after parsing: {:?}", desc(x), got.map(|g| g.read().unwrap().get_full_path()))));
            }
        }
        if rng.chance(1, 4) {
            im.write().unwrap().unparse();
        }
    }
    // decoding from a walk's callback
    if rng.chance(1, 2) {
        let root_name = base.read().unwrap().name.to_string();
        let paths: BTreeMap<String, usize> = all.iter().enumerate().map(|(i, x)| (format!("{root_name}/{}/{}", x.img.join("/"), x.path.join("/")), i)).collect();
        let got: Mutex<Vec<(usize, Result<image::DynamicImage, String>)>> = Mutex::new(vec![]);
        walk_node(&base, true, &|x| {
            let (is, p) = {
                let r = x.read().unwrap();
                (matches!(r.object_type, WzObjectType::Property(WzSubProperty::PNG(_))), r.get_full_path())
            };
            if is {
                if let Some(i) = paths.get(&p) {
                    let g = get_image(x).map_err(|e| e.to_string());
                    got.lock().unwrap().push((*i, g));
                }
            }
        });
        let got = got.into_inner().unwrap();
        if got.len() != n {
            return Err(Fail::new("walk over canvases", format!("walk over canvases reaches {} of {n}", got.len())));
        }
        c.st.add("walks", 1);
        for (i, g) in got {
            judge(c, i, g)?;
        }
    }
    for (d, f) in files {
        std::fs::remove_file(&f).unwrap();
        std::fs::remove_dir(&d).unwrap();
    }
    Ok(())
}

fn same(a: &Option<WzNodeArc>, b: &Option<WzNodeArc>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => Arc::ptr_eq(a, b),
        (None, None) => true,
        _ => false,
    }
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    match idx % 3 {
        2 => canvas_case(c, &mut rng, idx),
        _ => uol_case(c, &mut rng, idx),
    }
}
