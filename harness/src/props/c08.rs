//! C08: direct path access equals parsing and then looking up.
use crate::img::{self, Cmp, GenCfg, Img, V};
use crate::props::c01;
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, TreeCfg, T, TE};
use crate::crypt;
use std::sync::Arc;
use wz_reader::util::node_util;
use wz_reader::{WzImage, WzNode, WzNodeArc, WzObjectType, WzReader};

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        quick: 20000,
        thorough: 500000,
        case,
        evals: "paths_looked_up",
        distinct: "images",
        rule: "each case builds one image (or an archive of images) and asks for every path of its model and for derived paths it does not have, directly and through a parse; distinct: encoded images",
        need: &[
            "found_direct", "missing_direct", "below_property", "below_canvas", "below_convex", "below_raw", "archive_paths", "missing_archive_paths",
            "on_demand_paths", "text_payloads", "through_img_names",
        ],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

/// every path of the model with its value and the kind of its parent
fn paths<'a>(kids: Vec<(String, &'a V)>, pre: &str, pk: &'static str, out: &mut Vec<(String, &'a V, &'static str)>) {
    for (n, v) in kids {
        let p = if pre.is_empty() { n.clone() } else { format!("{pre}/{n}") };
        out.push((p.clone(), v, pk));
        paths(v.kids(), &p, v.kind(), out);
    }
}

fn lookup<'a>(kids: &[(String, &'a V)], path: &str) -> Option<&'a V> {
    let (n, rest) = match path.split_once('/') {
        Some((a, b)) => (a, Some(b)),
        None => (path, None),
    };
    let v = kids.iter().find(|k| k.0 == n)?.1;
    match rest {
        None => Some(v),
        Some(r) => lookup(&v.kids(), r),
    }
}

/// paths derived from existing ones, most of which do not exist
fn derived(rng: &mut Rng, all: &[(String, &V, &'static str)], n: usize) -> Vec<String> {
    let mut o: Vec<String> = vec!["".into(), "/".into(), "nope".into(), "nope/nope".into(), "..".into(), ".".into()];
    for _ in 0..n {
        let a = &all[rng.below(all.len())].0;
        let b = &all[rng.below(all.len())].0;
        let tail = |s: &str| s.rsplit('/').next().unwrap().to_string();
        o.push(match rng.below(14) {
            0 => format!("{a}/nope"),
            1 => format!("{a}/0"),
            2 => format!("{a}/{}", tail(b)),
            3 => format!("{a}/{b}"),
            4 => format!("{a}/"),
            5 => format!("/{a}"),
            6 => a.replacen('/', "//", 1),
            7 => match a.rsplit_once('/') {
                Some((h, _)) => format!("{h}/nope"),
                None => format!("{a}x"),
            },
            8 => match a.split_once('/') {
                Some((_, t)) => format!("nope/{t}"),
                None => a.chars().skip(1).collect(),
            },
            9 => match a.split_once('/') {
                Some((_, t)) => t.to_string(),
                None => format!("{a}/{a}"),
            },
            10 => match (a.split_once('/'), b.split_once('/')) {
                (Some((h, _)), Some((_, t))) => format!("{h}/{t}"),
                _ => format!("{b}/{a}"),
            },
            11 => format!("{a}/.."),
            12 => match a.split('/').collect::<Vec<_>>() {
                // one component dropped from the middle
                c if c.len() > 2 => {
                    let i = 1 + rng.below(c.len() - 2);
                    c.iter().enumerate().filter(|x| x.0 != i).map(|x| *x.1).collect::<Vec<_>>().join("/")
                }
                _ => format!("{a}/{}/nope", tail(b)),
            },
            _ => match a.split('/').collect::<Vec<_>>() {
                // one component in the middle replaced
                mut c if c.len() > 2 => {
                    let i = 1 + rng.below(c.len() - 2);
                    c[i] = "nope";
                    c.join("/")
                }
                _ => a.to_uppercase(),
            },
        });
    }
    o
}

fn short(p: &str) -> String {
    if p.chars().count() > 120 {
        format!("…{}", p.chars().skip(p.chars().count() - 110).collect::<String>())
    } else {
        p.to_string()
    }
}

fn one_image(c: &mut Ctx, rng: &mut Rng) -> Result<(), Fail> {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let cfg = GenCfg { wide: true, budget: *rng.pick(&[6, 30, 90]), max_depth: *rng.pick(&[3, 5, 8]), ..Default::default() };
    let im = loop {
        let i = wz::gen_img(rng, &cfg, iv, false);
        match &i {
            Img::Lua(t, k) if wz::lua_ambiguous(t, k) => continue,
            Img::Props(_) => break i,
            _ if rng.chance(1, 6) => break i,
            _ => continue,
        }
    };
    let bytes = img::encode(rng, &im, iv);
    c.st.seen("images", bytes.iter().fold(7u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3)));
    let name = match &im {
        Img::Lua(..) => "a.lua",
        Img::Txt(_) => "a.txt",
        _ => "a.img",
    };
    let pre = *rng.pick(&[0usize, 1, 100, 70000]);
    let mut buf = rng.bytes(pre);
    buf.extend(&bytes);
    let post = rng.below(10);
    let j = rng.bytes(post);
    buf.extend(j);
    let reader = Arc::new(WzReader::from_buff(&buf).with_iv(iv));
    let node: WzNodeArc = WzNode::from_str(name, WzImage::new(&name.into(), pre, bytes.len(), &reader), None).into_lock();
    let direct = |p: &str| -> Result<WzNodeArc, String> {
        let r = node.read().unwrap();
        let WzObjectType::Image(i) = &r.object_type else { return Err("not an image".into()) };
        i.at_path(p).map_err(|e| e.to_string())
    };
    let Img::Props(k) = &im else {
        // one payload node
        let want = if matches!(im, Img::Lua(..)) { "Script" } else { "text.txt" };
        let n = direct(want).map_err(|e| format!("{want} of a text image not found directly: {e}"))?;
        let holder = WzNode::from_str(name, wz_reader::WzDirectory::default(), None).into_lock();
        holder.write().unwrap().add(&n);
        Cmp::new(&mut c.st).image(&holder, &im, "direct")?;
        for p in ["", "nope", "Script/0", "text.txt/0", "text.txtx", if want == "Script" { "text.txt" } else { "Script" }] {
            c.st.add("paths_looked_up", 1);
            if direct(p).is_ok() {
                return Err(format!("{p:?} found in a text image that only has {want}").into());
            }
        }
        c.st.add("text_payloads", 1);
        return Ok(());
    };
    let top: Vec<(String, &V)> = k.iter().map(|(n, v)| (n.clone(), v)).collect();
    let mut all = vec![];
    paths(top.clone(), "", "image", &mut all);
    rng.shuffle(&mut all);
    let asked: Vec<usize> = (0..all.len().min(60)).collect();
    for i in &asked {
        let (p, v, pk) = &all[*i];
        c.st.add("paths_looked_up", 1);
        let n = direct(p).map_err(|e| format!("{:?} ({} below {pk}) not found directly: {e}", short(p), v.kind()))?;
        c.st.add("found_direct", 1);
        match *pk {
            "property" => c.st.add("below_property", 1),
            "canvas" => c.st.add("below_canvas", 1),
            "convex" => c.st.add("below_convex", 1),
            "raw" => c.st.add("below_raw", 1),
            _ => {}
        }
        let mut cmp = Cmp::new(&mut c.st);
        cmp.payloads = true;
        cmp.node(&n, p.rsplit('/').next().unwrap(), v, "direct").map_err(|e| format!("direct access to {:?}: {e}", short(p)))?;
    }
    let ask = derived(rng, &all, 40);
    let mut absent = vec![];
    for p in ask {
        c.st.add("paths_looked_up", 1);
        match (lookup(&top, &p), direct(&p)) {
            (None, Err(_)) => {
                c.st.add("missing_direct", 1);
                absent.push(p);
            }
            (None, Ok(n)) => return Err(format!("direct access finds {:?} (as {:?}), which the image does not have", short(&p), n.read().unwrap().name.as_str()).into()),
            (Some(v), Err(e)) => return Err(format!("{:?} ({}) not found directly: {e}", short(&p), v.kind()).into()),
            (Some(v), Ok(n)) => {
                c.st.add("found_direct", 1);
                Cmp::new(&mut c.st).node(&n, p.rsplit('/').next().unwrap(), v, "direct").map_err(|e| format!("direct access to {:?}: {e}", short(&p)))?
            }
        }
    }
    // nothing was parsed on the way
    {
        let r = node.read().unwrap();
        let WzObjectType::Image(i) = &r.object_type else { return Err("not an image".into()) };
        if i.is_parsed || !r.children.is_empty() {
            return Err("direct access parsed the image".to_string().into());
        }
    }
    node.write().unwrap().parse(&node).map_err(|e| format!("image does not parse: {e}"))?;
    for i in &asked {
        let (p, v, _) = &all[*i];
        let n = node.read().unwrap().at_path(p).ok_or_else(|| format!("{:?} not found in the parsed image", short(p)))?;
        Cmp::new(&mut c.st).node(&n, p.rsplit('/').next().unwrap(), v, "parsed").map_err(|e| format!("lookup of {:?}: {e}", short(p)))?;
        // the same again, directly, on the parsed image
        if i % 8 == 0 {
            let d = direct(p).map_err(|e| format!("{:?} not found directly in the parsed image: {e}", short(p)))?;
            Cmp::new(&mut c.st).node(&d, p.rsplit('/').next().unwrap(), v, "direct").map_err(|e| format!("direct access to {:?}: {e}", short(p)))?;
        }
    }
    for p in absent {
        if node.read().unwrap().at_path(&p).is_some() {
            return Err(format!("lookup finds {:?}, which the image does not have", short(&p)).into());
        }
    }
    Ok(())
}

fn tree_paths<'a>(t: &'a [TE], pre: &str, out: &mut Vec<(String, &'a TE)>) {
    for e in t {
        let p = if pre.is_empty() { e.name.clone() } else { format!("{pre}/{}", e.name) };
        out.push((p.clone(), e));
        if let T::Dir(k) = &e.t {
            tree_paths(k, &p, out);
        }
    }
}

fn model_of<'a>(tree: &'a [TE], path: &str) -> Option<Hit<'a>> {
    let (n, rest) = match path.split_once('/') {
        Some((a, b)) => (a, Some(b)),
        None => (path, None),
    };
    let e = tree.iter().find(|e| e.name == n)?;
    match (&e.t, rest) {
        (_, None) => Some(Hit::Entry),
        (T::Dir(k), Some(r)) => model_of(k, r),
        (T::Img(Img::Props(k), _), Some(r)) => {
            let top: Vec<(String, &V)> = k.iter().map(|(n, v)| (n.clone(), v)).collect();
            lookup(&top, r).map(Hit::Prop)
        }
        (T::Img(i, _), Some(r)) => (r == if matches!(i, Img::Lua(..)) { "Script" } else { "text.txt" }).then_some(Hit::Payload),
    }
}
enum Hit<'a> {
    Entry,
    Prop(&'a V),
    Payload,
}

fn archive(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let cfg = TreeCfg { budget: 14, wide: false, ..Default::default() };
    let g = c01::gen(rng, &cfg, true);
    let f = c.dir.join(format!("a{idx}.wz"));
    std::fs::write(&f, &g.b.bytes).unwrap();
    let mut tp = vec![];
    tree_paths(&g.b.tree, "", &mut tp);
    // (path, is it below an image)
    let mut ask: Vec<String> = vec!["".into(), "nope".into(), "nope.img".into(), "nope.img/0".into(), ".img".into(), "/".into()];
    for (p, e) in &tp {
        ask.push(p.clone());
        ask.push(format!("{p}/"));
        ask.push(format!("{p}/nope"));
        ask.push(format!("{p}.img/0"));
        if let T::Img(i, _) = &e.t {
            match i {
                Img::Props(k) => {
                    let top: Vec<(String, &V)> = k.iter().map(|(n, v)| (n.clone(), v)).collect();
                    let mut all = vec![];
                    paths(top, "", "image", &mut all);
                    for _ in 0..8.min(all.len()) {
                        let q = &all[rng.below(all.len())].0;
                        ask.push(format!("{p}/{q}"));
                        ask.push(format!("{p}/{q}/nope"));
                        if let Some((h, _)) = q.rsplit_once('/') {
                            ask.push(format!("{p}/{h}/nope/x"));
                        }
                    }
                }
                _ => {
                    ask.push(format!("{p}/Script"));
                    ask.push(format!("{p}/text.txt"));
                }
            }
        }
    }
    rng.shuffle(&mut ask);
    ask.truncate(150);
    let open = || -> Result<WzNodeArc, Fail> {
        let root = WzNode::from_wz_file_full(&f, Some(c01::version_of(g.o.iv)), Some(g.o.version), None, None).map_err(|e| format!("not opened: {e}"))?.into_lock();
        root.write().unwrap().parse(&root).map_err(|e| format!("root does not parse: {e}"))?;
        Ok(root)
    };
    let root = open()?;
    let demand = open()?;
    // 0: directly in the unparsed tree, 1: the same when every other image is parsed
    for round in 0..2 {
        if round == 1 {
            for (i, (p, e)) in tp.iter().enumerate() {
                if i % 2 == 0 && matches!(e.t, T::Img(..)) {
                    let n = root.read().unwrap().at_path(p).ok_or_else(|| format!("{:?} missing", short(p)))?;
                    n.write().unwrap().parse(&n).map_err(|e| format!("{:?} does not parse: {e}", short(p)))?;
                }
            }
        }
        for p in &ask {
            c.st.add("paths_looked_up", 1);
            let got = node_util::get_node_without_parse(&root, p);
            let hit = model_of(&g.b.tree, p);
            match (&hit, &got) {
                (Some(Hit::Prop(v)), Some(n)) => {
                    c.st.add("archive_paths", 1);
                    if p.matches(".img").count() > 1 {
                        c.st.add("through_img_names", 1);
                    }
                    Cmp::new(&mut c.st).node(n, p.rsplit('/').next().unwrap(), v, "direct").map_err(|e| format!("direct access to {:?}: {e}", short(p)))?;
                }
                (Some(Hit::Payload), Some(n)) => {
                    c.st.add("archive_paths", 1);
                    if n.read().unwrap().name.as_str() != p.rsplit('/').next().unwrap() {
                        return Err(format!("direct access to {:?} names another node", short(p)).into());
                    }
                }
                (Some(Hit::Prop(_) | Hit::Payload), None) => return Err(format!("{:?} not found in the archive without parsing", short(p)).into()),
                (None, Some(n)) => return Err(format!("{:?}, which the archive does not have, found as {:?}", short(p), n.read().unwrap().name.as_str()).into()),
                (None, None) => c.st.add("missing_archive_paths", 1),
                // a directory or an image itself: nothing to find inside an image
                (Some(Hit::Entry), _) => {}
            }
        }
        if round == 0 {
            for (p, e) in &tp {
                if matches!(e.t, T::Img(..)) {
                    let n = root.read().unwrap().at_path(p).ok_or_else(|| format!("{:?} missing", short(p)))?;
                    let r = n.read().unwrap();
                    let WzObjectType::Image(i) = &r.object_type else { return Err("not an image".into()) };
                    if i.is_parsed || !r.children.is_empty() {
                        return Err(format!("direct access parsed {:?}", short(p)).into());
                    }
                }
            }
        }
    }
    // on demand along the path
    let mut touched = std::collections::HashSet::new();
    for p in &ask {
        c.st.add("on_demand_paths", 1);
        let got = demand.read().unwrap().at_path_parsed(p);
        let hit = model_of(&g.b.tree, p);
        // the images the path leads into
        for (q, e) in &tp {
            if matches!(e.t, T::Img(..)) && p.starts_with(&format!("{q}/")) {
                touched.insert(q.clone());
            }
        }
        match (&hit, got) {
            (Some(Hit::Prop(v)), Ok(n)) => Cmp::new(&mut c.st).node(&n, p.rsplit('/').next().unwrap(), v, "on demand").map_err(|e| format!("on-demand access to {:?}: {e}", short(p)))?,
            (Some(_), Ok(n)) => {
                if n.read().unwrap().name.as_str() != p.rsplit('/').next().unwrap() {
                    return Err(format!("on-demand access to {:?} names another node", short(p)).into());
                }
            }
            (None, Err(_)) => {}
            (Some(_), Err(e)) => return Err(format!("on-demand access to {:?} fails: {e}", short(p)).into()),
            (None, Ok(_)) => return Err(format!("on-demand access finds {:?}, which the archive does not have", short(p)).into()),
        }
    }
    for (p, e) in &tp {
        if matches!(e.t, T::Img(..)) {
            let n = demand.read().unwrap().at_path(p).ok_or_else(|| format!("{:?} missing", short(p)))?;
            let r = n.read().unwrap();
            let WzObjectType::Image(i) = &r.object_type else { return Err("not an image".into()) };
            if i.is_parsed != touched.contains(p) {
                return Err(format!("on-demand access left {:?} {}", short(p), if i.is_parsed { "parsed, off the paths" } else { "unparsed, on a path" }).into());
            }
        }
    }
    std::fs::remove_file(&f).unwrap();
    Ok(())
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    if idx % 5 == 4 {
        archive(c, &mut rng, idx)
    } else {
        one_image(c, &mut rng)
    }
}
