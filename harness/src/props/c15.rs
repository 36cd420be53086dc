//! C15: JSON exports.
use crate::img::{self, GenCfg, Kids, V};
use crate::props::{c01, c14};
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, TreeCfg};
use crate::{crypt, ms};
use serde_json::{json, Map, Value};
use wz_reader::property::{Vector2D, WzLua, WzPng, WzRawData, WzSound, WzSoundType, WzString, WzSubProperty, WzValue, WzVideo};
use wz_reader::{WzDirectory, WzFile, WzImage, WzNode, WzNodeArc, WzNodeName, WzObjectType};

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        quick: 30000,
        thorough: 1000000,
        case,
        evals: "nodes_compared",
        distinct: "trees",
        rule: "each case exports one tree (a parsed image with links, a partly parsed archive or pack, or a tree built by hand) in both forms and compares every name and value with what the nodes themselves say; the full form is loaded back, compared node by node and exported again; distinct: exported texts",
        need: &["simple_exports", "full_exports", "loads", "images", "archives", "packs", "built_trees", "non_finite", "linked_nodes", "payload_trees", "empty_containers", "null_nodes", "text_loads"],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

fn num(f: f64) -> Value {
    serde_json::Number::from_f64(f).map(Value::Number).unwrap_or(Value::Null)
}

fn text(s: &WzString) -> String {
    s.get_string().unwrap_or_default()
}

struct Look {
    n: u64,
    payload: bool,
    non_finite: bool,
    nulls: u64,
    empty: u64,
    /// children below a plain value, which the simple form does not know
    odd: bool,
    foreign: u64,
}

fn look(n: &WzNodeArc, o: &mut Look, depth: usize) -> Result<(), String> {
    if depth > 200 {
        return Err("the tree does not end".into());
    }
    let r = n.read().unwrap();
    o.n += 1;
    match &r.object_type {
        WzObjectType::Value(v) => {
            match v {
                WzValue::RawData(_) | WzValue::Video(_) | WzValue::Lua(_) => o.payload = true,
                WzValue::Float(f) if !f.is_finite() => o.non_finite = true,
                WzValue::Double(f) if !f.is_finite() => o.non_finite = true,
                WzValue::Null => o.nulls += 1,
                _ => {}
            }
        }
        _ => {
            if r.children.is_empty() {
                o.empty += 1;
            }
        }
    }
    for (k, c) in r.children.iter() {
        if c.read().unwrap().name != *k {
            o.foreign += 1;
        }
        look(c, o, depth + 1)?;
    }
    Ok(())
}

/// what the simple form of a node has to say
fn simple(n: &WzNodeArc) -> Value {
    let r = n.read().unwrap();
    let mut m = Map::new();
    match &r.object_type {
        WzObjectType::Property(WzSubProperty::PNG(p)) => {
            m.insert("width".into(), p.width.into());
            m.insert("height".into(), p.height.into());
        }
        WzObjectType::Property(WzSubProperty::Sound(s)) => {
            m.insert("duration".into(), s.duration.into());
            m.insert("sound_type".into(), kind_of_sound(&s.sound_type).into());
        }
        WzObjectType::Value(v) if r.children.is_empty() => {
            return match v {
                WzValue::Null | WzValue::RawData(_) | WzValue::Video(_) | WzValue::Lua(_) => Value::Null,
                WzValue::Short(i) => json!(*i as i64),
                WzValue::Int(i) => json!(*i as i64),
                WzValue::Long(i) => json!(*i),
                WzValue::Float(f) => num(*f as f64),
                WzValue::Double(f) => num(*f),
                WzValue::Vector(Vector2D(x, y)) => json!({"x": x, "y": y}),
                WzValue::UOL(s) | WzValue::String(s) => Value::String(text(s)),
                WzValue::ParsedString(s) => Value::String(s.clone()),
            };
        }
        _ => {}
    }
    if m.is_empty() && r.children.is_empty() {
        return Value::Null;
    }
    for (k, c) in r.children.iter() {
        m.insert(k.to_string(), simple(c));
    }
    Value::Object(m)
}

fn kind_of_sound(t: &WzSoundType) -> &'static str {
    match t {
        WzSoundType::Mp3 => "Mp3",
        WzSoundType::Wav => "Wav",
        WzSoundType::Binary => "Binary",
    }
}

fn kind(t: &WzObjectType) -> &'static str {
    match t {
        WzObjectType::File(_) => "File",
        WzObjectType::MsFile(_) => "MsFile",
        WzObjectType::Image(_) => "Image",
        WzObjectType::MsImage(_) => "MsImage",
        WzObjectType::Directory(_) => "Directory",
        WzObjectType::Property(p) => match p {
            WzSubProperty::Convex => "Convex",
            WzSubProperty::Sound(_) => "Sound",
            WzSubProperty::PNG(_) => "PNG",
            WzSubProperty::Property => "Property",
        },
        WzObjectType::Value(v) => match v {
            WzValue::RawData(_) => "RawData",
            WzValue::Video(_) => "Video",
            WzValue::Lua(_) => "Lua",
            WzValue::Short(_) => "Short",
            WzValue::Int(_) => "Int",
            WzValue::Long(_) => "Long",
            WzValue::Float(_) => "Float",
            WzValue::Double(_) => "Double",
            WzValue::Vector(_) => "Vector",
            WzValue::UOL(_) => "UOL",
            WzValue::String(_) => "String",
            WzValue::ParsedString(_) => "ParsedString",
            WzValue::Null => "Null",
        },
    }
}

/// first difference of two values
fn diff(a: &Value, b: &Value, p: &str) -> Option<(String, String)> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in y {
                match x.get(k) {
                    None => return Some((format!("{p}/{k}"), "is missing".into())),
                    Some(w) => {
                        if let Some(d) = diff(w, v, &format!("{p}/{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            x.keys().find(|k| !y.contains_key(*k)).map(|k| (format!("{p}/{k}"), "is not in the tree".into()))
        }
        _ if a == b => None,
        _ => Some((p.into(), format!("is {a}, expected {b}").chars().take(200).collect())),
    }
}

/// the full form against the nodes
fn full(n: &WzNodeArc, j: &Value, p: &str) -> Result<u64, (String, String)> {
    let r = n.read().unwrap();
    let bad = |what: &str, more: String| Err((what.to_string(), format!("{p}: {what}: {more}")));
    let k = kind(&r.object_type);
    if j["name"].as_str() != Some(r.name.as_str()) {
        return bad("name in the full form", format!("{} of {:?}", j["name"], r.name.as_str()));
    }
    if j["type"].as_str() != Some(k) {
        return bad("kind in the full form", format!("{} of a {k}", j["type"]));
    }
    let d = &j["data"];
    let want = match &r.object_type {
        WzObjectType::Value(v) => Some(match v {
            WzValue::Null | WzValue::RawData(_) | WzValue::Video(_) | WzValue::Lua(_) => Value::Null,
            WzValue::Short(i) => json!(*i as i64),
            WzValue::Int(i) => json!(*i as i64),
            WzValue::Long(i) => json!(*i),
            WzValue::Float(f) => num(*f as f64),
            WzValue::Double(f) => num(*f),
            WzValue::Vector(Vector2D(x, y)) => json!([x, y]),
            WzValue::UOL(s) | WzValue::String(s) => Value::String(text(s)),
            WzValue::ParsedString(s) => Value::String(s.clone()),
        }),
        WzObjectType::Property(WzSubProperty::PNG(c)) => Some(json!({"width": c.width, "height": c.height})),
        WzObjectType::Property(WzSubProperty::Sound(s)) => Some(json!({"duration": s.duration, "sound_type": kind_of_sound(&s.sound_type)})),
        WzObjectType::File(f) => {
            let m = &f.wz_file_meta;
            for (k, v) in [("path", json!(m.path)), ("patch_version", json!(m.patch_version)), ("hash", json!(m.hash))] {
                if d[k] != v {
                    return bad("archive data in the full form", format!("{k} is {}, expected {v}", d[k]));
                }
            }
            None
        }
        _ => None,
    };
    if let Some(w) = want {
        if *d != w {
            return bad(&format!("value of a {k} in the full form"), format!("{d}, expected {w}").chars().take(200).collect());
        }
    }
    let Some(kids) = j["children"].as_object() else {
        return bad("children in the full form", "none".into());
    };
    if kids.len() != r.children.len() {
        return bad("children in the full form", format!("{} of {}", kids.len(), r.children.len()));
    }
    let mut n = 1;
    for (k, c) in r.children.iter() {
        match kids.get(k.as_str()) {
            Some(j) => n += full(c, j, &format!("{p}/{k}"))?,
            None => return bad("children in the full form", format!("{k} is missing")),
        }
    }
    Ok(n)
}

/// the loaded tree against the exported one
fn same(a: &WzNode, b: &WzNode, p: &str, approx: bool) -> Result<u64, (String, String)> {
    let bad = |what: &str, more: String| Err((what.to_string(), format!("{p}: {what}: {more}")));
    if a.name != b.name {
        return bad("name after loading", format!("{:?} was {:?}", b.name.as_str(), a.name.as_str()));
    }
    let (ka, kb) = (kind(&a.object_type), kind(&b.object_type));
    if ka != kb {
        return bad(&format!("a {ka} is loaded as another kind"), kb.into());
    }
    let fl = |x: f64, y: f64| if approx { x == y || (x - y).abs() <= x.abs() * 1e-15 } else { x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()) };
    let ok = match (&a.object_type, &b.object_type) {
        (WzObjectType::Value(x), WzObjectType::Value(y)) => match (x, y) {
            (WzValue::Short(x), WzValue::Short(y)) => x == y,
            (WzValue::Int(x), WzValue::Int(y)) => x == y,
            (WzValue::Long(x), WzValue::Long(y)) => x == y,
            // numbers JSON does not have come back as no number
            (WzValue::Float(x), WzValue::Float(y)) => if x.is_finite() { fl(*x as f64, *y as f64) } else { y.is_nan() },
            (WzValue::Double(x), WzValue::Double(y)) => if x.is_finite() { fl(*x, *y) } else { y.is_nan() },
            (WzValue::Vector(x), WzValue::Vector(y)) => x == y,
            (WzValue::UOL(x), WzValue::UOL(y)) | (WzValue::String(x), WzValue::String(y)) => text(x) == text(y),
            (WzValue::ParsedString(x), WzValue::ParsedString(y)) => x == y,
            _ => true,
        },
        (WzObjectType::Property(x), WzObjectType::Property(y)) => match (x, y) {
            (WzSubProperty::PNG(x), WzSubProperty::PNG(y)) => (x.width, x.height) == (y.width, y.height),
            (WzSubProperty::Sound(x), WzSubProperty::Sound(y)) => x.duration == y.duration && x.sound_type == y.sound_type,
            _ => true,
        },
        (WzObjectType::File(x), WzObjectType::File(y)) => {
            let (x, y) = (&x.wz_file_meta, &y.wz_file_meta);
            (&x.path, x.patch_version, x.hash) == (&y.path, y.patch_version, y.hash)
        }
        _ => true,
    };
    if !ok {
        return bad(&format!("value of a {ka} after loading"), format!("{:?} was {:?}", b.object_type, a.object_type).chars().take(300).collect());
    }
    if a.children.len() != b.children.len() {
        return bad("children after loading", format!("{} were {}", b.children.len(), a.children.len()));
    }
    let mut n = 1;
    for (k, c) in a.children.iter() {
        match b.children.get(k) {
            Some(d) => n += same(&c.read().unwrap(), &d.read().unwrap(), &format!("{p}/{k}"), approx)?,
            None => return bad("children after loading", format!("{k} is missing")),
        }
    }
    Ok(n)
}

fn check(c: &mut Ctx, root: &WzNodeArc, rng: &mut Rng) -> Result<(), Fail> {
    let mut o = Look { n: 0, payload: false, non_finite: false, nulls: 0, empty: 0, odd: false, foreign: 0 };
    look(root, &mut o, 0)?;
    c.st.add("linked_nodes", o.foreign);
    c.st.add("null_nodes", o.nulls);
    c.st.add("empty_containers", o.empty);
    if o.payload {
        c.st.add("payload_trees", 1);
    }
    if o.non_finite {
        c.st.add("non_finite", 1);
    }
    let _ = o.odd;
    let s = root.read().unwrap().to_simple_json().map_err(|e| Fail::new("simple export fails", format!("simple export fails: {e}")))?;
    c.st.add("simple_exports", 1);
    let want = simple(root);
    c.st.seen_s("trees", &want.to_string());
    c.st.sample(|| s.to_string().chars().take(200).collect());
    if let Some((p, e)) = diff(&s, &want, "") {
        return Err(Fail::new("simple form differs from the tree", format!("simple form: {p} {e}")));
    }
    c.st.add("nodes_compared", o.n);
    let f = match root.read().unwrap().to_json() {
        Ok(f) => f,
        // raw payloads have no full form
        Err(_) if o.payload => return Ok(()),
        Err(e) => return Err(Fail::new("full export fails", format!("full export fails: {e}"))),
    };
    c.st.add("full_exports", 1);
    let n = full(root, &f, "").map_err(|(s, m)| Fail::new(s, m))?;
    c.st.add("nodes_compared", n);
    if o.payload {
        return Ok(());
    }
    let by_text = rng.chance(1, 4);
    let back: WzNode = if by_text {
        c.st.add("text_loads", 1);
        serde_json::from_str(&f.to_string()).map_err(|e| Fail::new("export is not loaded", format!("export is not loaded from text: {e}")))?
    } else {
        serde_json::from_value(f.clone()).map_err(|e| Fail::new("export is not loaded", format!("export is not loaded: {e}")))?
    };
    c.st.add("loads", 1);
    let n = same(&root.read().unwrap(), &back, "", by_text).map_err(|(s, m)| Fail::new(s, m))?;
    c.st.add("nodes_compared", n);
    if !by_text {
        let g = back.to_json().map_err(|e| Fail::new("loaded tree is not exported", format!("loaded tree: {e}")))?;
        if let Some((p, e)) = diff(&g, &f, "") {
            return Err(Fail::new("a loaded tree is exported differently", format!("exported again: {p} {e}")));
        }
        let g = back.to_simple_json().map_err(|e| Fail::new("loaded tree is not exported", format!("loaded tree: {e}")))?;
        if let Some((p, e)) = diff(&g, &s, "") {
            return Err(Fail::new("a loaded tree is exported differently", format!("exported again in the simple form: {p} {e}")));
        }
    }
    Ok(())
}

pub fn plainer(k: &mut Kids) {
    for (_, v) in k.iter_mut() {
        match v {
            V::Raw(..) | V::Video(_) => *v = V::Null,
            V::Prop(k) | V::Canvas(_, Some(k)) => plainer(k),
            V::Convex(l) => {
                for v in l.iter_mut() {
                    if let V::Prop(k) = v {
                        plainer(k);
                    }
                }
            }
            _ => {}
        }
    }
}

/// links that lead somewhere
pub fn link(rng: &mut Rng, k: &mut Kids) {
    let names: Vec<String> = k.iter().map(|x| x.0.clone()).collect();
    for (_, v) in k.iter_mut() {
        match v {
            V::Prop(k) | V::Canvas(_, Some(k)) => {
                let inner: Vec<String> = k.iter().map(|x| x.0.clone()).collect();
                for (_, w) in k.iter_mut() {
                    if rng.chance(1, 8) {
                        let up = rng.pick(&names).clone();
                        *w = V::Uol(match rng.below(3) {
                            0 => rng.pick(&inner).clone(),
                            1 => "..".into(),
                            _ => format!("../{up}"),
                        });
                    }
                }
                link(rng, k);
            }
            _ => {
                if rng.chance(1, 10) {
                    *v = V::Uol(rng.pick(&names).clone());
                }
            }
        }
    }
}

fn value(rng: &mut Rng, payloads: bool) -> WzObjectType {
    match rng.below(if payloads { 22 } else { 19 }) {
        0 => WzValue::Null.into_ot(),
        1 => WzValue::Short(rng.u32() as i16).into_ot(),
        2 => WzValue::Int(rng.i32x()).into_ot(),
        3 | 4 => WzValue::Long(rng.i64x()).into_ot(),
        5 => WzValue::Float(f32::from_bits(rng.u32())).into_ot(),
        6 => WzValue::Double(f64::from_bits(rng.u64())).into_ot(),
        7 => WzValue::Float(*rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.1, -0.0, f32::MAX, f32::MIN_POSITIVE])).into_ot(),
        8 => WzValue::Double(*rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.1, -0.0, f64::MAX, 5e-324])).into_ot(),
        9 => WzValue::Vector(Vector2D(rng.i32x(), rng.i32x())).into_ot(),
        10 => WzValue::UOL(WzString::from_str(&img::gen_text(rng), *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS]))).into_ot(),
        11 | 12 => WzValue::String(WzString::from_str(&img::gen_text(rng), *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS]))).into_ot(),
        13 => WzValue::ParsedString(img::gen_text(rng)).into_ot(),
        14 => WzObjectType::Property(WzSubProperty::Convex),
        15 => WzPng::default().into(),
        16 => {
            let mut s = WzSound::default();
            s.duration = rng.u32();
            s.sound_type = rng.pick(&[WzSoundType::Mp3, WzSoundType::Wav, WzSoundType::Binary]).clone();
            s.into()
        }
        17 | 18 => WzObjectType::Property(WzSubProperty::Property),
        19 => WzRawData::default().into(),
        20 => WzVideo::default().into(),
        _ => WzLua::default().into(),
    }
}
trait IntoOt {
    fn into_ot(self) -> WzObjectType;
}
impl IntoOt for WzValue {
    fn into_ot(self) -> WzObjectType {
        WzObjectType::Value(self)
    }
}

fn build(rng: &mut Rng, depth: usize, payloads: bool, parent: Option<&WzNodeArc>, name: &str) -> WzNodeArc {
    let holds = depth < 5 && (depth == 0 || rng.chance(1, 3));
    let t = if holds {
        match rng.below(8) {
            0 => WzFile::default().into(),
            1 => WzDirectory::default().into(),
            2 => WzImage::default().into(),
            3 => {
                let mut p = WzPng::default();
                p.width = rng.u32();
                p.height = rng.u32();
                p.into()
            }
            4 => WzObjectType::Property(WzSubProperty::Convex),
            5 => WzSound::default().into(),
            _ => WzObjectType::Property(WzSubProperty::Property),
        }
    } else {
        value(rng, payloads)
    };
    let n = WzNode::new(&WzNodeName::from(name), t, parent).into_lock();
    if holds {
        let k = rng.below(7);
        let mut used = std::collections::HashSet::new();
        for _ in 0..k {
            let name = if rng.chance(1, 12) {
                let x = rng.pick(&["name", "type", "data", "children", "width", "height", "duration", "sound_type", "x"]).to_string();
                if !used.insert(x.clone()) {
                    continue;
                }
                x
            } else {
                img::gen_name(rng, &mut used, true)
            };
            let c = build(rng, depth + 1, payloads, Some(&n), &name);
            n.write().unwrap().add(&c);
        }
    }
    n
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    match rng.below(20) {
        0 | 1 => {
            let mut cfg = TreeCfg::default();
            cfg.only_props = rng.chance(1, 2);
            cfg.wide = false;
            let g = c01::gen(&mut rng, &cfg, true);
            let f = c.dir.join(format!("a{idx}.wz"));
            std::fs::write(&f, &g.b.bytes).unwrap();
            let root = WzNode::from_wz_file(&f, None).map_err(|e| format!("not opened: {e}"))?.into_lock();
            root.write().unwrap().parse(&root).map_err(|e| format!("does not parse: {e}"))?;
            let all: Vec<WzNodeArc> = images(&root);
            for n in all {
                if rng.chance(1, 2) {
                    let _ = n.write().unwrap().parse(&n);
                }
            }
            c.st.add("archives", 1);
            let r = check(c, &root, &mut rng);
            std::fs::remove_file(&f).unwrap();
            r
        }
        2 => {
            let (p, _) = c14::gen(&mut rng, 6);
            let b = ms::build(&mut rng, &p);
            let dir = c.dir.join(format!("p{idx}"));
            std::fs::create_dir_all(&dir).unwrap();
            let f = dir.join(&p.file);
            std::fs::write(&f, &b.bytes).unwrap();
            let root = WzNode::from_ms_file(&f, None).map_err(|e| format!("not opened: {e}"))?.into_lock();
            root.write().unwrap().parse(&root).map_err(|e| format!("does not parse: {e}"))?;
            let kids: Vec<WzNodeArc> = root.read().unwrap().children.values().cloned().collect();
            for n in kids {
                if rng.chance(1, 2) {
                    let _ = n.write().unwrap().parse(&n);
                }
            }
            c.st.add("packs", 1);
            let r = check(c, &root, &mut rng);
            std::fs::remove_file(&f).unwrap();
            let _ = std::fs::remove_dir(&dir);
            r
        }
        3..=8 => {
            let payloads = rng.chance(1, 6);
            let root = build(&mut rng, 0, payloads, None, "root");
            c.st.add("built_trees", 1);
            check(c, &root, &mut rng)
        }
        _ => {
            let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
            let mut b = 40;
            let cfg = GenCfg { max_depth: 5, budget: 40, blobs: 20, ..Default::default() };
            let mut kids = img::gen_kids(&mut rng, &cfg, 0, &mut b, iv);
            if rng.chance(3, 4) {
                plainer(&mut kids);
            }
            if rng.chance(1, 2) {
                link(&mut rng, &mut kids);
            }
            let bytes = img::encode_props(&mut rng, &kids, iv);
            let f = c.dir.join(format!("i{idx}.img"));
            std::fs::write(&f, &bytes).unwrap();
            let root = WzNode::from_img_file(&f, Some(c01::version_of(iv)), None).map_err(|e| format!("not opened: {e}"))?.into_lock();
            root.write().unwrap().parse(&root).map_err(|e| format!("does not parse: {e}"))?;
            c.st.add("images", 1);
            let r = check(c, &root, &mut rng);
            std::fs::remove_file(&f).unwrap();
            r
        }
    }
}

fn images(n: &WzNodeArc) -> Vec<WzNodeArc> {
    let mut v = vec![];
    let r = n.read().unwrap();
    for c in r.children.values() {
        if matches!(c.read().unwrap().object_type, WzObjectType::Image(_)) {
            v.push(c.clone());
        } else {
            v.extend(images(c));
        }
    }
    v
}
