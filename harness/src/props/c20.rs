//! C20: typed access to nodes of every kind.
use crate::canvas::{self, CanvasM};
use crate::img::{self, Cmp, GenCfg, Img, SoundM, V};
use crate::rng::{hash_str, Rng};
use crate::sup::{Ctx, Fail, Prop};
use crate::{crypt, wz};
use std::collections::HashMap;
use std::sync::Arc;
use wz_reader::property::{get_image, resolve_string_from_node, Vector2D, WzLua, WzPng, WzPngParseError, WzRawData, WzSound, WzString, WzStringMeta, WzStringParseError, WzStringType, WzSubProperty, WzValue, WzVideo};
use wz_reader::{MsFile, MsImage, WzDirectory, WzFile, WzImage, WzNode, WzNodeArc, WzNodeCast, WzNodeName, WzObjectType, WzReader};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        quick: 500000,
        thorough: 4_000_000,
        case,
        evals: "nodes_asked",
        distinct: "questions",
        rule: "each case makes nodes of random kinds by hand (from values, from ranges of a buffer) or parses a random image, and asks every node every typed question and every helper; vectors are calculated with as well; distinct: (kind asked, way it was made, size of its content)",
        need: &[
            "made_by_hand", "from_conversions", "parsed_images", "text_helper", "text_refused", "image_helper", "image_refused", "vectors_added", "vectors_multiplied", "vectors_divided", "distances", "far_distances", "names", "empty_nodes", "kept_parents", "own_ranges", "nodes_in_maps",
        ],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    File,
    MsFile,
    Dir,
    Img,
    MsImg,
    Prop,
    Convex,
    Png,
    Sound,
    Raw,
    Video,
    Lua,
    Short,
    Int,
    Long,
    Float,
    Double,
    Vector,
    Uol,
    Str,
    Parsed,
    Null,
}
const KINDS: &[K] = &[
    K::File, K::MsFile, K::Dir, K::Img, K::MsImg, K::Prop, K::Convex, K::Png, K::Sound, K::Raw, K::Video, K::Lua, K::Short, K::Int, K::Long, K::Float, K::Double, K::Vector, K::Uol, K::Str, K::Parsed, K::Null,
];

fn xor(d: &[u8], iv: [u8; 4]) -> Vec<u8> {
    let k = crypt::keystream(iv, d.len());
    d.iter().zip(k.iter()).map(|(a, b)| a ^ b).collect()
}

fn of(v: &V) -> K {
    match v {
        V::Null | V::Bad | V::Unknown(..) => K::Null,
        V::Short(_) => K::Short,
        V::Int(_) => K::Int,
        V::Long(_) => K::Long,
        V::Float(_) => K::Float,
        V::Double(_) => K::Double,
        V::Str(_) => K::Str,
        V::Uol(_) => K::Uol,
        V::Vector(..) => K::Vector,
        V::Convex(_) => K::Convex,
        V::Prop(_) => K::Prop,
        V::Canvas(..) => K::Png,
        V::Sound(_) => K::Sound,
        V::Raw(..) => K::Raw,
        V::Video(_) => K::Video,
    }
}

/// the questions, and the kinds that answer them
const ASK: &[(&str, fn(&WzNode) -> bool, &[K])] = &[
    ("try_as_file", |n| n.try_as_file().is_some(), &[K::File]),
    ("try_as_directory", |n| n.try_as_directory().is_some(), &[K::Dir]),
    ("try_as_image", |n| n.try_as_image().is_some(), &[K::Img]),
    ("try_as_sub_property", |n| n.try_as_sub_property().is_some(), &[K::Prop, K::Convex, K::Png, K::Sound]),
    (
        "try_as_value",
        |n| n.try_as_value().is_some(),
        &[K::Raw, K::Video, K::Lua, K::Short, K::Int, K::Long, K::Float, K::Double, K::Vector, K::Uol, K::Str, K::Parsed, K::Null],
    ),
    ("try_as_png", |n| n.try_as_png().is_some(), &[K::Png]),
    ("try_as_sound", |n| n.try_as_sound().is_some(), &[K::Sound]),
    ("try_as_string", |n| n.try_as_string().is_some(), &[K::Str, K::Uol]),
    ("is_sub_property", |n| n.is_sub_property(), &[K::Prop]),
    ("is_convex", |n| n.is_convex(), &[K::Convex]),
    ("try_as_lua", |n| n.try_as_lua().is_some(), &[K::Lua]),
    ("try_as_raw_data", |n| n.try_as_raw_data().is_some(), &[K::Raw]),
    ("try_as_video", |n| n.try_as_video().is_some(), &[K::Video]),
    ("is_null", |n| n.is_null(), &[K::Null]),
    ("try_as_vector2d", |n| n.try_as_vector2d().is_some(), &[K::Vector]),
    ("try_as_short", |n| n.try_as_short().is_some(), &[K::Short]),
    ("try_as_int", |n| n.try_as_int().is_some(), &[K::Int]),
    ("try_as_long", |n| n.try_as_long().is_some(), &[K::Long]),
    ("try_as_float", |n| n.try_as_float().is_some(), &[K::Float]),
    ("try_as_double", |n| n.try_as_double().is_some(), &[K::Double]),
    ("try_as_uol", |n| n.try_as_uol().is_some(), &[K::Uol]),
];

fn ask(c: &mut Ctx, n: &WzNode, k: K) -> Result<(), Fail> {
    for (q, f, kinds) in ASK {
        let want = kinds.contains(&k);
        if f(n) != want {
            return Err(Fail::new(
                format!("{q} of a {k:?}"),
                format!("{q} {} a node of kind {k:?} ({:?})", if want { "does not answer for" } else { "answers for" }, n.name.as_str()),
            ));
        }
    }
    c.st.add("nodes_asked", 1);
    Ok(())
}

/// what the helpers answer for a node that has no such content
fn helpers(c: &mut Ctx, node: &WzNodeArc, k: K, text: Option<&str>) -> Result<(), Fail> {
    match (resolve_string_from_node(node), text) {
        (Ok(t), Some(w)) if t == w => c.st.add("text_helper", 1),
        (Err(WzStringParseError::NotStringProperty), None) => c.st.add("text_refused", 1),
        (r, w) => {
            return Err(Fail::new(format!("text of a {k:?}"), format!("the text helper gives {:?} for a node of kind {k:?}, expected {:?}", r.map_err(|e| e.to_string()), w)));
        }
    }
    if k != K::Png {
        match get_image(node) {
            Err(WzPngParseError::NotPngProperty) => c.st.add("image_refused", 1),
            Err(e) => return Err(Fail::new(format!("image of a {k:?}"), format!("the image helper fails with {e:?} for a node of kind {k:?}"))),
            Ok(_) => return Err(Fail::new(format!("image of a {k:?}"), format!("the image helper gives an image for a node of kind {k:?}"))),
        }
    }
    Ok(())
}

fn image_of(c: &mut Ctx, node: &WzNodeArc, m: &CanvasM) -> Result<(), Fail> {
    match get_image(node) {
        Ok(i) => canvas::compare(&i, m).map_err(|e| Fail::new("image of a canvas differs", e))?,
        Err(e) if m.px.is_some() => return Err(Fail::new("image of a canvas not decoded", format!("{e} ({}x{} {} {})", m.w, m.h, m.format1, m.scale))),
        Err(_) => {}
    }
    c.st.add("image_helper", 1);
    Ok(())
}

/// an object of this kind, what to compare it with, and the text it holds
fn make(c: &mut Ctx, rng: &mut Rng, k: K) -> (WzObjectType, V, Option<Box<dyn Fn(&WzNode) -> bool>>) {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let conv = rng.chance(1, 2);
    if conv {
        c.st.add("from_conversions", 1);
    }
    // content at a place of its own in a buffer
    let pre = if rng.chance(1, 4) { 0 } else { rng.below(300) };
    let place = |rng: &mut Rng, d: &[u8]| {
        let mut b = rng.bytes(pre);
        b.extend_from_slice(d);
        let post = rng.below(3);
        b.extend(rng.bytes(post));
        Arc::new(WzReader::from_buff(&b).with_iv(iv))
    };
    match k {
        K::File => {
            let mut f = WzFile::default();
            let (a, b, v) = (rng.below(1 << 30), rng.below(1 << 30), rng.i32x());
            let p = img::gen_text(rng);
            f.offset = a;
            f.block_size = b;
            f.wz_file_meta.patch_version = v;
            f.wz_file_meta.path = p.clone();
            let t = Box::new(move |n: &WzNode| n.try_as_file().is_some_and(|f| f.offset == a && f.block_size == b && f.wz_file_meta.patch_version == v && f.wz_file_meta.path == p));
            (if conv { f.into() } else { WzObjectType::File(Box::new(f)) }, V::Null, Some(t))
        }
        K::MsFile => {
            let mut f = MsFile::default();
            let b = rng.below(1 << 30);
            f.block_size = b;
            let t = Box::new(move |n: &WzNode| matches!(&n.object_type, WzObjectType::MsFile(f) if f.block_size == b));
            (if conv { f.into() } else { WzObjectType::MsFile(Box::new(f)) }, V::Null, Some(t))
        }
        K::Dir => {
            let r = place(rng, &[0]);
            let (a, b, h) = (rng.below(1 << 30), rng.below(1 << 30), rng.u64());
            let d = WzDirectory::new(a, b, &r, rng.chance(1, 2)).with_hash(h);
            let t = Box::new(move |n: &WzNode| n.try_as_directory().is_some_and(|d| d.offset == a && d.block_size == b && d.hash == h && d.hash_u32() == h as u32));
            (if conv { d.into() } else { WzObjectType::Directory(Box::new(d)) }, V::Null, Some(t))
        }
        K::Img => {
            let r = place(rng, &[0]);
            let (a, b) = (rng.below(1 << 30), rng.below(1 << 30));
            let nm = img::gen_text(rng);
            let i = WzImage::new(&nm.as_str().into(), a, b, &r);
            let t = Box::new(move |n: &WzNode| n.try_as_image().is_some_and(|i| i.offset == a && i.block_size == b && i.name.as_str() == nm));
            (if conv { i.into() } else { WzObjectType::Image(Box::new(i)) }, V::Null, Some(t))
        }
        K::MsImg => {
            let mut i = MsImage::default();
            let b = rng.below(1 << 30);
            i.block_size = b;
            let t = Box::new(move |n: &WzNode| matches!(&n.object_type, WzObjectType::MsImage(f) if f.block_size == b));
            (if conv { i.into() } else { WzObjectType::MsImage(Box::new(i)) }, V::Null, Some(t))
        }
        K::Prop => (WzObjectType::Property(WzSubProperty::Property), V::Prop(vec![]), None),
        K::Convex => (WzObjectType::Property(WzSubProperty::Convex), V::Convex(vec![]), None),
        K::Png => {
            let f = *rng.pick(canvas::FORMATS);
            let (w, h) = canvas::gen_size(rng, f, 20);
            let m = canvas::gen(rng, iv, f, w, h);
            let r = place(rng, &m.stored);
            let head = u16::from_le_bytes([m.stored[0], m.stored[1]]) as i32;
            let p = WzPng::new(&r, (w, h), (m.format1 as u32, m.scale as u32), (pre, m.stored.len()), head, m.pages);
            c.st.add("own_ranges", 1);
            (if conv { p.into() } else { WzObjectType::Property(WzSubProperty::PNG(Box::new(p))) }, V::Canvas(m, None), None)
        }
        K::Sound => {
            let V::Sound(s) = img::gen_sound(rng, 200) else { unreachable!() };
            let mut d = s.header.clone();
            let gap = rng.below(9);
            d.extend(rng.bytes(gap));
            let at = d.len();
            d.extend_from_slice(&s.data);
            let r = place(rng, &d);
            let o = WzSound::new(&r, pre + at, s.data.len() as u32, pre, s.header.len(), s.duration as u32, s.kind());
            c.st.add("own_ranges", 1);
            (if conv { o.into() } else { WzObjectType::Property(WzSubProperty::Sound(Box::new(o))) }, V::Sound(s), None)
        }
        K::Raw => {
            let n = rng.below(200);
            let d = rng.bytes(n);
            let r = place(rng, &d);
            let o = WzRawData::new(&r, pre, n);
            c.st.add("own_ranges", 1);
            (if conv { o.into() } else { WzObjectType::Value(WzValue::RawData(o)) }, V::Raw(0, None, d), None)
        }
        K::Video => {
            let n = rng.below(200);
            let d = rng.bytes(n);
            let r = place(rng, &d);
            let o = WzVideo::new(&r, pre, n);
            c.st.add("own_ranges", 1);
            (if conv { o.into() } else { WzObjectType::Value(WzValue::Video(o)) }, V::Video(d), None)
        }
        K::Lua => {
            let (t, ci) = loop {
                let mut t = img::gen_text(rng);
                if t.is_empty() {
                    t.push('y');
                }
                let ci = *rng.pick(&["ems", "gms", "none"]);
                if !wz::lua_ambiguous(t.as_bytes(), ci) {
                    break (t, ci);
                }
            };
            let e: Vec<u8> = match ci {
                "ems" => xor(t.as_bytes(), crypt::IV_EMS),
                "gms" => xor(t.as_bytes(), crypt::IV_GMS),
                _ => t.clone().into_bytes(),
            };
            let r = place(rng, &e);
            let o = WzLua::new(&r, pre, e.len());
            c.st.add("own_ranges", 1);
            let t = Box::new(move |n: &WzNode| n.try_as_lua().is_some_and(|l| l.extract_lua().ok().as_deref() == Some(&t[..])));
            (if conv { o.into() } else { WzObjectType::Value(WzValue::Lua(o)) }, V::Null, Some(t))
        }
        K::Short => {
            let v = rng.u32() as i16;
            (if conv { v.into() } else { WzObjectType::Value(WzValue::Short(v)) }, V::Short(v), None)
        }
        K::Int => {
            let v = rng.i32x();
            (if conv { v.into() } else { WzObjectType::Value(WzValue::Int(v)) }, V::Int(v), None)
        }
        K::Long => {
            let v = rng.i64x();
            (if conv { v.into() } else { WzObjectType::Value(WzValue::Long(v)) }, V::Long(v), None)
        }
        K::Float => {
            let v = f32::from_bits(rng.u32());
            (if conv { v.into() } else { WzObjectType::Value(WzValue::Float(v)) }, V::Float(v), None)
        }
        K::Double => {
            let v = f64::from_bits(rng.u64());
            (if conv { v.into() } else { WzObjectType::Value(WzValue::Double(v)) }, V::Double(v), None)
        }
        K::Vector => {
            let (x, y) = (rng.i32x(), rng.i32x());
            let v = if rng.chance(1, 2) { Vector2D::new(x, y) } else { Vector2D(x, y) };
            (if conv { v.into() } else { WzObjectType::Value(WzValue::Vector(v)) }, V::Vector(x, y), None)
        }
        K::Uol | K::Str => {
            let t = img::gen_text(rng);
            let s = match rng.below(3) {
                0 => WzString::from_str_pkg2_dir(&t),
                1 if t.is_ascii() && !t.is_empty() => {
                    // the enciphered text somewhere in a buffer
                    let e: Vec<u8> = xor(&t.bytes().enumerate().map(|(i, b)| b ^ 0xAAu8.wrapping_add(i as u8)).collect::<Vec<_>>(), iv);
                    let r = place(rng, &e);
                    c.st.add("own_ranges", 1);
                    WzString::from_meta(WzStringMeta::new(pre, e.len() as u32, WzStringType::Ascii), &r)
                }
                _ => WzString::from_str(&t, iv),
            };
            if k == K::Uol {
                (WzObjectType::Value(WzValue::UOL(s)), V::Uol(t), None)
            } else {
                (if conv { s.into() } else { WzObjectType::Value(WzValue::String(s)) }, V::Str(t), None)
            }
        }
        K::Parsed => {
            let t = img::gen_text(rng);
            let w = t.clone();
            let b = Box::new(move |n: &WzNode| matches!(n.try_as_value(), Some(WzValue::ParsedString(s)) if *s == w));
            (WzObjectType::Value(WzValue::ParsedString(t)), V::Null, Some(b))
        }
        K::Null => (WzObjectType::Value(if conv { WzValue::default() } else { WzValue::Null }), V::Null, None),
    }
}

/// the value through the typed questions alone
fn value(n: &WzNode, v: &V) -> bool {
    match v {
        V::Short(a) => n.try_as_short() == Some(a),
        V::Int(a) => n.try_as_int() == Some(a),
        V::Long(a) => n.try_as_long() == Some(a),
        V::Float(a) => n.try_as_float().is_some_and(|b| a.to_bits() == b.to_bits()),
        V::Double(a) => n.try_as_double().is_some_and(|b| a.to_bits() == b.to_bits()),
        V::Vector(x, y) => n.try_as_vector2d().is_some_and(|v| (v.0, v.1) == (*x, *y)),
        V::Str(t) => n.try_as_string().is_some_and(|s| s.get_string().ok().as_ref() == Some(t)),
        V::Uol(t) => [n.try_as_string(), n.try_as_uol()].iter().all(|s| s.is_some_and(|s| s.get_string().ok().as_ref() == Some(t))),
        V::Canvas(m, _) => n.try_as_png().is_some_and(|p| p.width == m.w && p.height == m.h && p.pages == m.pages),
        V::Sound(s) => n.try_as_sound().is_some_and(|d: &WzSound| sound(d, s)),
        V::Raw(_, _, d) => n.try_as_raw_data().is_some_and(|r| r.get_buffer() == &d[..]),
        V::Video(d) => n.try_as_video().is_some_and(|r| r.get_buffer() == &d[..]),
        _ => true,
    }
}
fn sound(d: &WzSound, s: &SoundM) -> bool {
    d.duration == s.duration as u32 && d.sound_type == s.kind() && d.get_buffer() == s.payload()
}

fn kind_value(n: &WzNode, k: K) -> bool {
    // the group questions give the same object as the node holds
    match k {
        K::Prop => matches!(n.try_as_sub_property(), Some(WzSubProperty::Property)),
        K::Convex => matches!(n.try_as_sub_property(), Some(WzSubProperty::Convex)),
        K::Png => matches!(n.try_as_sub_property(), Some(WzSubProperty::PNG(p)) if std::ptr::eq(&**p, n.try_as_png().unwrap())),
        K::Sound => matches!(n.try_as_sub_property(), Some(WzSubProperty::Sound(p)) if std::ptr::eq(&**p, n.try_as_sound().unwrap())),
        K::Int => matches!(n.try_as_value(), Some(WzValue::Int(v)) if Some(v) == n.try_as_int()),
        K::Null => matches!(n.try_as_value(), Some(WzValue::Null)),
        K::Uol => matches!(n.try_as_value(), Some(WzValue::UOL(_))),
        K::Str => matches!(n.try_as_value(), Some(WzValue::String(_))),
        _ => true,
    }
}

fn by_hand(c: &mut Ctx, rng: &mut Rng) -> Result<(), Fail> {
    let n = 1 + rng.below(6);
    let top = WzNode::from_str("top", 1, None).into_lock();
    let mut all: Vec<(String, WzNodeArc, K, V)> = vec![];
    for _ in 0..n {
        let k = *rng.pick(KINDS);
        let (o, v, special) = make(c, rng, k);
        let nm = if rng.chance(1, 8) { String::new() } else { img::gen_text(rng) };
        let size = match &v {
            V::Str(t) | V::Uol(t) => t.len(),
            V::Raw(_, _, d) | V::Video(d) => d.len(),
            V::Canvas(m, _) => (m.w * 1000 + m.h) as usize,
            V::Sound(s) => s.data.len(),
            _ => 0,
        };
        c.st.seen("questions", hash_str(&format!("{k:?} hand {size}")));
        let parent = match rng.below(3) {
            0 => None,
            1 => Some(top.clone()),
            _ => all.last().map(|x| x.1.clone()).or(Some(top.clone())),
        };
        let node = match rng.below(2) {
            0 => WzNode::from_str(&nm, o, parent.as_ref()),
            _ => WzNode::new(&WzNodeName::new(&nm), o, parent.as_ref()),
        };
        let node: WzNodeArc = if rng.chance(1, 2) { node.into_lock() } else { node.into() };
        c.st.add("made_by_hand", 1);
        {
            let r = node.read().unwrap();
            if r.name.as_str() != nm {
                return Err(Fail::new("a node made by hand has another name", format!("{:?} instead of {nm:?}", r.name.as_str())));
            }
            if !r.children.is_empty() {
                return Err("a node made by hand has children".into());
            }
            match (r.parent.upgrade(), &parent) {
                (None, None) => {}
                (Some(a), Some(b)) if Arc::ptr_eq(&a, b) => c.st.add("kept_parents", 1),
                (a, b) => return Err(Fail::new("a node made by hand has another parent", format!("{:?} instead of {:?}", a.map(|x| x.read().unwrap().name.to_string()), b.is_some()))),
            }
            ask(c, &r, k)?;
            if !value(&r, &v) || !kind_value(&r, k) || special.as_ref().is_some_and(|f| !f(&r)) {
                return Err(Fail::new(format!("value of a {k:?} made by hand"), format!("a node of kind {k:?} made by hand does not give the value it was made of: {:?}", v)));
            }
            // copies of the object answer the same
            let copy = WzNode::new(&r.name, r.object_type.clone(), None);
            ask(c, &copy, k)?;
            if !value(&copy, &v) || special.as_ref().is_some_and(|f| !f(&copy)) {
                return Err(Fail::new(format!("value of a copied {k:?}"), format!("a copy of a node of kind {k:?} does not give its value: {:?}", v)));
            }
        }
        let text = match &v {
            V::Str(t) | V::Uol(t) => Some(t.as_str()),
            _ => None,
        };
        helpers(c, &node, k, text)?;
        if let V::Canvas(m, _) = &v {
            image_of(c, &node, m)?;
        }
        all.push((nm, node, k, v));
    }
    // listed under their names, the last one of a name wins
    let mut want: HashMap<&str, usize> = HashMap::new();
    {
        let mut w = top.write().unwrap();
        for (i, (n, node, _, _)) in all.iter().enumerate() {
            w.add(node);
            want.insert(n, i);
        }
    }
    let r = top.read().unwrap();
    if r.children.len() != want.len() {
        return Err(Fail::new("nodes added", format!("{} nodes listed, {} names added", r.children.len(), want.len())));
    }
    for (n, i) in want {
        match r.at(n) {
            Some(x) if Arc::ptr_eq(&x, &all[i].1) => c.st.add("nodes_in_maps", 1),
            x => return Err(Fail::new("a node added is found by its name", format!("{n:?} gives {:?}", x.map(|x| x.read().unwrap().name.to_string())))),
        }
    }
    Ok(())
}

fn walk(c: &mut Ctx, node: &WzNodeArc, v: &V) -> Result<(), Fail> {
    let k = of(v);
    let kids = {
        let r = node.read().unwrap();
        ask(c, &r, k)?;
        if !value(&r, v) || !kind_value(&r, k) {
            return Err(Fail::new(format!("value of a parsed {k:?}"), format!("{:?} does not give its stored value {:?}", r.name.as_str(), v)));
        }
        let mut l = vec![];
        for (n, x) in v.kids() {
            l.push((r.at(&n).ok_or("a child is missing")?, x));
        }
        l
    };
    let text = match v {
        V::Str(t) | V::Uol(t) => Some(t.as_str()),
        _ => None,
    };
    helpers(c, node, k, text)?;
    if let V::Canvas(m, kids) = v {
        let linked = kids.as_ref().is_some_and(|k| k.iter().any(|x| x.0 == "_inlink" || x.0 == "_outlink"));
        if !linked {
            image_of(c, node, m)?;
        }
    }
    c.st.seen("questions", hash_str(&format!("{k:?} parsed {}", kids.len())));
    for (n, x) in kids {
        walk(c, &n, x)?;
    }
    Ok(())
}

fn parsed(c: &mut Ctx, rng: &mut Rng) -> Result<(), Fail> {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let cfg = GenCfg { budget: 40, max_depth: 4, ..Default::default() };
    let im = loop {
        let i = wz::gen_img(rng, &cfg, iv, false);
        if let Img::Lua(t, k) = &i {
            if wz::lua_ambiguous(t, k) {
                continue;
            }
        }
        break i;
    };
    let bytes = img::encode(rng, &im, iv);
    let name = match &im {
        Img::Lua(..) => "a.lua",
        Img::Txt(_) => "a.txt",
        _ => "a.img",
    };
    let pre = rng.below(200);
    let mut buf = rng.bytes(pre);
    buf.extend(&bytes);
    let reader = Arc::new(WzReader::from_buff(&buf).with_iv(iv));
    let root = WzNode::from_str(name, WzImage::new(&name.into(), pre, bytes.len(), &reader), None).into_lock();
    ask(c, &root.read().unwrap(), K::Img)?;
    root.write().unwrap().parse(&root).map_err(|e| format!("image does not parse: {e}"))?;
    c.st.add("parsed_images", 1);
    ask(c, &root.read().unwrap(), K::Img)?;
    helpers(c, &root, K::Img, None)?;
    match &im {
        Img::Props(k) => {
            for (n, v) in k {
                let x = root.read().unwrap().at(n).ok_or("a child is missing")?;
                walk(c, &x, v)?;
            }
        }
        _ => {
            let mut cmp = Cmp::new(&mut c.st);
            cmp.image(&root, &im, name)?;
            let x = root.read().unwrap().children.values().next().cloned().ok_or("no payload")?;
            let k = if matches!(im, Img::Lua(..)) { K::Lua } else { K::Raw };
            ask(c, &x.read().unwrap(), k)?;
            helpers(c, &x, k, None)?;
        }
    }
    Ok(())
}

fn vectors(c: &mut Ctx, rng: &mut Rng) -> Result<(), Fail> {
    for _ in 0..8 {
        let (a, b, x, y) = (rng.i32x(), rng.i32x(), rng.i32x(), rng.i32x());
        let (p, q) = (Vector2D::new(a, b), Vector2D(x, y));
        let d = |w: &str, got: &Vector2D| Fail::new(format!("vectors: {w}"), format!("({a},{b}) {w} ({x},{y}) gives ({},{})", got.0, got.1));
        if let (Some(r), Some(s)) = (a.checked_add(x), b.checked_add(y)) {
            let g = p + q;
            if (g.0, g.1) != (r, s) || g != Vector2D(r, s) {
                return Err(d("+", &g));
            }
            c.st.add("vectors_added", 1);
        }
        if let (Some(r), Some(s)) = (a.checked_sub(x), b.checked_sub(y)) {
            let g = p - q;
            if (g.0, g.1) != (r, s) {
                return Err(d("-", &g));
            }
        }
        if let (Some(r), Some(s)) = (a.checked_mul(x), b.checked_mul(y)) {
            let g = p * q;
            if (g.0, g.1) != (r, s) {
                return Err(d("*", &g));
            }
            c.st.add("vectors_multiplied", 1);
        }
        if let (Some(r), Some(s)) = (a.checked_div(x), b.checked_div(y)) {
            let g = p / q;
            if (g.0, g.1) != (r, s) {
                return Err(d("/", &g));
            }
            c.st.add("vectors_divided", 1);
        }
        let (dx, dy) = ((a as i128 - x as i128).unsigned_abs(), (b as i128 - y as i128).unsigned_abs());
        let want = ((dx * dx + dy * dy) as f64).sqrt();
        let got = p.distance(&q);
        if (got - want).abs() > want * 1e-12 || got.is_nan() {
            return Err(Fail::new("vectors: distance", format!("the distance of ({a},{b}) and ({x},{y}) is {got}, expected {want}")));
        }
        if p.distance(&q) != q.distance(&p) || p.distance(&p) != 0.0 {
            return Err(Fail::new("vectors: distance there and back", format!("({a},{b}) and ({x},{y})")));
        }
        if dx > i32::MAX as u128 || dy > i32::MAX as u128 {
            c.st.add("far_distances", 1);
        }
        c.st.add("distances", 1);
        c.st.seen("questions", hash_str(&format!("vector {} {}", dx.checked_ilog2().unwrap_or(0), dy.checked_ilog2().unwrap_or(0))));
        if p.to_string() != format!("({a}, {b})") {
            return Err(Fail::new("vectors: text", format!("({a},{b}) prints as {p}")));
        }
        if (p == q) != (a == x && b == y) {
            return Err(Fail::new("vectors: equality", format!("({a},{b}) and ({x},{y})")));
        }
    }
    Ok(())
}

fn names(c: &mut Ctx, rng: &mut Rng) -> Result<(), Fail> {
    let (a, b) = (img::gen_text(rng), img::gen_text(rng));
    let (x, y) = (WzNodeName::new(&a), WzNodeName::from(b.clone()));
    let z: WzNodeName = a.as_str().into();
    if x != z || (x == y) != (a == b) || x.as_str() != a || &*y != b.as_str() || x.to_string() != a || format!("{y}") != b || x.clone() != z {
        return Err(Fail::new("names", format!("{a:?} and {b:?} become {:?} and {:?}", x.as_str(), y.as_str())));
    }
    if WzNodeName::default().as_str() != "" {
        return Err("the default name is not empty".into());
    }
    let mut m: HashMap<WzNodeName, u8> = HashMap::new();
    m.insert(x, 1);
    m.insert(y, 2);
    if m.len() != if a == b { 1 } else { 2 } || m.get(&z).copied() != Some(if a == b { 2 } else { 1 }) {
        return Err(Fail::new("names as keys", format!("{a:?} and {b:?}")));
    }
    c.st.add("names", 1);
    // the picture formats and their numbers
    use wz_reader::property::WzPngFormat as F;
    for (f, n) in [
        (F::BGRA4444, 1),
        (F::BGRA8888, 2),
        (F::DXT3SM, 3),
        (F::ARGB1555, 257),
        (F::RGB565, 513),
        (F::RGB565_517, 517),
        (F::R16, 769),
        (F::DXT3, 1026),
        (F::DXT5, 2050),
        (F::A8, 2304),
        (F::RGBA1010102, 2562),
        (F::DXT1, 4097),
        (F::BC7, 4098),
        (F::RGBA32Float, 4100),
    ] {
        if F::from(n) != f || f.clone() as u32 != n {
            return Err(Fail::new("picture formats", format!("{n} is {:?}, {f:?} is {}", F::from(n), f.clone() as u32)));
        }
    }
    let e = WzNode::empty();
    ask(c, &e, K::Null)?;
    if !e.name.is_empty() || e.parent.upgrade().is_some() || !e.children.is_empty() {
        return Err("an empty node is not empty".into());
    }
    let e = e.into_lock();
    helpers(c, &e, K::Null, None)?;
    c.st.add("empty_nodes", 1);
    Ok(())
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    match rng.below(8) {
        0 => vectors(c, &mut rng),
        1 => names(c, &mut rng),
        2..=4 => by_hand(c, &mut rng),
        _ => parsed(c, &mut rng),
    }
}
