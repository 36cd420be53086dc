//! C22: what an opened file tells about itself.
use crate::img::{self, GenCfg, Img};
use crate::props::{c01, c06, c14};
use crate::rng::{hash_str, Rng};
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, TreeCfg};
use crate::{crypt, ms, pkg2};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use wz_reader::util::profile::PKG2_PROFILE_CACHE;
use wz_reader::util::version::PKGVersion;
use wz_reader::{WzNode, WzNodeArc, WzNodeCast, WzObjectType, WzReader};

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        quick: 60000,
        thorough: 1_000_000,
        case,
        evals: "facts_checked",
        distinct: "files",
        rule: "each case writes one file (archive of either kind, pack, standalone image) under a random name, opens it with and without a parent, and compares everything that the node, its record and its headers tell with what was written, before and after parsing, unparsing and parsing again; distinct: (kind, header layout, way of opening, form of the name)",
        need: &[
            "pkg1", "pkg1_without_version", "pkg2", "pkg2_scrambled", "pkg2_scrambled_wide", "packs_v1", "packs_v2", "images", "with_parent", "relative_paths", "dotted_names", "names_without_extension", "names_beginning_with_dot", "unicode_names", "not_utf8_directories", "not_utf8_names", "nameless_paths", "missing_files", "odd_lengths", "reparsed", "headers_from_buffers",
        ],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

/// the name without what follows its last dot (a dot in front begins no extension)
fn stem(name: &str) -> &str {
    match name.rfind('.') {
        None | Some(0) => name,
        Some(i) => &name[..i],
    }
}

fn name(c: &mut Ctx, rng: &mut Rng, ext: &str) -> String {
    let n = 1 + rng.below(10);
    let mut s: String = (0..n).map(|_| *rng.pick(&['a', 'b', 'Z', '0', '9', '_', '-', ' ', '~', '+', '%'])).collect();
    match rng.below(10) {
        0 => {
            c.st.add("names_without_extension", 1);
            s.push('x');
            return s;
        }
        1 => {
            c.st.add("dotted_names", 1);
            s.push_str(*rng.pick(&[".b", ".wz", ".img", ".ms", "..", ".2.x", ". "]));
        }
        2 => {
            c.st.add("names_beginning_with_dot", 1);
            return match rng.below(3) {
                0 => ext.to_string(),
                1 => format!(".{s}"),
                _ => format!(".{s}{ext}"),
            };
        }
        3 => {
            c.st.add("unicode_names", 1);
            s.push_str(*rng.pick(&["é", "한글", "漢", "𝒳", "ß.İ", "İ"]));
        }
        _ => {}
    }
    if rng.chance(1, 8) {
        s.push_str(&ext.to_ascii_uppercase());
    } else {
        s.push_str(ext);
    }
    s
}

struct F<'a> {
    what: String,
    c: &'a mut Ctx,
}
impl F<'_> {
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, fact: &str, got: T, want: T) -> Result<(), Fail> {
        self.c.st.add("facts_checked", 1);
        if got != want {
            return Err(Fail::new(format!("wrong {fact}"), format!("{}: {fact} is {got:?}, not {want:?}", self.what)));
        }
        Ok(())
    }
}

/// What is written at the beginning of an archive.
struct Head {
    fsize: u64,
    fstart: usize,
    data: usize,
    enc: Option<u16>,
    h: (u64, u64),
    flag: u8, // 0 plain, 1 scrambled, 2 scrambled and wide
    v2: bool,
}

/// What a header tells (its type has no public name).
struct Told {
    ident: PKGVersion,
    fsize: u64,
    fstart: usize,
    data: usize,
    enc: Option<u16>,
    h: (u64, u64),
    short: (u32, u32),
    wide: bool,
}
macro_rules! told {
    ($h:expr) => {{
        let h = &$h;
        Told { ident: h.ident, fsize: h.fsize, fstart: h.fstart, data: h.data_start, enc: h.encrypt_version, h: (h.hash1, h.hash2), short: (h.hash1_u32(), h.hash2_u32()), wide: h.is_pkg2_64() }
    }};
}
fn header(f: &mut F, h: Told, w: &Head, from: &str) -> Result<(), Fail> {
    f.eq(&format!("kind of archive in {from}"), h.ident, if w.v2 { PKGVersion::V2 } else { PKGVersion::V1 })?;
    f.eq(&format!("size in {from}"), h.fsize, w.fsize)?;
    f.eq(&format!("start in {from}"), h.fstart, w.fstart)?;
    f.eq(&format!("start of the data in {from}"), h.data, w.data)?;
    f.eq(&format!("stored version in {from}"), h.enc, w.enc)?;
    f.eq(&format!("hashes in {from}"), h.h, w.h)?;
    f.eq(&format!("short hashes in {from}"), h.short, (w.h.0 as u32, w.h.1 as u32))?;
    f.eq(&format!("wide mark in {from}"), h.wide, w.flag == 2)
}

fn node_name(n: &WzNodeArc) -> String {
    n.read().unwrap().name.to_string()
}

struct Place {
    path: PathBuf,
    /// what the record has to show as the path, when it is text
    shown: Option<String>,
    name: String,
}

/// A place for a file: in the scratch directory, in one below, by a relative path.
fn place(c: &mut Ctx, rng: &mut Rng, idx: u64, name: String) -> Place {
    match rng.below(6) {
        0 => {
            c.st.add("not_utf8_directories", 1);
            let mut d = format!("d{idx}").into_bytes();
            d.extend(*rng.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80x"]));
            let d = c.dir.join(OsString::from_vec(d));
            std::fs::create_dir_all(&d).unwrap();
            Place { path: d.join(&name), shown: None, name }
        }
        1 => {
            c.st.add("relative_paths", 1);
            let d = c.dir.join(format!("r{idx}"));
            std::fs::create_dir_all(&d).unwrap();
            // a way round instead of another working directory
            let path = d.join("..").join(format!("r{idx}")).join(".").join(&name);
            Place { shown: Some(path.to_str().unwrap().to_string()), path, name }
        }
        _ => {
            let d = c.dir.join(format!("p{idx}"));
            std::fs::create_dir_all(&d).unwrap();
            let path = d.join(&name);
            Place { shown: Some(path.to_str().unwrap().to_string()), path, name }
        }
    }
}
fn clear(p: &Place) {
    std::fs::remove_file(&p.path).unwrap();
    // the directory of the file; the way round ends in the same place
    let _ = std::fs::remove_dir(p.path.parent().unwrap().canonicalize().unwrap());
}

fn archive(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let icfg = GenCfg { max_depth: 2, budget: 2, blobs: 10, ..Default::default() };
    let cfg = TreeCfg { budget: 5, depth: 2, wide: false, img: icfg, ..Default::default() };
    let (mut bytes, mut w, tree, iv, version, hash, d): (Vec<u8>, Head, Vec<wz::TE>, [u8; 4], Option<i32>, u64, String);
    if idx % 2 == 0 {
        let mut g = c01::gen(rng, &cfg, true);
        if rng.chance(1, 4) {
            // something behind the archive; a longer file can fit more versions
            let n = g.b.bytes.len();
            let m = rng.below(30);
            let m = rng.bytes(m);
            g.b.bytes.extend(m);
            if g.b.version_ambiguous() {
                g.b.bytes.truncate(n);
            }
        }
        let e = g.o.encver.then(|| wz::ver_enc(wz::ver_hash(g.o.version)));
        w = Head { fsize: 0, fstart: g.o.fstart, data: g.o.fstart + if g.o.encver { 2 } else { 0 }, enc: e, h: (0, 0), flag: 0, v2: false };
        c.st.add(if g.o.encver { "pkg1" } else { "pkg1_without_version" }, 1);
        iv = g.o.iv;
        version = Some(g.o.version);
        hash = wz::ver_hash(g.o.version) as u64;
        d = format!("PKG1 of version {} from {}, version stored {}", g.o.version, g.o.fstart, g.o.encver);
        (bytes, tree) = (g.b.bytes, g.b.tree);
    } else {
        let g = *rng.pick(&pkg2::ALL);
        let (o, b) = c06::make(rng, g, &cfg);
        *PKG2_PROFILE_CACHE.write().unwrap() = vec![c06::cached(g, o.t)];
        let flag = match g {
            pkg2::Gen::K1201 => 1,
            pkg2::Gen::K1202 => 2,
            _ => 0,
        };
        w = Head { fsize: 0, fstart: o.fstart, data: o.fstart + if flag == 0 { 8 } else { 0 }, enc: None, h: (o.h1, pkg2::hash2(g.check(), o.h1, o.t)), flag, v2: true };
        c.st.add(["pkg2", "pkg2_scrambled", "pkg2_scrambled_wide"][flag as usize], 1);
        iv = o.iv;
        version = None;
        hash = o.t;
        d = format!("{g:?} from {}", o.fstart);
        (bytes, tree) = (b.bytes, b.tree);
    }
    // as the writer stored it
    w.fsize = if w.flag == 0 { u64::from_le_bytes(bytes[4..12].try_into().unwrap()) } else { (bytes.len() - w.fstart) as u64 };
    if w.flag == 0 && rng.chance(1, 4) {
        // the stored length is what is told, not the length of the file
        c.st.add("odd_lengths", 1);
        w.fsize = *rng.pick(&[2, 3, 255, 0xffff_ffff, 1 << 32, u64::MAX, u64::MAX >> 1, w.fsize + 1]);
        bytes[4..12].copy_from_slice(&w.fsize.to_le_bytes());
    }
    let nm = name(c, rng, ".wz");
    let p = place(c, rng, idx, nm);
    std::fs::write(&p.path, &bytes).unwrap();
    let explicit = rng.chance(1, 2);
    let parent = rng.chance(1, 3).then(|| WzNode::empty().into_lock());
    if let Some(x) = &parent {
        c.st.add("with_parent", 1);
        x.write().unwrap().name = "above".into();
    }
    c.st.seen("files", hash_str(&format!("{} {} {explicit} {} {:?}", w.flag + if w.v2 { 3 } else { 0 }, w.fstart, parent.is_some(), stem(&p.name).len())));
    let (mv, pv) = if explicit { (Some(c01::version_of(iv)), version) } else { (None, None) };
    let f = &mut F { what: format!("{d} as {:?}, explicit {explicit}", p.name), c };

    let buf = WzReader::from_buff(&bytes);
    f.c.st.add("headers_from_buffers", 1);
    header(f, told!(buf.header), &w, "the reader of a buffer")?;
    header(f, told!(buf.create_header()), &w, "the header made by the reader of a buffer")?;
    header(f, told!(buf.with_iv(iv).header), &w, "the reader with a cipher")?;

    let root = WzNode::from_wz_file_full(&p.path, mv, pv, parent.as_ref(), None).map_err(|e| format!("{}: not opened: {e}", f.what))?.into_lock();
    let checks = |f: &mut F, root: &WzNodeArc, parsed: bool, ever: bool| -> Result<(), Fail> {
        let n = root.read().unwrap();
        f.eq("name", n.name.to_string(), stem(&p.name).to_string())?;
        f.eq("parent", n.parent.upgrade().map(|x| node_name(&x)), parent.as_ref().map(|_| "above".to_string()))?;
        f.eq("full path", n.get_full_path(), if parent.is_some() { format!("above/{}", stem(&p.name)) } else { stem(&p.name).to_string() })?;
        let Some(file) = n.try_as_file() else {
            return Err(format!("{}: the node is no file", f.what).into());
        };
        f.eq("children", n.children.len(), if parsed { tree.len() } else { 0 })?;
        f.eq("parsed mark", file.is_parsed, parsed)?;
        f.eq("extent", (file.offset, file.block_size), (w.data, bytes.len()))?;
        header(f, told!(file.reader.header), &w, "the reader of the file")?;
        f.eq("bytes of the reader", file.reader.map.len(), bytes.len())?;
        let m = &file.wz_file_meta;
        if let Some(s) = &p.shown {
            f.eq("path", m.path.as_str(), s.as_str())?;
        }
        if !ever {
            f.eq("patch version before parsing", m.patch_version, pv.unwrap_or(-1))?;
            return Ok(());
        }
        f.eq("mark of a stored version", m.wz_with_encrypt_version_header, w.enc.is_some())?;
        if w.v2 || !tree.is_empty() {
            f.eq("hash", m.hash as u64, hash)?;
            if let Some(v) = version {
                f.eq("patch version", m.patch_version, v)?;
            }
        }
        Ok(())
    };
    checks(f, &root, false, false)?;
    let times = 1 + rng.below(3);
    for t in 0..times {
        root.write().unwrap().parse(&root).map_err(|e| format!("{}: does not parse: {e}", f.what))?;
        checks(f, &root, true, true)?;
        if t > 0 {
            f.c.st.add("reparsed", 1);
        }
        if t + 1 < times {
            root.write().unwrap().unparse();
            checks(f, &root, false, true)?;
        }
    }
    if rng.chance(1, 2) {
        wz::compare(&mut f.c.st, &root, &tree, "", true, false).map_err(|e| format!("{}: {e}", f.what))?;
    }
    drop(root);
    clear(&p);
    Ok(())
}

fn pack(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let (p, imgs) = c14::gen(rng, 8);
    let b = ms::build(rng, &p);
    let at = place(c, rng, idx, p.file.clone());
    std::fs::write(&at.path, &b.bytes).unwrap();
    c.st.add(if p.v2 { "packs_v2" } else { "packs_v1" }, 1);
    c.st.seen("files", hash_str(&format!("ms {} {} {}", p.v2, p.file.len(), p.salt.len())));
    let parent = rng.chance(1, 3).then(|| WzNode::empty().into_lock());
    let f = &mut F { what: format!("pack {:?} (second kind {}, salt of {}, {} entries)", p.file, p.v2, p.salt.len(), imgs.len()), c };
    let root = WzNode::from_ms_file(&at.path, parent.as_ref()).map_err(|e| format!("{}: not opened: {e}", f.what))?.into_lock();
    let salt: String = p.salt.iter().map(|b| *b as char).collect();
    let n = b.entries.len() as i32;
    // the sum over the length of the salt, the salt, the kind and the number of entries
    let s = b.hstart - 2 * p.salt.len();
    let mut hash = i32::from_le_bytes(b.bytes[s - 4..s].try_into().unwrap()).wrapping_add(if p.v2 { 4 } else { 2 }).wrapping_add(n);
    for x in b.bytes[s..b.hstart].chunks(2) {
        hash = hash.wrapping_add(u16::from_le_bytes([x[0], x[1]]) as i32);
    }
    let sum: usize = p.file.to_ascii_lowercase().bytes().map(|b| b as usize).sum();
    let entries = b.hstart + sum * 3 % 212 + if p.v2 { 8 + 64 } else { 9 + 33 };
    for parsed in [false, true, false, true] {
        if parsed {
            root.write().unwrap().parse(&root).map_err(|e| format!("{}: does not parse: {e}", f.what))?;
        } else {
            root.write().unwrap().unparse();
        }
        let r = root.read().unwrap();
        f.eq("name", r.name.to_string(), stem(&p.file).to_string())?;
        f.eq("parent", r.parent.upgrade().is_some(), parent.is_some())?;
        f.eq("children", r.children.len(), if parsed { n as usize } else { 0 })?;
        let WzObjectType::MsFile(m) = &r.object_type else {
            return Err(format!("{}: the node is no pack", f.what).into());
        };
        f.eq("parsed mark", m.is_parsed, parsed)?;
        f.eq("extent", m.block_size, b.bytes.len())?;
        f.eq("kind", (m.header.ms_file_version, m.header.version), if p.v2 { (2, 4) } else { (1, 2) })?;
        f.eq("number of entries", m.header.entry_count, n)?;
        f.eq("salt", m.header.key_salt.as_str(), salt.as_str())?;
        f.eq("salted name", m.header.name_with_salt.clone(), p.file.to_ascii_lowercase() + &salt)?;
        f.eq("hash", m.header.header_hash, hash)?;
        f.eq("place of the header", m.header.hstart, b.hstart)?;
        f.eq("place of the entries", m.header.estart, entries)?;
    }
    drop(root);
    clear(&at);
    Ok(())
}

fn image(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let icfg = GenCfg { max_depth: 2, budget: 5, blobs: 20, ..Default::default() };
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let mut b = 6;
    let im = Img::Props(img::gen_kids(rng, &icfg, 0, &mut b, iv));
    let bytes = img::encode(rng, &im, iv);
    let nm = name(c, rng, ".img");
    // texts have no list of values
    let p = place(c, rng, idx, nm);
    std::fs::write(&p.path, &bytes).unwrap();
    c.st.add("images", 1);
    let parent = rng.chance(1, 3).then(|| WzNode::empty().into_lock());
    let how = rng.below(3);
    c.st.seen("files", hash_str(&format!("img {how} {} {}", parent.is_some(), p.name.len())));
    let f = &mut F { what: format!("image {:?}, opened in way {how}", p.name), c };
    let root = match how {
        0 => WzNode::from_img_file(&p.path, None, parent.as_ref()),
        1 => WzNode::from_img_file(&p.path, Some(c01::version_of(iv)), parent.as_ref()),
        _ => WzNode::from_img_file_with_iv(&p.path, iv, parent.as_ref()),
    }
    .map_err(|e| format!("{}: not opened: {e}", f.what))?
    .into_lock();
    let n = match &im {
        Img::Props(k) => k.len(),
        _ => unreachable!(),
    };
    for parsed in [false, true, false, true] {
        if parsed {
            root.write().unwrap().parse(&root).map_err(|e| format!("{}: does not parse: {e}", f.what))?;
        } else {
            root.write().unwrap().unparse();
        }
        let r = root.read().unwrap();
        f.eq("name", r.name.to_string(), p.name.clone())?;
        f.eq("parent", r.parent.upgrade().is_some(), parent.is_some())?;
        let Some(i) = r.try_as_image() else {
            return Err(format!("{}: the node is no image", f.what).into());
        };
        f.eq("own name", i.name.to_string(), p.name.clone())?;
        f.eq("parsed mark", i.is_parsed, parsed)?;
        f.eq("children", r.children.len(), if parsed { n } else { 0 })?;
        f.eq("extent", (i.offset, i.block_size), (0, bytes.len()))?;
        f.eq("first byte", i.get_header_type() as u8, 0x73)?;
    }
    drop(root);
    clear(&p);
    Ok(())
}

/// Paths that are no text, have no name or lead nowhere.
fn odd(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let icfg = GenCfg { max_depth: 2, budget: 2, blobs: 10, ..Default::default() };
    let k = rng.below(3);
    let ext = [".wz", ".ms", ".img"][k];
    let open = |p: &Path| -> Result<Option<WzNode>, ()> {
        let p = p.to_path_buf();
        std::panic::catch_unwind(move || match k {
            0 => WzNode::from_wz_file(&p, None).ok(),
            1 => WzNode::from_ms_file(&p, None).ok(),
            _ => WzNode::from_img_file(&p, None, None).ok(),
        })
        .map_err(|_| ())
    };
    let d = c.dir.join(format!("o{idx}"));
    std::fs::create_dir_all(&d).unwrap();
    match rng.below(3) {
        0 => {
            c.st.add("not_utf8_names", 1);
            let nm = *rng.pick(&[&b"\xff"[..], b"a\xc3\x28", b"\xe6\xbc"]);
            let nm = OsString::from_vec([nm, ext.as_bytes()].concat());
            let p = d.join(&nm);
            let bytes = match k {
                0 => c01::gen(rng, &TreeCfg { budget: 3, depth: 2, wide: false, img: icfg, ..Default::default() }, true).b.bytes,
                1 => {
                    let (p, _) = c14::gen(rng, 3);
                    ms::build(rng, &p).bytes
                }
                _ => {
                    let mut b = 4;
                    let im = Img::Props(img::gen_kids(rng, &icfg, 0, &mut b, crypt::IV_BMS));
                    img::encode(rng, &im, crypt::IV_BMS)
                }
            };
            std::fs::write(&p, bytes).unwrap();
            let r = open(&p);
            c.st.add("facts_checked", 1);
            std::fs::remove_file(&p).unwrap();
            if r.is_err() {
                return Err(Fail::new("a name that is no text panics", format!("opening {:?} panics", nm.as_bytes())));
            }
        }
        1 => {
            c.st.add("nameless_paths", 1);
            for p in [d.join(".."), PathBuf::from("/"), PathBuf::from(""), PathBuf::from(".."), d.join("x").join(".."), d.clone()] {
                c.st.add("facts_checked", 1);
                match open(&p) {
                    Ok(None) => {}
                    Ok(Some(_)) => return Err(format!("{p:?} was opened as {ext}").into()),
                    Err(()) => return Err(Fail::new("a path without a name panics", format!("opening {p:?} as {ext} panics"))),
                }
            }
        }
        _ => {
            c.st.add("missing_files", 1);
            let p = d.join(format!("no{ext}"));
            c.st.add("facts_checked", 1);
            if !matches!(open(&p), Ok(None)) {
                return Err(Fail::new("a missing file is no error", format!("{p:?}")));
            }
            std::fs::write(&p, b"").unwrap();
            let r = open(&p);
            std::fs::remove_file(&p).unwrap();
            if r.is_err() {
                return Err(Fail::new("an empty file panics", format!("{p:?}")));
            }
        }
    }
    std::fs::remove_dir(&d).unwrap();
    Ok(())
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    let rng = &mut rng;
    match idx % 8 {
        0..=3 => archive(c, rng, idx),
        4 => pack(c, rng, idx),
        5 => image(c, rng, idx),
        6 if idx % 16 == 6 => odd(c, rng, idx),
        6 => pack(c, rng, idx),
        _ => image(c, rng, idx),
    }
}
