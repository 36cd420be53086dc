//! C16: malformed input.
use super::c01::{gen_with, version_of};
use crate::img::{self, Cmp, Enc, GenCfg, Img, Kids, V as Val};
use crate::rng::{hash_str, Rng};
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, TreeCfg, T, TE};
use crate::{alloc, canvas, crypt, pkg2};
use std::collections::HashSet;
use std::path::Path;
use std::sync::{Arc, RwLock};
use wz_reader::property::{get_image, resolve_string_from_node, WzSubProperty, WzValue};
use wz_reader::util::profile::PKG2_PROFILE_CACHE;
use wz_reader::util::string_decryptor::{guess_decryptor_from_wz_file, verify_decryptor_from_wz_file, DecrypterType, Decryptor, EcbDecryptor};
use wz_reader::util::version::{guess_iv_from_wz_file, guess_iv_from_wz_img, verify_iv_from_wz_file, verify_iv_from_wz_img, WzMapleVersion};
use wz_reader::util::{node_util, walk_node};
use wz_reader::{SharedWzStringDecryptor, WzDirectory, WzFile, WzHeader, WzNode, WzNodeArc, WzNodeCast, WzObjectType};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        quick: 24000,
        thorough: 1500000,
        case,
        evals: "files_exercised",
        distinct: "outcomes",
        rule: "each damaged file is opened in every way that fits it, parsed, walked, looked up and exported in full; distinct: (kind of file, kind of damage, the error or the shape of the tree it ends in)",
        need: &[
            "img_files", "pkg1_files", "pkg2_files", "ms_files", "damage_cut", "damage_bytes", "damage_moved", "forged_numbers", "opened", "open_refused", "parsed", "parse_refused", "nodes_visited", "payloads_taken",
            "payloads_refused", "isolated_images", "isolated_refused", "deep_nestings", "directory_graphs", "duplicate_names", "header_probes", "exports", "lookups", "forged_dimensions", "short_blocks",
        ],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

/// no file of the workload is larger than some 100 KB, nor expands to more than a few MB
const LIMIT: usize = 48 << 20;
/// a walk over more nodes than this is left alone: links may lead to the same nodes again and again
const WALK: usize = 30_000;

fn errsig(e: &str) -> u64 {
    hash_str(&e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>())
}

fn key(iv: [u8; 4]) -> SharedWzStringDecryptor {
    Arc::new(RwLock::new(EcbDecryptor::from_iv(iv)))
}

struct Ex<'a> {
    c: &'a mut Ctx,
    rng: Rng,
    what: String,
    kind: u64,
}

impl Ex<'_> {
    fn outcome(&mut self, s: u64) {
        let k = self.kind;
        self.c.st.seen("outcomes", k ^ s.wrapping_mul(0x9E3779B97F4A7C15));
    }
    /// every payload, value and name of one node
    fn node(&mut self, n: &WzNodeArc) -> Result<(), Fail> {
        let st = &mut self.c.st;
        st.add("nodes_visited", 1);
        let mut taken = 0;
        let mut refused = 0;
        let mut t = |ok: bool| if ok { taken += 1 } else { refused += 1 };
        {
            let r = n.read().unwrap();
            let _ = (r.get_full_path().len(), r.get_path_from_root().len(), r.get_path_from_image().len());
            let _ = r.name.as_str().len();
            if let Some(s) = r.try_as_string() {
                t(s.get_string().is_ok());
            }
            if let Some(s) = r.try_as_sound() {
                let b = s.get_buffer();
                let mut w = std::io::Cursor::new(vec![]);
                let ok = s.write_to(&mut w).is_ok();
                let _ = (s.get_wav_header().len(), b.len());
                t(ok);
            }
            if let Some(s) = r.try_as_lua() {
                t(s.extract_lua().is_ok());
            }
            if let Some(s) = r.try_as_raw_data() {
                t(s.get_buffer().len() > 0);
            }
            if let Some(s) = r.try_as_video() {
                t(s.get_buffer().len() > 0);
            }
            if let Some(s) = r.try_as_png() {
                t(s.extract_png().is_ok());
            }
            if let WzObjectType::Property(WzSubProperty::Sound(s)) = &r.object_type {
                let f = self.c.dir.join("saved");
                let _ = s.save(f);
            }
            if let WzObjectType::Value(WzValue::RawData(d)) = &r.object_type {
                let _ = d.get_buffer().len();
            }
        }
        let _ = resolve_string_from_node(n);
        let is_png = n.read().unwrap().try_as_png().is_some();
        if is_png || self.rng.chance(1, 6) {
            t(get_image(n).is_ok());
        }
        let st = &mut self.c.st;
        st.add("payloads_taken", taken);
        st.add("payloads_refused", refused);
        Ok(())
    }
    /// parse and visit everything once; the paths of some nodes
    fn visit(&mut self, root: &WzNodeArc) -> Result<(usize, Vec<String>), Fail> {
        let mut seen: HashSet<usize> = HashSet::new();
        let mut stack = vec![(root.clone(), String::new())];
        let mut paths = vec![];
        let mut shape = 0u64;
        while let Some((n, p)) = stack.pop() {
            if !seen.insert(Arc::as_ptr(&n) as usize) {
                continue;
            }
            let was = n.read().unwrap().children.len();
            let r = n.write().unwrap().parse(&n);
            match &r {
                Ok(()) => self.c.st.add("parsed", 1),
                Err(e) => {
                    self.c.st.add("parse_refused", 1);
                    self.outcome(errsig(&e.to_string()));
                    let now = n.read().unwrap().children.len();
                    if now != was {
                        return Err(Fail::new("a failed parse leaves children behind", format!("{}: node {p:?} has {now} children after its parse failed ({e}), {was} before", self.what)));
                    }
                }
            }
            self.node(&n)?;
            if paths.len() < 200 && self.rng.chance(1, 3) {
                paths.push(p.clone());
            }
            let r = n.read().unwrap();
            shape = shape.wrapping_mul(31).wrapping_add(r.children.len() as u64);
            for (k, c) in r.children.iter() {
                stack.push((c.clone(), if p.is_empty() { k.to_string() } else { format!("{p}/{k}") }));
            }
        }
        self.outcome(shape);
        Ok((seen.len(), paths))
    }
    /// how many nodes a plain walk would visit, up to the limit
    fn walk_size(root: &WzNodeArc) -> usize {
        let mut n = 0;
        let mut stack = vec![root.clone()];
        while let Some(x) = stack.pop() {
            n += 1;
            if n > WALK {
                break;
            }
            stack.extend(x.read().unwrap().children.values().cloned());
        }
        n
    }
    fn tree(&mut self, root: &WzNodeArc) -> Result<(), Fail> {
        let first = self.rng.chance(1, 3);
        if first {
            // lookups into the unparsed tree
            let _ = root.read().unwrap().at_path_parsed("0/1/2");
            let _ = node_util::get_node_without_parse(root, "0/1/2");
        }
        let (_, paths) = self.visit(root)?;
        let n = Self::walk_size(root);
        if n <= WALK {
            let count = std::cell::Cell::new(0);
            walk_node(root, self.rng.chance(1, 2), &|_| count.set(count.get() + 1));
            let r = root.read().unwrap();
            let ok = r.to_json().is_ok();
            let ok2 = r.to_simple_json().is_ok();
            if self.rng.chance(1, 4) {
                if let Ok(s) = serde_json::to_string(&*r) {
                    let back: Result<WzNode, _> = serde_json::from_str(&s);
                    self.c.st.add("exports_read_back", back.is_ok() as u64);
                }
            }
            self.c.st.add("exports", ok as u64 + ok2 as u64);
        } else {
            self.c.st.add("walks_left_out", 1);
        }
        for p in &paths {
            let r = root.read().unwrap();
            let _ = r.at_path(p);
            let _ = r.at_path_parsed(p);
            let _ = r.at_path_relative(p);
            drop(r);
            let _ = node_util::get_node_without_parse(root, p);
            let _ = node_util::resolve_outlink(p, root, self.rng.chance(1, 2));
            let _ = node_util::resolve_inlink(p, root);
            self.c.st.add("lookups", 1);
        }
        // close and open again
        let all: Vec<WzNodeArc> = root.read().unwrap().children.values().cloned().collect();
        for n in all {
            if self.rng.chance(1, 2) {
                n.write().unwrap().unparse();
                for p in paths.iter().take(10) {
                    let _ = node_util::get_node_without_parse(root, p);
                    let _ = root.read().unwrap().at_path_parsed(p);
                }
                let _ = n.write().unwrap().parse(&n);
            }
        }
        if self.rng.chance(1, 2) {
            root.write().unwrap().unparse();
            let _ = node_util::parse_node(root);
            walk_limited(root);
        }
        Ok(())
    }
    fn opened(&mut self, r: Result<WzNode, wz_reader::node::Error>, how: &str) -> Result<(), Fail> {
        self.c.st.add("files_exercised", 1);
        match r {
            Ok(n) => {
                self.c.st.add("opened", 1);
                let root = n.into_lock();
                self.outcome(hash_str(how));
                self.tree(&root)
            }
            Err(e) => {
                self.c.st.add("open_refused", 1);
                self.outcome(errsig(&e.to_string()));
                Ok(())
            }
        }
    }
    fn bytes(&mut self, b: &[u8], ivs: &[[u8; 4]]) {
        let _ = WzHeader::get_header_slice(b).len();
        let _ = WzHeader::get_ident(b);
        let _ = WzHeader::get_wz_fsize(b);
        let _ = WzHeader::get_wz_fstart(b);
        if let Ok((h, _)) = WzHeader::read_from_buf(b) {
            let _ = h.get_encrypted_version(b);
        }
        let _ = guess_iv_from_wz_file(b);
        let _ = guess_iv_from_wz_img(b);
        let _ = guess_decryptor_from_wz_file(b);
        for iv in ivs {
            let _ = verify_iv_from_wz_file(b, iv);
            let _ = verify_iv_from_wz_img(b, iv);
            let _ = verify_decryptor_from_wz_file(b, &key(*iv));
        }
        self.c.st.add("header_probes", 1);
    }
    fn img(&mut self, f: &Path, iv: [u8; 4]) -> Result<(), Fail> {
        self.opened(WzNode::from_img_file_with_iv(f, iv, None), "with_iv")?;
        if self.rng.chance(1, 3) {
            self.opened(WzNode::from_img_file(f, None, None), "detected")?;
            self.opened(WzNode::from_img_file(f, Some(version_of(iv)), None), "version")?;
        }
        if self.rng.chance(1, 6) {
            self.opened(WzNode::from_wz_file(f, None), "as archive")?;
            self.opened(WzNode::from_ms_file(f, None), "as pack")?;
        }
        Ok(())
    }
    fn pkg1(&mut self, f: &Path, iv: [u8; 4], version: i32) -> Result<(), Fail> {
        let v = if iv == crypt::IV_GMS || iv == crypt::IV_EMS || iv == [0; 4] { Some(version_of(iv)) } else { None };
        self.opened(WzNode::from_wz_file_full(f, v, Some(version), None, if v.is_none() { Some(key(iv)) } else { None }.as_ref()), "given")?;
        if self.rng.chance(1, 3) {
            self.opened(WzNode::from_wz_file(f, None), "detected")?;
        }
        if self.rng.chance(1, 10) {
            self.opened(WzNode::from_img_file(f, Some(WzMapleVersion::BMS), None), "as image")?;
            self.opened(WzNode::from_ms_file(f, None), "as pack")?;
        }
        // the directory alone, as a user with a known version would read it
        if let Ok(w) = WzFile::from_file(f, Some(iv), Some(version), None) {
            let d = WzDirectory::new(w.offset, w.block_size, &w.reader, false).with_hash(wz::ver_hash(version) as u64);
            self.opened(Ok(WzNode::new(&"dir".into(), d, None)), "directory")?;
        }
        Ok(())
    }
    fn pkg2(&mut self, f: &Path, o: &pkg2::Pkg2) -> Result<(), Fail> {
        *PKG2_PROFILE_CACHE.write().unwrap() = vec![super::c06::cached(o.gen, o.t)];
        if o.gen.wide() {
            self.opened(WzNode::from_wz_file(f, None), "detected")?;
        }
        // with the generation known; opening as a whole would search for another one for minutes
        if let Ok(w) = WzFile::from_file(f, Some(o.iv), None, None) {
            let p = super::c06::cached(o.gen, o.t);
            // keys that were found to fit are shared with other files
            if o.gen.own_names() && !w.wz_file_meta.string_decryptor_verified {
                let (iv, ty) = match p.profile.decryptor_type {
                    DecrypterType::KMST1198 => (0xDEADBEEF, DecrypterType::KMST1198),
                    DecrypterType::KMST1202 => (crypt::kmst1202_key(o.h1, o.t), DecrypterType::KMST1202),
                    t => (crypt::kmst1199_key(o.h1 as u32, o.t as u32) as u64, t),
                };
                w.reader.pkg2_keys.write().unwrap().set_iv(iv, ty);
            }
            let mut d = WzDirectory::new(w.offset, w.block_size, &w.reader, false).with_hash(o.t);
            d.profile = p.profile;
            self.opened(Ok(WzNode::new(&"dir".into(), d, None)), "directory")?;
        }
        Ok(())
    }
    fn ms(&mut self, f: &Path) -> Result<(), Fail> {
        self.opened(WzNode::from_ms_file(f, None), "pack")
    }
}

fn walk_limited(root: &WzNodeArc) {
    if Ex::walk_size(root) <= WALK {
        walk_node(root, true, &|_| ());
    }
}

/// damage without regard to what the bytes mean
pub fn damage(c: &mut Ctx, rng: &mut Rng, b: &mut Vec<u8>) -> u64 {
    let mut kinds = 0u64;
    let focus = if rng.chance(1, 2) { 80.min(b.len()) } else { b.len() };
    for _ in 0..1 + rng.below(3) {
        if b.is_empty() {
            break;
        }
        let at = rng.below(focus.clamp(1, b.len()));
        let k = rng.below(9);
        kinds |= 1 << k;
        match k {
            0 => b.truncate(if rng.chance(1, 3) { at } else { rng.below(b.len()) }),
            1 => b[at] ^= 1 << rng.below(8),
            2 => b[at] = *rng.pick(&[0, 1, 0x7f, 0x80, 0x81, 0xff, 0x73, 0x1b, 9, 8, 2, 3, 4]),
            3 => {
                let v = rng.i32x().to_le_bytes();
                for (i, x) in v.iter().enumerate().take(b.len() - at) {
                    b[at + i] = *x;
                }
            }
            4 => {
                let mut v = vec![0x80u8];
                v.extend(rng.i32x().to_le_bytes());
                for (i, x) in v.iter().enumerate().take(b.len() - at) {
                    b[at + i] = *x;
                }
            }
            5 => {
                let n = (1 + rng.below(20)).min(b.len() - at);
                b.drain(at..at + n);
            }
            6 => {
                let n = 1 + rng.below(20);
                let ins = if rng.chance(1, 2) { rng.bytes(n) } else { vec![*rng.pick(&[0, 0xff, 0x80]); n] };
                b.splice(at..at, ins);
            }
            7 => {
                let n = (1 + rng.below(60)).min(b.len() - at);
                let part = b[at..at + n].to_vec();
                let to = rng.below(b.len() + 1);
                b.splice(to..to, part);
            }
            _ => {
                let n = (1 + rng.below(40)).min(b.len() - at);
                let fill = rng.bytes(n);
                b[at..at + n].copy_from_slice(&fill);
            }
        }
    }
    c.st.add("damage_cut", kinds & 1);
    c.st.add("damage_bytes", (kinds & 0x11e != 0) as u64);
    c.st.add("damage_moved", (kinds & 0xe0 != 0) as u64);
    kinds
}

/// canvases whose size, format or data do not fit together; some with links instead
fn forge_canvases(c: &mut Ctx, rng: &mut Rng, kids: &mut Kids) {
    for (_, v) in kids.iter_mut() {
        if let Val::Canvas(m, k) = v {
            if rng.chance(1, 2) {
                c.st.add("forged_dimensions", 1);
                match rng.below(6) {
                    0 => m.w = rng.below(40) as u32,
                    1 => m.h = rng.below(40) as u32,
                    2 => {
                        m.w = *rng.pick(&[0, 1, 3, 15, 17, 4096, 65535, 0x7fff_ffff, 0xffff_ffff, 0x8000_0000, 0x10000]);
                        if rng.chance(1, 2) {
                            m.h = *rng.pick(&[0, 1, 3, 65535, 0x10000, 0xffff_ffff]);
                        }
                    }
                    3 => m.format1 = *rng.pick(canvas::FORMATS) as i32,
                    4 => m.scale = rng.u8() as i8,
                    _ => {
                        let n = rng.below(m.stored.len() + 1);
                        m.stored.truncate(n);
                    }
                }
            }
            if let Some(k) = k {
                forge_canvases(c, rng, k);
            }
        } else if let Val::Prop(k) = v {
            forge_canvases(c, rng, k);
        }
    }
}

/// several entries of one name, some with links below them
fn forge_names(c: &mut Ctx, rng: &mut Rng, kids: &mut Kids) {
    if kids.len() >= 2 {
        c.st.add("duplicate_names", 1);
        let n = rng.pick(kids).0.clone();
        for k in kids.iter_mut() {
            if rng.chance(1, 2) {
                k.0 = n.clone();
            }
            if let Val::Prop(s) = &mut k.1 {
                if rng.chance(1, 2) {
                    s.push(("l".into(), Val::Uol(rng.pick(&["../x", "..", "../..", ".", "", "/", "x", "../../../../..", "//", "../l"]).to_string())));
                }
            }
        }
        if rng.chance(1, 2) {
            let n = rng.pick(&["", "/", "..", ".", "_inlink", "_outlink", "a/b"]).to_string();
            let v = if rng.chance(1, 2) { Val::Str(rng.pick(&["..", "x", "/", "", "_inlink", "../.."]).to_string()) } else { Val::Null };
            kids.push((n, v));
        }
    }
    for k in kids.iter_mut() {
        if let Val::Prop(s) = &mut k.1 {
            if rng.chance(1, 3) {
                forge_names(c, rng, s);
            }
        }
    }
}

fn rate(rng: &mut Rng) -> u32 {
    *rng.pick(&[8, 15, 30, 60, 120, 300])
}

fn image_case(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let iv = if rng.chance(1, 4) { rng.u32().to_le_bytes() } else { *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]) };
    let cfg = GenCfg { budget: *rng.pick(&[4, 20, 60]), ..Default::default() };
    let mut im = wz::gen_img(rng, &cfg, iv, false);
    let mut kind = 0;
    if let Img::Props(k) = &mut im {
        if rng.chance(1, 4) {
            forge_canvases(c, rng, k);
            kind |= 0x1000;
        }
        if rng.chance(1, 6) {
            forge_names(c, rng, k);
            kind |= 0x2000;
        }
    }
    let forged = rng.chance(1, 2);
    if forged {
        img::evil_on(rate(rng), rng.u64());
    }
    let mut b = img::encode(rng, &im, iv);
    let n = img::evil_off();
    c.st.add("forged_numbers", n);
    if forged {
        kind |= 0x4000;
    }
    if !forged || rng.chance(1, 3) {
        kind |= damage(c, rng, &mut b);
    }
    let name = match &im {
        Img::Lua(..) => format!("i{idx}.lua"),
        Img::Txt(_) => format!("i{idx}.txt"),
        _ => format!("i{idx}.img"),
    };
    let f = c.dir.join(name);
    std::fs::write(&f, &b).unwrap();
    c.st.add("img_files", 1);
    c.st.sample(|| format!("image of {} bytes, damage {kind:x}, {n} numbers forged", b.len()));
    let mut e = Ex { rng: rng.clone(), what: format!("image file, damage {kind:x}"), kind: 1 << 32 | kind, c };
    e.bytes(&b, &[iv]);
    e.img(&f, iv)?;
    std::fs::remove_file(&f).unwrap();
    Ok(())
}

fn pkg1_case(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let mut cfg = TreeCfg::default();
    cfg.budget = *rng.pick(&[3, 8, 25]);
    let forged = rng.chance(1, 2);
    let encver = rng.chance(1, 2);
    let v = if encver { 1 + rng.below(2000) as i32 } else { 770 + rng.below(11) as i32 };
    let std_iv = rng.chance(1, 2);
    let g = gen_with(rng, &cfg, std_iv, Some((v, encver)));
    let mut b = g.b.bytes;
    let mut kind = 0;
    let mut n = 0;
    if forged {
        // the same tree again, with forged numbers
        let r = rate(rng);
        img::evil_on(r, rng.u64());
        b = wz::build_pkg1(rng, g.b.tree, &g.o).bytes;
        n = img::evil_off();
        c.st.add("forged_numbers", n);
        kind |= 0x4000;
    }
    if !forged || rng.chance(1, 3) {
        kind |= damage(c, rng, &mut b);
    }
    let f = c.dir.join(format!("p{idx}.wz"));
    std::fs::write(&f, &b).unwrap();
    c.st.add("pkg1_files", 1);
    c.st.sample(|| format!("archive of {} bytes, version {v}, damage {kind:x}, {n} numbers forged", b.len()));
    let iv = g.o.iv;
    let mut e = Ex { rng: rng.clone(), what: format!("archive, damage {kind:x}"), kind: 2 << 32 | kind, c };
    e.bytes(&b, &[iv]);
    e.pkg1(&f, iv, v)?;
    std::fs::remove_file(&f).unwrap();
    Ok(())
}

fn pkg2_case(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let g = if rng.chance(1, 3) { pkg2::Gen::K1202 } else { *rng.pick(&pkg2::ALL) };
    let cfg = TreeCfg { byref: false, budget: *rng.pick(&[3, 8, 25]), ..Default::default() };
    let (o, built) = super::c06::make(rng, g, &cfg);
    let mut b = built.bytes;
    let forged = rng.chance(1, 2);
    let mut kind = 0;
    if forged {
        let r = rate(rng);
        img::evil_on(r, rng.u64());
        b = pkg2::build(rng, built.tree, &o).bytes;
        let n = img::evil_off();
        c.st.add("forged_numbers", n);
        kind |= 0x4000;
    }
    if !forged || rng.chance(1, 3) {
        kind |= damage(c, rng, &mut b);
    }
    let f = c.dir.join(format!("q{idx}.wz"));
    std::fs::write(&f, &b).unwrap();
    c.st.add("pkg2_files", 1);
    let mut e = Ex { rng: rng.clone(), what: format!("{g:?} archive, damage {kind:x}"), kind: 3 << 32 | (g as u64) << 20 | kind, c };
    e.bytes(&b, &[o.iv]);
    e.pkg2(&f, &o)?;
    std::fs::remove_file(&f).unwrap();
    Ok(())
}

fn ms_case(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let (p, _) = super::c14::gen(rng, 12);
    let forged = rng.chance(1, 2);
    let mut kind = p.v2 as u64 * 0x8000;
    if forged {
        img::evil_on(rate(rng), rng.u64());
        kind |= 0x4000;
    }
    let mut b = crate::ms::build(rng, &p).bytes;
    let n = img::evil_off();
    c.st.add("forged_numbers", n);
    if !forged || rng.chance(1, 3) {
        kind |= damage(c, rng, &mut b);
    }
    let dir = c.dir.join(format!("m{idx}"));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join(&p.file);
    std::fs::write(&f, &b).unwrap();
    c.st.add("ms_files", 1);
    let mut e = Ex { rng: rng.clone(), what: format!("pack, damage {kind:x}"), kind: 4 << 32 | kind, c };
    e.bytes(&b, &[]);
    e.ms(&f)?;
    std::fs::remove_dir_all(&dir).unwrap();
    Ok(())
}

/// Damage inside the blocks of some images of an archive must not show anywhere else.
fn isolation(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let mut cfg = TreeCfg { root_min: 2, budget: 12, ..Default::default() };
    cfg.img.budget = 12;
    let encver = rng.chance(1, 2);
    let v = if encver { 1 + rng.below(2000) as i32 } else { 770 + rng.below(11) as i32 };
    let g = gen_with(rng, &cfg, true, Some((v, encver)));
    let mut b = g.b.bytes.clone();
    fn images<'a>(t: &'a [TE], p: &str, out: &mut Vec<(String, &'a TE, &'a Img)>) {
        for e in t {
            let q = if p.is_empty() { e.name.clone() } else { format!("{p}/{}", e.name) };
            match &e.t {
                T::Dir(k) => images(k, &q, out),
                T::Img(i, _) => out.push((q, e, i)),
            }
        }
    }
    let mut all = vec![];
    images(&g.b.tree, "", &mut all);
    let mut hurt = HashSet::new();
    for (p, e, _) in &all {
        if e.size > 2 && rng.chance(1, 3) {
            hurt.insert(p.clone());
            for _ in 0..1 + rng.below(4) {
                let at = e.off + 1 + rng.below(e.size - 1);
                b[at] = if rng.chance(1, 2) { rng.u8() } else { *rng.pick(&[0, 0x7f, 0x80, 0xff]) };
            }
        }
    }
    let f = c.dir.join(format!("s{idx}.wz"));
    std::fs::write(&f, &b).unwrap();
    let d = format!("{} images, {} damaged", all.len(), hurt.len());
    let root = WzNode::from_wz_file(&f, None).map_err(|e| Fail::new("an archive with damaged images does not open", format!("{e} ({d})")))?.into_lock();
    node_util::parse_node(&root).map_err(|e| Fail::new("an archive with damaged images does not parse", format!("{e} ({d})")))?;
    wz::compare(&mut c.st, &root, &g.b.tree, "", false, false).map_err(|e| Fail::from(format!("archive with damaged images: {e} ({d})")))?;
    let mut order: Vec<usize> = (0..all.len()).collect();
    rng.shuffle(&mut order);
    for round in 0..2 {
        for &i in &order {
            let (p, _, im) = &all[i];
            let mut n = root.clone();
            // names of the entries may hold any character, so go down one by one
            for part in path_of(&g.b.tree, p) {
                let k = n.read().unwrap().children.get(part.as_str()).cloned();
                n = k.ok_or_else(|| Fail::new("an entry is gone after another image failed", format!("{p} ({d})")))?;
            }
            let r = n.write().unwrap().parse(&n);
            if hurt.contains(p) {
                if let Err(e) = r {
                    c.st.add("isolated_refused", 1);
                    let (kids, parsed) = {
                        let r = n.read().unwrap();
                        (r.children.len(), r.try_as_image().map(|i| i.is_parsed))
                    };
                    if kids != 0 || parsed != Some(false) {
                        return Err(Fail::new("a failed image is left half parsed", format!("{p}: {kids} children, is_parsed {parsed:?} after {e} ({d})")));
                    }
                }
            } else {
                r.map_err(|e| Fail::new("an intact image fails next to damaged ones", format!("{p}: {e} ({d})")))?;
                let mut cmp = Cmp::new(&mut c.st);
                cmp.payloads = true;
                cmp.image(&n, im, p)?;
                c.st.add("isolated_images", 1);
            }
        }
        if round == 0 {
            let size = Ex::walk_size(&root);
            if size <= WALK {
                walk_node(&root, true, &|_| ());
            }
        }
    }
    std::fs::remove_file(&f).unwrap();
    c.st.add("files_exercised", 1);
    Ok(())
}
fn path_of(t: &[TE], p: &str) -> Vec<String> {
    for e in t {
        if e.name == p {
            return vec![e.name.clone()];
        }
        if let (Some(rest), T::Dir(k)) = (p.strip_prefix(&format!("{}/", e.name)), &e.t) {
            let r = path_of(k, rest);
            if !r.is_empty() {
                let mut v = vec![e.name.clone()];
                v.extend(r);
                return v;
            }
        }
    }
    vec![]
}

/// blocks inside blocks, far deeper than any stack
fn deep(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let n = *rng.pick(&[60usize, 99, 100, 101, 102, 150, 1000, 20_000, 60_000]);
    let mut b = vec![0x73u8];
    b.extend(img::enc_str("Property", iv, false, false));
    b.extend([0, 0]);
    // one entry whose block holds one entry whose block ...: the sizes are forged unless the depth is small
    let which = rng.below(5);
    let mut parts: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let mut p = vec![1u8]; // one entry
        if which == 2 && i > 0 {
            // convexes have no names
            p.extend([0x73]);
            p.extend(img::enc_str("Shape2D#Convex2D", iv, false, false));
            parts.push(p);
            continue;
        }
        p.push(0);
        p.extend(img::enc_str("a", iv, false, false));
        p.push(9);
        p.extend(0u32.to_le_bytes());
        p.push(0x73);
        let kind = if which == 4 { rng.below(4) } else { which };
        match kind {
            1 => {
                p.extend(img::enc_str("Canvas", iv, false, false));
                p.extend([0, 1, 0, 0]);
            }
            2 => p.extend(img::enc_str("Shape2D#Convex2D", iv, false, false)),
            3 => {
                p.extend(img::enc_str("RawData", iv, false, false));
                p.extend([1, 1, 0, 0]);
            }
            _ => {
                p.extend(img::enc_str("Property", iv, false, false));
                p.extend([0, 0]);
            }
        }
        parts.push(p);
        if which == 4 && kind == 2 {
            // what follows a convex has no name: end the chain
            break;
        }
    }
    // sizes from the inside out
    let mut rest = 1usize; // the final count 0
    let tail = vec![0u8];
    for p in parts.iter_mut().rev() {
        if let Some(at) = p.windows(6).position(|w| w[0] == 9 && w[1..5] == [0; 4] && w[5] == 0x73) {
            let inner = p.len() - at - 5 + rest;
            p[at + 1..at + 5].copy_from_slice(&(inner as u32).to_le_bytes());
        }
        rest += p.len();
    }
    for p in &parts {
        b.extend(p);
    }
    b.extend(tail);
    let f = c.dir.join(format!("d{idx}.img"));
    std::fs::write(&f, &b).unwrap();
    c.st.add("deep_nestings", 1);
    c.status(idx, "blocks inside blocks");
    small_stack(c, move |e| e.opened(WzNode::from_img_file_with_iv(&f, iv, None), "deep"), 5 << 32 | (which as u64) << 8, rng)
}

/// every node's link leads to the next node, so the tree the links make is as deep as there are nodes
fn link_chain(c: &mut Ctx, idx: u64, n: usize) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    let kids: Kids = (0..n)
        .map(|i| {
            let v = if i + 1 < n { Val::Prop(vec![("x".into(), Val::Uol(format!("../n{}", i + 1)))]) } else { Val::Int(1) };
            (format!("n{i}"), v)
        })
        .collect();
    let b = img::encode(&mut rng, &Img::Props(kids), crypt::IV_BMS);
    let f = c.dir.join(format!("l{idx}.img"));
    std::fs::write(&f, &b).unwrap();
    c.st.add("link_chains", 1);
    c.status(idx, &format!("{} links each leading to the node with the next", if n > 1000 { "thousands of" } else { "some" }));
    small_stack(
        c,
        move |e| {
            let n = WzNode::from_img_file_with_iv(&f, crypt::IV_BMS, None).unwrap().into_lock();
            e.visit(&n)?;
            let first = n.read().unwrap().at("n0").unwrap();
            let k = std::cell::Cell::new(0u64);
            walk_node(&first, false, &|_| k.set(k.get() + 1));
            e.c.st.add("nodes_walked", k.get());
            let r = first.read().unwrap();
            e.c.st.add("exports", r.to_simple_json().is_ok() as u64);
            drop(r);
            drop(first);
            drop(n);
            Ok(())
        },
        8 << 32,
        &rng,
    )
}

/// the usual stack of a thread, not the main one's
fn small_stack(c: &mut Ctx, f: impl FnOnce(&mut Ex) -> Result<(), Fail> + Send, kind: u64, rng: &Rng) -> Result<(), Fail> {
    let rng = rng.clone();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || {
                crate::guard(|| {
                    let mut e = Ex { rng, what: "deeply nested file".into(), kind, c };
                    f(&mut e)
                })
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

/// directories that lead to themselves, to each other, or twice to the same place
fn directories(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let version = 83;
    let hash = wz::ver_hash(version);
    let fstart = 60usize;
    let most = *rng.pick(&[2usize, 8, 60, 3000]);
    let n = 1 + rng.below(most);
    let fan = if n > 100 { 1 } else { 1 + rng.below(4) };
    let mut b = b"PKG1".to_vec();
    b.extend([0; 8]);
    b.extend((fstart as u32).to_le_bytes());
    b.resize(fstart, 0);
    b.extend(wz::ver_enc(hash).to_le_bytes());
    let mut at = vec![];
    let mut holes = vec![];
    let shape = rng.below(4);
    for i in 0..n {
        at.push(b.len());
        let last = i + 1 == n;
        let k = if shape == 3 && last { 0 } else { fan };
        b.push(k as u8);
        for j in 0..k {
            b.push(3);
            b.extend(img::enc_str(&format!("directory{j}"), iv, false, false));
            b.push(1);
            b.push(0);
            let to = match shape {
                0 => rng.below(n),
                1 => 0,
                2 => (i + 1) % n,
                _ => (i + 1).min(n - 1),
            };
            holes.push((b.len(), to));
            b.extend([0; 4]);
        }
    }
    for (p, to) in holes {
        let v = wz::pkg1_enc(p, fstart, hash, at[to]);
        b[p..p + 4].copy_from_slice(&v.to_le_bytes());
    }
    b.extend(rng.bytes(20));
    let f = c.dir.join(format!("g{idx}.wz"));
    std::fs::write(&f, &b).unwrap();
    c.st.add("directory_graphs", 1);
    c.status(idx, "directories leading to each other");
    small_stack(c, move |e| e.pkg1(&f, iv, version), 6 << 32 | (shape as u64) << 8, rng)
}

/// Entries whose blocks are shorter than what they hold: going back to their end would read the rest again, twice
/// as often on every level.
fn reread(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let n = *rng.pick(&[20usize, 30, 60, 95]);
    let k = 2 + rng.below(2) as i32;
    let which = rng.below(4);
    let mut b = vec![0x73u8];
    b.extend(img::enc_str("Property", iv, false, false));
    b.extend([0, 0]);
    b.extend(img::enc_int(k, false));
    for i in 0..n {
        b.push(0);
        b.extend(img::enc_str(&format!("{}", rng.below(1000)), iv, false, false));
        b.push(9);
        let mut head = vec![0x73u8];
        match which {
            0 | 3 => {
                head.extend(img::enc_str("Property", iv, false, false));
                head.extend([0, 0]);
            }
            1 => {
                head.extend(img::enc_str("Canvas", iv, false, false));
                head.extend([0, 1, 0, 0]);
            }
            _ => {
                head.extend(img::enc_str("RawData", iv, false, false));
                head.extend([1, 1, 0, 0]);
            }
        }
        head.extend(img::enc_int(k, false));
        // the end of the block is where the first entry of the inner list begins
        let size = if which == 3 { *rng.pick(&[0, head.len() as u32, 1, head.len() as u32 - 1]) } else { head.len() as u32 };
        b.extend(size.to_le_bytes());
        b.extend(head);
        if i + 1 == n {
            for j in 0..k {
                b.push(0);
                b.extend(img::enc_str(&format!("z{j}"), iv, false, false));
                b.push(0);
            }
        }
    }
    // what an entry that starts anywhere may run into
    for j in 0..200 {
        b.push(0);
        b.extend(img::enc_str(&format!("y{j}"), iv, false, false));
        b.push(0);
    }
    let f = c.dir.join(format!("r{idx}.img"));
    std::fs::write(&f, &b).unwrap();
    c.st.add("short_blocks", 1);
    c.status(idx, "blocks shorter than what they hold");
    let mut e = Ex { rng: rng.clone(), what: "image with short blocks".into(), kind: 8 << 32 | which as u64, c };
    e.img(&f, iv)?;
    std::fs::remove_file(&f).unwrap();
    Ok(())
}

/// many canvases, none of which fits its data
fn canvases(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    const BIG: [u32; 12] = [0, 1, 2, 3, 4, 8, 1 << 12, 65535, 1 << 20, 1 << 26, 0x7fff_ffff, 0xffff_ffff];
    let mut kids: Kids = (0..1 + rng.below(6))
        .map(|i| {
            let f = *rng.pick(canvas::FORMATS);
            let (w, h) = canvas::gen_size(rng, f, 40);
            let mut m = canvas::gen(rng, iv, f, w, h);
            if rng.chance(1, 2) {
                let one = if rng.chance(1, 2) { *rng.pick(&BIG) } else { rng.below(70) as u32 };
                match rng.below(4) {
                    0 => m.w = one,
                    1 => m.h = one,
                    _ => {
                        m.w = *rng.pick(&BIG);
                        m.h = rng.below(20) as u32;
                        if rng.chance(1, 2) {
                            std::mem::swap(&mut m.w, &mut m.h);
                        }
                    }
                }
                c.st.add("forged_dimensions", 1);
            }
            (format!("{i}"), Val::Canvas(m, None))
        })
        .collect();
    if rng.chance(1, 2) {
        forge_canvases(c, rng, &mut kids);
    }
    for (_, v) in kids.iter_mut() {
        // damaged streams
        if let Val::Canvas(m, _) = v {
            if rng.chance(1, 4) {
                damage(c, rng, &mut m.stored);
            }
        }
    }
    if rng.chance(1, 40) {
        // chunks far beyond the part of the key other canvases have made, one longer than the other
        for (i, n) in [0xFFF0 + rng.below(40), 66_000 + rng.below(9000), 131_072 + rng.below(20)].into_iter().enumerate() {
            let mut m = canvas::gen(rng, iv, 2, 4, 4);
            m.stored = (n as i32).to_le_bytes().to_vec();
            m.stored.extend(rng.bytes(n));
            kids.push((format!("long{i}"), Val::Canvas(m, None)));
            c.st.add("long_chunks", 1);
        }
    }
    let b = img::encode(rng, &Img::Props(kids), iv);
    let f = c.dir.join(format!("c{idx}.img"));
    std::fs::write(&f, &b).unwrap();
    c.st.add("img_files", 1);
    let mut e = Ex { rng: rng.clone(), what: "image with forged canvases".into(), kind: 9 << 32, c };
    e.img(&f, iv)?;
    std::fs::remove_file(&f).unwrap();
    Ok(())
}

/// hand-made oddities
fn odd(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let b: Vec<u8> = match rng.below(8) {
        7 => {
            // a sound header, and a directory that claims many more entries than there are
            let mut v = b"PKG1".to_vec();
            v.extend(100u64.to_le_bytes());
            v.extend(60u32.to_le_bytes());
            v.resize(60, 0);
            v.extend(wz::ver_enc(wz::ver_hash(83)).to_le_bytes());
            v.extend(img::enc_int(*rng.pick(&[1_000_000, 999_999, 900_000, 1_000_001, i32::MAX, -1]), true));
            let n = rng.below(60);
            for _ in 0..rng.below(3) {
                v.push(*rng.pick(&[1, 3, 4]));
            }
            v.extend(rng.bytes(n));
            v
        }
        0 => vec![],
        1 => {
            let n = rng.below(70);
            rng.bytes(n)
        }
        2 => {
            let mut v = b"PKG1".to_vec();
            let n = rng.below(70);
            v.extend(rng.bytes(n));
            v
        }
        3 => {
            let mut v = b"PKG1".to_vec();
            v.extend([0; 8]);
            v.extend((*rng.pick(&[0u32, 1, 12, 16, 60, 0xffff_ffff, 0x7fff_ffff, 62])).to_le_bytes());
            let n = rng.below(90);
            v.extend(rng.bytes(n));
            v
        }
        4 => {
            // a list that claims many entries in a small block, each re-read from the start
            let mut v = vec![0x73u8];
            v.extend(img::enc_str("Property", iv, false, false));
            v.extend([0, 0]);
            v.extend(img::enc_int(*rng.pick(&[100_000, i32::MAX, 1 << 20, -5, 3000]), true));
            let mut e = Enc::new(rng, iv);
            e.entry("x", &Val::Null);
            let one = e.b.clone();
            for _ in 0..rng.below(3000) {
                v.extend(&one);
            }
            v
        }
        5 => {
            let mut v = vec![*rng.pick(&[1u8, 0x23, 0x73])];
            if v[0] == 0x23 {
                v = b"#Property"[..rng.below(10)].to_vec();
            }
            let n = rng.below(40);
            v.extend(img::enc_int(rng.i32x(), rng.chance(1, 2)));
            v.extend(rng.bytes(n));
            v
        }
        _ => {
            let g = rng.below(200);
            rng.bytes(68 + g)
        }
    };
    let name = *rng.pick(&["x.img", "x.lua", "x.txt", "x.wz", "x.ms", "x"]);
    let dir = c.dir.join(format!("o{idx}"));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join(name);
    std::fs::write(&f, &b).unwrap();
    let mut e = Ex { rng: rng.clone(), what: format!("odd file of {} bytes", b.len()), kind: 7 << 32, c };
    e.bytes(&b, &[iv]);
    // a file that passes as a second-generation archive would be searched for minutes
    if WzHeader::read_from_buf(&b).map_or(true, |h| format!("{:?}", h.0.ident) != "V2") {
        e.pkg1(&f, iv, 83)?;
    }
    e.img(&f, iv)?;
    e.ms(&f)?;
    std::fs::remove_dir_all(&dir).unwrap();
    Ok(())
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    alloc::set_limit(alloc::live() + LIMIT);
    let mut rng = c.rng(idx);
    let rng = &mut rng;
    alloc::peak_reset();
    let live = alloc::live();
    let r = one(c, rng, idx);
    let p = alloc::peak().saturating_sub(live);
    c.st.max("memory_of_one_case", p as u64);
    r
}

fn one(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    // first of all, so that little is lost when the worker ends in it
    if idx == 0 {
        return link_chain(c, idx, 40_000);
    }
    if idx % 997 == 5 {
        let n = 2 + rng.below(400);
        return link_chain(c, idx, n);
    }
    match idx % 23 {
        20 => reread(c, rng, idx),
        21 | 22 => canvases(c, rng, idx),
        0..=6 => image_case(c, rng, idx),
        7..=10 => pkg1_case(c, rng, idx),
        11 | 12 => pkg2_case(c, rng, idx),
        13 | 14 => ms_case(c, rng, idx),
        15 | 16 => isolation(c, rng, idx),
        17 if idx % 2 == 1 => deep(c, rng, idx),
        17 | 18 => directories(c, rng, idx),
        _ => odd(c, rng, idx),
    }
}
