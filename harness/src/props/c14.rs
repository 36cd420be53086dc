//! C14: MS packs.
use crate::img::{self, Cmp, GenCfg, Img};
use crate::ms::{self, Entry, Pack};
use crate::rng::{hash_str, Rng};
use crate::sup::{Ctx, Fail, Prop};
use crate::{crypt, wz};
use std::collections::HashSet;
use std::sync::Arc;
use wz_reader::util::node_util;
use wz_reader::{WzNode, WzNodeArc, WzObjectType};

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        quick: 40000,
        thorough: 1000000,
        case,
        evals: "images_compared",
        distinct: "packs",
        rule: "each case writes one random pack (first kind: Snow2, second kind: ChaCha20), opens it and reads its entries in random order, some repeatedly and directly by path; distinct: (kind, name and salt lengths, table length, entry sizes)",
        need: &["packs_v1", "packs_v2", "entries_listed", "images_compared", "blocks_compared", "reopened_entries", "repeated_entries", "direct_lookups", "empty_packs", "page_boundary_sizes", "word_remainders", "long_salts", "field_ends_with_block"],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

pub fn gen(rng: &mut Rng, max: usize) -> (Pack, Vec<Img>) {
    let v2 = rng.chance(1, 2);
    let n = rng.below(30);
    let mut file: String = (0..n).map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.~ ") as char).collect();
    file.push_str(*rng.pick(&[".ms", ".ms", ".ms", ".MS", "x"]));
    let sum: usize = file.to_ascii_lowercase().bytes().map(|b| b as usize).sum();
    let rl = sum % 312 + 30;
    let sl = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => rng.below(rl.min(255) + 1),
        3 => rl.min(255),
        _ => 4 + rng.below(16),
    };
    let salt: Vec<u8> = (0..sl).map(|_| if rng.chance(9, 10) { 0x20 + rng.below(95) as u8 } else { rng.below(128) as u8 }).collect();
    let n = match rng.below(10) {
        0 => 0,
        1 => 1,
        2 if max > 40 && rng.chance(1, 100) => 255 + rng.below(100),
        2 => 10 + rng.below(max),
        _ => 1 + rng.below(5),
    };
    let mut used = HashSet::new();
    let mut imgs = vec![];
    let mut entries = vec![];
    for _ in 0..n {
        let cfg = GenCfg { max_depth: 3, budget: 6, blobs: 40, canvases: true, uol: false, ..Default::default() };
        let mut i = wz::gen_img(rng, &cfg, crypt::IV_BMS, false);
        if let Img::Lua(t, c) = &i {
            if wz::lua_ambiguous(t, c) {
                i = Img::Pack(vec![1, 2, 3]);
            }
        }
        // sizes around the words of the cipher and the pages
        if rng.chance(1, 3) {
            let want = *rng.pick(&[1usize, 2, 3, 4, 5, 63, 64, 65, 127, 128, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1087, 1088, 1089, 2047, 2048, 2049, 3071, 3072, 3073, 5000]);
            let want = if rng.chance(1, 500) { 65536 + rng.below(9000) } else { want };
            let mut d = rng.bytes(want);
            d[0] = *rng.pick(&[0x73, 0x01, 0x23]);
            i = Img::Txt(d);
        }
        let suffix = match &i {
            Img::Lua(..) => ".lua",
            Img::Txt(_) => ".txt",
            Img::Props(_) | Img::Pack(_) if rng.chance(1, 6) => "",
            _ => ".img",
        };
        let mut name;
        loop {
            name = match rng.below(10) {
                0 if v2 => {
                    let k = rng.below(8);
                    (0..k).map(|_| *rng.pick(&['a', 'é', 'ÿ', '한', '\u{fffd}', '漢', '0', '\u{100}'])).collect::<String>()
                }
                1 => "x".repeat(rng.below(200)),
                2 => String::new(),
                3 => format!("{}/{}", rng.pick(&["Mob", "Npc", "Map/Map1"]), rng.below(10_000_000)),
                _ => {
                    let k = rng.below(20);
                    (0..k).map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-. ") as char).collect::<String>()
                }
            };
            name.push_str(suffix);
            if name.is_empty() {
                // the key is made of the name
                name.push('n');
            }
            if used.insert(name.clone()) {
                break;
            }
        }
        let data = img::encode(rng, &i, crypt::IV_BMS);
        let fields = std::array::from_fn(|_| if rng.chance(1, 3) { rng.below(9) as i32 } else { rng.u32() as i32 });
        let key = rng.bytes(16).try_into().unwrap();
        entries.push(Entry { name, data, start: 0, aligned: 0, fields, key });
        imgs.push(i);
    }
    let mut order: Vec<usize> = (0..n).collect();
    if rng.chance(1, 3) {
        rng.shuffle(&mut order);
    }
    let gaps = (0..n).map(|_| if rng.chance(1, 8) { rng.below(3) } else { 0 }).collect();
    let slack = (0..n).map(|_| if rng.chance(1, 10) { rng.below(3) } else { 0 }).collect();
    (Pack { v2, file, salt, entries, order, gaps, slack }, imgs)
}

fn open(c: &mut Ctx, f: &std::path::Path, d: &str) -> Result<WzNodeArc, Fail> {
    let root = WzNode::from_ms_file(f, None).map_err(|e| format!("pack not opened: {e} ({d})"))?.into_lock();
    c.st.add("packs_opened", 1);
    root.write().unwrap().parse(&root).map_err(|e| format!("pack does not parse: {e} ({d})"))?;
    Ok(root)
}

fn child(root: &WzNodeArc, name: &str) -> Option<WzNodeArc> {
    root.read().unwrap().children.get(name).cloned()
}

fn listing(c: &mut Ctx, root: &WzNodeArc, es: &[Entry], d: &str) -> Result<(), Fail> {
    let r = root.read().unwrap();
    if r.children.len() != es.len() {
        return Err(format!("{} entries, stored {} ({d})", r.children.len(), es.len()).into());
    }
    if cfg!(feature = "f-indexmap") {
        for ((n, _), e) in r.children.iter().zip(es) {
            if n.as_str() != e.name {
                return Err(format!("iteration order has {:?} where {:?} is stored ({d})", n.as_str(), e.name).into());
            }
        }
    }
    for e in es {
        let k = r.children.get(e.name.as_str()).ok_or(Fail::new("a stored entry is missing", format!("entry {:?} is missing ({d})", e.name)))?;
        let k = k.read().unwrap();
        if k.name.as_str() != e.name {
            return Err(Fail::new("an entry has another name", format!("entry {:?} is named {:?} ({d})", e.name, k.name.as_str())));
        }
        match k.parent.upgrade() {
            Some(p) if Arc::ptr_eq(&p, root) => {}
            _ => return Err(Fail::new("parent link of an entry", format!("entry {:?}: parent link does not lead to the pack ({d})", e.name))),
        }
        c.st.add("entries_listed", 1);
        match &k.object_type {
            WzObjectType::MsImage(m) => {
                let x = &m.meta;
                let got = [x.check_sum, x.flags, x.unk1, x.unk2, x.unk3, x.unk4];
                let mut want = e.fields;
                if x.version == 1 {
                    want[4] = 0;
                    want[5] = 0;
                }
                if got != want || x.size as usize != e.data.len() || x.size_aligned as usize != e.aligned || x.entry_key != e.key || x.entry_name != e.name || m.offset != e.start || m.block_size != e.aligned {
                    return Err(Fail::new("an entry differs from the stored one", format!("entry {:?}: read {x:?} at {}, stored {e:?} ({d})", e.name, m.offset)));
                }
            }
            WzObjectType::Image(_) => {}
            _ => return Err(Fail::new("an entry is no image", format!("entry {:?} is no image ({d})", e.name))),
        }
    }
    Ok(())
}

fn content(c: &mut Ctx, n: &WzNodeArc, e: &Entry, i: &Img, d: &str) -> Result<(), Fail> {
    n.write().unwrap().parse(n).map_err(|x| format!("entry of {} bytes does not parse: {x} ({:?}, {d})", e.data.len(), e.name))?;
    let mut cmp = Cmp::new(&mut c.st);
    cmp.payloads = true;
    cmp.image(n, i, &e.name.chars().take(20).collect::<String>()).map_err(|x| Fail::new(format!("content of an entry: {}", x.split(": ").nth(1).unwrap_or("")), format!("{x} ({} bytes, {d})", e.data.len())))?;
    if !n.read().unwrap().children.is_empty() {
        c.st.add("parsed_entries", 1);
    }
    Ok(())
}

/// compared with what its own bytes say under the first kind only for plain names
fn plain(p: &Pack, e: &Entry) -> bool {
    p.v2 || e.name.is_ascii()
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    let (p, imgs) = gen(&mut rng, 60);
    let b = ms::build(&mut rng, &p);
    let dir = c.dir.join(format!("p{idx}"));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join(&p.file);
    std::fs::write(&f, &b.bytes).unwrap();
    let d = format!("kind {}, file {:?}, salt of {}, {} entries, header at {}, table of {}", 1 + p.v2 as u8, p.file, p.salt.len(), p.entries.len(), b.hstart, b.table);
    c.st.add(if p.v2 { "packs_v2" } else { "packs_v1" }, 1);
    c.st.sample(|| d.clone());
    let sizes: Vec<usize> = p.entries.iter().map(|e| e.data.len()).collect();
    c.st.seen("packs", hash_str(&format!("{} {} {} {} {:?}", p.v2, p.file.len(), p.salt.len(), b.table, sizes)));
    c.st.seen("random_lengths", b.rand_len as u64);
    if p.entries.is_empty() {
        c.st.add("empty_packs", 1);
    }
    if p.salt.len() > 127 {
        c.st.add("long_salts", 1);
    }
    for s in &sizes {
        if (s + 1) % 1024 <= 2 {
            c.st.add("page_boundary_sizes", 1);
        }
        if s % 4 != 0 {
            c.st.add("word_remainders", 1);
        }
    }
    if p.v2 {
        let mut o = 0;
        for e in &p.entries {
            o += 4 + e.name.encode_utf16().count() * 2;
            if o % 64 == 0 {
                c.st.add("field_ends_with_block", 1);
            }
            o += 52;
            if o % 64 == 0 {
                c.st.add("field_ends_with_block", 1);
            }
        }
    }
    let root = open(c, &f, &d)?;
    {
        let r = root.read().unwrap();
        if !matches!(r.object_type, WzObjectType::MsFile(_)) {
            return Err("a pack is opened as something else".into());
        }
    }
    listing(c, &root, &b.entries, &d)?;
    // whole blocks, in another order than stored
    let n = p.entries.len();
    let steps = n + rng.below(n + 1);
    let mut seen = HashSet::new();
    for s in 0..steps {
        let k = if s < n && rng.chance(2, 3) { n - 1 - s } else { rng.below(n) };
        let (e, i) = (&b.entries[k], &imgs[k]);
        let node = child(&root, &e.name).ok_or("an entry got lost")?;
        if !seen.insert(k) {
            c.st.add("repeated_entries", 1);
        }
        if !plain(&p, e) {
            continue;
        }
        if let WzObjectType::MsImage(m) = &node.read().unwrap().object_type {
            let w = m.to_wz_image();
            let got = w.reader.get_slice(0..e.data.len());
            if got != &e.data[..] || w.block_size != e.data.len() || w.name.as_str() != e.name {
                let at = got.iter().zip(&e.data).position(|(a, b)| a != b);
                return Err(Fail::new("a decrypted entry differs from the stored bytes", format!("entry {:?} of {} bytes differs at {at:?} ({d})", e.name, e.data.len())));
            }
            c.st.add("blocks_compared", 1);
        }
        match rng.below(6) {
            0 => {
                let mut w = node.write().unwrap();
                w.unparse();
                if !w.children.is_empty() && !matches!(w.object_type, WzObjectType::MsImage(_)) {
                    return Err("children left after unparse".into());
                }
                drop(w);
                content(c, &node, e, i, &d)?;
                c.st.add("reopened_entries", 1);
            }
            1 if !e.name.contains('/') => {
                if let Img::Props(kids) = i {
                    if let Some((kn, kv)) = kids.iter().find(|k| !k.0.contains('/') && !k.0.is_empty() && k.0 != "..") {
                        let path = format!("{}/{}", e.name, kn);
                        let got = node_util::get_node_without_parse(&root, &path).ok_or(Fail::new("a node of an entry is not found by its path", format!("{path:?} is not found ({d})")))?;
                        let mut cmp = Cmp::new(&mut c.st);
                        cmp.links = false;
                        cmp.payloads = true;
                        cmp.node(&got, kn, kv, &path).map_err(|x| Fail::new("a node found by its path differs", format!("{x} ({d})")))?;
                        c.st.add("direct_lookups", 1);
                    }
                }
            }
            _ => content(c, &node, e, i, &d)?,
        }
    }
    listing(c, &root, &b.entries, &d)?;
    if rng.chance(1, 4) {
        root.write().unwrap().unparse();
        if !root.read().unwrap().children.is_empty() {
            return Err("entries left after unparse".into());
        }
        root.write().unwrap().parse(&root).map_err(|e| format!("pack does not parse again: {e} ({d})"))?;
        listing(c, &root, &b.entries, &d)?;
        for k in 0..n {
            if plain(&p, &b.entries[k]) {
                let node = child(&root, &b.entries[k].name).ok_or("an entry got lost")?;
                content(c, &node, &b.entries[k], &imgs[k], &d)?;
            }
        }
    }
    if std::env::var("WZMON_KEEP").is_err() {
        std::fs::remove_file(&f).unwrap();
        let _ = std::fs::remove_dir(&dir);
    }
    Ok(())
}
