//! C01: PKG1 archives.
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, Pkg1, TreeCfg};
use crate::{crypt, img};
use std::sync::{Arc, RwLock};
use wz_reader::util::string_decryptor::EcbDecryptor;
use wz_reader::util::version::WzMapleVersion as V;
use wz_reader::{SharedWzStringDecryptor, WzNode};

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        quick: 8000,
        thorough: 400000,
        case,
        evals: "archives_opened",
        distinct: "trees",
        rule: "each case writes one random PKG1 archive and opens it up to twice (detected and explicit version/cipher); distinct: tree shapes with names and sizes",
        need: &["very_large_directories", "entries_compared", "images_compared", "byref_names", "ignorable_entries", "versionless", "versioned"],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

pub struct Gen {
    pub o: Pkg1,
    pub b: wz::Built,
    pub std_iv: bool,
}

/// A random archive whose cipher can be told from its first name.
pub fn gen(rng: &mut Rng, cfg: &TreeCfg, std_iv: bool) -> Gen {
    gen_with(rng, cfg, std_iv, None)
}
pub fn gen_with(rng: &mut Rng, cfg: &TreeCfg, std_iv: bool, fixed: Option<(i32, bool)>) -> Gen {
    loop {
        let iv = if std_iv {
            *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS])
        } else {
            rng.u32().to_le_bytes()
        };
        let encver = rng.chance(3, 5);
        let version = if encver {
            match rng.below(4) {
                0 => 1 + rng.below(30) as i32,
                1 => *rng.pick(&[1, 9, 10, 99, 100, 770, 999, 1000, 1999, 2000]),
                _ => 1 + rng.below(2000) as i32,
            }
        } else {
            770 + rng.below(11) as i32
        };
        let (version, encver) = fixed.unwrap_or((version, encver));
        let o = Pkg1 {
            fstart: *rng.pick(&[16usize, 17, 18, 31, 60, 61, 64, 100, 255, 300]),
            version,
            encver,
            iv,
            ignorable: rng.chance(1, 3),
            junk: rng.chance(2, 3),
            plain: rng.chance(1, 4),
        };
        let mut tree = wz::gen_tree(rng, cfg, iv);
        if let Some(f) = tree.first_mut() {
            // the detection reads the first name, which is plain ASCII in every archive
            let n = 8 + rng.below(20);
            let mut s: String = (0..n).map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-. ") as char).collect();
            s.push_str(&f.name.rsplit_once('.').map(|x| format!(".{}", x.1)).filter(|x| x == ".lua" || x == ".txt").unwrap_or_default());
            f.name = s;
        }
        let mut names = std::collections::HashSet::new();
        if !tree.iter().all(|t| names.insert(t.name.clone())) {
            continue;
        }
        let b = wz::build_pkg1(rng, tree, &o);
        if b.version_ambiguous() {
            continue;
        }
        if !b.first_name.is_empty() && std_iv {
            let order = [crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS];
            let amb = order.iter().take_while(|x| **x != iv).any(|x| wz::ascii_under(&b.first_name, *x));
            if amb {
                continue;
            }
        }
        return Gen { o, b, std_iv };
    }
}

pub fn version_of(iv: [u8; 4]) -> V {
    match iv {
        crypt::IV_GMS => V::GMS,
        crypt::IV_EMS => V::EMS,
        _ => V::BMS,
    }
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    let mut cfg = TreeCfg::default();
    if rng.chance(1, 10) {
        cfg.budget = 120;
        cfg.depth = 12;
    }
    if rng.chance(1, 12) {
        cfg.root_min = *rng.pick(&[255, 256, 257, 512]);
    }
    if idx % 2000 == 7 {
        cfg.many = if idx == 10007 { 1_000_000 } else { *rng.pick(&[65535usize, 65536, 65537, 70_000]) };
        if rng.chance(1, 2) {
            cfg.root_min = cfg.many;
        }
        c.st.add("very_large_directories", 1);
    }
    let std_iv = !rng.chance(1, 6);
    let g = gen(&mut rng, &cfg, std_iv);
    let f = c.dir.join(format!("a{idx}.wz"));
    std::fs::write(&f, &g.b.bytes).unwrap();
    let (d, i) = wz::count(&g.b.tree);
    c.st.add("byref_names", g.b.byref as u64);
    c.st.add("ignorable_entries", g.b.ignored as u64);
    c.st.add(if g.o.encver { "versioned" } else { "versionless" }, 1);
    c.st.seen("versions", g.o.version as u64);
    c.st.seen("header_lengths", g.o.fstart as u64);
    c.st.seen("trees", wz::shape(&g.b.tree));
    c.st.sample(|| format!("fstart {} version {} encver {} iv {:02x?}: {} directories, {} images, {} bytes", g.o.fstart, g.o.version, g.o.encver, g.o.iv, d, i, g.b.bytes.len()));
    let modes: &[u32] = if std_iv { &[0, 1 + (idx % 3) as u32] } else { &[4] };
    for m in modes {
        let keys: Option<SharedWzStringDecryptor> = if *m == 4 || (*m == 3 && std_iv) {
            Some(Arc::new(RwLock::new(EcbDecryptor::from_iv(g.o.iv))))
        } else {
            None
        };
        let ver = if *m == 1 || *m == 2 { Some(version_of(g.o.iv)) } else { None };
        let pv = if *m == 2 || *m == 4 { Some(g.o.version) } else { None };
        let what = format!("opened with cipher {} version {}", if ver.is_some() || keys.is_some() { "given" } else { "detected" }, if pv.is_some() { "given" } else { "detected" });
        let root = WzNode::from_wz_file_full(&f, ver, pv, None, keys.as_ref()).map_err(|e| format!("{what}: not opened: {e}"))?.into_lock();
        c.st.add("archives_opened", 1);
        root.write().unwrap().parse(&root).map_err(|e| format!("{what}: root does not parse: {e} (version {}, encver {}, {} root entries)", g.o.version, g.o.encver, g.b.tree.len()))?;
        let parse = *m != 1 || rng.chance(1, 3);
        wz::compare(&mut c.st, &root, &g.b.tree, "", parse, false).map_err(|e| format!("{what}: {e}"))?;
        if !g.b.tree.is_empty() {
            let r = root.read().unwrap();
            if let wz_reader::WzObjectType::File(x) = &r.object_type {
                if x.wz_file_meta.hash != g.b.hash as usize {
                    return Err(format!("{what}: version hash {} stored {}", x.wz_file_meta.hash, g.b.hash).into());
                }
            }
        }
    }
    let _ = img::enc_int(0, false);
    std::fs::remove_file(&f).unwrap();
    Ok(())
}
