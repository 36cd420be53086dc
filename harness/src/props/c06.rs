//! C06: PKG2 archives.
use crate::pkg2::{self, Gen, Pkg2};
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, TreeCfg, TE, T};
use crate::crypt;
use std::sync::{Arc, RwLock};
use wz_reader::util::profile::{get_all_pkg2_profiles, Pkg2Profile, PKG2_PROFILE_CACHE};
use wz_reader::util::string_decryptor::{DecrypterType, EcbDecryptor, Pkg2Decryptor};
use wz_reader::{SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast};

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        quick: 3000,
        thorough: 30000,
        case,
        evals: "archives_opened",
        distinct: "trees",
        rule: "each case writes one random PKG2 archive of one of the seven generations and opens it with the generation data cached, stale or absent; distinct: (generation, tree shape)",
        need: &["very_large_directories", "entries_compared", "images_compared", "gen_1196", "gen_1197", "gen_1198", "gen_1199", "gen_1200", "gen_1201", "gen_1202", "short_first_names", "negative_counts", "cold_searches", "after_search"],
        cpu_case: 400,
        digests: false,
        workers: 8,
    }
}

/// names of first entries have a shape of their own
fn fix_names(rng: &mut Rng, kids: &mut Vec<TE>, g: Gen, root: bool) -> bool {
    let suffix = |n: &str| n.rsplit_once('.').map(|x| format!(".{}", x.1)).filter(|x| x == ".lua" || x == ".txt").unwrap_or_default();
    if let Some(f) = kids.first_mut() {
        let max = if g.wide() { 32768 } else { 128 };
        let s = suffix(&f.name);
        if !g.own_names() && root {
            let n = 8 + rng.below(20);
            f.name = (0..n).map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-. ") as char).collect::<String>() + &s;
        } else if g.own_names() {
            if rng.chance(1, 2) {
                // short and plain, as in the game data
                let n = 1 + rng.below(9);
                f.name = (0..n).map(|_| *rng.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_") as char).collect::<String>() + &s;
            } else if rng.chance(1, 6) {
                let n = if g.wide() { *rng.pick(&[127usize, 128, 129, 255, 256, 1000, 32768]) } else { *rng.pick(&[126usize, 127, 128]) } - s.len();
                f.name = (0..n).map(|_| *rng.pick(b"abcdefghijklmnop") as char).collect::<String>() + &s;
            } else {
                while f.name.encode_utf16().count() > max {
                    f.name = crate::img::gen_text(rng);
                    f.name.push_str(&s);
                }
            }
            if f.name.is_empty() && root {
                f.name = "x".into();
            }
        }
    }
    let mut names = std::collections::HashSet::new();
    if !kids.iter().all(|t| names.insert(t.name.clone())) {
        return false;
    }
    for k in kids.iter_mut() {
        if let T::Dir(d) = &mut k.t {
            if !fix_names(rng, d, g, false) {
                return false;
            }
        }
    }
    true
}

pub fn make(rng: &mut Rng, g: Gen, cfg: &TreeCfg) -> (Pkg2, pkg2::Built) {
    loop {
        let iv = if g.own_names() { crypt::IV_BMS } else { *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]) };
        let mut o = Pkg2 { gen: g, iv, h1: rng.u64(), t: rng.u64(), fstart: *rng.pick(&[16usize, 17, 60, 61, 64, 255, 300]), junk: rng.chance(2, 3) };
        if rng.chance(1, 6) {
            o.h1 = *rng.pick(&[0, 1, 0xffff_ffff, 0xabcd, u64::MAX, 1 << 63]);
        }
        if rng.chance(1, 6) {
            o.t = *rng.pick(&[1, 2, 31, 1234, 0x7fff_ffff, 0xffff_fffe, 1 << 63, u64::MAX >> 1]);
        }
        match g {
            Gen::K1202 => o.fstart = 150,
            Gen::K1201 => {
                o.fstart = 68;
            }
            _ => {}
        }
        if !g.wide() {
            o.h1 &= 0xffff_ffff;
            o.t &= 0xffff_ffff;
        }
        if o.t == 0 {
            continue;
        }
        let mut tree = wz::gen_tree(rng, cfg, iv);
        if !fix_names(rng, &mut tree, g, true) {
            continue;
        }
        let b = pkg2::build(rng, tree, &o);
        if !g.own_names() {
            let order = [crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS];
            if order.iter().take_while(|x| **x != iv).any(|x| wz::ascii_under(&b.first_name, *x)) {
                continue;
            }
        }
        return (o, b);
    }
}

pub fn cached(g: Gen, t: u64) -> Pkg2Profile {
    let p = get_all_pkg2_profiles().into_iter().find(|p| p.name == g.profile()).unwrap();
    Pkg2Profile::new(p, t)
}

fn open(c: &mut Ctx, f: &std::path::Path, o: &Pkg2, b: &pkg2::Built, key: Option<&SharedWzStringDecryptor>, how: &str) -> Result<WzNodeArc, Fail> {
    let d = format!("{:?}, hash {:x}/{:x}, {} root entries, first {:?}", o.gen, o.h1, o.t, b.tree.len(), b.tree.first().map(|x| x.name.chars().take(20).collect::<String>()));
    let root = WzNode::from_wz_file_full(f, None, None, None, key).map_err(|e| format!("{how}: not opened: {e} ({d})"))?.into_lock();
    c.st.add("archives_opened", 1);
    root.write().unwrap().parse(&root).map_err(|e| Fail::new(format!("{how}: {:?} archive does not parse", o.gen), format!("{how}: root does not parse: {e} ({d})")))?;
    wz::compare(&mut c.st, &root, &b.tree, "", true, false).map_err(|e| Fail::from(format!("{how}: {:?}: {e} ({d})", o.gen)))?;
    let h = root.read().unwrap().try_as_file().unwrap().wz_file_meta.hash as u64;
    if h != o.t {
        return Err(Fail::new(format!("{how}: another version hash is selected"), format!("{how}: hash {h:x} ({d})")));
    }
    Ok(root)
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    // the exhaustive searches take seconds each: only a few cases go there
    let cold = if c.thorough { idx % 1000 < 7 } else { idx < 7 };
    let g = pkg2::ALL[(idx % 7) as usize];
    let mut cfg = TreeCfg::default();
    cfg.byref = false;
    if rng.chance(1, 10) {
        cfg.budget = 100;
        cfg.depth = 10;
    }
    if idx >= 7 && idx % 600 < 7 {
        cfg.many = *rng.pick(&[65535usize, 65536, 66000]);
        if rng.chance(1, 2) {
            cfg.root_min = cfg.many;
        }
        c.st.add("very_large_directories", 1);
    }
    let (o, b) = make(&mut rng, g, &cfg);
    let f = c.dir.join(format!("p{idx}.wz"));
    std::fs::write(&f, &b.bytes).unwrap();
    let (d, i) = wz::count(&b.tree);
    c.st.add(&format!("gen_{}", 1196 + idx % 7), 1);
    c.st.add("negative_counts", b.negative_counts as u64);
    if g.own_names() && b.tree.first().map_or(false, |t| t.name.len() <= 7) {
        c.st.add("short_first_names", 1);
    }
    c.st.seen("trees", wz::shape(&b.tree) ^ idx % 7);
    c.st.sample(|| format!("{g:?} fstart {} hash1 {:x} version hash {:x}: {d} directories, {i} images, {} bytes", o.fstart, o.h1, o.t, b.bytes.len()));
    // generation data of other files, some of which satisfies this file's check equation under another generation
    let mut stale = vec![];
    for _ in 0..rng.below(5) {
        let g2 = *rng.pick(&pkg2::ALL);
        let t2 = match rng.below(3) {
            0 => rng.u64() & if g2.wide() { u64::MAX } else { 0xffff_ffff },
            1 => o.t,
            _ => (o.h1 as u32).rotate_left(7) as u64 ^ pkg2::hash2(g.check(), o.h1, o.t),
        };
        // the true hash under a sibling that decodes alike is the true generation
        stale.push(cached(g2, t2));
    }
    rng.shuffle(&mut stale);
    let mut keep = vec![];
    if cold {
        *PKG2_PROFILE_CACHE.write().unwrap() = if rng.chance(1, 2) { vec![] } else { stale.iter().filter(|s| s.hash != o.t).cloned().collect() };
        c.status(idx, "exhaustive hash search");
        keep.push(open(c, &f, &o, &b, None, "no cached data")?);
        c.st.add("cold_searches", 1);
        let (n, last) = {
            let p = PKG2_PROFILE_CACHE.read().unwrap();
            (p.len(), p.last().map(|p| p.hash))
        };
        if n == 0 || last != Some(o.t) {
            return Err("the generation found by search is not remembered".into());
        }
        keep.push(open(c, &f, &o, &b, None, "reopened after the search")?);
        c.st.add("after_search", 1);
    } else {
        let mut v = stale.clone();
        let at = rng.below(v.len() + 1);
        v.insert(at, cached(g, o.t));
        *PKG2_PROFILE_CACHE.write().unwrap() = v;
        keep.push(open(c, &f, &o, &b, None, "cached data")?);
        // fast searches can run without the cache: only where no brute-force generation is tried before
        if g.wide() {
            *PKG2_PROFILE_CACHE.write().unwrap() = stale;
            keep.push(open(c, &f, &o, &b, None, "stale cached data")?);
        }
    }
    // with a key that another file used
    if rng.chance(1, 2) {
        if PKG2_PROFILE_CACHE.read().unwrap().iter().all(|p| p.hash != o.t) {
            PKG2_PROFILE_CACHE.write().unwrap().push(cached(g, o.t));
        }
        let k: SharedWzStringDecryptor = match rng.below(3) {
            0 => Arc::new(RwLock::new(EcbDecryptor::from_iv(o.iv))),
            1 => Arc::new(RwLock::new(Pkg2Decryptor::new_with_key(rng.u64(), DecrypterType::KMST1199))),
            _ => keep[0].read().unwrap().try_as_file().unwrap().reader.pkg2_keys.clone(),
        };
        if !(k.read().unwrap().is_pkg2() && !g.own_names()) {
            keep.push(open(c, &f, &o, &b, Some(&k), "key of another file given")?);
        }
    }
    // a second archive must not disturb the first one: names and contents are looked at again
    if rng.chance(1, 2) {
        let g2 = *rng.pick(&pkg2::ALL);
        let (o2, b2) = make(&mut rng, g2, &TreeCfg { budget: 5, byref: false, ..Default::default() });
        let f2 = c.dir.join(format!("q{idx}.wz"));
        std::fs::write(&f2, &b2.bytes).unwrap();
        *PKG2_PROFILE_CACHE.write().unwrap() = vec![cached(g, o.t), cached(g2, o2.t)];
        let n1 = WzNode::from_wz_file(&f, None).map_err(|e| format!("{e}"))?.into_lock();
        let n2 = WzNode::from_wz_file(&f2, None).map_err(|e| format!("{e}"))?.into_lock();
        for n in if rng.chance(1, 2) { [&n1, &n2] } else { [&n2, &n1] } {
            n.write().unwrap().parse(n).map_err(|e| format!("two archives open: {e}"))?;
        }
        for (n, t) in [(&n1, &b.tree), (&n2, &b2.tree)] {
            wz::compare(&mut c.st, n, t, "", true, false).map_err(|e| format!("two archives open: {e}"))?;
        }
        for n in &keep {
            wz::compare(&mut c.st, n, &b.tree, "", false, false).map_err(|e| format!("after another archive was opened: {e}"))?;
        }
        std::fs::remove_file(&f2).unwrap();
        c.st.add("archives_opened", 2);
    }
    std::fs::remove_file(&f).unwrap();
    Ok(())
}
