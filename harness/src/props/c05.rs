//! C05: version and cipher detection.
use super::c01::{gen_with, version_of};
use crate::img::{self, Cmp, GenCfg, Img};
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, TreeCfg};
use crate::crypt;
use std::sync::{Arc, RwLock};
use wz_reader::util::string_decryptor::{guess_decryptor_from_wz_file, verify_decryptor_from_wz_file, EcbDecryptor};
use wz_reader::util::version::{guess_iv_from_wz_file, guess_iv_from_wz_img, verify_iv_from_wz_file, verify_iv_from_wz_img, WzMapleVersion as V};
use wz_reader::{SharedWzStringDecryptor, WzNode, WzNodeArc, WzNodeCast, WzObjectType, WzReader};

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        quick: 4022,
        thorough: 300000,
        case,
        evals: "openings_judged",
        distinct: "version_forms",
        rule: "each opening (parameters absent, right or wrong) of an archive or image is judged; distinct: (patch version, stored or implicit) pairs, of which 2011 exist in the detection range",
        need: &["large_roots_without_version", "detected", "explicit_right", "explicit_wrong_rejected", "images_detected", "image_wrong_rejected", "interleaved", "colliding_versions", "wrong_cipher_recovered", "out_of_range_versions"],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

fn key(iv: [u8; 4]) -> SharedWzStringDecryptor {
    Arc::new(RwLock::new(EcbDecryptor::from_iv(iv)))
}
const STD: [[u8; 4]; 3] = [crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS];

fn meta(n: &WzNodeArc) -> (i32, usize, bool, usize) {
    let r = n.read().unwrap();
    let f = r.try_as_file().unwrap();
    (f.wz_file_meta.patch_version, f.wz_file_meta.hash, f.is_parsed, r.children.len())
}

fn wrong_versions(rng: &mut Rng, v: i32, encver: bool, st: &mut crate::stats::Stats) -> Vec<i32> {
    let mut w = vec![v + 1, (v - 1).max(0), 1 + rng.below(2000) as i32, *rng.pick(&[0, 2001, 9999, i32::MAX, 113, 770, 771, 780, 95])];
    if encver {
        // versions that share the stored check value
        let e = wz::ver_enc(wz::ver_hash(v));
        let c: Vec<i32> = (1..3000).filter(|x| *x != v && wz::ver_enc(wz::ver_hash(*x)) == e).collect();
        if !c.is_empty() {
            w.push(*rng.pick(&c));
            w.push(*rng.pick(&c));
            st.add("colliding_versions", 2);
        }
        w.push(e as i32);
    }
    w.retain(|x| *x != v && *x != -1);
    w
}

fn archive(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let k = idx % 2011;
    let mut fixed = if k < 2000 { (1 + k as i32, true) } else { (770 + (k - 2000) as i32, false) };
    let mut in_range = true;
    if idx >= 2011 && rng.chance(1, 6) {
        // outside what detection covers: only an explicit version opens these
        fixed = (if rng.chance(1, 2) { 2001 + rng.below(8000) as i32 } else { 1 + rng.below(769) as i32 }, rng.chance(1, 2));
        in_range = fixed.1 && fixed.0 <= 2000;
        if !fixed.1 && fixed.0 == 113 {
            fixed.0 = 114;
        }
        if !in_range {
            c.st.add("out_of_range_versions", 1);
        }
    }
    let mut cfg = TreeCfg::default();
    cfg.root_min = 1;
    cfg.budget = *rng.pick(&[2, 4, 12]);
    if idx >= 2011 && idx % 100 == 50 {
        // implicit versions beside entry counts that could be taken for a version field
        fixed = (770 + rng.below(11) as i32, false);
        in_range = true;
        cfg.many = 256 * (1 + rng.below(if idx % 500 == 50 { 255 } else { 40 })) + rng.chance(1, 8) as usize;
        cfg.root_min = cfg.many;
        c.st.add("large_roots_without_version", 1);
    }
    let g = loop {
        let g = gen_with(rng, &cfg, true, Some(fixed));
        let (_, i) = wz::count(&g.b.tree);
        if i > 0 || rng.chance(1, 10) {
            break g;
        }
    };
    let f = c.dir.join(format!("d{idx}.wz"));
    std::fs::write(&f, &g.b.bytes).unwrap();
    let (v, encver) = fixed;
    let iv = g.o.iv;
    c.st.seen("version_forms", (v as u64) << 1 | encver as u64);
    let d = format!("version {v} ({}), cipher {:02x?}, {} root entries", if encver { "stored" } else { "implicit" }, iv, g.b.tree.len());
    let open = |ver: Option<V>, pv: Option<i32>, k: Option<&SharedWzStringDecryptor>| -> Result<WzNodeArc, String> {
        Ok(WzNode::from_wz_file_full(&f, ver, pv, None, k).map_err(|e| format!("{d}: not opened: {e}"))?.into_lock())
    };
    let good = |c: &mut Ctx, root: &WzNodeArc, how: &str| -> Result<(), Fail> {
        root.write().unwrap().parse(root).map_err(|e| Fail::from(format!("{how}: does not parse: {e} ({d})")))?;
        let m = meta(root);
        if m.0 != v || m.1 != g.b.hash as usize {
            return Err(Fail::new(format!("{how}: wrong version selected"), format!("{how}: selected version {} hash {} for {d}, hash {}", m.0, m.1, g.b.hash)));
        }
        wz::compare(&mut c.st, root, &g.b.tree, "", true, false).map_err(|e| Fail::from(format!("{how}: {e} ({d})")))?;
        c.st.add("openings_judged", 1);
        Ok(())
    };
    // nothing given
    let auto = open(None, None, None)?;
    if in_range {
        good(c, &auto, "detection")?;
        c.st.add("detected", 1);
    }
    // given rightly, in every combination
    let k = key(iv);
    for (ver, pv, kk, how) in [
        (Some(version_of(iv)), None, None, "cipher given"),
        (None, Some(v), None, "version given"),
        (Some(version_of(iv)), Some(v), None, "both given"),
        (None, Some(v), Some(&k), "version and key given"),
    ] {
        if pv.is_none() && !in_range {
            continue;
        }
        good(c, &open(ver, pv, kk)?, how)?;
        c.st.add("explicit_right", 1);
    }
    // a key shared with an earlier file
    if in_range {
        good(c, &open(None, None, Some(&k))?, "key of an earlier file given")?;
    }
    // wrong patch versions
    for w in wrong_versions(rng, v, encver, &mut c.st) {
        if g.b.passes(w) {
            c.st.add("ambiguous_versions_skipped", 1);
            continue;
        }
        let root = open(None, Some(w), None)?;
        let r = root.write().unwrap().parse(&root);
        if r.is_ok() {
            return Err(Fail::new("a wrong patch version is accepted", format!("patch version {w} accepted for {d}")));
        }
        let m = meta(&root);
        if m.2 || m.3 != 0 {
            return Err(Fail::new("a wrong patch version leaves a tree behind", format!("patch version {w} on {d}: is_parsed {}, {} children", m.2, m.3)));
        }
        c.st.add("explicit_wrong_rejected", 1);
        c.st.add("openings_judged", 1);
    }
    // a wrong cipher that does not fit the first name: the right one is found instead
    for w in [*rng.pick(&STD), rng.u32().to_le_bytes()] {
        if w == iv || wz::ascii_under(&g.b.first_name, w) {
            continue;
        }
        let ver = if STD.contains(&w) && w != [0; 4] { Some(version_of(w)) } else { None };
        let kk = key(w);
        let root = open(ver, Some(v), if ver.is_some() { None } else { Some(&kk) })?;
        good(c, &root, "wrong cipher given")?;
        c.st.add("wrong_cipher_recovered", 1);
    }
    // the exposed guessing functions
    let b = &g.b.bytes;
    match guess_decryptor_from_wz_file(b) {
        Some(k) => {
            let hash = k.read().unwrap().get_iv_hash();
            if hash != u32::from_le_bytes(iv) as u64 {
                return Err(Fail::new("guess_decryptor_from_wz_file finds another cipher", d));
            }
        }
        None => return Err(Fail::new("guess_decryptor_from_wz_file finds no cipher", d)),
    }
    if verify_decryptor_from_wz_file(b, &key(iv)).is_err() {
        return Err(Fail::new("verify_decryptor_from_wz_file rejects the true cipher", d));
    }
    for w in STD {
        if w != iv && !wz::ascii_under(&g.b.first_name, w) && verify_decryptor_from_wz_file(b, &key(w)).is_ok() {
            return Err(Fail::new("verify_decryptor_from_wz_file accepts a wrong cipher", d));
        }
    }
    if verify_iv_from_wz_file(b, &iv).is_err() {
        return Err(Fail::new("verify_iv_from_wz_file rejects the true cipher", d));
    }
    if g.b.first_name.len() > 5 && (g.b.first_name[0] as i8) < -8 && g.b.first_name[0] != 0x80 {
        // a name stored in single bytes: other ciphers hardly ever make valid text of it
        let n = -(g.b.first_name[0] as i8 as i32) as usize;
        let valid = |w: [u8; 4]| {
            let ks = crypt::keystream(w, n);
            let t: Vec<u8> = (0..n.min(g.b.first_name.len() - 1)).map(|i| g.b.first_name[1 + i] ^ ks[i] ^ ((0xAA + i) & 0xff) as u8).collect();
            std::str::from_utf8(&t).is_ok()
        };
        if STD.iter().take_while(|x| **x != iv).all(|x| !valid(*x)) && guess_iv_from_wz_file(b) != Some(iv) {
            return Err(Fail::new("guess_iv_from_wz_file finds another cipher", d));
        }
    }
    c.st.add("openings_judged", 4);
    std::fs::remove_file(&f).unwrap();
    c.st.sample(|| d);
    Ok(())
}

fn images(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let cfg = GenCfg { budget: *rng.pick(&[3, 20]), ..Default::default() };
    // several files open at once, parsed in another order
    let mut open: Vec<(WzNodeArc, Img)> = vec![];
    for j in 0..1 + rng.below(4) {
        let iv = if rng.chance(1, 3) { rng.u32().to_le_bytes() } else { *rng.pick(&STD) };
        let im = wz::gen_img(rng, &cfg, iv, true);
        let bytes = img::encode(rng, &im, iv);
        let f = c.dir.join(format!("i{idx}-{j}.img"));
        std::fs::write(&f, &bytes).unwrap();
        let known = STD.contains(&iv);
        let d = format!("cipher {:02x?}, {} bytes", iv, bytes.len());
        match (known, WzNode::from_img_file(&f, None, None)) {
            (true, Ok(n)) => {
                c.st.add("images_detected", 1);
                c.st.add("openings_judged", 1);
                open.push((n.into_lock(), im.clone()));
            }
            (true, Err(e)) => return Err(Fail::new("the cipher of an image file is not detected", format!("{e}: {d}"))),
            (false, Ok(_)) => return Err(Fail::new("an image file under an unknown cipher opens", d)),
            (false, Err(_)) => c.st.add("openings_judged", 1),
        }
        if guess_iv_from_wz_img(&bytes) != if known { Some(iv) } else { None } {
            return Err(Fail::new("guess_iv_from_wz_img differs from the true cipher", d));
        }
        if !verify_iv_from_wz_img(&bytes, &iv) {
            return Err(Fail::new("verify_iv_from_wz_img rejects the true cipher", d));
        }
        let n = WzNode::from_img_file_with_iv(&f, iv, None).map_err(|e| format!("the true cipher is rejected: {e}"))?;
        open.push((n.into_lock(), im.clone()));
        if known {
            open.push((WzNode::from_img_file(&f, Some(version_of(iv)), None).map_err(|e| format!("the true version is rejected: {e}"))?.into_lock(), im));
        }
        let mut near = iv;
        near[rng.below(4)] ^= 1 << rng.below(8);
        for w in [near, *rng.pick(&STD), rng.u32().to_le_bytes()] {
            if w == iv {
                continue;
            }
            if WzNode::from_img_file_with_iv(&f, w, None).is_ok() || verify_iv_from_wz_img(&bytes, &w) {
                return Err(Fail::new("a wrong image cipher is accepted", format!("{w:02x?} accepted for {d}")));
            }
            if STD.contains(&w) && WzNode::from_img_file(&f, Some(version_of(w)), None).is_ok() {
                return Err(Fail::new("a wrong image version is accepted", format!("{w:02x?} accepted for {d}")));
            }
            c.st.add("image_wrong_rejected", 1);
            c.st.add("openings_judged", 1);
        }
        std::fs::remove_file(&f).unwrap();
    }
    rng.shuffle(&mut open);
    for (n, im) in &open {
        n.write().unwrap().parse(n).map_err(|e| format!("image does not parse: {e}"))?;
        Cmp::new(&mut c.st).image(n, im, "")?;
        c.st.add("interleaved", 1);
    }
    Ok(())
}

/// archives of different versions and ciphers open at the same time
fn mixed(c: &mut Ctx, rng: &mut Rng, idx: u64) -> Result<(), Fail> {
    let cfg = TreeCfg { root_min: 1, budget: 6, ..Default::default() };
    let mut open = vec![];
    for j in 0..2 + rng.below(3) {
        let encver = rng.chance(1, 2);
        let v = if encver { 1 + rng.below(2000) as i32 } else { 770 + rng.below(11) as i32 };
        let g = gen_with(rng, &cfg, true, Some((v, encver)));
        let f = c.dir.join(format!("m{idx}-{j}.wz"));
        std::fs::write(&f, &g.b.bytes).unwrap();
        let n = WzNode::from_wz_file(&f, None).map_err(|e| format!("not opened: {e}"))?.into_lock();
        std::fs::remove_file(&f).unwrap();
        open.push((n, g));
    }
    rng.shuffle(&mut open);
    for (n, _) in &open {
        n.write().unwrap().parse(n).map_err(|e| format!("opened next to others: does not parse: {e}"))?;
    }
    rng.shuffle(&mut open);
    for (n, g) in &open {
        wz::compare(&mut c.st, n, &g.b.tree, "", true, false).map_err(|e| format!("opened next to others: {e}"))?;
        if n.read().unwrap().try_as_file().unwrap().wz_file_meta.hash != g.b.hash as usize {
            return Err("opened next to others: wrong hash".into());
        }
        c.st.add("interleaved", 1);
        c.st.add("openings_judged", 1);
    }
    let _ = (WzReader::default(), matches!(open[0].0.read().unwrap().object_type, WzObjectType::File(_)));
    Ok(())
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    archive(c, &mut rng, idx)?;
    if idx % 3 == 0 {
        images(c, &mut rng, idx)?;
    }
    if idx % 5 == 0 {
        mixed(c, &mut rng, idx)?;
    }
    Ok(())
}
