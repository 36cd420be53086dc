//! C12: canvas pixels.
use crate::canvas::{self, CanvasM};
use crate::img::{self, Kids, V};
use crate::props::c01;
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::crypt;
use wz_reader::property::{get_image, WzSubProperty};
use wz_reader::{WzNode, WzObjectType};

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        quick: 24000,
        thorough: 800000,
        case,
        evals: "canvases_decoded",
        distinct: "shapes",
        rule: "each case stores canvases of random formats, sizes and stored forms in one image and compares every decoded pixel with the format's definition; distinct: format x size x stored form",
        need: &["very_large_canvases", "canvases_decoded", "pixels_compared", "unsupported_formats", "zlib_forms", "chunked_forms", "partial_blocks", "large_canvases", "decoded_again", "unparsed_access", "empty_canvases", "zlib_like_chunks"],
        cpu_case: 60,
        digests: true,
        workers: 8,
    }
}

pub fn size(rng: &mut Rng, fmt: u32) -> (u32, u32) {
    let (mut w, mut h) = match rng.below(12) {
        0 => (1 + rng.below(300) as u32, 1 + rng.below(300) as u32),
        1 => (1 + rng.below(2000) as u32, 1 + rng.below(4) as u32),
        2 => (1 + rng.below(4) as u32, 1 + rng.below(2000) as u32),
        3..=6 => (1 + rng.below(9) as u32, 1 + rng.below(9) as u32),
        _ => canvas::gen_size(rng, fmt, 40),
    };
    if fmt == 517 {
        w = w.div_ceil(16) * 16;
        h = h.div_ceil(16) * 16;
    }
    (w, h)
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let mut all: Vec<CanvasM> = vec![];
    for _ in 0..1 + rng.below(14) {
        if rng.chance(1, 12) {
            let f = *rng.pick(canvas::UNSUPPORTED);
            let (w, h) = (1 + rng.below(20) as u32, 1 + rng.below(20) as u32);
            all.push(canvas::gen(&mut rng, iv, f, w, h));
            continue;
        }
        let f = *rng.pick(canvas::FORMATS);
        let (mut w, mut h) = size(&mut rng, f);
        if idx % 1000 == 11 && all.is_empty() {
            (w, h) = *rng.pick(&[(1024, 1024), (2048, 700), (700, 2064), (1500, 1000), (65536, 1), (70000, 4), (1, 66000), (257, 256), (4096, 300)]);
            if f == 517 {
                (w, h) = (w.div_ceil(16) * 16, h.div_ceil(16) * 16);
            }
            c.st.add("very_large_canvases", 1);
        }
        if rng.chance(1, 60) {
            if rng.chance(1, 2) {
                w = 0;
            } else {
                h = 0;
            }
        }
        all.push(canvas::gen(&mut rng, iv, f, w, h));
    }
    if rng.chance(1, 40) {
        // chunks whose length looks like the start of a plain stream
        let z = *rng.pick(&[0x9C78usize, 0xDA78, 0x0178, 0x5E78]);
        let (w, h) = (110, 100 + rng.below(40) as u32);
        let mut m = canvas::gen(&mut rng, iv, 2, w, h);
        let (data, px) = canvas::gen_pixels(&mut rng, 2, w, h);
        let s = canvas::zlib(&data, 0);
        let mut out = vec![];
        let mut p = 0;
        while p < s.len() {
            let n = z.min(s.len() - p);
            out.extend_from_slice(&(n as i32).to_le_bytes());
            let ks = crypt::keystream(iv, n);
            out.extend(s[p..p + n].iter().zip(ks.iter()).map(|(a, b)| a ^ b));
            p += n;
        }
        m.stored = out;
        m.px = px;
        m.form = "chunked";
        c.st.add("zlib_like_chunks", 1);
        all.push(m);
    }
    // at various places of the image
    let mut kids: Kids = vec![];
    for (i, m) in all.iter().enumerate() {
        let v = V::Canvas(m.clone(), if rng.chance(1, 3) { Some(vec![("origin".into(), V::Vector(1, 2))]) } else { None });
        kids.push((format!("c{i}"), v));
    }
    let deep = rng.chance(1, 3);
    if deep {
        kids = vec![("d".into(), V::Prop(kids))];
    }
    let bytes = img::encode_props(&mut rng, &kids, iv);
    let f = c.dir.join(format!("c{idx}.img"));
    std::fs::write(&f, &bytes).unwrap();
    let open = || WzNode::from_img_file(&f, Some(c01::version_of(iv)), None).map(|n| n.into_lock());
    let root = open().map_err(|e| format!("not opened: {e}"))?;
    let unparsed = rng.chance(1, 3);
    if !unparsed {
        root.write().unwrap().parse(&root).map_err(|e| format!("image does not parse: {e}"))?;
    }
    let mut digest = 0u64;
    for (i, m) in all.iter().enumerate() {
        let p = if deep { format!("d/c{i}") } else { format!("c{i}") };
        let node = if unparsed {
            c.st.add("unparsed_access", 1);
            match &root.read().unwrap().object_type {
                WzObjectType::Image(x) => x.at_path(&p).map_err(|e| format!("{p} not reached: {e}"))?,
                _ => unreachable!(),
            }
        } else {
            root.read().unwrap().at_path(&p).ok_or(format!("{p} not reached"))?
        };
        let fmt = m.format1 + m.scale as i32;
        let what = format!("canvas of format {fmt} {}x{} stored as {} ({} bytes)", m.w, m.h, m.form, m.stored.len());
        c.status(idx, &what);
        c.st.sample(|| what.clone());
        let mut got = vec![get_image(&node)];
        if rng.chance(1, 3) {
            c.st.add("decoded_again", 1);
            let r = node.read().unwrap();
            if let WzObjectType::Property(WzSubProperty::PNG(x)) = &r.object_type {
                got.push(x.extract_png());
            }
        }
        for g in got {
            match (g, &m.px) {
                (Ok(g), Some(_)) => {
                    canvas::compare(&g, m).map_err(|e| Fail::new(format!("pixels of format {fmt}"), format!("{what}: {e}")))?;
                    c.st.add("canvases_decoded", 1);
                    c.st.add("pixels_compared", (m.w * m.h) as u64);
                    for b in g.as_bytes() {
                        digest = digest.wrapping_mul(0x100000001b3) ^ *b as u64;
                    }
                }
                (Err(_), None) => {
                    c.st.add("unsupported_formats", 1);
                }
                (Ok(_), None) => return Err(Fail::new("unsupported format", format!("{what}: the format is not supported, yet pixels come out"))),
                (Err(e), Some(_)) => return Err(Fail::new(format!("format {fmt} not decoded"), format!("{what}: not decoded: {e}"))),
            }
        }
        c.st.seen("shapes", crate::rng::hash_str(&format!("{fmt} {} {} {}", m.w, m.h, m.form)));
        c.st.add(if m.form == "zlib" { "zlib_forms" } else { "chunked_forms" }, 1);
        if m.w == 0 || m.h == 0 {
            c.st.add("empty_canvases", 1);
        }
        if m.w % 4 != 0 || m.h % 4 != 0 {
            c.st.add("partial_blocks", 1);
        }
        if m.w * m.h > 20000 {
            c.st.add("large_canvases", 1);
        }
    }
    c.digests.insert(idx, digest);
    std::fs::remove_file(&f).unwrap();
    Ok(())
}
