//! C02: image property trees.
use crate::img::{self, Cmp, GenCfg, Img};
use crate::sup::{Ctx, Fail, Prop};
use crate::{crypt, wz};
use std::sync::Arc;
use wz_reader::property::WzValue;
use wz_reader::{WzImage, WzNode, WzNodeArc, WzNodeCast, WzObjectType, WzReader};

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        quick: 40000,
        thorough: 2_000_000,
        case,
        evals: "images_compared",
        distinct: "images",
        rule: "each case encodes one random image and decodes it (standalone file, or at a random offset of a larger buffer); distinct: encoded byte strings",
        need: &["very_long_lists", "properties_compared", "strings_compared", "standalone", "embedded", "order_checked", "payloads_compared"],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    let iv = if rng.chance(1, 6) { rng.u32().to_le_bytes() } else { *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]) };
    let cfg = GenCfg { wide: true, budget: *rng.pick(&[10, 60, 200]), max_depth: *rng.pick(&[2, 5, 9]), ..Default::default() };
    let im = loop {
        let i = wz::gen_img(&mut rng, &cfg, iv, false);
        if let Img::Lua(t, k) = &i {
            if wz::lua_ambiguous(t, k) {
                continue;
            }
        }
        break i;
    };
    let im = match im {
        Img::Props(mut k) if idx % 500 == 3 => {
            let n = *rng.pick(&[32768usize, 65535, 65536, 66000]);
            k.extend(img::gen_many(&mut rng, n));
            c.st.add("very_long_lists", 1);
            let mut used = std::collections::HashSet::new();
            k.retain(|x| used.insert(x.0.clone()));
            Img::Props(k)
        }
        i => i,
    };
    let bytes = img::encode(&mut rng, &im, iv);
    c.st.seen("images", bytes.iter().fold(7u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3)));
    let name = match &im {
        Img::Lua(..) => "a.lua",
        Img::Txt(_) => "a.txt",
        _ => *rng.pick(&["a.img", "b", "c.lua.img", "x.txt.img", "ä"]),
    };
    let standalone = matches!(im, Img::Props(_)) && rng.chance(1, 2);
    let std_iv = [crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS].contains(&iv);
    let node: WzNodeArc = if standalone {
        c.st.add("standalone", 1);
        let f = c.dir.join(format!("i{idx}.img"));
        std::fs::write(&f, &bytes).unwrap();
        let n = if std_iv && rng.chance(1, 2) {
            WzNode::from_img_file(&f, None, None)
        } else {
            WzNode::from_img_file_with_iv(&f, iv, None)
        }
        .map_err(|e| format!("standalone image not opened: {e}"))?;
        std::fs::remove_file(&f).unwrap();
        n.into_lock()
    } else {
        c.st.add("embedded", 1);
        let pre = match rng.below(4) {
            0 => 0,
            1 => 1,
            2 => rng.below(70000),
            _ => rng.below(500),
        };
        let mut buf = rng.bytes(pre);
        buf.extend(&bytes);
        let post = rng.below(30);
        let j = rng.bytes(post);
        buf.extend(j);
        let reader = Arc::new(WzReader::from_buff(&buf).with_iv(iv));
        let i = WzImage::new(&name.into(), pre, bytes.len(), &reader);
        WzNode::from_str(name, i, None).into_lock()
    };
    // the ordered child list, before any parse
    if let Img::Props(k) = &im {
        let r = node.read().unwrap();
        let WzObjectType::Image(i) = &r.object_type else { return Err("not an image".into()) };
        let (list, _) = i.resolve_children(None).map_err(|e| format!("ordered list failed: {e}"))?;
        let got: Vec<&str> = list.iter().map(|x| x.0.as_str()).collect();
        let want: Vec<&str> = k.iter().map(|x| x.0.as_str()).collect();
        if got != want {
            return Err("ordered child list differs from the stored order".to_string().into());
        }
        c.st.add("order_checked", got.len() as u64);
        // numeric casts
        for ((_, n), (name, v)) in list.iter().zip(k) {
            let n = n.read().unwrap();
            let ok = match v {
                img::V::Float(f) => n.try_as_float().map(|x| x.to_bits()) == Some(f.to_bits()),
                img::V::Double(f) => n.try_as_double().map(|x| x.to_bits()) == Some(f.to_bits()),
                img::V::Vector(x, y) => n.try_as_vector2d().map(|v| (v.0, v.1)) == Some((*x, *y)),
                img::V::Int(x) => n.try_as_int() == Some(x) && n.try_as_short().is_none() && n.try_as_long().is_none(),
                img::V::Null => matches!(n.object_type, WzObjectType::Value(WzValue::Null)),
                _ => true,
            };
            if !ok {
                return Err(format!("typed access of {:?} ({}) differs from the stored value", name, v.kind()).into());
            }
        }
    }
    node.write().unwrap().parse(&node).map_err(|e| format!("image does not parse: {e}"))?;
    let mut cmp = Cmp::new(&mut c.st);
    cmp.payloads = true;
    cmp.image(&node, &im, "")?;
    c.st.sample(|| format!("{} bytes, iv {:02x?}, standalone {standalone}", bytes.len(), iv));
    Ok(())
}
