//! C07: PKG2 version-hash search and offset formulas.
use crate::pkg2::{self, enc_offset, hash2};
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz;
use std::collections::BTreeSet;
use wz_reader::util::offset::{decrypt_pkg2_entry_count_64_v1, WzOffsetMeta, WzOffsetVersion};
use wz_reader::util::profile::{get_all_pkg2_profiles, Pkg2Profile};
use wz_reader::util::version::pkg2::*;
use wz_reader::WzHeader;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        quick: 40000,
        thorough: 350_000,
        case,
        evals: "searches_and_formulas_judged",
        distinct: "hash_pairs",
        rule: "each case draws hash pairs (from a true version hash or freely), runs the searches and judges every result; every offset formula is inverted at random and edge positions; distinct: (equation, first hash, second hash)",
        need: &["search_v1", "search_v2", "search_v3", "search_v6", "search_v4", "search_v5", "free_pairs", "empty_result_sets", "offsets", "counts", "verifier_true", "verifier_false", "chained"],
        cpu_case: 600,
        digests: false,
        workers: 8,
    }
}

pub fn g(v: u32) -> Pkg2VersionGen {
    [Pkg2VersionGen::V1, Pkg2VersionGen::V2, Pkg2VersionGen::V3, Pkg2VersionGen::V4, Pkg2VersionGen::V5, Pkg2VersionGen::V6][v as usize - 1]
}

fn word(rng: &mut Rng) -> u32 {
    match rng.below(8) {
        0 => *rng.pick(&[0, 1, 15, 16, 31, 32, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0xE5D4_C3B3, 0xE5D4_C3B2]),
        1 => 1 << rng.below(32),
        2 => rng.u32() & 0xf,
        3 => rng.u32() & 0xffff,
        4 => !(rng.u32() & 0xfff),
        _ => rng.u32(),
    }
}

fn judge(c: &mut Ctx, v: u32, h1: u64, h2: u64, truth: Option<u64>, found: Vec<u64>, how: &str) -> Result<(), Fail> {
    c.st.add(&format!("search_v{v}"), 1);
    c.st.add("searches_and_formulas_judged", 1);
    c.st.seen("hash_pairs", h1.wrapping_mul(0x9E3779B97F4A7C15) ^ h2.rotate_left(17) ^ v as u64);
    let set: BTreeSet<u64> = found.iter().cloned().collect();
    for t in &set {
        if hash2(v, h1, *t) != h2 {
            return Err(Fail::new(format!("{how} {v} yields a hash that does not satisfy its equation"), format!("{how} {v}: {t:#x} for pair {h1:#x}/{h2:#x}")));
        }
    }
    if let Some(t) = truth {
        if !set.contains(&t) {
            return Err(Fail::new(format!("{how} {v} misses the true hash"), format!("{how} {v}: {t:#x} not among the {} results for {h1:#x}/{h2:#x}", set.len())));
        }
    }
    if set.is_empty() {
        c.st.add("empty_result_sets", 1);
    }
    c.st.add("results_judged", set.len() as u64);
    Ok(())
}

/// every solution of equations 2 and 3, by running over the low bits and solving bit by bit in the other direction
fn reference(v: u32, h1: u32, h2: u32, sample: &[u32]) -> Vec<u32> {
    sample.iter().cloned().filter(|t| hash2(v, h1 as u64, *t as u64) == h2 as u64).collect()
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    // the generators of equations 4 and 5 run through all 2^32 candidates
    if idx < if c.thorough { 24 } else { 4 } {
        let v = 4 + (idx % 2) as u32;
        let h1 = word(&mut rng) as u64;
        let t = match idx {
            0 | 1 => 0xffff_ffff,
            2 => 0,
            _ => word(&mut rng) as u64,
        };
        let h2 = hash2(v, h1, t);
        c.status(idx, "exhaustive hash search");
        let found: Vec<u64> = g(v).get_generator(h1, h2).get_iter().map(|x| x as u64).collect();
        return judge(c, v, h1, h2, Some(t), found, "search");
    }
    for v in [1u32, 2, 3, 6] {
        let (h1, t) = if v == 6 { (if rng.chance(1, 4) { rng.below(4) as u64 } else { rng.u64() }, rng.u64()) } else { (word(&mut rng) as u64, word(&mut rng) as u64) };
        let h2 = hash2(v, h1, t);
        let run = |h1: u64, h2: u64| -> Vec<u64> {
            if v == 6 {
                g(v).get_generator_u64(h1, h2).get_iter().collect()
            } else {
                g(v).get_generator(h1, h2).get_iter().map(|x| x as u64).collect()
            }
        };
        judge(c, v, h1, h2, Some(t), run(h1, h2), "search")?;
        // a pair that need not come from any hash
        let f2 = if v == 6 { rng.u64() } else { word(&mut rng) as u64 };
        c.st.add("free_pairs", 1);
        judge(c, v, h1, f2, None, run(h1, f2), "search")?;
        // the profile's iterator is the same search
        if rng.chance(1, 4) {
            let p = get_all_pkg2_profiles().into_iter().find(|p| matches!((v, p.name), (1, wz_reader::util::profile::WzProfileVersion::Pkg2V1196) | (2, wz_reader::util::profile::WzProfileVersion::Pkg2V1197) | (3, wz_reader::util::profile::WzProfileVersion::Pkg2V1198) | (6, wz_reader::util::profile::WzProfileVersion::Pkg2V1202))).unwrap();
            judge(c, v, h1, h2, Some(t), p.get_hash_iter(h1, h2).collect(), "profile search")?;
        }
    }
    // all searches chained: whatever one of them yields must come out, even when another yields nothing
    {
        let h1 = word(&mut rng);
        let h2 = if rng.chance(1, 2) { word(&mut rng) } else { hash2(1 + rng.below(3) as u32, h1 as u64, word(&mut rng) as u64) as u32 };
        let mut want = BTreeSet::new();
        for v in [1u32, 2, 3] {
            want.extend(g(v).get_generator(h1 as u64, h2 as u64).get_iter());
        }
        let got: BTreeSet<u32> = VersionGen::new(h1, h2).collect();
        c.st.add("chained", 1);
        c.st.add("searches_and_formulas_judged", 1);
        if want != got {
            return Err(Fail::new("the chained search differs from its parts", format!("chained search for {h1:#x}/{h2:#x}: {} results, the parts have {}", got.len(), want.len())));
        }
    }
    // verifiers say exactly what the equations say
    for v in 1..=6u32 {
        let (h1, t) = if v == 6 { (rng.u64(), rng.u64()) } else { (word(&mut rng) as u64, word(&mut rng) as u64) };
        let h2 = hash2(v, h1, t);
        let near = t ^ 1 << rng.below(if v == 6 { 64 } else { 32 });
        for (h2, t) in [(h2, t), (h2, near), (h2 ^ 1 << rng.below(if v == 6 { 64 } else { 32 }), t)] {
            let want = hash2(v, h1, t) == h2;
            let got = if v == 6 { g(v).get_generator_u64(h1, h2).get_verifier()(h1, h2, t) } else { g(v).get_generator(h1, h2).get_verifier()(h1 as u32, h2 as u32, t as u32) };
            let prof = get_all_pkg2_profiles().into_iter().find(|p| p.version_gen as u32 == g(v) as u32).unwrap();
            let got2 = Pkg2Profile::new(prof, t).verify_hash(h1, h2);
            c.st.add(if want { "verifier_true" } else { "verifier_false" }, 1);
            c.st.add("searches_and_formulas_judged", 1);
            if got != want || got2 != want {
                return Err(Fail::new(format!("verifier {v} differs from its equation"), format!("verifier {v}: {h1:#x}/{h2:#x}, hash {t:#x}: {got} and {got2}, the equation says {want}")));
            }
        }
    }
    // offsets
    for f in 0..=4u32 {
        let ver = [WzOffsetVersion::Pkg1, WzOffsetVersion::Pkg2V1, WzOffsetVersion::Pkg2V2, WzOffsetVersion::Pkg2V3, WzOffsetVersion::Pkg2_64V1][f as usize];
        let fstart = *rng.pick(&[16usize, 60, 68, 150, 255, 1000]);
        let mut pos = fstart + match rng.below(4) {
            0 => rng.below(64),
            1 => rng.below(100_000),
            2 => rng.u32() as usize >> 1,
            _ => *rng.pick(&[0usize, 1, 2, 0x7fff_fff0, 0xffff_0000]),
        };
        pos &= 0xffff_ffff;
        pos = pos.max(fstart);
        let target = match rng.below(4) {
            0 => rng.below(1 << 20),
            1 => rng.u32() as usize,
            _ => *rng.pick(&[0usize, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]),
        };
        let (h1, t) = if f == 4 { (rng.u64(), rng.u64()) } else { (word(&mut rng) as u64, if f == 0 { wz::ver_hash(1 + rng.below(3000) as i32) as u64 } else { word(&mut rng) as u64 }) };
        let mut h = WzHeader::default();
        h.fstart = fstart;
        h.hash1 = h1;
        let e = enc_offset(f, pos, fstart, h1, t, target);
        let got = ver.get_calculator()(&h, &WzOffsetMeta { hash: t, encrypted_offset: e, offset: pos }).map_err(|e| format!("offset formula fails: {e}"))?;
        c.st.add("offsets", 1);
        c.st.add("searches_and_formulas_judged", 1);
        if got != target {
            return Err(Fail::new(format!("offset formula {f} does not invert its encoding"), format!("formula {f}: place {pos} fstart {fstart} hash {h1:#x}/{t:#x}: {got:#x}, encoded {target:#x}")));
        }
    }
    // entry counts of the 64-bit form
    {
        let (h1, t) = (rng.u64(), rng.u64());
        let mut h = WzHeader::default();
        h.hash1 = h1;
        let n = *rng.pick(&[0u64, 1, 2, 255, 65536, 999_999, 1_000_000, i32::MAX as u64]);
        let n = if rng.chance(1, 2) { rng.below(100_000) as u64 } else { n };
        let e = ((n << 16 | rng.below(65536) as u64) ^ h1 ^ t ^ 0x550EC4DD02C468EC) as i64;
        let got = decrypt_pkg2_entry_count_64_v1(&h, t, e).map_err(|e| format!("entry count fails: {e}"))?;
        c.st.add("counts", 1);
        c.st.add("searches_and_formulas_judged", 1);
        if got as u64 != n {
            return Err(format!("entry count {got}, stored {n}").into());
        }
    }
    if idx % 512 == 5 {
        c.st.sample(|| format!("case {idx}: equations 1,2,3,6 searched, verifiers 1..6, offset formulas 0..4"));
    }
    let _ = (reference(2, 1, 2, &[3]), pkg2::C);
    Ok(())
}
