//! C04: keystreams against an independent AES / pattern model, over growth histories and shared users.
use crate::crypt;
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use std::sync::{Arc, Barrier, RwLock};
use wz_reader::util::string_decryptor::pkg2_decryptor::{get_kmst1199_key, get_kmst1202_key};
use wz_reader::util::string_decryptor::{DecrypterType, Decryptor, EcbDecryptor, Pkg2Decryptor};
use wz_reader::util::version::{get_iv_by_maple_version, WzMapleVersion};
use wz_reader::{Reader, SharedWzStringDecryptor, WzReader, GLOBAL_STRING_DECRYPTOR};
use wz_reader::property::WzStringType;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        quick: 8000,
        thorough: 500000,
        case,
        evals: "keystream_observations",
        distinct: "histories",
        rule: "each observation compares key bytes or a deciphered slice with the independent keystream; distinct: operation histories",
        need: &["grown", "slices", "threads_used", "registry_handles", "rekeyed", "pkg2_slices", "zero_iv", "huge_keys"],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

enum M {
    Aes([u8; 32], [u8; 4]),
    Pat(u64),
}
impl M {
    fn stream(&self, n: usize) -> Vec<u8> {
        match self {
            M::Aes(_, iv) if *iv == [0; 4] => vec![0; n],
            M::Aes(k, iv) if *k == crypt::wz_aes_key() => crypt::keystream(*iv, n)[..n].to_vec(),
            M::Aes(k, iv) => crypt::keystream_raw(k, *iv, n),
            M::Pat(k) => {
                let p = crypt::pkg2_pattern(*k);
                (0..n).map(|i| p[i % 8]).collect()
            }
        }
    }
}

fn size(rng: &mut Rng, big: bool) -> usize {
    match rng.below(8) {
        0 => rng.below(18),
        1 => *rng.pick(&[15, 16, 17, 31, 32, 33]),
        2 | 3 => (*rng.pick(&[4095i64, 4096, 4097, 8191, 8192, 8193, 12288, 16384]) + rng.range(-1, 1)) as usize,
        4 if big => 40_000 + rng.below(90_000),
        _ => rng.below(9000),
    }
}

/// a random history on one decryptor
fn history(c: &mut Ctx, rng: &mut Rng, d: &mut dyn Decryptor, m: &mut M, n: usize, h: &mut u64) -> Result<(), Fail> {
    let mut have = 0usize; // size ensured so far
    let mut st = m.stream(140_000);
    for _ in 0..n {
        let op = rng.below(7);
        let s = size(rng, true);
        *h = (*h ^ (op as u64) << 32 ^ s as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17);
        match op {
            0 => {
                d.ensure_key_size(s).map_err(|e| format!("ensure_key_size failed: {e}"))?;
                have = have.max(s);
                if !d.is_enough(s) {
                    return Err("is_enough is false right after ensure_key_size".into());
                }
                c.st.add("grown", 1);
            }
            1 => {
                let g = *d.at(s);
                have = have.max(s + 1);
                if g != st[s] {
                    return Err(Fail::new("at() returns a wrong key byte", format!("at({s}) is {g:#x} instead of {:#x}", st[s])));
                }
                c.st.add("keystream_observations", 1);
            }
            2 => match d.try_at(s) {
                Some(g) if *g != st[s] => return Err(Fail::new("try_at() returns a wrong key byte", format!("try_at({s}) is {g:#x} instead of {:#x}", st[s]))),
                Some(_) => c.st.add("keystream_observations", 1),
                None => {
                    let zero = matches!(m, M::Aes(_, [0, 0, 0, 0]));
                    if s < have && !zero {
                        return Err("try_at() finds no key below the ensured size".into());
                    }
                }
            },
            3 | 4 => {
                if !d.is_enough(s) {
                    d.ensure_key_size(s).map_err(|e| format!("ensure_key_size failed: {e}"))?;
                    have = have.max(s);
                }
                let orig = rng.bytes(s);
                let mut x = orig.clone();
                d.decrypt_slice(&mut x);
                if let Some(i) = (0..s).find(|i| x[*i] != orig[*i] ^ st[*i]) {
                    return Err(Fail::new("decrypt_slice differs from the specified keystream", format!("decrypt_slice of {s} bytes is wrong at byte {i}")));
                }
                d.decrypt_slice(&mut x);
                if x != orig {
                    return Err("applying the cipher twice does not restore the input".into());
                }
                c.st.add("slices", 1);
                c.st.add("keystream_observations", s as u64);
            }
            5 => {
                // every ensured byte, one by one
                for k in 0..20 {
                    let i = (s + k * 211) % have.max(1);
                    if let Some(g) = d.try_at(i) {
                        if *g != st[i] {
                            return Err(Fail::new("try_at() returns a wrong key byte", format!("try_at({i})")));
                        }
                        c.st.add("keystream_observations", 1);
                    }
                }
            }
            _ => {
                if rng.chance(1, 4) {
                    match m {
                        M::Aes(_, iv) => {
                            let n = match rng.below(5) {
                                0 => 0,
                                1 => u32::from_le_bytes(*iv),
                                _ => rng.u32(),
                            };
                            d.set_iv(n as u64, DecrypterType::Custom);
                            *iv = n.to_le_bytes();
                            if d.get_iv_hash() != n as u64 {
                                return Err("get_iv_hash is not the iv".into());
                            }
                        }
                        M::Pat(k) => {
                            let n = rng.u64();
                            d.set_iv(n, DecrypterType::KMST1199);
                            *k = n;
                        }
                    }
                    st = m.stream(140_000);
                    have = 0;
                    c.st.add("rekeyed", 1);
                }
            }
        }
    }
    Ok(())
}

fn check_handle(c: &mut Ctx, rng: &mut Rng, k: &SharedWzStringDecryptor, m: &M, what: &str) -> Result<(), Fail> {
    let s = size(rng, false);
    let orig = rng.bytes(s);
    let st = m.stream(s);
    let got = wz_reader::reader::get_decrypt_slice(&orig, s, k).map_err(|e| format!("get_decrypt_slice: {e}"))?;
    if (0..s).any(|i| got[i] != orig[i] ^ st[i]) {
        return Err(Fail::new(format!("{what}: wrong keystream"), format!("{what}: slice of {s} bytes")));
    }
    c.st.add("registry_handles", 1);
    c.st.add("keystream_observations", s as u64);
    Ok(())
}

/// keys of many MiB, grown at once and in steps
fn huge(c: &mut Ctx, rng: &mut Rng) -> Result<(), Fail> {
    let iv = rng.u32().to_le_bytes();
    let page = 4096 * (4096 + rng.below(600));
    let sizes = [page + 1, page + *rng.pick(&[4097, 8191, 8192, 8193, 40_000])];
    let st = crypt::keystream_raw(&crypt::wz_aes_key(), iv, sizes[1]);
    let mut d = EcbDecryptor::from_iv(iv);
    for n in sizes {
        d.ensure_key_size(n).map_err(|e| format!("ensure_key_size failed: {e}"))?;
        if !Decryptor::is_enough(&d, n) {
            return Err("is_enough is false right after ensure_key_size".into());
        }
        let mut x = vec![0; n];
        d.decrypt_slice(&mut x);
        if let Some(i) = (0..n).find(|i| x[*i] != st[*i]) {
            return Err(Fail::new("decrypt_slice differs from the specified keystream", format!("decrypt_slice of {n} bytes is wrong at byte {i}")));
        }
        c.st.add("huge_keys", 1);
        c.st.add("keystream_observations", n as u64);
    }
    Ok(())
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    if idx % 4000 == 17 {
        return huge(c, &mut rng);
    }
    let wz = crypt::wz_aes_key();
    let iv = match rng.below(6) {
        0 => [0; 4],
        1 => crypt::IV_GMS,
        2 => crypt::IV_EMS,
        _ => rng.u32().to_le_bytes(),
    };
    if iv == [0; 4] {
        c.st.add("zero_iv", 1);
    }
    let mut h = idx % 4;
    match idx % 4 {
        0 => {
            // one private AES key
            let custom = rng.chance(1, 4);
            let key: [u8; 32] = if custom { rng.bytes(32).try_into().unwrap() } else { wz };
            let mut d = if custom { EcbDecryptor::new(iv, key) } else { EcbDecryptor::from_iv(iv) };
            let mut m = M::Aes(key, iv);
            let n = 3 + rng.below(14);
            history(c, &mut rng, &mut d, &mut m, n, &mut h)?;
            if let M::Aes(_, iv) = m {
                if iv != [0; 4] {
                    let a = rng.below(3000);
                    let b = a + rng.below(7000);
                    d.ensure_key_size(b).map_err(Fail::from)?;
                    if d.get_range(a..b) != &m.stream(b)[a..] {
                        return Err("get_range differs from the specified keystream".into());
                    }
                }
            }
        }
        1 => {
            let k = if rng.chance(1, 2) { rng.u64() } else { rng.u32() as u64 };
            let mut d = Pkg2Decryptor::new_with_key(k, DecrypterType::KMST1198);
            let n = 3 + rng.below(14);
            history(c, &mut rng, &mut d, &mut M::Pat(k), n, &mut h)?;
            for _ in 0..50 {
                let (a, b) = (rng.u64(), rng.u64());
                if get_kmst1199_key(a as u32, b as u32) != crypt::kmst1199_key(a as u32, b as u32) || get_kmst1202_key(a, b) != crypt::kmst1202_key(a, b) {
                    return Err("a directory key is derived wrongly".into());
                }
                c.st.add("keystream_observations", 2);
            }
        }
        2 => {
            // the registry: several handles for equal and different parameters, used in mixed order
            let g = &GLOBAL_STRING_DECRYPTOR;
            let mut hs: Vec<(SharedWzStringDecryptor, M, &str)> = vec![];
            let iv2 = rng.u32().to_le_bytes();
            for _ in 0..2 + rng.below(8) {
                let k = rng.below(14);
                h = h.wrapping_mul(31).wrapping_add(k as u64);
                let aes = |iv| M::Aes(wz, iv);
                hs.push(match k {
                    0 => (g.get_decryptor_by_iv(iv), aes(iv), "by iv"),
                    1 => (g.get_decryptor_by_iv(iv2), aes(iv2), "by iv"),
                    2 => (g.get_decryptor_by_iv(crypt::IV_GMS), aes(crypt::IV_GMS), "by GMS iv"),
                    3 => (g.get_decryptor_by_iv(crypt::IV_EMS), aes(crypt::IV_EMS), "by EMS iv"),
                    4 => (g.get_decryptor_by_iv([0; 4]), aes([0; 4]), "by zero iv"),
                    5 => (g.get_decryptor_by_version(WzMapleVersion::GMS), aes(crypt::IV_GMS), "by version GMS"),
                    6 => (g.get_decryptor_by_version(WzMapleVersion::EMS), aes(crypt::IV_EMS), "by version EMS"),
                    7 => (g.get_decryptor_by_version(WzMapleVersion::BMS), aes([0; 4]), "by version BMS"),
                    8 => (g.get_decryptor_by_version(WzMapleVersion::KMST1198), M::Pat(0xDEADBEEF), "by version KMST1198"),
                    9 => (g.get_decryptor(DecrypterType::GMS), aes(crypt::IV_GMS), "by type GMS"),
                    10 => (g.get_decryptor(DecrypterType::KMS), aes(crypt::IV_EMS), "by type KMS"),
                    11 => (g.get_decryptor(DecrypterType::Unknown), aes([0; 4]), "by type Unknown"),
                    12 => (g.get_decryptor(DecrypterType::KMST1198), M::Pat(0xDEADBEEF), "by type KMST1198"),
                    _ => {
                        // a dynamic one: private to its owner, keyed later
                        let d = g.get_decryptor(*rng.pick(&[DecrypterType::KMST1199, DecrypterType::KMST1202]));
                        let k = rng.u64();
                        d.write().unwrap().set_iv(k, DecrypterType::KMST1199);
                        (d, M::Pat(k), "dynamic")
                    }
                });
            }
            for v in [WzMapleVersion::GMS, WzMapleVersion::EMS, WzMapleVersion::BMS] {
                let want = match v {
                    WzMapleVersion::GMS => crypt::IV_GMS,
                    WzMapleVersion::EMS => crypt::IV_EMS,
                    _ => [0; 4],
                };
                if get_iv_by_maple_version(v) != want {
                    return Err("get_iv_by_maple_version differs".into());
                }
            }
            for _ in 0..hs.len() * 2 {
                let (k, m, w) = &hs[rng.below(hs.len())];
                check_handle(c, &mut rng, k, m, w)?;
            }
            // a reader keeps the two roles apart
            let (k, m, _) = &hs[rng.below(hs.len())];
            let mut data = rng.bytes(300);
            data[..2].copy_from_slice(&[0, 0]);
            let r = WzReader::from_buff(&data).with_existing_keys(k.clone());
            let n = 2 * (1 + rng.below(140));
            let general = if matches!(m, M::Pat(_)) { vec![0; n] } else { m.stream(n) };
            let got = r.get_decrypt_slice(0..n).map_err(|e| e.to_string())?;
            if (0..n).any(|i| got[i] != data[i] ^ general[i]) {
                return Err("a reader with existing keys deciphers ordinary data wrongly".into());
            }
            let st = m.stream(n);
            let want: Vec<u16> = (0..n / 2).map(|i| u16::from_le_bytes([data[2 * i] ^ st[2 * i], data[2 * i + 1] ^ st[2 * i + 1]])).collect();
            let got = r.resolve_wz_string_meta(&WzStringType::Pkg2Dir, 0, n).map_err(|e| e.to_string())?;
            if got != String::from_utf16_lossy(&want) {
                return Err("a reader with existing keys deciphers directory names wrongly".into());
            }
            c.st.add("pkg2_slices", 1);
        }
        _ => {
            // several threads on one handle, released together, each with its own sizes
            let (k, m): (SharedWzStringDecryptor, M) = match rng.below(4) {
                0 => (GLOBAL_STRING_DECRYPTOR.get_decryptor_by_iv(iv), M::Aes(wz, iv)),
                1 => {
                    let x = rng.u64();
                    (Arc::new(RwLock::new(Pkg2Decryptor::new_with_key(x, DecrypterType::KMST1198))), M::Pat(x))
                }
                _ => (Arc::new(RwLock::new(EcbDecryptor::from_iv(iv))), M::Aes(wz, iv)),
            };
            let st = Arc::new(m.stream(140_000));
            let nt = 2 + rng.below(4);
            let bar = Arc::new(Barrier::new(nt));
            let buf = Arc::new(rng.bytes(140_000));
            let rd = Arc::new(WzReader::from_buff(&buf).with_existing_keys(k.clone()));
            let pat = matches!(m, M::Pat(_));
            let hs: Vec<_> = (0..nt)
                .map(|t| {
                    let mut r = Rng::new(rng.u64());
                    h = h.wrapping_mul(31).wrapping_add(nt as u64 * 7 + t as u64);
                    let (k, st, bar, buf, rd) = (k.clone(), st.clone(), bar.clone(), buf.clone(), rd.clone());
                    std::thread::spawn(move || -> Result<u64, String> {
                        bar.wait();
                        let mut n = 0;
                        for _ in 0..6 {
                            let s = size(&mut r, true);
                            let o = r.below(buf.len() - s);
                            let x = &buf[o..o + s];
                            let got = if r.chance(1, 2) || pat {
                                wz_reader::reader::get_decrypt_slice(x, s, &k)
                            } else {
                                rd.get_decrypt_slice(o..o + s)
                            }
                            .map_err(|e| format!("shared key: {e}"))?;
                            if let Some(i) = (0..s).find(|i| got[*i] != x[*i] ^ st[*i]) {
                                return Err(format!("shared key: wrong byte {i} of {s}"));
                            }
                            n += s as u64;
                        }
                        Ok(n)
                    })
                })
                .collect();
            for t in hs {
                match t.join() {
                    Ok(r) => {
                        let n = r?;
                        c.st.add("keystream_observations", n);
                    }
                    Err(_) => return Err("a thread using a shared key panicked".into()),
                }
                c.st.add("threads_used", 1);
            }
        }
    }
    c.st.seen("histories", h ^ (u32::from_le_bytes(iv) as u64) << 8);
    c.st.sample(|| format!("kind {}, iv {:02x?}", idx % 4, iv));
    Ok(())
}
