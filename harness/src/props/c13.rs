//! C13: sound, video, raw and script payloads.
use crate::img::{self, Img, Kids, SoundM, V};
use crate::props::c01;
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::wz::{self, Pkg1, T, TE};
use crate::crypt;
use std::io::{Cursor, Seek, SeekFrom, Write};
use std::path::PathBuf;
use wz_reader::property::{get_sound_type_from_header, WzSound, WzSoundType};
use wz_reader::{WzNode, WzNodeArc, WzNodeCast, WzObjectType};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        quick: 50000,
        thorough: 2000000,
        case,
        evals: "payloads_checked",
        distinct: "payload_shapes",
        rule: "each case stores sounds, videos, raw data, texts or scripts in one archive and extracts each of them in every way the library offers; distinct: payload kind x header form x length x place",
        need: &[
            "mp3_sounds", "wav_sounds", "binary_sounds", "videos", "raw_data", "texts", "packed_texts", "scripts", "written", "appended", "saved_files", "failing_writers", "unparsed_access", "scripts_multibyte", "scripts_ems",
            "scripts_gms", "scripts_plain", "empty_payloads", "long_payloads", "foreign_scripts",
        ],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

/// accepts a few bytes at a time, and no more than a given number in all
struct Slow {
    got: Vec<u8>,
    room: usize,
}
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.room == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(7).min(self.room);
        self.got.extend_from_slice(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Slow {
    fn seek(&mut self, _: SeekFrom) -> std::io::Result<u64> {
        Ok(self.got.len() as u64)
    }
}

fn len(rng: &mut Rng) -> usize {
    match rng.below(9) {
        0 => 0,
        1 => 1,
        2 => *rng.pick(&[63, 64, 65, 126, 127, 128, 129, 255, 256]),
        3 => *rng.pick(&[4095usize, 4096, 4097, 8192, 8193]),
        4 => rng.below(20000),
        5 if rng.chance(1, 300) => *rng.pick(&[65535, 65536, 65537, 70000, 200000]),
        _ => rng.below(400),
    }
}

fn text(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(8) {
        0 => rng.below(3),
        1 => 55 + rng.below(20),
        2 => *rng.pick(&[4000usize, 4096, 5000, 12000]),
        _ => rng.below(500),
    };
    let mut s = match rng.below(3) {
        0 => {
            // a wide character at and around the sample that the cipher is told from
            let mut s: String = "x".repeat(rng.below(66));
            s.push(*rng.pick(&['é', '한', '🎵', '\u{7ff}', '\u{800}']));
            s
        }
        _ => String::new(),
    };
    s.push_str(&img::gen_text_n(rng, n));
    s.into_bytes()
}

fn sound(rng: &mut Rng) -> V {
    let n = len(rng);
    let data = rng.bytes(n);
    let hl = *rng.pick(&[0x46usize, 0x46, 0x46, 0x46, 0, 1, 0x10, 0x34, 0x3b, 0x3c, 0x3d, 0x44, 0x45, 0x47, 0x52, 0x60, 300]);
    let mut header = rng.bytes(hl);
    let mut duration = rng.i32x().max(0);
    if hl >= 0x3c {
        let f = match rng.below(5) {
            0 | 1 => n as u32,
            2 => (n as u32).wrapping_add(1),
            3 => 44100,
            _ => rng.u32(),
        };
        header[0x38..0x3c].copy_from_slice(&f.to_le_bytes());
        duration = *rng.pick(&[1000, 1000, 1000, 999, 1001, 0, duration]);
    }
    V::Sound(SoundM { duration, header, data })
}

fn some(rng: &mut Rng, depth: usize) -> V {
    match rng.below(8) {
        0..=2 => sound(rng),
        3 => {
            let n = len(rng);
            V::Video(rng.bytes(n))
        }
        4 | 5 => {
            let n = len(rng);
            let ver = *rng.pick(&[0u8, 1, 1, 2]);
            let kids = if ver == 1 && depth < 2 && rng.chance(1, 2) { Some(list(rng, depth + 1)) } else { None };
            V::Raw(ver, kids, rng.bytes(n))
        }
        6 if depth < 3 => V::Prop(list(rng, depth + 1)),
        _ => V::Str(img::gen_text(rng)),
    }
}
fn list(rng: &mut Rng, depth: usize) -> Kids {
    (0..1 + rng.below(5)).map(|i| (format!("p{i}"), some(rng, depth))).collect()
}

fn check_sound(c: &mut Ctx, rng: &mut Rng, s: &WzSound, m: &SoundM, what: &str) -> Result<(), Fail> {
    let bad = |sig: &str, x: String| Fail::new(sig, format!("{sig}: {what} ({:?}, {} bytes, header of {}): {x}", m.kind(), m.data.len(), m.header.len()));
    let want = m.payload();
    if s.duration != m.duration as u32 {
        return Err(bad("sound duration", format!("{} stored {}", s.duration, m.duration)));
    }
    if s.sound_type != m.kind() {
        return Err(bad("sound kind", format!("{:?}", s.sound_type)));
    }
    let k = get_sound_type_from_header(&m.header, m.data.len() as u32, m.duration as u32);
    if k != m.kind() {
        return Err(bad("sound kind from header", format!("{k:?}")));
    }
    c.st.add(
        match m.kind() {
            WzSoundType::Mp3 => "mp3_sounds",
            WzSoundType::Wav => "wav_sounds",
            WzSoundType::Binary => "binary_sounds",
        },
        1,
    );
    let diff = |g: &[u8]| -> Option<String> {
        if g == &want[..] {
            return None;
        }
        let at = g.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
        Some(format!("{} bytes, expected {}; first difference at {at}", g.len(), want.len()))
    };
    if let Some(x) = diff(&s.get_buffer()) {
        return Err(bad("sound buffer", x));
    }
    if m.kind() == WzSoundType::Wav {
        let h = s.get_wav_header();
        if h.len() != 44 || h[..] != want[..44] {
            return Err(bad("wave header", format!("{h:02x?}")));
        }
    }
    if m.kind() != WzSoundType::Wav {
        // a wave header can be asked for all the same: the format is the stored one, or none
        let h = s.get_wav_header();
        if h.len() != 44 || h[..4] != *b"RIFF" || h[8..16] != *b"WAVEfmt " || h[36..40] != *b"data" || h[40..44] != (s.get_buffer().len() as u32).to_le_bytes() {
            return Err(bad("wave header", format!("{h:02x?}")));
        }
    }
    let mut w = Cursor::new(vec![]);
    s.write_to(&mut w).map_err(|e| bad("sound write", e.to_string()))?;
    if let Some(x) = diff(w.get_ref()) {
        return Err(bad("sound write", x));
    }
    c.st.add("written", 1);
    if rng.chance(1, 3) {
        // behind what the writer holds already
        let mut w = Cursor::new(b"before".to_vec());
        w.seek(SeekFrom::End(0)).unwrap();
        s.write_to(&mut w).map_err(|e| bad("sound append", e.to_string()))?;
        s.write_to(&mut w).map_err(|e| bad("sound append", e.to_string()))?;
        let g = w.into_inner();
        if &g[..6] != b"before" || g.len() != 6 + 2 * want.len() || g[6..6 + want.len()] != want[..] || g[6 + want.len()..] != want[..] {
            return Err(bad("sound append", format!("{} bytes", g.len())));
        }
        c.st.add("appended", 1);
    }
    if rng.chance(1, 3) {
        let room = if rng.chance(1, 2) { usize::MAX } else { rng.below(want.len() + 1) };
        let mut w = Slow { got: vec![], room };
        let res = s.write_to(&mut w);
        if room >= want.len() {
            if let Err(e) = res {
                if room > want.len() {
                    return Err(bad("sound to a slow writer", e.to_string()));
                }
            }
        } else if res.is_ok() {
            return Err(bad("sound to a full writer", format!("reported as written, {} bytes fit", room)));
        }
        if w.got[..] != want[..w.got.len()] || (room > want.len() && w.got.len() != want.len()) {
            return Err(bad("sound to a slow writer", format!("{} bytes", w.got.len())));
        }
        c.st.add("failing_writers", 1);
    }
    if rng.chance(1, 4) {
        let name = *rng.pick(&["snd", "snd.bin", "a.b.c", ".hidden", "sp ace", "한글"]);
        let base = c.dir.join(format!("out{}", rng.u32()));
        std::fs::create_dir_all(&base).unwrap();
        let p: PathBuf = base.join(name);
        s.save(p.clone()).map_err(|e| bad("sound save", e.to_string()))?;
        let files: Vec<PathBuf> = std::fs::read_dir(&base).unwrap().map(|e| e.unwrap().path()).collect();
        let expect = match m.kind() {
            WzSoundType::Wav => p.with_extension("wav"),
            WzSoundType::Mp3 => p.with_extension("mp3"),
            WzSoundType::Binary => p,
        };
        if files != vec![expect.clone()] {
            return Err(bad("sound save", format!("files {files:?}, expected {expect:?}")));
        }
        if let Some(x) = diff(&std::fs::read(&expect).unwrap()) {
            return Err(bad("sound save", x));
        }
        // nowhere to save
        // a full disk
        if !want.is_empty() && std::path::Path::new("/dev/full").exists() {
            for e in ["full.wav", "full.mp3", "full"] {
                let _ = std::os::unix::fs::symlink("/dev/full", base.join(e));
            }
            if s.save(base.join("full")).is_ok() {
                return Err(bad("sound save to a full disk", "reported as saved".into()));
            }
            for e in ["full.wav", "full.mp3", "full"] {
                std::fs::remove_file(base.join(e)).unwrap();
            }
            c.st.add("full_disks", 1);
        }
        if s.save(base.join("no").join("dir").join("x")).is_ok() {
            return Err(bad("sound save", "into a directory that is not there succeeds".into()));
        }
        std::fs::remove_file(&expect).unwrap();
        std::fs::remove_dir(&base).unwrap();
        c.st.add("saved_files", 1);
    }
    Ok(())
}

fn payloads(c: &mut Ctx, rng: &mut Rng, root: &WzNodeArc, kids: &[(String, &V)], path: &str) -> Result<(), Fail> {
    for (n, v) in kids {
        let p = if path.is_empty() { n.clone() } else { format!("{path}/{n}") };
        let wanted = matches!(v, V::Sound(_) | V::Video(_) | V::Raw(..));
        if wanted {
            let (node, how) = {
                let r = root.read().unwrap();
                match &r.object_type {
                    WzObjectType::Image(i) if !i.is_parsed => (i.at_path(&p).map_err(|e| format!("{p} not reached: {e}"))?, true),
                    _ => (r.at_path(&p).ok_or(format!("{p} not reached"))?, false),
                }
            };
            if how {
                c.st.add("unparsed_access", 1);
            }
            c.st.add("payloads_checked", 1);
            let r = node.read().unwrap();
            let blob = |c: &mut Ctx, kind: &str, g: &[u8], d: &[u8]| -> Result<(), Fail> {
                c.st.add(kind, 1);
                if d.is_empty() {
                    c.st.add("empty_payloads", 1);
                }
                if d.len() > 4000 {
                    c.st.add("long_payloads", 1);
                }
                c.st.seen_s("payload_shapes", &format!("{kind} {} {p}", d.len()));
                if g != d {
                    return Err(Fail::new(format!("{kind} payload"), format!("{kind} payload of {p}: {} bytes, stored {}", g.len(), d.len())));
                }
                Ok(())
            };
            match v {
                V::Sound(m) => {
                    let s = r.try_as_sound().ok_or(format!("{p} is no sound"))?;
                    c.st.seen_s("payload_shapes", &format!("sound {:?} {} {} {p}", m.kind(), m.header.len(), m.data.len()));
                    if m.data.is_empty() {
                        c.st.add("empty_payloads", 1);
                    }
                    check_sound(c, rng, s, m, &p)?
                }
                V::Video(d) => {
                    let s = r.try_as_video().ok_or(format!("{p} is no video"))?;
                    blob(c, "videos", s.get_buffer(), d)?
                }
                V::Raw(_, _, d) => {
                    let s = r.try_as_raw_data().ok_or(format!("{p} is no raw data"))?;
                    blob(c, "raw_data", s.get_buffer(), d)?
                }
                _ => {}
            }
        }
        payloads(c, rng, root, &v.kids(), &p)?;
    }
    Ok(())
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    let iv = *rng.pick(&[crypt::IV_BMS, crypt::IV_GMS, crypt::IV_EMS]);
    let mut tree: Vec<TE> = vec![];
    let mut foreign = vec![];
    for i in 0..1 + rng.below(6) {
        let (im, name): (Img, String) = match rng.below(6) {
            0 | 1 => {
                let t = text(&mut rng);
                let cipher = *rng.pick(&["ems", "gms", "none"]);
                if wz::lua_ambiguous(&t, cipher) {
                    continue;
                }
                (Img::Lua(t, cipher), format!("entry{i}.lua"))
            }
            2 => {
                let n = 1 + len(&mut rng);
                let mut d = rng.bytes(n);
                d[0] = *rng.pick(&[0x73, 0x01, 0x23]);
                (Img::Txt(d), format!("entry{i}.txt"))
            }
            3 => {
                let n = len(&mut rng);
                (Img::Pack(rng.bytes(n)), format!("entry{i}.img"))
            }
            _ => (Img::Props(list(&mut rng, 0)), format!("entry{i}.img")),
        };
        let mut e = img::encode(&mut rng, &im, iv);
        if let Img::Lua(t, _) = &im {
            // a script under a cipher that is none of the known ones is reported
            if t.len() > 70 && rng.chance(1, 8) {
                let k = crypt::keystream([1, 2, 3, 4], t.len());
                let at = e.len() - t.len();
                for j in 0..t.len() {
                    e[at + j] = t[j] ^ k[j];
                }
                let unknown = ["ems", "gms", "none"].iter().all(|x| {
                    let kk = crypt::keystream(match *x { "ems" => crypt::IV_EMS, "gms" => crypt::IV_GMS, _ => crypt::IV_BMS }, 64);
                    let d: Vec<u8> = (0..64).map(|j| e[at + j] ^ kk[j]).collect();
                    matches!(std::str::from_utf8(&d), Err(x) if x.error_len().is_some())
                });
                if !unknown {
                    continue;
                }
                foreign.push(tree.len());
            }
        }
        tree.push(TE { name, t: T::Img(im, e), byref: false, size: 0, off: 0 });
    }
    if tree.is_empty() {
        return Ok(());
    }
    let nested = rng.chance(1, 3);
    let o = Pkg1 { fstart: 60, version: 95, encver: true, iv, ignorable: false, junk: rng.chance(1, 2), plain: false };
    let t = if nested { vec![TE { name: "directory".into(), t: T::Dir(tree), byref: false, size: 0, off: 0 }] } else { tree };
    let b = wz::build_pkg1(&mut rng, t, &o);
        if b.version_ambiguous() {
            return Ok(());
        }
    let f = c.dir.join(format!("p{idx}.wz"));
    std::fs::write(&f, &b.bytes).unwrap();
    let root = WzNode::from_wz_file_full(&f, Some(c01::version_of(iv)), Some(95), None, None).map_err(|e| format!("not opened: {e}"))?.into_lock();
    root.write().unwrap().parse(&root).map_err(|e| format!("root does not parse: {e}"))?;
    let list = match &b.tree[0].t {
        T::Dir(k) => k,
        _ => &b.tree,
    };
    for (i, e) in list.iter().enumerate() {
        let p = if nested { format!("directory/{}", e.name) } else { e.name.clone() };
        let node = root.read().unwrap().at_path(&p).ok_or(format!("{p} not reached"))?;
        let unparsed = rng.chance(1, 3);
        if !unparsed {
            node.write().unwrap().parse(&node).map_err(|x| format!("{p} does not parse: {x}"))?;
        }
        let T::Img(im, _) = &e.t else { continue };
        let only = |name: &str| -> Result<WzNodeArc, Fail> {
            let r = node.read().unwrap();
            match &r.object_type {
                WzObjectType::Image(i) if !i.is_parsed => Ok(i.at_path(name).map_err(|e| format!("{p}/{name} not reached: {e}"))?),
                _ => Ok(r.at(name).ok_or(format!("{p}/{name} not reached"))?),
            }
        };
        match im {
            Img::Props(k) => {
                let k: Vec<(String, &V)> = k.iter().map(|(n, v)| (n.clone(), v)).collect();
                payloads(c, &mut rng, &node, &k, "")?
            }
            Img::Lua(t, cipher) => {
                c.st.add("payloads_checked", 1);
                let n = only("Script")?;
                let r = n.read().unwrap();
                let l = r.try_as_lua().ok_or(format!("{p} holds no script"))?;
                let got = l.extract_lua();
                if foreign.contains(&i) {
                    if let Ok(s) = got {
                        return Err(Fail::new("script under an unknown cipher", format!("{p}: text of {} bytes comes out", s.len())));
                    }
                    c.st.add("foreign_scripts", 1);
                    continue;
                }
                c.st.add("scripts", 1);
                c.st.add(match *cipher { "ems" => "scripts_ems", "gms" => "scripts_gms", _ => "scripts_plain" }, 1);
                if t.iter().any(|b| *b >= 0x80) {
                    c.st.add("scripts_multibyte", 1);
                }
                c.st.seen_s("payload_shapes", &format!("script {} {cipher}", t.len()));
                match got {
                    Ok(s) if s.as_bytes() == &t[..] => {}
                    Ok(s) => return Err(Fail::new("script text", format!("{p}: script of {} bytes under {cipher} reads as {} bytes, different", t.len(), s.len()))),
                    Err(x) => return Err(Fail::new("script text", format!("{p}: script of {} bytes under {cipher} unreadable: {x}", t.len()))),
                }
            }
            Img::Txt(d) | Img::Pack(d) => {
                c.st.add("payloads_checked", 1);
                let n = only("text.txt")?;
                let r = n.read().unwrap();
                let x = r.try_as_raw_data().ok_or(format!("{p} holds no text"))?;
                c.st.add(if matches!(im, Img::Txt(_)) { "texts" } else { "packed_texts" }, 1);
                c.st.seen_s("payload_shapes", &format!("text {} {}", d.len(), matches!(im, Img::Txt(_))));
                if x.get_buffer() != &d[..] {
                    return Err(Fail::new("text payload", format!("{p}: {} bytes, stored {}", x.get_buffer().len(), d.len())));
                }
            }
        }
    }
    std::fs::remove_file(&f).unwrap();
    Ok(())
}
