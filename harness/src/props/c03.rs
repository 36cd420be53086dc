//! C03: primitive reads against an independent decoder, at every position of hostile and of encoded buffers.
use crate::rng::Rng;
use crate::sup::{Ctx, Fail, Prop};
use crate::{crypt, img};
use std::sync::{Arc, RwLock};
use wz_reader::property::{WzString, WzStringMeta, WzStringType};
use wz_reader::reader as rd;
use wz_reader::util::string_decryptor::{DecrypterType, Pkg2Decryptor};
use wz_reader::{Reader, SharedWzStringDecryptor, WzReader, WzSliceReader};

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        quick: 20000,
        thorough: 1_200_000,
        case,
        evals: "reads_compared",
        distinct: "read_shapes",
        rule: "every read of a random position of a buffer of encoded items or random bytes is compared with an independent decoder; distinct: (kind, encoding form, length class, cipher class)",
        need: &["sequential", "random_access", "by_reference", "long_strings", "lazy_resolved", "encoder_roundtrips", "dir_strings", "free_functions", "cut_off_strings", "ranges"],
        cpu_case: 60,
        digests: false,
        workers: 8,
    }
}

/// independent decoder
struct D<'a> {
    b: &'a [u8],
    iv: [u8; 4],
    pat: [u8; 8],
}
#[derive(Clone, Debug, PartialEq)]
enum St {
    Empty,
    Uni,
    Asc,
    Dir,
}
#[derive(Clone, Debug)]
struct S {
    kind: St,
    off: usize,
    len: usize, // bytes
    end: usize,
}
impl<'a> D<'a> {
    fn n<const N: usize>(&self, p: usize) -> Option<[u8; N]> {
        self.b.get(p..p.checked_add(N)?)?.try_into().ok()
    }
    fn int(&self, p: usize) -> Option<(i32, usize)> {
        let f = self.n::<1>(p)?[0];
        if f == 0x80 {
            Some((i32::from_le_bytes(self.n(p + 1)?), p + 5))
        } else {
            Some((f as i8 as i32, p + 1))
        }
    }
    fn int64(&self, p: usize) -> Option<(i64, usize)> {
        let f = self.n::<1>(p)?[0];
        if f == 0x80 {
            Some((i64::from_le_bytes(self.n(p + 1)?), p + 9))
        } else {
            Some((f as i8 as i64, p + 1))
        }
    }
    /// None: not a complete string
    fn str(&self, p: usize) -> Option<S> {
        let l = self.n::<1>(p)?[0] as i8;
        let (kind, n, off) = match l {
            0 => return Some(S { kind: St::Empty, off: 0, len: 0, end: p + 1 }),
            127 => (St::Uni, i32::from_le_bytes(self.n(p + 1)?), p + 5),
            -128 => (St::Asc, i32::from_le_bytes(self.n(p + 1)?), p + 5),
            l if l > 0 => (St::Uni, l as i32, p + 1),
            l => (St::Asc, -(l as i32), p + 1),
        };
        if n < 0 {
            return None;
        }
        let len = n as usize * if kind == St::Uni { 2 } else { 1 };
        if off + len > self.b.len() {
            return None;
        }
        Some(S { kind, off, len, end: off + len })
    }
    fn block(&self, p: usize, base: usize) -> Option<(S, usize, &'static str)> {
        match self.n::<1>(p)?[0] {
            0 | 0x73 => {
                let s = self.str(p + 1)?;
                let e = s.end;
                Some((s, e, "inline"))
            }
            1 | 0x1B => {
                let o = i32::from_le_bytes(self.n(p + 1)?);
                let t = usize::try_from(base as i64 + o as i64).ok()?;
                Some((self.str(t)?, p + 5, "reference"))
            }
            _ => Some((S { kind: St::Empty, off: 0, len: 0, end: p + 1 }, p + 1, "other")),
        }
    }
    fn dir(&self, p: usize, wide: bool) -> Option<S> {
        let (l, off) = if wide { (i16::from_le_bytes(self.n(p)?) as i64, p + 2) } else { (self.n::<1>(p)?[0] as i8 as i64, p + 1) };
        if l >= 0 {
            return Some(S { kind: St::Empty, off: 0, len: 0, end: off });
        }
        let len = (-l) as usize * 2;
        if off + len > self.b.len() {
            return None;
        }
        Some(S { kind: St::Dir, off, len, end: off + len })
    }
    fn text(&self, s: &S) -> String {
        let raw = &self.b[s.off..s.off + s.len];
        match s.kind {
            St::Empty => String::new(),
            St::Asc => {
                let ks = crypt::keystream(self.iv, s.len);
                let v: Vec<u8> = raw.iter().enumerate().map(|(i, b)| b ^ ks[i] ^ ((0xAA + i) & 0xff) as u8).collect();
                String::from_utf8_lossy(&v).into_owned()
            }
            St::Uni => {
                let ks = crypt::keystream(self.iv, s.len);
                let v: Vec<u16> = (0..s.len / 2)
                    .map(|i| u16::from_le_bytes([raw[2 * i] ^ ks[2 * i], raw[2 * i + 1] ^ ks[2 * i + 1]]) ^ ((0xAAAA + i) & 0xffff) as u16)
                    .collect();
                String::from_utf16_lossy(&v)
            }
            St::Dir => {
                let v: Vec<u16> =
                    (0..s.len / 2).map(|i| u16::from_le_bytes([raw[2 * i] ^ self.pat[2 * i % 8], raw[2 * i + 1] ^ self.pat[(2 * i + 1) % 8]])).collect();
                String::from_utf16_lossy(&v)
            }
        }
    }
}

fn text(rng: &mut Rng) -> String {
    let n = match rng.below(14) {
        0 => 0,
        1 => 1,
        2 | 3 => *rng.pick(&[125usize, 126, 127, 128, 129, 254, 255, 256, 257]),
        4 if rng.chance(1, 3) => *rng.pick(&[2047usize, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 12000]),
        5 if rng.chance(1, 8) => *rng.pick(&[21846usize, 33000, 65535, 65536, 70000]),
        _ => rng.below(40),
    };
    img::gen_text_n(rng, n)
}

fn lc(n: usize) -> u32 {
    match n {
        0 => 0,
        1 => 1,
        2..=125 => 2,
        126 => 3,
        127 => 4,
        128 => 5,
        129..=256 => 6,
        257..=2047 => 7,
        2048..=4096 => 8,
        4097..=32768 => 9,
        _ => 10,
    }
}

const KINDS: usize = 18;

/// One read at `p`, compared; None when the bytes there are no complete encoding (nothing is judged then).
#[allow(clippy::too_many_arguments)]
fn one(c: &mut Ctx, d: &D, r: &WzSliceReader, wr: &Arc<WzReader>, p: usize, kind: usize, base: usize, ivc: u32) -> Result<Option<usize>, Fail> {
    r.seek(p);
    let bad = |w: &str, got: String, want: String| -> Result<Option<usize>, Fail> {
        let cut = |s: String| if s.chars().count() > 60 { format!("{}… ({} chars)", s.chars().take(60).collect::<String>(), s.chars().count()) } else { s };
        Err(Fail::new(format!("{w} reads the wrong value"), format!("{w} at {p} of {} bytes: {} instead of {}", d.b.len(), cut(got), cut(want))))
    };
    let pos = |w: &str, end: usize| -> Result<(), Fail> {
        if r.pos.get() != end {
            return Err(Fail::new(format!("{w} leaves the cursor elsewhere"), format!("{w} at {p} left the cursor at {} instead of {end}", r.pos.get())));
        }
        Ok(())
    };
    // the functions over plain buffers; there is none for floating point
    macro_rules! rd_at {
        (read_float_at) => {
            false
        };
        (read_double_at) => {
            false
        };
        ($at:ident) => {
            rd::$at(d.b, p).is_ok()
        };
    }
    macro_rules! rd_cmp {
        (read_float_at, $w:ident) => {};
        (read_double_at, $w:ident) => {};
        ($at:ident, $w:ident) => {
            match rd::$at(d.b, p) {
                Ok(v) if v == $w => {}
                o => return bad(concat!("reader::", stringify!($at)), format!("{o:?}"), format!("{:?}", $w)),
            }
        };
    }
    macro_rules! fixed {
        ($n:literal, $t:ty, $m:ident, $at:ident, $w:expr) => {{
            let Some(b) = d.n::<$n>(p) else {
                // an incomplete value must be an error, not a made-up value
                if r.$at(p).is_ok() || wr.$at(p).is_ok() || rd_at!($at) {
                    return bad($w, "a value".into(), "an error (the value is cut off)".into());
                }
                return Ok(None);
            };
            let want = <$t>::from_le_bytes(b);
            let (a1, a2) = (r.$at(p), wr.$at(p));
            pos(concat!(stringify!($at)), p)?;
            rd_cmp!($at, want);
            let g = r.$m();
            for x in [a1, a2, g] {
                match x {
                    Ok(v) if v.to_le_bytes() == want.to_le_bytes() => {}
                    o => return bad($w, format!("{o:?}"), format!("{want:?}")),
                }
            }
            pos($w, p + $n)?;
            c.st.add("reads_compared", 3);
            Some(p + $n)
        }};
    }
    let strcmp = |c: &mut Ctx, w: &str, got: Result<String, rd::Error>, s: &S, end: usize| -> Result<(), Fail> {
        let want = d.text(s);
        match got {
            Ok(g) if g == want => {}
            o => {
                bad(w, format!("{o:?}"), format!("{want:?}"))?;
            }
        }
        pos(w, end)?;
        c.st.add("reads_compared", 1);
        if s.len > 255 {
            c.st.add("long_strings", 1);
        }
        Ok(())
    };
    let metacmp = |c: &mut Ctx, w: &str, got: Result<WzStringMeta, rd::Error>, s: &S, end: usize| -> Result<(), Fail> {
        let m = match got {
            Ok(m) => m,
            Err(e) => {
                bad(w, format!("error {e}"), "a description".into())?;
                unreachable!()
            }
        };
        let k = match m.string_type {
            WzStringType::Ascii => St::Asc,
            WzStringType::Unicode => St::Uni,
            WzStringType::Pkg2Dir => St::Dir,
            WzStringType::Empty => St::Empty,
        };
        if k != s.kind || (k != St::Empty && (m.offset != s.off || m.length as usize != s.len)) {
            bad(w, format!("{m:?}"), format!("{s:?}"))?;
        }
        pos(w, end)?;
        let want = d.text(s);
        let lazy = r.resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize);
        let lazy2 = wr.resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize);
        for l in [lazy, lazy2] {
            match l {
                Ok(g) if g == want => {}
                o => {
                    bad(&format!("{w} + resolve"), format!("{o:?}"), format!("{want:?}"))?;
                }
            }
        }
        // the strict variant agrees whenever the text is well-formed
        if let Ok(g) = r.try_resolve_wz_string_meta(&m.string_type, m.offset, m.length as usize) {
            if g != want {
                bad(&format!("{w} + strict resolve"), g, want.clone())?;
            }
        } else if !want.contains('\u{FFFD}') {
            bad(&format!("{w} + strict resolve"), "error".into(), want.clone())?;
        }
        pos(&format!("{w} + resolve"), end)?;
        match WzString::from_meta(m, wr).get_string() {
            Ok(g) if g == want => {}
            o => {
                bad("lazy string", format!("{o:?}"), format!("{want:?}"))?;
            }
        }
        c.st.add("reads_compared", 5);
        c.st.add("lazy_resolved", 1);
        Ok(())
    };
    let shape = |c: &mut Ctx, f: u32, n: usize| c.st.seen("read_shapes", (kind as u64) << 24 | (f as u64) << 16 | (lc(n) as u64) << 8 | ivc as u64);
    let end = match kind {
        0 => fixed!(1, u8, read_u8, read_u8_at, "read_u8"),
        1 => fixed!(2, u16, read_u16, read_u16_at, "read_u16"),
        2 => fixed!(4, u32, read_u32, read_u32_at, "read_u32"),
        3 => fixed!(8, u64, read_u64, read_u64_at, "read_u64"),
        4 => fixed!(1, i8, read_i8, read_i8_at, "read_i8"),
        5 => fixed!(2, i16, read_i16, read_i16_at, "read_i16"),
        6 => fixed!(4, i32, read_i32, read_i32_at, "read_i32"),
        7 => fixed!(8, i64, read_i64, read_i64_at, "read_i64"),
        8 => fixed!(4, f32, read_float, read_float_at, "read_float"),
        9 => fixed!(8, f64, read_double, read_double_at, "read_double"),
        10 => {
            let Some((v, e)) = d.int(p) else {
                if r.read_wz_int().is_ok() || rd::read_wz_int(d.b, Some(p)).is_ok() {
                    return bad("read_wz_int", "a value".into(), "an error".into());
                }
                return Ok(None);
            };
            match (r.read_wz_int(), rd::read_wz_int(d.b, Some(p)), rd::read_wz_int(&d.b[p..], None)) {
                (Ok(a), Ok(b), Ok(x)) if a == v && b == v && x == v => {}
                o => return bad("read_wz_int", format!("{o:?}"), v.to_string()),
            }
            pos("read_wz_int", e)?;
            shape(c, (e - p) as u32, 0);
            c.st.add("reads_compared", 2);
            Some(e)
        }
        11 => {
            let Some((v, e)) = d.int64(p) else {
                if r.read_wz_int64().is_ok() || rd::read_wz_long(d.b, Some(p)).is_ok() {
                    return bad("read_wz_int64", "a value".into(), "an error".into());
                }
                return Ok(None);
            };
            let a = r.read_wz_int64();
            pos("read_wz_int64", e)?;
            r.seek(p);
            let b = r.read_wz_long();
            pos("read_wz_long", e)?;
            if rd::read_wz_int64(&d.b[p..], None).ok() != Some(v) || rd::read_wz_long(&d.b[p..], None).ok() != Some(v) {
                return bad("read_wz_int64 of a slice", "something else".into(), v.to_string());
            }
            match (a, b, rd::read_wz_int64(d.b, Some(p)), rd::read_wz_long(d.b, Some(p))) {
                (Ok(a), Ok(b), Ok(x), Ok(y)) if a == v && b == v && x == v && y == v => {}
                o => return bad("read_wz_int64", format!("{o:?}"), v.to_string()),
            }
            shape(c, (e - p) as u32, 0);
            c.st.add("reads_compared", 4);
            Some(e)
        }
        12 => {
            let Some(s) = d.str(p) else {
                // cut off: no text may be made up
                if r.read_wz_string().is_ok() {
                    return bad("read_wz_string", "a text".into(), "an error (the text is cut off)".into());
                }
                c.st.add("cut_off_strings", 1);
                return Ok(None);
            };
            strcmp(c, "read_wz_string", r.read_wz_string(), &s, s.end)?;
            r.seek(p);
            metacmp(c, "read_wz_string_meta", r.read_wz_string_meta(), &s, s.end)?;
            // the two-step form: length byte first
            let l = d.b[p] as i8;
            if l != 0 {
                r.seek(p + 1);
                if l > 0 {
                    strcmp(c, "read_unicode_string", r.read_unicode_string(l), &s, s.end)?;
                } else {
                    strcmp(c, "read_ascii_string", r.read_ascii_string(l), &s, s.end)?;
                }
            }
            if d.iv == [0; 4] {
                match rd::read_wz_string(&d.b[p..]) {
                    Ok(g) if g == d.text(&s) => {}
                    o => return bad("reader::read_wz_string", format!("{o:?}"), d.text(&s)),
                }
                c.st.add("free_functions", 1);
            }
            shape(c, s.kind.clone() as u32 * 4 + (s.off - p.min(s.off)) as u32 % 4, s.len);
            Some(s.end)
        }
        13 => {
            let Some(s) = d.str(p) else { return Ok(None) };
            // at an explicit position: the cursor stays where it is
            let cur = c.st.counts.get("reads_compared").copied().unwrap_or(0) as usize % (d.b.len() + 1);
            r.seek(cur);
            strcmp(c, "read_wz_string_at_offset", r.read_wz_string_at_offset(p), &s, cur)?;
            metacmp(c, "read_wz_string_meta_at", r.read_wz_string_meta_at(p), &s, cur)?;
            Some(s.end)
        }
        14 | 15 => {
            let Some((s, e, how)) = d.block(p, base) else {
                if r.read_wz_string_block(base).is_ok() {
                    return bad("read_wz_string_block", "a text".into(), "an error (the text is cut off)".into());
                }
                c.st.add("cut_off_strings", 1);
                return Ok(None);
            };
            strcmp(c, "read_wz_string_block", r.read_wz_string_block(base), &s, e)?;
            r.seek(p);
            metacmp(c, "read_wz_string_block_meta", r.read_wz_string_block_meta(base), &s, e)?;
            if how == "reference" {
                c.st.add("by_reference", 1);
            }
            if d.iv == [0; 4] {
                let o = if how == "reference" { i32::from_le_bytes(d.n(p + 1).unwrap()) } else { 0 };
                if o >= 0 && base >= p {
                    // the slice form takes the target relative to the slice
                    // (not expressible for a slice that starts behind the base)
                    match rd::read_wz_string_block(&d.b[p..], base - p) {
                        Ok(g) if g == d.text(&s) => {}
                        o => return bad("reader::read_wz_string_block", format!("{o:?}"), d.text(&s)),
                    }
                    c.st.add("free_functions", 1);
                }
            }
            shape(c, how.len() as u32 * 8 + s.kind.clone() as u32, s.len);
            Some(e)
        }
        16 => {
            let Some(s) = d.dir(p, false) else {
                if r.read_wz_string_pkg2_dir().is_ok() {
                    return bad("read_wz_string_pkg2_dir", "a text".into(), "an error (the text is cut off)".into());
                }
                c.st.add("cut_off_strings", 1);
                return Ok(None);
            };
            strcmp(c, "read_wz_string_pkg2_dir", r.read_wz_string_pkg2_dir(), &s, s.end)?;
            r.seek(p);
            metacmp(c, "read_wz_string_pkg2_dir_meta", r.read_wz_string_pkg2_dir_meta(), &s, s.end)?;
            shape(c, s.kind.clone() as u32, s.len);
            c.st.add("dir_strings", 1);
            Some(s.end)
        }
        _ => {
            let Some(s) = d.dir(p, true) else { return Ok(None) };
            metacmp(c, "read_wz_string_pkg2_u64_dir_meta", r.read_wz_string_pkg2_u64_dir_meta(), &s, s.end)?;
            shape(c, s.kind.clone() as u32, s.len);
            c.st.add("dir_strings", 1);
            Some(s.end)
        }
    };
    Ok(end)
}

fn case(c: &mut Ctx, idx: u64) -> Result<(), Fail> {
    let mut rng = c.rng(idx);
    let iv = match rng.below(6) {
        0 | 1 => [0; 4],
        2 => crypt::IV_GMS,
        3 => crypt::IV_EMS,
        _ => rng.u32().to_le_bytes(),
    };
    let ivc = [[0; 4], crypt::IV_GMS, crypt::IV_EMS].iter().position(|x| *x == iv).unwrap_or(3) as u32;
    let key = match rng.below(3) {
        0 => 0xDEADBEEF,
        1 => rng.u32() as u64,
        _ => rng.u64(),
    };
    let pat = crypt::pkg2_pattern(key);

    // ---- the buffer: encoded items, each remembered, between junk
    let mut b = vec![];
    let n = rng.below(50);
    b.extend(rng.bytes(n));
    let base = rng.below(b.len() + 1);
    let mut items: Vec<(usize, usize, usize)> = vec![]; // start, kind, end
    let mut strs: Vec<usize> = vec![];
    let mut refs: Vec<usize> = vec![];
    for _ in 0..2 + rng.below(24) {
        let at = b.len();
        let kind = rng.below(KINDS);
        match kind {
            0..=9 => {
                let n = [1, 2, 4, 8, 1, 2, 4, 8, 4, 8][kind];
                let x = if rng.chance(1, 3) { rng.i64x().to_le_bytes().to_vec() } else { rng.bytes(8) };
                b.extend(&x[..n]);
            }
            10 => {
                let v = rng.i32x();
                let l = rng.chance(1, 4);
                b.extend(img::enc_int(v, l));
            }
            11 => {
                let v = rng.i64x();
                let l = rng.chance(1, 4);
                b.extend(img::enc_int64(v, l));
            }
            12 | 13 => {
                let t = text(&mut rng);
                let (u, l) = (rng.chance(1, 4), rng.chance(1, 4));
                b.extend(img::enc_str(&t, iv, u, l));
                strs.push(at);
            }
            14 => {
                b.push(*rng.pick(&[0, 0x73, 0, 0x73, 2, 0x74]));
                let t = text(&mut rng);
                let (u, l) = (rng.chance(1, 4), rng.chance(1, 4));
                if b[at] == 0 || b[at] == 0x73 {
                    b.extend(img::enc_str(&t, iv, u, l));
                    strs.push(at + 1);
                }
            }
            15 => {
                b.push(*rng.pick(&[1, 0x1B]));
                refs.push(b.len());
                b.extend([0; 4]);
            }
            _ => {
                let t = text(&mut rng);
                let mut u: Vec<u16> = t.encode_utf16().collect();
                u.truncate(if kind == 16 { 128 } else { 32768 });
                if rng.chance(1, 12) {
                    u.clear();
                    b.extend(if kind == 16 { vec![rng.below(128) as u8] } else { (rng.below(32768) as i16).to_le_bytes().to_vec() });
                } else if kind == 16 {
                    b.push((-(u.len() as i32)) as i8 as u8);
                } else {
                    b.extend((-(u.len() as i32) as i16).to_le_bytes());
                }
                for (i, x) in u.iter().enumerate() {
                    let x = x.to_le_bytes();
                    b.extend([x[0] ^ pat[2 * i % 8], x[1] ^ pat[(2 * i + 1) % 8]]);
                }
            }
        }
        items.push((at, kind, b.len()));
    }
    for r in refs {
        let t = if strs.is_empty() { base } else { *rng.pick(&strs) };
        let o = t as i64 - base as i64;
        b[r..r + 4].copy_from_slice(&(o as i32).to_le_bytes());
    }
    if rng.chance(1, 2) {
        let n = rng.below(30);
        b.extend(rng.bytes(n));
    }
    let d = D { b: &b, iv, pat };
    let pkg2: SharedWzStringDecryptor = Arc::new(RwLock::new(Pkg2Decryptor::new_with_key(key, DecrypterType::KMST1198)));
    let mut wr = WzReader::from_buff(&b).with_iv(iv);
    wr.pkg2_keys = pkg2.clone();
    let wr = Arc::new(wr);
    if Reader::get_size(&*wr) != b.len() {
        return Err("get_size differs from the buffer length".into());
    }
    let own;
    let r = if rng.chance(1, 2) {
        wr.create_slice_reader()
    } else {
        own = WzSliceReader::new(&b, &wr.keys).with_pkg2_keys(&pkg2);
        own
    };

    // ---- one pass over the items: every read ends where the next item starts
    for (at, kind, end) in &items {
        let e = one(c, &d, &r, &wr, *at, *kind, base, ivc)?;
        if *kind != 13 && *kind < 14 && e != Some(*end) {
            return Err(format!("harness: decoder and encoder disagree on kind {kind}").into());
        }
        c.st.add("sequential", 1);
    }
    // ---- any position, any kind
    for _ in 0..40 {
        let p = rng.below(b.len() + 3);
        let kind = rng.below(KINDS);
        one(c, &d, &r, &wr, p, kind, base, ivc)?;
        c.st.add("random_access", 1);
    }
    // ---- the library's own encoder
    for _ in 0..4 {
        let t = text(&mut rng);
        let s = WzString::from_str(&t, iv);
        match s.get_string() {
            Ok(g) if g == t => {}
            o => return Err(Fail::new("a text made with WzString::from_str does not read back", format!("{t:?} became {o:?}"))),
        }
        let s = WzString::from_str_pkg2_dir(&t);
        match s.get_string() {
            Ok(g) if g == t => {}
            o => return Err(Fail::new("a text made with WzString::from_str_pkg2_dir does not read back", format!("{t:?} became {o:?}"))),
        }
        for ty in [WzStringType::Unicode, WzStringType::Ascii, WzStringType::Pkg2Dir] {
            if ty == WzStringType::Ascii && !t.is_ascii() {
                continue;
            }
            let e = wr.encrypt_str(&t, &ty);
            let mut r2 = WzReader::from_buff(&e).with_iv(iv);
            r2.pkg2_keys = pkg2.clone();
            match r2.resolve_wz_string_meta(&ty, 0, e.len()) {
                Ok(g) if g == t => {}
                o => return Err(Fail::new(format!("encrypt_str {ty} does not read back"), format!("{ty}: {t:?} became {o:?}"))),
            }
            // and it is the stored form
            let body = match ty {
                WzStringType::Pkg2Dir => continue,
                WzStringType::Unicode => img::enc_str(&t, iv, true, true),
                _ => img::enc_str(&t, iv, false, true),
            };
            if !t.is_empty() && e[..] != body[5..] {
                return Err(Fail::new(format!("encrypt_str {ty} is not the stored form"), format!("{t:?}")));
            }
        }
        c.st.add("encoder_roundtrips", 5);
    }
    // ---- cursor bookkeeping
    let p = rng.below(b.len() + 1);
    r.seek(p);
    r.save_pos();
    if !r.is_valid_pos(b.len()) || r.is_valid_pos(b.len() + 1) || r.available() != b.len() - p {
        return Err("is_valid_pos or available is wrong".into());
    }
    let k = rng.below(b.len() - p + 1);
    r.skip(k);
    if r.pos.get() != p + k {
        return Err("skip moves by the wrong amount".into());
    }
    if r.get_slice_from_current(b.len() - p - k) != &b[p + k..] {
        return Err("get_slice_from_current differs".into());
    }
    r.restore_pos();
    if r.pos.get() != p {
        return Err("restore_pos does not restore".into());
    }
    // ---- ranges
    for _ in 0..4 {
        let (x, y) = (rng.below(b.len() + 3), rng.below(b.len() + 3));
        let want = b.get(x..y);
        for g in [wr.get_slice_or_error(x..y), r.get_slice_or_error(x..y)] {
            if g.as_ref().ok().copied() != want {
                return Err(Fail::new("get_slice_or_error differs", format!("{x}..{y} of {}", b.len())));
            }
        }
        let Some(want) = want else { continue };
        if wr.get_slice(x..y) != want || r.get_slice(x..y) != want {
            return Err(Fail::new("get_slice differs", format!("{x}..{y} of {}", b.len())));
        }
        if rd::read_string_by_len(&b, y - x, Some(x)) != String::from_utf8_lossy(want) || rd::read_string_by_len(want, y - x, None) != String::from_utf8_lossy(want) {
            return Err(Fail::new("read_string_by_len differs", format!("{x}..{y} of {}", b.len())));
        }
        // deciphering a range: from the first byte of the key on
        let ks = crypt::keystream(iv, want.len());
        let plain: Vec<u8> = want.iter().zip(ks.iter()).map(|(a, k)| a ^ k).collect();
        let pkg2: Vec<u8> = want.iter().enumerate().map(|(i, a)| a ^ pat[i % 8]).collect();
        for (w, g, p) in [
            ("get_decrypt_slice", wr.get_decrypt_slice(x..y), &plain),
            ("get_decrypt_slice", r.get_decrypt_slice(x..y), &plain),
            ("get_pkg2_decrypt_slice", wr.get_pkg2_decrypt_slice(x..y), &pkg2),
            ("get_pkg2_decrypt_slice", r.get_pkg2_decrypt_slice(x..y), &pkg2),
        ] {
            if g.ok().as_ref() != Some(p) {
                return Err(Fail::new(format!("{w} differs"), format!("{x}..{y} of {}", b.len())));
            }
        }
        c.st.add("ranges", 1);
    }
    if wr.get_ref_slice() != &b[..] && !b.is_empty() {
        return Err("get_ref_slice differs".into());
    }
    r.seek(b.len() + rng.below(9));
    if r.available() != 0 {
        return Err("available behind the end".into());
    }
    r.seek(usize::MAX - rng.below(3));
    r.skip(5);
    if r.read_u8().is_ok() || r.read_wz_string().is_ok() || r.available() != 0 {
        return Err("reading behind all ends".into());
    }
    c.st.sample(|| format!("{} items in {} bytes, iv {:02x?}, base {base}", items.len(), b.len(), iv));
    Ok(())
}
