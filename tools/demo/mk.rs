//! Small writer for demonstration archives (plain cipher).
#![allow(dead_code)]
pub fn int(v: i32) -> Vec<u8> {
    if (-127..=127).contains(&v) { vec![v as i8 as u8] } else { let mut b = vec![0x80]; b.extend(v.to_le_bytes()); b }
}
pub fn st(s: &str) -> Vec<u8> {
    if s.is_empty() { return vec![0]; }
    if s.is_ascii() {
        let mut b = if s.len() < 128 { vec![(-(s.len() as i32)) as i8 as u8] } else { let mut b = vec![0x80]; b.extend((s.len() as i32).to_le_bytes()); b };
        b.extend(s.bytes().enumerate().map(|(i, c)| c ^ (0xAAu8.wrapping_add(i as u8))));
        b
    } else {
        let u: Vec<u16> = s.encode_utf16().collect();
        let mut b = if u.len() < 127 { vec![u.len() as u8] } else { let mut b = vec![0x7f]; b.extend((u.len() as i32).to_le_bytes()); b };
        for (i, c) in u.iter().enumerate() { b.extend((c ^ 0xAAAAu16.wrapping_add(i as u16)).to_le_bytes()); }
        b
    }
}
/// inline string block
pub fn blk(s: &str, first: u8) -> Vec<u8> { let mut b = vec![first]; b.extend(st(s)); b }
pub enum P { Null, Short(i16), Int(i32), Long(i64), Float(f32), Double(f64), Str(String), Ext(Vec<u8>) }
pub fn list(kids: &[(&str, P)]) -> Vec<u8> {
    let mut b = vec![0, 0];
    b.extend(int(kids.len() as i32));
    for (n, p) in kids {
        b.extend(blk(n, 0));
        match p {
            P::Null => b.push(0),
            P::Short(v) => { b.push(2); b.extend(v.to_le_bytes()); }
            P::Int(v) => { b.push(3); b.extend(int(*v)); }
            P::Long(v) => { b.push(20); if (-127..=127).contains(v) { b.push(*v as u8) } else { b.push(0x80); b.extend(v.to_le_bytes()); } }
            P::Float(v) => { b.push(4); b.push(0x80); b.extend(v.to_le_bytes()); }
            P::Double(v) => { b.push(5); b.extend(v.to_le_bytes()); }
            P::Str(s) => { b.push(8); b.extend(blk(s, 0)); }
            P::Ext(e) => { b.push(9); b.extend((e.len() as u32).to_le_bytes()); b.extend(e); }
        }
    }
    b
}
pub fn ext(kind: &str, body: Vec<u8>) -> P { let mut b = blk(kind, 0x73); b.extend(body); P::Ext(b) }
pub fn sub(kids: &[(&str, P)]) -> P { ext("Property", list(kids)) }
pub fn uol(s: &str) -> P { let mut b = vec![0]; b.extend(blk(s, 0)); ext("UOL", b) }
pub fn vec2(x: i32, y: i32) -> P { let mut b = int(x); b.extend(int(y)); ext("Shape2D#Vector2D", b) }
/// canvas with already deflated data
pub fn canvas(kids: &[(&str, P)], w: i32, h: i32, format: i32, z: &[u8]) -> P {
    let mut b = vec![0];
    if kids.is_empty() { b.push(0) } else { b.push(1); b.extend(list(kids)); }
    b.extend(int(w)); b.extend(int(h)); b.extend(int(format)); b.push(0); b.extend([0; 4]);
    b.extend((z.len() as u32 + 1).to_le_bytes()); b.push(0); b.extend(z);
    ext("Canvas", b)
}
pub fn img(kids: &[(&str, P)]) -> Vec<u8> { let mut b = blk("Property", 0x73); b.extend(list(kids)); b }

pub enum E { Dir(Vec<(String, E)>), Img(Vec<u8>) }
pub fn hash(v: i32) -> u32 { v.to_string().bytes().fold(0u32, |h, c| h.wrapping_mul(32).wrapping_add(c as u32 + 1)) }
pub fn enc_off(pos: usize, fstart: usize, hash: u32, target: usize) -> u32 {
    let mut o = !((pos - fstart) as u32);
    o = o.wrapping_mul(hash).wrapping_sub(0x581C3F6D);
    o = o.rotate_left(o & 31);
    o ^ (target as u32).wrapping_sub(2 * fstart as u32)
}
/// `junk`: put an entry of the ignorable kind in front of each directory's entries
pub fn pkg1(tree: &[(String, E)], v: i32, junk: bool) -> Vec<u8> {
    let fs = 60usize;
    let mut out = b"PKG1".to_vec();
    out.extend([0; 8]);
    out.extend((fs as u32).to_le_bytes());
    out.resize(fs, b'.');
    let h = hash(v).to_le_bytes();
    out.extend(((0xff ^ h[0] ^ h[1] ^ h[2] ^ h[3]) as u16).to_le_bytes());
    dir(&mut out, tree, fs, hash(v), junk);
    let n = (out.len() - fs) as u64;
    out[4..12].copy_from_slice(&n.to_le_bytes());
    out
}
pub fn dir(out: &mut Vec<u8>, kids: &[(String, E)], fs: usize, h: u32, junk: bool) {
    out.extend(int(kids.len() as i32 + junk as i32));
    if junk { out.push(1); out.extend([7; 10]); }
    let mut at = vec![];
    for (n, e) in kids {
        out.push(if matches!(e, E::Dir(_)) { 3 } else { 4 });
        out.extend(st(n));
        let s = match e { E::Img(i) => i.len(), _ => 1 };
        out.push(0x80);
        out.extend((s as i32).to_le_bytes());
        out.extend(int(77));
        at.push(out.len());
        out.extend([0; 4]);
    }
    for (i, (_, e)) in kids.iter().enumerate() {
        let t = out.len();
        let v = enc_off(at[i], fs, h, t);
        out[at[i]..at[i] + 4].copy_from_slice(&v.to_le_bytes());
        match e { E::Img(b) => out.extend(b), E::Dir(d) => dir(out, d, fs, h, junk) }
    }
}
