//! Independent writer of the `.ms` packs of both kinds.
use crate::crypt::{chacha20_block, Snow2};
use crate::img::evil;
use crate::rng::Rng;

const BASE: [u8; 32] = [
    0x7B, 0x2F, 0x35, 0x48, 0x43, 0x95, 0x02, 0xB9, 0xAE, 0x91, 0xA6, 0xE1, 0xD8, 0xD6, 0x24, 0xB4, 0x33, 0x10, 0x1D, 0x3D, 0xC1, 0xBB, 0xC6, 0xF4, 0xA5, 0xFE, 0xB3, 0x69, 0x6B, 0x56, 0xE4, 0x75,
];

#[derive(Clone, Debug)]
pub struct Entry {
    pub name: String,
    pub data: Vec<u8>,
    /// filled by the writer
    pub start: usize,
    pub aligned: usize,
    pub fields: [i32; 6], // checksum, flags, unk1..4
    pub key: [u8; 16],
}
#[derive(Clone, Debug)]
pub struct Pack {
    pub v2: bool,
    pub file: String,
    pub salt: Vec<u8>,
    pub entries: Vec<Entry>,
    /// the order in which the blocks lie in the file, and the gaps (in pages) before them
    pub order: Vec<usize>,
    pub gaps: Vec<usize>,
    /// pages beyond what the size needs
    pub slack: Vec<usize>,
}
pub struct Built {
    pub bytes: Vec<u8>,
    pub entries: Vec<Entry>,
    pub table: usize,
    pub hstart: usize,
    pub rand0: u8,
    pub rand_len: usize,
}

struct ChachaTable {
    key: [u8; 32],
    out: Vec<u8>,
    pos: usize,
    ctr: u32,
    ks: [u8; 64],
}
impl ChachaTable {
    fn put(&mut self, d: &[u8]) {
        for b in d {
            if self.pos == 64 {
                self.ks = chacha20_block(&self.key, self.ctr, &[0; 12]);
                self.ctr += 1;
                self.pos = 0;
            }
            self.out.push(b ^ self.ks[self.pos]);
            self.pos += 1;
        }
        // the stream starts anew where a field ends with a block
        if self.pos == 64 {
            self.ctr = 0;
        }
    }
}

fn fnv(salt: &[u8]) -> u32 {
    salt.iter().fold(0x811C9DC5u32, |h, b| (h ^ *b as u32).wrapping_mul(0x1000193))
}

fn img_key(i: usize, name: &[u16], digits: &[u8], ek: &[u8; 16]) -> u8 {
    let n = digits.len();
    let c = name[i % name.len()] as u8;
    let a = digits[i % n] % 2;
    let b = ek[(digits[(i + 2) % n] as usize + i) % 16];
    let d = ((digits[(i + 1) % n] as usize + i) % 5) as u8;
    (i as u8).wrapping_add(c.wrapping_mul(a.wrapping_add(b).wrapping_add(d)))
}

pub fn encrypt_block(p: &Pack, e: &Entry, buf: &mut [u8]) {
    let h = fnv(&p.salt);
    let digits: Vec<u8> = h.to_string().bytes().map(|b| b - b'0').collect();
    let name: Vec<u16> = e.name.encode_utf16().collect();
    if !p.v2 {
        let key: [u8; 16] = std::array::from_fn(|i| img_key(i, &name, &digits, &e.key));
        Snow2::new(&key).encrypt(buf);
        let n = buf.len().min(1024);
        Snow2::new(&key).encrypt(&mut buf[..n]);
    } else {
        let key: [u8; 32] = std::array::from_fn(|i| img_key(i, &name, &digits, &e.key) ^ BASE[i]);
        let (h2, h3) = (h >> 1, (h >> 1) ^ 0x6C);
        let mut d = [h.to_le_bytes(), h2.to_le_bytes(), h3.to_le_bytes()].concat();
        for (i, x) in d.iter_mut().enumerate() {
            let j = i as i32;
            *x ^= (-j + 11 * (j / 11) + ((90 + 43 * j) ^ (j >> 2)) + ((8 * j) ^ (17 * j))) as u8;
        }
        let mut nonce = [0u8; 12];
        nonce[4..].copy_from_slice(&d[..8]);
        let ctr = u32::from_le_bytes(d[8..12].try_into().unwrap());
        let n = buf.len().min(1024);
        for (i, blk) in buf[..n].chunks_mut(64).enumerate() {
            let ks = chacha20_block(&key, ctr.wrapping_add(i as u32), &nonce);
            blk.iter_mut().zip(ks).for_each(|(a, b)| *a ^= b);
        }
    }
}

pub fn build(rng: &mut Rng, p: &Pack) -> Built {
    let name = p.file.to_ascii_lowercase();
    let sum: usize = name.bytes().map(|b| b as usize).sum();
    let rl = sum % 312 + 30;
    let rand = rng.bytes(rl);
    let mut o = rand.clone();
    let mix: Vec<u8> = if p.v2 { rand.iter().map(|b| ((*b as i8) >> 1) as u8).collect() } else { rand.clone() };
    if p.v2 {
        o.push(4 ^ mix[0]);
    }
    let hl = [p.salt.len() as u8 ^ mix[0], rng.u8(), rng.u8(), rng.u8()];
    o.extend(hl);
    let mut sb = vec![];
    for (i, c) in p.salt.iter().enumerate() {
        sb.push(c ^ mix[i] ^ if p.v2 { 0x4B } else { 0 });
        sb.push(rng.u8());
    }
    o.extend(&sb);
    let hstart = o.len();
    let ns: Vec<u8> = name.bytes().chain(p.salt.iter().copied()).collect();
    let n = evil(p.entries.len() as i64) as i32;
    let (hl_i, salt_sum) = (i32::from_le_bytes(hl), sb.chunks(2).fold(0i32, |a, s| a.wrapping_add(u16::from_le_bytes([s[0], s[1]]) as i32)));

    // places of the blocks
    let mut es = p.entries.clone();
    let mut page = 0;
    for (k, &i) in p.order.iter().enumerate() {
        page += p.gaps[k];
        es[i].start = page;
        es[i].aligned = (es[i].data.len() + 1023) / 1024 * 1024 + p.slack[k] * 1024;
        page += es[i].aligned / 1024;
    }

    let mut plain: Vec<Vec<u8>> = vec![];
    for e in &es {
        let u: Vec<u16> = e.name.encode_utf16().collect();
        plain.push((evil(u.len() as i64) as i32).to_le_bytes().to_vec());
        plain.push(u.iter().flat_map(|x| x.to_le_bytes()).collect());
        for v in [e.fields[0], e.fields[1], e.start as i32, e.data.len() as i32, e.aligned as i32, e.fields[2], e.fields[3]] {
            plain.push((evil(v as i64) as i32).to_le_bytes().to_vec());
        }
        plain.push(e.key.to_vec());
        if p.v2 {
            plain.push(e.fields[4].to_le_bytes().to_vec());
            plain.push(e.fields[5].to_le_bytes().to_vec());
        }
    }
    let rev = |i: usize| ns[ns.len() - 1 - i % ns.len()];
    let (estart, table) = if !p.v2 {
        let key: [u8; 16] = std::array::from_fn(|i| ns[i % ns.len()].wrapping_add(i as u8));
        let hash = hl_i.wrapping_add(2).wrapping_add(n).wrapping_add(salt_sum);
        let mut h = [0u8; 12];
        h[..4].copy_from_slice(&hash.to_le_bytes());
        h[4] = 2;
        h[5..9].copy_from_slice(&n.to_le_bytes());
        h[9..].copy_from_slice(&rng.bytes(3));
        // only nine bytes belong to the header, the rest of the last word lies in the padding
        Snow2::new(&key).encrypt(&mut h);
        o.extend(h);
        let key: [u8; 16] = std::array::from_fn(|i| (i as u8).wrapping_add((i as u8 % 3 + 2).wrapping_mul(rev(i))));
        let mut t = plain.concat();
        while t.len() % 4 != 0 {
            t.push(0);
        }
        Snow2::new(&key).encrypt(&mut t);
        (hstart + 9 + sum * 3 % 212 + 33, t)
    } else {
        let key: [u8; 32] = std::array::from_fn(|i| ns[i % ns.len()].wrapping_add(i as u8) ^ BASE[i]);
        let hash = hl_i.wrapping_add(4).wrapping_add(n).wrapping_add(salt_sum);
        let ks = chacha20_block(&key, 0, &[0; 12]);
        let h = [hash.to_le_bytes(), n.to_le_bytes()].concat();
        o.extend(h.iter().zip(ks).map(|(a, b)| a ^ b));
        let key: [u8; 32] = std::array::from_fn(|i| BASE[i] ^ (i as u8).wrapping_add((i as u8 % 3 + 2).wrapping_mul(rev(i))));
        let mut t = ChachaTable { key, out: vec![], pos: 64, ctr: 0, ks: [0; 64] };
        for f in &plain {
            t.put(f);
        }
        while t.pos != 64 {
            t.put(&[0]);
        }
        (hstart + 8 + sum * 3 % 212 + 64, t.out)
    };
    while o.len() < estart {
        o.push(rng.u8());
    }
    assert_eq!(o.len(), estart);
    let tlen = table.len();
    o.extend(table);
    while o.len() % 1024 != 0 {
        o.push(rng.u8());
    }
    let data = o.len();
    o.resize(data + page * 1024, 0);
    let junk = rng.bytes(1024);
    for (i, b) in o[data..].iter_mut().enumerate() {
        *b = junk[i % 1024] ^ (i >> 10) as u8;
    }
    for e in es.iter_mut() {
        let at = data + e.start * 1024;
        let b = &mut o[at..at + e.aligned];
        b[..e.data.len()].copy_from_slice(&e.data);
        let mut v = b.to_vec();
        encrypt_block(p, e, &mut v);
        b.copy_from_slice(&v);
        e.start = at;
    }
    Built { bytes: o, entries: es, table: tlen, hstart, rand0: rand[0], rand_len: rl }
}
