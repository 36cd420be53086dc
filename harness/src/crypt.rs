//! Independent implementations of the ciphers the formats use (nothing taken from the code under test).
use std::collections::HashMap;
use std::sync::Mutex;

pub const IV_GMS: [u8; 4] = [0x4D, 0x23, 0xC7, 0x2B];
pub const IV_EMS: [u8; 4] = [0xB9, 0x7D, 0x63, 0xE9];
pub const IV_BMS: [u8; 4] = [0; 4];

fn xtime(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}
fn sbox() -> [u8; 256] {
    let mut s = [0u8; 256];
    for i in 0..256usize {
        let inv = if i == 0 {
            0
        } else {
            (1..=255u8).find(|&x| gmul(i as u8, x) == 1).unwrap()
        };
        let r = |n: u32| inv.rotate_left(n);
        s[i] = inv ^ r(1) ^ r(2) ^ r(3) ^ r(4) ^ 0x63;
    }
    s
}

pub struct Aes256 {
    rk: Vec<[u8; 4]>,
    s: [u8; 256],
}
impl Aes256 {
    pub fn new(key: &[u8; 32]) -> Self {
        let s = sbox();
        let mut rk: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut t = rk[i - 1];
            if i % 8 == 0 {
                t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rcon = xtime(rcon);
            } else if i % 8 == 4 {
                t = [s[t[0] as usize], s[t[1] as usize], s[t[2] as usize], s[t[3] as usize]];
            }
            let p = rk[i - 8];
            rk.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes256 { rk, s }
    }
    pub fn encrypt(&self, b: &[u8; 16]) -> [u8; 16] {
        let mut st = *b;
        let add = |st: &mut [u8; 16], r: usize, rk: &Vec<[u8; 4]>| {
            for c in 0..4 {
                for k in 0..4 {
                    st[c * 4 + k] ^= rk[r * 4 + c][k];
                }
            }
        };
        add(&mut st, 0, &self.rk);
        for round in 1..=14 {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for r in 0..4 {
                    t[c * 4 + r] = self.s[st[((c + r) % 4) * 4 + r] as usize];
                }
            }
            if round != 14 {
                for c in 0..4 {
                    let a = [t[c * 4], t[c * 4 + 1], t[c * 4 + 2], t[c * 4 + 3]];
                    for r in 0..4 {
                        t[c * 4 + r] =
                            xtime(a[r]) ^ (xtime(a[(r + 1) % 4]) ^ a[(r + 1) % 4]) ^ a[(r + 2) % 4] ^ a[(r + 3) % 4];
                    }
                }
            }
            st = t;
            add(&mut st, round, &self.rk);
        }
        st
    }
}

const USER_KEY: [u8; 8] = [0x13, 0x08, 0x06, 0xB4, 0x1B, 0x0F, 0x33, 0x52];

pub fn wz_aes_key() -> [u8; 32] {
    let mut k = [0u8; 32];
    for i in 0..8 {
        k[i * 4] = USER_KEY[i];
    }
    k
}

/// Keystream for an AES key and iv, no caching.
pub fn keystream_raw(key: &[u8; 32], iv: [u8; 4], len: usize) -> Vec<u8> {
    let aes = Aes256::new(key);
    let mut blk = [0u8; 16];
    for i in 0..16 {
        blk[i] = iv[i % 4];
    }
    let mut out = Vec::with_capacity(len + 16);
    while out.len() < len {
        blk = aes.encrypt(&blk);
        out.extend_from_slice(&blk);
    }
    out.truncate(len);
    out
}

static CACHE: Mutex<Option<HashMap<[u8; 4], std::sync::Arc<Vec<u8>>>>> = Mutex::new(None);

/// Cached WZ keystream (at least `len` bytes); zero bytes for the zero iv.
pub fn keystream(iv: [u8; 4], len: usize) -> std::sync::Arc<Vec<u8>> {
    let mut g = CACHE.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if m.len() > 64 {
        m.retain(|k, _| [IV_BMS, IV_EMS, IV_GMS].contains(k));
    }
    if let Some(v) = m.get(&iv) {
        if v.len() >= len {
            return v.clone();
        }
    }
    let want = len.max(1 << 16);
    let v = if iv == [0; 4] {
        vec![0; want]
    } else {
        keystream_raw(&wz_aes_key(), iv, want)
    };
    let a = std::sync::Arc::new(v);
    m.insert(iv, a.clone());
    a
}

/// 8-byte key pattern of the PKG2 directory cipher.
pub fn pkg2_pattern(key: u64) -> [u8; 8] {
    let k = key.to_le_bytes();
    [k[0], k[1], k[1], k[2], k[2], k[3], k[3], k[4]]
}
fn mix32(mut k: u32) -> u32 {
    k ^= k >> 16;
    k = k.wrapping_mul(0x7FEB352D);
    k ^= k >> 15;
    k = k.wrapping_mul(0x846CA68B);
    k ^ (k >> 16)
}
pub fn kmst1199_key(h1: u32, h: u32) -> u32 {
    mix32(mix32(h1 ^ h ^ 0x6D4C3B2A) ^ 0x4F4CB34A)
}
pub fn kmst1202_key(h1: u64, h: u64) -> u64 {
    h1 ^ h ^ 0x66B57FEE317FD3DF
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn fips197() {
        let key: Vec<u8> = (0..32).collect();
        let mut k = [0u8; 32];
        k.copy_from_slice(&key);
        let pt: [u8; 16] = [0x00, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xff];
        let ct = Aes256::new(&k).encrypt(&pt);
        assert_eq!(ct, [0x8e, 0xa2, 0xb7, 0xca, 0x51, 0x67, 0x45, 0xbf, 0xea, 0xfc, 0x49, 0x90, 0x4b, 0x49, 0x60, 0x89]);
    }
}

// ---------------------------------------------------------------- SNOW 2.0, as the packs of the first kind use it

fn g8(mut a: u8, mut b: u8) -> u8 {
    // GF(2^8) of SNOW: x^8 + x^7 + x^5 + x^3 + 1
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0xA9 } else { 0 };
        b >>= 1;
    }
    r
}
struct SnowTab {
    mul: [u32; 256],
    div: [u32; 256],
    t: [u32; 256],
}
fn snow_tab() -> &'static SnowTab {
    static T: std::sync::OnceLock<SnowTab> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut p = [1u8; 256];
        for i in 1..256 {
            p[i] = g8(p[i - 1], 2);
        }
        let s = sbox();
        let mut o = SnowTab { mul: [0; 256], div: [0; 256], t: [0; 256] };
        for c in 0..256usize {
            let f = |e: [usize; 4]| u32::from_be_bytes(e.map(|k| g8(c as u8, p[k])));
            o.mul[c] = f([23, 245, 48, 239]);
            o.div[c] = f([16, 39, 6, 64]);
            let x = s[c];
            // one column of MixColumns, least significant byte first
            o.t[c] = u32::from_le_bytes([xtime(x), x, x, xtime(x) ^ x]);
        }
        o
    })
}
pub struct Snow2 {
    s: [u32; 16],
    r1: u32,
    r2: u32,
}
impl Snow2 {
    /// 128-bit key, no iv. The key bytes are loaded as signed numbers, as the original does.
    pub fn new(key: &[u8; 16]) -> Self {
        let k: Vec<u32> = (0..4)
            .map(|i| (0..4).fold(0u32, |a, j| a | ((key[4 * i + j] as i8 as i32 as u32).wrapping_shl(24 - 8 * j as u32))))
            .collect();
        let mut s = [0u32; 16];
        for i in 0..4 {
            s[15 - i] = k[i];
            s[11 - i] = !k[i];
            s[7 - i] = k[i];
            s[3 - i] = !k[i];
        }
        let mut c = Snow2 { s, r1: 0, r2: 0 };
        for _ in 0..32 {
            let f = c.r1.wrapping_add(c.s[15]) ^ c.r2;
            c.clock(f);
        }
        c
    }
    fn clock(&mut self, inject: u32) {
        let t = snow_tab();
        let v = (self.s[0] << 8) ^ t.mul[(self.s[0] >> 24) as usize] ^ self.s[2] ^ (self.s[11] >> 8) ^ t.div[(self.s[11] & 255) as usize] ^ inject;
        let n = self.r2.wrapping_add(self.s[5]);
        let b = self.r1.to_le_bytes();
        self.r2 = (0..4).fold(0, |a, i| a ^ t.t[b[i] as usize].rotate_left(8 * i as u32));
        self.r1 = n;
        self.s.rotate_left(1);
        self.s[15] = v;
    }
    pub fn word(&mut self) -> u32 {
        self.clock(0);
        self.r1.wrapping_add(self.s[15]) ^ self.r2 ^ self.s[0]
    }
    /// whole words only, as the format
    pub fn encrypt(&mut self, d: &mut [u8]) {
        for w in d.chunks_exact_mut(4) {
            let v = u32::from_le_bytes(w.try_into().unwrap()).wrapping_add(self.word());
            w.copy_from_slice(&v.to_le_bytes());
        }
    }
}

// ---------------------------------------------------------------- ChaCha20 (RFC 8439)

pub fn chacha20_block(key: &[u8; 32], ctr: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[4 * i..4 * i + 4].try_into().unwrap());
    }
    let init = s;
    let mut q = |a: usize, b: usize, c: usize, d: usize| {
        s[a] = s[a].wrapping_add(s[b]);
        s[d] = (s[d] ^ s[a]).rotate_left(16);
        s[c] = s[c].wrapping_add(s[d]);
        s[b] = (s[b] ^ s[c]).rotate_left(12);
        s[a] = s[a].wrapping_add(s[b]);
        s[d] = (s[d] ^ s[a]).rotate_left(8);
        s[c] = s[c].wrapping_add(s[d]);
        s[b] = (s[b] ^ s[c]).rotate_left(7);
    };
    for _ in 0..10 {
        q(0, 4, 8, 12);
        q(1, 5, 9, 13);
        q(2, 6, 10, 14);
        q(3, 7, 11, 15);
        q(0, 5, 10, 15);
        q(1, 6, 11, 12);
        q(2, 7, 8, 13);
        q(3, 4, 9, 14);
    }
    let mut o = [0u8; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    o
}
