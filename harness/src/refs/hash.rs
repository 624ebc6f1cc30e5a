//! SHA-256/512 (FIPS 180-4), HMAC (RFC 2104), HKDF (RFC 5869).
use super::nat::Nat;
use std::sync::OnceLock;

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}

/// floor(p^(1/k) * 2^64) mod 2^64: the first 64 bits of the fractional part.
fn root_frac(p: u64, k: u32) -> u64 {
    // largest r with r^k <= p * 2^(64 k)
    let target = Nat::from_u64(p).shl(64 * k as usize);
    let mut r = Nat::zero();
    for b in (0..70).rev() {
        let t = r.add(&Nat::pow2(b));
        let mut pw = t.clone();
        for _ in 1..k {
            pw = pw.mul(&t);
        }
        if pw <= target {
            r = t;
        }
    }
    r.limbs(1)[0]
}

struct Consts {
    k512: Vec<u64>,
    h512: Vec<u64>,
}
fn consts() -> &'static Consts {
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| Consts {
        k512: primes(80).into_iter().map(|p| root_frac(p, 3)).collect(),
        h512: primes(8).into_iter().map(|p| root_frac(p, 2)).collect(),
    })
}

pub fn sha256(msg: &[u8]) -> [u8; 32] {
    let c = consts();
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    let mut h: Vec<u32> = c.h512.iter().map(|x| (x >> 32) as u32).collect();
    for b in m.chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|x| u32::from_be_bytes(x.try_into().unwrap())).collect();
        for t in 16..64 {
            let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
            let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
            w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
        }
        let mut s = h.clone();
        for t in 0..64 {
            let e1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
            let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7]
                .wrapping_add(e1)
                .wrapping_add(ch)
                .wrapping_add((c.k512[t] >> 32) as u32)
                .wrapping_add(w[t]);
            let e0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
            let maj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
            let t2 = e0.wrapping_add(maj);
            s.rotate_right(1);
            s[4] = s[4].wrapping_add(t1);
            s[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    let v: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect();
    v.try_into().unwrap()
}

pub fn sha512(msg: &[u8]) -> [u8; 64] {
    let c = consts();
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u128) * 8).to_be_bytes());
    let mut h = c.h512.clone();
    for b in m.chunks(128) {
        let mut w: Vec<u64> = b.chunks(8).map(|x| u64::from_be_bytes(x.try_into().unwrap())).collect();
        for t in 16..80 {
            let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
            let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
            w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
        }
        let mut s = h.clone();
        for t in 0..80 {
            let e1 = s[4].rotate_right(14) ^ s[4].rotate_right(18) ^ s[4].rotate_right(41);
            let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7].wrapping_add(e1).wrapping_add(ch).wrapping_add(c.k512[t]).wrapping_add(w[t]);
            let e0 = s[0].rotate_right(28) ^ s[0].rotate_right(34) ^ s[0].rotate_right(39);
            let maj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
            let t2 = e0.wrapping_add(maj);
            s.rotate_right(1);
            s[4] = s[4].wrapping_add(t1);
            s[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    let v: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect();
    v.try_into().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum H {
    S256,
    S512,
}
impl H {
    pub fn hash(self, m: &[u8]) -> Vec<u8> {
        match self {
            H::S256 => sha256(m).to_vec(),
            H::S512 => sha512(m).to_vec(),
        }
    }
    pub fn block(self) -> usize {
        match self {
            H::S256 => 64,
            H::S512 => 128,
        }
    }
    pub fn size(self) -> usize {
        match self {
            H::S256 => 32,
            H::S512 => 64,
        }
    }
}

pub fn hmac(h: H, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > h.block() { h.hash(key) } else { key.to_vec() };
    k.resize(h.block(), 0);
    let mut i: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    o.extend_from_slice(&h.hash(&i));
    h.hash(&o)
}

pub fn hkdf_extract(h: H, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    hmac(h, salt, ikm)
}

pub fn hkdf_expand(h: H, prk: &[u8], info: &[u8], len: usize) -> Vec<u8> {
    assert!(len <= 255 * h.size());
    let mut out = vec![];
    let mut t = vec![];
    let mut n = 0u32;
    while out.len() < len {
        n += 1;
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(n as u8);
        t = hmac(h, prk, &m);
        out.extend_from_slice(&t);
    }
    out.truncate(len);
    out
}

/// TLS 1.3 HKDF-Expand-Label with SHA-256.
pub fn expand_label(secret: &[u8], label: &str, context: &[u8], len: usize) -> Vec<u8> {
    let full = format!("tls13 {label}");
    let mut info = (len as u16).to_be_bytes().to_vec();
    info.push(full.len() as u8);
    info.extend_from_slice(full.as_bytes());
    info.push(context.len() as u8);
    info.extend_from_slice(context);
    hkdf_expand(H::S256, secret, &info, len)
}

pub fn selftest() {
    use super::hex;
    assert_eq!(sha256(b"abc").to_vec(), hex("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"));
    assert_eq!(sha256(b"").to_vec(), hex("e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"));
    assert_eq!(
        sha512(b"abc").to_vec(),
        hex("ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f")
    );
    assert_eq!(
        hmac(H::S256, &[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First"),
        hex("60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54")
    );
    assert_eq!(
        hmac(H::S512, &[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First"),
        hex("80b24263c7c1a3ebb71493c1dd7be8b49b46d1f41b4aeec1121b013783f8f3526b56d037e05f2598bd0fd2215d6a1e5295e64f73f63f0aec8b915a985d786598")
    );
    let prk = hkdf_extract(H::S256, &hex("000102030405060708090a0b0c"), &[0x0b; 22]);
    assert_eq!(
        hkdf_expand(H::S256, &prk, &hex("f0f1f2f3f4f5f6f7f8f9"), 42),
        hex("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865")
    );
}
