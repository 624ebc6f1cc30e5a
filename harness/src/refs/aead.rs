//! AES (FIPS 197), GCM (SP 800-38D), ChaCha20-Poly1305 (RFC 8439).
use super::nat::Nat;
use std::sync::OnceLock;

fn xtime(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}
fn sbox() -> &'static [u8; 256] {
    static S: OnceLock<[u8; 256]> = OnceLock::new();
    S.get_or_init(|| {
        let mut s = [0u8; 256];
        for i in 0..256usize {
            let inv = (0..=255u8).find(|x| gmul(*x, i as u8) == 1).unwrap_or(0);
            s[i] = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
        }
        s
    })
}

pub struct Aes {
    rk: Vec<[u8; 16]>,
}
impl Aes {
    pub fn new(key: &[u8]) -> Self {
        let nk = key.len() / 4;
        let nr = nk + 6;
        let s = sbox();
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t.rotate_left(1);
                t = t.map(|b| s[b as usize]);
                t[0] ^= rcon;
                rcon = xtime(rcon);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|b| s[b as usize]);
            }
            for j in 0..4 {
                t[j] ^= w[i - nk][j];
            }
            w.push(t);
        }
        let rk = w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect();
        Aes { rk }
    }
    pub fn encrypt(&self, block: &[u8; 16]) -> [u8; 16] {
        let s = sbox();
        let mut st = *block;
        let n = self.rk.len() - 1;
        for i in 0..16 {
            st[i] ^= self.rk[0][i];
        }
        for r in 1..=n {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * c + row] = s[st[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r != n {
                for c in 0..4 {
                    let a: [u8; 4] = t[4 * c..4 * c + 4].try_into().unwrap();
                    for row in 0..4 {
                        t[4 * c + row] = gmul(a[row], 2) ^ gmul(a[(row + 1) % 4], 3) ^ a[(row + 2) % 4] ^ a[(row + 3) % 4];
                    }
                }
            }
            for i in 0..16 {
                st[i] = t[i] ^ self.rk[r][i];
            }
        }
        st
    }
}

fn gf128(x: u128, y: u128) -> u128 {
    let mut z = 0;
    let mut v = y;
    for i in (0..128).rev() {
        if x >> i & 1 == 1 {
            z ^= v;
        }
        let lsb = v & 1;
        v >>= 1;
        if lsb == 1 {
            v ^= 0xe1 << 120;
        }
    }
    z
}

/// Multiplication by a constant, for long messages.
pub struct GfTable(Vec<[u128; 256]>);
impl GfTable {
    pub fn new(h: u128) -> Self {
        GfTable((0..16).map(|i| std::array::from_fn(|b| gf128((b as u128) << (8 * i), h))).collect())
    }
    pub fn mul(&self, x: u128) -> u128 {
        (0..16).fold(0, |a, i| a ^ self.0[i][(x >> (8 * i)) as usize & 255])
    }
}

/// GCM's tag of a ciphertext. (The same as in `gcm_seal`, but in reasonable time
/// for very long inputs.)
pub fn gcm_tag_long(key: &[u8], iv: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let aes = Aes::new(key);
    let h = GfTable::new(u128::from_be_bytes(aes.encrypt(&[0; 16])));
    let mut y = 0u128;
    for part in [aad, ct] {
        for c in part.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            y = h.mul(y ^ u128::from_be_bytes(b));
        }
    }
    y = h.mul(y ^ ((aad.len() as u128 * 8) << 64 | ct.len() as u128 * 8));
    (y ^ u128::from_be_bytes(gcm_stream(key, iv, 1))).to_be_bytes()
}
/// Block number `n` of GCM's key stream (2 is the first for data).
pub fn gcm_stream(key: &[u8], iv: &[u8; 12], n: u32) -> [u8; 16] {
    let mut b = [0u8; 16];
    b[..12].copy_from_slice(iv);
    b[12..].copy_from_slice(&n.to_be_bytes());
    Aes::new(key).encrypt(&b)
}

/// (ciphertext, tag)
pub fn gcm_seal(key: &[u8], iv: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let aes = Aes::new(key);
    let h = u128::from_be_bytes(aes.encrypt(&[0; 16]));
    let ctr = |n: u32| {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(iv);
        b[12..].copy_from_slice(&n.to_be_bytes());
        aes.encrypt(&b)
    };
    let mut ct = pt.to_vec();
    for (i, c) in ct.chunks_mut(16).enumerate() {
        for (b, k) in c.iter_mut().zip(ctr(2 + i as u32)) {
            *b ^= k;
        }
    }
    let mut y = 0u128;
    for part in [aad, &ct] {
        for c in part.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            y = gf128(y ^ u128::from_be_bytes(b), h);
        }
    }
    y = gf128(y ^ ((aad.len() as u128 * 8) << 64 | ct.len() as u128 * 8), h);
    let t = y ^ u128::from_be_bytes(ctr(1));
    (ct, t.to_be_bytes())
}

pub fn chacha_block(key: &[u8; 32], counter: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    s[12] = counter;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[4 * i..4 * i + 4].try_into().unwrap());
    }
    let mut x = s;
    let mut qr = |a: usize, b: usize, c: usize, d: usize| {
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(16);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(12);
        x[a] = x[a].wrapping_add(x[b]);
        x[d] = (x[d] ^ x[a]).rotate_left(8);
        x[c] = x[c].wrapping_add(x[d]);
        x[b] = (x[b] ^ x[c]).rotate_left(7);
    };
    for _ in 0..10 {
        for i in 0..4 {
            qr(i, 4 + i, 8 + i, 12 + i);
        }
        for i in 0..4 {
            qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
        }
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes());
    }
    out
}

pub fn chacha(key: &[u8; 32], counter: u32, nonce: &[u8; 12], msg: &[u8]) -> Vec<u8> {
    let mut v = msg.to_vec();
    for (i, c) in v.chunks_mut(64).enumerate() {
        for (b, k) in c.iter_mut().zip(chacha_block(key, counter.wrapping_add(i as u32), nonce)) {
            *b ^= k;
        }
    }
    v
}

pub fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    let le = |b: &[u8]| {
        let mut v = b.to_vec();
        v.reverse();
        Nat::from_be(&v)
    };
    let mut r: [u8; 16] = key[..16].try_into().unwrap();
    for i in [3, 7, 11, 15] {
        r[i] &= 15;
    }
    for i in [4, 8, 12] {
        r[i] &= 252;
    }
    let r = le(&r);
    let s = le(&key[16..]);
    let p = Nat::pow2(130).sub(&Nat::from_u64(5));
    let mut a = Nat::zero();
    for c in msg.chunks(16) {
        let n = le(c).add(&Nat::pow2(8 * c.len()));
        // a * r < 2^131 * 2^124: reduce with 2^130 = 5
        let mut t = a.add(&n).mul(&r);
        while t >= p {
            if t.bits() > 130 {
                t = t.low(130).add(&t.shr(130).mul(&Nat::from_u64(5)));
            } else {
                t = t.sub(&p);
            }
        }
        a = t;
    }
    a.add(&s).to_le(16).try_into().unwrap()
}

pub fn chachapoly_seal(key: &[u8; 32], iv: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
    let otk: [u8; 32] = chacha_block(key, 0, iv)[..32].try_into().unwrap();
    let ct = chacha(key, 1, iv, pt);
    let mut m = vec![];
    for part in [aad, &ct] {
        m.extend_from_slice(part);
        while m.len() % 16 != 0 {
            m.push(0);
        }
    }
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    let t = poly1305(&otk, &m);
    (ct, t)
}

pub fn selftest() {
    use super::hex;
    let a = |s: &str| -> [u8; 16] { hex(s).try_into().unwrap() };
    let pt = a("00112233445566778899aabbccddeeff");
    assert_eq!(Aes::new(&hex("000102030405060708090a0b0c0d0e0f")).encrypt(&pt), a("69c4e0d86a7b0430d8cdb78070b4c55a"));
    assert_eq!(Aes::new(&hex("000102030405060708090a0b0c0d0e0f1011121314151617")).encrypt(&pt), a("dda97ca4864cdfe06eaf70a0ec0d7191"));
    assert_eq!(
        Aes::new(&hex("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f")).encrypt(&pt),
        a("8ea2b7ca516745bfeafc49904b496089")
    );
    // GCM test cases 2 and 4
    let (c, t) = gcm_seal(&[0; 16], &[0; 12], &[], &[0; 16]);
    assert_eq!((c, t), (hex("0388dace60b6a392f328c2b971b2fe78"), a("ab6e47d42cec13bdf53a67b21257bddf")));
    let (c, t) = gcm_seal(
        &hex("feffe9928665731c6d6a8f9467308308"),
        &hex("cafebabefacedbaddecaf888").try_into().unwrap(),
        &hex("feedfacedeadbeeffeedfacedeadbeefabaddad2"),
        &hex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39"),
    );
    assert_eq!(c, hex("42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa051ba30b396a0aac973d58e091"));
    assert_eq!(t, a("5bc94fbc3221a5db94fae95ae7121a47"));
    for n in [0, 16, 33, 100] {
        let m: Vec<u8> = (0..n).collect();
        let (c, t) = gcm_seal(&[7; 16], &[9; 12], &m[..n as usize / 2], &m);
        assert_eq!(t, gcm_tag_long(&[7; 16], &[9; 12], &m[..n as usize / 2], &c));
    }
    // RFC 8439 2.5.2, 2.8.2
    let key: [u8; 32] = hex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b").try_into().unwrap();
    assert_eq!(poly1305(&key, b"Cryptographic Forum Research Group"), a("a8061dc1305136c6c22b8baf0c0127a9"));
    let key: [u8; 32] = (0x80..0xa0).collect::<Vec<u8>>().try_into().unwrap();
    let (c, t) = chachapoly_seal(
        &key,
        &hex("070000004041424344454647").try_into().unwrap(),
        &hex("50515253c0c1c2c3c4c5c6c7"),
        b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.",
    );
    assert_eq!(t, a("1ae10b594f09e26a7e902ecbd0600691"));
    assert_eq!(c[..16].to_vec(), hex("d31a8d34648e60db7b86afbc53ef7ec2"));
}
