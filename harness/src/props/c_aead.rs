//! C03 AES-GCM, C04 ChaCha20-Poly1305, C05 authenticity.
use crate::fw::*;
use crate::gens::*;
use crate::refs::aead as r;
use crate::{ensure, ensure_eq};
use crylib::aead::chacha::{chacha20, poly1305, ChaCha20Poly1305};
use crylib::aead::gcm::{Aes128, Aes192, Aes256, AesCipher, Gcm};
use crylib::aead::{Aead, BadData};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Alg {
    A128,
    A192,
    A256,
    ChaCha,
}
use Alg::*;
impl Alg {
    pub fn key_len(self) -> usize {
        match self {
            A128 => 16,
            A192 => 24,
            _ => 32,
        }
    }
    pub fn make(self, key: &[u8]) -> Box<dyn Aead> {
        match self {
            A128 => Box::new(Gcm::<Aes128>::new(key.try_into().unwrap())),
            A192 => Box::new(Gcm::<Aes192>::new(key.try_into().unwrap())),
            A256 => Box::new(Gcm::<Aes256>::new(key.try_into().unwrap())),
            ChaCha => Box::new(ChaCha20Poly1305::new(key.try_into().unwrap())),
        }
    }
    pub fn reference(self, key: &[u8], iv: &[u8; 12], aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
        match self {
            ChaCha => r::chachapoly_seal(key.try_into().unwrap(), iv, aad, pt),
            _ => r::gcm_seal(key, iv, aad, pt),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seal {
    alg: Alg,
    key: Hx,
    iv: Hx,
    aad: Msg,
    pt: Msg,
    slack: usize,
}

fn seal_strategy(alg: Alg, max: usize) -> impl Strategy<Value = Seal> + Clone {
    let b = if alg == ChaCha { 64 } else { 16 };
    let aad = prop_oneof![4 => msg(16, 80), 1 => msg(16, 600), 1 => Just(Msg::Raw(Hx(vec![])))];
    (fixed(alg.key_len()), fixed(12), aad, prop_oneof![3 => msg(16, 16 * b.min(20)), 1 => msg(b, max)], 0..40usize)
        .prop_map(move |(key, iv, aad, pt, slack)| Seal { alg, key, iv, aad, pt, slack })
}

fn check_seal(c: &Seal, obs: &mut Obs) -> Res {
    let (aad, pt) = (c.aad.bytes(), c.pt.bytes());
    let iv: [u8; 12] = c.iv[..].try_into().unwrap();
    if pt.is_empty() && aad.is_empty() {
        obs.trivial();
    }
    let class = |n: usize| match (n, n % 16) {
        (0, _) => "empty",
        (_, 0) => "whole blocks",
        _ => "partial block",
    };
    obs.label(format!("aad {} / data {}", class(aad.len()), class(pt.len())));
    let (ct, tag) = c.alg.reference(&c.key, &iv, &aad, &pt);
    let a = c.alg.make(&c.key);
    let what = format!("{:?}, {} bytes of associated data, {} of plaintext", c.alg, aad.len(), pt.len());

    let mut buf = pt.clone();
    let t = a.encrypt_inline(&mut buf, &aad, &iv);
    ensure!(buf == ct, "ciphertext", "in-place sealing gives a wrong ciphertext ({what})");
    ensure!(t == tag, "tag", "in-place sealing gives a wrong tag ({what})");

    let mut out = vec![0xee; pt.len() + c.slack];
    let t = a.encrypt(&mut out, &pt, &aad, &iv);
    ensure!(out[..pt.len()] == ct[..], "ciphertext-copy", "copying sealing gives a wrong ciphertext ({what})");
    ensure!(out[pt.len()..].iter().all(|b| *b == 0xee), "slack", "sealing wrote past the message ({what})");
    ensure!(t == tag, "tag-copy", "copying sealing gives a wrong tag ({what})");

    let mut buf = ct.clone();
    ensure!(a.decrypt_inline(&mut buf, &aad, &iv, &tag).is_ok(), "open", "a valid message is refused in place ({what})");
    ensure!(buf == pt, "plaintext", "opening in place gives a wrong plaintext ({what})");
    let mut out = vec![0xee; pt.len() + c.slack];
    ensure!(a.decrypt(&mut out, &ct, &aad, &iv, &tag).is_ok(), "open-copy", "a valid message is refused ({what})");
    ensure!(out[..pt.len()] == pt[..], "plaintext-copy", "opening gives a wrong plaintext ({what})");
    ensure!(out[pt.len()..].iter().all(|b| *b == 0xee), "slack", "opening wrote past the message ({what})");
    Ok(())
}

pub const C03: Prop = Prop {
    id: "C03",
    rule: "AES block: random keys of the three sizes and blocks; sealing: key size, key, nonce, associated-data and plaintext lengths weighted to block multiples, all pairs of small lengths enumerated; non-trivial: not both empty",
    assumptions: &["the reference AES/GCM (S-box by field inversion, bitwise GHASH; checked against FIPS/NIST vectors) is correct"],
    run: c03,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BlockCase {
    alg: Alg,
    key: Hx,
    block: Hx,
}
fn aes_block<C: AesCipher>(key: C::Key, block: &Hx) -> [u8; 16] {
    let mut b: [u8; 16] = block[..].try_into().unwrap();
    C::new(key).encrypt_inline(&mut b);
    b
}

fn c03(run: &mut Run) {
    run.gen(
        "aes-block",
        30000,
        500000,
        prop_oneof![Just(A128), Just(A192), Just(A256)].prop_flat_map(|alg| (Just(alg), fixed(alg.key_len()), fixed(16)).prop_map(|(alg, key, block)| BlockCase { alg, key, block })),
        |c, _| {
            let got = match c.alg {
                A128 => aes_block::<Aes128>(c.key[..].try_into().unwrap(), &c.block),
                A192 => aes_block::<Aes192>(c.key[..].try_into().unwrap(), &c.block),
                _ => aes_block::<Aes256>(c.key[..].try_into().unwrap(), &c.block),
            };
            ensure_eq!(got, r::Aes::new(&c.key).encrypt(c.block[..].try_into().unwrap()), "aes-block");
            Ok(())
        },
    );
    let alg = |i: usize| [A128, A192, A256][i % 3];
    run.all(
        "length-pairs",
        (0..=50usize).flat_map(|a| (0..=66usize).map(move |p| (a, p))).map(|(a, p)| {
            let alg = alg(a + p);
            Seal {
                alg,
                key: Hx(fill(alg.key_len(), 11 + a as u64)),
                iv: Hx(fill(12, 13 + p as u64)),
                aad: Msg::Fill { len: a, seed: 17 },
                pt: Msg::Fill { len: p, seed: 19 },
                slack: a % 3,
            }
        }),
        check_seal,
    );
    run.gen(
        "seal",
        10000,
        150000,
        prop_oneof![seal_strategy(A128, 3000), seal_strategy(A192, 3000), seal_strategy(A256, 3000)],
        check_seal,
    );
    run.gen("seal-long", 48, 1200, seal_strategy(A128, 17000).prop_map(|mut s| {
        if let Msg::Fill { len, .. } = &mut s.pt {
            *len += 4096;
        }
        s
    }), check_seal);
    // Messages with more blocks than 16 (thorough: 18) bits can count.
    run.all("seal-megabytes", megabytes(run.thorough, &[A128, A192, A256], 1 << 20), check_seal);
    run.heavy = 20;
    let cases = [(A256, false, true), (A128, true, true), (A128, true, false), (A192, false, false)];
    run.all("half-gigabyte", cases.map(|(alg, data, seal)| Half { alg, data, seal, len: (1 << 29) + 37 }), half);
}

/// A message whose length in bits takes more than 32 bits, or with associated data of
/// that length; `seal`: sealed and opened, or only opened (or refused).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Half {
    alg: Alg,
    data: bool,
    seal: bool,
    len: usize,
}
fn half(c: &Half, obs: &mut Obs) -> Res {
    obs.label(format!("{:?}", c.alg));
    let (key, iv) = (fill(c.alg.key_len(), 77), [0x35; 12]);
    let mut long = vec![0u8; c.len];
    let spot = |i: usize| (i * 40_503_077) % c.len;
    for i in 0..200 {
        long[spot(i)] = i as u8 | 1;
    }
    let a = c.alg.make(&key);
    if !c.data {
        let mut buf = fill(33, 78);
        let (ct, _) = r::gcm_seal(&key, &iv, &[], &buf);
        let tag = r::gcm_tag_long(&key, &iv, &long, &ct);
        let pt = buf.clone();
        if c.seal {
            let t = a.encrypt_inline(&mut buf, &long, &iv);
            ensure!(buf == ct, "ciphertext", "sealing with {} bytes of associated data gives a wrong ciphertext", c.len);
            ensure!(t == tag, "tag", "sealing with {} bytes of associated data gives a wrong tag", c.len);
        } else {
            buf = ct;
            ensure!(a.decrypt_inline(&mut buf, &long, &iv, &tag).is_ok(), "open", "a valid message with {} bytes of associated data is refused", c.len);
            ensure!(buf == pt, "plaintext", "opening with {} bytes of associated data gives a wrong plaintext", c.len);
        }
        return Ok(());
    }
    // Some of the blocks of the result: all of the first and the last, those around
    // powers of two, and others.
    let blocks = c.len.div_ceil(16);
    let mut at: Vec<usize> = (0..40).chain(blocks - 40..blocks).chain((0..20_000).map(|i| spot(i) / 16)).collect();
    at.extend((5..=25).flat_map(|n| (0..6).map(move |d| (1usize << n) - 3 + d)));
    let before = long.clone();
    let aad = [1, 2, 3];
    let (stored, what) = if c.seal {
        let t = a.encrypt_inline(&mut long, &aad, &iv);
        let tag = r::gcm_tag_long(&key, &iv, &aad, &long);
        ensure!(t == tag, "tag", "sealing {} bytes gives a wrong tag", c.len);
        (before, "sealing")
    } else {
        let tag = r::gcm_tag_long(&key, &iv, &aad, &long);
        ensure!(a.decrypt_inline(&mut long, &aad, &iv, &tag).is_ok(), "open", "a valid message of {} bytes is refused", c.len);
        (before, "opening")
    };
    for i in at {
        let k = r::gcm_stream(&key, &iv, 2 + i as u32);
        let n = 16.min(c.len - 16 * i);
        for j in 0..n {
            ensure!(stored[16 * i + j] ^ k[j] == long[16 * i + j], "stream", "{what} {} bytes gives a wrong byte {}", c.len, 16 * i + j);
        }
    }
    Ok(())
}

/// Sealings of about `size` bytes of data (and of associated data).
fn megabytes(thorough: bool, algs: &[Alg], size: usize) -> Vec<Seal> {
    let mut v = vec![];
    for (i, alg) in algs.iter().enumerate() {
        for j in 0..if thorough { 12 } else { 2 } {
            let size = if j >= 10 { size * 4 } else { size };
            let (a, p) = match j % 4 {
                0 => (20, size + 100 + i),
                1 => (size + 5, 33),
                2 => (0, size - 16),
                _ => (size - 1, size + 16),
            };
            let n = (i * 16 + j) as u64;
            let key = Hx(fill(alg.key_len(), 100 + n));
            v.push(Seal { alg: *alg, key, iv: Hx(fill(12, 200 + n)), aad: Msg::Fill { len: a, seed: 300 + n }, pt: Msg::Fill { len: p, seed: 400 + n }, slack: j % 3 });
        }
    }
    v
}

pub const C04: Prop = Prop {
    id: "C04",
    rule: "keystream with any start counter (short of documented overflow) and length; authenticator keys with extreme r/s and messages chosen so that the accumulator comes close to the modulus, one-shot and as update histories; combined sealing with lengths weighted to block multiples; non-trivial: non-empty input",
    assumptions: &["the reference ChaCha20/Poly1305 (schoolbook modulo 2^130-5; checked against RFC 8439 vectors) is correct", "the documented panic on block-counter overflow is the contract; such starts are not generated"],
    run: c04,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    key: Hx,
    nonce: Hx,
    counter: u32,
    from_top: bool,
    msg: Msg,
    slack: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Poly {
    key: Hx,
    blocks: Vec<Hx>,
    tail: Hx,
    mode: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum PolyOp {
    Block(Hx),
    With(Hx),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PolyHist {
    key: Hx,
    ops: Vec<PolyOp>,
    tail: Option<Hx>,
}

/// A Poly1305 key: r with extreme bytes, s with extreme bytes.
fn poly_key() -> impl Strategy<Value = Hx> + Clone {
    let half = prop_oneof![
        3 => vec(any::<u8>(), 16),
        1 => Just(vec![0u8; 16]),
        2 => Just(vec![0xffu8; 16]),
        1 => Just({ let mut v = vec![0u8; 16]; v[0] = 1; v }),
        1 => Just({ let mut v = vec![0u8; 16]; v[0] = 2; v }),
        1 => Just({ let mut v = vec![0u8; 16]; v[0] = 4; v }),
        2 => vec(prop_oneof![Just(0u8), Just(0xff), Just(0xfc), Just(0x0f)], 16),
    ];
    (half.clone(), half).prop_map(|(a, b)| Hx([a, b].concat()))
}
fn poly_block() -> impl Strategy<Value = Hx> + Clone {
    prop_oneof![
        3 => vec(any::<u8>(), 16),
        3 => Just(vec![0xffu8; 16]),
        1 => Just(vec![0u8; 16]),
        2 => (any::<u8>()).prop_map(|b| { let mut v = vec![0xffu8; 16]; v[0] = b; v }),
        1 => (any::<u8>()).prop_map(|b| { let mut v = vec![0u8; 16]; v[0] = b; v }),
    ]
    .prop_map(Hx)
}

fn c04(run: &mut Run) {
    run.gen(
        "keystream",
        20000,
        300000,
        (fixed(32), fixed(12), prop_oneof![0..3u32, any::<u32>()], any::<bool>(), msg(64, 1000), 0..70usize)
            .prop_map(|(key, nonce, counter, from_top, msg, slack)| Stream { key, nonce, counter, from_top, msg, slack }),
        |c, obs| {
            let m = c.msg.bytes();
            if m.is_empty() {
                obs.trivial();
            }
            let blocks = m.len().div_ceil(64) as u32;
            let top = u32::MAX - blocks.saturating_sub(1);
            let start = if c.from_top { top - (c.counter % 3).min(top) } else { c.counter.min(top) };
            if start == top && blocks > 0 {
                obs.label("last usable counter");
            }
            let key: [u8; 32] = c.key[..].try_into().unwrap();
            let nonce: [u8; 12] = c.nonce[..].try_into().unwrap();
            let want = r::chacha(&key, start, &nonce, &m);
            let mut a = m.clone();
            chacha20::encrypt_inline(&mut a, &key, &nonce, start);
            ensure!(a == want, "chacha-inline", "in-place keystream wrong: counter {start}, {} bytes", m.len());
            let mut b = vec![0xee; m.len() + c.slack];
            chacha20::encrypt(&m, &key, &nonce, start, &mut b);
            ensure!(b[..m.len()] == want[..], "chacha-copy", "copying form wrong: counter {start}, {} bytes", m.len());
            ensure!(b[m.len()..].iter().all(|x| *x == 0xee), "chacha-slack", "bytes beyond the {}-byte message were changed", m.len());
            Ok(())
        },
    );
    run.gen(
        "authenticator",
        40000,
        600000,
        (poly_key(), vec(poly_block(), 0..9), bytes(0..=16), 0..4u8).prop_map(|(key, blocks, tail, mode)| Poly { key, blocks, tail, mode }),
        |c, obs| {
            let key: [u8; 32] = c.key[..].try_into().unwrap();
            let mut m: Vec<u8> = c.blocks.iter().flat_map(|b| b.0.clone()).collect();
            let whole = m.len();
            m.extend_from_slice(&c.tail);
            if m.is_empty() {
                obs.trivial();
            }
            let want = r::poly1305(&key, &m);
            let got = match c.mode {
                0 => poly1305::Poly1305::auth(&m, &key),
                1 => poly1305::Poly1305::new(&key).finish_with(&m),
                2 => {
                    let mut p = poly1305::Poly1305::new(&key);
                    for b in &c.blocks {
                        p.update(b[..].try_into().unwrap());
                    }
                    p.finish_with(&c.tail)
                }
                _ => {
                    let mut p = poly1305::Poly1305::new(&key);
                    p.update_with(&m[..whole]);
                    p.finish_with(&c.tail)
                }
            };
            ensure_eq!(got, want, "poly1305");
            Ok(())
        },
    );
    run.gen(
        "authenticator-padding-history",
        15000,
        200000,
        (
            poly_key(),
            vec(prop_oneof![poly_block().prop_map(PolyOp::Block), bytes(0..=50).prop_map(PolyOp::With)], 0..6),
            proptest::option::of(bytes(0..=40)),
        )
            .prop_map(|(key, ops, tail)| PolyHist { key, ops, tail }),
        |c, _| {
            let key: [u8; 32] = c.key[..].try_into().unwrap();
            let mut p = poly1305::Poly1305::new(&key);
            let mut m = vec![];
            for o in &c.ops {
                match o {
                    PolyOp::Block(b) => {
                        p.update(b[..].try_into().unwrap());
                        m.extend_from_slice(b);
                    }
                    PolyOp::With(b) => {
                        // documented: pads to a whole block
                        p.update_with(b);
                        m.extend_from_slice(b);
                        while m.len() % 16 != 0 {
                            m.push(0);
                        }
                    }
                }
            }
            let got = match &c.tail {
                None => p.finish(),
                Some(t) => {
                    m.extend_from_slice(t);
                    p.finish_with(t)
                }
            };
            ensure_eq!(got, r::poly1305(&key, &m), "poly1305-history");
            Ok(())
        },
    );
    run.gen("one-time-key", 8000, 100000, (fixed(32), fixed(12)), |(k, n), _| {
        let key: [u8; 32] = k[..].try_into().unwrap();
        let nonce: [u8; 12] = n[..].try_into().unwrap();
        ensure_eq!(poly1305::poly1305_key_gen(&key, &nonce)[..], r::chacha_block(&key, 0, &nonce)[..32], "poly-key-gen");
        Ok(())
    });
    run.all(
        "length-pairs",
        (0..=40usize).flat_map(|a| (0..=70usize).map(move |p| (a, p))).map(|(a, p)| Seal {
            alg: ChaCha,
            key: Hx(fill(32, 11 + a as u64)),
            iv: Hx(fill(12, 13 + p as u64)),
            aad: Msg::Fill { len: a, seed: 17 },
            pt: Msg::Fill { len: p, seed: 19 },
            slack: a % 3,
        }),
        check_seal,
    );
    run.gen("seal", 12000, 200000, seal_strategy(ChaCha, 4000), check_seal);
    run.gen("seal-long", 80, 1200, seal_strategy(ChaCha, 17000), check_seal);
    run.all("seal-megabytes", megabytes(run.thorough, &[ChaCha], 4 << 20), check_seal);
}

pub const C05: Prop = Prop {
    id: "C05",
    rule: "a reference-sealed message of each algorithm with one modification: a flipped bit (every bit position of tag, nonce, associated data, ciphertext and key enumerated for small messages), changed/truncated/extended/swapped components, random forgeries; non-trivial: every modified case (unmodified controls are not counted)",
    assumptions: &["forgeries colliding by chance (2^-128) do not occur"],
    run: c05,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    None,
    Flip { what: u8, bit: usize },
    Xor { what: u8, mask: Hx },
    Truncate { what: u8, n: usize },
    Extend { what: u8, tail: Hx },
    MoveBoundary { n: usize, to_aad: bool },
    SwapBlocks { i: usize, j: usize },
    RandomTag(Hx),
    TagOfPlain,
    SwapParts,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Forge {
    seal: Seal,
    t: Tamper,
    inline: bool,
}

fn forge(c: &Forge, obs: &mut Obs) -> Res {
    let s = &c.seal;
    let (aad0, pt) = (s.aad.bytes(), s.pt.bytes());
    let iv0: [u8; 12] = s.iv[..].try_into().unwrap();
    let (ct0, tag0) = s.alg.reference(&s.key, &iv0, &aad0, &pt);
    // components: 0 tag, 1 ciphertext, 2 associated data, 3 nonce, 4 key
    let mut p = [tag0.to_vec(), ct0.clone(), aad0.clone(), iv0.to_vec(), s.key.0.clone()];
    let orig = p.clone();
    match &c.t {
        Tamper::None => {}
        Tamper::Flip { what, bit } => {
            let v = &mut p[*what as usize % 5];
            if !v.is_empty() {
                let b = bit % (v.len() * 8);
                v[b / 8] ^= 1 << (b % 8);
            }
        }
        Tamper::Xor { what, mask } => {
            for (a, m) in p[*what as usize % 5].iter_mut().zip(mask.iter()) {
                *a ^= m;
            }
        }
        Tamper::Truncate { what, n } => {
            let v = &mut p[1 + *what as usize % 2];
            let n = (*n).min(v.len());
            v.truncate(v.len() - n);
        }
        Tamper::Extend { what, tail } => p[1 + *what as usize % 2].extend_from_slice(tail),
        Tamper::MoveBoundary { n, to_aad } => {
            if *to_aad {
                let n = (*n % 40).min(p[1].len());
                let t: Vec<u8> = p[1].drain(..n).collect();
                p[2].extend(t);
            } else {
                let n = (*n % 40).min(p[2].len());
                let at = p[2].len() - n;
                let mut t = p[2].split_off(at);
                t.extend_from_slice(&p[1]);
                p[1] = t;
            }
        }
        Tamper::SwapBlocks { i, j } => {
            let n = p[1].len() / 16;
            if n > 1 {
                let (i, j) = (i % n, j % n);
                for k in 0..16 {
                    p[1].swap(16 * i + k, 16 * j + k);
                }
            }
        }
        Tamper::RandomTag(t) => p[0] = t.0.clone(),
        Tamper::TagOfPlain => p[0] = s.alg.reference(&s.key, &iv0, &aad0, &ct0).1.to_vec(),
        Tamper::SwapParts => p.swap(1, 2),
    }
    let changed = p != orig;
    let cipher = s.alg.make(&p[4]);
    let iv: [u8; 12] = p[3][..].try_into().unwrap();
    let tag: [u8; 16] = p[0][..].try_into().unwrap();
    let mut buf;
    let res;
    if c.inline {
        buf = p[1].clone();
        res = cipher.decrypt_inline(&mut buf, &p[2], &iv, &tag);
    } else {
        buf = vec![0x77; p[1].len() + s.slack];
        res = cipher.decrypt(&mut buf, &p[1], &p[2], &iv, &tag);
    }
    if !changed {
        obs.trivial();
        ensure!(res == Ok(()), "refused-valid", "{:?}: an unmodified message was refused", s.alg);
        ensure!(buf[..pt.len()] == pt[..], "wrong-plaintext", "{:?}: wrong plaintext", s.alg);
        return Ok(());
    }
    obs.label(format!("{:?}", c.t).split([' ', '(', '{']).next().unwrap_or("").to_string());
    ensure!(res == Err(BadData), "forgery", "{:?}: a message changed by {:?} was accepted", s.alg, c.t);
    if c.inline {
        ensure!(buf == p[1], "changed-on-failure", "{:?}: a failed in-place opening changed the buffer", s.alg);
    } else {
        let clean = buf.iter().enumerate().all(|(i, b)| *b == 0x77 || p[1].get(i) == Some(b));
        ensure!(clean, "released-on-failure", "{:?}: a failed opening left other data than its input in the buffer", s.alg);
    }
    Ok(())
}

fn c05(run: &mut Run) {
    let algs = [A128, A192, A256, ChaCha];
    // every bit of every component, for small messages of several shapes
    let mut cases = vec![];
    for alg in algs {
        for (a, n) in [(0usize, 0usize), (0, 1), (5, 0), (13, 20), (16, 16), (5, 32), (20, 65)] {
            let seal = Seal {
                alg,
                key: Hx(fill(alg.key_len(), 23)),
                iv: Hx(fill(12, 29)),
                aad: Msg::Fill { len: a, seed: 31 },
                pt: Msg::Fill { len: n, seed: 37 },
                slack: 3,
            };
            for (what, len) in [(0u8, 16), (1, n), (2, a), (3, 12), (4, alg.key_len())] {
                for bit in 0..len * 8 {
                    cases.push(Forge { seal: seal.clone(), t: Tamper::Flip { what, bit }, inline: bit % 2 == 0 });
                    if what == 0 {
                        cases.push(Forge { seal: seal.clone(), t: Tamper::Flip { what, bit }, inline: bit % 2 != 0 });
                    }
                }
            }
        }
    }
    run.all("every-bit", cases, forge);
    let seal = prop_oneof![seal_strategy(A128, 300), seal_strategy(A192, 200), seal_strategy(A256, 200), seal_strategy(ChaCha, 400)];
    let t = prop_oneof![
        1 => Just(Tamper::None),
        6 => (0..5u8, any::<usize>()).prop_map(|(what, bit)| Tamper::Flip { what, bit }),
        4 => (0..5u8, prop_oneof![
                vec(any::<u8>(), 1..17),
                // two equal changes in different bytes (defeats xor-accumulated or partial comparisons)
                (0..16usize, 0..16usize, 1..=255u8).prop_map(|(i, j, m)| { let mut v = vec![0u8; 16]; v[i] ^= m; v[j] ^= m; v }),
                (0..16usize, 1..=255u8).prop_map(|(i, m)| { let mut v = vec![0u8; 16]; v[i] = m; v }),
             ]).prop_map(|(what, m)| Tamper::Xor { what, mask: Hx(m) }),
        2 => (0..2u8, prop_oneof![3 => 1..40usize, 1 => 1..4000usize, 1 => (1..200usize).prop_map(|k| 16 * k)]).prop_map(|(what, n)| Tamper::Truncate { what, n }),
        3 => (0..2u8, prop_oneof![bytes(1..=20), (1..=33usize).prop_map(|n| Hx(vec![0; n]))]).prop_map(|(what, tail)| Tamper::Extend { what, tail }),
        2 => (1..40usize, any::<bool>()).prop_map(|(n, to_aad)| Tamper::MoveBoundary { n, to_aad }),
        1 => (any::<usize>(), any::<usize>()).prop_map(|(i, j)| Tamper::SwapBlocks { i, j }),
        1 => fixed(16).prop_map(Tamper::RandomTag),
        1 => Just(Tamper::TagOfPlain),
        1 => Just(Tamper::SwapParts),
    ];
    let long = prop_oneof![seal_strategy(A128, 8000), seal_strategy(A192, 5000), seal_strategy(A256, 5000), seal_strategy(ChaCha, 40000)].prop_map(|mut s| {
        match (&mut s.pt, &mut s.aad) {
            (Msg::Fill { len, .. }, Msg::Fill { len: a, seed }) => if *seed % 4 > 0 { *len += 1500 } else { *a += 1500 },
            (Msg::Fill { len, .. }, _) => *len += 1500,
            _ => (),
        }
        s
    });
    run.gen("tampering-long", 1000, 16000, (long, t.clone(), any::<bool>()).prop_map(|(seal, t, inline)| Forge { seal, t, inline }), forge);
    run.gen("tampering", 25000, 400000, (seal, t, any::<bool>()).prop_map(|(seal, t, inline)| Forge { seal, t, inline }), forge);
}
