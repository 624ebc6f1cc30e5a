//! C01 hashing, C02 HMAC and HKDF.
use crate::fw::*;
use crate::gens::*;
use crate::refs::hash as r;
use crate::refs::{hex, huge::HUGE};
use crate::{ensure, ensure_eq};
use crylib::hash::{BlockHasher, BufHasher, Hasher, Sha256, Sha512};
use crylib::hkdf;
use crylib::hmac::Hmac;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type Buf256 = BufHasher<32, 64, Sha256>;
type Buf512 = BufHasher<64, 128, Sha512>;

pub const C01: Prop = Prop {
    id: "C01",
    rule: "one-shot: every length 0..=1100 enumerated with three fills, then random lengths up to 20000; histories: sequences of update_with pieces, whole-block updates and intermediate digests, sizes weighted around the block size; 41 fixed long messages (16 KiB to 512 MiB, thorough: 4 GiB) streamed four ways; non-trivial: a message longer than one block, or a history with at least two non-empty operations",
    assumptions: &["the reference SHA-2 (constants derived from prime roots, checked against FIPS vectors) is correct", "the digests of the long messages, made with Python's hashlib, are correct"],
    run: c01,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Update(Msg),
    Block(u64),
    Get,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum End {
    Finish,
    FinishWith(Msg),
    Get,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    wide: bool,
    ops: Vec<Op>,
    end: End,
}

fn run_hist<const H: usize, const B: usize, T: BlockHasher<H, B> + Clone>(c: &Hist, obs: &mut Obs, reference: fn(&[u8]) -> Vec<u8>) -> Res {
    let mut h = BufHasher::<H, B, T>::new();
    let mut all: Vec<u8> = vec![];
    let mut n = 0;
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Update(m) => {
                let b = m.bytes();
                n += !b.is_empty() as u32;
                if all.len() % B + b.len() == B {
                    obs.label("fills the block exactly");
                }
                h.update_with(&b);
                all.extend_from_slice(&b);
            }
            Op::Block(seed) => {
                let b: [u8; B] = fill(B, *seed).try_into().unwrap();
                n += 1;
                if all.len() % B == 0 {
                    obs.label("block update at a boundary");
                } else {
                    obs.label("block update off a boundary");
                }
                h.update(&b);
                all.extend_from_slice(&b);
            }
            Op::Get => {
                obs.label("intermediate digest");
                let d = h.get();
                ensure!(d[..] == reference(&all)[..], "buf-get", "intermediate digest {i} over {} bytes is wrong", all.len());
            }
        }
    }
    if n < 2 {
        obs.trivial();
    }
    let d = match &c.end {
        End::Finish => h.finish(),
        End::Get => h.get(),
        End::FinishWith(m) => {
            let b = m.bytes();
            all.extend_from_slice(&b);
            h.finish_with(&b)
        }
    };
    ensure!(d[..] == reference(&all)[..], "buf-digest", "digest over {} bytes is wrong", all.len());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BlockHist {
    wide: bool,
    blocks: Vec<u64>,
    tail: Option<Msg>,
}
fn run_blocks<const H: usize, const B: usize, T: BlockHasher<H, B>>(c: &BlockHist, obs: &mut Obs, reference: fn(&[u8]) -> Vec<u8>) -> Res {
    let mut h = T::new();
    let mut all: Vec<u8> = vec![];
    for s in &c.blocks {
        let b: [u8; B] = fill(B, *s).try_into().unwrap();
        h.update(&b);
        all.extend_from_slice(&b);
    }
    if c.blocks.is_empty() {
        obs.trivial();
    }
    let d = match &c.tail {
        None => h.finish(),
        Some(m) => {
            let t = m.bytes();
            all.extend_from_slice(&t);
            h.finish_with(&t)
        }
    };
    ensure!(d[..] == reference(&all)[..], "block-digest", "digest over {} bytes is wrong", all.len());
    Ok(())
}

fn r256(m: &[u8]) -> Vec<u8> {
    r::sha256(m).to_vec()
}
fn r512(m: &[u8]) -> Vec<u8> {
    r::sha512(m).to_vec()
}

fn one_shot(m: &Msg, obs: &mut Obs) -> Res {
    let b = m.bytes();
    if b.len() <= 64 {
        obs.trivial();
    }
    ensure!(Sha256::hash(&b) == r::sha256(&b), "sha256", "SHA-256 of {} bytes is wrong", b.len());
    ensure!(Sha512::hash(&b) == r::sha512(&b), "sha512", "SHA-512 of {} bytes is wrong", b.len());
    ensure!(Buf256::hash(&b) == r::sha256(&b), "buf-hash", "buffered one-shot SHA-256 of {} bytes is wrong", b.len());
    ensure!(Buf512::hash(&b) == r::sha512(&b), "buf-hash", "buffered one-shot SHA-512 of {} bytes is wrong", b.len());
    Ok(())
}

/// One of the long messages of `refs::huge`, streamed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    len: u64,
    how: u32,
}

/// The message in pieces of at most `step` bytes.
fn huge_pieces(len: u64, step: usize, mut f: impl FnMut(&[u8])) {
    let block: Vec<u8> = (0..1usize << 20).map(|i| (i ^ i >> 8 ^ i >> 16) as u8).collect();
    let mut at = 0;
    while at < len {
        let from = (at % block.len() as u64) as usize;
        let n = step.min(block.len() - from).min((len - at) as usize);
        f(&block[from..from + n]);
        at += n as u64;
    }
}

fn huge_digest<const H: usize, const B: usize, T: BlockHasher<H, B> + Clone>(c: &Huge) -> [u8; H] {
    match c.how {
        0 => {
            let mut all = vec![];
            huge_pieces(c.len, 1 << 20, |p| all.extend_from_slice(p));
            T::hash(&all)
        }
        1 => {
            let mut h = BufHasher::<H, B, T>::new();
            huge_pieces(c.len, 1 << 20, |p| h.update_with(p));
            h.finish()
        }
        2 => {
            let mut h = BufHasher::<H, B, T>::new();
            huge_pieces(c.len, 4099, |p| h.update_with(p));
            h.get()
        }
        _ => {
            let mut h = T::new();
            let mut rest = vec![];
            huge_pieces(c.len, B, |p| match p.try_into() {
                Ok(b) => h.update(b),
                Err(_) => rest = p.to_vec(),
            });
            match rest.is_empty() {
                true => h.finish(),
                false => h.finish_with(&rest),
            }
        }
    }
}

fn huge(c: &Huge, _: &mut Obs) -> Res {
    let (_, short, long, _) = HUGE.iter().find(|h| h.0 == c.len).expect("a listed length");
    ensure!(huge_digest::<32, 64, Sha256>(c)[..] == hex(short)[..], "huge-256", "SHA-256 of {} bytes is wrong", c.len);
    ensure!(huge_digest::<64, 128, Sha512>(c)[..] == hex(long)[..], "huge-512", "SHA-512 of {} bytes is wrong", c.len);
    Ok(())
}

/// Up to 64 MiB in every way, past the 32-bit counts of bits in two ways and,
/// if thorough, past the 32-bit counts of bytes.
fn huge_cases(run: &Run, ways: u32) -> Vec<Huge> {
    let thorough = run.thorough;
    HUGE.iter()
        .flat_map(|h| (0..ways).map(move |how| Huge { len: h.0, how }))
        .filter(|c| match c.len {
            0..0x800_0000 => true,
            // (one of whole blocks is given block by block)
            0x800_0000..0x8000_0000 => c.how == if c.len % 64 == 0 { ways - 1 } else { 1 } || thorough && c.how > 0,
            _ => thorough && c.how == 1,
        })
        .collect()
}

fn c01(run: &mut Run) {
    run.all(
        "one-shot-lengths",
        (0..=1100usize).flat_map(|len| [0u64, 1, 7 + len as u64].map(|seed| Msg::Fill { len, seed })),
        one_shot,
    );
    run.gen("one-shot", 8000, 80000, msg(64, 5000), one_shot);
    run.gen("one-shot-long", 400, 4000, msg(128, 70000), one_shot);
    let op = prop_oneof![
        6 => prop_oneof![msg(64, 400), msg(128, 600)].prop_map(Op::Update),
        2 => any::<u64>().prop_map(Op::Block),
        2 => Just(Op::Get),
    ];
    let end = prop_oneof![
        3 => Just(End::Finish),
        1 => Just(End::Get),
        3 => msg(64, 300).prop_map(End::FinishWith),
    ];
    run.gen(
        "histories",
        40000,
        600000,
        (any::<bool>(), vec(op, 0..12), end).prop_map(|(wide, ops, end)| Hist { wide, ops, end }),
        |c, obs| {
            if c.wide {
                run_hist::<64, 128, Sha512>(c, obs, r512)
            } else {
                run_hist::<32, 64, Sha256>(c, obs, r256)
            }
        },
    );
    run.gen(
        "block-histories",
        8000,
        100000,
        (any::<bool>(), vec(any::<u64>(), 0..10), proptest::option::of(msg(64, 400))).prop_map(|(wide, blocks, tail)| BlockHist { wide, blocks, tail }),
        |c, obs| {
            if c.wide {
                run_blocks::<64, 128, Sha512>(c, obs, r512)
            } else {
                run_blocks::<32, 64, Sha256>(c, obs, r256)
            }
        },
    );
    run.heavy = 20;
    run.all("huge", huge_cases(run, 4), huge);
}

pub const C02: Prop = Prop {
    id: "C02",
    rule: "key/salt lengths 0..=4 (a seventh: 0..=70) blocks and message lengths weighted around block multiples, all HMAC entry points and chunkings; HKDF salts, infos and output lengths (0..=255 hash lengths, weighted to multiples of the hash size); non-trivial: key longer than the hash, or at least two message pieces, or more than one output block",
    assumptions: &["the reference HMAC/HKDF (checked against RFC vectors) is correct", "the tags of the long messages, made with Python's hmac, are correct"],
    run: c02,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MacCase {
    wide: bool,
    key: Msg,
    msg: Msg,
    cut: Vec<usize>,
    last: usize,
}

fn mac<const H: usize, const B: usize, T: BlockHasher<H, B>>(c: &MacCase, obs: &mut Obs, h: r::H) -> Res {
    let key = c.key.bytes();
    let m = c.msg.bytes();
    let want = r::hmac(h, &key, &m);
    if key.len() > B {
        obs.label("key longer than a block");
    } else if key.len() == B {
        obs.label("key of one block");
    }
    if key.len() <= H && m.len() <= B {
        obs.trivial();
    }
    let what = format!("HMAC with a {}-byte key over {} bytes", key.len(), m.len());
    ensure!(Hmac::<H, B, T>::auth(&key, &m)[..] == want[..], "hmac-auth", "{what} is wrong (auth)");
    ensure!(Hmac::<H, B, T>::new(&key).finish_with(&m)[..] == want[..], "hmac-finish-with", "{what} is wrong (finish_with)");
    // block-wise
    let mut x = Hmac::<H, B, T>::new(&key);
    let nb = (c.last % 4).min(m.len() / B);
    for b in m[..nb * B].chunks_exact(B) {
        x.update(b.try_into().unwrap());
    }
    if nb * B == m.len() {
        ensure!(x.finish()[..] == want[..], "hmac-blocks", "{what} is wrong (block updates, finish)");
    } else {
        ensure!(x.finish_with(&m[nb * B..])[..] == want[..], "hmac-blocks", "{what} is wrong (block updates, finish_with)");
    }
    // buffered, arbitrary pieces
    let mut x = Hmac::<H, B, BufHasher<H, B, T>>::new(&key);
    let keep = if m.is_empty() { 0 } else { c.last % (m.len() + 1) };
    let (head, tail) = if c.last % 2 == 0 { (&m[..], &m[..0]) } else { m.split_at(m.len() - keep) };
    for p in pieces(head, &c.cut) {
        x.update_with(p);
    }
    let got = if c.last % 2 == 0 { x.finish() } else { x.finish_with(tail) };
    ensure!(got[..] == want[..], "hmac-buffered", "{what} is wrong (buffered pieces {:?})", c.cut);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KdfCase {
    wide: bool,
    salt: Msg,
    ikm: Msg,
    info: Msg,
    len: usize,
}
fn kdf<const H: usize, const B: usize, T: BlockHasher<H, B>>(c: &KdfCase, obs: &mut Obs, h: r::H) -> Res {
    let (salt, ikm, info) = (c.salt.bytes(), c.ikm.bytes(), c.info.bytes());
    let len = c.len.min(255 * H);
    if len <= H && salt.len() <= H {
        obs.trivial();
    }
    if salt.len() > B {
        obs.label("salt longer than a block");
    }
    if len > 0 && len % H == 0 {
        obs.label("whole number of output blocks");
    }
    let prk = hkdf::extract::<H, B, T>(&ikm, &salt);
    ensure!(
        prk[..] == r::hkdf_extract(h, &salt, &ikm)[..],
        "hkdf-extract",
        "extract with a {}-byte salt and {}-byte input is wrong",
        salt.len(),
        ikm.len()
    );
    let mut out = vec![0xa5; len];
    hkdf::expand::<H, B, T>(&mut out, &prk, &info);
    ensure_eq!(out, r::hkdf_expand(h, &prk, &info, len), "hkdf-expand");
    Ok(())
}

fn huge_mac(c: &Huge, _: &mut Obs) -> Res {
    let (_, _, _, tag) = HUGE.iter().find(|h| h.0 == c.len).expect("a listed length");
    let got = match c.how {
        0 => {
            let mut all = vec![];
            huge_pieces(c.len, 1 << 20, |p| all.extend_from_slice(p));
            Hmac::<32, 64, Sha256>::auth(b"key", &all)
        }
        _ => {
            let mut h = Hmac::<32, 64, Buf256>::new(b"key");
            huge_pieces(c.len, 1 << 20, |p| h.update_with(p));
            h.finish()
        }
    };
    ensure!(got[..] == hex(tag)[..], "huge-hmac", "HMAC-SHA-256 of {} bytes is wrong", c.len);
    Ok(())
}

fn c02(run: &mut Run) {
    let mc = |wide: bool| {
        let b = if wide { 128 } else { 64 };
        let key = prop_oneof![6 => msg(b, 4 * b), 1 => msg(b, 70 * b)];
        let m = prop_oneof![6 => msg(b, 6 * b), 1 => msg(b, 70 * b)];
        (key, m, chunks(b), any::<usize>()).prop_map(move |(key, msg, cut, last)| MacCase { wide, key, msg, cut, last })
    };
    let mrun = |c: &MacCase, obs: &mut Obs| {
        if c.wide {
            mac::<64, 128, Sha512>(c, obs, r::H::S512)
        } else {
            mac::<32, 64, Sha256>(c, obs, r::H::S256)
        }
    };
    run.all(
        "hmac-key-lengths",
        (0..=300usize).flat_map(|k| {
            [false, true].map(|wide| MacCase { wide, key: Msg::Fill { len: k, seed: 3 + k as u64 }, msg: Msg::Fill { len: 50 + k, seed: 9 }, cut: vec![k % 70 + 1], last: k })
        }),
        mrun,
    );
    run.gen("hmac", 30000, 400000, prop_oneof![mc(false), mc(true)], mrun);
    let kc = |wide: bool| {
        let (b, h) = if wide { (128, 64) } else { (64, 32) };
        let len = prop_oneof![3 => length(h, 10 * h), 1 => length(h, 255 * h)];
        let part = |n: usize| prop_oneof![6 => msg(b, n * b), 1 => msg(b, 20 * n * b)];
        (part(3), part(3), part(2), len).prop_map(move |(salt, ikm, info, len)| KdfCase { wide, salt, ikm, info, len })
    };
    let krun = |c: &KdfCase, obs: &mut Obs| {
        if c.wide {
            kdf::<64, 128, Sha512>(c, obs, r::H::S512)
        } else {
            kdf::<32, 64, Sha256>(c, obs, r::H::S256)
        }
    };
    run.all(
        "hkdf-max",
        [false, true].into_iter().flat_map(|wide| {
            let h = if wide { 64 } else { 32 };
            [254 * h + 1, 255 * h - 1, 255 * h].map(|len| KdfCase { wide, salt: Msg::Fill { len: 5, seed: 5 }, ikm: Msg::Fill { len: 5, seed: 6 }, info: Msg::Fill { len: 5, seed: 7 }, len })
        }),
        krun,
    );
    run.gen("hkdf", 12000, 200000, prop_oneof![kc(false), kc(true)], krun);
    run.heavy = 20;
    run.all("huge", huge_cases(run, 2), huge_mac);
}
