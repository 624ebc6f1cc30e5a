//! Shared generators and case types.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

/// Bytes, written as hex in replay files.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Hx(pub Vec<u8>);
impl fmt::Debug for Hx {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", hexs(&self.0))
    }
}
pub fn hexs(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    const D: &[u8; 16] = b"0123456789abcdef";
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
impl Serialize for Hx {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hexs(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hx {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Hx(crate::refs::hex(&String::deserialize(d)?)))
    }
}
impl std::ops::Deref for Hx {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

/// A message described by length and fill, so that long ones stay cheap to
/// generate and shrink.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Msg {
    Raw(Hx),
    Fill { len: usize, seed: u64 },
}
impl Msg {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Msg::Raw(h) => h.0.clone(),
            Msg::Fill { len, seed } => fill(*len, *seed),
        }
    }
}
/// Deterministic filler: seeds 0 and 1 are all-zero and all-ones.
pub fn fill(len: usize, seed: u64) -> Vec<u8> {
    match seed {
        0 => vec![0; len],
        1 => vec![0xff; len],
        _ => {
            let mut x = seed;
            (0..len)
                .map(|_| {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (x >> 33) as u8
                })
                .collect()
        }
    }
}

pub fn bytes(len: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Hx> + Clone {
    vec(any::<u8>(), len).prop_map(Hx)
}
pub fn fixed(n: usize) -> impl Strategy<Value = Hx> + Clone {
    prop_oneof![
        6 => vec(any::<u8>(), n).prop_map(Hx),
        1 => Just(Hx(vec![0; n])),
        1 => Just(Hx(vec![0xff; n])),
        1 => (0..n * 8).prop_map(move |b| { let mut v = vec![0; n]; v[b / 8] |= 1 << (b % 8); Hx(v) }),
    ]
}

/// Lengths 0..=max with weight on multiples of `block` and their neighbours.
pub fn length(block: usize, max: usize) -> impl Strategy<Value = usize> + Clone {
    let near = (0..=max / block, -9i64..=9).prop_map(move |(k, d)| ((k * block) as i64 + d).clamp(0, max as i64) as usize);
    let exact = (0..=max / block).prop_map(move |k| k * block);
    prop_oneof![3 => 0..=block.min(max), 3 => 0..=max.min(4 * block), 3 => near, 2 => exact, 1 => 0..=max]
}

pub fn msg(block: usize, max: usize) -> impl Strategy<Value = Msg> + Clone {
    prop_oneof![
        1 => bytes(0..=block.min(max)).prop_map(Msg::Raw),
        6 => (length(block, max), any::<u64>()).prop_map(|(len, seed)| Msg::Fill { len, seed: if seed % 16 < 2 { seed % 16 } else { seed } }),
    ]
}

/// Cut points: relative piece sizes used cyclically; 0 means an empty piece.
pub fn chunks(block: usize) -> impl Strategy<Value = Vec<usize>> + Clone {
    let one = prop_oneof![
        2 => 0..=3usize,
        3 => 0..=2 * block,
        2 => (block - 1)..=(block + 1),
        1 => Just(block),
        1 => Just(0usize),
        1 => 0..=5 * block,
    ];
    vec(one, 1..8)
}

/// The pieces of `m` under the cyclic sizes `c` (total always consumed; a
/// sequence of only zeros is followed by one final piece).
pub fn pieces<'a>(m: &'a [u8], c: &[usize]) -> Vec<&'a [u8]> {
    let mut out = vec![];
    let mut pos = 0;
    let mut i = 0;
    let all_zero = c.iter().all(|x| *x == 0);
    while pos < m.len() || i < c.len() {
        if (all_zero && i >= c.len()) || i > 100_000 {
            out.push(&m[pos..]);
            break;
        }
        let n = c[i % c.len()].min(m.len() - pos);
        out.push(&m[pos..pos + n]);
        pos += n;
        i += 1;
    }
    out
}

/// One 64-bit limb, weighted to extremes.
pub fn limb() -> impl Strategy<Value = u64> + Clone {
    prop_oneof![
        3 => Just(0u64),
        3 => Just(u64::MAX),
        1 => Just(1u64),
        1 => Just(u64::MAX - 1),
        1 => Just(1u64 << 63),
        1 => Just((1u64 << 63) - 1),
        1 => (0..64u32, -2i64..=2).prop_map(|(s, d)| (1u64 << s).wrapping_add(d as u64)),
        1 => (0..64u32).prop_map(|s| u64::MAX << s),
        1 => 0..16u64,
        6 => any::<u64>(),
    ]
}

pub fn limbs(n: usize) -> impl Strategy<Value = Vec<u64>> + Clone {
    prop_oneof![
        4 => vec(limb(), n),
        2 => vec(any::<u64>(), n),
        // short values
        3 => (vec(limb(), n), 0..=n).prop_map(|(mut v, k)| { for x in v.iter_mut().skip(k) { *x = 0; } v }),
        // 2^k + d
        2 => (0..64 * n, -3i64..=3).prop_map(move |(k, d)| {
            let mut v = vec![0u64; n];
            v[k / 64] = 1 << (k % 64);
            add_small(&mut v, d);
            v
        }),
        1 => (-3i64..=3).prop_map(move |d| { let mut v = vec![0u64; n]; add_small(&mut v, d); v }),
    ]
}

pub fn add_small(v: &mut [u64], d: i64) {
    if d >= 0 {
        let mut c = d as u64;
        for x in v.iter_mut() {
            let (r, o) = x.overflowing_add(c);
            *x = r;
            c = o as u64;
        }
    } else {
        let mut c = d.unsigned_abs();
        for x in v.iter_mut() {
            let (r, o) = x.overflowing_sub(c);
            *x = r;
            c = o as u64;
        }
    }
}
