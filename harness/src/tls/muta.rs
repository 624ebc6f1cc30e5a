//! Mutations of encoded structures, aware of where length fields are.
use super::wire::*;
use crate::gens::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    Flip(u32),
    Set(u32, u8),
    /// Bytes inserted; whether the enclosing length fields are adjusted.
    Insert(u32, Hx, bool),
    Remove(u32, u16, bool),
    /// Copies a range to somewhere else.
    Copy(u32, u16, u32, bool),
    Trunc(u32),
    /// A length field by index: set to a value, or moved by a difference.
    LenSet(u16, u32),
    LenAdd(u16, i32),
    /// A boundary value by index.
    LenEdge(u16, u8),
    Append(Hx),
    /// Everything from here on replaced.
    Tail(u32, Hx),
}

fn adjust(e: &mut Enc, pos: usize, delta: isize) {
    for (off, w) in e.lens.clone() {
        if off + w > e.b.len() {
            continue;
        }
        let n = get(&e.b[off..off + w]);
        if pos >= off + w && pos <= off + w + n {
            let m = (n as isize + delta).max(0) as usize;
            put(&mut e.b[off..off + w], m);
        }
    }
    for l in &mut e.lens {
        if l.0 >= pos {
            l.0 = (l.0 as isize + delta).max(0) as usize;
        }
    }
}

pub fn apply(e: &mut Enc, ed: &Edit) {
    let len = e.b.len();
    let at = |p: u32| if len == 0 { 0 } else { p as usize % len };
    let field = |e: &Enc, i: u16| {
        let l: Vec<_> = e.lens.iter().copied().filter(|(o, w)| o + w <= e.b.len()).collect();
        if l.is_empty() {
            None
        } else {
            Some(l[i as usize % l.len()])
        }
    };
    match ed {
        Edit::Flip(p) => {
            if len > 0 {
                let p = *p as usize % (8 * len);
                e.b[p / 8] ^= 1 << (p % 8);
            }
        }
        Edit::Set(p, v) => {
            if len > 0 {
                e.b[at(*p)] = *v;
            }
        }
        Edit::Insert(p, b, fix) => {
            let p = if len == 0 { 0 } else { *p as usize % (len + 1) };
            if *fix {
                adjust(e, p, b.len() as isize);
            }
            e.b.splice(p..p, b.iter().copied());
        }
        Edit::Remove(p, n, fix) => {
            let p = at(*p);
            let n = (*n as usize).clamp(1, 4096).min(len - p);
            if *fix {
                adjust(e, p, -(n as isize));
            }
            e.b.drain(p..p + n);
        }
        Edit::Copy(p, n, q, fix) => {
            let p = at(*p);
            let n = (*n as usize).clamp(1, 4096).min(len - p);
            let b = e.b[p..p + n].to_vec();
            let q = at(*q);
            if *fix {
                adjust(e, q, n as isize);
            }
            e.b.splice(q..q, b);
        }
        Edit::Trunc(p) => e.b.truncate(at(*p)),
        Edit::LenSet(i, v) => {
            if let Some((o, w)) = field(e, *i) {
                put(&mut e.b[o..o + w], *v as usize);
            }
        }
        Edit::LenAdd(i, d) => {
            if let Some((o, w)) = field(e, *i) {
                let n = get(&e.b[o..o + w]) as i64 + *d as i64;
                put(&mut e.b[o..o + w], n as usize);
            }
        }
        Edit::LenEdge(i, k) => {
            if let Some((o, w)) = field(e, *i) {
                let rest = len - o - w;
                let n = match k % 8 {
                    0 => 0,
                    1 => rest,
                    2 => rest + 1,
                    3 => rest.saturating_sub(1),
                    4 => usize::MAX,
                    5 => 1 << (8 * w - 1),
                    6 => get(&e.b[o..o + w]) + 1,
                    _ => rest.saturating_sub(2 + (*k as usize >> 3)),
                };
                put(&mut e.b[o..o + w], n);
            }
        }
        Edit::Append(b) => e.b.extend_from_slice(b),
        Edit::Tail(p, b) => {
            e.b.truncate(at(*p));
            e.b.extend_from_slice(b);
        }
    }
}

/// The length fields of DER, found by walking it.
pub fn der_lens(b: &[u8], base: usize, out: &mut Vec<(usize, usize)>) {
    let mut p = 0;
    while p + 2 <= b.len() {
        let tag = b[p];
        let l = b[p + 1] as usize;
        let (n, h, field) = if l < 0x80 {
            (l, 2, (p + 1, 1))
        } else {
            let k = l & 0x7f;
            if k == 0 || k > 4 || p + 2 + k > b.len() {
                return;
            }
            (get(&b[p + 2..p + 2 + k]), 2 + k, (p + 2, k))
        };
        out.push((base + field.0, field.1));
        if p + h + n > b.len() {
            return;
        }
        let body = &b[p + h..p + h + n];
        if tag & 0x20 != 0 {
            der_lens(body, base + p + h, out);
        } else if tag == 3 && body.len() > 2 && body[0] == 0 && body[1] == 0x30 {
            der_lens(&body[1..], base + p + h + 1, out);
        }
        p += h + n;
    }
}

/// Adds the length fields inside the certificates of a Certificate message.
pub fn cert_lens(mut e: Enc) -> Enc {
    let mut p = 8;
    let mut more = vec![];
    while p + 3 <= e.b.len() {
        let n = get(&e.b[p..p + 3]);
        if p + 5 + n > e.b.len() {
            break;
        }
        der_lens(&e.b[p + 3..p + 3 + n], p + 3, &mut more);
        let x = get(&e.b[p + 3 + n..p + 5 + n]);
        p += 5 + n + x;
    }
    e.lens.extend(more);
    e
}

fn pos() -> impl Strategy<Value = u32> + Clone {
    prop_oneof![1 => 0..64u32, 2 => any::<u32>()]
}
pub fn edit() -> impl Strategy<Value = Edit> + Clone {
    let few = || vec(prop_oneof![2 => any::<u8>(), 1 => Just(0u8), 1 => Just(0x30u8), 1 => Just(0xffu8)], 1..12).prop_map(Hx);
    prop_oneof![
        3 => any::<u32>().prop_map(Edit::Flip),
        2 => (pos(), any::<u8>()).prop_map(|(a, b)| Edit::Set(a, b)),
        2 => (pos(), few(), any::<bool>()).prop_map(|(a, b, c)| Edit::Insert(a, b, c)),
        2 => (pos(), prop_oneof![1..8u16, 1..400u16], any::<bool>()).prop_map(|(a, b, c)| Edit::Remove(a, b, c)),
        1 => (pos(), prop_oneof![1..60u16, 1..4000u16], pos(), any::<bool>()).prop_map(|(a, b, c, d)| Edit::Copy(a, b, c, d)),
        2 => pos().prop_map(Edit::Trunc),
        2 => (any::<u16>(), any::<u32>()).prop_map(|(a, b)| Edit::LenSet(a, b)),
        3 => (any::<u16>(), prop_oneof![-3..=3i32, -300..300i32]).prop_map(|(a, b)| Edit::LenAdd(a, b)),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Edit::LenEdge(a, b)),
        1 => few().prop_map(Edit::Append),
        1 => (pos(), few()).prop_map(|(a, b)| Edit::Tail(a, b)),
    ]
}
pub fn edits() -> impl Strategy<Value = Vec<Edit>> + Clone {
    prop_oneof![6 => vec(edit(), 1..=1), 2 => vec(edit(), 2..=2), 1 => vec(edit(), 3..6)]
}
