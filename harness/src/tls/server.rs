//! Reference key schedule and record protection of a TLS 1.3 server.
use super::wire::{Enc, Rec};
use crate::refs::aead::{chachapoly_seal, gcm_seal};
use crate::refs::hash::{expand_label, hkdf_extract, sha256, H};
use crate::refs::nat::Nat;
use crate::refs::p256::{be, curve, from_be, Pt, L};
use serde::{Deserialize, Serialize};

pub const AES: u16 = 0x1301;
pub const CHACHA: u16 = 0x1303;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Side {
    pub key: Vec<u8>,
    pub iv: [u8; 12],
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Keys {
    pub suite: u16,
    pub client: Side,
    pub server: Side,
}

fn side(suite: u16, secret: &[u8]) -> Side {
    let n = if suite == CHACHA { 32 } else { 16 };
    Side { key: expand_label(secret, "key", b"", n), iv: expand_label(secret, "iv", b"", 12).try_into().unwrap() }
}

/// The handshake traffic keys for an ECDH secret and the transcript
/// ClientHello..ServerHello.
pub fn keys(suite: u16, ecdh: &[u8], transcript: &[u8]) -> Keys {
    let early = hkdf_extract(H::S256, &[0; 32], &[0; 32]);
    let derived = expand_label(&early, "derived", &sha256(b""), 32);
    let hs = hkdf_extract(H::S256, &derived, ecdh);
    let th = sha256(transcript);
    Keys {
        suite,
        client: side(suite, &expand_label(&hs, "c hs traffic", &th, 32)),
        server: side(suite, &expand_label(&hs, "s hs traffic", &th, 32)),
    }
}

impl Side {
    fn nonce(&self, seq: u64) -> [u8; 12] {
        let mut n = self.iv;
        for (i, b) in seq.to_be_bytes().iter().enumerate() {
            n[4 + i] ^= b;
        }
        n
    }
    fn aead(&self, seq: u64, aad: &[u8], pt: &[u8]) -> (Vec<u8>, [u8; 16]) {
        if self.key.len() == 32 {
            chachapoly_seal(self.key[..].try_into().unwrap(), &self.nonce(seq), aad, pt)
        } else {
            gcm_seal(&self.key, &self.nonce(seq), aad, pt)
        }
    }
    /// A protected record with inner plaintext `inner` (content, type, padding).
    pub fn seal_inner(&self, seq: u64, inner: &[u8]) -> Rec {
        let mut r = Rec { typ: 23, ver: 0x0303, body: vec![0; inner.len() + 16] };
        let (mut ct, tag) = self.aead(seq, &r.header(), inner);
        ct.extend_from_slice(&tag);
        r.body = ct;
        r
    }
    pub fn seal(&self, seq: u64, typ: u8, content: &[u8], pad: usize) -> Rec {
        let mut inner = content.to_vec();
        inner.push(typ);
        inner.extend(std::iter::repeat_n(0, pad));
        self.seal_inner(seq, &inner)
    }
    /// The inner plaintext (content, type, padding) of a protected record, if it is authentic.
    pub fn open_inner(&self, seq: u64, r: &Rec) -> Option<Vec<u8>> {
        if r.typ != 23 || r.body.len() < 16 {
            return None;
        }
        let (ct, tag) = r.body.split_at(r.body.len() - 16);
        let (pt, _) = self.aead(seq, &r.header(), ct);
        let (again, t) = self.aead(seq, &r.header(), &pt);
        if t[..] != *tag || again != ct {
            return None;
        }
        Some(pt)
    }
    /// Content type and content of a protected record, if it is authentic.
    pub fn open(&self, seq: u64, r: &Rec) -> Option<(u8, Vec<u8>)> {
        if r.ver != 0x0303 {
            return None;
        }
        let mut pt = self.open_inner(seq, r)?;
        while pt.last() == Some(&0) {
            pt.pop();
        }
        let typ = pt.pop()?;
        Some((typ, pt))
    }
}

pub fn uncompressed(p: &Pt) -> Vec<u8> {
    let (x, y) = p.as_ref().expect("a finite point");
    [&[4u8][..], &be(x), &be(y)].concat()
}
pub fn point(b: &[u8]) -> Option<(L, L)> {
    if b.len() != 65 || b[0] != 4 {
        return None;
    }
    let x = from_be(b[1..33].try_into().unwrap());
    let y = from_be(b[33..].try_into().unwrap());
    curve().on_curve(&x, &y).then_some((x, y))
}

/// A scalar in 1..n from anything.
pub fn scalar(l: &L) -> L {
    let v = curve().n.reduce(&Nat::from_limbs(l));
    if v == [0; 4] {
        [1, 0, 0, 0]
    } else {
        v
    }
}

/// The fields of a ServerHello, as it should be or not.
#[derive(Clone, Debug)]
pub struct Hello {
    pub typ: u8,
    pub legacy: u16,
    pub random: [u8; 32],
    pub sid: Vec<u8>,
    pub suite: u16,
    pub comp: u8,
    pub exts: Vec<(u16, Vec<u8>)>,
}
impl Hello {
    pub fn encode(&self) -> Enc {
        Enc::message(self.typ, |e| {
            e.u16(self.legacy);
            e.bytes(&self.random);
            e.vec(1, |e| e.bytes(&self.sid));
            e.u16(self.suite);
            e.u8(self.comp);
            exts(e, &self.exts);
        })
    }
}
pub fn exts(e: &mut Enc, l: &[(u16, Vec<u8>)]) {
    e.vec(2, |e| {
        for (t, d) in l {
            e.u16(*t);
            e.vec(2, |e| e.bytes(d));
        }
    })
}
pub fn key_share(group: u16, key: &[u8]) -> Vec<u8> {
    let mut e = Enc::default();
    e.u16(group);
    e.vec(2, |e| e.bytes(key));
    e.b
}
pub fn encrypted_extensions(l: &[(u16, Vec<u8>)]) -> Enc {
    Enc::message(8, |e| exts(e, l))
}
pub fn alpn(name: &[u8]) -> Vec<u8> {
    let mut e = Enc::default();
    e.vec(2, |e| e.vec(1, |e| e.bytes(name)));
    e.b
}
/// A Certificate message with an empty context and no entry extensions.
pub fn certificate(certs: &[Vec<u8>]) -> Enc {
    Enc::message(11, |e| {
        e.vec(1, |_| ());
        e.vec(3, |e| {
            for c in certs {
                e.vec(3, |e| e.bytes(c));
                e.vec(2, |_| ());
            }
        });
    })
}
