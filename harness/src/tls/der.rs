//! DER encoding of certificates.
use crate::gens::fill;

#[derive(Clone, Debug, PartialEq)]
pub struct Der {
    pub tag: u8,
    pub len: Len,
    pub body: Body,
}
/// How the length is written.
#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Len {
    Min,
    /// With so many bytes more than needed.
    Long(u8),
    /// 0x80, and an end-of-contents marker if true.
    Indef(bool),
    Off(i16),
    /// The first length byte as it is, nothing else.
    Raw(u8),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Prim(Vec<u8>),
    Cons(Vec<Der>),
    /// Bytes before a nested structure (bit strings).
    Wrap(Vec<u8>, Vec<Der>),
}

pub fn prim(tag: u8, b: &[u8]) -> Der {
    Der { tag, len: Len::Min, body: Body::Prim(b.to_vec()) }
}
pub fn cons(tag: u8, l: Vec<Der>) -> Der {
    Der { tag, len: Len::Min, body: Body::Cons(l) }
}
pub fn seq(l: Vec<Der>) -> Der {
    cons(0x30, l)
}

pub fn header(tag: u8, len: usize, extra: usize) -> Vec<u8> {
    let mut v = vec![tag];
    if len < 128 && extra == 0 {
        v.push(len as u8);
        return v;
    }
    let mut n = 1;
    while len >> (8 * n) != 0 {
        n += 1;
    }
    n += extra.saturating_sub((len < 128) as usize);
    v.push(0x80 | n as u8);
    for i in (0..n).rev() {
        v.push(if i < 8 { (len >> (8 * i)) as u8 } else { 0 });
    }
    v
}

impl Der {
    pub fn encode(&self) -> Vec<u8> {
        let b = match &self.body {
            Body::Prim(b) => b.clone(),
            Body::Cons(l) => l.iter().flat_map(|d| d.encode()).collect(),
            Body::Wrap(p, l) => {
                let mut v = p.clone();
                v.extend(l.iter().flat_map(|d| d.encode()));
                v
            }
        };
        let mut v = match self.len {
            Len::Min => header(self.tag, b.len(), 0),
            Len::Long(n) => header(self.tag, b.len(), n as usize),
            Len::Off(d) => header(self.tag, (b.len() as i64 + d as i64).max(0) as usize, 0),
            Len::Indef(_) => vec![self.tag, 0x80],
            Len::Raw(x) => vec![self.tag, x],
        };
        v.extend_from_slice(&b);
        if self.len == Len::Indef(true) {
            v.extend_from_slice(&[0, 0]);
        }
        v
    }
    pub fn count(&self) -> usize {
        1 + match &self.body {
            Body::Prim(_) => 0,
            Body::Cons(l) | Body::Wrap(_, l) => l.iter().map(|d| d.count()).sum(),
        }
    }
    /// The n-th node in order of appearance, the top being 0.
    pub fn nth(&mut self, mut n: usize) -> &mut Der {
        if n == 0 {
            return self;
        }
        n -= 1;
        for d in self.kids() {
            let c = d.count();
            if n < c {
                return d.nth(n);
            }
            n -= c;
        }
        panic!("no such node")
    }
    /// The list that holds the n-th node (not the top), and its place there.
    pub fn holder(&mut self, mut n: usize) -> (&mut Vec<Der>, usize) {
        assert!(n > 0);
        n -= 1;
        let kids = self.kids();
        let mut i = 0;
        loop {
            let c = kids[i].count();
            if n == 0 {
                return (kids, i);
            }
            if n < c {
                return kids[i].holder(n);
            }
            n -= c;
            i += 1;
        }
    }
    pub fn kids(&mut self) -> &mut Vec<Der> {
        match &mut self.body {
            Body::Cons(l) | Body::Wrap(_, l) => l,
            Body::Prim(_) => panic!("primitive"),
        }
    }
    pub fn at(&mut self, path: &[usize]) -> &mut Der {
        let mut d = self;
        for &i in path {
            d = &mut d.kids()[i];
        }
        d
    }
}

/// A DER INTEGER with the given big-endian magnitude (minimal form).
pub fn integer(mag: &[u8]) -> Der {
    let mut v: Vec<u8> = mag.iter().copied().skip_while(|b| *b == 0).collect();
    if v.is_empty() || v[0] & 0x80 != 0 {
        v.insert(0, 0);
    }
    prim(2, &v)
}

pub const ECDSA_SHA256: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x02];

/// Sizes and options of a well-formed certificate.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct CertSpec {
    pub r: crate::gens::Hx,
    pub s: crate::gens::Hx,
    pub serial: crate::gens::Hx,
    /// Lengths of the contents of issuer, subject, public key, extensions.
    pub sizes: [usize; 4],
    pub gen_time: [bool; 2],
    pub extensions: bool,
    pub uids: [bool; 2],
    pub params: bool,
}
impl Default for CertSpec {
    fn default() -> Self {
        CertSpec {
            r: crate::gens::Hx(fill(32, 77)),
            s: crate::gens::Hx(fill(32, 78)),
            serial: crate::gens::Hx(vec![1, 2, 3]),
            sizes: [20, 20, 91, 30],
            gen_time: [false, false],
            extensions: true,
            uids: [false, false],
            params: false,
        }
    }
}

/// Contents of about `n` bytes that are themselves well-formed.
fn blob(tag: u8, n: usize) -> Vec<Der> {
    if n == 0 {
        vec![]
    } else {
        vec![prim(tag, &fill(n, 4))]
    }
}

pub fn cert(c: &CertSpec) -> Der {
    let alg = || {
        let mut v = vec![prim(6, &ECDSA_SHA256)];
        if c.params {
            v.push(prim(5, &[]));
        }
        seq(v)
    };
    let time = |g: bool| if g { prim(0x18, b"20500101000000Z") } else { prim(0x17, b"250101000000Z") };
    let name = |n: usize| if n == 0 { seq(vec![]) } else { seq(vec![cons(0x31, vec![seq(vec![prim(6, &[0x55, 4, 3]), prim(0x0c, &fill(n, 5))])])]) };
    let mut tbs = vec![
        cons(0xa0, vec![prim(2, &[2])]),
        integer(&c.serial),
        alg(),
        name(c.sizes[0]),
        seq(vec![time(c.gen_time[0]), time(c.gen_time[1])]),
        name(c.sizes[1]),
        seq(vec![
            seq(vec![prim(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 2, 1]), prim(6, &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7])]),
            prim(3, &[&[0u8][..], &fill(c.sizes[2], 6)].concat()),
        ]),
    ];
    if c.uids[0] {
        tbs.push(prim(0x81, &[0, 1, 2]));
    }
    if c.uids[1] {
        tbs.push(prim(0x82, &[0, 3, 4]));
    }
    if c.extensions {
        tbs.push(cons(0xa3, vec![seq(vec![seq({
            let mut v = vec![prim(6, &[0x55, 0x1d, 0x0f])];
            v.extend(blob(4, c.sizes[3].max(1)));
            v
        })])]));
    }
    let sig = seq(vec![integer(&c.r), integer(&c.s)]);
    seq(vec![seq(tbs), alg(), Der { tag: 3, len: Len::Min, body: Body::Wrap(vec![0], vec![sig]) }])
}
