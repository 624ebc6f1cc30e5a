//! Strict parsing of what the client writes and encoding of what the server sends.
use crate::gens::hexs;

/// An encoder that remembers where its length fields are.
#[derive(Default, Clone, Debug)]
pub struct Enc {
    pub b: Vec<u8>,
    /// (offset, width) of every length field.
    pub lens: Vec<(usize, usize)>,
}
impl Enc {
    pub fn u8(&mut self, x: u8) {
        self.b.push(x);
    }
    pub fn u16(&mut self, x: u16) {
        self.b.extend_from_slice(&x.to_be_bytes());
    }
    pub fn bytes(&mut self, x: &[u8]) {
        self.b.extend_from_slice(x);
    }
    /// A vector with a length field of `width` bytes.
    pub fn vec<T>(&mut self, width: usize, f: impl FnOnce(&mut Enc) -> T) -> T {
        let at = self.b.len();
        self.lens.push((at, width));
        self.b.extend(std::iter::repeat_n(0, width));
        let r = f(self);
        let n = self.b.len() - at - width;
        put(&mut self.b[at..at + width], n);
        r
    }
    pub fn message(typ: u8, f: impl FnOnce(&mut Enc)) -> Enc {
        let mut e = Enc::default();
        e.u8(typ);
        e.vec(3, f);
        e
    }
}
pub fn put(b: &mut [u8], n: usize) {
    let w = b.len();
    for (i, x) in b.iter_mut().enumerate() {
        *x = (n >> (8 * (w - 1 - i))) as u8;
    }
}
pub fn get(b: &[u8]) -> usize {
    b.iter().fold(0, |a, x| a << 8 | *x as usize)
}

pub struct Dec<'a>(pub &'a [u8]);
impl<'a> Dec<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if n > self.0.len() {
            return Err(format!("{} bytes wanted, {} left", n, self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn int(&mut self, w: usize) -> Result<usize, String> {
        Ok(get(self.take(w)?))
    }
    pub fn vec(&mut self, w: usize) -> Result<Dec<'a>, String> {
        let n = self.int(w)?;
        Ok(Dec(self.take(n)?))
    }
    pub fn end(&self) -> Result<(), String> {
        if self.0.is_empty() {
            Ok(())
        } else {
            Err(format!("{} trailing bytes", self.0.len()))
        }
    }
    pub fn empty(&self) -> bool {
        self.0.is_empty()
    }
}

#[derive(Clone, Debug)]
pub struct ClientHello {
    pub random: [u8; 32],
    pub sid: Vec<u8>,
    pub suites: Vec<u16>,
    pub comp: Vec<u8>,
    pub exts: Vec<(u16, Vec<u8>)>,
}
impl ClientHello {
    pub fn ext(&self, t: u16) -> Option<&[u8]> {
        self.exts.iter().find(|e| e.0 == t).map(|e| &e.1[..])
    }
    /// The groups and key exchanges of the key share extension.
    pub fn key_shares(&self) -> Result<Vec<(u16, Vec<u8>)>, String> {
        let Some(e) = self.ext(51) else { return Ok(vec![]) };
        let mut d = Dec(e);
        let mut l = d.vec(2)?;
        d.end()?;
        let mut out = vec![];
        while !l.empty() {
            let g = l.int(2)? as u16;
            let k = l.vec(2)?;
            out.push((g, k.0.to_vec()));
        }
        Ok(out)
    }
    pub fn list16(&self, t: u16) -> Result<Option<Vec<u16>>, String> {
        let Some(e) = self.ext(t) else { return Ok(None) };
        let mut d = Dec(e);
        let mut l = d.vec(2)?;
        d.end()?;
        let mut out = vec![];
        while !l.empty() {
            out.push(l.int(2)? as u16);
        }
        Ok(Some(out))
    }
}

/// Parses a complete ClientHello message (header included); everything has to add up.
pub fn client_hello(msg: &[u8]) -> Result<ClientHello, String> {
    let mut d = Dec(msg);
    let t = d.int(1)?;
    if t != 1 {
        return Err(format!("handshake type {t}"));
    }
    let mut b = d.vec(3)?;
    d.end().map_err(|e| format!("message: {e}"))?;
    let v = b.int(2)?;
    if v != 0x0303 {
        return Err(format!("legacy_version {v:04x}"));
    }
    let random = b.take(32)?.try_into().unwrap();
    let sid = b.vec(1)?.0.to_vec();
    if sid.len() > 32 {
        return Err("session id longer than 32".into());
    }
    let mut s = b.vec(2)?;
    let mut suites = vec![];
    while !s.empty() {
        suites.push(s.int(2).map_err(|e| format!("cipher suites: {e}"))? as u16);
    }
    let comp = b.vec(1)?.0.to_vec();
    let mut x = b.vec(2).map_err(|e| format!("extensions: {e}"))?;
    b.end().map_err(|e| format!("after the extensions: {e}"))?;
    let mut exts = vec![];
    while !x.empty() {
        let t = x.int(2).map_err(|e| format!("extension type: {e}"))? as u16;
        let d = x.vec(2).map_err(|e| format!("extension {t}: {e}"))?;
        if exts.iter().any(|(u, _)| *u == t) {
            return Err(format!("extension {t} twice"));
        }
        exts.push((t, d.0.to_vec()));
    }
    Ok(ClientHello { random, sid, suites, comp, exts })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub typ: u8,
    pub ver: u16,
    pub body: Vec<u8>,
}
impl Rec {
    pub fn header(&self) -> [u8; 5] {
        let n = (self.body.len() as u16).to_be_bytes();
        let v = self.ver.to_be_bytes();
        [self.typ, v[0], v[1], n[0], n[1]]
    }
    pub fn bytes(&self) -> Vec<u8> {
        [&self.header()[..], &self.body].concat()
    }
}

/// The complete records of `b`, and what is left.
pub fn records(b: &[u8]) -> (Vec<Rec>, &[u8]) {
    let mut d = b;
    let mut out = vec![];
    while d.len() >= 5 {
        let n = get(&d[3..5]);
        if d.len() < 5 + n {
            break;
        }
        out.push(Rec { typ: d[0], ver: get(&d[1..3]) as u16, body: d[5..5 + n].to_vec() });
        d = &d[5 + n..];
    }
    (out, d)
}

/// The first flight of the client: the ClientHello message, its record sizes,
/// and the records that follow it.
pub struct Written {
    pub hello: Vec<u8>,
    pub hello_records: Vec<usize>,
    /// Number of bytes of the stream up to the end of the hello.
    pub hello_end: usize,
    pub rest: Vec<Rec>,
    /// An incomplete last record.
    pub partial: Vec<u8>,
}
pub fn written(out: &[u8]) -> Result<Written, String> {
    let (recs, tail) = records(out);
    let mut hello = vec![];
    let mut hello_records = vec![];
    let mut hello_end = 0;
    let mut it = recs.into_iter();
    let mut complete = false;
    let mut rest = vec![];
    for r in it.by_ref() {
        if r.typ != 22 {
            if hello.is_empty() || !complete {
                return Err(format!("record of type {} instead of a complete ClientHello", r.typ));
            }
        }
        if r.body.is_empty() || r.body.len() > 0x4000 {
            return Err(format!("handshake record of length {}", r.body.len()));
        }
        if r.ver != 0x0303 && r.ver != 0x0301 {
            return Err(format!("record version {:04x}", r.ver));
        }
        hello_end += 5 + r.body.len();
        hello.extend_from_slice(&r.body);
        hello_records.push(r.body.len());
        if hello.len() >= 4 {
            let n = 4 + get(&hello[1..4]);
            if hello.len() > n {
                return Err(format!("the handshake records hold {} bytes, the message has {n}", hello.len()));
            }
            if hello.len() == n {
                complete = true;
                break;
            }
        }
    }
    if !complete {
        return Err(format!("no complete ClientHello in {} bytes: {}", out.len(), hexs(&out[..out.len().min(64)])));
    }
    rest.extend(it);
    Ok(Written { hello, hello_records, hello_end, rest, partial: tail.to_vec() })
}
