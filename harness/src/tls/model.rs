//! A reference judge of everything a server may send: given the client's hello
//! and the bytes of the server, which outcomes are right.
use super::plan::*;
use super::server::*;
use super::sess::*;
use super::wire::*;
use crate::fw::{fail, Fail};
use crate::refs::p256::from_be;
use crate::{ensure, ensure_eq};

/// Longest handshake message (with header) that has to be accepted.
pub const MSG_MAX: usize = 0x20000;

/// The outcomes that are right. More than one where the protocol leaves it open.
#[derive(Clone, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Verdict {
    pub pass: bool,
    pub fail: bool,
    pub more: bool,
    pub peer: Option<u8>,
    /// Whether handshake keys exist at the end.
    pub keyed: bool,
    pub why: String,
}
impl Verdict {
    pub fn only_pass(&self) -> bool {
        self.pass && !self.fail && !self.more && self.peer.is_none()
    }
}

pub struct Seen {
    pub suite: u16,
    pub share: Vec<u8>,
    /// legacy_version is not what it should be: refused or ignored.
    pub odd: bool,
}

/// The extensions of a block that starts with its length.
fn ext_list(b: &mut Dec) -> Result<Vec<(u16, Vec<u8>)>, String> {
    let mut x = b.vec(2)?;
    let mut v: Vec<(u16, Vec<u8>)> = vec![];
    while !x.empty() {
        let t = x.int(2)? as u16;
        let d = x.vec(2)?.0.to_vec();
        if v.iter().any(|e| e.0 == t) {
            return Err(format!("extension {t} twice"));
        }
        v.push((t, d));
    }
    Ok(v)
}

pub const RETRY: [u8; 32] = [
    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91, 0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
];

/// Judges the body of a ServerHello.
pub fn server_hello(ch: &ClientHello, body: &[u8]) -> Result<Seen, String> {
    let mut b = Dec(body);
    let odd = b.int(2)? != 0x0303;
    let random = b.take(32)?;
    if random == RETRY {
        return Err("hello retry request".into());
    }
    let sid = b.vec(1)?;
    if sid.0 != ch.sid {
        return Err("session id".into());
    }
    let suite = b.int(2)? as u16;
    if !ch.suites.contains(&suite) {
        return Err(format!("cipher suite {suite:04x} not offered"));
    }
    let comp = b.int(1)?;
    if comp != 0 {
        return Err("compression".into());
    }
    let exts = ext_list(&mut b)?;
    b.end()?;
    let mut share = None;
    let mut version = false;
    for (t, d) in exts {
        match t {
            43 => {
                if d != [3, 4] {
                    return Err("selected version".into());
                }
                version = true;
            }
            51 => {
                let mut e = Dec(&d);
                let g = e.int(2)? as u16;
                let k = e.vec(2)?.0.to_vec();
                e.end()?;
                if !ch.key_shares()?.iter().any(|s| s.0 == g) {
                    return Err("group not offered".into());
                }
                if point(&k).is_none() {
                    return Err("not a point".into());
                }
                share = Some(k);
            }
            t => return Err(format!("extension {t} in a ServerHello")),
        }
    }
    match (version, share) {
        (true, Some(share)) => Ok(Seen { suite, share, odd }),
        _ => Err("missing extension".into()),
    }
}

/// Judges the body of EncryptedExtensions; the selected protocol.
pub fn encrypted_exts(ch: &ClientHello, body: &[u8]) -> Result<Vec<u8>, String> {
    let mut b = Dec(body);
    let exts = ext_list(&mut b)?;
    b.end()?;
    let mut proto = vec![];
    for (t, d) in exts {
        if ch.ext(t).is_none() {
            return Err(format!("extension {t} was not offered"));
        }
        let mut e = Dec(&d);
        match t {
            0 => e.end()?,
            10 => {
                let l = e.vec(2)?;
                e.end()?;
                if l.0.is_empty() || l.0.len() % 2 != 0 {
                    return Err("group list".into());
                }
            }
            16 => {
                let mut l = e.vec(2)?;
                e.end()?;
                proto = l.vec(1)?.0.to_vec();
                l.end()?;
                if proto.is_empty() || !offered_protos(ch)?.contains(&proto) {
                    return Err("protocol".into());
                }
            }
            t => return Err(format!("extension {t} in encrypted extensions")),
        }
    }
    Ok(proto)
}

/// Whether something is right, wrong, or left open.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Is {
    Good,
    Bad,
    Open,
}

struct Ber<'a> {
    d: &'a [u8],
    open: bool,
}
impl<'a> Ber<'a> {
    fn new(d: &'a [u8]) -> Self {
        Ber { d, open: false }
    }
    fn next(&mut self) -> Result<(u8, &'a [u8]), String> {
        let mut d = Dec(self.d);
        let tag = d.int(1)? as u8;
        if tag & 0x1f == 0x1f {
            return Err("long tag".into());
        }
        let l = d.int(1)?;
        let n = if l < 0x80 {
            l
        } else {
            let k = l & 0x7f;
            if k == 0 {
                // the indefinite form is not DER
                return Err("indefinite length".into());
            }
            if k > 8 {
                return Err("length of the length".into());
            }
            let n = d.int(k)?;
            // not minimal: accepted or not, at will
            if n < 0x80 || n >> (8 * (k - 1)) == 0 {
                self.open = true;
            }
            n
        };
        let b = d.take(n)?;
        self.d = d.0;
        Ok((tag, b))
    }
    fn want(&mut self, tag: u8) -> Result<&'a [u8], String> {
        let (t, b) = self.next()?;
        if t == tag {
            Ok(b)
        } else {
            Err(format!("tag {t:02x} instead of {tag:02x}"))
        }
    }
    fn end(&self) -> Result<(), String> {
        Dec(self.d).end()
    }
}

fn sig_int(b: &[u8], open: &mut bool) -> Result<(), String> {
    if b.is_empty() {
        return Err("empty integer".into());
    }
    if b[0] & 0x80 != 0 {
        return Err("negative".into());
    }
    let v: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
    // Padding with zeros is not DER; accepted or not, at will.
    if b.len() > 1 && b[0] == 0 && b[1] & 0x80 == 0 {
        *open = true;
    }
    if v.is_empty() || v.len() > 32 {
        return Err("zero or too large".into());
    }
    let mut x = [0u8; 32];
    x[32 - v.len()..].copy_from_slice(&v);
    let x = from_be(&x);
    let n = crate::refs::p256::N;
    if (0..4).rev().map(|i| x[i].cmp(&n[i])).find(|o| o.is_ne()) != Some(std::cmp::Ordering::Less) {
        return Err("not below the order".into());
    }
    Ok(())
}

fn cert_inner(der: &[u8], open: &mut bool) -> Result<(), String> {
    let mut top = Ber::new(der);
    let c = top.want(0x30)?;
    top.end()?;
    *open |= top.open;
    let mut c = Ber::new(c);
    let tbs = c.want(0x30)?;
    let alg = c.want(0x30)?;
    let sig = c.want(3)?;
    c.end()?;
    *open |= c.open;

    let mut t = Ber::new(tbs);
    let mut v = Ber::new(t.want(0xa0)?);
    let ver = v.want(2)?;
    v.end()?;
    *open |= v.open;
    if ver.is_empty() {
        return Err("empty version".into());
    }
    if ver.iter().copied().skip_while(|b| *b == 0).collect::<Vec<_>>() != [2] {
        return Err("version".into());
    }
    if ver.len() > 1 {
        *open = true;
    }
    let serial = t.want(2)?;
    // what is in these fields is not judged
    if serial.is_empty() {
        *open = true;
    }
    t.want(0x30)?;
    t.want(0x30)?;
    let mut val = Ber::new(t.want(0x30)?);
    for _ in 0..2 {
        let (tag, _) = val.next()?;
        if tag != 0x17 && tag != 0x18 {
            return Err("time".into());
        }
    }
    val.end()?;
    *open |= val.open;
    t.want(0x30)?;
    t.want(0x30)?;
    let mut last = 0;
    while !t.d.is_empty() {
        let (tag, _) = t.next()?;
        let n = match tag {
            0x81 => 1,
            0x82 => 2,
            0xa1 | 0xa2 => {
                *open = true;
                tag & 0x1f
            }
            0xa3 => 3,
            _ => return Err(format!("field {tag:02x}")),
        };
        if n <= last {
            return Err("field out of order".into());
        }
        last = n;
    }
    *open |= t.open;

    let mut a = Ber::new(alg);
    let oid = a.want(6)?;
    if oid != super::der::ECDSA_SHA256 {
        return Err("signature algorithm".into());
    }
    if !a.d.is_empty() {
        let (tag, b) = a.next()?;
        // ecdsa-with-SHA256 has no parameters; accepted or not, at will
        *open |= tag != 5 || !b.is_empty();
    }
    a.end()?;
    *open |= a.open;

    if sig.first() != Some(&0) {
        return Err("unused bits".into());
    }
    let mut s = Ber::new(&sig[1..]);
    let rs = s.want(0x30)?;
    s.end()?;
    *open |= s.open;
    let mut rs = Ber::new(rs);
    sig_int(rs.want(2)?, open)?;
    sig_int(rs.want(2)?, open)?;
    rs.end()?;
    *open |= rs.open;
    Ok(())
}

pub fn cert(der: &[u8]) -> (Is, String) {
    let mut open = false;
    match cert_inner(der, &mut open) {
        Err(e) => (Is::Bad, e),
        Ok(()) if open => (Is::Open, "not canonical".into()),
        Ok(()) => (Is::Good, String::new()),
    }
}

/// Judges the body of a Certificate message.
pub fn cert_msg(body: &[u8]) -> (Is, String) {
    fn go(body: &[u8], open: &mut bool) -> Result<(), String> {
        let mut b = Dec(body);
        if !b.vec(1)?.empty() {
            return Err("context".into());
        }
        let mut l = b.vec(3)?;
        b.end()?;
        if l.empty() {
            return Err("empty list".into());
        }
        while !l.empty() {
            let c = l.vec(3)?;
            let e = l.vec(2)?;
            if !e.empty() {
                return Err("unsolicited extension".into());
            }
            match cert(c.0) {
                (Is::Bad, e) => return Err(e),
                (Is::Open, _) => *open = true,
                _ => {}
            }
        }
        Ok(())
    }
    let mut open = false;
    match go(body, &mut open) {
        Err(e) => (Is::Bad, e),
        Ok(()) if open => (Is::Open, "not canonical".into()),
        Ok(()) => (Is::Good, String::new()),
    }
}

/// What the judge knows about the exchange.
pub struct Ctx<'a> {
    pub ch: &'a ClientHello,
    pub ch_msg: &'a [u8],
    /// The server's share and the secret it gives.
    pub share: Vec<u8>,
    pub ecdh: [u8; 32],
}
impl<'a> Ctx<'a> {
    pub fn of(f: &'a Flight) -> Self {
        let share = f.sh.exts.iter().find(|e| e.0 == 51).map(|e| e.1[4..].to_vec()).unwrap_or_default();
        Ctx { ch: &f.hello, ch_msg: &f.ch_msg, share, ecdh: f.ecdh }
    }
    /// The keys a server derives that sent this ServerHello message.
    pub fn keys(&self, sh: &[u8], fallback: u16) -> Keys {
        let suite = if sh.len() > 4 { server_hello(self.ch, &sh[4..]).map_or(fallback, |s| s.suite) } else { fallback };
        keys(suite, &self.ecdh, &[self.ch_msg, sh].concat())
    }
}

/// Judges a whole stream. Also gives the negotiated protocol if the encrypted
/// extensions were accepted.
pub fn judge(ctx: &Ctx, input: &[u8]) -> (Verdict, Option<Vec<u8>>) {
    let mut v = Verdict::default();
    let mut proto = None;
    let mut d = input;
    let mut keys_: Option<Option<Keys>> = None;
    let mut seq = 0;
    let mut buf: Vec<u8> = vec![];
    let mut stage = 0; // 0: server hello, 1: encrypted extensions, 2: certificate
    macro_rules! stop {
        ($field:ident, $why:expr) => {{
            v.$field = true;
            v.why += &$why;
            v.keyed = keys_.is_some();
            return (v, proto);
        }};
    }
    loop {
        // messages that are complete
        while buf.len() >= 4 {
            let n = 4 + get(&buf[1..4]);
            let want = [2, 8, 11][stage];
            if buf[0] != want {
                // may be noticed now or when the message is complete
                v.why += &format!("message {} instead of {want};", buf[0]);
                if buf.len() >= n {
                    stop!(fail, "");
                }
                v.fail = true;
                break;
            }
            if n > MSG_MAX {
                v.fail = true;
                v.why += "oversized message;";
            }
            if buf.len() < n {
                break;
            }
            let msg: Vec<u8> = buf.drain(..n).collect();
            match stage {
                0 => {
                    let s = match server_hello(ctx.ch, &msg[4..]) {
                        Err(e) => stop!(fail, e),
                        Ok(s) => s,
                    };
                    if s.odd {
                        v.fail = true;
                        v.why += "legacy version;";
                    }
                    if !buf.is_empty() {
                        stop!(fail, "plaintext after the ServerHello");
                    }
                    keys_ = Some((s.share == ctx.share).then(|| keys(s.suite, &ctx.ecdh, &[ctx.ch_msg, &msg].concat())));
                }
                1 => match encrypted_exts(ctx.ch, &msg[4..]) {
                    Err(e) => stop!(fail, e),
                    Ok(p) => proto = Some(p),
                },
                _ => match cert_msg(&msg[4..]) {
                    (Is::Bad, e) => stop!(fail, e),
                    (Is::Open, e) => {
                        v.fail = true;
                        stop!(pass, e)
                    }
                    (Is::Good, _) => stop!(pass, ""),
                },
            }
            stage += 1;
        }
        // the next record
        if d.len() < 5 {
            stop!(more, "");
        }
        let n = get(&d[3..5]);
        let typ = d[0];
        if n > 0x4000 + 256 || (n > 0x4000 && typ != 23) {
            stop!(fail, "record overflow");
        }
        let whole = d.len() >= 5 + n;
        let keyed = keys_.is_some();
        let early = match typ {
            20 | 21 => false,
            22 => keyed || n == 0,
            23 => !keyed || n < 17,
            _ => true,
        };
        if early {
            // may be noticed before or after the body is read
            v.more |= !whole;
            stop!(fail, format!("record of type {typ} length {n}"));
        }
        if !whole {
            // wrong lengths may be noticed early
            v.fail |= (typ == 20 && n != 1) || (typ == 21 && n != 2);
            stop!(more, "");
        }
        let rec = Rec { typ, ver: get(&d[1..3]) as u16, body: d[5..5 + n].to_vec() };
        d = &d[5 + n..];
        match typ {
            20 => {
                if rec.body != [1] {
                    stop!(fail, "change_cipher_spec");
                }
                if !buf.is_empty() {
                    // interleaved with the fragments of a message: dropped or refused
                    v.fail = true;
                    v.why += "interleaved;";
                }
            }
            21 => {
                if n != 2 {
                    stop!(fail, "alert record");
                }
                v.peer = Some(rec.body[1]);
                // in the middle of a message, or without protection, it may be refused
                v.fail |= !buf.is_empty() || keyed;
                stop_peer(&mut v, keyed);
                return (v, proto);
            }
            22 => buf.extend_from_slice(&rec.body),
            _ => {
                let Some(k) = keys_.as_ref().unwrap() else { stop!(fail, "keys the server does not have") };
                let Some(inner) = k.server.open_inner(seq, &rec) else { stop!(fail, "not authentic") };
                seq += 1;
                if inner.len() > 0x4001 {
                    stop!(fail, "inner overflow");
                }
                let end = inner.iter().rposition(|b| *b != 0);
                let Some(end) = end else { stop!(fail, "no content type") };
                let c = &inner[..end];
                match inner[end] {
                    22 if c.is_empty() => stop!(fail, "empty fragment"),
                    22 => buf.extend_from_slice(c),
                    21 if c.len() == 2 => {
                        v.peer = Some(c[1]);
                        v.fail |= !buf.is_empty();
                        stop_peer(&mut v, keyed);
                        return (v, proto);
                    }
                    t => stop!(fail, format!("protected record of type {t} length {}", c.len())),
                }
            }
        }
    }
}
fn stop_peer(v: &mut Verdict, keyed: bool) {
    v.why += "alert";
    v.keyed = keyed;
}

/// Compares the outcome of an attempt with the verdict.
pub fn agree(t: &Trace, v: &Verdict) -> Result<(), Fail> {
    hello_ok(t.att())?;
    let o = out(t.att())?;
    ensure_eq!(o.partial, 0, "partial-record");
    match t.end() {
        End::Panic(m) => fail("panic", format!("panic: {m}")),
        End::Passed | End::Connected => {
            ensure!(v.pass, "accepted", "accepted, but: {}", v.why);
            ensure!(o.alerts.is_empty(), "extra-output", "alerts {:?} in an accepted exchange", o.alerts);
            ensure_eq!(t.att().closes, 0, "closed");
            Ok(())
        }
        End::Failed { err: TLS, alert } => {
            ensure!(v.fail, "refused", "refused with alert {alert}, expected {v:?}");
            ensure!(o.alerts.len() == 1 && o.alerts[0].0 == 2 && o.alerts[0].1 as i32 == alert, "alert-sent", "reported alert {alert}, alerts on the wire (level, code, protected) {:?}", o.alerts);
            ensure_eq!(o.alerts[0].2, v.keyed, "alert-protection");
            ensure_eq!(t.att().closes, 1, "closes");
            Ok(())
        }
        End::Failed { err: TLS_PEER, alert } => {
            ensure!(v.peer.is_some(), "peer-error", "a peer alert {alert} was reported, expected {v:?}");
            ensure_eq!(alert, reported(v.peer.unwrap()), "peer-alert-code");
            ensure!(o.alerts.is_empty(), "alert-answered", "alerts {:?} after the peer's", o.alerts);
            ensure_eq!(t.att().closes, 1, "closes");
            Ok(())
        }
        End::Failed { err: WANT_READ, .. } => {
            ensure!(v.more, "stalled", "the client wants more to read, expected {v:?}");
            ensure!(t.att().consumed == t.att().input, "unread", "{} of {} bytes read when the client wants more", t.att().consumed, t.att().input);
            ensure!(o.alerts.is_empty(), "extra-output", "alerts {:?} while waiting", o.alerts);
            ensure_eq!(t.att().closes, 0, "closed");
            Ok(())
        }
        e => fail("outcome", format!("{e:?}, expected {v:?}")),
    }
}

/// All alert codes the client knows; others are reported as an internal error.
pub const CODES: [u8; 27] = [0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90, 109, 110, 112, 113, 115, 116, 120];
pub fn reported(code: u8) -> i32 {
    if CODES.contains(&code) {
        code as i32
    } else {
        80
    }
}
