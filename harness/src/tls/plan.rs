//! Generated exchanges: configuration, server choices, framing and delivery.
use super::der::{cert, CertSpec};
use super::server::*;
use super::sess::*;
use super::wire::*;
use crate::fw::{fail, Fail};
use crate::gens::*;
use crate::refs::p256::{curve, L};
use crate::{ensure, ensure_eq};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// The server's choices in a valid exchange.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Srv {
    pub key: L,
    pub random: u64,
    /// Which of the offered suites and protocols.
    pub suite: u8,
    pub alpn: Option<u8>,
    pub swap: bool,
    pub legacy: u16,
    pub ee_name: bool,
    pub ee_groups: Option<u8>,
    /// Order of the encrypted extensions.
    pub ee_rot: u8,
    pub certs: Vec<CertSpec>,
    /// Bytes of ballast in the last certificate.
    pub ballast: usize,
}
impl Default for Srv {
    fn default() -> Self {
        Srv { key: [7, 1, 2, 3], random: 5, suite: 0, alpn: None, swap: false, legacy: 0x0303, ee_name: false, ee_groups: None, ee_rot: 0, certs: vec![CertSpec::default()], ballast: 0 }
    }
}

/// How messages are cut into records.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Frame {
    /// Record sizes, used cyclically (0 counts as 1); empty: one record per message.
    pub hello: Vec<usize>,
    pub sizes: Vec<usize>,
    /// Whether a protected record may hold the end of one message and the start of the next.
    pub pack: bool,
    /// Padding per record, cyclic.
    pub pads: Vec<usize>,
    /// Dummy change_cipher_spec records: before the hello, and before the n-th
    /// protected record that starts at a message boundary.
    pub ccs: [u8; 3],
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Plan {
    pub cfg: Cfg,
    pub seed: u64,
    pub srv: Srv,
    pub frame: Frame,
    pub io: Io,
    /// Go on from a prepared exchange, whose configuration, seed and ServerHello
    /// replace those here.
    #[serde(default)]
    pub pool: Option<u8>,
    /// The configuration is changed to this one while the attempt is under way
    /// (when it goes on from a prepared exchange, and when it is interrupted).
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub between: Option<Cfg>,
}

/// Everything a valid server would send for a ClientHello.
#[derive(Clone)]
pub struct Flight {
    pub hello: ClientHello,
    pub ecdh: [u8; 32],
    pub sh: Hello,
    pub ee: Vec<(u16, Vec<u8>)>,
    pub certs: Vec<Vec<u8>>,
    pub ch_msg: Vec<u8>,
}

pub fn seal_suite(h: &ClientHello, pick: u8) -> Result<u16, String> {
    let known: Vec<u16> = h.suites.iter().copied().filter(|s| [AES, CHACHA].contains(s)).collect();
    if known.is_empty() {
        return Err("no usable cipher suite offered".into());
    }
    Ok(known[pick as usize % known.len()])
}

/// The protocols offered in a ClientHello.
pub fn offered_protos(h: &ClientHello) -> Result<Vec<Vec<u8>>, String> {
    let mut v = vec![];
    if let Some(e) = h.ext(16) {
        let mut d = Dec(e);
        let mut l = d.vec(2)?;
        d.end()?;
        while !l.empty() {
            v.push(l.vec(1)?.0.to_vec());
        }
    }
    Ok(v)
}

impl Srv {
    /// `out`: everything the client wrote.
    pub fn flight(&self, out: &[u8]) -> Result<Flight, String> {
        let w = written(out)?;
        let hello = client_hello(&w.hello)?;
        let suite = seal_suite(&hello, self.suite)?;
        let share = hello.key_shares()?.into_iter().find(|k| k.0 == 0x17).ok_or("no P-256 key share")?.1;
        let q = point(&share).ok_or("the key share is not a point on the curve")?;
        let d = scalar(&self.key);
        let c = curve();
        let mine = c.mul(&d, &c.g);
        let (x, _) = c.mul(&d, &Some(q)).unwrap();
        let mut exts = vec![(43, vec![3, 4]), (51, key_share(0x17, &uncompressed(&mine)))];
        if self.swap {
            exts.reverse();
        }
        let sh = Hello { typ: 2, legacy: self.legacy, random: fill(32, self.random).try_into().unwrap(), sid: hello.sid.clone(), suite, comp: 0, exts };
        let ecdh = crate::refs::p256::be(&x);
        let mut f = Flight { hello, ecdh, sh, ee: vec![], certs: vec![], ch_msg: w.hello };
        self.tail(&mut f)?;
        Ok(f)
    }
    /// What follows the ServerHello.
    pub fn tail(&self, f: &mut Flight) -> Result<(), String> {
        let hello = &f.hello;
        let mut ee = vec![];
        if self.ee_name && hello.ext(0).is_some() {
            ee.push((0, vec![]));
        }
        if let Some(n) = self.ee_groups {
            let mut e = Enc::default();
            e.vec(2, |e| {
                for i in 0..(1 + n as u16 % 9) {
                    e.u16([0x17, 0x1d, 0x18, 0x19, 0x1e, 0x100, 0x11ec, 0xfe00, 0x6399][i as usize]);
                }
            });
            ee.push((10, e.b));
        }
        let protos = offered_protos(hello)?;
        if let (Some(i), false) = (self.alpn, protos.is_empty()) {
            ee.push((16, alpn(&protos[i as usize % protos.len()])));
        }
        if !ee.is_empty() {
            let n = ee.len();
            ee.rotate_left(self.ee_rot as usize % n);
        }
        let mut certs: Vec<Vec<u8>> = self
            .certs
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let mut c = c.clone();
                if i + 1 == self.certs.len() {
                    c.sizes[2] += self.ballast;
                }
                cert(&c).encode()
            })
            .collect();
        if certs.is_empty() {
            certs.push(cert(&CertSpec::default()).encode());
        }
        f.ee = ee;
        f.certs = certs;
        Ok(())
    }
}

impl Flight {
    pub fn keys(&self, sh: &[u8]) -> Keys {
        keys(self.sh.suite, &self.ecdh, &[&self.ch_msg[..], sh].concat())
    }
    /// The application protocol selected.
    pub fn proto(&self) -> Vec<u8> {
        self.ee.iter().find(|e| e.0 == 16).map_or(vec![], |e| e.1[3..].to_vec())
    }
    pub fn msgs(&self) -> Vec<Vec<u8>> {
        vec![encrypted_extensions(&self.ee).b, certificate(&self.certs).b]
    }
}

/// A record before protection.
#[derive(Clone, Debug, PartialEq)]
pub enum Unit {
    Plain(Rec),
    Prot { typ: u8, content: Vec<u8>, pad: usize },
}
pub fn plain(typ: u8, body: &[u8]) -> Unit {
    Unit::Plain(Rec { typ, ver: 0x0303, body: body.to_vec() })
}

pub const MAX: usize = 0x4000;
fn cut<'a>(m: &'a [u8], sizes: &[usize], i: &mut usize) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut pos = 0;
    while pos < m.len() {
        let n = if sizes.is_empty() { MAX } else { sizes[*i % sizes.len()].clamp(1, MAX) };
        *i += 1;
        let n = n.min(m.len() - pos);
        v.push(&m[pos..pos + n]);
        pos += n;
    }
    v
}

impl Frame {
    pub fn hello_units(&self, sh: &[u8]) -> Vec<Unit> {
        let mut v = vec![];
        for _ in 0..self.ccs[0] {
            v.push(plain(20, &[1]));
        }
        v.extend(cut(sh, &self.hello, &mut 0).into_iter().map(|c| plain(22, c)));
        v
    }
    pub fn prot_units(&self, msgs: &[Vec<u8>]) -> Vec<Unit> {
        let mut v = vec![];
        let mut i = 0;
        let mut starts = vec![0usize];
        for m in msgs {
            starts.push(starts.last().unwrap() + m.len());
        }
        let pieces: Vec<Vec<u8>> = if self.pack {
            let all = msgs.concat();
            cut(&all, &self.sizes, &mut i).into_iter().map(|c| c.to_vec()).collect()
        } else {
            msgs.iter().flat_map(|m| cut(m, &self.sizes, &mut i).into_iter().map(|c| c.to_vec()).collect::<Vec<_>>()).collect()
        };
        let mut pos = 0;
        let mut budget = 6 * MAX;
        for (k, c) in pieces.into_iter().enumerate() {
            if let Some(j) = starts.iter().position(|s| *s == pos) {
                for _ in 0..*self.ccs.get(1 + j).unwrap_or(&0) {
                    v.push(plain(20, &[1]));
                }
            }
            pos += c.len();
            let pad = if self.pads.is_empty() { 0 } else { self.pads[k % self.pads.len()] };
            // no more padding in total than a few full records, for the sake of time
            let pad = pad.min(MAX - c.len()).min(budget);
            budget -= pad;
            v.push(Unit::Prot { typ: 22, content: c, pad });
        }
        v
    }
}

/// Protects the units in order.
pub fn seal(units: &[Unit], k: &Side) -> Vec<Rec> {
    let mut seq = 0;
    units
        .iter()
        .map(|u| match u {
            Unit::Plain(r) => r.clone(),
            Unit::Prot { typ, content, pad } => {
                seq += 1;
                k.seal(seq - 1, *typ, content, *pad)
            }
        })
        .collect()
}
pub fn stream(recs: &[Rec]) -> Vec<u8> {
    recs.iter().flat_map(|r| r.bytes()).collect()
}

/// The complete, valid response.
pub fn respond(p: &Plan, out: &[u8], a: &mut Att) -> Vec<u8> {
    match p.srv.flight(out) {
        Err(e) => {
            a.hello_err = Some(e);
            vec![]
        }
        Ok(f) => {
            let sh = f.sh.encode().b;
            let k = f.keys(&sh);
            let mut u = p.frame.hello_units(&sh);
            u.extend(p.frame.prot_units(&f.msgs()));
            let v = stream(&seal(&u, &k.server));
            a.keys = Some(k);
            v
        }
    }
}

/// The alerts in what the client wrote: (level, description, protected).
pub struct Out {
    pub hello: Vec<u8>,
    pub hello_bytes: Vec<u8>,
    pub alerts: Vec<(u8, u8, bool)>,
    pub partial: usize,
}
pub fn out(a: &Att) -> Result<Out, Fail> {
    let w = match written(&a.out) {
        Ok(w) => w,
        Err(e) => return fail("client-stream", e),
    };
    let mut alerts = vec![];
    let mut seq = 0;
    for r in &w.rest {
        match r.typ {
            21 => {
                ensure!(r.body.len() == 2, "alert-record", "plaintext alert record of length {}", r.body.len());
                alerts.push((r.body[0], r.body[1], false));
            }
            23 => {
                let Some(k) = &a.keys else { return fail("client-record", "protected record without keys") };
                let Some((t, c)) = k.client.open(seq, r) else {
                    return fail("client-record", format!("the client's protected record {seq} does not open under its traffic key"));
                };
                seq += 1;
                ensure!(t == 21 && c.len() == 2, "client-record", "protected record of type {t}: {}", hexs(&c));
                alerts.push((c[0], c[1], true));
            }
            t => return fail("client-record", format!("record of type {t} after the hello")),
        }
    }
    Ok(Out { hello: w.hello, hello_bytes: a.out[..w.hello_end].to_vec(), alerts, partial: w.partial.len() })
}

pub fn hello_ok(a: &Att) -> Result<(), Fail> {
    match &a.hello_err {
        Some(e) => fail("hello", format!("no server could use the ClientHello: {e}")),
        None => Ok(()),
    }
}

/// The certificate message was reached and accepted; nothing but the hello was written.
pub fn expect_passed(t: &Trace) -> Result<(), Fail> {
    hello_ok(t.att())?;
    match t.end() {
        End::Passed | End::Connected => {}
        e => return fail("not-accepted", format!("a valid exchange ended with {e:?} (alerts {:?})", out(t.att()).map(|o| o.alerts))),
    }
    let o = out(t.att())?;
    ensure!(o.alerts.is_empty() && o.partial == 0, "extra-output", "alerts {:?} in a valid exchange", o.alerts);
    ensure_eq!(t.att().closes, 0, "closed");
    Ok(())
}

/// Exactly one fatal alert out of `allowed` was sent and reported, and the transport closed once.
pub fn expect_fatal(t: &Trace, allowed: &[u8], prot: bool) -> Result<(), Fail> {
    hello_ok(t.att())?;
    let e = t.end();
    let End::Failed { err, alert } = e else { return fail("accepted", format!("not refused: {e:?}")) };
    let o = out(t.att())?;
    ensure!(err == TLS, "error-kind", "error {err} (alert {alert}), alerts sent {:?}, expected a TLS error with one of {allowed:?}", o.alerts);
    ensure!(allowed.iter().any(|x| *x as i32 == alert), "alert-code", "reported alert {alert}, expected one of {allowed:?}");
    ensure!(o.alerts == [(2, alert as u8, prot)] && o.partial == 0, "alert-sent", "alerts on the wire (level, code, protected) {:?}, reported {alert}, protected expected: {prot}", o.alerts);
    ensure_eq!(t.att().closes, 1, "closes");
    Ok(())
}

/// A peer alert was reported: nothing sent, transport closed once.
pub fn expect_peer(t: &Trace, code: u8) -> Result<(), Fail> {
    hello_ok(t.att())?;
    let e = t.end();
    let End::Failed { err, alert } = e else { return fail("accepted", format!("a peer alert was not reported: {e:?}")) };
    let o = out(t.att())?;
    ensure!(err == TLS_PEER, "error-kind", "error {err} (alert {alert}) for a peer alert {code}");
    ensure_eq!(alert, code as i32, "peer-alert-code");
    ensure!(o.alerts.is_empty() && o.partial == 0, "alert-sent", "an alert was answered with {:?}", o.alerts);
    ensure_eq!(t.att().closes, 1, "closes");
    Ok(())
}

/// One attempt on a new object against a server.
pub fn once(cfg: &Cfg, seed: u64, io: &Io, serve: impl FnOnce(&[u8], &mut Att) -> Vec<u8> + 'static) -> Result<Trace, Fail> {
    let (cfg, io) = (cfg.clone(), io.clone());
    run(move |s| {
        s.configure(&cfg);
        s.attempt(&io, seed, vec![], serve);
        s.connect_through();
    })
}
pub fn once_plan(p: &Plan) -> Result<Trace, Fail> {
    let q = p.clone();
    once(&p.cfg, p.seed, &p.io, move |o, a| respond(&q, o, a))
}

/// What a server sends, computed from the valid exchange, the keys of both sides
/// that go with it, and a note.
pub struct Sent {
    pub bytes: Vec<u8>,
    pub keys: Option<Keys>,
    pub note: String,
}
/// Runs a session against a server, then `f`, on a new object or on a prepared one.
pub fn against(p: &Plan, serve: impl FnOnce(&Flight) -> Sent + 'static, f: impl FnOnce(&mut Sess)) -> Result<Trace, Fail> {
    if let Some(i) = p.pool {
        let r = ready(i)?;
        let mut fl = r.flight.clone();
        if let Err(e) = p.srv.tail(&mut fl) {
            return fail("hello", e);
        }
        let s = serve(&fl);
        let other = p.between.clone();
        let mut t = r.deliver(&s.bytes, &p.io, s.keys, |s| {
            if let Some(c) = &other {
                s.configure(c);
            }
            f(s)
        })?;
        t.atts[0].note.push(s.note);
        return Ok(t);
    }
    let (q, io) = (p.clone(), p.io.clone());
    run(move |s| {
        s.configure(&q.cfg);
        let srv = q.srv.clone();
        s.attempt(&io, q.seed, vec![], move |o, a| match srv.flight(o) {
            Err(e) => {
                a.hello_err = Some(e);
                vec![]
            }
            Ok(fl) => {
                let s = serve(&fl);
                a.keys = s.keys;
                a.note.push(s.note);
                s.bytes
            }
        });
        f(s);
    })
}

/// A fixed set of exchanges whose beginnings are kept ready.
pub const POOL: u8 = 24;
pub fn pool_plan(i: u8) -> Plan {
    let i = i % POOL;
    let mut p = Plan { seed: 1000 + i as u64, ..Plan::default() };
    p.cfg.suites = 1 + i % 3;
    p.srv.suite = i / 3;
    p.srv.key = [i as u64 + 2, i as u64, 3, 4];
    p.srv.swap = i % 2 == 1;
    if i % 4 < 2 {
        p.cfg.name = Some(Hx(if i % 4 == 0 { b"example.org".to_vec() } else { vec![b'y'; 300] }));
    }
    let n = |k: usize| Hx(fill(k, 70 + k as u64).into_iter().map(|b| b.max(1)).collect());
    p.cfg.protos = match i % 6 {
        0 => None,
        1 => Some(vec![Hx(b"h2".to_vec())]),
        2 => Some(vec![Hx(b"h2".to_vec()), Hx(b"http/1.1".to_vec())]),
        3 => Some(vec![n(255), n(1), n(254)]),
        4 => Some((1..12).map(n).collect()),
        _ => Some(vec![Hx(b"http/1.1".to_vec()), Hx(b"h".to_vec()), Hx(b"h2".to_vec()), Hx(b"h2c".to_vec())]),
    };
    p
}
pub struct Ready {
    pub plan: Plan,
    pub flight: Flight,
    /// Waiting for the ServerHello, and for what follows a valid one.
    pub hello: Zygote,
    pub keyed: Zygote,
}
thread_local! {
    static READY: RefCell<HashMap<u8, Result<Rc<Ready>, Fail>>> = RefCell::new(HashMap::new());
}
pub fn ready(i: u8) -> Result<Rc<Ready>, Fail> {
    let i = i % POOL;
    if let Some(r) = READY.with(|r| r.borrow().get(&i).cloned()) {
        return r;
    }
    let make = || {
        let plan = pool_plan(i);
        let p = plan.clone();
        let head = move |o: &[u8], a: &mut Att| match p.srv.flight(o) {
            Ok(f) => stream(&seal(&p.frame.hello_units(&f.sh.encode().b), &Side { key: vec![], iv: [0; 12] })),
            Err(e) => {
                a.hello_err = Some(e);
                vec![]
            }
        };
        let keyed = Zygote::new(&plan.cfg, plan.seed, head)?;
        let hello = Zygote::new(&plan.cfg, plan.seed, |_, _| vec![])?;
        let flight = match plan.srv.flight(&keyed.out) {
            Ok(f) => f,
            Err(e) => return fail("hello", e),
        };
        Ok(Rc::new(Ready { plan, flight, hello, keyed }))
    };
    let v = make();
    READY.with(|r| r.borrow_mut().insert(i, v.clone()));
    v
}
impl Ready {
    /// Gives the client `v` (all the server sends).
    pub fn deliver(&self, v: &[u8], io: &Io, keys: Option<Keys>, f: impl FnOnce(&mut Sess)) -> Result<Trace, Fail> {
        match v.strip_prefix(&self.keyed.head[..]) {
            Some(rest) => self.keyed.run(rest, io, keys, f),
            None => self.hello.run(v, io, keys, f),
        }
    }
}

// generators

pub fn name() -> impl Strategy<Value = Hx> + Clone {
    let ch = prop_oneof![8 => b'a'..=b'z', 1 => Just(b'.'), 1 => b'0'..=b'9', 1 => 1..=255u8];
    prop_oneof![6 => vec(ch.clone(), 1..40), 1 => vec(ch, 200..256)].prop_map(Hx)
}
pub fn proto() -> impl Strategy<Value = Hx> + Clone {
    prop_oneof![
        3 => Just(Hx(b"h2".to_vec())),
        3 => Just(Hx(b"http/1.1".to_vec())),
        3 => vec(1..=255u8, 1..12).prop_map(Hx),
        1 => vec(1..=255u8, 250..=255).prop_map(Hx),
        1 => (1..=255usize, 2..1000u64).prop_map(|(n, s)| Hx(fill(n, s).into_iter().map(|b| b.max(1)).collect())),
    ]
}
/// Configurations that can connect.
pub fn cfg() -> impl Strategy<Value = Cfg> + Clone {
    (prop::option::of(name()), prop::option::of(vec(proto(), 1..5)), 1..=3u8).prop_map(|(name, protos, suites)| Cfg { name, protos, sig: 1, grp: 1, suites, stray: 0 })
}
pub fn key() -> impl Strategy<Value = L> + Clone {
    prop_oneof![
        8 => any::<L>(),
        1 => (1..20u64).prop_map(|k| [k, 0, 0, 0]),
        1 => (1..20u64).prop_map(|k| [crate::refs::p256::N[0] - k, crate::refs::p256::N[1], crate::refs::p256::N[2], crate::refs::p256::N[3]]),
    ]
}
pub fn magnitude() -> impl Strategy<Value = Hx> + Clone {
    // 1 ..= n-1 in every length
    prop_oneof![
        3 => (vec(any::<u8>(), 32)).prop_map(|mut v| { v[0] &= 0x7f; v }),
        3 => (vec(any::<u8>(), 32)).prop_map(|mut v| { v[0] |= 0x80; v[1] &= 0xfe; v[4] = 0; v }),
        2 => (1..32usize).prop_flat_map(|n| vec(any::<u8>(), n)),
        1 => (1..=255u8).prop_map(|b| vec![b]),
        1 => Just(crate::refs::p256::be(&[crate::refs::p256::N[0] - 1, crate::refs::p256::N[1], crate::refs::p256::N[2], crate::refs::p256::N[3]]).to_vec()),
    ]
    .prop_map(|mut v| {
        if v.iter().all(|b| *b == 0) {
            *v.last_mut().unwrap() = 1;
        }
        if v[0] == 0xff && v.len() == 32 && v[1..4] == [0xff; 3] && v[4..8] == [0; 4] && v[8..] > crate::refs::p256::be(&crate::refs::p256::N)[8..] {
            v[0] = 0x7f;
        }
        Hx(v)
    })
}
pub fn cert_spec() -> impl Strategy<Value = CertSpec> + Clone {
    let size = || prop_oneof![4 => 0..60usize, 2 => 100..300usize, 1 => 120..136usize, 1 => 240..270usize, 1 => 65500..65600usize, 2 => 1..1000usize];
    let small = || prop_oneof![6 => 0..60usize, 1 => 100..300usize];
    (
        magnitude(),
        magnitude(),
        vec(any::<u8>(), 1..21).prop_map(Hx),
        (small(), small(), prop_oneof![9 => small(), 1 => size()], small()),
        any::<[bool; 2]>(),
        any::<bool>(),
        any::<[bool; 2]>(),
        any::<bool>(),
    )
        .prop_map(|(r, s, serial, z, gen_time, extensions, uids, params)| CertSpec { r, s, serial, sizes: [z.0, z.1, z.2, z.3], gen_time, extensions, uids, params })
}
pub fn srv() -> impl Strategy<Value = Srv> + Clone {
    (
        (key(), any::<u64>(), any::<u8>(), prop::option::of(any::<u8>()), any::<bool>()),
        (Just(0x0303u16), any::<bool>(), prop::option::of(any::<u8>()), any::<u8>()),
        vec(cert_spec(), 1..4),
    )
        .prop_map(|((key, random, suite, alpn, swap), (legacy, ee_name, ee_groups, ee_rot), mut certs)| {
            // at most one very long certificate: messages stay below 128 KiB
            let mut long = false;
            for c in &mut certs {
                if c.sizes[2] > 60_000 {
                    if long {
                        c.sizes[2] -= 60_000;
                    }
                    long = true;
                }
            }
            Srv { key, random, suite, alpn, swap, legacy, ee_name, ee_groups, ee_rot, certs, ballast: 0 }
        })
}
pub fn sizes() -> impl Strategy<Value = Vec<usize>> + Clone {
    let one = prop_oneof![3 => 1..6usize, 3 => 1..40usize, 3 => 1..400usize, 1 => 1..=MAX, 1 => Just(MAX)];
    prop_oneof![1 => Just(vec![]), 4 => vec(one, 1..6)]
}
pub fn pads() -> impl Strategy<Value = Vec<usize>> + Clone {
    let one = prop_oneof![4 => Just(0usize), 3 => 1..20usize, 1 => 0..300usize, 1 => 0..=MAX, 1 => Just(MAX)];
    prop_oneof![2 => Just(vec![]), 2 => vec(one, 1..5)]
}
pub fn frame() -> impl Strategy<Value = Frame> + Clone {
    let n = || prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => 2..5u8];
    (sizes(), sizes(), any::<bool>(), pads(), (n(), n(), n())).prop_map(|(hello, sizes, pack, pads, c)| Frame { hello, sizes, pack, pads, ccs: [c.0, c.1, c.2] })
}
pub fn io_sizes() -> impl Strategy<Value = Vec<usize>> + Clone {
    let one = prop_oneof![3 => 1..6usize, 3 => 1..64usize, 2 => 1..2000usize, 1 => 1..20000usize];
    prop_oneof![2 => Just(vec![]), 3 => vec(one, 1..6)]
}
pub fn io() -> impl Strategy<Value = Io> + Clone {
    (io_sizes(), io_sizes()).prop_map(|(reads, writes)| Io { reads, writes, faults: vec![], dead_writes_from: None })
}
pub fn plan() -> impl Strategy<Value = Plan> + Clone {
    // now and then a ClientHello of several records
    let long = prop::option::weighted(0.04, 15_500..40_000usize);
    (cfg(), any::<u64>(), srv(), frame(), io(), long).prop_map(|(mut cfg, seed, srv, frame, io, long)| {
        if let Some(n) = long {
            cfg.name = Some(Hx(vec![b'l'; n]));
        }
        Plan { cfg, seed, srv, frame, io, pool: None, between: None }
    })
}
/// A change of configuration during an attempt.
pub fn between() -> impl Strategy<Value = Option<Cfg>> + Clone {
    let c = prop_oneof![4 => cfg(), 1 => Just(Cfg { sig: 0, grp: 0, suites: 0, ..Cfg::default() }), 1 => (cfg(), 0..4u8).prop_map(|(c, n)| Cfg { suites: n, ..c })];
    prop::option::weighted(0.2, c)
}
/// Plans that go on from a prepared exchange: after the ServerHello, mostly.
pub fn pooled() -> impl Strategy<Value = Plan> + Clone {
    let ee = (prop::option::of(any::<u8>()), any::<bool>(), prop::option::of(any::<u8>()), any::<u8>());
    let certs = prop_oneof![3 => Just(vec![CertSpec::default()]), 2 => vec(cert_spec(), 1..4).prop_map(|mut v| { v.iter_mut().for_each(|c| c.sizes[2] %= 60_000); v })];
    let frame = prop_oneof![2 => Just(Frame::default()), 1 => frame().prop_map(|f| Frame { hello: vec![], ccs: [0, f.ccs[1], f.ccs[2]], ..f })];
    let io = prop_oneof![2 => Just(Io::default()), 1 => io()];
    (0..POOL, ee, certs, frame, io, between()).prop_map(|(i, (alpn, ee_name, ee_groups, ee_rot), certs, frame, io, between)| {
        let mut p = pool_plan(i);
        p.srv = Srv { alpn, ee_name, ee_groups, ee_rot, certs, ..p.srv };
        Plan { frame, io, pool: Some(i), between, ..p }
    })
}
