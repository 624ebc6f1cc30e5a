//! T08, T10: what a server may choose, and what is made of its choices.
use super::t_peer::{before_close, classify, judged};
use crate::ensure;
use crate::fw::{fail, Obs, Prop, Res, Run};
use crate::gens::*;
use crate::refs::p256::{be, curve, L};
use crate::tls::der::{cert, CertSpec};
use crate::tls::model::*;
use crate::tls::muta::*;
use crate::tls::plan::*;
use crate::tls::server::*;
use crate::tls::sess::*;
use crate::tls::wire::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

pub const T08: Prop = Prop {
    id: "T08",
    rule: "a case is non-trivial if the server's messages deviate from those of a valid server by at least one of the listed deviations",
    assumptions: &["the judge in tls/model.rs reads RFC 8446 correctly", "for each deviation the alerts RFC 8446 allows are listed in props/t_policy.rs"],
    run: t08,
};
pub const T10: Prop = Prop {
    id: "T10",
    rule: "a case is non-trivial if the server's encrypted extensions carry an application protocol extension or the client offered protocols",
    assumptions: &["the judge in tls/model.rs reads RFC 7301 correctly"],
    run: t10,
};

/// A way in which the server's messages are not those of a valid server.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dev {
    /// Type of the n-th message.
    Type(u8, u8),
    /// The n-th message left out, sent twice, or the last two exchanged.
    Skip(u8),
    Twice(u8),
    Exchanged,
    /// Another well-formed message before the n-th.
    Other(u8, u8, Hx),
    Retry,
    RetryBit(u8),
    Sentinel(u8),
    SidFlip(u8),
    SidCut(u8),
    SidMore(Hx),
    Suite(u16),
    Comp(u8),
    Version(u16),
    VersionBytes(Hx),
    NoVersion,
    NoShare,
    NoExts,
    Group(u16),
    ShareForm(u8),
    ShareLen(u16),
    ShareFlip(u16),
    /// A coordinate of a point replaced by the coordinate plus the modulus.
    ShareBig(u64),
    ShareBytes(Hx),
    /// The client's own share back, or another valid point.
    ShareTail(Hx),
    ShExt { typ: u16, body: Hx, at: u8 },
    ShDup { which: u8, at: u8 },
    /// The message ends after so many bytes of its body / goes on after its end.
    Cut(u8, u16),
    More(u8, Hx),
    EeExt { typ: u16, body: Hx, at: u8 },
    EeDup { which: u8, at: u8 },
    EeName(Hx),
    EeGroups(Hx),
    EeAlpn(Hx),
    Context(Hx),
    NoCerts,
    EntryExt { entry: u8, exts: Vec<(u16, Hx)>, raw: Option<Hx> },
    /// An entry that is no certificate at all.
    EmptyEntry(u8),
    Request(Hx),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub plan: Plan,
    pub devs: Vec<Dev>,
}

struct Msgs {
    sh: Hello,
    block: bool,
    ee: Vec<(u16, Vec<u8>)>,
    ctx: Vec<u8>,
    entries: Vec<(Vec<u8>, Vec<u8>)>,
}

fn share_mut(sh: &mut Hello) -> Option<&mut Vec<u8>> {
    sh.exts.iter_mut().find(|e| e.0 == 51).map(|e| &mut e.1)
}
fn set_share(sh: &mut Hello, f: impl FnOnce(&mut Vec<u8>)) {
    if let Some(s) = share_mut(sh) {
        if s.len() < 4 {
            return;
        }
        let g = get(&s[..2]) as u16;
        let mut k = s[4..].to_vec();
        f(&mut k);
        *s = key_share(g, &k);
    }
}

/// The coordinates of a point with a small x, plus the modulus.
fn big_point(seed: u64) -> Vec<u8> {
    let c = curve();
    let mut x = seed % 1_000_000;
    loop {
        let l: L = [x, 0, 0, 0];
        if let Some(y) = c.lift_x(&l, seed % 2 == 1) {
            let p = [0xffff_ffff_ffff_ffff, 0x0000_0000_ffff_ffff, 0, 0xffff_ffff_0000_0001];
            let (lo, carry) = p[0].overflowing_add_(x);
            let mut big: L = [lo, p[1], p[2], p[3]];
            if carry {
                for w in &mut big[1..] {
                    let (v, c) = w.overflowing_add(1);
                    *w = v;
                    if !c {
                        break;
                    }
                }
            }
            return [&[4u8][..], &be(&big), &be(&y)].concat();
        }
        x += 1;
    }
}
trait OverflowingAdd {
    fn overflowing_add_(self, o: u64) -> (u64, bool);
}
impl OverflowingAdd for u64 {
    fn overflowing_add_(self, o: u64) -> (u64, bool) {
        self.overflowing_add(o)
    }
}

pub fn build(c: &Case, f: &Flight, ctx: &Ctx) -> (Vec<u8>, Vec<u8>, Keys) {
    let p = &c.plan;
    let mut m = Msgs { sh: f.sh.clone(), block: true, ee: f.ee.clone(), ctx: vec![], entries: f.certs.iter().map(|c| (c.clone(), vec![])).collect() };
    for d in &c.devs {
        let sh = &mut m.sh;
        match d {
            Dev::Retry => sh.random = RETRY,
            Dev::RetryBit(b) => {
                sh.random = RETRY;
                sh.random[*b as usize / 8] ^= 1 << (b % 8);
            }
            Dev::Sentinel(x) => sh.random[24..].copy_from_slice(&[0x44, 0x4f, 0x57, 0x4e, 0x47, 0x52, 0x44, *x]),
            Dev::SidFlip(b) => {
                let n = sh.sid.len();
                if n > 0 {
                    sh.sid[*b as usize / 8 % n] ^= 1 << (b % 8);
                } else {
                    sh.sid.push(*b);
                }
            }
            Dev::SidCut(n) => {
                let l = sh.sid.len();
                sh.sid.truncate(l.saturating_sub(1 + *n as usize % 32));
            }
            Dev::SidMore(b) => sh.sid.extend_from_slice(b),
            Dev::Suite(s) => sh.suite = *s,
            Dev::Comp(x) => sh.comp = *x,
            Dev::Version(v) => {
                for e in &mut sh.exts {
                    if e.0 == 43 {
                        e.1 = v.to_be_bytes().to_vec();
                    }
                }
            }
            Dev::VersionBytes(b) => {
                for e in &mut sh.exts {
                    if e.0 == 43 {
                        e.1 = b.0.clone();
                    }
                }
            }
            Dev::NoVersion => sh.exts.retain(|e| e.0 != 43),
            Dev::NoShare => sh.exts.retain(|e| e.0 != 51),
            Dev::NoExts => {
                sh.exts.clear();
                m.block = false;
            }
            Dev::Group(g) => {
                if let Some(s) = share_mut(sh) {
                    let k = s[4.min(s.len())..].to_vec();
                    *s = key_share(*g, &k);
                }
            }
            Dev::ShareForm(x) => set_share(sh, |k| k[0] = *x),
            Dev::ShareLen(n) => set_share(sh, |k| {
                let w = k.clone();
                *k = w.iter().copied().cycle().take(*n as usize).collect();
            }),
            Dev::ShareFlip(b) => set_share(sh, |k| {
                let b = *b as usize % (8 * k.len().max(1));
                if let Some(x) = k.get_mut(b / 8) {
                    *x ^= 1 << (b % 8);
                }
            }),
            Dev::ShareBig(s) => set_share(sh, |k| *k = big_point(*s)),
            Dev::ShareBytes(b) => {
                if let Some(s) = share_mut(sh) {
                    *s = b.0.clone();
                }
            }
            Dev::ShareTail(b) => {
                if let Some(s) = share_mut(sh) {
                    s.extend_from_slice(b);
                }
            }
            Dev::ShExt { typ, body, at } => {
                let n = sh.exts.len();
                sh.exts.insert(*at as usize % (n + 1), (*typ, body.0.clone()));
            }
            Dev::ShDup { which, at } => {
                let n = sh.exts.len();
                if n > 0 {
                    let e = sh.exts[*which as usize % n].clone();
                    sh.exts.insert(*at as usize % (n + 1), e);
                }
            }
            Dev::EeExt { typ, body, at } => {
                let n = m.ee.len();
                m.ee.insert(*at as usize % (n + 1), (*typ, body.0.clone()));
            }
            Dev::EeDup { which, at } => {
                let n = m.ee.len();
                if n > 0 {
                    let e = m.ee[*which as usize % n].clone();
                    m.ee.insert(*at as usize % (n + 1), e);
                }
            }
            Dev::EeName(b) | Dev::EeGroups(b) | Dev::EeAlpn(b) => {
                let t = match d {
                    Dev::EeName(_) => 0,
                    Dev::EeGroups(_) => 10,
                    _ => 16,
                };
                match m.ee.iter_mut().find(|e| e.0 == t) {
                    Some(e) => e.1 = b.0.clone(),
                    None => m.ee.push((t, b.0.clone())),
                }
            }
            Dev::Context(b) => m.ctx = b.0.clone(),
            Dev::NoCerts => m.entries.clear(),
            Dev::EmptyEntry(i) => {
                let n = m.entries.len();
                m.entries.insert(*i as usize % (n + 1), (vec![], vec![]));
            }
            Dev::EntryExt { entry, exts, raw } => {
                let n = m.entries.len().max(1);
                if let Some(e) = m.entries.get_mut(*entry as usize % n) {
                    let mut x = Enc::default();
                    for (t, b) in exts {
                        x.u16(*t);
                        x.vec(2, |x| x.bytes(b));
                    }
                    if let Some(r) = raw {
                        x.bytes(r);
                    }
                    e.1 = x.b;
                }
            }
            _ => {}
        }
    }
    let sh = if m.block {
        m.sh.encode().b
    } else {
        let h = &m.sh;
        Enc::message(2, |e| {
            e.u16(h.legacy);
            e.bytes(&h.random);
            e.vec(1, |e| e.bytes(&h.sid));
            e.u16(h.suite);
            e.u8(h.comp);
        })
        .b
    };
    let cm = Enc::message(11, |e| {
        e.vec(1, |e| e.bytes(&m.ctx));
        e.vec(3, |e| {
            for (c, x) in &m.entries {
                e.vec(3, |e| e.bytes(c));
                e.vec(2, |e| e.bytes(x));
            }
        });
    })
    .b;
    let mut msgs = vec![sh, encrypted_extensions(&m.ee).b, cm];
    let fix = |m: &mut Vec<u8>| {
        let n = m.len() - 4;
        put(&mut m[1..4], n);
    };
    for d in &c.devs {
        match d {
            Dev::Cut(i, n) => {
                let m = &mut msgs[*i as usize % 3];
                let l = m.len();
                // not by nothing
                m.truncate((4 + *n as usize).min(l - 1).max(4));
                fix(m);
            }
            Dev::More(i, b) => {
                let m = &mut msgs[*i as usize % 3];
                m.extend_from_slice(b);
                fix(m);
            }
            Dev::Type(i, t) => msgs[*i as usize % 3][0] = *t,
            _ => {}
        }
    }
    // Which messages, in which order; the first is sent without protection.
    let mut order: Vec<Vec<u8>> = msgs.clone();
    for d in &c.devs {
        match d {
            Dev::Skip(i) => {
                let i = *i as usize % 2;
                if order.len() > i + 1 {
                    order.remove(1 + i);
                }
            }
            Dev::Twice(i) => {
                let i = *i as usize % order.len();
                let m = order[i].clone();
                order.insert(i, m);
            }
            Dev::Exchanged => {
                let n = order.len();
                if n > 2 {
                    order.swap(n - 1, n - 2);
                }
            }
            Dev::Other(i, t, b) => {
                let i = *i as usize % (order.len() + 1);
                order.insert(i, Enc::message(*t, |e| e.bytes(b)).b);
            }
            Dev::Request(b) => {
                if order.len() > 2 {
                    order[2] = Enc::message(13, |e| e.bytes(b)).b;
                }
            }
            _ => {}
        }
    }
    let first = order.remove(0);
    let k = ctx.keys(&first, f.sh.suite);
    let go = |sh: &[u8], rest: &[Vec<u8>], k: &Keys| {
        let mut u = p.frame.hello_units(sh);
        u.extend(p.frame.prot_units(rest));
        stream(&seal(&u, &k.server))
    };
    let sh0 = f.sh.encode().b;
    let valid = go(&sh0, &f.msgs(), &f.keys(&sh0));
    (go(&first, &order, &k), valid, k)
}

/// The alerts RFC 8446 allows for a deviation.
fn alerts(d: &Dev) -> Vec<u8> {
    match d {
        // of the type that is expected there, perhaps, but with another content
        Dev::Other(_, 2 | 8 | 11, _) => vec![10, 47, 50, 70, 109],
        Dev::Type(..) | Dev::Skip(_) | Dev::Twice(_) | Dev::Exchanged | Dev::Other(..) => vec![10],
        Dev::Retry | Dev::RetryBit(_) => vec![47, 10, 40],
        Dev::Sentinel(_) => vec![],
        Dev::SidFlip(_) | Dev::SidCut(_) => vec![47],
        Dev::SidMore(_) => vec![47, 50],
        Dev::Suite(_) => vec![47],
        Dev::Comp(_) => vec![47, 50],
        Dev::Version(_) => vec![47],
        Dev::VersionBytes(_) => vec![50, 47],
        Dev::NoVersion => vec![70, 109, 40, 47],
        Dev::NoShare => vec![109, 40, 47],
        Dev::NoExts => vec![50, 70, 109],
        Dev::Group(_) => vec![47],
        Dev::ShareForm(_) | Dev::ShareLen(_) | Dev::ShareFlip(_) | Dev::ShareBig(_) | Dev::ShareBytes(_) | Dev::ShareTail(_) => vec![47, 50],
        Dev::ShExt { typ, .. } => match typ {
            43 | 51 => vec![47, 50],
            // known, but not for this message: illegal_parameter or (as an answer to nothing) unsupported_extension
            _ => vec![110, 47],
        },
        Dev::ShDup { .. } | Dev::EeDup { .. } => vec![47, 50],
        Dev::Cut(0, _) => vec![50, 47, 70, 109],
        Dev::Cut(..) | Dev::More(..) => vec![50, 47],
        Dev::EeExt { typ, .. } => match typ {
            0 | 10 | 16 => vec![110, 50, 47],
            13 | 43 | 51 => vec![110, 47],
            _ => vec![110],
        },
        Dev::EeName(_) | Dev::EeGroups(_) | Dev::EeAlpn(_) => vec![50, 47, 110],
        Dev::Context(_) => vec![47, 50],
        Dev::NoCerts => vec![50],
        Dev::EmptyEntry(_) => vec![50, 42],
        Dev::EntryExt { raw: None, .. } => vec![110, 47],
        Dev::EntryExt { .. } => vec![110, 50, 47],
        // valid at this place, but not something this client can go on after
        Dev::Request(_) => vec![10, 40, 50, 80],
    }
}

fn check08(c: &Case, obs: &mut Obs) -> Res {
    let d = c.clone();
    let (t, v, changed) = judged(&c.plan, move |f, ctx| build(&d, f, ctx))?;
    if !changed {
        obs.trivial();
    }
    for d in &c.devs {
        let s = format!("{d:?}");
        obs.label(s.split(['(', ' ']).next().unwrap());
    }
    classify(&t, &v, obs);
    let t = before_close(&t);
    agree(&t, &v)?;
    if let End::Failed { err: TLS, alert } = t.end() {
        let allowed: Vec<u8> = c.devs.iter().flat_map(alerts).collect();
        ensure!(allowed.iter().any(|a| *a as i32 == alert), "alert-code", "refused with alert {alert}, RFC 8446 allows {allowed:?} for {:?}", c.devs);
    }
    Ok(())
}

/// Plans for deviations: prepared ones mostly, some with an answer of their own.
fn base() -> impl Strategy<Value = Plan> + Clone {
    prop_oneof![12 => pooled(), 1 => plan()]
}

fn ext_type() -> impl Strategy<Value = u16> + Clone {
    prop_oneof![3 => select(vec![0u16, 10, 13, 16, 43, 51]), 3 => 0..64u16, 1 => any::<u16>(), 1 => select(vec![0x0a0au16, 0xff01, 0xfe0d, 0x4469, 13172])]
}
fn ext_body() -> impl Strategy<Value = Hx> + Clone {
    prop_oneof![
        3 => vec(any::<u8>(), 0..20).prop_map(Hx),
        1 => Just(Hx(vec![])),
        1 => Just(Hx(vec![0])),
        1 => Just(Hx(vec![0, 0])),
        1 => Just(Hx(vec![3, 4])),
        1 => Just(Hx(vec![0, 2, 0, 23])),
        1 => Just(Hx(vec![0, 3, 2, b'h', b'2'])),
        1 => Just(Hx(vec![0, 23])),
        1 => (100..400usize).prop_map(|n| Hx(fill(n, 3))),
    ]
}

pub fn dev() -> impl Strategy<Value = Dev> + Clone {
    let few = || vec(any::<u8>(), 1..12).prop_map(Hx);
    let hello = prop_oneof![
        1 => Just(Dev::Retry),
        1 => any::<u8>().prop_map(Dev::RetryBit),
        1 => (0..3u8).prop_map(Dev::Sentinel),
        2 => any::<u8>().prop_map(Dev::SidFlip),
        1 => any::<u8>().prop_map(Dev::SidCut),
        1 => few().prop_map(Dev::SidMore),
        2 => prop_oneof![0x1300..0x1308u16, any::<u16>()].prop_map(Dev::Suite),
        1 => any::<u8>().prop_map(Dev::Comp),
        2 => prop_oneof![0x0300..0x0306u16, 0x7f00..0x7f1fu16, any::<u16>()].prop_map(Dev::Version),
        1 => vec(prop_oneof![Just(3u8), Just(4u8), any::<u8>()], 0..6).prop_map(|b| Dev::VersionBytes(Hx(b))),
        1 => Just(Dev::NoVersion),
        1 => Just(Dev::NoShare),
        1 => Just(Dev::NoExts),
        2 => prop_oneof![0..64u16, 0x100..0x105u16, any::<u16>()].prop_map(Dev::Group),
        1 => any::<u8>().prop_map(Dev::ShareForm),
        2 => prop_oneof![0..140u16, any::<u16>().prop_map(|n| n % 0x3800)].prop_map(Dev::ShareLen),
        3 => any::<u16>().prop_map(Dev::ShareFlip),
        1 => any::<u64>().prop_map(Dev::ShareBig),
        1 => vec(any::<u8>(), 0..80).prop_map(|b| Dev::ShareBytes(Hx(b))),
        1 => few().prop_map(Dev::ShareTail),
        4 => (ext_type(), ext_body(), any::<u8>()).prop_map(|(typ, body, at)| Dev::ShExt { typ, body, at }),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(which, at)| Dev::ShDup { which, at }),
    ];
    let any_msg = prop_oneof![
        2 => (0..3u8, prop_oneof![any::<u8>(), 0..25u8]).prop_map(|(i, t)| Dev::Type(i, t)),
        1 => (0..2u8).prop_map(Dev::Skip),
        1 => (0..3u8).prop_map(Dev::Twice),
        1 => Just(Dev::Exchanged),
        1 => (0..4u8, prop_oneof![0..25u8, any::<u8>()], ext_body()).prop_map(|(i, t, b)| Dev::Other(i, t, b)),
        3 => (0..3u8, prop_oneof![0..80u16, 0..600u16]).prop_map(|(i, n)| Dev::Cut(i, n)),
        2 => (0..3u8, few()).prop_map(|(i, b)| Dev::More(i, b)),
    ];
    let late = prop_oneof![
        5 => (ext_type(), ext_body(), any::<u8>()).prop_map(|(typ, body, at)| Dev::EeExt { typ, body, at }),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(which, at)| Dev::EeDup { which, at }),
        1 => ext_body().prop_map(Dev::EeName),
        2 => ext_body().prop_map(Dev::EeGroups),
        2 => ext_body().prop_map(Dev::EeAlpn),
        2 => few().prop_map(Dev::Context),
        1 => Just(Dev::NoCerts),
        1 => any::<u8>().prop_map(Dev::EmptyEntry),
        3 => (any::<u8>(), vec((prop_oneof![Just(5u16), Just(18u16), ext_type()], ext_body()), 0..3), prop::option::weighted(0.3, few())).prop_map(|(entry, exts, raw)| Dev::EntryExt { entry, exts, raw }),
        1 => ext_body().prop_map(Dev::Request),
    ];
    prop_oneof![4 => hello, 2 => any_msg, 4 => late]
}

fn pool_case(i: u8, devs: Vec<Dev>) -> Case {
    let mut plan = pool_plan(i);
    plan.pool = Some(i);
    plan.srv.ee_name = true;
    plan.srv.ee_groups = Some(1);
    plan.srv.alpn = Some(1);
    Case { plan, devs }
}

fn t08(run: &mut Run) {
    run.gen("deviations", 40_000, 4_000_000, (base(), prop_oneof![6 => vec(dev(), 1..=1), 2 => vec(dev(), 2..=2), 1 => vec(dev(), 0..4)]).prop_map(|(plan, devs)| Case { plan, devs }), check08);
    // one field over all its values
    let dense = run.thorough;
    let wide = |step: u32| (0..=0xffffu32).filter(move |x| dense || x % step == 0 || *x < 64 || (0x1300..0x1310).contains(x) || (0x0300..0x0308).contains(x) || (0x7f00..0x7f20).contains(x)).map(|x| x as u16);
    let mut items = vec![];
    for t in 0..=255u8 {
        for m in 0..3 {
            items.push(pool_case(t % 3, vec![Dev::Type(m, t)]));
        }
        items.push(pool_case(t % 3, vec![Dev::ShareForm(t)]));
        items.push(pool_case(t % 3, vec![Dev::Comp(t)]));
        items.push(pool_case(t % 3, vec![Dev::RetryBit(t)]));
        items.push(pool_case(t % 3, vec![Dev::SidFlip(t)]));
        items.push(pool_case(t % 3, vec![Dev::SidMore(Hx(vec![0; 1 + t as usize % 223]))]));
        items.push(pool_case(t % 3, vec![Dev::ShareLen(t as u16)]));
        for m in 0..3 {
            items.push(pool_case(3 + t % 3, vec![Dev::Cut(m, t as u16)]));
        }
    }
    for b in 0..65 * 8u16 {
        items.push(pool_case((b % 3) as u8, vec![Dev::ShareFlip(b)]));
    }
    for b in 0..64u64 {
        items.push(pool_case((b % 3) as u8, vec![Dev::ShareBig(b * 77)]));
    }
    for n in 0..32u8 {
        items.push(pool_case(n % 3, vec![Dev::SidCut(n)]));
    }
    for s in 0..3 {
        for x in wide(97) {
            items.push(pool_case(s, vec![Dev::Suite(x)]));
        }
    }
    for x in wide(131) {
        items.push(pool_case(1, vec![Dev::Version(x)]));
        items.push(pool_case(1, vec![Dev::Group(x)]));
        // in configurations that offered nothing optional, and everything
        for i in [2u8, 8] {
            items.push(pool_case(i, vec![Dev::ShExt { typ: x, body: Hx(vec![]), at: x as u8 }]));
            items.push(pool_case(i, vec![Dev::EeExt { typ: x, body: Hx(vec![]), at: x as u8 }]));
            items.push(pool_case(i, vec![Dev::EntryExt { entry: 0, exts: vec![(x, Hx(vec![]))], raw: None }]));
        }
    }
    // every pair of simple deviations
    let simple = [
        Dev::Retry,
        Dev::SidFlip(3),
        Dev::Suite(0x1302),
        Dev::Suite(0xc02b),
        Dev::Comp(1),
        Dev::Version(0x0303),
        Dev::NoVersion,
        Dev::NoShare,
        Dev::Group(0x18),
        Dev::ShareLen(64),
        Dev::ShareFlip(100),
        Dev::ShDup { which: 0, at: 0 },
        Dev::ShExt { typ: 16, body: Hx(vec![]), at: 0 },
        Dev::EeDup { which: 0, at: 1 },
        Dev::EeName(Hx(vec![0])),
        Dev::Context(Hx(vec![0])),
        Dev::NoCerts,
        Dev::Skip(0),
        Dev::Twice(1),
    ];
    for a in &simple {
        for b in &simple {
            items.push(pool_case(0, vec![a.clone(), b.clone()]));
            items.push(pool_case(5, vec![b.clone(), a.clone()]));
        }
    }
    run.all("fields", items, check08);
}

// T10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) enum Select {
    /// No extension at all.
    Nothing,
    Offered(u8),
    /// A name that is (mostly) not in the list, in a well-formed extension.
    Name(Hx),
    /// Several names.
    Several(Vec<Hx>),
    Empty,
    /// A changed encoding of an offered name.
    Edited(u8, Vec<Edit>),
    Raw(Hx),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Nego {
    plan: Plan,
    select: Select,
    /// What the server says in addition.
    extra: bool,
}

fn selection(s: &Select, offered: &[Vec<u8>]) -> Option<Vec<u8>> {
    let pick = |i: u8| if offered.is_empty() { b"h2".to_vec() } else { offered[i as usize % offered.len()].clone() };
    Some(match s {
        Select::Nothing => return None,
        Select::Offered(i) => alpn(&pick(*i)),
        Select::Name(n) => alpn(n),
        Select::Several(l) => {
            let mut e = Enc::default();
            e.vec(2, |e| l.iter().for_each(|n| e.vec(1, |e| e.bytes(n))));
            e.b
        }
        Select::Empty => vec![],
        Select::Edited(i, l) => {
            let mut e = Enc { b: alpn(&pick(*i)), lens: vec![(0, 2), (2, 1)] };
            l.iter().for_each(|x| apply(&mut e, x));
            e.b
        }
        Select::Raw(b) => b.0.clone(),
    })
}

/// What is reported after the encrypted extensions, before the certificate.
pub(super) fn check10(c: &Nego, obs: &mut Obs) -> Res {
    let k = c.clone();
    type N = (Verdict, Option<Vec<u8>>, bool, bool);
    let t = against(
        &c.plan,
        move |f| {
            let ctx = Ctx::of(f);
            let offered = offered_protos(&f.hello).unwrap_or_default();
            let mut ee: Vec<(u16, Vec<u8>)> = f.ee.iter().filter(|e| e.0 != 16).cloned().collect();
            let s = selection(&k.select, &offered);
            let has = s.is_some();
            if let Some(b) = s {
                let at = if k.extra { 0 } else { ee.len() };
                ee.insert(at, (16, b));
            }
            let sh = f.sh.encode().b;
            let keys = f.keys(&sh);
            let mut u = k.plan.frame.hello_units(&sh);
            u.extend(k.plan.frame.prot_units(&[encrypted_extensions(&ee).b]));
            let bytes = stream(&seal(&u, &keys.server));
            let (v, proto) = judge(&ctx, &bytes);
            let n: N = (v, proto, has, !offered.is_empty());
            Sent { bytes, keys: Some(keys), note: serde_json::to_string(&n).unwrap() }
        },
        |s| {
            s.connect_through();
            s.query();
            s.query();
        },
    )?;
    hello_ok(t.att())?;
    let Some(n) = t.att().note.first() else { return fail("no-read", "the client did not read the server's answer") };
    let (v, proto, has, offers): N = serde_json::from_str(n).unwrap();
    if !has && !offers {
        obs.trivial();
    }
    agree(&t, &v)?;
    match t.end() {
        End::Failed { err: WANT_READ, .. } => {
            let Some(want) = proto else { return fail("accepted", "encrypted extensions accepted that should not be") };
            obs.label(if want.is_empty() { "none selected" } else { "selected" });
            for o in &t.ops {
                ensure!(o.proto.0 == want, "protocol", "reported {:?}, selected {:?}", String::from_utf8_lossy(&o.proto), String::from_utf8_lossy(&want));
            }
        }
        End::Failed { alert, .. } => {
            obs.label(format!("refused with {alert}"));
            let allowed: &[i32] = if offers { &[47, 50] } else { &[110] };
            ensure!(allowed.contains(&alert), "alert-code", "refused with alert {alert}, expected one of {allowed:?}");
        }
        e => return fail("outcome", format!("{e:?}")),
    }
    Ok(())
}

/// Several connections on one object: each reports its own protocol.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    cfg: Cfg,
    seed: u64,
    picks: Vec<Option<u8>>,
}
fn chain(c: &Chain, obs: &mut Obs) -> Res {
    let c = c.clone();
    let d = c.clone();
    let t = run(move |s| {
        s.configure(&d.cfg);
        for (i, pick) in d.picks.iter().enumerate() {
            let srv = Srv { alpn: *pick, ..Srv::default() };
            s.attempt(&Io::default(), d.seed + i as u64, vec![], move |o, a| match srv.flight(o) {
                Err(e) => {
                    a.hello_err = Some(e);
                    vec![]
                }
                Ok(f) => {
                    let sh = f.sh.encode().b;
                    let k = f.keys(&sh);
                    let mut u = Frame::default().hello_units(&sh);
                    u.extend(Frame::default().prot_units(&f.msgs()[..1]));
                    stream(&seal(&u, &k.server))
                }
            });
            s.connect();
            s.close();
        }
    })?;
    ensure!(t.panic.is_none(), "panic", "{:?}", t.panic);
    let protos = c.cfg.protos.clone().unwrap_or_default();
    let mut seen = std::collections::HashSet::new();
    for (i, pick) in c.picks.iter().enumerate() {
        let want = match pick {
            Some(p) if !protos.is_empty() => protos[*p as usize % protos.len()].0.clone(),
            _ => vec![],
        };
        let o = &t.ops[2 * i];
        if let Some(e) = &t.atts[i].hello_err {
            return fail("hello", e.clone());
        }
        ensure!(o.ret == -1 && o.err == WANT_READ, "outcome", "connection {i}: result {} error {} alert {}", o.ret, o.err, o.alert);
        ensure!(o.proto.0 == want, "protocol", "connection {i} reported {:?}, selected {:?}", String::from_utf8_lossy(&o.proto), String::from_utf8_lossy(&want));
        seen.insert(want);
    }
    obs.label(format!("{} different protocols", seen.len()));
    if seen.len() < 2 {
        obs.trivial();
    }
    Ok(())
}

fn any_select() -> impl Strategy<Value = Select> + Clone {
    let name = prop_oneof![3 => vec(any::<u8>(), 0..12).prop_map(Hx), 1 => (0..=255usize, any::<u64>()).prop_map(|(n, s)| Hx(fill(n, s)))];
    prop_oneof![
        2 => Just(Select::Nothing),
        6 => any::<u8>().prop_map(Select::Offered),
        3 => prop_oneof![2 => name.clone(), 1 => proto()].prop_map(Select::Name),
        2 => vec(proto(), 0..4).prop_map(Select::Several),
        1 => Just(Select::Empty),
        4 => (any::<u8>(), edits()).prop_map(|(i, e)| Select::Edited(i, e)),
        1 => vec(any::<u8>(), 0..12).prop_map(|b| Select::Raw(Hx(b))),
    ]
}
pub(super) fn nego() -> impl Strategy<Value = Nego> + Clone {
    (plan(), any_select(), any::<bool>()).prop_map(|(plan, select, extra)| Nego { plan, select, extra })
}

fn t10(run: &mut Run) {
    run.gen("selections", 30_000, 3_000_000, (pooled(), any_select(), any::<bool>()).prop_map(|(plan, select, extra)| Nego { plan, select, extra }), check10);
    run.gen("configurations", 2_000, 200_000, nego(), check10);
    // names of every length in every position, and their prefixes and neighbours
    let mut items = vec![];
    for n in 1..=255usize {
        let of = |k: usize, s: u64| Hx(fill(k, s).into_iter().map(|b| b.max(1)).collect::<Vec<_>>());
        for (at, protos) in [(0u8, vec![of(n, 1), of(256 - n, 2)]), (1, vec![of(256 - n, 2), of(n, 1)])] {
            let mut plan = Plan::default();
            plan.seed = n as u64;
            plan.cfg.protos = Some(protos);
            items.push(Nego { plan, select: Select::Offered(at), extra: false });
        }
    }
    run.all("lengths", items, check10);
    let cfg = (1..=3u8, vec(proto(), 1..5)).prop_map(|(suites, protos)| Cfg { protos: Some(protos), suites, ..Cfg::default() });
    run.gen("connections", 250, 20_000, (cfg, any::<u64>(), vec(prop::option::weighted(0.8, any::<u8>()), 2..6)).prop_map(|(cfg, seed, picks)| Chain { cfg, seed: seed >> 8, picks }), chain);
    let _ = (CertSpec::default(), cert);
}
