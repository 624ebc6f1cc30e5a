//! T09, T11, T12: errors, reuse of an object, closing.
use super::t_hello::Src;
use super::t_io::{story, tell, Story};
use super::t_peer::{attack, before_close, classify, judged, tamper, Attack};
use super::t_policy;
use crate::fw::{fail, Obs, Prop, Res, Run};
use crate::gens::*;
use crate::tls::model::*;
use crate::tls::plan::*;
use crate::tls::sess::*;
use crate::tls::wire::*;
use crate::{ensure, ensure_eq};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const T09: Prop = Prop {
    id: "T09",
    rule: "a case is non-trivial if the exchange ended with a TLS error, of either side",
    assumptions: &["the judge in tls/model.rs reads RFC 8446 correctly", "alert codes the client does not know are reported as an internal error"],
    run: t09,
};
pub const T11: Prop = Prop {
    id: "T11",
    rule: "a case is non-trivial if at least one attempt preceded the compared one on the same object and moved bytes",
    assumptions: &["attempts that reach the end of the implemented handshake end the session, so they are only compared as the last of a history"],
    run: t11,
};
pub const T12: Prop = Prop {
    id: "T12",
    rule: "a case is non-trivial if an attempt was open when it was closed, or close was called at least twice",
    assumptions: &["what is closed is a handshake in progress; established connections are not implemented by the client"],
    run: t12,
};

// T09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) enum Cause {
    /// After so many handshake messages; in the last place without protection although keys exist.
    Alert { stage: u8, level: u8, code: u8, pad: u16, ccs: bool },
    Devs(Vec<t_policy::Dev>),
    Tampers(Vec<super::t_peer::Tamper>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Err9 {
    plan: Plan,
    cause: Cause,
}

pub(super) fn check09(c: &Err9, obs: &mut Obs) -> Res {
    let d = c.clone();
    let (t, v, _) = judged(&c.plan, move |f, ctx| match &d.cause {
        Cause::Devs(l) => t_policy::build(&t_policy::Case { plan: d.plan.clone(), devs: l.clone() }, f, ctx),
        Cause::Tampers(l) => {
            let (a, b, k, _) = attack(&Attack { plan: d.plan.clone(), tampers: l.clone() }, f, ctx);
            (a, b, k)
        }
        Cause::Alert { stage, level, code, pad, ccs } => {
            let sh = f.sh.encode().b;
            let k = f.keys(&sh);
            let mut u = vec![];
            if stage % 4 > 0 {
                u.extend(d.plan.frame.hello_units(&sh));
            }
            if stage % 4 == 2 {
                u.extend(d.plan.frame.prot_units(&f.msgs()[..1]));
            }
            if *ccs {
                u.push(plain(20, &[1]));
            }
            u.push(match stage % 4 {
                0 | 3 => plain(21, &[*level, *code]),
                _ => Unit::Prot { typ: 21, content: vec![*level, *code], pad: *pad as usize % (MAX - 1) },
            });
            let v = stream(&seal(&u, &k.server));
            (v, vec![], k)
        }
    })?;
    classify(&t, &v, obs);
    match &c.cause {
        Cause::Alert { stage, .. } => obs.label(["plaintext alert", "protected alert", "protected alert after extensions", "plaintext alert after the hello"][*stage as usize % 4]),
        Cause::Devs(_) => obs.label("deviation"),
        Cause::Tampers(_) => obs.label("attack"),
    }
    if !matches!(t.end(), End::Failed { err: TLS | TLS_PEER, .. }) {
        obs.trivial();
    }
    agree(&before_close(&t), &v)?;
    if let Cause::Alert { stage, code, .. } = &c.cause {
        // without protection after the hello it may be refused instead
        if stage % 4 != 3 {
            expect_peer(&before_close(&t), reported(*code) as u8)?;
        }
    }
    if let End::Failed { err: TLS | TLS_PEER, .. } = t.end() {
        // what was reported stays, and closing again does nothing
        let first = t.ops.iter().rev().find(|o| o.op == "connect").unwrap();
        for o in t.ops.iter().skip_while(|o| o.op == "connect") {
            ensure!((o.err, o.alert) == (first.err, first.alert), "error-changed", "error {} alert {} became {} and {} after {}", first.err, first.alert, o.err, o.alert, o.op);
            ensure!(o.out == first.out && o.closes == 1, "closed-again", "after the failure, {} made it {} closes and {} bytes more", o.op, o.closes, o.out - first.out);
        }
    }
    ensure!(!t.att().write_after_close, "write-after-close", "bytes were written after the transport was closed");
    Ok(())
}

/// A local error whose alert can not be written.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dead {
    plan: Plan,
    devs: Vec<t_policy::Dev>,
    /// How many calls after the last read still work.
    more: u8,
}
fn dead(c: &Dead, obs: &mut Obs) -> Res {
    let go = |plan: &Plan| {
        let d = c.clone();
        judged(plan, move |f, ctx| t_policy::build(&t_policy::Case { plan: d.plan.clone(), devs: d.devs.clone() }, f, ctx))
    };
    let (a, _, _) = go(&c.plan)?;
    let mut plan = c.plan.clone();
    plan.io.dead_writes_from = Some(a.att().last_read + 1 + c.more as u64 % 4);
    let (b, _, _) = go(&plan)?;
    let (a, b) = (before_close(&a), before_close(&b));
    ensure!(a.end() == b.end(), "outcome", "{:?} if the alert cannot be written, {:?} if it can", b.end(), a.end());
    if !matches!(a.end(), End::Failed { err: TLS, .. }) {
        obs.trivial();
        return Ok(());
    }
    if a.att().out.len() == b.att().out.len() {
        obs.label("written all the same");
    } else {
        obs.label("not written");
    }
    ensure_eq!(b.att().closes, 1, "closes");
    ensure!(a.att().out.starts_with(&b.att().out), "bytes-written", "something else was written when the alert could not be");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text(u8);
fn text(c: &Text, _: &mut Obs) -> Res {
    let of = |code: u8| -> Result<Vec<u8>, crate::fw::Fail> {
        // SAFETY: the codes are those of the enumeration.
        let p = turtls::turtls_stringify_alert(unsafe { std::mem::transmute::<i32, turtls::TurtlsAlert>(code as i32) });
        ensure!(!p.is_null(), "null-text", "no text for alert {code}");
        Ok(unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes().to_vec())
    };
    let s = of(c.0)?;
    ensure!(!s.is_empty(), "empty-text", "the text of alert {} is empty", c.0);
    ensure!(s.iter().all(|b| (0x20..0x7f).contains(b)), "text", "the text of alert {} is {:?}", c.0, String::from_utf8_lossy(&s));
    ensure!(of(c.0)? == s, "text-changes", "the text of alert {} changes", c.0);
    for o in CODES {
        ensure!(o == c.0 || of(o)? != s, "same-text", "alerts {} and {o} have the same text {:?}", c.0, String::from_utf8_lossy(&s));
    }
    Ok(())
}

fn cause() -> impl Strategy<Value = Cause> + Clone {
    let code = prop_oneof![1 => any::<u8>(), 2 => proptest::sample::select(CODES.to_vec())];
    let level = prop_oneof![3 => Just(2u8), 3 => Just(1u8), 1 => any::<u8>()];
    let alert = (0..4u8, level, code, prop_oneof![3 => Just(0u16), 1 => any::<u16>()], any::<bool>()).prop_map(|(stage, level, code, pad, ccs)| Cause::Alert { stage, level, code, pad, ccs });
    let devs = prop_oneof![3 => vec(t_policy::dev(), 1..=1), 1 => vec(t_policy::dev(), 2..4)];
    let tampers = prop_oneof![3 => vec(tamper(), 1..=1), 1 => vec(tamper(), 2..4)];
    prop_oneof![2 => alert, 3 => devs.prop_map(Cause::Devs), 2 => tampers.prop_map(Cause::Tampers)]
}
pub(super) fn err9() -> impl Strategy<Value = Err9> + Clone {
    (plan(), cause()).prop_map(|(plan, cause)| Err9 { plan, cause })
}
/// Every alert code at every stage.
pub(super) fn alerts9(levels: &[u8], pool: bool) -> Vec<Err9> {
    let mut items = vec![];
    for code in 0..=255u8 {
        for &level in levels {
            for stage in 0..4u8 {
                let i = code % POOL;
                items.push(Err9 { plan: Plan { pool: pool.then_some(i), ..pool_plan(i) }, cause: Cause::Alert { stage, level, code, pad: code as u16 % 3, ccs: code % 2 == 1 } });
            }
        }
    }
    items
}

fn t09(run: &mut Run) {
    run.all("texts", CODES.map(Text), text);
    let devs = prop_oneof![3 => vec(t_policy::dev(), 1..=1), 1 => vec(t_policy::dev(), 2..4)];
    let cause = cause();
    run.gen("errors", 35_000, 3_000_000, (pooled(), cause.clone()).prop_map(|(plan, cause)| Err9 { plan, cause }), check09);
    run.gen("errors-anew", 1_500, 150_000, err9(), check09);
    let small = (pooled(), prop_oneof![Just(vec![]), Just(vec![1usize]), vec(1..9usize, 1..4)]).prop_map(|(mut p, w)| {
        p.io.writes = w;
        p
    });
    run.gen("dead-transport", 4_000, 400_000, (small, devs, any::<u8>()).prop_map(|(plan, devs, more)| Dead { plan, devs, more }), dead);
    let levels = [1u8, 2, 0, 255];
    run.all("alerts", alerts9(&levels[..if run.thorough { 4 } else { 2 }], true), check09);
}

// T11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) enum Server {
    Story(Story),
    /// Only the first bytes.
    Cut(Story, u32),
    Raw(Hx),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Try {
    /// A new configuration before this attempt.
    pub cfg: Option<Cfg>,
    pub seed: u64,
    pub script: Vec<Src>,
    pub srv: Srv,
    pub frame: Frame,
    pub io: Io,
    pub server: Server,
    /// Calls of connect, at most.
    pub connects: u8,
    /// Close it even if it has ended.
    pub close: bool,
}

pub(super) fn start(s: &mut Sess, t: &Try) {
    let k = t.clone();
    s.attempt(&t.io, t.seed, t.script.iter().map(|x| x.draw()).collect(), move |o, a| {
        let p = Plan { srv: k.srv.clone(), frame: k.frame.clone(), ..Plan::default() };
        let full = |st: &Story, a: &mut Att| tell(&p, st, o, a);
        match &k.server {
            Server::Story(st) => full(st, a),
            Server::Cut(st, n) => {
                let mut v = full(st, a);
                v.truncate(*n as usize % (v.len() + 1));
                v
            }
            Server::Raw(b) => b.0.clone(),
        }
    });
}
pub(super) fn open(s: &Sess) -> bool {
    let o = s.last();
    o.op == "connect" && o.ret == -1 && (o.err == WANT_READ || o.err == WANT_WRITE)
}
pub(super) fn drive(s: &mut Sess, t: &Try) {
    start(s, t);
    for _ in 0..t.connects.max(1) {
        s.connect();
        if !open(s) {
            break;
        }
    }
    if open(s) || t.close {
        s.close();
    }
    s.query();
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct History {
    pub cfg: Cfg,
    pub tries: Vec<Try>,
}

fn check11(c: &History, obs: &mut Obs) -> Res {
    let d = c.clone();
    let t = run(move |s| {
        s.configure(&d.cfg);
        for t in &d.tries {
            if let Some(cfg) = &t.cfg {
                s.configure(cfg);
            }
            drive(s, t);
        }
    })?;
    let mut cfg = c.cfg.clone();
    if c.tries.len() < 2 || t.atts.len() < 2 || t.atts[0].out.is_empty() {
        obs.trivial();
    }
    obs.label(format!("{} attempts", t.atts.len()));
    for (i, a) in t.atts.iter().enumerate() {
        let x = &c.tries[i];
        if let Some(c) = &x.cfg {
            cfg = c.clone();
            if i > 0 {
                obs.label("reconfigured");
            }
        }
        let ops: Vec<OpRec> = t.ops.iter().filter(|o| o.att == i).map(|o| OpRec { att: 0, ..o.clone() }).collect();
        let last = ops.iter().rev().find(|o| o.op == "connect");
        obs.label(match last {
            None => "ends in the unimplemented part".to_string(),
            Some(o) => format!("error {}{}", o.err, if o.err < 2 { "" } else if a.keys.is_some() && a.consumed > 0 { " after bytes" } else { " early" }),
        });
        if i == 0 {
            continue; // a new object anyway
        }
        let (k, y) = (cfg.clone(), x.clone());
        let f = run(move |s| {
            s.configure(&k);
            drive(s, &y);
        })?;
        let what = |s: &str| format!("attempt {i} of {}: {s}", c.tries.len());
        let fresh_panic = f.panic.clone();
        let panic = if i + 1 == t.atts.len() { t.panic.clone() } else { None };
        ensure!(panic == fresh_panic, "outcome", "{}", what(&format!("panic {panic:?}, on a new object {fresh_panic:?}")));
        ensure!(a.out == f.atts[0].out, "bytes-written", "{}", what(&format!("wrote {} bytes, a new object {}, first difference at {:?}", a.out.len(), f.atts[0].out.len(), a.out.iter().zip(f.atts[0].out.iter()).position(|(x, y)| x != y))));
        ensure!(ops == f.ops, "outcome", "{}", what(&format!("{:?}, on a new object {:?}", brief(&ops), brief(&f.ops))));
        ensure!(*a == f.atts[0], "transport-use", "{}", what("the transport was used in another way than by a new object"));
    }
    Ok(())
}
fn brief(o: &[OpRec]) -> Vec<String> {
    o.iter().map(|o| format!("{} {} error {} alert {} proto {:?} {} bytes {} closes", o.op, o.ret, o.err, o.alert, String::from_utf8_lossy(&o.proto), o.out, o.closes)).collect()
}

pub(super) fn any_cfg() -> impl Strategy<Value = Cfg> + Clone {
    prop_oneof![
        8 => cfg(),
        1 => (cfg(), 0..3u8).prop_map(|(mut c, k)| {
            // one that can not connect
            match k {
                0 => c.grp = 0,
                1 => c.sig = 0,
                _ => c.suites = 0,
            }
            c
        }),
        1 => (cfg(), 16_000..40_000usize).prop_map(|(c, n)| Cfg { name: Some(Hx(vec![b'n'; n])), ..c }),
    ]
}
pub(super) fn a_try(last: bool) -> impl Strategy<Value = Try> + Clone {
    // behind a certificate is the part of the handshake that is not written yet
    let end = move |s: Story| match s {
        _ if last => s,
        Story::Valid => Story::Only(1),
        Story::Only(n) if n % 3 == 2 => Story::Only(n - 1),
        Story::Alert(n, c) if n % 4 == 3 => Story::Alert(n - 1, c),
        s => s,
    };
    let server = prop_oneof![
        6 => story().prop_map(move |s| Server::Story(end(s))),
        5 => (story(), any::<u32>()).prop_map(move |(s, n)| Server::Cut(end(s), n)),
        1 => vec(any::<u8>(), 0..40).prop_map(|b| Server::Raw(Hx(b))),
        1 => (20..24u8, vec(any::<u8>(), 0..20)).prop_map(|(t, b)| Server::Raw(Hx([&[t, 3, 3, 0, b.len() as u8][..], &b].concat()))),
    ];
    let script = prop_oneof![8 => Just(vec![]), 1 => Just(vec![Src::Fail]), 1 => Just(vec![Src::Stream, Src::Fail]), 1 => Just(vec![Src::Value([0; 4], false)])];
    let fault = (prop_oneof![3 => 0..12u64, 1 => 0..200u64], 1..4u32, -1..=0i8);
    let io = (io(), prop_oneof![3 => Just(vec![]), 2 => vec(fault, 1..5)], prop::option::weighted(0.15, prop_oneof![0..4u64, 0..30u64])).prop_map(|(io, faults, dead_writes_from)| Io { faults, dead_writes_from, ..io });
    let mut_srv = (key(), any::<u64>(), any::<u8>(), prop::option::of(any::<u8>()), any::<bool>()).prop_map(|(key, random, suite, alpn, swap)| Srv { key, random, suite, alpn, swap, ..Srv::default() });
    (prop::option::weighted(0.4, any_cfg()), prop_oneof![1 => 0..3u64, 3 => any::<u64>()], script, (mut_srv, frame()), io, server, (1..5u8, any::<bool>())).prop_map(|(cfg, seed, script, (srv, mut frame), io, server, (connects, close))| {
        // small records only, without megabytes of padding
        frame.pads.iter_mut().for_each(|p| *p %= 300);
        frame.sizes.iter_mut().for_each(|s| *s = (*s).max(8));
        Try { cfg, seed, script, srv, frame, io, server, connects, close }
    })
}

pub(super) fn simple(server: Server) -> Try {
    Try { cfg: None, seed: 3, script: vec![], srv: Srv { alpn: Some(0), ..Srv::default() }, frame: Frame::default(), io: Io::default(), server, connects: 1, close: false }
}

fn t11(run: &mut Run) {
    run.gen("histories", 1_600, 150_000, (any_cfg(), vec(a_try(false), 1..4), a_try(true)).prop_map(|(cfg, mut tries, last)| {
        tries.push(last);
        History { cfg, tries }
    }), check11);
    // the first attempt ends after every number of bytes; the second is valid, or ends likewise
    let cfg = Cfg { name: Some(Hx(b"a.example".to_vec())), protos: Some(vec![Hx(b"h2".to_vec()), Hx(b"x".to_vec())]), ..Cfg::default() };
    let mut items = vec![];
    let step = if run.thorough { 1 } else { 7 };
    for n in (0..720u32).step_by(step) {
        for second in [Story::Valid, Story::Only(1)] {
            if n % 2 == 0 && second != Story::Valid {
                continue;
            }
            items.push(History { cfg: cfg.clone(), tries: vec![simple(Server::Cut(Story::BadCert, n)), simple(Server::Story(second))] });
        }
    }
    // every pair of endings
    let ends = [
        Server::Raw(Hx(vec![])),
        Server::Raw(Hx(vec![21, 3, 3, 0, 2, 2, 40])),
        Server::Raw(Hx(vec![22, 3, 3, 0, 4, 11, 0, 0, 0])),
        Server::Raw(Hx(vec![23, 3, 3, 0x41, 0x01])),
        Server::Story(Story::BadShare),
        Server::Story(Story::BadEe),
        Server::Story(Story::BadCert),
        Server::Story(Story::Tampered),
        Server::Story(Story::Alert(1, 0)),
        Server::Story(Story::Only(0)),
        Server::Story(Story::Only(1)),
        Server::Story(Story::Short(10)),
    ];
    for a in &ends {
        for b in ends.iter().chain([&Server::Story(Story::Valid)]) {
            items.push(History { cfg: cfg.clone(), tries: vec![simple(a.clone()), simple(b.clone())] });
        }
        // the hello only partly written
        for w in [0u64, 1, 2] {
            let mut t = simple(a.clone());
            t.io = Io { writes: vec![50], dead_writes_from: Some(w), ..Io::default() };
            items.push(History { cfg: cfg.clone(), tries: vec![t, simple(a.clone())] });
        }
    }
    run.all("endings", items, check11);
}

// T12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) enum Op {
    Connect(u8),
    Close,
    CloseNull,
    Query,
    Free,
    Configure(Cfg),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Ops {
    cfg: Cfg,
    tries: Vec<Try>,
    ops: Vec<Op>,
}

pub(super) fn check12(c: &Ops, obs: &mut Obs) -> Res {
    let d = c.clone();
    let t = run(move |s| {
        s.configure(&d.cfg);
        let mut next = 0;
        let mut going = false;
        // close and query before anything
        s.close();
        s.query();
        for o in &d.ops {
            match o {
                Op::Connect(n) => {
                    for _ in 0..(*n).max(1) {
                        if !going {
                            let mut t = d.tries[next % d.tries.len()].clone();
                            t.seed ^= next as u64;
                            start(s, &t);
                            next += 1;
                        }
                        s.connect();
                        going = open(s);
                        if !going {
                            break;
                        }
                    }
                }
                Op::Close => {
                    s.close();
                    going = false;
                }
                Op::CloseNull => s.close_null(),
                Op::Query => s.query(),
                Op::Free => {
                    s.free_new();
                    s.configure(&d.cfg);
                    going = false;
                }
                Op::Configure(cfg) => s.configure(cfg),
            }
        }
    })?;
    if let End::Panic(m) = t.end() {
        if t.panic.is_some() {
            return fail("panic", m);
        }
    }
    let mut going = false;
    let mut prev = (0usize, 0usize, 0u32, 0u32);
    let mut closed_open = 0;
    let mut closes = 0;
    for o in &t.ops {
        if o.att != prev.0 {
            prev = (o.att, 0, 0, 0);
        }
        let (out, closed, faults) = (o.out - prev.1, o.closes - prev.2, o.faults - prev.3);
        prev = (o.att, o.out, o.closes, o.faults);
        ensure!(o.closes <= 1, "closed-twice", "{} closes of one attempt after {}", o.closes, o.op);
        match o.op.as_str() {
            "connect" => {
                going = o.ret == -1 && (o.err == WANT_READ || o.err == WANT_WRITE);
                ensure!(!going || o.closes == 0, "closed-by-interruption", "the transport is closed although connecting can go on");
                if o.err == TLS || o.err == TLS_PEER {
                    ensure!(o.closes == 1 || o.out == 0, "not-closed", "error {} but the transport is not closed", o.err);
                }
            }
            "close" if going => {
                closes += 1;
                closed_open += 1;
                ensure_eq!(closed, 1, "closes");
                let a = &t.atts[o.att];
                let dead = c.tries.iter().any(|t| t.io.dead_writes_from.is_some()) || faults > 0;
                let (recs, partial) = records(&a.out[..o.out]);
                let n = recs.iter().position(|r| r.typ != 22).unwrap_or(recs.len());
                let after = &recs[n..];
                if dead {
                    obs.label("closed with a failing transport");
                    ensure!(after.len() <= 1, "close-notify", "{} records after the hello", after.len());
                } else {
                    ensure!(out > 0, "no-close-notify", "nothing was written when an attempt was closed");
                    ensure!(partial.is_empty(), "partial-record", "{} bytes of an incomplete record were written before the transport was closed", partial.len());
                    ensure!(after.len() == 1, "close-notify", "{} records after the hello when closed", after.len());
                }
                if let Some(r) = after.first() {
                    // the client has its keys as soon as it has read the ServerHello
                    let keyed = a.note.first().is_some_and(|n| a.consumed >= n.parse::<usize>().unwrap());
                    obs.label(if keyed { "protected close_notify" } else { "plaintext close_notify" });
                    let content = if r.typ == 23 && keyed {
                        match a.keys.as_ref().unwrap().client.open(0, r) {
                            Some((21, c)) => c,
                            x => return fail("close-notify", format!("the protected record does not hold an alert: {x:?}")),
                        }
                    } else {
                        ensure!(r.typ == 21 && !keyed, "close-notify", "record of type {} although the keys exist: {keyed}", r.typ);
                        r.body.clone()
                    };
                    ensure!(content.len() == 2 && [1, 2].contains(&content[0]) && content[1] == 0, "close-notify", "alert {} instead of close_notify", hexs(&content));
                }
                going = false;
            }
            "free" => {
                going = false;
                prev = (o.att, o.out, o.closes, o.faults);
            }
            op => {
                closes += (op == "close") as u32;
                ensure!(out == 0 && closed == 0, "not-nothing", "{op} wrote {out} bytes and closed {closed} times although nothing was open");
            }
        }
    }
    for (i, a) in t.atts.iter().enumerate() {
        ensure!(a.closes <= 1, "closed-twice", "attempt {i} was closed {} times", a.closes);
        ensure!(!a.write_after_close, "write-after-close", "attempt {i}: bytes were written after the transport was closed");
    }
    obs.label(format!("{} attempts", t.atts.len()));
    if closed_open == 0 && closes < 2 {
        obs.trivial();
    }
    Ok(())
}

pub(super) fn ops12() -> impl Strategy<Value = Ops> + Clone {
    let op = prop_oneof![
        6 => (1..6u8).prop_map(Op::Connect),
        5 => Just(Op::Close),
        1 => Just(Op::CloseNull),
        1 => Just(Op::Query),
        1 => Just(Op::Free),
        1 => any_cfg().prop_map(Op::Configure),
    ];
    (any_cfg(), vec(a_try(false), 1..4), vec(op, 1..9)).prop_map(|(cfg, tries, ops)| Ops { cfg, tries, ops })
}

fn t12(run: &mut Run) {
    run.gen("operations", 3_000, 250_000, ops12(), check12);
    // closed after every number of bytes written and read
    let cfg = Cfg { name: Some(Hx(b"a.example".to_vec())), ..Cfg::default() };
    let mut items = vec![];
    let seq = |k: u32| match k % 4 {
        0 => vec![Op::Connect(1), Op::Close],
        1 => vec![Op::Connect(1), Op::Close, Op::Close, Op::Connect(1), Op::Close],
        2 => vec![Op::CloseNull, Op::Connect(1), Op::Connect(2), Op::Close, Op::CloseNull, Op::Close],
        _ => vec![Op::Close, Op::Connect(2), Op::Close, Op::Free, Op::Close, Op::Connect(1), Op::Close],
    };
    let step = if run.thorough { 1 } else { 5 };
    for n in (0..700u32).step_by(step) {
        items.push(Ops { cfg: cfg.clone(), tries: vec![simple(Server::Cut(Story::BadCert, n))], ops: seq(n) });
    }
    for n in 0..60u64 {
        // interrupted in the hello
        let mut t = simple(Server::Story(Story::Only(1)));
        t.io = Io { writes: vec![5], faults: vec![(n, 1, -1)], ..Io::default() };
        items.push(Ops { cfg: cfg.clone(), tries: vec![t], ops: seq(n as u32) });
    }
    for n in 0..40u64 {
        let mut t = simple(Server::Story(Story::Only(1)));
        t.io = Io { writes: vec![1000], faults: vec![(n, 1, 0)], ..Io::default() };
        items.push(Ops { cfg: Cfg { name: Some(Hx(vec![b'z'; 36_000])), ..cfg.clone() }, tries: vec![t], ops: seq(n as u32) });
    }
    run.all("every byte", items, check12);
}
