//! T06, T07: what a peer or an attacker may send, against the reference judge.
use crate::ensure;
use crate::fw::{fail, Fail, Obs, Prop, Res, Run};
use crate::gens::*;
use crate::tls::der::CertSpec;
use crate::tls::model::*;
use crate::tls::muta::*;
use crate::tls::plan::*;
use crate::tls::server::*;
use crate::tls::sess::*;
use crate::tls::wire::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const T06: Prop = Prop {
    id: "T06",
    rule: "a case is non-trivial if the bytes given to the client differ from what a valid server would have sent",
    assumptions: &["the judge in tls/model.rs reads RFC 8446 and X.509 correctly", "sessions run in a process of their own with a CPU limit of 30 s and a limit on transport calls, which stand for endless looping"],
    run: t06,
};
pub const T07: Prop = Prop {
    id: "T07",
    rule: "a case is non-trivial if the sequence of records after the ServerHello differs from what the server sent",
    assumptions: &["the judge in tls/model.rs reads RFC 8446 correctly"],
    run: t07,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// The valid messages, as in the plan's framing.
    Hello,
    Rest,
    Plain { typ: u8, ver: u16, body: Hx, claim: Option<u16> },
    Prot { typ: u8, body: Hx, pad: u16 },
    /// A handshake message of some type, cut short if `keep` is smaller.
    Msg { prot: bool, typ: u8, body: Hx, claim: Option<u32>, keep: Option<u16> },
    Raw(Hx),
    Zeros { prot: bool, len: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Layer {
    Hello,
    Ee,
    Cert,
    /// A record in plaintext form (content, type, padding) before protection.
    Inner(u8),
    /// A record as sent, with its header.
    Record(u8),
    Stream,
    Script(Vec<Step>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    plan: Plan,
    layer: Layer,
    edits: Vec<Edit>,
    /// Cut the stream here.
    cut: Option<u32>,
}

fn rec_enc(r: &Rec) -> Enc {
    Enc { b: r.bytes(), lens: vec![(3, 2)] }
}

fn build(c: &Case, f: &Flight, ctx: &Ctx) -> (Vec<u8>, Vec<u8>, Keys) {
    let p = &c.plan;
    let all = |e: &mut Enc| c.edits.iter().for_each(|x| apply(e, x));
    let sh0 = f.sh.encode();
    let msgs0 = f.msgs();
    let assemble = |sh: &[u8], k: &Keys, msgs: &[Vec<u8>]| {
        let mut u = p.frame.hello_units(sh);
        u.extend(p.frame.prot_units(msgs));
        seal(&u, &k.server)
    };
    let k0 = ctx.keys(&sh0.b, f.sh.suite);
    let valid = stream(&assemble(&sh0.b, &k0, &msgs0));
    let mut keys_ = k0.clone();
    let mut v = match &c.layer {
        Layer::Hello => {
            let mut e = sh0.clone();
            all(&mut e);
            keys_ = ctx.keys(&e.b, f.sh.suite);
            stream(&assemble(&e.b, &keys_, &msgs0))
        }
        Layer::Ee => {
            let mut e = encrypted_extensions(&f.ee);
            // the length fields inside the extensions
            let mut p = 6;
            for (t, d) in &f.ee {
                p += 4;
                if *t == 10 || *t == 16 {
                    e.lens.push((p, 2));
                }
                if *t == 16 {
                    e.lens.push((p + 2, 1));
                }
                p += d.len();
            }
            all(&mut e);
            stream(&assemble(&sh0.b, &k0, &[e.b, msgs0[1].clone()]))
        }
        Layer::Cert => {
            let mut e = cert_lens(certificate(&f.certs));
            all(&mut e);
            stream(&assemble(&sh0.b, &k0, &[msgs0[0].clone(), e.b]))
        }
        Layer::Inner(i) => {
            let units = p.frame.prot_units(&msgs0);
            let n = units.iter().filter(|u| matches!(u, Unit::Prot { .. })).count().max(1);
            let mut out = vec![];
            for u in p.frame.hello_units(&sh0.b) {
                if let Unit::Plain(r) = u {
                    out.extend(r.bytes());
                }
            }
            let mut j = 0;
            for u in units {
                match u {
                    Unit::Plain(r) => out.extend(r.bytes()),
                    Unit::Prot { typ, content, pad } => {
                        let mut e = Enc { b: content, lens: vec![] };
                        e.b.push(typ);
                        e.b.extend(std::iter::repeat_n(0, pad));
                        if j == *i as usize % n {
                            all(&mut e);
                        }
                        e.b.truncate(0xffff - 16);
                        out.extend(k0.server.seal_inner(j as u64, &e.b).bytes());
                        j += 1;
                    }
                }
            }
            out
        }
        Layer::Record(i) => {
            let recs = assemble(&sh0.b, &k0, &msgs0);
            let i = *i as usize % recs.len();
            let mut out = vec![];
            for (j, r) in recs.iter().enumerate() {
                let mut e = rec_enc(r);
                if i == j {
                    all(&mut e);
                }
                out.extend(e.b);
            }
            out
        }
        Layer::Stream => {
            let mut e = Enc { b: valid.clone(), lens: vec![] };
            let mut p = 0;
            let (recs, _) = records(&valid);
            for r in recs {
                e.lens.push((p + 3, 2));
                p += 5 + r.body.len();
            }
            all(&mut e);
            e.b
        }
        Layer::Script(steps) => {
            let mut out = vec![];
            let mut seq = 0u64;
            let mut put = |out: &mut Vec<u8>, prot: bool, typ: u8, b: &[u8], pad: usize| {
                if prot {
                    let mut b = b.to_vec();
                    b.truncate(0xf000);
                    let pad = pad.min(0xffff - 17 - b.len());
                    out.extend(k0.server.seal(seq, typ, &b, pad).bytes());
                    seq += 1;
                } else {
                    out.extend(Rec { typ, ver: 0x0303, body: b[..b.len().min(0xffff)].to_vec() }.bytes());
                }
            };
            for s in steps {
                match s {
                    Step::Hello => p.frame.hello_units(&sh0.b).into_iter().for_each(|u| {
                        if let Unit::Plain(r) = u {
                            out.extend(r.bytes());
                        }
                    }),
                    Step::Rest => p.frame.prot_units(&msgs0).into_iter().for_each(|u| match u {
                        Unit::Plain(r) => out.extend(r.bytes()),
                        Unit::Prot { typ, content, pad } => put(&mut out, true, typ, &content, pad),
                    }),
                    Step::Plain { typ, ver, body, claim } => {
                        let r = Rec { typ: *typ, ver: *ver, body: body.0.clone() };
                        let mut b = r.bytes();
                        if let Some(n) = claim {
                            b[3..5].copy_from_slice(&n.to_be_bytes());
                        }
                        out.extend(b);
                    }
                    Step::Prot { typ, body, pad } => put(&mut out, true, *typ, body, *pad as usize),
                    Step::Msg { prot, typ, body, claim, keep } => {
                        let mut m = Enc::message(*typ, |e| e.bytes(body)).b;
                        if let Some(n) = claim {
                            m[1..4].copy_from_slice(&n.to_be_bytes()[1..]);
                        }
                        if let Some(k) = keep {
                            m.truncate(*k as usize);
                        }
                        put(&mut out, *prot, 22, &m, 0);
                    }
                    Step::Raw(b) => out.extend_from_slice(b),
                    Step::Zeros { prot, len } => {
                        if *prot {
                            put(&mut out, true, 0, &vec![0; *len as usize], 0);
                        } else {
                            out.extend(vec![0u8; *len as usize]);
                        }
                    }
                }
            }
            out
        }
    };
    if let Some(n) = c.cut {
        if c.plan.pool.is_some() && n >> 31 == 1 {
            // only what follows the ServerHello
            let h = p.frame.hello_units(&sh0.b).iter().map(|u| if let Unit::Plain(r) = u { 5 + r.body.len() } else { 0 }).sum::<usize>().min(v.len());
            v.truncate(h + n as usize % (v.len() - h + 1));
        } else {
            v.truncate(n as usize % (v.len() + 1));
        }
    }
    (v, valid, keys_)
}

/// Runs a session against what `input` makes of the valid exchange, judges it,
/// and uses the object afterwards.
pub fn judged(plan: &Plan, input: impl FnOnce(&Flight, &Ctx) -> (Vec<u8>, Vec<u8>, Keys) + 'static) -> Result<(Trace, Verdict, bool), Fail> {
    type N = (Verdict, bool);
    let t = against(
        plan,
        move |f| {
            let ctx = Ctx::of(f);
            let (bytes, valid, mut k) = input(f, &ctx);
            let (verdict, _) = judge(&ctx, &bytes);
            // the keys the client really has, if the judge knows them
            if let Some(real) = client_keys(&ctx, &records(&bytes).0) {
                k = real;
            }
            let n: N = (verdict, bytes != valid);
            Sent { bytes, keys: Some(k), note: serde_json::to_string(&n).unwrap() }
        },
        |s| {
            s.connect_through();
            s.query();
            s.close();
            s.close();
            s.query();
        },
    )?;
    hello_ok(t.att())?;
    let Some(n) = t.att().note.first() else { return fail("no-read", format!("the client did not read the server's answer: {:?}", t.end())) };
    let (v, changed): N = serde_json::from_str(n).unwrap();
    Ok((t, v, changed))
}

/// The keys after the first handshake message of the plaintext records.
fn client_keys(ctx: &Ctx, recs: &[Rec]) -> Option<Keys> {
    let mut b = vec![];
    for r in recs {
        if r.typ == 22 {
            b.extend_from_slice(&r.body);
        }
        if b.len() >= 4 && b.len() >= 4 + get(&b[1..4]) {
            b.truncate(4 + get(&b[1..4]));
            return server_hello(ctx.ch, &b[4..]).ok().map(|s| keys(s.suite, &ctx.ecdh, &[ctx.ch_msg, &b].concat()));
        }
    }
    None
}

/// The outcome with the state before `close` was called.
pub fn before_close(t: &Trace) -> Trace {
    let mut t = t.clone();
    if t.panic.is_some() {
        return t;
    }
    if let Some(o) = t.ops.iter().find(|o| o.op == "query") {
        let (out, closes) = (o.out, o.closes);
        let a = t.atts.last_mut().unwrap();
        a.out.0.truncate(out);
        a.closes = closes;
    }
    t
}

pub fn classify(t: &Trace, v: &Verdict, obs: &mut Obs) {
    obs.label(match t.end() {
        End::Passed | End::Connected => "passed",
        End::Failed { err: WANT_READ, .. } => "waits for more",
        End::Failed { err: TLS_PEER, .. } => "peer alert",
        End::Failed { .. } => "refused",
        End::Panic(_) => "panic",
    });
    if v.keyed {
        obs.label("after the key change");
    }
}

fn check06(c: &Case, obs: &mut Obs) -> Res {
    let d = c.clone();
    let (t, v, changed) = judged(&c.plan, move |f, ctx| build(&d, f, ctx))?;
    if !changed {
        obs.trivial();
    }
    classify(&t, &v, obs);
    obs.label(match &c.layer {
        Layer::Hello => "layer hello",
        Layer::Ee => "layer encrypted extensions",
        Layer::Cert => "layer certificate",
        Layer::Inner(_) => "layer inner plaintext",
        Layer::Record(_) => "layer record",
        Layer::Stream => "layer stream",
        Layer::Script(_) => "layer script",
    });
    agree(&before_close(&t), &v)
}

fn step() -> impl Strategy<Value = Step> + Clone {
    let typ = || prop_oneof![3 => Just(22u8), 2 => Just(20u8), 2 => Just(21u8), 2 => Just(23u8), 1 => any::<u8>()];
    let body = || prop_oneof![
        2 => vec(any::<u8>(), 0..4).prop_map(Hx),
        2 => vec(any::<u8>(), 0..80).prop_map(Hx),
        1 => Just(Hx(vec![1])),
        1 => (1..3u8, any::<u8>()).prop_map(|(a, b)| Hx(vec![a, b])),
        1 => prop_oneof![Just(0x3fff), Just(0x4000), Just(0x4001), Just(0x4100), Just(0x4101), 0..0x4200usize].prop_map(|n| Hx(fill(n, 9))),
    ];
    let mtyp = prop_oneof![2 => Just(2u8), 2 => Just(8u8), 2 => Just(11u8), 1 => Just(13u8), 1 => Just(4u8), 1 => Just(20u8), 1 => any::<u8>()];
    prop_oneof![
        4 => Just(Step::Hello),
        4 => Just(Step::Rest),
        3 => (typ(), prop_oneof![3 => Just(0x0303u16), 1 => any::<u16>()], body(), prop::option::weighted(0.2, any::<u16>())).prop_map(|(typ, ver, body, claim)| Step::Plain { typ, ver, body, claim }),
        3 => (typ(), body(), prop_oneof![3 => Just(0u16), 1 => 0..600u16, 1 => 0x3f00..0x4200u16]).prop_map(|(typ, body, pad)| Step::Prot { typ, body, pad }),
        3 => (any::<bool>(), mtyp, body(), prop::option::weighted(0.3, prop_oneof![any::<u32>(), 0..300u32, 0x1fff0..0x20010u32, 0x3ff0..0x4010u32]), prop::option::weighted(0.2, 0..40u16)).prop_map(|(prot, typ, body, claim, keep)| Step::Msg { prot, typ, body, claim, keep }),
        1 => vec(any::<u8>(), 0..40).prop_map(|b| Step::Raw(Hx(b))),
        1 => (any::<bool>(), prop_oneof![0..40u16, 0x3f00..0x4200u16]).prop_map(|(prot, len)| Step::Zeros { prot, len }),
    ]
}

/// Plans that are mostly small and simple, so that the mutation decides.
fn small_plan() -> impl Strategy<Value = Plan> + Clone {
    prop_oneof![
        3 => (1..=3u8, any::<u64>(), key(), any::<u8>(), any::<bool>(), prop::option::of(any::<u8>())).prop_map(|(suites, seed, key, suite, name, alpn)| {
            let mut p = Plan { seed, ..Plan::default() };
            p.cfg.suites = suites;
            p.srv.key = key;
            p.srv.suite = suite;
            if name {
                p.cfg.name = Some(Hx(b"example.org".to_vec()));
                p.srv.ee_name = true;
                p.srv.ee_groups = Some(suite);
            }
            if alpn.is_some() {
                p.cfg.protos = Some(vec![Hx(b"h2".to_vec()), Hx(b"http/1.1".to_vec())]);
                p.srv.alpn = alpn;
            }
            p
        }),
        2 => plan(),
    ]
}

fn t06(run: &mut Run) {
    let layer = prop_oneof![
        4 => Just(Layer::Hello),
        4 => Just(Layer::Ee),
        5 => Just(Layer::Cert),
        3 => any::<u8>().prop_map(Layer::Inner),
        3 => any::<u8>().prop_map(Layer::Record),
        3 => Just(Layer::Stream),
    ];
    let cut = || prop::option::weighted(0.1, any::<u32>());
    let late = prop_oneof![
        6 => Just(Layer::Ee),
        8 => Just(Layer::Cert),
        3 => any::<u8>().prop_map(Layer::Inner),
        2 => any::<u8>().prop_map(Layer::Record),
    ];
    run.gen("after-hello", 60_000, 6_000_000, (pooled(), late, edits(), cut()).prop_map(|(plan, layer, edits, cut)| Case { plan, layer, edits, cut: cut.map(|c| c | 1 << 31) }), check06);
    run.gen(
        "after-hello-scripts",
        30_000,
        3_000_000,
        (pooled(), vec(step(), 0..7)).prop_map(|(plan, mut steps)| {
            steps.insert(0, Step::Hello);
            Case { plan, layer: Layer::Script(steps), edits: vec![], cut: None }
        }),
        check06,
    );
    run.gen("mutated", 3000, 400_000, (small_plan(), layer, edits(), cut()).prop_map(|(plan, layer, edits, cut)| Case { plan, layer, edits, cut }), check06);
    run.gen(
        "scripts",
        2500,
        250_000,
        (small_plan(), vec(step(), 0..7), any::<bool>(), cut()).prop_map(|(plan, mut steps, start, cut)| {
            if start {
                steps.insert(0, Step::Hello);
            }
            Case { plan, layer: Layer::Script(steps), edits: vec![], cut }
        }),
        check06,
    );
    // every length of a truncated flight, and every value of every length field byte
    let mut items = vec![];
    for cut in 0..900u32 {
        let mut plan = Plan::default();
        plan.cfg.suites = 1 + (cut % 2) as u8;
        items.push(Case { plan, layer: Layer::Stream, edits: vec![], cut: Some(cut) });
    }
    for layer in [Layer::Hello, Layer::Ee, Layer::Cert] {
        for field in 0..24u16 {
            for d in [-2, -1, 1, 2] {
                let mut plan = Plan::default();
                plan.cfg.name = Some(Hx(b"a.example".to_vec()));
                plan.cfg.protos = Some(vec![Hx(b"h2".to_vec())]);
                plan.srv.alpn = Some(0);
                plan.srv.ee_name = true;
                plan.srv.ee_groups = Some(1);
                items.push(Case { plan, layer: layer.clone(), edits: vec![Edit::LenAdd(field, d)], cut: None });
            }
            for e in 0..8u8 {
                items.push(Case { plan: Plan::default(), layer: layer.clone(), edits: vec![Edit::LenEdge(field, e)], cut: None });
            }
        }
    }
    run.all("lengths", items, check06);
}

// T07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
    /// A bit of a protected record, header included.
    Bit(u16, u32),
    Dup(u16, u16),
    Swap(u16, u16),
    Drop(u16),
    Move(u16, u16),
    /// Protected again with another sequence number, the client's keys, other keys.
    Seq(u16, i8),
    ClientKeys(u16),
    OtherKeys(u16, u16),
    /// Sent without protection.
    Bare(u16),
    /// Inner plaintext of zeros only.
    Typeless(u16, u16),
    InnerType(u16, u8),
    Inject { at: u16, typ: u8, ver: u16, body: Hx },
    /// A valid protected record of another type in between.
    Extra { at: u16, typ: u8, body: Hx },
    TagCut(u16, u8),
    Lengthen(u16, Hx),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attack {
    pub plan: Plan,
    pub tampers: Vec<Tamper>,
}

pub fn attack(c: &Attack, f: &Flight, ctx: &Ctx) -> (Vec<u8>, Vec<u8>, Keys, Vec<&'static str>) {
    let sh = f.sh.encode().b;
    let k = ctx.keys(&sh, f.sh.suite);
    let head: Vec<u8> = c.plan.frame.hello_units(&sh).into_iter().map(|u| if let Unit::Plain(r) = u { r.bytes() } else { unreachable!() }).collect::<Vec<_>>().concat();
    let mut units = c.plan.frame.prot_units(&f.msgs());
    let valid = [&head[..], &stream(&seal(&units, &k.server))].concat();
    let mut labels = vec![];
    // Extra records take sequence numbers: before sealing.
    for t in &c.tampers {
        if let Tamper::Extra { at, typ, body } = t {
            let i = *at as usize % (units.len() + 1);
            units.insert(i, Unit::Prot { typ: *typ, content: body.0.clone(), pad: 0 });
            labels.push("extra protected record");
        }
        if let Tamper::InnerType(i, t) = t {
            let i = *i as usize % units.len();
            if let Unit::Prot { typ, .. } = &mut units[i] {
                *typ = *t;
            }
            labels.push("other inner type");
        }
    }
    let n = units.len();
    let mut seqs = vec![];
    let mut s = 0u64;
    for u in &units {
        seqs.push(s);
        if let Unit::Prot { .. } = u {
            s += 1;
        }
    }
    let mut recs = seal(&units, &k.server);
    let again = |i: usize, side: &Side, seq: u64, recs: &mut Vec<Rec>| {
        if let Unit::Prot { typ, content, pad } = &units[i] {
            recs[i] = side.seal(seq, *typ, content, *pad);
        }
    };
    for t in &c.tampers {
        match t {
            Tamper::Seq(i, d) => {
                let i = *i as usize % n;
                again(i, &k.server, seqs[i].wrapping_add(*d as i64 as u64), &mut recs);
                labels.push("other sequence number");
            }
            Tamper::ClientKeys(i) => {
                let i = *i as usize % n;
                again(i, &k.client, seqs[i], &mut recs);
                labels.push("client keys");
            }
            Tamper::OtherKeys(i, b) => {
                let i = *i as usize % n;
                let mut o = k.server.clone();
                let b = *b as usize % (8 * (o.key.len() + 12));
                if b / 8 < o.key.len() {
                    o.key[b / 8] ^= 1 << (b % 8);
                } else {
                    let kl = o.key.len();
                    o.iv[b / 8 - kl] ^= 1 << (b % 8);
                }
                again(i, &o, seqs[i], &mut recs);
                labels.push("other keys");
            }
            Tamper::Bare(i) => {
                let i = *i as usize % n;
                if let Unit::Prot { typ, content, .. } = &units[i] {
                    recs[i] = Rec { typ: *typ, ver: 0x0303, body: content.clone() };
                }
                labels.push("without protection");
            }
            Tamper::Typeless(i, z) => {
                let i = *i as usize % n;
                if let Unit::Prot { .. } = &units[i] {
                    recs[i] = k.server.seal_inner(seqs[i], &vec![0; 1 + *z as usize % 0x4000]);
                }
                labels.push("no content type");
            }
            _ => {}
        }
    }
    for t in &c.tampers {
        if recs.is_empty() {
            break;
        }
        let n = recs.len();
        match t {
            Tamper::Dup(i, j) => {
                let r = recs[*i as usize % n].clone();
                recs.insert(*j as usize % (n + 1), r);
                labels.push("replayed");
            }
            Tamper::Swap(i, j) => {
                recs.swap(*i as usize % n, *j as usize % n);
                labels.push("swapped");
            }
            Tamper::Drop(i) => {
                recs.remove(*i as usize % n);
                labels.push("dropped");
            }
            Tamper::Move(i, j) => {
                let r = recs.remove(*i as usize % n);
                recs.insert(*j as usize % n, r);
                labels.push("moved");
            }
            Tamper::Inject { at, typ, ver, body } => {
                recs.insert(*at as usize % (n + 1), Rec { typ: *typ, ver: *ver, body: body.0.clone() });
                labels.push("plaintext injected");
            }
            Tamper::TagCut(i, k) => {
                let r = &mut recs[*i as usize % n];
                let l = r.body.len().saturating_sub(1 + *k as usize);
                r.body.truncate(l);
                labels.push("shortened");
            }
            Tamper::Lengthen(i, b) => {
                recs[*i as usize % n].body.extend_from_slice(b);
                labels.push("lengthened");
            }
            _ => {}
        }
    }
    let mut out = head;
    let mut bytes: Vec<Vec<u8>> = recs.iter().map(|r| r.bytes()).collect();
    for t in &c.tampers {
        if let Tamper::Bit(i, b) = t {
            if !bytes.is_empty() {
                let n = bytes.len();
                let r = &mut bytes[*i as usize % n];
                let b = *b as usize % (8 * r.len());
                r[b / 8] ^= 1 << (b % 8);
                labels.push("bit");
            }
        }
    }
    out.extend(bytes.concat());
    (out, valid, k, labels)
}

fn check07(c: &Attack, obs: &mut Obs) -> Res {
    let d = c.clone();
    let (t, v, changed) = judged(&c.plan, move |f, ctx| {
        let (a, b, k, _) = attack(&d, f, ctx);
        (a, b, k)
    })?;
    if !changed {
        obs.trivial();
    }
    for t in &c.tampers {
        let s = format!("{t:?}");
        obs.label(s.split(['(', ' ']).next().unwrap().to_lowercase());
    }
    classify(&t, &v, obs);
    let t = before_close(&t);
    agree(&t, &v)?;
    // A damaged body (not header) is always reported as such.
    if let [Tamper::Bit(_, b)] = c.tampers[..] {
        if c.plan.frame.sizes.is_empty() && c.plan.frame.ccs == [0, 0, 0] && v.why == "not authentic" {
            obs.label(if b < 40 { "header bit" } else { "body bit" });
        }
    }
    if v.why == "not authentic" {
        ensure!(matches!(t.end(), End::Failed { err: TLS, alert: 20 }), "bad-record-mac", "an altered record is reported as {:?}", t.end());
    }
    Ok(())
}

pub fn tamper() -> impl Strategy<Value = Tamper> + Clone {
    let i = || prop_oneof![0..4u16, any::<u16>()];
    let typ = || prop_oneof![4 => Just(22u8), 1 => Just(20u8), 1 => Just(21u8), 1 => Just(23u8), 1 => any::<u8>()];
    let body = || prop_oneof![
        1 => vec(any::<u8>(), 0..40).prop_map(Hx),
        1 => Just(Hx(encrypted_extensions(&[]).b)),
        1 => Just(Hx(certificate(&[crate::tls::der::cert(&CertSpec::default()).encode()]).b)),
        1 => Just(Hx(vec![1])),
        1 => any::<u8>().prop_map(|x| Hx(vec![2, x])),
    ];
    prop_oneof![
        5 => (i(), any::<u32>()).prop_map(|(a, b)| Tamper::Bit(a, b)),
        2 => (i(), i()).prop_map(|(a, b)| Tamper::Dup(a, b)),
        2 => (i(), i()).prop_map(|(a, b)| Tamper::Swap(a, b)),
        2 => i().prop_map(Tamper::Drop),
        1 => (i(), i()).prop_map(|(a, b)| Tamper::Move(a, b)),
        1 => (i(), prop_oneof![-3..=3i8, any::<i8>()]).prop_map(|(a, b)| Tamper::Seq(a, b)),
        1 => i().prop_map(Tamper::ClientKeys),
        1 => (i(), any::<u16>()).prop_map(|(a, b)| Tamper::OtherKeys(a, b)),
        3 => i().prop_map(Tamper::Bare),
        2 => (i(), prop_oneof![0..20u16, any::<u16>()]).prop_map(|(a, b)| Tamper::Typeless(a, b)),
        2 => (i(), typ()).prop_map(|(a, b)| Tamper::InnerType(a, b)),
        3 => (i(), typ(), prop_oneof![3 => Just(0x0303u16), 1 => any::<u16>()], body()).prop_map(|(at, typ, ver, body)| Tamper::Inject { at, typ, ver, body }),
        2 => (i(), typ(), body()).prop_map(|(at, typ, body)| Tamper::Extra { at, typ, body }),
        1 => (i(), prop_oneof![0..24u8, any::<u8>()]).prop_map(|(a, b)| Tamper::TagCut(a, b)),
        1 => (i(), vec(any::<u8>(), 1..20).prop_map(Hx)).prop_map(|(a, b)| Tamper::Lengthen(a, b)),
    ]
}

fn t07(run: &mut Run) {
    let t = tamper();
    run.gen(
        "attacks-after-hello",
        50_000,
        5_000_000,
        (pooled(), prop_oneof![4 => vec(t.clone(), 1..=1), 1 => vec(t.clone(), 2..4)]).prop_map(|(plan, tampers)| Attack { plan, tampers }),
        check07,
    );
    run.gen(
        "attacks",
        3000,
        400_000,
        (small_plan(), frame(), any::<bool>(), prop_oneof![4 => vec(t.clone(), 1..=1), 1 => vec(t, 2..4)]).prop_map(|(mut plan, frame, framed, tampers)| {
            if framed {
                plan.frame = frame;
            }
            Attack { plan, tampers }
        }),
        check07,
    );
    let mut items = vec![];
    for suites in [1u8, 2] {
        for (rec, len) in [(0u16, 28usize), (1, 430)] {
            for b in 0..8 * len as u32 {
                // the pool's configuration number suites - 1 offers just this suite
                let mut plan = Plan { pool: Some(suites - 1), ..Plan::default() };
                plan.srv.certs[0].sizes = [3, 3, 3, 3];
                items.push(Attack { plan, tampers: vec![Tamper::Bit(rec, b)] });
            }
        }
    }
    run.all("bits", items, check07);
}
