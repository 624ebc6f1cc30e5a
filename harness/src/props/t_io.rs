//! T04, T05: framing, delivery and interruptions do not matter.
use crate::fw::{fail, Fail, Obs, Prop, Res, Run};
use crate::gens::*;
use crate::tls::der::CertSpec;
use crate::tls::plan::*;
use crate::tls::server::*;
use crate::tls::sess::*;
use crate::{ensure, ensure_eq};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const T04: Prop = Prop {
    id: "T04",
    rule: "a case is non-trivial if the bytes of the server are cut into other records, or moved in other pieces, than in the run it is compared with",
    assumptions: &["handshake messages up to 128 KiB, header included"],
    run: t04,
};
pub const T05: Prop = Prop {
    id: "T05",
    rule: "a case is non-trivial if at least one scripted transport failure really happened",
    assumptions: &["failures while the final alert is written are not resumable and not generated", "a transport error return moves no bytes"],
    run: t05,
};

/// What the server's messages are like; always the same messages for the same plan.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Story {
    Valid,
    BadShare,
    BadEe,
    BadCert,
    WrongEeType,
    /// A peer alert after so many handshake messages.
    Alert(u8, u8),
    /// The last message lacks bytes.
    Short(u16),
    /// Data that is not authentic after so many protected records' worth of messages.
    Tampered,
    /// Only so many of the messages.
    Only(u8),
}

pub fn tell(p: &Plan, story: &Story, o: &[u8], a: &mut Att) -> Vec<u8> {
    let f = match p.srv.flight(o) {
        Ok(f) => f,
        Err(e) => {
            a.hello_err = Some(e);
            return vec![];
        }
    };
    let mut h = f.sh.clone();
    if *story == Story::BadShare {
        for e in &mut h.exts {
            if e.0 == 51 {
                let n = e.1.len();
                e.1[n - 1] ^= 1;
            }
        }
    }
    let sh = h.encode().b;
    let k = f.keys(&sh);
    let mut msgs = f.msgs();
    match story {
        Story::BadEe => {
            let mut l = f.ee.clone();
            l.push((0x1234, vec![1, 2, 3]));
            msgs[0] = encrypted_extensions(&l).b;
        }
        Story::BadCert => {
            let mut l = f.certs.clone();
            l.push(vec![0x30, 3, 2, 1, 1]);
            msgs[1] = certificate(&l).b;
        }
        Story::WrongEeType => msgs[0][0] = 13,
        Story::Short(n) => {
            let l = msgs[1].len();
            msgs[1].truncate(l - 1 - *n as usize % (l - 1));
        }
        Story::Only(n) => msgs.truncate(*n as usize % 3),
        _ => {}
    }
    let mut units = p.frame.hello_units(&sh);
    a.note.push(stream(&seal(&units, &k.server)).len().to_string());
    let alert = |c: u8, prot: bool| if prot { Unit::Prot { typ: 21, content: vec![2, c], pad: 0 } } else { plain(21, &[2, c]) };
    match story {
        Story::Alert(n, c) if n % 4 == 0 => {
            units = vec![alert(*c, false)];
            a.note.clear();
        }
        Story::Alert(n, c) => {
            msgs.truncate(*n as usize % 4 - 1);
            units.extend(p.frame.prot_units(&msgs));
            units.push(alert(*c, true));
        }
        Story::Tampered => {
            units.extend(p.frame.prot_units(&msgs[..1]));
            let mut recs = seal(&units, &k.server);
            recs.push(k.client.seal(0, 22, &msgs[1][..20], 0));
            a.keys = Some(k);
            return stream(&recs);
        }
        _ => units.extend(p.frame.prot_units(&msgs)),
    }
    let v = stream(&seal(&units, &k.server));
    a.keys = Some(k);
    v
}

fn told(p: &Plan, story: &Story, io: &Io) -> Result<Trace, Fail> {
    let (q, s, io) = (p.clone(), story.clone(), io.clone());
    run(move |x| {
        x.configure(&p.cfg);
        x.attempt(&io, p.seed, vec![], move |o, a| tell(&q, &s, o, a));
        let changed = std::cell::Cell::new(false);
        x.connect_through_with(|x| match &p.between {
            Some(c) if !changed.replace(true) => x.configure(c),
            _ => {}
        });
    })
}

/// Everything about an attempt that must not depend on framing and delivery.
fn compare(a: &Trace, b: &Trace) -> Res {
    hello_ok(a.att())?;
    hello_ok(b.att())?;
    let last = |t: &Trace| t.ops.last().map(|o| (o.ret, o.err, o.alert, o.proto.clone()));
    ensure!(a.end() == b.end(), "outcome", "outcome {:?}, but {:?} in the plain run", b.end(), a.end());
    ensure!(!matches!(a.end(), End::Panic(_)), "panic", "{:?}", a.end());
    if a.panic.is_none() {
        ensure!(last(a) == last(b), "outcome", "result, error, alert, protocol {:?}, but {:?} in the plain run", last(b), last(a));
    }
    ensure!(a.att().out == b.att().out, "bytes-written", "wrote {} bytes, {} in the plain run; first difference at {:?}", b.att().out.len(), a.att().out.len(), a.att().out.iter().zip(b.att().out.iter()).position(|(x, y)| x != y));
    ensure_eq!(b.att().closes, a.att().closes, "closes");
    ensure!(!b.att().write_after_close, "write-after-close", "bytes were written after the transport was closed");
    out(b.att())?;
    Ok(())
}

fn outcome(t: &Trace, obs: &mut Obs) {
    obs.label(match t.end() {
        End::Passed | End::Connected => "passed".to_string(),
        End::Failed { err, alert } => format!("error {err} alert {alert}"),
        End::Panic(_) => "panic".into(),
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Framed {
    plan: Plan,
    story: Story,
}

fn check04(c: &Framed, obs: &mut Obs) -> Res {
    let mut base = c.plan.clone();
    base.frame = Frame::default();
    let a = told(&base, &c.story, &Io::default())?;
    let b = told(&c.plan, &c.story, &c.plan.io)?;
    if a.att().input == b.att().input && c.plan.io == Io::default() {
        obs.trivial();
    }
    outcome(&a, obs);
    if c.story == Story::Valid {
        expect_passed(&a)?;
    }
    compare(&a, &b)
}

pub fn story() -> impl Strategy<Value = Story> + Clone {
    prop_oneof![
        5 => Just(Story::Valid),
        1 => Just(Story::BadShare),
        2 => Just(Story::BadEe),
        1 => Just(Story::BadCert),
        1 => Just(Story::WrongEeType),
        2 => (any::<u8>(), prop::sample::select(crate::tls::model::CODES.to_vec())).prop_map(|(n, c)| Story::Alert(n, c)),
        1 => any::<u16>().prop_map(Story::Short),
        1 => Just(Story::Tampered),
        2 => any::<u8>().prop_map(Story::Only),
    ]
}

/// Message sizes around the limits of records and buffers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sized_ {
    /// Length of the Certificate message with header.
    len: usize,
    sizes: Vec<usize>,
    pads: Vec<usize>,
    pack: bool,
}
fn sized(c: &Sized_, obs: &mut Obs) -> Res {
    let mut p = Plan::default();
    let base = certificate(&[crate::tls::der::cert(&CertSpec::default()).encode()]).b.len();
    // length fields of the certificate grow with it: search
    let len_of = |ballast: usize| {
        let mut s = CertSpec::default();
        s.sizes[2] += ballast;
        certificate(&[crate::tls::der::cert(&s).encode()]).b.len()
    };
    let mut b = c.len.saturating_sub(base);
    for _ in 0..40 {
        let l = len_of(b);
        if l <= c.len || b == 0 {
            break;
        }
        b -= (l - c.len).min(b);
    }
    obs.label(format!("message of about {} KiB", len_of(b).div_ceil(1024)));
    p.srv.ballast = b;
    p.frame = Frame { sizes: c.sizes.clone(), pads: c.pads.clone(), pack: c.pack, ..Frame::default() };
    expect_passed(&once_plan(&p)?)
}

fn t04(run: &mut Run) {
    run.gen("framing", 3000, 120_000, (plan(), story()).prop_map(|(plan, story)| Framed { plan, story }), check04);
    // all two-way and all equal splits of a small flight
    let mut items = vec![];
    for (pack, story) in [(false, Story::Valid), (true, Story::Valid), (true, Story::BadCert)] {
        for n in 1..200usize {
            let mut plan = Plan::default();
            plan.srv.certs[0].sizes = [2, 2, 2, 2];
            plan.frame = Frame { hello: vec![n], sizes: vec![n], pack, ..Frame::default() };
            plan.io.reads = vec![1 + n % 7];
            items.push(Framed { plan: plan.clone(), story: story.clone() });
            plan.frame = Frame { hello: vec![n, 0x4000], sizes: vec![n, 0x4000], pack, pads: vec![n % 3], ccs: [(n % 3) as u8, (n % 2) as u8, (n % 4 / 3) as u8] };
            plan.io.reads = vec![n];
            plan.io.writes = vec![n];
            items.push(Framed { plan, story: story.clone() });
        }
    }
    run.all("splits", items, check04);
    let mut items = vec![];
    for around in [0x3f00usize, 0x4000, 0x8000, 0xc000, 0x10000, 0x18000] {
        for d in -8..=8i64 {
            for (sizes, pads) in [(vec![], vec![]), (vec![0x4000], vec![0]), (vec![0x2000], vec![0x2000]), (vec![1000, 0x3fff], vec![1])] {
                items.push(Sized_ { len: (around as i64 + d) as usize, sizes, pads, pack: d % 2 == 0 });
            }
        }
    }
    for len in [0x1ffe0usize, 0x1fffa, 0x1fffb, 0x1fffc, 0x1fffd, 0x1fffe, 0x1ffff, 0x20000] {
        items.push(Sized_ { len, sizes: vec![], pads: vec![], pack: true });
    }
    for pad in [1usize, 255, 256, 0x3f00, 0x3fff, 0x4000] {
        for size in [1usize, 2, 100, 0x3fff, 0x4000] {
            items.push(Sized_ { len: 500, sizes: vec![size], pads: vec![pad], pack: false });
        }
    }
    run.all("sizes", items, sized);
}

// T05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Interrupted {
    plan: Plan,
    story: Story,
    /// (position as a fraction of the calls, or as an index; how often; value)
    faults: Vec<(u32, u32, i8)>,
    exact: bool,
}

fn check05(c: &Interrupted, obs: &mut Obs) -> Res {
    let a = told(&c.plan, &c.story, &c.plan.io)?;
    // calls up to the last read; later ones write the final alert
    let span = a.att().last_read + 1;
    let mut io = c.plan.io.clone();
    for (i, n, v) in &c.faults {
        let at = if c.exact { *i as u64 } else { *i as u64 % span };
        if at < span {
            io.faults.push((at, *n, *v));
        }
    }
    let b = told(&c.plan, &c.story, &io)?;
    if b.att().faulted == 0 {
        obs.trivial();
    }
    obs.label(format!("{} interruptions", match b.att().faulted { 0 => "0", 1 => "1", 2..=4 => "2-4", _ => "more" }));
    outcome(&a, obs);
    if b.att().faulted > 0 && c.plan.between.is_some() {
        obs.label("configuration changed meanwhile");
    }
    // every interruption is reported as what it is
    let mut seen = 0;
    for o in b.ops.iter().filter(|o| o.op == "connect") {
        if o.faults == seen {
            continue;
        }
        ensure_eq!(o.faults, seen + 1, "went-on-after-an-interruption");
        let want = if b.att().fault_log.as_bytes()[seen as usize] == b'r' { WANT_READ } else { WANT_WRITE };
        obs.label(if want == WANT_READ { "read interrupted" } else { "write interrupted" });
        ensure!(o.ret == -1 && o.err == want, "interruption", "an interrupted {} gave result {} error {}", if want == WANT_READ { "read" } else { "write" }, o.ret, o.err);
        ensure_eq!(o.closes, 0, "closed-by-interruption");
        seen = o.faults;
    }
    if b.panic.is_none() && seen != b.att().faulted {
        return fail("interruption", format!("{} interruptions, {seen} reported", b.att().faulted));
    }
    compare(&a, &b)
}

fn t05(run: &mut Run) {
    let fault = (any::<u32>(), prop_oneof![4 => Just(1u32), 1 => 2..5u32], prop_oneof![2 => Just(-1i8), 2 => Just(0i8), 1 => i8::MIN..=-1i8]);
    run.gen(
        "interruptions",
        3000,
        120_000,
        (plan(), between(), story(), prop_oneof![3 => vec(fault.clone(), 1..=1), 2 => vec(fault.clone(), 2..6), 1 => vec(fault, 6..40)])
            .prop_map(|(plan, between, story, faults)| Interrupted { plan: Plan { between, ..plan }, story, faults, exact: false }),
        check05,
    );
    let mut items = vec![];
    for (k, (name, reads, writes, story)) in [
        (0usize, vec![], vec![], Story::Valid),
        (0, vec![7], vec![11], Story::Valid),
        (0, vec![3, 50], vec![1], Story::BadEe),
        (0, vec![20], vec![40, 1], Story::Alert(2, 40)),
        (20_000, vec![400], vec![333], Story::Valid),
        (40_000, vec![5000], vec![5000], Story::Only(1)),
    ]
    .into_iter()
    .enumerate()
    {
        let mut plan = Plan::default();
        plan.cfg.suites = 1 + (k % 2) as u8;
        if name > 0 {
            plan.cfg.name = Some(Hx(vec![b'n'; name]));
        }
        plan.srv.certs[0].sizes = [2, 2, 2, 2];
        plan.frame.ccs = [1, 1, 0];
        plan.frame.sizes = vec![30, 100];
        plan.io.reads = reads;
        plan.io.writes = writes;
        for i in 0..260u32 {
            items.push(Interrupted { plan: plan.clone(), story: story.clone(), faults: vec![(i, 1 + i % 2, if i % 3 == 0 { 0 } else { -1 })], exact: true });
        }
        // at every call
        items.push(Interrupted { plan: plan.clone(), story, faults: (0..400).map(|i| (i, 1, -1)).collect(), exact: true });
    }
    run.all("every call", items, check05);
}
