//! T03: keys and record protection against the reference server.
use crate::fw::{Obs, Prop, Res, Run};
use crate::tls::plan::*;
use crate::tls::server::*;
use crate::tls::wire::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const T03: Prop = Prop {
    id: "T03",
    rule: "a case is non-trivial if the client produced a ClientHello and the reference server answered it with records protected under keys the reference derived",
    assumptions: &["the reference key schedule and AEADs are right (checked against published vectors by harness selftest)", "the handshake is implemented by the client only up to the server's certificate"],
    run: t03,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Twist {
    None,
    /// An unknown encrypted extension: the client has to answer with a protected alert.
    BadEe,
    /// As above, after a number of one-byte records.
    BadEeSplit,
    TranscriptCh(u16),
    TranscriptSh(u16),
    Secret(u8),
    OtherSuite,
    SwapSides,
    SeqFrom(u8),
    NoDerived,
    IvBit(u8),
    KeyBit(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    plan: Plan,
    twist: Twist,
}

fn check(c: &Case, obs: &mut Obs) -> Res {
    let k = c.clone();
    let t = once(&c.plan.cfg, c.plan.seed, &c.plan.io, move |o, a| {
        let p = &k.plan;
        let f = match p.srv.flight(o) {
            Ok(f) => f,
            Err(e) => {
                a.hello_err = Some(e);
                return vec![];
            }
        };
        let sh = f.sh.encode().b;
        let right = f.keys(&sh);
        let mut used = right.clone();
        let mut seq0 = 0;
        let mut msgs = f.msgs();
        let mut frame = p.frame.clone();
        match k.twist {
            Twist::None => {}
            Twist::BadEe | Twist::BadEeSplit => {
                let mut l = f.ee.clone();
                l.push((0x1234, vec![1, 2, 3]));
                msgs[0] = encrypted_extensions(&l).b;
                if let Twist::BadEeSplit = k.twist {
                    frame.sizes = vec![1];
                }
            }
            Twist::TranscriptCh(b) => {
                let mut m = f.ch_msg.clone();
                let i = b as usize % (8 * m.len());
                m[i / 8] ^= 1 << (i % 8);
                used = keys(f.sh.suite, &f.ecdh, &[&m[..], &sh].concat());
            }
            Twist::TranscriptSh(b) => {
                let mut m = sh.clone();
                let i = b as usize % (8 * m.len());
                m[i / 8] ^= 1 << (i % 8);
                used = keys(f.sh.suite, &f.ecdh, &[&f.ch_msg[..], &m].concat());
            }
            Twist::Secret(b) => {
                let mut x = f.ecdh;
                x[b as usize / 8] ^= 1 << (b % 8);
                used = keys(f.sh.suite, &x, &[&f.ch_msg[..], &sh].concat());
            }
            Twist::OtherSuite => {
                used = keys(if f.sh.suite == AES { CHACHA } else { AES }, &f.ecdh, &[&f.ch_msg[..], &sh].concat());
            }
            Twist::SwapSides => used.server = right.client.clone(),
            Twist::SeqFrom(n) => seq0 = 1 + n as u64,
            Twist::NoDerived => {
                let hs = crate::refs::hash::hkdf_extract(crate::refs::hash::H::S256, &[0; 32], &f.ecdh);
                let th = crate::refs::hash::sha256(&[&f.ch_msg[..], &sh].concat());
                let s = crate::refs::hash::expand_label(&hs, "s hs traffic", &th, 32);
                let n = used.server.key.len();
                used.server.key = crate::refs::hash::expand_label(&s, "key", b"", n);
                used.server.iv = crate::refs::hash::expand_label(&s, "iv", b"", 12).try_into().unwrap();
            }
            Twist::IvBit(b) => used.server.iv[b as usize % 96 / 8] ^= 1 << (b % 8),
            Twist::KeyBit(b) => {
                let i = b as usize % (8 * used.server.key.len());
                used.server.key[i / 8] ^= 1 << (i % 8);
            }
        }
        let mut v = vec![];
        for u in frame.hello_units(&sh) {
            if let Unit::Plain(r) = u {
                v.extend(r.bytes());
            }
        }
        let mut seq = seq0;
        for u in frame.prot_units(&msgs) {
            let r: Rec = match u {
                Unit::Plain(r) => r,
                Unit::Prot { typ, content, pad } => {
                    seq += 1;
                    used.server.seal(seq - 1, typ, &content, pad)
                }
            };
            v.extend(r.bytes());
        }
        a.note.push(format!("{}", seq - seq0));
        a.keys = Some(right);
        v
    })?;
    if t.att().keys.is_none() {
        obs.trivial();
    } else {
        let n: u64 = t.att().note[0].parse().unwrap();
        obs.label(if t.att().keys.as_ref().unwrap().suite == AES { "aes" } else { "chacha" });
        if n > 256 {
            obs.label("more than 256 records");
        }
    }
    match c.twist {
        Twist::None => {
            obs.label("valid");
            expect_passed(&t)
        }
        Twist::BadEe | Twist::BadEeSplit => {
            obs.label("refused extension");
            expect_fatal(&t, &[110], true)
        }
        _ => {
            obs.label("wrong keys");
            expect_fatal(&t, &[20], true)
        }
    }
}

/// A message of more than 2^16 one-byte records, for the third byte of the sequence number.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    suite: u8,
    ballast: usize,
    size: usize,
}

fn long(c: &Long, obs: &mut Obs) -> Res {
    let mut p = Plan::default();
    p.cfg.suites = c.suite;
    p.srv.ballast = c.ballast;
    p.frame.sizes = vec![c.size];
    obs.label(format!("about {} records", c.ballast / c.size));
    expect_passed(&once_plan(&p)?)
}

fn t03(run: &mut Run) {
    let twist = prop_oneof![
        6 => Just(Twist::None),
        2 => Just(Twist::BadEe),
        1 => Just(Twist::BadEeSplit),
        1 => any::<u16>().prop_map(Twist::TranscriptCh),
        1 => any::<u16>().prop_map(Twist::TranscriptSh),
        1 => any::<u8>().prop_map(Twist::Secret),
        1 => Just(Twist::OtherSuite),
        1 => Just(Twist::SwapSides),
        1 => any::<u8>().prop_map(Twist::SeqFrom),
        1 => Just(Twist::NoDerived),
        1 => any::<u8>().prop_map(Twist::IvBit),
        1 => any::<u16>().prop_map(Twist::KeyBit),
    ];
    run.gen("exchange", 3000, 60000, (plan(), twist).prop_map(|(plan, twist)| Case { plan, twist }), check);
    run.all(
        "long",
        [(1u8, 66_000usize, 1usize), (2, 66_000, 1), (1, 600, 1), (2, 600, 2), (1, 9000, 17), (2, 9000, 33), (1, 70_000, 1), (2, 100_000, 5)]
            .map(|(suite, ballast, size)| Long { suite, ballast, size }),
        long,
    );
}
