//! T01, T02: the ClientHello and the randomness in it.
use crate::fw::{fail, Fail, Obs, Prop, Res, Run};
use crate::gens::*;
use crate::refs::nat::Nat;
use crate::refs::p256::{be, curve, from_be, L, N};
use crate::tls::plan::*;
use crate::tls::server::*;
use crate::tls::sess::*;
use crate::tls::wire::*;
use crate::{ensure, ensure_eq};
use getrandom::Draw;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const T01: Prop = Prop {
    id: "T01",
    rule: "a case is non-trivial if the configuration differs from the default one",
    assumptions: &["application protocol lists are encoded as documented (no empty names)", "server names contain no nul bytes"],
    run: t01,
};
pub const T02: Prop = Prop {
    id: "T02",
    rule: "a case is non-trivial if randomness is scripted (chosen bytes or a failure) or more than one attempt is made",
    assumptions: &["getrandom 0.2 is replaced by a scripted source with the same interface"],
    run: t02,
};

/// The length of the extension block of the only right ClientHello.
fn block_len(c: &Cfg) -> usize {
    let mut n = 7 + 4 + 2 + 2 + 4 + 2 + 4 + 65;
    if c.sig & 1 != 0 {
        n += 4 + 2 + 2;
    }
    if let Some(s) = c.name.as_ref().filter(|s| !s.is_empty()) {
        n += 4 + 5 + s.len();
    }
    let l = c.proto_list().len();
    if l > 0 {
        n += 4 + 2 + l;
    }
    n
}

fn expressible(c: &Cfg) -> bool {
    c.grp & 1 != 0 && c.suites & 3 != 0 && block_len(c) <= 0xffff
}

/// What the hello says has to be what was configured.
fn states(h: &ClientHello, c: &Cfg) -> Res {
    let mut s = h.suites.clone();
    s.sort();
    let mut suites: Vec<u16> = vec![];
    // which flag is which suite is part of the public interface
    if c.suites & TURTLS_AES != 0 {
        suites.push(AES);
    }
    if c.suites & TURTLS_CHACHA != 0 {
        suites.push(CHACHA);
    }
    ensure_eq!(s, suites, "cipher-suites");
    ensure_eq!(h.comp, [0u8], "compression-methods");
    let mut types: Vec<u16> = h.exts.iter().map(|e| e.0).collect();
    types.sort();
    let mut expect: Vec<u16> = vec![10, 43, 51];
    let name = c.name.as_ref().filter(|n| !n.is_empty());
    if name.is_some() {
        expect.push(0);
    }
    if c.sig & 1 != 0 {
        expect.push(13);
    }
    let list = c.proto_list();
    if !list.is_empty() {
        expect.push(16);
    }
    expect.sort();
    ensure_eq!(types, expect, "extensions");
    ensure_eq!(h.ext(43).unwrap(), [2u8, 3, 4], "supported-versions");
    ensure_eq!(h.ext(10).unwrap(), [0u8, 2, 0, 0x17], "supported-groups");
    if c.sig & 1 != 0 {
        ensure_eq!(h.ext(13).unwrap(), [0u8, 2, 4, 3], "signature-algorithms");
    }
    if let Some(n) = name {
        let mut e = Enc::default();
        e.vec(2, |e| {
            e.u8(0);
            e.vec(2, |e| e.bytes(n));
        });
        ensure!(h.ext(0).unwrap() == e.b, "server-name", "server name of {} bytes is sent as {}", n.len(), hexs(&h.ext(0).unwrap()[..h.ext(0).unwrap().len().min(80)]));
    }
    if !list.is_empty() {
        let mut e = Enc::default();
        e.vec(2, |e| e.bytes(&list));
        ensure!(h.ext(16).unwrap() == e.b, "app-protos", "protocols {} are sent as {}", hexs(&list[..list.len().min(80)]), hexs(&h.ext(16).unwrap()[..h.ext(16).unwrap().len().min(80)]));
    }
    let shares = match h.key_shares() {
        Ok(s) => s,
        Err(e) => return fail("key-share", e),
    };
    ensure!(shares.len() == 1 && shares[0].0 == 0x17 && point(&shares[0].1).is_some(), "key-share", "key shares {shares:02x?}");
    Ok(())
}
const TURTLS_AES: u8 = 2;
const TURTLS_CHACHA: u8 = 1;

pub(super) fn hello_of(a: &Att) -> Result<ClientHello, Fail> {
    let w = match written(&a.out) {
        Ok(w) => w,
        Err(e) => return fail("malformed", e),
    };
    ensure!(w.rest.is_empty() && w.partial.is_empty(), "extra-output", "{} more records and {} bytes after the ClientHello", w.rest.len(), w.partial.len());
    match client_hello(&w.hello) {
        Ok(h) => Ok(h),
        Err(e) => fail("malformed", e),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub(super) struct Case {
    pub cfg: Cfg,
    seed: u64,
    writes: Vec<usize>,
}

pub(super) fn check01(c: &Case, obs: &mut Obs) -> Res {
    if c.cfg == Cfg::default() {
        obs.trivial();
    }
    let d = c.clone();
    let ok = expressible(&c.cfg);
    let t = run(move |s| {
        s.configure(&d.cfg);
        let io = Io { writes: d.writes.clone(), ..Io::default() };
        s.attempt(&io, d.seed, vec![], |_, _| vec![]);
        s.connect();
        s.connect();
        if !ok {
            s.close();
            s.configure(&Cfg::default());
            s.attempt(&Io::default(), d.seed, vec![], |_, _| vec![]);
            s.connect();
        }
    })?;
    if let Some((m, l)) = &t.panic {
        return fail("panic", format!("{m} [{l}]"));
    }
    let first = &t.ops[0];
    if !ok {
        obs.label("not expressible");
        ensure!(t.atts[0].out.is_empty(), "wrote-anyway", "{} bytes written for a configuration that has no ClientHello", t.atts[0].out.len());
        ensure!(first.ret == -1 && first.err != WANT_READ && first.err != WANT_WRITE, "no-error", "result {} error {}", first.ret, first.err);
        if c.cfg.suites & 3 != 0 && block_len(&c.cfg) <= 0xffff {
            ensure!(first.err == MISSING, "missing-extensions", "error {} for a configuration without key exchange", first.err);
        }
        let last = t.ops.last().unwrap();
        ensure!(last.ret == -1 && last.err == WANT_READ, "unusable-afterwards", "result {} error {} with a valid configuration afterwards", last.ret, last.err);
        return states(&hello_of(&t.atts[1])?, &Cfg::default());
    }
    for o in &t.ops {
        ensure!(o.ret == -1 && o.err == WANT_READ, "result", "result {} error {} alert {} when waiting for the server", o.ret, o.err, o.alert);
    }
    let h = hello_of(&t.atts[0])?;
    let n = t.atts[0].out.len();
    obs.label(format!("{} records", written(&t.atts[0].out).unwrap().hello_records.len()));
    obs.label(if n > 0x4000 { "long" } else { "short" });
    states(&h, &c.cfg)
}

fn names(n: usize) -> Hx {
    Hx(fill(n, 3 + n as u64).into_iter().map(|b| b.max(1)).collect())
}
/// A protocol list of exactly `n` bytes (not 1).
fn protos_of(n: usize) -> Vec<Hx> {
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        // leave nothing or at least two
        let mut k = left.min(256);
        if left - k == 1 {
            k -= 1;
        }
        v.push(names(k - 1));
        left -= k;
    }
    v
}

pub(super) fn case01() -> impl Strategy<Value = Case> + Clone {
    let name = prop_oneof![
        3 => Just(None),
        6 => name().prop_map(Some),
        1 => Just(Some(Hx(vec![]))),
        2 => prop_oneof![0..300usize, 16000..17000usize, 32000..34000usize, 65000..66000usize, 0..70000usize].prop_map(|n| Some(names(n))),
    ];
    let protos = prop_oneof![
        3 => Just(None),
        1 => Just(Some(vec![])),
        5 => vec(proto(), 1..6).prop_map(Some),
        1 => vec(proto(), 1..40).prop_map(Some),
        1 => prop_oneof![2..600usize, 16000..17000usize, 65000..66000usize].prop_map(|n| Some(protos_of(n))),
    ];
    let flags16 = || prop_oneof![6 => Just(1u16), 1 => Just(0u16), 1 => Just(3u16), 2 => any::<u16>(), 2 => any::<u16>().prop_map(|x| x | 1)];
    let flags8 = prop_oneof![6 => 1..=3u8, 1 => Just(0u8), 2 => any::<u8>()];
    ((name, protos, flags16(), flags16(), flags8, prop_oneof![4 => Just(0usize), 1 => 1..70000usize]), any::<u64>(), io_sizes())
        .prop_map(|((name, protos, sig, grp, suites, stray), seed, writes)| Case { cfg: Cfg { name, protos, sig, grp, suites, stray }, seed, writes })
}

fn t01(run: &mut Run) {
    run.gen("configurations", 4000, 400_000, case01(), check01);
    let mut items = vec![];
    for suites in 0..=255u8 {
        for k in 0..8 {
            let sig = [0, 1, 2, 0xffff][k % 4];
            let grp = [1, 3, 0, 0xffff, 0xfffe, 1, 1, 1][(k + suites as usize) % 8];
            let mut cfg = Cfg { sig, grp, suites, ..Cfg::default() };
            if k & 1 != 0 {
                cfg.name = Some(names(1 + k));
            }
            if k & 2 != 0 {
                cfg.protos = Some(protos_of(2 + k));
            }
            items.push(Case { cfg, seed: suites as u64 * 8 + k as u64, writes: vec![] });
        }
    }
    run.all("flags", items, check01);
    let mut items = vec![];
    let lens: Vec<usize> = (0..300).chain(16150..16400).chain((32500..32800).step_by(3)).chain(65250..65560).collect();
    for n in lens {
        let mut cfg = Cfg { name: Some(names(n)), suites: 1 + (n % 3) as u8, ..Cfg::default() };
        items.push(Case { cfg: cfg.clone(), seed: n as u64, writes: vec![] });
        cfg.name = None;
        if n > 1 {
            cfg.protos = Some(protos_of(n));
            items.push(Case { cfg: cfg.clone(), seed: n as u64, writes: vec![] });
            if n > 400 {
                cfg.name = Some(names(100));
                items.push(Case { cfg, seed: n as u64, writes: vec![] });
            }
        }
    }
    run.all("lengths", items, check01);
}

// T02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src {
    Stream,
    Fail,
    /// Little-endian or big-endian bytes of a value.
    Value(L, bool),
}
impl Src {
    pub fn draw(&self) -> Draw {
        match self {
            Src::Stream => Draw::Bytes(vec![]),
            Src::Fail => Draw::Fail,
            Src::Value(l, big) => {
                let mut b = be(l).to_vec();
                if !big {
                    b.reverse();
                }
                Draw::Bytes(b)
            }
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tries {
    cfg: Cfg,
    /// Seed and script of each attempt; how it is ended.
    tries: Vec<(u64, Vec<Src>, u8)>,
}

fn reduce(l: &L) -> L {
    curve().n.reduce(&Nat::from_limbs(l))
}

fn check02(c: &Tries, obs: &mut Obs) -> Res {
    if c.tries.len() == 1 && c.tries[0].1.iter().all(|s| matches!(s, Src::Stream)) {
        obs.trivial();
    }
    let d = c.clone();
    let t = run(move |s| {
        s.configure(&d.cfg);
        for (seed, script, end) in &d.tries {
            let e = *end % 4;
            s.attempt(&Io::default(), *seed, script.iter().map(|x| x.draw()).collect(), move |_, _| match e {
                // an alert, a refused message, or silence
                0 => vec![21, 3, 3, 0, 2, 2, 40],
                1 => vec![22, 3, 3, 0, 4, 11, 0, 0, 0],
                _ => vec![],
            });
            s.connect();
            if e > 1 {
                s.close();
            }
        }
    })?;
    if let Some((m, l)) = &t.panic {
        return fail("panic", format!("{m} [{l}]"));
    }
    let mut seen: Vec<(u64, [u8; 32], Vec<u8>)> = vec![];
    for (i, (seed, script, _)) in c.tries.iter().enumerate() {
        let a = &t.atts[i];
        let o = t.ops.iter().find(|o| o.att == i && o.op == "connect").unwrap();
        if a.draw_failures > 0 {
            obs.label("randomness failed");
            ensure!(a.out.is_empty(), "wrote-without-randomness", "{} bytes written although randomness failed", a.out.len());
            ensure!(o.ret == -1 && o.err == RNG, "rng-error", "result {} error {} after randomness failed", o.ret, o.err);
            continue;
        }
        if a.out.is_empty() {
            let zero = a.draws.iter().any(|d| d.windows(32).any(|w| [false, true].iter().any(|r| reduce(&value(w, *r)) == [0; 4])));
            ensure!(zero, "no-hello", "nothing was written, result {} error {}", o.ret, o.err);
            ensure!(o.ret == -1 && o.err == ZERO_KEY, "zero-key-error", "result {} error {} for a private key of zero", o.ret, o.err);
            obs.label("zero key");
            continue;
        }
        obs.label("hello");
        let w = match written(&a.out) {
            Ok(w) => w,
            Err(e) => return fail("malformed", e),
        };
        let h = match client_hello(&w.hello) {
            Ok(h) => h,
            Err(e) => return fail("malformed", e),
        };
        let share = match h.key_shares() {
            Ok(s) if s.len() == 1 => s[0].1.clone(),
            _ => return fail("malformed", "key share"),
        };
        // the random is made of drawn bytes, and the key of others
        let mut found = false;
        let mut random = false;
        'all: for (i, d) in a.draws.iter().enumerate() {
            for (p, w) in d.windows(32).enumerate() {
                if w != h.random {
                    continue;
                }
                random = true;
                for (j, e) in a.draws.iter().enumerate() {
                    for (q, x) in e.windows(32).enumerate() {
                        if i == j && p.abs_diff(q) < 32 {
                            continue;
                        }
                        for big in [false, true] {
                            let k = reduce(&value(x, big));
                            if k != [0; 4] && uncompressed(&curve().mul(&k, &curve().g)) == share {
                                found = true;
                                break 'all;
                            }
                        }
                    }
                }
            }
        }
        ensure!(random, "random-not-drawn", "the client random {} is not among the randomness drawn for the attempt: {:?}", hexs(&h.random), a.draws);
        ensure!(found, "key-not-drawn", "the key share is not the public point of a private key drawn for the attempt: {:?}", a.draws);
        for (s, r, k) in &seen {
            // different streams, no chosen bytes
            if s != seed && script.iter().all(|x| matches!(x, Src::Stream)) {
                ensure!(*r != h.random && *k != share, "repeated", "two attempts with independent randomness share values");
            }
        }
        if script.iter().all(|x| matches!(x, Src::Stream)) {
            seen.push((*seed, h.random, share));
        }
    }
    Ok(())
}
fn value(w: &[u8], big: bool) -> L {
    let mut b: [u8; 32] = w.try_into().unwrap();
    if !big {
        b.reverse();
    }
    from_be(&b)
}

fn t02(run: &mut Run) {
    let near = (-3i64..=3).prop_map(|d| {
        let mut v = N.to_vec();
        add_small(&mut v, d);
        [v[0], v[1], v[2], v[3]]
    });
    let l = || prop_oneof![2 => Just([0u64; 4]), 2 => Just(N), 2 => near.clone(), 1 => Just([u64::MAX; 4]), 2 => (1..5u64).prop_map(|k| [k, 0, 0, 0]), 2 => limbs(4).prop_map(|v| [v[0], v[1], v[2], v[3]]), 1 => any::<L>()];
    let src = prop_oneof![4 => Just(Src::Stream), 2 => Just(Src::Fail), 5 => (l(), any::<bool>()).prop_map(|(a, b)| Src::Value(a, b))];
    let one = (any::<u64>(), prop_oneof![2 => Just(vec![]), 3 => vec(src, 1..5)], any::<u8>());
    run.gen("attempts", 3000, 200_000, (cfg(), prop_oneof![2 => vec(one.clone(), 1..=1), 3 => vec(one, 2..5)]).prop_map(|(cfg, tries)| Tries { cfg, tries }), check02);
    let mut items = vec![];
    for suites in 1..=3u8 {
        let cfg = Cfg { suites, ..Cfg::default() };
        for at in 0..4usize {
            for before in [Src::Stream, Src::Value([5, 0, 0, 0], false)] {
                let mut script = vec![before; at];
                script.push(Src::Fail);
                for end in 0..4 {
                    items.push(Tries { cfg: cfg.clone(), tries: vec![(9, script.clone(), end), (10, vec![], 2)] });
                    items.push(Tries { cfg: cfg.clone(), tries: vec![(11, vec![], end), (9, script.clone(), 2), (10, vec![], end)] });
                }
            }
        }
        for l in [[0; 4], N, [N[0] + 1, N[1], N[2], N[3]], [N[0] - 1, N[1], N[2], N[3]], [1, 0, 0, 0], [u64::MAX; 4], [0, 0, 0, 1 << 63], [0, 1, 0, 0]] {
            for big in [false, true] {
                let v = Src::Value(l, big);
                items.push(Tries { cfg: cfg.clone(), tries: vec![(1, vec![v.clone()], 2), (2, vec![], 2)] });
                items.push(Tries { cfg: cfg.clone(), tries: vec![(1, vec![Src::Stream, v.clone()], 2), (2, vec![], 0)] });
                items.push(Tries { cfg: cfg.clone(), tries: vec![(1, vec![v.clone(); 8], 2), (2, vec![], 1)] });
            }
        }
    }
    run.all("failures", items, check02);
}
