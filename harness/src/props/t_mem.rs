//! T15: memory.
use super::t_hist::{a_try, any_cfg, drive, History};
use super::{t_hello, t_hist};
use crate::fw::{fail, Obs, Prop, Res, Run};
use crate::gens::*;
use crate::mem;
use crate::tls::plan::*;
use crate::tls::remote::{with, Mode};
use crate::tls::sess::*;
use crate::ensure;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const T15: Prop = Prop {
    id: "T15",
    rule: "a case is non-trivial if the client wrote a ClientHello",
    assumptions: &["memory is obtained through Rust's global allocator", "memcheck sees the compiled code of the release profile"],
    run: t15,
};

/// Far above what a message of 128 KiB needs, far below what the lengths in the protocol could ask for.
const BOUND: usize = 1 << 20;

fn bounded(t: &Trace, obs: &mut Obs) -> Res {
    let h = t.heap.clone().expect("counted");
    obs.label(format!("peak below {} KiB", (h.peak >> 10).next_power_of_two().max(32)));
    ensure!(h.peak <= BOUND, "peak", "{} bytes were held at a time, the largest block {}", h.peak, h.largest);
    if t.panic.is_none() {
        ensure!(h.live == 0 && h.blocks == 0, "leak", "{} bytes in {} blocks are left after everything was freed", h.live, h.blocks);
    }
    if t.atts.iter().all(|a| a.out.is_empty()) {
        obs.trivial();
    }
    Ok(())
}
fn count(fill: u8) {
    let _ = getrandom::OBSERVER.set(|b| {
        mem::inside(!b);
    });
    mem::start(fill);
}

fn histories(c: &History, obs: &mut Obs) -> Res {
    let once = |fill| {
        let d = c.clone();
        counted(fill, move |s| {
            s.configure(&d.cfg);
            for t in &d.tries {
                if let Some(cfg) = &t.cfg {
                    s.configure(cfg);
                }
                drive(s, t);
            }
        })
    };
    let t = once(0xa5)?;
    bounded(&t, obs)?;
    let u = once(0x5a)?;
    ensure!(t == u, "uninitialised", "what new memory contains decides what the client does: {:?} and {:?}", t.ops.last(), u.ops.last());
    Ok(())
}
fn counted(fill: u8, f: impl FnOnce(&mut Sess)) -> Result<Trace, crate::fw::Fail> {
    run(|s| {
        count(fill);
        // the object made before counting began is replaced
        s.free_new();
        f(s)
    })
}

/// Lengths far beyond what is sent, or really sent, in every field.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    cfg: Cfg,
    seed: u64,
    /// In place of which message: the ServerHello, EncryptedExtensions, Certificate.
    stage: u8,
    typ: Option<u8>,
    /// The length in the header, and how much of it is sent.
    len: u32,
    sent: u32,
    rec: u16,
    times: u8,
}
fn huge(c: &Huge, obs: &mut Obs) -> Res {
    let d = c.clone();
    let t = counted(0xff, move |s| {
        s.configure(&d.cfg);
        for i in 0..d.times.max(1) {
            let k = d.clone();
            s.attempt(&Io::default(), d.seed + i as u64, vec![], move |o, a| {
                let f = match Srv::default().flight(o) {
                    Ok(f) => f,
                    Err(e) => {
                        a.hello_err = Some(e);
                        return vec![];
                    }
                };
                let stage = k.stage % 3;
                let typ = k.typ.unwrap_or([2, 8, 11][stage as usize]);
                let len = k.len & 0xff_ffff;
                let mut m = vec![typ];
                m.extend_from_slice(&len.to_be_bytes()[1..]);
                m.extend(fill((k.sent as usize).min(len as usize).min(300_000), k.seed));
                let frame = Frame { hello: vec![k.rec as usize], sizes: vec![k.rec as usize], ..Frame::default() };
                let sh = f.sh.encode().b;
                let keys = f.keys(&sh);
                let mut u = vec![];
                match stage {
                    0 => u.extend(frame.hello_units(&m)),
                    1 => {
                        u.extend(Frame::default().hello_units(&sh));
                        u.extend(frame.prot_units(&[m]));
                    }
                    _ => {
                        u.extend(Frame::default().hello_units(&sh));
                        u.extend(Frame::default().prot_units(&f.msgs()[..1]));
                        u.extend(frame.prot_units(&[m]));
                    }
                }
                stream(&seal(&u, &keys.server))
            });
            s.connect();
            s.close();
        }
    })?;
    obs.label(["server hello", "encrypted extensions", "certificate"][c.stage as usize % 3]);
    bounded(&t, obs)
}

/// Valid exchanges with generated certificates, which end by panic: only the peak counts.
fn chains(p: &Plan, obs: &mut Obs) -> Res {
    let q = p.clone();
    let t = counted(0xff, move |s| {
        s.configure(&q.cfg);
        let r = q.clone();
        s.attempt(&q.io, q.seed, vec![], move |o, a| respond(&r, o, a));
        s.connect_through();
    })?;
    bounded(&t, obs)
}

fn checked(f: impl FnOnce() -> Res) -> Res {
    if !crate::tls::remote::dir().join("driver").exists() {
        return fail("driver", "the C program does not build (see T14)");
    }
    // what is said about anything else is for other properties
    match with(Mode::Memcheck, f) {
        Err(e) if e.sig == "memcheck" || e.sig.starts_with("crash") => Err(e),
        _ => Ok(()),
    }
}
fn check_history(c: &History, _: &mut Obs) -> Res {
    let d = c.clone();
    checked(|| {
        run(move |s| {
            s.configure(&d.cfg);
            for t in &d.tries {
                if let Some(cfg) = &t.cfg {
                    s.configure(cfg);
                }
                drive(s, t);
            }
        })
        .map(|_| ())
    })
}

fn t15(run: &mut Run) {
    run.gen("histories", 3_000, 200_000, (any_cfg(), vec(a_try(false), 1..6)).prop_map(|(cfg, tries)| History { cfg, tries }), histories);
    let len = prop_oneof![2 => any::<u32>(), 2 => Just(0xff_ffffu32), 2 => 0x1_f000..0x2_1000u32, 1 => 0..70_000u32, 1 => (0..24u32).prop_map(|b| 1 << b)];
    let sent = prop_oneof![2 => 0..100u32, 2 => any::<u32>(), 1 => 0..70_000u32];
    let rec = prop_oneof![2 => Just(0x4000u16), 1 => 1000..0x4000u16];
    run.gen(
        "announced",
        1_500,
        100_000,
        (cfg(), 0..1u64 << 40, 0..3u8, prop::option::weighted(0.2, any::<u8>()), len, sent, rec, 1..4u8).prop_map(|(cfg, seed, stage, typ, len, sent, rec, times)| Huge { cfg, seed, stage, typ, len, sent, rec, times }),
        huge,
    );
    run.gen("certificates", 1_000, 60_000, plan(), chains);
    run.gen("memcheck-histories", 160, 10_000, (any_cfg(), vec(a_try(false), 1..3)).prop_map(|(cfg, tries)| History { cfg, tries }), check_history);
    run.gen("memcheck-errors", 160, 10_000, t_hist::err9(), |c, obs| checked(|| t_hist::check09(c, obs)));
    run.gen("memcheck-configurations", 80, 5_000, t_hello::case01(), |c, obs| checked(|| t_hello::check01(c, obs)));
}
