//! T16: several connection objects in one process.
use super::t_hist::{a_try, any_cfg, open, start, History, Server};
use super::t_io::Story;
use crate::fw::{Obs, Prop, Res, Run};
use crate::tls::sess::*;
use crate::ensure;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::sync::Barrier;

pub const T16: Prop = Prop {
    id: "T16",
    rule: "a case is non-trivial if calls on one object were made between or within calls on another one, or in parallel to them, and both moved bytes",
    assumptions: &["each object is used by one thread at a time", "randomness is scripted per object, or per thread"],
    run: t16,
};

/// The next call of a client's program.
#[derive(Clone)]
struct Prog {
    h: History,
    at: usize,
    phase: Phase,
}
#[derive(Clone, Copy, PartialEq)]
enum Phase {
    Begin,
    Connect(u8),
    Close,
    Query,
    Done,
}
impl Prog {
    fn new(h: &History) -> Prog {
        Prog { h: h.clone(), at: 0, phase: Phase::Begin }
    }
    fn done(&self) -> bool {
        self.phase == Phase::Done
    }
    fn step(&mut self, a: &mut Actor) {
        let t = self.h.tries[self.at].clone();
        let first = self.at == 0;
        let cfg = self.h.cfg.clone();
        self.phase = a.with(|s| match self.phase {
            Phase::Begin => {
                if first {
                    s.configure(&cfg);
                }
                if let Some(c) = &t.cfg {
                    s.configure(c);
                }
                start(s, &t);
                Phase::Connect(1)
            }
            Phase::Connect(n) => {
                s.connect();
                if open(s) && n < t.connects {
                    Phase::Connect(n + 1)
                } else if open(s) || t.close {
                    Phase::Close
                } else {
                    Phase::Query
                }
            }
            Phase::Close => {
                s.close();
                Phase::Query
            }
            Phase::Query => {
                s.query();
                Phase::Begin
            }
            Phase::Done => Phase::Done,
        });
        if self.phase == Phase::Begin {
            self.at += 1;
            if self.at == self.h.tries.len() {
                a.free();
                self.phase = Phase::Done;
            }
        }
    }
}

fn alone(h: &History) -> Result<Trace, crate::fw::Fail> {
    run_many(1, |a| {
        let mut p = Prog::new(h);
        while !p.done() {
            p.step(&mut a[0]);
        }
    })
    .map(|mut v| v.remove(0))
}
/// What each object does alone. Of an object that ends the process (the
/// library's handshake is unfinished), the servers' last messages are left out.
fn solos(l: &[History]) -> Option<(Vec<History>, Vec<Trace>)> {
    let mut out = (vec![], vec![]);
    for h in l {
        let mut h = h.clone();
        let mut k = h.tries.len();
        let t = loop {
            match alone(&h) {
                Ok(t) => break t,
                // what one object does by itself is for other properties
                Err(_) if k == 0 => return None,
                Err(_) => {
                    k -= 1;
                    h.tries[k].server = Server::Story(Story::Only(1));
                }
            }
        };
        out.0.push(h);
        out.1.push(t);
    }
    Some(out)
}

fn same(i: usize, n: usize, t: &Trace, solo: &Trace) -> Res {
    let what = |w: &str| format!("object {i} of {n} {w}");
    for (k, (a, b)) in t.atts.iter().zip(&solo.atts).enumerate() {
        ensure!(a.out == b.out, "bytes-written", "{}", what(&format!("wrote {} bytes in attempt {k}, alone {}; first difference at {:?}", a.out.len(), b.out.len(), a.out.iter().zip(b.out.iter()).position(|(x, y)| x != y))));
    }
    for (a, b) in t.ops.iter().zip(&solo.ops) {
        ensure!(a == b, "outcome", "{}", what(&format!("{a:?}, alone {b:?}")));
    }
    ensure!(t == solo, "transport-use", "{}", what("used its transport in another way than alone"));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    objects: Vec<History>,
    /// Which object's next call is made: one entry for every call at the top,
    /// and one at every call of a transport (0 there: none).
    schedule: Vec<u8>,
}

struct Sched {
    actors: *mut Actor,
    progs: Vec<Prog>,
    schedule: Vec<u8>,
    pos: usize,
    depth: u32,
    nested: u32,
}
thread_local! {
    static SCHED: RefCell<Option<*mut Sched>> = const { RefCell::new(None) };
}
impl Sched {
    fn next(&mut self) -> Option<u8> {
        let v = self.schedule.get(self.pos).copied();
        self.pos += 1;
        v
    }
    unsafe fn step(s: *mut Sched, i: usize) {
        let a = &mut *(*s).actors.add(i);
        if a.busy || (&(*s).progs)[i].done() {
            return;
        }
        // the program is taken out: what happens within does not touch it
        let mut p = (&(*s).progs)[i].clone();
        p.step(a);
        (&mut (*s).progs)[i] = p;
    }
}
/// Within a transport call of one object, a call on another one may be made.
fn within() {
    SCHED.with(|c| {
        let Some(s) = *c.borrow() else { return };
        // SAFETY: set for the duration of `interleave`; the objects in use are marked busy.
        unsafe {
            if (*s).depth >= 3 {
                return;
            }
            let Some(k) = (*s).next().filter(|k| *k > 0) else { return };
            let i = k as usize % (&(*s).progs).len();
            let before = (*(*s).actors.add(i)).busy || (&(*s).progs)[i].done();
            (*s).depth += 1;
            Sched::step(s, i);
            (*s).depth -= 1;
            if !before {
                (*s).nested += 1;
            }
        }
    })
}

fn interleave(c: &Many, obs: &mut Obs) -> Res {
    let Some((objects, solos)) = solos(&c.objects) else {
        obs.trivial();
        return Ok(());
    };
    let n = c.objects.len();
    let schedule = c.schedule.clone();
    let t = run_many(n, move |actors| {
        let mut s = Sched { actors: actors.as_mut_ptr(), progs: objects.iter().map(Prog::new).collect(), schedule, pos: 0, depth: 0, nested: 0 };
        let s: *mut Sched = &mut s;
        SCHED.with(|c| *c.borrow_mut() = Some(s));
        on_yield(within);
        unsafe {
            while let Some(first) = (&(*s).progs).iter().position(|p| !p.done()) {
                let i = match (*s).next() {
                    Some(k) if !(&(*s).progs)[k as usize % n].done() => k as usize % n,
                    _ => first,
                };
                Sched::step(s, i);
            }
        }
    })?;
    if n < 2 || solos.iter().filter(|t| t.atts.iter().any(|a| !a.out.is_empty())).count() < 2 {
        obs.trivial();
    }
    obs.label(format!("{n} objects"));
    let names: std::collections::HashSet<&[u8]> = solos.iter().flat_map(|t| t.ops.iter().map(|o| &o.proto.0[..])).collect();
    obs.label(format!("{} names", names.len().min(4)));
    for (i, (a, b)) in t.iter().zip(&solos).enumerate() {
        same(i, n, a, b)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Parallel {
    objects: Vec<History>,
}
fn parallel(c: &Parallel, obs: &mut Obs) -> Res {
    let Some((objects, solos)) = solos(&c.objects) else {
        obs.trivial();
        return Ok(());
    };
    let n = c.objects.len();
    let t = run_many(n, move |actors| {
        let all = Barrier::new(n);
        std::thread::scope(|s| {
            for (a, h) in actors.iter_mut().zip(&objects) {
                let all = &all;
                s.spawn(move || {
                    all.wait();
                    let mut p = Prog::new(h);
                    while !p.done() {
                        p.step(a);
                    }
                });
            }
        });
    })?;
    if n < 2 || solos.iter().filter(|t| t.atts.iter().any(|a| !a.out.is_empty())).count() < 2 {
        obs.trivial();
    }
    obs.label(format!("{n} threads"));
    for (i, (a, b)) in t.iter().zip(&solos).enumerate() {
        same(i, n, a, b)?;
    }
    Ok(())
}

fn history() -> impl Strategy<Value = History> + Clone {
    (any_cfg(), vec(a_try(false), 1..4)).prop_map(|(cfg, tries)| History { cfg, tries })
}

fn t16(run: &mut Run) {
    let k = prop_oneof![3 => Just(0u8), 4 => 1..=5u8];
    run.gen("interleaved", 1_500, 150_000, (vec(history(), 2..5), vec(k, 0..250)).prop_map(|(objects, schedule)| Many { objects, schedule }), interleave);
    run.gen("threads", 600, 60_000, vec(history(), 2..9).prop_map(|objects| Parallel { objects }), parallel);
}
