//! Runs the client through its C interface, in a process of its own, against a
//! scripted transport and randomness source, and records what it does.
use super::server::Keys;
use crate::fw::Fail;
use crate::gens::Hx;
use crate::mem::{self, Guarded, Heap};
use super::remote::{ended, Remote};
use getrandom::Draw;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::ffi::c_void;
use std::ptr::null;
use turtls::*;

/// The public configuration.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    pub name: Option<Hx>,
    /// `None`: a null pointer.
    pub protos: Option<Vec<Hx>>,
    pub sig: u16,
    pub grp: u16,
    pub suites: u8,
    /// The length given with a null protocol list.
    #[serde(default)]
    pub stray: usize,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { name: None, protos: None, sig: 1, grp: 1, suites: 3, stray: 0 }
    }
}
impl Cfg {
    /// The protocol list as the interface takes it.
    pub fn proto_list(&self) -> Vec<u8> {
        let mut v = vec![];
        for p in self.protos.iter().flatten() {
            v.push(p.len() as u8);
            v.extend_from_slice(p);
        }
        v
    }
}

/// How the transport behaves during one attempt.
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Io {
    /// Most bytes given per successful read, cyclic; empty: everything asked for.
    pub reads: Vec<usize>,
    /// Most bytes taken per successful write, cyclic; empty: everything.
    pub writes: Vec<usize>,
    /// Before the n-th transport call (reads and writes together, successful ones
    /// counted) fail this many times with this value.
    pub faults: Vec<(u64, u32, i8)>,
    /// Every write from the n-th successful call on fails.
    #[serde(default)]
    pub dead_writes_from: Option<u64>,
}

type Serve = Box<dyn FnOnce(&[u8], &mut Att) -> Vec<u8>>;

/// What happened during one attempt (one transport stream).
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Att {
    pub out: Hx,
    pub closes: u32,
    /// Bytes were written / reads were made after the transport was closed.
    pub write_after_close: bool,
    pub read_after_close: bool,
    pub consumed: usize,
    pub input: usize,
    /// Reads refused because the peer's bytes were used up.
    pub dry: u32,
    pub faulted: u32,
    /// 'r' or 'w' for every scripted failure.
    pub fault_log: String,
    /// Index of the last successful read among the successful calls.
    pub last_read: u64,
    pub calls: u64,
    pub read_calls: u64,
    pub write_calls: u64,
    pub keys: Option<Keys>,
    /// What the server thought of the ClientHello.
    pub hello_err: Option<String>,
    pub note: Vec<String>,
    /// Random draws made while this was the current attempt.
    pub draws: Vec<Hx>,
    pub draw_failures: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OpRec {
    pub op: String,
    pub att: usize,
    pub ret: i32,
    pub err: i32,
    pub alert: i32,
    pub proto: Hx,
    /// What the first result of `turtls_app_proto` points to.
    pub kept: Hx,
    /// Bytes written and closes of the attempt so far.
    pub out: usize,
    pub closes: u32,
    /// Scripted failures of the attempt so far.
    pub faults: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Trace {
    pub atts: Vec<Att>,
    pub ops: Vec<OpRec>,
    pub panic: Option<(String, String)>,
    /// The library's memory after everything was freed, or when it panicked.
    #[serde(default)]
    pub heap: Option<Heap>,
    pub bad: Vec<String>,
}

pub const TLS: i32 = 0;
pub const TLS_PEER: i32 = 1;
pub const RNG: i32 = 2;
pub const WANT_READ: i32 = 3;
pub const WANT_WRITE: i32 = 4;
pub const ZERO_KEY: i32 = 5;
pub const MISSING: i32 = 6;

struct Net {
    io: Io,
    serve: Option<Serve>,
    input: Option<Vec<u8>>,
    pos: usize,
    ri: usize,
    wi: usize,
    ok: u64,
    pending: Vec<(u64, u32, i8)>,
    limit: u64,
}

pub(super) struct Child {
    pub trace: Trace,
    net: Option<Net>,
    pipe: i32,
    /// The client is in a program of its own; the session's calls are made from here.
    remote: bool,
}
thread_local! {
    static CHILD: Cell<*mut Child> = const { Cell::new(std::ptr::null_mut()) };
}
const TOKEN: usize = 0x5ca1ab1e0;

pub(super) fn child() -> Option<&'static mut Child> {
    // SAFETY: set to a leaked box, or null.
    unsafe { CHILD.with(|c| c.get()).as_mut() }
}
fn set_child(c: *mut Child) -> *mut Child {
    CHILD.with(|x| x.replace(c))
}
fn new_child(pipe: i32, remote: bool) -> *mut Child {
    Box::leak(Box::new(Child { trace: Trace::default(), net: None, pipe, remote }))
}

fn draws(c: &mut Child) {
    if let Some(a) = c.trace.atts.last_mut() {
        a.draws = getrandom::log().into_iter().map(Hx).collect();
        a.draw_failures = getrandom::failures();
        if let Some(n) = &c.net {
            a.consumed = n.pos;
            a.input = n.input.as_ref().map_or(0, |i| i.len());
            a.calls = n.ok;
        }
    }
}

fn emit(c: &mut Child) -> ! {
    mem::inside(false);
    draws(c);
    if c.remote {
        ended();
    }
    c.trace.heap = mem::now();
    deliver(c.pipe, &[&c.trace])
}
fn deliver(pipe: i32, t: &[&Trace]) -> ! {
    let out = serde_json::to_vec(t).unwrap();
    let mut off = 0;
    while off < out.len() {
        let n = unsafe { libc::write(pipe, out[off..].as_ptr() as *const _, out.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
    unsafe { libc::_exit(0) }
}

/// Called by the panic hook: in a session's process the panic ends the session.
pub fn on_panic(msg: &str, loc: &str) {
    if let Some(c) = child().filter(|c| !c.remote) {
        c.trace.panic = Some((msg.to_string(), loc.to_string()));
        emit(c);
    }
}

fn fault(c: &mut Child, kind: char) -> Option<isize> {
    let n = c.net.as_mut()?;
    let ok = n.ok;
    let p = n.pending.iter_mut().find(|p| p.0 == ok && p.1 > 0)?;
    p.1 -= 1;
    let v = p.2.min(0) as isize;
    let a = c.trace.atts.last_mut()?;
    a.faulted += 1;
    a.fault_log.push(kind);
    Some(v)
}

fn limit(c: &mut Child) {
    let n = c.net.as_mut().unwrap();
    if n.limit == 0 {
        c.trace.bad.push("endless transport calls".into());
        emit(c);
    }
    n.limit -= 1;
}

extern "C" fn write_fn(buf: *const c_void, amt: usize, ctx: *const c_void) -> isize {
    mem::harness(|| on_write(buf, amt, ctx))
}
fn on_write(buf: *const c_void, amt: usize, ctx: *const c_void) -> isize {
    yield_now();
    let c = child().expect("session");
    if ctx as usize != TOKEN {
        c.trace.bad.push("write_fn called with another ctx".into());
    }
    // SAFETY: what the client is to guarantee.
    net_write(c, unsafe { std::slice::from_raw_parts(buf as *const u8, amt) })
}

/// The transport's side of a write.
pub(super) fn net_write(c: &mut Child, buf: &[u8]) -> isize {
    if c.net.is_none() {
        c.trace.bad.push("write_fn called without an attempt".into());
        return -1;
    }
    limit(c);
    let closed = c.trace.atts.last().unwrap().closes > 0;
    if closed {
        c.trace.atts.last_mut().unwrap().write_after_close = true;
    }
    if let Some(v) = fault(c, 'w') {
        return v;
    }
    let n = c.net.as_mut().unwrap();
    if n.io.dead_writes_from.is_some_and(|d| n.ok >= d) {
        return -1;
    }
    if buf.is_empty() {
        c.trace.bad.push("write_fn called with nothing to write".into());
        return -1;
    }
    let mut take = buf.len();
    if !n.io.writes.is_empty() {
        take = take.min(n.io.writes[n.wi % n.io.writes.len()].max(1));
        n.wi += 1;
    }
    n.ok += 1;
    let a = c.trace.atts.last_mut().unwrap();
    a.write_calls += 1;
    a.out.0.extend_from_slice(&buf[..take]);
    take as isize
}

extern "C" fn read_fn(buf: *mut c_void, amt: usize, ctx: *const c_void) -> isize {
    mem::harness(|| on_read(buf, amt, ctx))
}
fn on_read(buf: *mut c_void, amt: usize, ctx: *const c_void) -> isize {
    yield_now();
    let c = child().expect("session");
    if ctx as usize != TOKEN {
        c.trace.bad.push("read_fn called with another ctx".into());
    }
    // A transport may use all of the buffer it is given, whatever it returns.
    let junk = |from: usize| {
        let n = amt - from;
        for at in [from, from + n.saturating_sub(64)] {
            unsafe { std::ptr::write_bytes((buf as *mut u8).add(at), 0xa5, n.min(64)) };
        }
    };
    match net_read(c, amt) {
        Err(v) => {
            junk(0);
            v
        }
        Ok((pos, give)) => {
            let input = c.net.as_ref().unwrap().input.as_ref().unwrap();
            unsafe { std::ptr::copy_nonoverlapping(input[pos..].as_ptr(), buf as *mut u8, give) };
            junk(give);
            give as isize
        }
    }
}

/// The transport's side of a read: what to return, or where and how much of the input to give.
pub(super) fn net_read(c: &mut Child, amt: usize) -> Result<(usize, usize), isize> {
    if c.net.is_none() {
        c.trace.bad.push("read_fn called without an attempt".into());
        return Err(-1);
    }
    limit(c);
    if c.trace.atts.last().unwrap().closes > 0 {
        c.trace.atts.last_mut().unwrap().read_after_close = true;
    }
    if let Some(v) = fault(c, 'r') {
        return Err(v);
    }
    let n = c.net.as_mut().unwrap();
    if amt == 0 {
        c.trace.bad.push("read_fn called for no bytes".into());
        return Err(-1);
    }
    if n.input.is_none() {
        let serve = n.serve.take().unwrap();
        let a = c.trace.atts.last_mut().unwrap();
        let out = a.out.0.clone();
        let v = serve(&out, a);
        n.limit += 4 * v.len() as u64;
        n.input = Some(v);
    }
    let input = n.input.as_ref().unwrap();
    if n.pos == input.len() {
        let a = c.trace.atts.last_mut().unwrap();
        a.dry += 1;
        // distinguish "would block" from the end of the stream
        return Err(if a.dry % 2 == 0 { 0 } else { -1 });
    }
    let mut give = amt.min(input.len() - n.pos);
    if !n.io.reads.is_empty() {
        give = give.min(n.io.reads[n.ri % n.io.reads.len()].max(1));
        n.ri += 1;
    }
    n.ok += 1;
    let at = n.pos;
    n.pos += give;
    c.trace.atts.last_mut().unwrap().last_read = n.ok - 1;
    c.trace.atts.last_mut().unwrap().read_calls += 1;
    Ok((at, give))
}
pub(super) fn net_input(c: &Child, at: usize, n: usize) -> &[u8] {
    &c.net.as_ref().unwrap().input.as_ref().unwrap()[at..at + n]
}

extern "C" fn close_fn(ctx: *const c_void) {
    mem::harness(|| on_close(ctx))
}
fn on_close(ctx: *const c_void) {
    yield_now();
    let c = child().expect("session");
    if ctx as usize != TOKEN {
        c.trace.bad.push("close_fn called with another ctx".into());
    }
    net_close(c)
}
pub(super) fn net_close(c: &mut Child) {
    match c.trace.atts.last_mut() {
        Some(a) if c.net.is_some() => a.closes += 1,
        _ => c.trace.bad.push("close_fn called without an attempt".into()),
    }
}

unsafe fn string(p: *const u8) -> Option<Vec<u8>> {
    if p.is_null() {
        return None;
    }
    Some((0..300).map_while(|i| Some(*p.add(i)).filter(|b| *b != 0)).collect())
}

/// The client under test, inside the session's process.
pub struct Sess {
    conn: *mut TurtlsConn,
    /// The protocol's name, as long as the object exists.
    proto: *const u8,
    /// In another program, instead.
    remote: Option<Remote>,
    /// Configuration strings have to outlive the connection.
    keep: Vec<(Option<Guarded>, Guarded)>,
}
impl Sess {
    pub fn new() -> Sess {
        let conn = mem::lib(|| turtls_new(TurtlsIo { write_fn, read_fn, close_fn, ctx: TOKEN as *mut c_void }));
        Sess { conn, proto: unsafe { turtls_app_proto(conn) } as *const u8, remote: None, keep: vec![] }
    }
    pub(super) fn new_remote(mut r: Remote) -> Sess {
        set_child(new_child(-1, true));
        r.new_conn();
        Sess { conn: std::ptr::null_mut(), proto: null(), remote: Some(r), keep: vec![] }
    }
    /// The end of a remote session: its record.
    pub(super) fn take_trace() -> Trace {
        unsafe {
            Box::from_raw(set_child(std::ptr::null_mut())).trace
        }
    }
    pub(super) fn remote_mut(&mut self) -> &mut Remote {
        self.remote.as_mut().unwrap()
    }
    /// The text of an alert, by its name in the header.
    pub fn remote_text(&mut self, code: u32) -> Vec<u8> {
        self.remote_mut().text(code)
    }
    /// The values of names in the header.
    pub fn remote_values(&mut self) -> Vec<u8> {
        self.remote_mut().values()
    }
    pub(super) fn note_draws(&self) {
        draws(child().unwrap());
    }
    pub(super) fn take_remote(&mut self) -> Remote {
        self.remote.take().unwrap()
    }
    pub fn configure(&mut self, cfg: &Cfg) {
        if let Some(r) = &mut self.remote {
            return r.configure(cfg);
        }
        let name = cfg.name.as_ref().map(|n| Guarded::new(&[&n.0[..], &[0]].concat()));
        let bytes = cfg.proto_list();
        let len = bytes.len();
        let list = Guarded::new(&bytes);
        self.keep.push((name, list));
        let (name, list) = self.keep.last().unwrap();
        unsafe {
            let c = turtls_get_config(self.conn);
            (*c).extensions.server_name = name.as_ref().map_or(null(), |n| n.ptr() as *const _);
            (*c).extensions.sig_algs = cfg.sig;
            (*c).extensions.sup_groups = cfg.grp;
            (*c).extensions.app_protos = if cfg.protos.is_some() { list.ptr() as *const _ } else { null() };
            (*c).extensions.app_protos_len = if cfg.protos.is_some() { len } else { cfg.stray };
            *(&raw mut (*c).cipher_suites as *mut u8) = cfg.suites;
        }
    }
    /// Provides a new transport stream and randomness for the next attempt.
    pub fn attempt(&mut self, io: &Io, seed: u64, script: Vec<Draw>, serve: impl FnOnce(&[u8], &mut Att) -> Vec<u8> + 'static) {
        let c = child().unwrap();
        draws(c);
        c.trace.atts.push(Att::default());
        let pending = io.faults.clone();
        let extra: u64 = pending.iter().map(|p| p.1 as u64).sum();
        c.net = Some(Net { io: io.clone(), serve: Some(Box::new(serve)), input: None, pos: 0, ri: 0, wi: 0, ok: 0, pending, limit: 400_000 + extra });
        getrandom::reset(seed, script);
    }
    fn record(&mut self, op: &str, ret: i32) {
        let c = child().unwrap();
        let (err, alert, proto, kept) = if let Some(r) = &mut self.remote {
            // the driver compares them
            let (e, a, p) = r.query();
            (e, a, p.clone(), p)
        } else { unsafe {
            let kept = string(self.proto);
            let now = string(turtls_app_proto(self.conn) as *const u8);
            if kept.is_none() || now.is_none() {
                c.trace.bad.push("turtls_app_proto returned null".into());
            }
            (turtls_get_error(self.conn) as i32, turtls_get_tls_error(self.conn) as i32, Hx(now.unwrap_or_default()), Hx(kept.unwrap_or_default()))
        } };
        draws(c);
        let (out, closes, faults) = c.trace.atts.last().map_or((0, 0, 0), |a| (a.out.len(), a.closes, a.faulted));
        c.trace.ops.push(OpRec { op: op.into(), att: c.trace.atts.len().max(1) - 1, ret, err, alert, proto, kept, out, closes, faults });
    }
    pub fn connect(&mut self) -> i32 {
        let r = match &mut self.remote {
            Some(r) => r.call(b'k'),
            None => mem::lib(|| unsafe { turtls_connect(self.conn) }),
        };
        self.record("connect", r);
        r
    }
    pub fn last(&self) -> OpRec {
        child().unwrap().trace.ops.last().unwrap().clone()
    }
    pub fn dry(&self) -> bool {
        child().unwrap().trace.atts.last().is_some_and(|a| a.dry > 0)
    }
    /// Connects again as long as only scripted transport failures interrupt it.
    pub fn connect_through(&mut self) -> i32 {
        self.connect_through_with(|_| ())
    }
    /// The same; `f` is called after each interruption.
    pub fn connect_through_with(&mut self, f: impl Fn(&mut Sess)) -> i32 {
        for _ in 0..200_000 {
            let before = child().unwrap().trace.atts.last().map_or(0, |a| a.faulted);
            let r = self.connect();
            let c = child().unwrap();
            let a = c.trace.atts.last().unwrap();
            if a.faulted == before || a.closes > 0 {
                return r;
            }
            f(self);
        }
        child().unwrap().trace.bad.push("no end of resuming".into());
        -1
    }
    pub fn query(&mut self) {
        self.record("query", 0);
    }
    pub fn close(&mut self) {
        match &mut self.remote {
            Some(r) => {
                r.call(b'x');
            }
            None => mem::lib(|| unsafe { turtls_close(self.conn) }),
        }
        self.record("close", 0);
    }
    pub fn close_null(&mut self) {
        match &mut self.remote {
            Some(r) => {
                r.call(b'X');
            }
            None => {
                let p = mem::lib(|| unsafe {
                    turtls_close(std::ptr::null_mut());
                    turtls_free(std::ptr::null_mut());
                    turtls_app_proto(null())
                });
                if !p.is_null() {
                    child().unwrap().trace.bad.push("a protocol for no connection".into());
                }
            }
        }
        self.record("close_null", 0);
    }
    /// Frees the object and makes a new one (so that the session can go on).
    pub fn free_new(&mut self) {
        match &mut self.remote {
            Some(r) => {
                r.call(b'f');
            }
            None => mem::lib(|| unsafe { turtls_free(self.conn) }),
        }
        let c = child().unwrap();
        let (out, closes, faults) = c.trace.atts.last().map_or((0, 0, 0), |a| (a.out.len(), a.closes, a.faulted));
        let att = c.trace.atts.len().max(1) - 1;
        c.trace.ops.push(OpRec { op: "free".into(), att, ret: 0, err: 0, alert: 0, proto: Hx(vec![]), kept: Hx(vec![]), out, closes, faults });
        c.net = None;
        if let Some(r) = &mut self.remote {
            return r.new_conn();
        }
        self.conn = mem::lib(|| turtls_new(TurtlsIo { write_fn, read_fn, close_fn, ctx: TOKEN as *mut c_void }));
        self.proto = unsafe { turtls_app_proto(self.conn) } as *const u8;
    }
    pub fn free(self) {
        mem::lib(|| unsafe { turtls_free(self.conn) });
        mem::lib(|| unsafe { turtls_free(std::ptr::null_mut()) });
    }
}

/// Runs a session in a child process. A death by signal is a failure; a panic
/// is part of the trace.
pub fn run(f: impl FnOnce(&mut Sess)) -> Result<Trace, Fail> {
    if let Some(t) = super::remote::mode() {
        return super::remote::run(t, f);
    }
    forked(|pipe| {
        set_child(new_child(pipe, false));
        let mut s = Sess::new();
        f(&mut s);
        s.free();
    })
}

/// Called at every call of a transport, before it does anything.
type Yield = fn();
thread_local! {
    static YIELD: Cell<Option<Yield>> = const { Cell::new(None) };
}
fn yield_now() {
    if let Some(f) = YIELD.with(|y| y.get()) {
        f();
    }
}
pub fn on_yield(f: Yield) {
    YIELD.with(|y| y.set(Some(f)));
}

/// One of several clients in a process, each with a transport and randomness of its own.
pub struct Actor {
    child: *mut Child,
    src: getrandom::Source,
    sess: Option<Sess>,
    pub busy: bool,
}
// SAFETY: an actor is only ever used by one thread at a time.
unsafe impl Send for Actor {}
impl Actor {
    fn new(pipe: i32) -> Actor {
        let mut a = Actor { child: new_child(pipe, false), src: Default::default(), sess: None, busy: false };
        let c = set_child(a.child);
        a.sess = Some(Sess::new());
        set_child(c);
        a
    }
    /// Makes calls on this client, whatever other client's call this is in.
    pub fn with<T>(&mut self, f: impl FnOnce(&mut Sess) -> T) -> T {
        self.busy = true;
        let c = set_child(self.child);
        getrandom::swap(&mut self.src);
        let r = f(self.sess.as_mut().unwrap());
        getrandom::swap(&mut self.src);
        set_child(c);
        self.busy = false;
        r
    }
    pub fn free(&mut self) {
        let s = self.sess.take().unwrap();
        let c = set_child(self.child);
        getrandom::swap(&mut self.src);
        draws(child().unwrap());
        s.free();
        getrandom::swap(&mut self.src);
        set_child(c);
    }
}
/// Runs `n` clients in one process of their own.
pub fn run_many(n: usize, f: impl FnOnce(&mut [Actor])) -> Result<Vec<Trace>, Fail> {
    let t = forked_all(|pipe| {
        let mut l: Vec<Actor> = (0..n).map(|_| Actor::new(pipe)).collect();
        f(&mut l);
        let v: Vec<&Trace> = l.iter().map(|a| unsafe { &(*a.child).trace }).collect();
        deliver(pipe, &v)
    })?;
    if t.len() != n || t.iter().any(|t| t.panic.is_some()) {
        return Err(Fail { sig: "panic".into(), msg: format!("one of {n} clients ended the process: {:?} {:?}", t[0].panic, t[0].bad) });
    }
    Ok(t)
}

fn forked(f: impl FnOnce(i32)) -> Result<Trace, Fail> {
    let t = forked_all(f)?.remove(0);
    if let Some(o) = t.ops.iter().find(|o| o.kept != o.proto) {
        let s = |b: &Hx| String::from_utf8_lossy(&b.0).into_owned();
        return Err(Fail { sig: "protocol-pointer".into(), msg: format!("after {}, the pointer first returned by turtls_app_proto points to {:?}, the latest to {:?}", o.op, s(&o.kept), s(&o.proto)) });
    }
    Ok(t)
}
fn forked_all(f: impl FnOnce(i32)) -> Result<Vec<Trace>, Fail> {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            let lim = libc::rlimit { rlim_cur: 30, rlim_max: 60 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &nocore);
            f(fds[1]);
            emit(child().unwrap());
        }
        libc::close(fds[1]);
        let mut buf = Vec::new();
        let mut chunk = [0u8; 65536];
        loop {
            let n = libc::read(fds[0], chunk.as_mut_ptr() as *mut _, chunk.len());
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGKILL {
                eprintln!("harness: session ended by SIGKILL (memory?)");
                libc::_exit(3);
            }
            let what = if sig == libc::SIGXCPU { "hang".to_string() } else { format!("crash-signal-{sig}") };
            return Err(Fail { sig: what, msg: format!("the client's process died with signal {sig}") });
        }
        let all: Vec<Trace> = match serde_json::from_slice(&buf) {
            Ok(t) => t,
            Err(e) => {
                return Err(Fail { sig: "exit".into(), msg: format!("the client ended the process with status {} ({e})", libc::WEXITSTATUS(st)) });
            }
        };
        for t in &all {
            if let Some((m, l)) = &t.panic {
                if l.starts_with("src/") {
                    eprintln!("harness: panic in the harness: {m} [{l}]");
                    libc::_exit(3);
                }
            }
            if let Some(b) = t.bad.first() {
                return Err(Fail { sig: "transport-use".into(), msg: b.clone() });
            }
        }
        Ok(all)
    }
}

/// A client that waits for more from the server, in this process. Every case
/// that goes on from here does so in a fork.
pub struct Zygote {
    child: *mut Child,
    sess: Sess,
    /// What the client wrote and what it was given.
    pub out: Vec<u8>,
    pub head: Vec<u8>,
}
impl Zygote {
    /// `head`: what the server sends first, which the client must want more after.
    pub fn new(cfg: &Cfg, seed: u64, head: impl Fn(&[u8], &mut Att) -> Vec<u8> + Clone + 'static) -> Result<Zygote, Fail> {
        let go = |s: &mut Sess| {
            s.configure(cfg);
            s.attempt(&Io::default(), seed, vec![], head.clone());
            s.connect();
        };
        // first where it can do no harm
        let t = run(go)?;
        if let Some(e) = &t.att().hello_err {
            return Err(Fail { sig: "hello".into(), msg: format!("no server could use the ClientHello: {e}") });
        }
        if t.end() != (End::Failed { err: WANT_READ, alert: t.ops[0].alert }) || t.att().closes > 0 {
            return Err(Fail { sig: "prefix".into(), msg: format!("after the start of a valid exchange: {:?}", t.end()) });
        }
        unsafe {
            assert!(child().is_none());
            set_child(new_child(-1, false));
            let mut sess = Sess::new();
            go(&mut sess);
            let child = set_child(std::ptr::null_mut());
            let head = (&(*child).net).as_ref().unwrap().input.clone().unwrap_or_default();
            let out = (&(*child).trace).atts[0].out.0.clone();
            Ok(Zygote { child, sess, out, head })
        }
    }
    /// Goes on with `input` after the head.
    pub fn run(&self, input: &[u8], io: &Io, keys: Option<Keys>, f: impl FnOnce(&mut Sess)) -> Result<Trace, Fail> {
        forked(|pipe| {
            // SAFETY: the copy in this process is used only here.
            let (c, mut s) = unsafe {
                set_child(self.child);
                (&mut *self.child, std::ptr::read(&self.sess))
            };
            c.pipe = pipe;
            let n = c.net.as_mut().unwrap();
            n.io = io.clone();
            n.input.as_mut().unwrap().extend_from_slice(input);
            n.limit += 4 * input.len() as u64;
            let a = c.trace.atts.last_mut().unwrap();
            a.dry = 0;
            a.keys = keys;
            c.trace.ops.clear();
            f(&mut s);
            s.free();
        })
    }
}

/// How a connection attempt ended.
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// The certificate message was accepted (what follows is not implemented
    /// by the client, which says so by a panic).
    Passed,
    Panic(String),
    Failed { err: i32, alert: i32 },
    Connected,
}
impl Trace {
    pub fn end(&self) -> End {
        if let Some((m, l)) = &self.panic {
            if m == "not yet implemented: validate certificates" {
                return End::Passed;
            }
            return End::Panic(format!("{m} [{l}]"));
        }
        match self.ops.iter().rev().find(|o| o.op == "connect") {
            Some(o) if o.ret == -1 => End::Failed { err: o.err, alert: o.alert },
            Some(o) if o.ret == 1 => End::Connected,
            Some(o) => End::Panic(format!("turtls_connect returned {}", o.ret)),
            None => End::Panic("no connect".into()),
        }
    }
    pub fn att(&self) -> &Att {
        self.atts.last().expect("an attempt")
    }
}
