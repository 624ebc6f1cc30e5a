//! Runs a session with the library as it is shipped: `cdriver/driver.c`, a
//! program compiled against `include/turtls.h` and linked with `libturtls.so`,
//! makes the calls and hands its transport's calls back.
use super::sess::*;
use crate::fw::Fail;
use crate::gens::Hx;
use std::cell::{Cell, RefCell};
use std::io::{Read, Seek, Write};
use std::os::fd::{FromRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Child as Proc, Command, Stdio};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Native,
    /// Under valgrind's memcheck.
    Memcheck,
}
thread_local! {
    static MODE: Cell<Option<Mode>> = const { Cell::new(None) };
    static DIR: RefCell<PathBuf> = RefCell::new(PathBuf::new());
}
pub fn mode() -> Option<Mode> {
    MODE.with(|m| m.get())
}
/// `dir`: where the driver and the library are.
pub fn set_dir(dir: PathBuf) {
    DIR.with(|d| *d.borrow_mut() = dir);
}
pub fn dir() -> PathBuf {
    DIR.with(|d| d.borrow().clone())
}
/// Within `f`, sessions run with the shipped library.
pub fn with<T>(m: Mode, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            MODE.with(|c| c.set(None));
        }
    }
    MODE.with(|c| c.set(Some(m)));
    let _r = Reset;
    f()
}

/// What unwinds out of a session whose program has ended.
struct Ended;
pub fn ended() -> ! {
    std::panic::resume_unwind(Box::new(Ended))
}

pub struct Remote {
    sock: UnixStream,
    proc: Proc,
    err: std::fs::File,
    log: Option<std::fs::File>,
}

fn memfd() -> std::fs::File {
    unsafe {
        let fd = libc::memfd_create(c"log".as_ptr(), 0);
        assert!(fd >= 0, "memfd_create");
        std::fs::File::from_raw_fd(fd)
    }
}
fn text(f: &mut std::fs::File) -> String {
    let mut v = vec![];
    f.rewind().unwrap();
    f.read_to_end(&mut v).unwrap();
    String::from_utf8_lossy(&v).into_owned()
}

impl Remote {
    fn spawn(m: Mode) -> Remote {
        let (sock, theirs) = UnixStream::pair().expect("socketpair");
        let driver = dir().join("driver");
        let err = memfd();
        let log = (m == Mode::Memcheck).then(memfd);
        let mut c = match &log {
            None => Command::new(driver),
            Some(l) => {
                use std::os::fd::AsRawFd;
                let mut c = Command::new("valgrind");
                // the descriptor is inherited
                c.arg("-q").arg("--leak-check=full").arg("--show-leak-kinds=definite,indirect").arg("--errors-for-leak-kinds=definite,indirect").arg(format!("--log-fd={}", l.as_raw_fd())).arg(driver);
                c
            }
        };
        let proc = c.stdin(Stdio::from(OwnedFd::from(theirs))).stdout(Stdio::null()).stderr(Stdio::from(err.try_clone().unwrap())).spawn();
        let proc = match proc {
            Ok(p) => p,
            Err(e) => {
                eprintln!("harness: cannot start the driver: {e}");
                unsafe { libc::_exit(3) }
            }
        };
        drop(c);
        Remote { sock, proc, err, log }
    }
    fn send(&mut self, b: &[u8]) {
        // if it is dead, reading will say so
        let _ = self.sock.write_all(b);
    }
    fn recv(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        if self.sock.read_exact(&mut v).is_err() {
            ended();
        }
        v
    }
    /// Serves the transport until the call returns.
    fn serve(&mut self) -> Vec<u8> {
        loop {
            let h = self.recv(5);
            let n = u32::from_le_bytes(h[1..].try_into().unwrap()) as usize;
            let b = self.recv(n);
            let c = child().unwrap();
            match h[0] {
                b'W' => {
                    let r = net_write(c, &b) as i32;
                    self.send(&r.to_le_bytes());
                }
                b'R' => match net_read(c, u64::from_le_bytes(b.try_into().unwrap()) as usize) {
                    Err(v) => self.send(&(v as i32).to_le_bytes()),
                    Ok((at, n)) => {
                        let v = [&(n as u32).to_le_bytes()[..], net_input(c, at, n)].concat();
                        self.send(&v);
                    }
                },
                b'C' => net_close(c),
                b'B' => c.trace.bad.push(format!("callback: {}", String::from_utf8_lossy(&b))),
                b'r' | b'q' | b's' => return b,
                t => panic!("driver message {t}"),
            }
        }
    }
    pub fn call(&mut self, op: u8) -> i32 {
        self.send(&[op]);
        i32::from_le_bytes(self.serve()[..4].try_into().unwrap())
    }
    pub fn new_conn(&mut self) {
        if self.call(b'n') != 1 {
            child().unwrap().trace.bad.push("turtls_new returned null".into());
        }
    }
    pub fn configure(&mut self, c: &Cfg) {
        let list = c.proto_list();
        let name = c.name.clone().unwrap_or_default();
        let mut v = vec![b'c'];
        for x in [c.name.is_some() as u32, c.protos.is_some() as u32, (c.sig & 1) as u32, (c.grp & 1) as u32, (c.suites & 3) as u32, c.stray as u32] {
            v.extend(x.to_le_bytes());
        }
        for s in [&name.0, &list] {
            v.extend((s.len() as u32).to_le_bytes());
            v.extend_from_slice(s);
        }
        self.send(&v);
        self.serve();
    }
    pub fn query(&mut self) -> (i32, i32, Hx) {
        self.send(b"q");
        let v = self.serve();
        let i = |n: usize| i32::from_le_bytes(v[n..n + 4].try_into().unwrap());
        (i(0), i(4), Hx(v[8..].to_vec()))
    }
    pub fn text(&mut self, code: u32) -> Vec<u8> {
        let mut v = vec![b's'];
        v.extend(code.to_le_bytes());
        self.send(&v);
        self.serve()
    }
    /// Everything in the header that has a value.
    pub fn values(&mut self) -> Vec<u8> {
        self.send(b"l");
        self.serve()
    }
    /// Waits for the end: how it came, and what memcheck has to say.
    fn finish(mut self, t: &mut Trace, done: bool) -> Result<(), Fail> {
        drop(self.sock);
        let st = self.proc.wait().expect("wait");
        let err = text(&mut self.err);
        if let Some(l) = &mut self.log {
            let l = text(l);
            let bad: Vec<&str> = l.lines().filter(|l| ["Invalid ", "ninitialised", "Mismatched", "overlap", "Jump to"].iter().any(|w| l.contains(w)) || (done && l.contains("definitely lost in"))).collect();
            if !bad.is_empty() {
                return Err(Fail { sig: "memcheck".into(), msg: format!("memcheck: {}\n{l}", bad[0].split("== ").last().unwrap_or("")) });
            }
        }
        if done && st.success() {
            return Ok(());
        }
        match st.signal() {
            Some(libc::SIGABRT) if err.contains("panicked at ") => {
                // the first panic counts
                let at = err.split("panicked at ").nth(1).unwrap();
                let mut l = at.lines();
                let loc = l.next().unwrap_or("").trim_end_matches(':').to_string();
                t.panic = Some((l.next().unwrap_or("").to_string(), format!("library {loc}")));
                Ok(())
            }
            Some(libc::SIGXCPU) => Err(Fail { sig: "hang".into(), msg: "the program did not end".into() }),
            Some(libc::SIGKILL) => {
                eprintln!("harness: driver ended by SIGKILL (memory?)");
                unsafe { libc::_exit(3) }
            }
            Some(s) => Err(Fail { sig: format!("crash-signal-{s}"), msg: format!("the program died with signal {s}: {err}") }),
            // the session was given up, not the program
            None if !t.bad.is_empty() => Ok(()),
            None => Err(Fail { sig: "exit".into(), msg: format!("the program ended with status {:?}: {err}", st.code()) }),
        }
    }
}

/// As `sess::run`, with the shipped library.
pub fn run(m: Mode, f: impl FnOnce(&mut Sess)) -> Result<Trace, Fail> {
    let mut s = Sess::new_remote(Remote::spawn(m));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        f(&mut s);
        let r = s.remote_mut();
        r.call(b'f');
        r.call(b'F');
        r.call(b'e');
    }));
    let done = r.is_ok();
    s.note_draws();
    let mut t = Sess::take_trace();
    let end = s.take_remote().finish(&mut t, done);
    if let Err(p) = r {
        if !p.is::<Ended>() {
            std::panic::resume_unwind(p);
        }
    }
    end?;
    if let Some(b) = t.bad.first() {
        return Err(Fail { sig: "transport-use".into(), msg: b.clone() });
    }
    Ok(t)
}
