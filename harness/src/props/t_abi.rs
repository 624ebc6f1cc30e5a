//! T14: the library as it is shipped: the C header and the shared library.
use super::{t_hello, t_hist, t_policy};
use crate::fw::{fail, Obs, Prop, Res, Run};
use crate::gens::*;
use crate::tls::model::CODES;
use crate::tls::plan::*;
use crate::tls::remote::{dir, with, Mode};
use crate::tls::sess::*;
use crate::tls::wire::*;
use crate::{ensure, ensure_eq};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::process::Command;

pub const T14: Prop = Prop {
    id: "T14",
    rule: "a case is non-trivial if it went through a C program compiled against include/turtls.h and linked with libturtls.so, and something differs from the default configuration or is sent by the server",
    assumptions: &["the C compiler is gcc or clang for the platform the library is built for", "randomness is the system's: replays differ in it"],
    run: t14,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Compile {
    compiler: String,
    args: Vec<String>,
    /// C++ source, else the driver.
    plus: bool,
}
const PLUS: &str = r#"
#include "turtls.h"
#include "turtls.h"
static ptrdiff_t w(const void *, size_t, const void *) { return -1; }
static ptrdiff_t r(void *, size_t, const void *) { return -1; }
static void c(const void *) {}
int main() {
    TurtlsIo io = { w, r, c, nullptr };
    TurtlsConn *t = turtls_new(io);
    TurtlsConfig *g = turtls_get_config(t);
    g->extensions.sig_algs = TURTLS_ECDSA_SECP256R1;
    g->extensions.sup_groups = TURTLS_SECP256R1;
    g->cipher_suites = TurtlsCipherList_TURTLS_AES_128_GCM_SHA256 | TurtlsCipherList_TURTLS_CHA_CHA_POLY1305_SHA256;
    const char *p = turtls_app_proto(t);
    TurtlsError e = turtls_get_error(t);
    TurtlsAlert a = turtls_get_tls_error(t);
    const char *s = turtls_stringify_alert(a);
    bool ok = *p == 0 && *s != 0 && e == TURTLS_ERROR_TLS;
    turtls_close(t);
    turtls_free(t);
    return ok ? 0 : 1;
}
"#;
/// The header by itself, and a program that refers to everything in it.
fn compile(c: &Compile, obs: &mut Obs) -> Res {
    obs.label(format!("{} {}", c.compiler, c.args.join(" ")));
    let d = dir();
    let root = d.parent().unwrap().parent().unwrap().to_path_buf();
    let exe = d.join(format!("try-{}", std::process::id()));
    let src = exe.with_extension("cc");
    let mut k = Command::new(&c.compiler);
    k.args(&c.args).args(["-Wall", "-Wextra", "-Werror", "-D_GNU_SOURCE", "-I/repo/include"]);
    if c.plus {
        std::fs::write(&src, PLUS).unwrap();
        k.arg(&src);
    } else {
        k.arg(root.join("cdriver/driver.c"));
    }
    k.arg("-L").arg(d.join("release")).arg("-lturtls").arg(format!("-Wl,-rpath,{}", d.join("release").display())).arg("-o").arg(&exe);
    let o = match k.output() {
        Ok(o) => o,
        Err(e) => {
            eprintln!("harness: cannot start {}: {e}", c.compiler);
            unsafe { libc::_exit(3) }
        }
    };
    let run = if o.status.success() && c.plus { Some(Command::new(&exe).status().expect("run")) } else { None };
    let _ = std::fs::remove_file(&exe);
    let _ = std::fs::remove_file(&src);
    ensure!(o.status.success(), "compile", "a program that uses the header and the library does not build: {}", String::from_utf8_lossy(&o.stderr));
    ensure!(run.is_none_or(|r| r.success()), "plus-run", "a C++ program that queries a new object ended with {run:?}");
    Ok(())
}

/// Without a driver, the part "header" has something to report.
fn native(obs: &mut Obs, f: impl FnOnce(&mut Obs) -> Res) -> Res {
    if !dir().join("driver").exists() {
        obs.trivial();
        return Ok(());
    }
    with(Mode::Native, || f(obs))
}

fn valid(p: &Plan, obs: &mut Obs) -> Res {
    native(obs, |obs| {
        let t = once_plan(p)?;
        obs.label(if t.att().keys.as_ref().is_some_and(|k| k.suite == crate::tls::server::AES) { "AES" } else { "ChaCha20" });
        expect_passed(&t)
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text(u8);
fn text(c: &Text, obs: &mut Obs) -> Res {
    native(obs, |_| {
        let code = c.0 as u32;
        let mut got = vec![];
        run(|s| got = s.remote_text(code))?;
        // SAFETY: the code is one of the enumeration.
        let p = turtls::turtls_stringify_alert(unsafe { std::mem::transmute::<i32, turtls::TurtlsAlert>(code as i32) });
        let want = unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes();
        ensure!(got == want, "text", "the text for alert {code} by its name in the header is {:?}, by its code {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(want));
        Ok(())
    })
}

/// A name in the header, and what the library means by it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Value {
    name: String,
    value: i64,
}
fn values() -> Vec<Value> {
    use std::mem::{offset_of, size_of};
    use turtls::{TurtlsAlert, TurtlsCipherList, TurtlsConfig, TurtlsError, TurtlsExts, TurtlsIo};
    macro_rules! offsets { ($($t:ident: $($f:ident)*;)*) => { vec![$($((concat!(stringify!($t), ".", stringify!($f)).to_string(), offset_of!($t, $f) as i64),)* (concat!("size ", stringify!($t)).to_string(), size_of::<$t>() as i64),)*] } }
    let mut l = offsets! {
        TurtlsIo: write_fn read_fn close_fn ctx;
        TurtlsExts: server_name sig_algs sup_groups app_protos app_protos_len;
        TurtlsConfig: extensions cipher_suites;
        TurtlsError: ;
        TurtlsAlert: ;
        TurtlsCipherList: ;
    };
    for (n, v) in [
        ("TURTLS_ERROR_TLS", TurtlsError::Tls as i64),
        ("TURTLS_ERROR_TLS_PEER", TurtlsError::TlsPeer as i64),
        ("TURTLS_ERROR_RNG", TurtlsError::Rng as i64),
        ("TURTLS_ERROR_WANT_READ", TurtlsError::WantRead as i64),
        ("TURTLS_ERROR_WANT_WRITE", TurtlsError::WantWrite as i64),
        ("TURTLS_ERROR_PRIV_KEY_IS_ZERO", TurtlsError::PrivKeyIsZero as i64),
        ("TURTLS_ERROR_MISSING_EXTENSIONS", TurtlsError::MissingExtensions as i64),
        ("TurtlsCipherList_TURTLS_CHA_CHA_POLY1305_SHA256", TurtlsCipherList::TURTLS_CHA_CHA_POLY1305_SHA256 as i64),
        ("TurtlsCipherList_TURTLS_AES_128_GCM_SHA256", TurtlsCipherList::TURTLS_AES_128_GCM_SHA256 as i64),
    ] {
        l.push((n.to_string(), v));
    }
    // alerts come from the wire
    l.extend(CODES.map(|c| (format!("alert {c}"), c as i64)));
    l.into_iter().map(|(name, value)| Value { name, value }).collect()
}
fn value(c: &Value, obs: &mut Obs) -> Res {
    native(obs, |_| {
        let mut got = vec![];
        run(|s| got = s.remote_values())?;
        let got = String::from_utf8_lossy(&got).into_owned();
        let Some(v) = got.lines().find_map(|l| l.split_once('=').filter(|l| l.0 == c.name)) else {
            panic!("the driver does not say what {} is", c.name);
        };
        ensure!(v.1 == c.value.to_string(), "value", "{} is {} in the header and {} in the library", c.name, v.1, c.value);
        Ok(())
    })
}

/// Several attempts on several objects in one process: nothing random repeats.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fresh {
    cfg: Cfg,
    /// Whether the next attempt is on a new object.
    news: Vec<bool>,
}
fn fresh(c: &Fresh, obs: &mut Obs) -> Res {
    native(obs, |_| {
        let mut all = HashSet::new();
        let mut n = 0;
        // two processes
        for _ in 0..2 {
            let c = c.clone();
            let t = run(move |s| {
                s.configure(&c.cfg);
                for new in &c.news {
                    if *new {
                        s.free_new();
                        s.configure(&c.cfg);
                    }
                    s.attempt(&Io::default(), 0, vec![], |_, _| vec![]);
                    s.connect();
                    s.close();
                }
            })?;
            for a in &t.atts {
                let w = match written(&a.out) {
                    Ok(w) => w,
                    Err(e) => return fail("malformed", e),
                };
                let h = match client_hello(&w.hello) {
                    Ok(h) => h,
                    Err(e) => return fail("malformed", e),
                };
                let mut vals = vec![h.random.to_vec()];
                for s in h.key_shares().unwrap_or_default() {
                    vals.push(s.1);
                }
                ensure_eq!(vals.len(), 2, "key-shares");
                for v in vals {
                    ensure!(v.windows(8).all(|w| w != [0; 8]), "zeros", "eight zero bytes in {}", hexs(&v));
                    n += 1;
                    all.insert(v);
                }
            }
        }
        ensure!(all.len() == n, "repeated", "of {n} random values only {} differ", all.len());
        Ok(())
    })
}

fn small(mut p: Plan) -> Plan {
    p.frame.pads.iter_mut().for_each(|x| *x %= 600);
    p.cfg = known(p.cfg);
    p
}
/// Nothing that has no name in the header.
fn known(mut c: Cfg) -> Cfg {
    c.sig &= 1;
    c.grp &= 1;
    c.suites &= 3;
    c
}

fn t14(run: &mut Run) {
    let mut items = vec![];
    for (compiler, args, plus) in [
        ("gcc", vec!["-std=c99", "-pedantic"], false),
        ("gcc", vec!["-std=c11", "-pedantic", "-O2"], false),
        ("gcc", vec!["-std=gnu17"], false),
        ("clang", vec!["-std=c99", "-pedantic"], false),
        ("clang", vec!["-std=c17", "-pedantic"], false),
        ("g++", vec!["-std=c++11", "-pedantic"], true),
        ("g++", vec!["-std=c++20"], true),
        ("clang++", vec!["-std=c++17", "-pedantic"], true),
    ] {
        items.push(Compile { compiler: compiler.into(), args: args.into_iter().map(String::from).collect(), plus });
    }
    run.all("header", items, compile);
    run.all("values", values(), value);
    run.all("texts", CODES.map(Text), text);
    run.gen("configurations", 1_200, 60_000, t_hello::case01().prop_map(|mut c| { c.cfg = known(c.cfg.clone()); c }), |c, obs| native(obs, |obs| t_hello::check01(c, obs)));
    run.gen("exchanges", 800, 60_000, plan().prop_map(small), valid);
    run.gen("errors", 1_600, 100_000, t_hist::err9(), |c, obs| native(obs, |obs| t_hist::check09(c, obs)));
    run.all("alerts", t_hist::alerts9(if run.thorough { &[1, 2, 255] } else { &[2] }, false), |c, obs| native(obs, |obs| t_hist::check09(c, obs)));
    run.gen("protocols", 800, 60_000, t_policy::nego(), |c, obs| native(obs, |obs| t_policy::check10(c, obs)));
    run.gen("operations", 800, 60_000, t_hist::ops12(), |c, obs| native(obs, |obs| t_hist::check12(c, obs)));
    run.gen("randomness", 60, 3_000, (cfg(), vec(any::<bool>(), 2..12)).prop_map(|(cfg, news)| Fresh { cfg, news }), fresh);
}
