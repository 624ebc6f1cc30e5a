//! C11, C12: operations that execute the same instructions whatever the values.
use crate::fw::*;
use crate::gens::*;
use crate::refs::aead::{chachapoly_seal, gcm_seal};
use crate::refs::nat::Nat;
use crate::{ensure, ensure_eq};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub const C11: Prop = Prop {
    id: "C11",
    rule: "a case is an operation and two sets of operands; non-trivial if the sets differ and the operation executed more than the bare call",
    assumptions: &["the release profile of the installed compiler", "two executions are alike if the same instructions are executed in the same order; which memory they access, and how long an instruction takes, is not observed"],
    run: c11,
};
pub const C12: Prop = Prop {
    id: "C12",
    rule: "a case is an operation, a message length and two sets of keys and contents of that length (or two tags that are both wrong); non-trivial if the sets differ",
    assumptions: &["the release profile of the installed compiler", "two executions are alike if the same instructions are executed in the same order; which memory they access is not observed"],
    run: c12,
};

struct Ct {
    owner: u32,
    proc: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
    ops: Vec<String>,
}
impl Ct {
    fn new() -> Ct {
        let exe = exe();
        let mut proc = Command::new(&exe).stderr(Stdio::null()).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("ct");
        let stdin = proc.stdin.take().unwrap();
        let stdout = BufReader::new(proc.stdout.take().unwrap());
        let mut c = Ct { owner: std::process::id(), proc, stdin, stdout, ops: vec![] };
        c.ops = c.ask("list").expect("ct").split(';').map(|s| s.to_string()).collect();
        c
    }
    fn ask(&mut self, q: &str) -> Option<String> {
        let mut l = String::new();
        writeln!(self.stdin, "{q}").ok()?;
        self.stdin.flush().ok()?;
        let n = self.stdout.read_line(&mut l).ok()?;
        (n > 0).then(|| l.trim_end().to_string())
    }
}
thread_local! {
    static CT: RefCell<Option<Ct>> = const { RefCell::new(None) };
}
fn exe() -> PathBuf {
    crate::tls::remote::dir().parent().unwrap().join("ct/release/ct")
}
/// Answers to requests, from a program of this process's own. None: the operation ended it.
fn ask(q: &str) -> Option<String> {
    CT.with(|c| {
        let mut c = c.borrow_mut();
        if c.as_ref().is_none_or(|c| c.owner != std::process::id()) {
            *c = Some(Ct::new());
        }
        let r = c.as_mut().unwrap().ask(q);
        if r.is_none() {
            let mut c = c.take().unwrap();
            let _ = c.proc.kill();
            let _ = c.proc.wait();
        }
        r
    })
}
fn ops() -> Vec<String> {
    ask("list");
    CT.with(|c| c.borrow().as_ref().unwrap().ops.clone())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Arg {
    a: Vec<u64>,
    b: Vec<u64>,
    d: u64,
    /// The flag, and the signs of signed operands.
    f: [bool; 3],
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// Width and name.
    op: String,
    x: Arg,
    y: Arg,
}

fn index(op: &str) -> usize {
    ops().iter().position(|o| o == op).expect("operation")
}
fn hex(l: &[u64]) -> String {
    l.iter().map(|v| format!(" {v:x}")).collect()
}
fn request(op: &str, x: &Arg) -> String {
    let n: usize = op.split(' ').next().unwrap().parse().unwrap();
    let m = match op {
        _ if op.contains("p256 order") => Some(crate::refs::p256::N),
        _ if op.contains("p256") => Some(crate::refs::p256::P),
        _ if op.contains("2^192-237") => Some([u64::MAX - 236, u64::MAX, u64::MAX, 0]),
        _ if op.contains("2^191-19") => Some([u64::MAX - 18, u64::MAX, u64::MAX >> 1, 0]),
        _ => None,
    };
    let put = |v: &[u64]| {
        let mut v = v.to_vec();
        v.truncate(n);
        if let Some(m) = &m {
            v = Nat::from_limbs(&v).rem(&Nat::from_limbs(m)).limbs(n);
        }
        v.resize(8, 0);
        v
    };
    let mut a = put(&x.a);
    if op.ends_with("left_align") && a.iter().all(|v| *v == 0) {
        // there it panics
        a[0] = 1;
    }
    let flags = x.f.iter().enumerate().map(|(i, f)| (*f as u8) << i).sum::<u8>();
    format!("{:x} {flags:x} {:x}{}{}", index(op), x.d, hex(&a), hex(&put(&x.b)))
}

fn compare(op: &str, x: &str, y: &str, obs: &mut Obs) -> Res {
    let run = |q: &str| ask(q).ok_or_else(|| Fail { sig: "died".into(), msg: format!("{op} ended its process") });
    let (rx, ry) = (run(x)?, run(y)?);
    let cut = |r: &str| r.split(' ').take(2).map(|s| s.to_string()).collect::<Vec<_>>();
    if x == y {
        obs.trivial();
    }
    if cut(&rx) == cut(&ry) {
        return Ok(());
    }
    // What is done only the first time does not count.
    let (rx, ry) = (run(x)?, run(y)?);
    if cut(&rx) != cut(&ry) {
        ensure!(cut(&run(x)?) == cut(&rx) && cut(&run(y)?) == cut(&ry), "unsteady", "{op} executes different instructions with the same operands");
        let (tx, ty) = (run(&format!("+{x}"))?, run(&format!("+{y}"))?);
        let (tx, ty): (Vec<&str>, Vec<&str>) = (tx.split(' ').collect(), ty.split(' ').collect());
        let at = tx.iter().zip(&ty).position(|(a, b)| a != b).unwrap_or(tx.len().min(ty.len()));
        return fail("instructions", format!("{op} executes {} instructions with one set of operands and {} with the other; they part after {at}", tx.len(), ty.len()));
    }
    Ok(())
}

fn check11(c: &Case, obs: &mut Obs) -> Res {
    let (x, y) = (request(&c.op, &c.x), request(&c.op, &c.y));
    obs.label(c.op.split(' ').skip(1).collect::<Vec<_>>().join(" "));
    if c.op.ends_with("len") {
        obs.trivial();
    }
    compare(&c.op, &x, &y, obs)
}

fn arg() -> impl Strategy<Value = Arg> + Clone {
    let same = (limbs(8), -2i64..=2).prop_map(|(a, d)| {
        let mut b = a.clone();
        add_small(&mut b, d);
        (a, b)
    });
    // alike in the low limbs, or in the high ones
    let part = (limbs(8), limbs(8), 0..=8usize, any::<bool>()).prop_map(|(a, mut b, k, low)| {
        if low {
            b[..k].copy_from_slice(&a[..k]);
        } else {
            b[k..].copy_from_slice(&a[k..]);
        }
        (a, b)
    });
    let ab = prop_oneof![4 => (limbs(8), limbs(8)), 1 => same, 2 => part];
    let d = prop_oneof![2 => Just(0u64), 2 => 0..64u64, 2 => limb(), 1 => any::<u64>()];
    (ab, d, any::<[bool; 3]>()).prop_map(|((a, b), d, f)| Arg { a, b, d, f })
}
fn two() -> impl Strategy<Value = (Arg, Arg)> + Clone {
    // from everything different to a single thing
    (arg(), arg(), prop_oneof![3 => Just(15u8), 2 => 1..15u8]).prop_map(|(x, mut y, k)| {
        if k & 1 == 0 {
            y.a = x.a.clone();
        }
        if k & 2 == 0 {
            y.b = x.b.clone();
        }
        if k & 4 == 0 {
            y.d = x.d;
        }
        if k & 8 == 0 {
            y.f = x.f;
        }
        (x, y)
    })
}

fn c11(run: &mut Run) {
    let arithmetic: Vec<String> = ops().into_iter().filter(|o| !o.starts_with("0 ")).collect();
    // every operation and width with values at the ends
    let ends = |k: usize| {
        let v = |k: usize| match k % 5 {
            0 => vec![0; 8],
            1 => vec![u64::MAX; 8],
            2 => vec![1, 0, 0, 0, 0, 0, 0, 0],
            3 => vec![0, 0, 0, 0, 0, 0, 0, 1 << 63],
            _ => vec![0x0123_4567_89ab_cdef; 8],
        };
        Arg { a: v(k), b: v(k / 5), d: [0, 1, 63, u64::MAX, 64][k % 5], f: [k & 1 == 1, k & 2 == 2, k & 4 == 4] }
    };
    let mut cases = vec![];
    for op in &arithmetic {
        for k in 1..25 {
            cases.push(Case { op: op.clone(), x: ends(0), y: ends(k) });
        }
    }
    run.all("ends", cases, check11);
    run.gen("operations", 90_000, 3_000_000, (proptest::sample::select(arithmetic), two()).prop_map(|(op, (x, y))| Case { op, x, y }), check11);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Msg {
    op: String,
    /// Key; nonce, associated data and tag; message.
    x: [Hx; 3],
    y: [Hx; 3],
}
fn check12(c: &Msg, obs: &mut Obs) -> Res {
    obs.label(c.op[2..].to_string());
    ensure_eq!(c.x[2].len(), c.y[2].len(), "length");
    let words = |v: &[u8], n: usize| {
        let mut v = v.to_vec();
        v.resize(8 * n, 0);
        hex(&v.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect::<Vec<_>>())
    };
    let q = |v: &[Hx; 3]| format!("{:x} 0 0{}{} {:x}{}", index(&c.op), words(&v[0], 8), words(&v[1], 8), v[2].len(), words(&v[2], 32));
    compare(&c.op, &q(&c.x), &q(&c.y), obs)
}
fn c12(run: &mut Run) {
    let (forged, plain): (Vec<String>, Vec<String>) = ops().into_iter().filter(|o| o.starts_with("0 ")).partition(|o| o.ends_with("forged"));
    let len = || prop_oneof![3 => 0..=256usize, 1 => prop::sample::select(vec![0usize, 1, 15, 16, 17, 32, 55, 56, 63, 64, 65, 111, 112, 119, 127, 128, 129, 255, 256])];
    let content = |n: usize| prop_oneof![4 => vec(any::<u8>(), n), 1 => any::<u8>().prop_map(move |b| vec![b; n]), 1 => Just(vec![0; n]), 1 => Just(vec![0xff; n])];
    let set = move |n: usize| (content(64), content(64), content(n)).prop_map(|(a, b, m)| [Hx(a), Hx(b), Hx(m)]);
    run.gen(
        "contents",
        900,
        60_000,
        (proptest::sample::select(plain), len().prop_flat_map(move |n| (set(n), set(n), 0..8u8))).prop_map(|(op, (x, mut y, keep))| {
            for i in 0..3 {
                if keep == 1 << i {
                    y[i] = x[i].clone();
                }
            }
            Msg { op, x, y }
        }),
        check12,
    );
    // where a wrong tag differs from the right one does not show
    run.gen(
        "forged-tags",
        400,
        20_000,
        (proptest::sample::select(forged), (0..=40usize).prop_flat_map(set), diff(), diff()).prop_map(|(op, x, d, e)| {
            let with = |d: [u8; 16]| {
                let mut x = x.clone();
                let (key, nonce) = (&x[0].0[..], x[1].0[..12].try_into().unwrap());
                // the tag the text, taken for a ciphertext, would need
                let right = match &op {
                    _ if op.contains("AES-128") => gcm_open_tag(&key[..16], nonce, &x[1].0[12..45], &x[2].0),
                    _ if op.contains("AES-256") => gcm_open_tag(&key[..32], nonce, &x[1].0[12..45], &x[2].0),
                    _ => chachapoly_open_tag(key[..32].try_into().unwrap(), nonce, &x[1].0[12..45], &x[2].0),
                };
                for i in 0..16 {
                    x[1].0[48 + i] = right[i] ^ d[i];
                }
                x
            };
            Msg { op: op.clone(), x: with(d), y: with(e) }
        }),
        check12,
    );
}
/// What a wrong tag is wrong in: one byte, the bytes from one on, or any.
fn diff() -> impl Strategy<Value = [u8; 16]> + Clone {
    (0..16usize, 1..=255u8, 0..3u8, any::<[u8; 16]>()).prop_map(|(i, d, kind, r)| {
        let mut t = [0; 16];
        match kind {
            0 => t[i] = d,
            1 => t[i..].fill(d),
            _ => {
                t = r;
                t[i] |= 1;
            }
        }
        t
    })
}
/// Sealing is its own inverse but for the tag.
fn gcm_open_tag(key: &[u8], nonce: &[u8; 12], ad: &[u8], ct: &[u8]) -> [u8; 16] {
    let (pt, _) = gcm_seal(key, nonce, ad, ct);
    gcm_seal(key, nonce, ad, &pt).1
}
fn chachapoly_open_tag(key: &[u8; 32], nonce: &[u8; 12], ad: &[u8], ct: &[u8]) -> [u8; 16] {
    let (pt, _) = chachapoly_seal(key, nonce, ad, ct);
    chachapoly_seal(key, nonce, ad, &pt).1
}
