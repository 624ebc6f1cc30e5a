#![allow(static_mut_refs)]
//! ct: executes an operation of crylib instruction by instruction.
//!
//! Requests on standard input, one per line: `op flags digit a... b...`,
//! for the operations on messages `length message...` (all hexadecimal); or `list`. The answer is the number of instructions
//! executed and a hash of their addresses; with an op preceded by `+`, all of
//! the addresses.
use crylib::big_int::{BigInt, UBigInt};
use crylib::finite_field::{FieldElement, FiniteField};
use std::hint::black_box;
use std::io::{BufRead, Write};

const CAP: usize = 1 << 20;
static mut N: usize = 0;
static mut HASH: u64 = 0;
static mut LOG: Vec<usize> = vec![];

extern "C" fn step(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let u = ctx as *const libc::ucontext_t;
        let ip = (*u).uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        HASH = (HASH ^ ip as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
        if N < LOG.capacity() {
            *LOG.as_mut_ptr().add(N) = ip;
        }
        N += 1;
    }
}

#[derive(Clone)]
#[repr(C)]
pub struct In {
    a: [u64; 8],
    b: [u64; 8],
    d: u64,
    f: bool,
    /// signs of signed operands
    na: bool,
    nb: bool,
    /// the signed operands
    sa: [u64; 9],
    sb: [u64; 9],
    m: [u8; 256],
    len: usize,
}
impl In {
    fn msg(&self) -> &[u8] {
        &self.m[..self.len]
    }
}
type Out = [u64; 24];
type Op = (&'static str, usize, fn(&In, &mut Out), fn(&mut In));

fn u<const N: usize>(x: &[u64; 8]) -> UBigInt<N> {
    let mut r = UBigInt::ZERO;
    r.0.copy_from_slice(&x[..N]);
    r
}
/// Where a result goes.
trait Put {
    fn put(&self, o: &mut Out);
}
impl<const N: usize> Put for UBigInt<N> {
    #[inline(always)]
    fn put(&self, o: &mut Out) {
        o[..N].copy_from_slice(&self.0)
    }
}
impl<const N: usize> Put for BigInt<N> {
    #[inline(always)]
    fn put(&self, o: &mut Out) {
        unsafe { std::ptr::write(o.as_mut_ptr() as *mut Self, *self) }
    }
}
impl<const N: usize> Put for (UBigInt<N>, bool) {
    #[inline(always)]
    fn put(&self, o: &mut Out) {
        self.0.put(o);
        o[23] = self.1 as u64
    }
}
impl<const N: usize> Put for (UBigInt<N>, u64) {
    #[inline(always)]
    fn put(&self, o: &mut Out) {
        self.0.put(o);
        o[23] = self.1
    }
}
impl Put for usize {
    #[inline(always)]
    fn put(&self, o: &mut Out) {
        o[0] = *self as u64
    }
}
impl Put for bool {
    #[inline(always)]
    fn put(&self, o: &mut Out) {
        o[0] = *self as u64
    }
}
impl<const N: usize, F: FiniteField<N>> Put for FieldElement<N, F> {
    #[inline(always)]
    fn put(&self, o: &mut Out) {
        self.inner().put(o)
    }
}

fn nothing(_: &mut In) {}

macro_rules! ops {
    ($n:literal: $($name:expr => |$x:ident| $e:expr;)*) => {
        vec![$({
            #[inline(never)]
            fn op($x: &In, o: &mut Out) {
                const N: usize = $n;
                Put::put(&$e, o)
            }
            ($name, $n, op as fn(&In, &mut Out), nothing as fn(&mut In))
        }),*]
    };
}

macro_rules! unsigned {
    ($n:literal) => {
        ops! { $n:
            "overflowing_sub" => |x| u::<N>(&x.a).overflowing_sub(&u(&x.b));
            "overflowing_sub_assign" => |x| { let mut t = u::<N>(&x.a); let c = t.overflowing_sub_assign(&u(&x.b)); (t, c) };
            "overflowing_add" => |x| u::<N>(&x.a).overflowing_add(&u(&x.b));
            "overflowing_add_assign" => |x| { let mut t = u::<N>(&x.a); let c = t.overflowing_add_assign(&u(&x.b)); (t, c) };
            "count_digits" => |x| u::<N>(&x.a).count_digits();
            "add" => |x| u::<N>(&x.a).add(&u(&x.b));
            "add_assign" => |x| { let mut t = u::<N>(&x.a); t.add_assign(&u(&x.b)); t };
            "mul_digit_assign" => |x| { let mut t = u::<N>(&x.a); t.mul_digit_assign(x.d); t };
            "sub" => |x| u::<N>(&x.a).sub(&u(&x.b));
            "sub_assign" => |x| { let mut t = u::<N>(&x.a); t.sub_assign(&u(&x.b)); t };
            "and_bool" => |x| u::<N>(&x.a).and_bool(x.f);
            "and_bool_assign" => |x| { let mut t = u::<N>(&x.a); t.and_bool_assign(x.f); t };
            "left_align" => |x| { let mut t = u::<N>(&x.a); let s = t.left_align(); (t, s) };
            "shift_right_assign" => |x| { let mut t = u::<N>(&x.a); t.shift_right_assign(x.d); t };
            "shift_right" => |x| u::<N>(&x.a).shift_right(x.d);
            "shift_left_assign" => |x| { let mut t = u::<N>(&x.a); t.shift_left_assign(x.d); t };
            "shift_left" => |x| u::<N>(&x.a).shift_left(x.d);
            "not_assign" => |x| { let mut t = u::<N>(&x.a); t.not_assign(); t };
            "not" => |x| u::<N>(&x.a).not();
            "xor_assign" => |x| { let mut t = u::<N>(&x.a); t.xor_assign(&u(&x.b)); t };
            "xor" => |x| u::<N>(&x.a).xor(&u(&x.b));
            "and_assign" => |x| { let mut t = u::<N>(&x.a); t.and_assign(&u(&x.b)); t };
            "and" => |x| u::<N>(&x.a).and(&u(&x.b));
            "or_assign" => |x| { let mut t = u::<N>(&x.a); t.or_assign(&u(&x.b)); t };
            "or" => |x| u::<N>(&x.a).or(&u(&x.b));
            "nor_assign" => |x| { let mut t = u::<N>(&x.a); t.nor_assign(&u(&x.b)); t };
            "nor" => |x| u::<N>(&x.a).nor(&u(&x.b));
            "xnor_assign" => |x| { let mut t = u::<N>(&x.a); t.xnor_assign(&u(&x.b)); t };
            "xnor" => |x| u::<N>(&x.a).xnor(&u(&x.b));
            "nand_assign" => |x| { let mut t = u::<N>(&x.a); t.nand_assign(&u(&x.b)); t };
            "nand" => |x| u::<N>(&x.a).nand(&u(&x.b));
            "len" => |x| u::<N>(&x.a).len();
        }
    };
}
macro_rules! unsigned_sized {
    ($n:literal) => {
        ops! { $n:
            "widening_mul" => |x| u::<N>(&x.a).widening_mul(&u(&x.b));
            "widening_shift_left" => |x| u::<N>(&x.a).widening_shift_left(x.d);
        }
    };
}
/// Made outside of what is watched.
fn sign<const N: usize>(x: &[u64; 8], neg: bool) -> [u64; 9] {
    let mut v = u::<N>(x);
    if neg {
        // the digits of a negative number are the complement of its complement's
        v.not_assign();
    }
    let mut t: BigInt<N> = v.into();
    if neg {
        t.not_assign();
    }
    let mut r = [0; 9];
    assert!(std::mem::size_of::<BigInt<N>>() <= 72);
    unsafe { std::ptr::write(r.as_mut_ptr() as *mut BigInt<N>, t) };
    r
}
fn signs<const N: usize>(x: &mut In) {
    x.sa = sign::<N>(&x.a, x.na);
    x.sb = sign::<N>(&x.b, x.nb);
}
fn get<const N: usize>(x: &[u64; 9]) -> BigInt<N> {
    unsafe { std::ptr::read(x.as_ptr() as *const BigInt<N>) }
}
macro_rules! signed {
    ($n:literal) => {{
        let mut l = ops! { $n:
            "signed neg" => |x| get::<N>(&x.sa).neg();
            "signed neg_assign" => |x| { let mut t = get::<N>(&x.sa); t.neg_assign(); t };
            "signed add_assign" => |x| { let mut t = get::<N>(&x.sa); t.add_assign(&get::<N>(&x.sb)); t };
            "signed add" => |x| get::<N>(&x.sa).add(&get::<N>(&x.sb));
            "signed sub_assign" => |x| { let mut t = get::<N>(&x.sa); t.sub_assign(&get::<N>(&x.sb)); t };
            "signed sub" => |x| get::<N>(&x.sa).sub(&get::<N>(&x.sb));
            "signed is_negative" => |x| get::<N>(&x.sa).is_negative();
            "signed is_positive" => |x| get::<N>(&x.sa).is_positive();
            "signed not_assign" => |x| { let mut t = get::<N>(&x.sa); t.not_assign(); t };
            "signed not" => |x| get::<N>(&x.sa).not();
            "signed xor_assign" => |x| { let mut t = get::<N>(&x.sa); t.xor_assign(&get::<N>(&x.sb)); t };
            "signed xor" => |x| get::<N>(&x.sa).xor(&get::<N>(&x.sb));
            "signed abs_assign" => |x| { let mut t = get::<N>(&x.sa); t.abs_assign(); t };
            "signed abs" => |x| get::<N>(&x.sa).abs();
            "signed len" => |x| get::<N>(&x.sa).len();
        };
        for o in &mut l {
            o.3 = signs::<$n>;
        }
        l
    }};
}

use crylib::ec::{EllipticCurve, Secp256r1};
#[derive(Clone, Copy, PartialEq, Debug)]
struct Full;
/// 2^192 - 237: sums overflow the width.
unsafe impl FiniteField<3> for Full {
    const MODULUS: UBigInt<3> = UBigInt([u64::MAX - 236, u64::MAX, u64::MAX]);
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Low;
/// 2^191 - 19: sums never do.
unsafe impl FiniteField<3> for Low {
    const MODULUS: UBigInt<3> = UBigInt([u64::MAX - 18, u64::MAX, u64::MAX >> 1]);
}
macro_rules! field {
    ($p:literal, $n:literal, $f:ty) => {{
        // the operands are below the modulus
        #[inline(always)]
        fn e(x: &[u64; 8]) -> FieldElement<$n, $f> {
            unsafe { FieldElement::new_unchecked(u(x)) }
        }
        ops! { $n:
            concat!($p, " count_digits") => |x| e(&x.a).count_digits();
            concat!($p, " add") => |x| e(&x.a).add(&e(&x.b));
            concat!($p, " sub") => |x| e(&x.a).sub(&e(&x.b));
            concat!($p, " sub_assign") => |x| { let mut t = e(&x.a); t.sub_assign(&e(&x.b)); t };
        }
    }};
}


fn all() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    v.extend(unsigned!(1));
    v.extend(unsigned!(2));
    v.extend(unsigned!(3));
    v.extend(unsigned!(4));
    v.extend(unsigned!(5));
    v.extend(unsigned!(6));
    v.extend(unsigned!(7));
    v.extend(unsigned!(8));
    v.extend(unsigned_sized!(2));
    v.extend(unsigned_sized!(3));
    v.extend(unsigned_sized!(4));
    v.extend(unsigned_sized!(5));
    v.extend(unsigned_sized!(6));
    v.extend(unsigned_sized!(8));
    v.extend(signed!(1));
    v.extend(signed!(2));
    v.extend(signed!(3));
    v.extend(signed!(4));
    v.extend(signed!(5));
    v.extend(signed!(8));
    v.extend(field!("p256", 4, Secp256r1));
    v.extend(field!("p256 order", 4, <Secp256r1 as EllipticCurve>::Order));
    v.extend(field!("2^192-237", 3, Full));
    v.extend(field!("2^191-19", 3, Low));
    v.extend(symmetric());
    v
}

fn bytes(x: &[u64; 8]) -> &[u8; 64] {
    unsafe { &*(x.as_ptr() as *const [u8; 64]) }
}
impl<const N: usize> Put for [u8; N] {
    #[inline(always)]
    fn put(&self, o: &mut Out) {
        unsafe { std::ptr::copy_nonoverlapping(self.as_ptr(), o.as_mut_ptr() as *mut u8, N.min(192)) }
    }
}
/// The key, the nonce and the associated data come from the operands.
fn symmetric() -> Vec<Op> {
    use crylib::aead::chacha::{chacha20, ChaCha20Poly1305};
    use crylib::aead::gcm::{Aes128, Aes256, AesCipher, Gcm};
    use crylib::aead::Aead;
    use crylib::hash::{BufHasher, Hasher, Sha256, Sha512};
    use crylib::hkdf;
    use crylib::hmac::Hmac;
    ops! { 0:
        "SHA-256" => |x| Sha256::hash(x.msg());
        "SHA-512" => |x| Sha512::hash(x.msg());
        "SHA-256 in pieces" => |x| { let mut h = BufHasher::<32, 64, Sha256>::new(); let (p, q) = x.msg().split_at(x.msg().len() / 3); h.update_with(p); h.update_with(q); h.finish() };
        "SHA-512 in pieces" => |x| { let mut h = BufHasher::<64, 128, Sha512>::new(); let (p, q) = x.msg().split_at(x.msg().len() / 3); h.update_with(p); h.update_with(q); h.finish() };
        "HMAC-SHA-256" => |x| Hmac::<32, 64, Sha256>::auth(bytes(&x.a), x.msg());
        "HMAC-SHA-512" => |x| Hmac::<64, 128, Sha512>::auth(bytes(&x.a), x.msg());
        "HMAC-SHA-256, the message as key" => |x| Hmac::<32, 64, Sha256>::auth(x.msg(), bytes(&x.a));
        "HKDF-Extract" => |x| hkdf::extract::<32, 64, Sha256>(bytes(&x.a), x.msg());
        "HKDF-Expand" => |x| { let mut o = [0; 70]; hkdf::expand::<32, 64, Sha256>(&mut o, bytes(&x.a)[..32].try_into().unwrap(), x.msg()); o };
        "ChaCha20" => |x| { let mut m = x.m; chacha20::encrypt_inline(&mut m[..x.len], bytes(&x.a)[..32].try_into().unwrap(), bytes(&x.b)[..12].try_into().unwrap(), 1); m };
        "AES-128" => |x| { let mut m: [u8; 16] = x.m[..16].try_into().unwrap(); Aes128::new(bytes(&x.a)[..16].try_into().unwrap()).encrypt_inline(&mut m); m };
        "AES-256" => |x| { let mut m: [u8; 16] = x.m[..16].try_into().unwrap(); Aes256::new(bytes(&x.a)[..32].try_into().unwrap()).encrypt_inline(&mut m); m };
        "AES-128-GCM" => |x| { let mut m = x.m; Gcm::<Aes128>::new(bytes(&x.a)[..16].try_into().unwrap()).encrypt_inline(&mut m[..x.len], &bytes(&x.b)[12..45], bytes(&x.b)[..12].try_into().unwrap()) };
        "AES-256-GCM" => |x| { let mut m = x.m; Gcm::<Aes256>::new(bytes(&x.a)[..32].try_into().unwrap()).encrypt_inline(&mut m[..x.len], &bytes(&x.b)[12..45], bytes(&x.b)[..12].try_into().unwrap()) };
        "AES-128-GCM, forged" => |x| { let mut m = x.m; Gcm::<Aes128>::new(bytes(&x.a)[..16].try_into().unwrap()).decrypt_inline(&mut m[..x.len], &bytes(&x.b)[12..45], bytes(&x.b)[..12].try_into().unwrap(), bytes(&x.b)[48..].try_into().unwrap()).is_ok() };
        "AES-256-GCM, forged" => |x| { let mut m = x.m; Gcm::<Aes256>::new(bytes(&x.a)[..32].try_into().unwrap()).decrypt_inline(&mut m[..x.len], &bytes(&x.b)[12..45], bytes(&x.b)[..12].try_into().unwrap(), bytes(&x.b)[48..].try_into().unwrap()).is_ok() };
        "ChaCha20-Poly1305, forged" => |x| { let mut m = x.m; ChaCha20Poly1305::new(bytes(&x.a)[..32].try_into().unwrap()).decrypt_inline(&mut m[..x.len], &bytes(&x.b)[12..45], bytes(&x.b)[..12].try_into().unwrap(), bytes(&x.b)[48..].try_into().unwrap()).is_ok() };
    }
}

#[inline(never)]
fn watch(op: fn(&In, &mut Out), x: &In, o: &mut Out) {
    unsafe {
        N = 0;
        HASH = 0;
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        op(black_box(x), black_box(o));
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
}

fn main() {
    let ops = all();
    unsafe {
        LOG = Vec::with_capacity(CAP);
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = step as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    }
    let mut out = std::io::stdout().lock();
    // one place in memory for the operands of all requests
    let mut x = Box::new(In { a: [0; 8], b: [0; 8], d: 0, f: false, na: false, nb: false, sa: [0; 9], sb: [0; 9], m: [0; 256], len: 0 });
    let mut o: Box<Out> = Box::new([0; 24]);
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        if l == "list" {
            writeln!(out, "{}", ops.iter().map(|o| format!("{} {}", o.1, o.0)).collect::<Vec<_>>().join(";")).unwrap();
            out.flush().unwrap();
            continue;
        }
        let (full, l) = match l.strip_prefix('+') {
            Some(l) => (true, l),
            None => (false, &l[..]),
        };
        let w: Vec<u64> = l.split(' ').map(|w| u64::from_str_radix(w, 16).unwrap()).collect();
        let op = &ops[w[0] as usize];
        x.f = w[1] & 1 == 1;
        x.na = w[1] & 2 == 2;
        x.nb = w[1] & 4 == 4;
        x.d = w[2];
        x.a.copy_from_slice(&w[3..11]);
        x.b.copy_from_slice(&w[11..19]);
        if w.len() > 19 {
            x.len = w[19] as usize;
            for (i, v) in w[20..52].iter().enumerate() {
                x.m[8 * i..8 * i + 8].copy_from_slice(&v.to_le_bytes());
            }
        }
        (op.3)(&mut x);
        *o = [0; 24];
        watch(op.2, &x, &mut o);
        let (n, h) = unsafe { (N, HASH) };
        if full {
            let log = unsafe { std::slice::from_raw_parts(LOG.as_ptr(), n.min(CAP)) };
            writeln!(out, "{}", log.iter().map(|a| format!("{a:x}")).collect::<Vec<_>>().join(" ")).unwrap();
        } else {
            writeln!(out, "{n:x} {h:x} {:x}", o.iter().fold(0, |h: u64, x| (h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29))).unwrap();
        }
        out.flush().unwrap();
    }
}
