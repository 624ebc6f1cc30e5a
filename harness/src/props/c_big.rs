//! C06 unsigned and C07 signed big integers.
use crate::fw::*;
use crate::gens::*;
use crate::refs::nat::{Int, Nat};
use crate::{ensure, ensure_eq};
use crylib::big_int::{BigInt, UBigInt};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

pub const C06: Prop = Prop {
    id: "C06",
    rule: "operands of 1,2,3,4,5,6 and 8 limbs built from extreme limbs, powers of two plus/minus small values, short values and near-equal pairs; divisions built from chosen divisor, quotient and remainder so that quotient-digit estimates need correcting; every operation and form compared with a schoolbook bignum; non-trivial: both operands non-zero",
    assumptions: &["the reference bignum (32-bit schoolbook, bitwise long division) is correct"],
    run: c06,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bin {
    a: Vec<u64>,
    b: Vec<u64>,
    s: u64,
}

fn arr<const N: usize>(v: &[u64]) -> [u64; N] {
    v.try_into().unwrap()
}
fn nat<const N: usize>(x: &UBigInt<N>) -> Nat {
    Nat::from_limbs(&x.0)
}

/// A case with a width taken from the operand's length.
fn pair(ns: &'static [usize]) -> impl Strategy<Value = Bin> + Clone {
    proptest::sample::select(ns).prop_flat_map(|n| {
        let near = (limbs(n), -2i64..=2).prop_map(|(a, d)| {
            let mut b = a.clone();
            add_small(&mut b, d);
            (a, b)
        });
        // equal high limbs, different low ones
        let prefix = (limbs(n), limbs(n), 0..=n).prop_map(|(a, mut b, k)| {
            b[k..].copy_from_slice(&a[k..]);
            (a, b)
        });
        let compl = (limbs(n), -2i64..=2).prop_map(|(a, d)| {
            let mut b: Vec<u64> = a.iter().map(|x| !x).collect();
            add_small(&mut b, d);
            (a, b)
        });
        let ab = prop_oneof![6 => (limbs(n), limbs(n)), 1 => near, 1 => prefix, 1 => compl];
        (ab, prop_oneof![3 => 0..64u64, 2 => limb(), 1 => 64..300u64]).prop_map(|((a, b), s)| Bin { a, b, s })
    })
}

fn generic<const N: usize>(c: &Bin, obs: &mut Obs) -> Res {
    let (a, b) = (UBigInt::<N>(arr(&c.a)), UBigInt::<N>(arr(&c.b)));
    let (ra, rb) = (nat(&a), nat(&b));
    if ra.is_zero() || rb.is_zero() {
        obs.trivial();
    }
    let m = Nat::pow2(64 * N);
    // addition
    let sum = ra.add(&rb);
    let carry = sum >= m;
    let e = sum.limbs(N);
    if carry {
        obs.label("add carries out");
    }
    ensure_eq!(a.add(&b).0[..], e[..], "add");
    let mut t = a;
    t.add_assign(&b);
    ensure_eq!(t.0[..], e[..], "add_assign");
    let (t, o) = a.overflowing_add(&b);
    ensure!(t.0[..] == e[..] && o == carry, "overflowing_add", "{a:?}+{b:?} = {t:?},{o}");
    let mut t = a;
    let o = t.overflowing_add_assign(&b);
    ensure!(t.0[..] == e[..] && o == carry, "overflowing_add_assign", "{a:?}+{b:?} = {t:?},{o}");
    // subtraction
    let borrow = ra < rb;
    let e = if borrow { ra.add(&m).sub(&rb) } else { ra.sub(&rb) }.limbs(N);
    ensure_eq!(a.sub(&b).0[..], e[..], "sub");
    let mut t = a;
    t.sub_assign(&b);
    ensure_eq!(t.0[..], e[..], "sub_assign");
    let (t, o) = a.overflowing_sub(&b);
    ensure!(t.0[..] == e[..] && o == borrow, "overflowing_sub", "{a:?}-{b:?} = {t:?},{o}");
    let mut t = a;
    let o = t.overflowing_sub_assign(&b);
    ensure!(t.0[..] == e[..] && o == borrow, "overflowing_sub_assign", "{a:?}-{b:?} = {t:?},{o}");
    // doubling
    let e = ra.add(&ra).limbs(N);
    ensure_eq!(a.double().0[..], e[..], "double");
    let mut t = a;
    t.double_assign();
    ensure_eq!(t.0[..], e[..], "double_assign");
    // digit multiplication
    let p = ra.mul(&Nat::from_u64(c.s));
    let (e, hi) = (p.limbs(N), p.shr(64 * N).limbs(1)[0]);
    ensure_eq!(a.mul_digit(c.s).0[..], e[..], "mul_digit");
    let mut t = a;
    t.mul_digit_assign(c.s);
    ensure_eq!(t.0[..], e[..], "mul_digit_assign");
    let (t, o) = a.overflowing_mul_digit(c.s);
    ensure!(t.0[..] == e[..] && o == hi, "overflowing_mul_digit", "{a:?}*{:x} = {t:?},{o:x}", c.s);
    let mut t = a;
    let o = t.overflowing_mul_digit_assign(c.s);
    ensure!(t.0[..] == e[..] && o == hi, "overflowing_mul_digit_assign", "{a:?}*{:x} = {t:?},{o:x}", c.s);
    // shifts, by the amount modulo 64
    let k = (c.s % 64) as usize;
    let e = ra.shl(k).limbs(N);
    ensure_eq!(a.shift_left(c.s).0[..], e[..], "shift_left");
    let mut t = a;
    t.shift_left_assign(c.s);
    ensure_eq!(t.0[..], e[..], "shift_left_assign");
    let e = ra.shr(k).limbs(N);
    ensure_eq!(a.shift_right(c.s).0[..], e[..], "shift_right");
    let mut t = a;
    t.shift_right_assign(c.s);
    ensure_eq!(t.0[..], e[..], "shift_right_assign");
    // bitwise, limb by limb on the definition
    type Bit<const N: usize> = (fn(&UBigInt<N>, &UBigInt<N>) -> UBigInt<N>, fn(&mut UBigInt<N>, &UBigInt<N>), fn(bool, bool) -> bool, &'static str);
    let bit: [Bit<N>; 6] = [
        (UBigInt::and, UBigInt::and_assign, |x, y| x && y, "and"),
        (UBigInt::or, UBigInt::or_assign, |x, y| x || y, "or"),
        (UBigInt::xor, UBigInt::xor_assign, |x, y| x != y, "xor"),
        (UBigInt::nand, UBigInt::nand_assign, |x, y| !(x && y), "nand"),
        (UBigInt::nor, UBigInt::nor_assign, |x, y| !(x || y), "nor"),
        (UBigInt::xnor, UBigInt::xnor_assign, |x, y| x == y, "xnor"),
    ];
    for (copy, assign, def, name) in bit {
        let r = copy(&a, &b);
        let mut t = a;
        assign(&mut t, &b);
        for i in 0..64 * N {
            let e = def(ra.bit(i), rb.bit(i));
            ensure!(nat(&r).bit(i) == e && nat(&t).bit(i) == e, name, "{name} of {a:?} and {b:?} is wrong in bit {i}: {r:?} {t:?}");
        }
    }
    let mut t = a;
    t.not_assign();
    let e: Vec<u64> = c.a.iter().map(|x| x ^ u64::MAX).collect();
    ensure!(a.not().0[..] == e[..] && t.0[..] == e[..], "not", "not {a:?} = {t:?}");
    for f in [false, true] {
        let mut t = a;
        t.and_bool_assign(f);
        let e = if f { a.0 } else { [0; N] };
        ensure!(a.and_bool(f).0 == e && t.0 == e, "and_bool", "{a:?} & {f} = {t:?}");
    }
    // comparisons
    let e = ra.cmp(&rb);
    ensure!(a.cmp(&b) == e && a.partial_cmp(&b) == Some(e), "cmp", "cmp({a:?}, {b:?}) = {:?}", a.cmp(&b));
    ensure!((a < b) == (e == Ordering::Less) && (a > b) == (e == Ordering::Greater), "lt-gt", "< or > of {a:?}, {b:?}");
    ensure!((a <= b) == (e != Ordering::Greater) && (a >= b) == (e != Ordering::Less), "le-ge", "<= or >= of {a:?}, {b:?}");
    ensure!((a == b) == (e == Ordering::Equal) && (a != b) == (e != Ordering::Equal), "eq", "== or != of {a:?}, {b:?}");
    // accessors
    let bits = ra.bits();
    ensure_eq!(a.count_bits(), bits, "count_bits");
    ensure_eq!(a.count_digits(), bits.div_ceil(64), "count_digits");
    ensure_eq!(a.count_digits_fast(), bits.div_ceil(64), "count_digits_fast");
    ensure_eq!(a.len(), N, "len");
    if bits > 0 {
        let mut t = a;
        let s = t.left_align();
        let e = (64 - bits % 64) % 64;
        ensure!(s == e as u64 && nat(&t) == ra.shl(e), "left_align", "left_align {a:?} = {t:?}, {s}");
    }
    let pos = (c.s % (64 * N as u64)) as usize;
    for i in [pos, (pos + 64) % (64 * N), 0, 64 * N - 1] {
        ensure!(a.get_bit(i) == ra.bit(i), "get_bit", "bit {i} of {a:?}");
        for v in [false, true] {
            let mut t = a;
            t.set_bit(i, v);
            let e = if v { ra.or(&Nat::pow2(i)) } else { ra.sub(&if ra.bit(i) { Nat::pow2(i) } else { Nat::zero() }) };
            ensure!(nat(&t) == e, "set_bit", "set_bit({i}, {v}) of {a:?} = {t:?}");
        }
        let byte = i / 8;
        let v = (c.s >> 8) as u8 ^ c.b[0] as u8;
        let mut t = a;
        t.set_byte(byte, v);
        let mut le = ra.to_le(8 * N);
        le[byte] = v;
        ensure!(nat(&t).to_le(8 * N) == le, "set_byte", "set_byte({byte}, {v:02x}) of {a:?} = {t:?}");
    }
    // conversions
    let mut hex = String::from("0x");
    for x in ra.to_be(8 * N) {
        hex.push_str(&format!("{x:02x}"));
    }
    ensure_eq!(format!("{a:x}"), hex, "lower-hex");
    ensure_eq!(format!("{a}"), hex, "display");
    ensure_eq!(format!("{a:X}"), format!("0x{}", hex[2..].to_uppercase()), "upper-hex");
    ensure!(UBigInt::<N>::from(c.s).0[0] == c.s && nat(&UBigInt::<N>::from(c.s)) == Nat::from_u64(c.s), "from-u64", "from {:x}", c.s);
    ensure!(UBigInt::<N>::new(a.0) == a && UBigInt::from(a.0) == a && <[u64; N]>::from(a) == a.0, "array", "array conversion of {a:?}");
    ensure!(UBigInt::from_ref(&a.0) == &a && *AsRef::<[u64; N]>::as_ref(&a) == a.0, "from_ref", "borrowed view of {a:?}");
    ensure!(AsRef::<UBigInt<N>>::as_ref(&a.0) == &a, "array-as-ref", "borrowed view of the array of {a:?}");
    let mut l = a.0;
    AsMut::<UBigInt<N>>::as_mut(&mut l).add_assign(&b);
    UBigInt::from_ref_mut(&mut l).sub_assign(&b);
    let mut t = UBigInt(l);
    AsMut::<[u64; N]>::as_mut(&mut t)[N - 1] ^= 1;
    t.0[N - 1] ^= 1;
    ensure_eq!(t, a, "borrowed-mut");
    ensure!(UBigInt::<N>::try_from(&c.a[..]).ok() == Some(a), "from-slice", "from a slice of {a:?}");
    ensure!(UBigInt::<N>::try_from(&[c.a.clone(), c.b.clone()].concat()[..]).is_err() && UBigInt::<N>::try_from(&c.a[1..]).is_err(), "from-slice-len", "a slice of another length is accepted");
    ensure!(UBigInt::<N>::default() == UBigInt::ZERO && nat(&UBigInt::<N>::ZERO).is_zero() && nat(&UBigInt::<N>::MIN).is_zero(), "zero", "zero constants");
    ensure!(nat(&UBigInt::<N>::ONE) == Nat::one() && nat(&UBigInt::<N>::MAX).add(&Nat::one()) == m, "constants", "ONE or MAX");
    macro_rules! resize { ($($o:literal),*) => { $( ensure_eq!(a.resize::<$o>().0[..], ra.limbs($o)[..], "resize"); )* } }
    resize!(1, 2, 3, 4, 5, 6, 7, 8, 9, 16);
    Ok(())
}

macro_rules! sized {
    ($name:ident, $n:literal) => {
        fn $name(c: &Bin) -> Res {
            let (a, b) = (UBigInt::<$n>(arr(&c.a)), UBigInt::<$n>(arr(&c.b)));
            let (ra, rb) = (nat(&a), nat(&b));
            ensure_eq!(a.widening_mul(&b).0[..], ra.mul(&rb).limbs(2 * $n)[..], "widening_mul");
            ensure_eq!(a.widening_shift_left(c.s).0[..], ra.shl((c.s % 64) as usize).limbs($n + 1)[..], "widening_shift_left");
            let be: [u8; 8 * $n] = ra.to_be(8 * $n).try_into().unwrap();
            let le: [u8; 8 * $n] = ra.to_le(8 * $n).try_into().unwrap();
            ensure_eq!(a.to_be_bytes(), be, "to_be_bytes");
            ensure_eq!(a.to_le_bytes(), le, "to_le_bytes");
            ensure_eq!(UBigInt::<$n>::from_be_bytes(be), a, "from_be_bytes");
            ensure_eq!(UBigInt::<$n>::from_le_bytes(le), a, "from_le_bytes");
            if rb.is_zero() {
                ensure!(no_panic(|| a.div(&b)).is_err(), "div-zero", "division by zero returned");
            } else {
                let (q, r) = ra.divrem(&rb);
                let (gq, gr) = a.div(&b);
                ensure!(gq.0[..] == q.limbs($n)[..] && gr.0[..] == r.limbs($n)[..], "div", "{a:?} / {b:?} = {gq:?} rem {gr:?}");
                let mut t = a;
                t.div_assign(&b);
                ensure_eq!(t.0[..], q.limbs($n)[..], "div_assign");
            }
            Ok(())
        }
    };
}
sized!(sized2, 2);
sized!(sized3, 3);
sized!(sized4, 4);
sized!(sized5, 5);
sized!(sized6, 6);
sized!(sized8, 8);

fn unsigned(c: &Bin, obs: &mut Obs) -> Res {
    obs.label(format!("{} limbs", c.a.len()));
    match c.a.len() {
        1 => generic::<1>(c, obs),
        2 => generic::<2>(c, obs).and_then(|_| sized2(c)),
        3 => generic::<3>(c, obs).and_then(|_| sized3(c)),
        4 => generic::<4>(c, obs).and_then(|_| sized4(c)),
        5 => generic::<5>(c, obs).and_then(|_| sized5(c)),
        6 => generic::<6>(c, obs).and_then(|_| sized6(c)),
        7 => generic::<7>(c, obs),
        _ => generic::<8>(c, obs).and_then(|_| sized8(c)),
    }
}

fn only_sized(c: &Bin, obs: &mut Obs) -> Res {
    if c.a.iter().all(|x| *x == 0) || c.b.iter().all(|x| *x == 0) {
        obs.trivial();
    }
    match c.a.len() {
        2 => sized2(c),
        3 => sized3(c),
        4 => sized4(c),
        5 => sized5(c),
        6 => sized6(c),
        _ => sized8(c),
    }
}

/// Numerators built as d*q + r: quotient digits of all ones, remainders next
/// to the divisor, divisors whose second digit drives the estimate.
fn division() -> impl Strategy<Value = Bin> + Clone {
    proptest::sample::select(&[2usize, 3, 4, 5, 6, 8][..])
        .prop_flat_map(|n| (Just(n), 1..=n).prop_flat_map(|(n, dl)| (Just(n), limbs(dl), limbs(n - dl + 1), prop_oneof![Just(0u8), Just(1), Just(2), Just(3)], limbs(dl), 0..64u64)))
        .prop_map(|(n, d, q, mode, r, s)| {
            let nd = Nat::from_limbs(&d);
            let nd = if nd.is_zero() { Nat::one() } else { nd };
            let r = match mode {
                0 => Nat::zero(),
                1 => nd.sub(&Nat::one()),
                2 => {
                    if nd > Nat::one() {
                        Nat::one()
                    } else {
                        Nat::zero()
                    }
                }
                _ => Nat::from_limbs(&r).rem(&nd),
            };
            let q = Nat::from_limbs(&q);
            let mut num = nd.mul(&q).add(&r);
            // keep it within the width by dropping high quotient bits
            let mut q = q;
            while num.bits() > 64 * n {
                q = q.shr(num.bits() - 64 * n);
                num = nd.mul(&q).add(&r);
            }
            Bin { a: num.limbs(n), b: nd.limbs(n), s }
        })
}

fn c06(run: &mut Run) {
    run.gen("operations", 24000, 800000, pair(&[1, 2, 3, 4, 5, 6, 7, 8]), unsigned);
    run.gen("products-and-divisions", 100000, 4000000, pair(&[2, 3, 4, 5, 6, 8]), only_sized);
    run.gen("constructed-divisions", 160000, 6000000, division(), only_sized);
    // every pair of limbs from a small extreme set, for two and three limbs
    let x = [0u64, 1, 2, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, u64::MAX, u64::MAX - 1];
    let mut cases = vec![];
    for i in 0..x.len().pow(4) {
        let d = |k: u32| x[i / x.len().pow(k) % x.len()];
        cases.push(Bin { a: vec![d(0), d(1)], b: vec![d(2), d(3)], s: i as u64 % 64 });
    }
    run.all("extreme-two-limb-pairs", cases, only_sized);
    let y = [0u64, 1, 1 << 63, u64::MAX, u64::MAX - 1];
    let mut cases = vec![];
    for i in 0..y.len().pow(6) {
        let d = |k: u32| y[i / y.len().pow(k) % y.len()];
        cases.push(Bin { a: vec![d(0), d(1), d(2)], b: vec![d(3), d(4), d(5)], s: i as u64 % 64 });
    }
    run.all("extreme-three-limb-pairs", cases, only_sized);
}

pub const C07: Prop = Prop {
    id: "C07",
    rule: "pairs of signed values of 3, 4, 8 (and for width-generic operations 1, 2, 5) limbs plus sign, weighted to zero, plus/minus small values, minimum, maximum, equal and opposite pairs; every operation compared with a sign-magnitude reference reduced to the two's-complement range; non-trivial: both values non-zero",
    assumptions: &["a value is digits - 2^(64 N) if negative, digits otherwise, as the constants, is_negative and the conversions expose it", "narrowing is only specified for values that fit"],
    run: c07,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sg {
    neg: bool,
    d: Vec<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SBin {
    a: Sg,
    b: Sg,
}

fn make<const N: usize>(s: &Sg) -> BigInt<N> {
    let v = BigInt::from(UBigInt::<N>(arr(&s.d)));
    if s.neg {
        BigInt::MIN.add(&v)
    } else {
        v
    }
}
fn model(s: &Sg) -> Int {
    let d = Int::new(false, Nat::from_limbs(&s.d));
    if s.neg {
        d.sub(&Int::new(false, Nat::pow2(64 * s.d.len())))
    } else {
        d
    }
}
/// The value of `x`, read through its public interface.
fn value<const N: usize>(x: &BigInt<N>) -> Result<Int, Fail> {
    if !x.is_negative() {
        match UBigInt::try_from(*x) {
            Ok(u) => Ok(Int::new(false, nat(&u))),
            Err(_) => fail("to-unsigned", format!("{x:?} does not convert to unsigned")),
        }
    } else {
        ensure!(UBigInt::try_from(*x).is_err(), "to-unsigned", "negative {x:?} converts to unsigned");
        // x = -(!x) - 1
        let n = x.not();
        match UBigInt::try_from(n) {
            Ok(u) => Ok(Int::new(true, nat(&u).add(&Nat::one()))),
            Err(_) => fail("not", format!("the complement of negative {x:?} is negative")),
        }
    }
}
/// Reduces to the range [-2^(64 n), 2^(64 n)).
fn wrap(v: &Int, n: usize) -> Int {
    let m = Nat::pow2(64 * n + 1);
    let r = v.mag.rem(&m);
    let r = if v.neg && !r.is_zero() { m.sub(&r) } else { r };
    if r >= Nat::pow2(64 * n) {
        Int::new(true, m.sub(&r))
    } else {
        Int::new(false, r)
    }
}
fn is<const N: usize>(x: &BigInt<N>, e: &Int, sig: &str) -> Res {
    let e = wrap(e, N);
    let v = value(x)?;
    ensure!(v == e, sig, "{sig}: got {v:x?}, expected {e:x?}");
    Ok(())
}

fn signed<const N: usize>(c: &SBin, obs: &mut Obs) -> Res {
    let (a, b) = (make::<N>(&c.a), make::<N>(&c.b));
    let (ra, rb) = (model(&c.a), model(&c.b));
    if ra.mag.is_zero() || rb.mag.is_zero() {
        obs.trivial();
    }
    if ra.neg != rb.neg {
        obs.label("mixed signs");
    }
    is(&a, &ra, "construct")?;
    is(&a.add(&b), &ra.add(&rb), "add")?;
    let mut t = a;
    t.add_assign(&b);
    is(&t, &ra.add(&rb), "add_assign")?;
    is(&a.sub(&b), &ra.sub(&rb), "sub")?;
    let mut t = a;
    t.sub_assign(&b);
    is(&t, &ra.sub(&rb), "sub_assign")?;
    is(&a.neg(), &ra.negated(), "neg")?;
    let mut t = a;
    t.neg_assign();
    is(&t, &ra.negated(), "neg_assign")?;
    // documented: the minimum has absolute value zero
    let min = Int::new(true, Nat::pow2(64 * N));
    let e = if ra == min { Int::new(false, Nat::zero()) } else { Int::new(false, ra.mag.clone()) };
    is(&a.abs(), &e, "abs")?;
    let mut t = a;
    t.abs_assign();
    is(&t, &e, "abs_assign")?;
    ensure_eq!(a.is_negative(), ra.neg, "is_negative");
    ensure_eq!(a.is_positive(), !ra.neg && !ra.mag.is_zero(), "is_positive");
    let one = Int::new(false, Nat::one());
    is(&a.not(), &ra.negated().sub(&one), "not")?;
    let mut t = a;
    t.not_assign();
    is(&t, &ra.negated().sub(&one), "not_assign")?;
    let d: Vec<u64> = c.a.d.iter().zip(&c.b.d).map(|(x, y)| x ^ y).collect();
    let e = model(&Sg { neg: c.a.neg != c.b.neg, d });
    is(&a.xor(&b), &e, "xor")?;
    let mut t = a;
    t.xor_assign(&b);
    is(&t, &e, "xor_assign")?;
    ensure_eq!(a.len(), N, "len");
    // order
    let e = ra.cmp(&rb);
    ensure!(a.cmp(&b) == e && a.partial_cmp(&b) == Some(e), "cmp", "cmp({a:?}, {b:?}) = {:?}, {:?}", a.cmp(&b), a.partial_cmp(&b));
    ensure!((a < b) == (e == Ordering::Less) && (a > b) == (e == Ordering::Greater), "lt-gt", "< or > of {a:?}, {b:?}");
    ensure!((a <= b) == (e != Ordering::Greater) && (a >= b) == (e != Ordering::Less), "le-ge", "<= or >= of {a:?}, {b:?}");
    ensure!((a == b) == (e == Ordering::Equal), "eq", "== of {a:?}, {b:?}");
    ensure!(a.max(b) == if e == Ordering::Greater { a } else { b } && a.min(b) == if e == Ordering::Greater { b } else { a }, "max-min", "max or min of {a:?}, {b:?}");
    // conversions
    if !ra.neg {
        ensure!(BigInt::from(UBigInt::<N>(arr(&c.a.d))) == a, "from-unsigned", "{a:?}");
    }
    macro_rules! resize { ($($o:literal),*) => { $(
        if wrap(&ra, $o) == ra {
            is(&a.resize::<$o>(), &ra, "resize")?;
        }
    )* } }
    resize!(1, 2, 3, 4, 5, 6, 8, 9, 16);
    is(&BigInt::<N>::ZERO, &Int::new(false, Nat::zero()), "constants")?;
    is(&BigInt::<N>::default(), &Int::new(false, Nat::zero()), "constants")?;
    is(&BigInt::<N>::ONE, &one, "constants")?;
    is(&BigInt::<N>::NEG_ONE, &one.negated(), "constants")?;
    is(&BigInt::<N>::MAX, &min.negated().sub(&one), "constants")?;
    is(&BigInt::<N>::MIN, &min, "constants")?;
    Ok(())
}

macro_rules! signed_sized {
    ($name:ident, $n:literal) => {
        fn $name(c: &SBin) -> Res {
            let (a, b) = (make::<$n>(&c.a), make::<$n>(&c.b));
            let (ra, rb) = (model(&c.a), model(&c.b));
            is(&a.widening_mul(&b), &ra.mul(&rb), "widening_mul")?;
            if rb.mag.is_zero() {
                ensure!(no_panic(|| a.div(&b)).is_err(), "div-zero", "division by zero returned");
            } else {
                // truncated division: the remainder has the sign of the dividend
                let (q, r) = ra.mag.divrem(&rb.mag);
                let (q, r) = (Int::new(ra.neg != rb.neg, q), Int::new(ra.neg, r));
                let (gq, gr) = a.div(&b);
                is(&gq, &q, "div-quotient")?;
                is(&gr, &r, "div-remainder")?;
                let mut t = a;
                t.div_assign(&b);
                is(&t, &q, "div_assign")?;
            }
            Ok(())
        }
    };
}
signed_sized!(signed3, 3);
signed_sized!(signed4, 4);
signed_sized!(signed8, 8);

fn check_signed(c: &SBin, obs: &mut Obs) -> Res {
    obs.label(format!("{} limbs", c.a.d.len()));
    match c.a.d.len() {
        1 => signed::<1>(c, obs),
        2 => signed::<2>(c, obs),
        3 => signed::<3>(c, obs).and_then(|_| signed3(c)),
        4 => signed::<4>(c, obs).and_then(|_| signed4(c)),
        5 => signed::<5>(c, obs),
        _ => signed::<8>(c, obs).and_then(|_| signed8(c)),
    }
}

fn negate(s: &Sg) -> Sg {
    let mut d: Vec<u64> = s.d.iter().map(|x| !x).collect();
    add_small(&mut d, 1);
    let zero = s.d.iter().all(|x| *x == 0);
    Sg { neg: if zero { s.neg } else { !s.neg }, d }
}

fn signed_pair() -> impl Strategy<Value = SBin> + Clone {
    proptest::sample::select(&[1usize, 2, 3, 3, 4, 4, 4, 5, 8][..]).prop_flat_map(|n| {
        let sg = move || {
            prop_oneof![
                4 => (any::<bool>(), limbs(n)).prop_map(|(neg, d)| Sg { neg, d }),
                // small magnitudes of either sign
                2 => (-20i64..=20).prop_map(move |k| { let mut d = vec![0; n]; add_small(&mut d, k); Sg { neg: k < 0, d } }),
                // next to the extremes
                1 => (any::<bool>(), 0..4i64).prop_map(move |(neg, k)| {
                    let mut d = vec![if neg { 0 } else { u64::MAX }; n];
                    add_small(&mut d, if neg { k } else { -k });
                    Sg { neg, d }
                }),
                // short magnitudes of either sign
                2 => (any::<bool>(), limbs(n), 1..=n).prop_map(move |(neg, mut d, k)| {
                    for x in d.iter_mut().skip(k) { *x = 0 }
                    let s = Sg { neg: false, d };
                    if neg { negate(&s) } else { s }
                }),
            ]
        };
        prop_oneof![
            8 => (sg(), sg()).prop_map(|(a, b)| SBin { a, b }),
            1 => sg().prop_map(|a| SBin { b: a.clone(), a }),
            1 => sg().prop_map(|a| SBin { b: negate(&a), a }),
            1 => sg().prop_map(|a| SBin { b: Sg { neg: !a.neg, d: a.d.clone() }, a }),
        ]
    })
}

fn c07(run: &mut Run) {
    let edge = |n: usize| {
        let mut v = vec![];
        for neg in [false, true] {
            for k in -3i64..=3 {
                let mut d = vec![0; n];
                add_small(&mut d, k);
                v.push(Sg { neg, d });
            }
            for l in 0..n {
                let mut d = vec![0; n];
                d[l] = 1 << 63;
                v.push(Sg { neg, d });
            }
        }
        v
    };
    let mut cases = vec![];
    for n in [1, 2, 3, 4, 8] {
        for a in edge(n) {
            for b in edge(n) {
                cases.push(SBin { a: a.clone(), b });
            }
        }
    }
    run.all("edge-pairs", cases, check_signed);
    run.gen("pairs", 40000, 1500000, signed_pair(), check_signed);
    run.gen(
        "sorting",
        4000,
        100000,
        vec((any::<bool>(), limbs(4)).prop_map(|(neg, d)| Sg { neg, d }), 2..12),
        |v, _| {
            let mut x: Vec<BigInt<4>> = v.iter().map(make::<4>).collect();
            x.sort();
            let mut m: Vec<Int> = v.iter().map(model).collect();
            m.sort();
            for (a, b) in x.iter().zip(&m) {
                is(a, b, "sort")?;
            }
            Ok(())
        },
    );
}
