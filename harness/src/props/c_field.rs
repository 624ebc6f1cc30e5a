//! C08 finite fields.
use crate::fw::*;
use crate::gens::*;
use crate::refs::nat::Nat;
use crate::{ensure, ensure_eq};
use crylib::big_int::UBigInt;
use crylib::ec::{EllipticCurve, Secp256r1};
use crylib::finite_field::{FieldElement, FiniteField};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const C08: Prop = Prop {
    id: "C08",
    rule: "18 prime fields of three and four limbs (P-256 base and scalar field, other 256-bit and 192-bit primes, primes just above and below limb boundaries, tiny primes exhaustively over all pairs); elements next to 0, to the modulus, to its half and to limb boundaries, and random ones; every operation and form compared with bignum arithmetic modulo the prime; non-trivial: both operands above 1",
    assumptions: &["the moduli used are prime (checked when the table was made)", "the inverse of zero may panic or be zero, as documented"],
    run: c08,
};

macro_rules! fields {
    ($($name:ident $n:literal $m:expr;)*) => {
        $(
            #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
            struct $name;
            unsafe impl FiniteField<$n> for $name {
                const MODULUS: UBigInt<$n> = UBigInt($m);
            }
        )*
    };
}
const F: u64 = u64::MAX;
fields! {
    P192 3 [F, F - 1, F];
    M192 3 [F - 236, F, F];
    M191 3 [F - 18, F, F >> 1];
    M130 3 [F - 4, F, 3];
    M129 3 [F - 24, F, 1];
    A128 3 [0x33, 0, 1];
    M127 3 [F, F >> 1, 0];
    M61 3 [(1 << 61) - 1, 0, 0];
    T13 3 [13, 0, 0];
    K256 4 [0xffff_fffe_ffff_fc2f, F, F, F];
    M256 4 [F - 188, F, F, F];
    M255 4 [F - 18, F, F, F >> 1];
    A255 4 [0x5f, 0, 0, 1 << 63];
    A192 4 [0x85, 0, 0, 1];
    M128 4 [F - 158, F, 0, 0];
    M64 4 [F - 58, 0, 0, 0];
    T2 4 [2, 0, 0, 0];
    T17 4 [17, 0, 0, 0];
}
type Order = <Secp256r1 as EllipticCurve>::Order;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    field: u8,
    a: El,
    b: El,
    digit: u64,
}
/// An element, relative to the modulus so that cases work for every field.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum El {
    Low(u64),
    /// modulus - 1 - k
    High(u64),
    /// (modulus + 1)/2 + k
    Half(i8),
    /// 2^k + d
    Pow(u16, i8),
    /// 2^(64 n) - modulus + d: where a sum meets the width
    Gap(i8),
    Limbs(Vec<u64>),
}
impl El {
    fn value(&self, m: &Nat, n: usize) -> Nat {
        let off = |x: Nat, d: i8| {
            let d = d as i64;
            if d >= 0 {
                x.add(&Nat::from_u64(d as u64)).rem(m)
            } else {
                x.rem(m).submod(&Nat::from_u64(-d as u64).rem(m), m)
            }
        };
        match self {
            El::Low(k) => Nat::from_u64(*k).rem(m),
            El::High(k) => m.sub(&Nat::one()).submod(&Nat::from_u64(*k).rem(m), m),
            El::Half(d) => off(m.add(&Nat::one()).shr(1), *d),
            El::Pow(k, d) => off(Nat::pow2(*k as usize % (64 * n)), *d),
            El::Gap(d) => off(Nat::pow2(64 * n).sub(m), *d),
            El::Limbs(l) => Nat::from_limbs(&l[..n.min(l.len())]).rem(m),
        }
    }
    fn raw(&self, m: &Nat, n: usize) -> Nat {
        match self {
            El::Limbs(l) => Nat::from_limbs(&l[..n.min(l.len())]),
            El::High(k) => m.add(&Nat::from_u64(*k)).low(64 * n),
            _ => self.value(m, n),
        }
    }
}

macro_rules! check {
    ($name:ident, $n:tt) => {
        fn $name<A: FiniteField<$n> + Ord>(c: &Case, obs: &mut Obs) -> Res {
            type Fe<A> = FieldElement<$n, A>;
            let m = Nat::from_limbs(&A::MODULUS.0);
            let (ra, rb) = (c.a.value(&m, $n), c.b.value(&m, $n));
            let to = |x: &Nat| UBigInt::<$n>(x.limbs($n).try_into().unwrap());
            let (ua, ub) = (to(&ra), to(&rb));
            let (Some(a), Some(b)) = (Fe::<A>::try_new(ua), Fe::<A>::try_new(ub)) else {
                return fail("try_new", format!("an element below the modulus is refused: {ua:?} {ub:?}"));
            };
            if ra <= Nat::one() || rb <= Nat::one() {
                obs.trivial();
            }
            macro_rules! is {
                ($got:expr, $exp:expr, $sig:literal) => {{
                    let got: Fe<A> = $got;
                    let exp: Nat = $exp;
                    ensure!(got.inner().0[..] == exp.limbs($n)[..], $sig, "{}: {:?} {:?} digit {:x} mod {:?}: got {:?}, expected {:?}", $sig, a, b, c.digit, A::MODULUS, got, to(&exp));
                }};
            }
            is!(a, ra.clone(), "construct");
            // construction
            let raw = c.a.raw(&m, $n);
            is!(Fe::<A>::new(to(&raw)), raw.rem(&m), "new");
            ensure!(Fe::<A>::try_new(to(&raw)).is_some() == (raw < m), "try_new", "try_new({:?}) with modulus {:?}", to(&raw), A::MODULUS);
            ensure!(Fe::<A>::try_from(to(&raw)).is_ok() == (raw < m), "try_from", "try_from({:?}) with modulus {:?}", to(&raw), A::MODULUS);
            is!(unsafe { Fe::<A>::new_unchecked(ua) }, ra.clone(), "new_unchecked");
            ensure!(a.into_inner() == ua && *a.inner() == ua && *a == ua, "inner", "{a:?}");
            ensure!(a.count_digits() == ra.bits().div_ceil(64), "count_digits", "{a:?}");
            // addition and subtraction
            let sum = ra.addmod(&rb, &m);
            is!(a.add(&b), sum.clone(), "add");
            let mut t = a;
            t.add_assign(&b);
            is!(t, sum, "add_assign");
            is!(a.sub(&b), ra.submod(&rb, &m), "sub");
            let mut t = a;
            t.sub_assign(&b);
            is!(t, ra.submod(&rb, &m), "sub_assign");
            let neg = Nat::zero().submod(&ra, &m);
            is!(a.neg(), neg.clone(), "neg");
            let mut t = a;
            t.neg_assign();
            is!(t, neg.clone(), "neg_assign");
            if !ra.is_zero() {
                is!(unsafe { a.neg_unchecked() }, neg.clone(), "neg_unchecked");
                let mut t = a;
                unsafe { t.neg_assign_unchecked() };
                is!(t, neg, "neg_assign_unchecked");
            }
            is!(a.double(), ra.addmod(&ra, &m), "double");
            let mut t = a;
            t.double_assign();
            is!(t, ra.addmod(&ra, &m), "double_assign");
            // multiplication
            let prod = ra.mulmod(&rb, &m);
            is!(a.mul(&b), prod.clone(), "mul");
            let mut t = a;
            t.mul_assign(&b);
            is!(t, prod, "mul_assign");
            let sq = ra.mulmod(&ra, &m);
            is!(a.sqr(), sq.clone(), "sqr");
            let mut t = a;
            t.sqr_assign();
            is!(t, sq, "sqr_assign");
            for d in [c.digit, c.digit % 16] {
                let e = ra.mul(&Nat::from_u64(d)).rem(&m);
                is!(a.mul_digit(d), e.clone(), "mul_digit");
                let mut t = a;
                t.mul_digit_assign(d);
                is!(t, e, "mul_digit_assign");
            }
            // inversion and division: the unique q with q*b == a
            if rb.is_zero() {
                let z = no_panic(|| b.inverse());
                ensure!(z.is_ok() || cfg!(debug_assertions), "inverse-zero", "the inverse of zero panics in release mode");
                if let Ok(z) = z {
                    is!(z, Nat::zero(), "inverse-zero");
                }
            } else {
                let inv = b.inverse();
                let ri = Nat::from_limbs(&inv.inner().0);
                ensure!(ri < m && ri.mulmod(&rb, &m) == Nat::one().rem(&m), "inverse", "inverse of {b:?} modulo {:?}: {inv:?}", A::MODULUS);
                let q = a.div(&b);
                let rq = Nat::from_limbs(&q.inner().0);
                ensure!(rq < m && rq.mulmod(&rb, &m) == ra, "div", "{a:?} / {b:?} modulo {:?}: {q:?}", A::MODULUS);
            }
            // order and equality are those of the representatives
            ensure!(a.cmp(&b) == ra.cmp(&rb) && (a == b) == (ra == rb) && (a < b) == (ra < rb), "order", "{a:?} {b:?}");
            let mut hex = String::from("0x");
            for x in ra.to_be(8 * $n) {
                hex.push_str(&format!("{x:02x}"));
            }
            ensure_eq!(format!("{a}"), hex, "display");
            is!(Fe::<A>::ZERO, Nat::zero(), "zero");
            is!(Fe::<A>::ONE, Nat::one(), "one");
            is!(A::MIN, Nat::zero(), "min");
            // between fields
            macro_rules! to_field { ($g:ty) => {{
                let e = ra.rem(&Nat::from_limbs(&<$g as FiniteField<$n>>::MODULUS.0));
                ensure!(a.convert::<$g>().inner().0[..] == e.limbs($n)[..], "convert", "{a:?} from modulus {:?} to {:?}", A::MODULUS, <$g as FiniteField<$n>>::MODULUS);
            }}; }
            convert!($n, to_field);
            Ok(())
        }
    };
}
macro_rules! convert {
    (3, $m:ident) => {
        $m!(P192);
        $m!(M61);
        $m!(A128)
    };
    (4, $m:ident) => {
        $m!(Secp256r1);
        $m!(Order);
        $m!(A192);
        $m!(T17)
    };
}
check!(check3, 3);
check!(check4, 4);

fn check(c: &Case, obs: &mut Obs) -> Res {
    let f = c.field % 20;
    obs.label(format!("field {f}"));
    match f {
        0 => check4::<Secp256r1>(c, obs),
        1 => check4::<Order>(c, obs),
        2 => check4::<K256>(c, obs),
        3 => check4::<M256>(c, obs),
        4 => check4::<M255>(c, obs),
        5 => check4::<A255>(c, obs),
        6 => check4::<A192>(c, obs),
        7 => check4::<M128>(c, obs),
        8 => check4::<M64>(c, obs),
        9 => check4::<T2>(c, obs),
        10 => check4::<T17>(c, obs),
        11 => check3::<P192>(c, obs),
        12 => check3::<M192>(c, obs),
        13 => check3::<M191>(c, obs),
        14 => check3::<M130>(c, obs),
        15 => check3::<M129>(c, obs),
        16 => check3::<A128>(c, obs),
        17 => check3::<M127>(c, obs),
        18 => check3::<M61>(c, obs),
        _ => check3::<T13>(c, obs),
    }
}

fn el() -> impl Strategy<Value = El> + Clone {
    prop_oneof![
        1 => (0..6u64).prop_map(El::Low),
        1 => limb().prop_map(El::Low),
        1 => (0..6u64).prop_map(El::High),
        1 => limb().prop_map(El::High),
        1 => (-4i8..=4).prop_map(El::Half),
        2 => (any::<u16>(), -3i8..=3).prop_map(|(k, d)| El::Pow(k, d)),
        1 => (-3i8..=3).prop_map(El::Gap),
        4 => limbs(4).prop_map(El::Limbs),
        4 => proptest::collection::vec(any::<u64>(), 4).prop_map(El::Limbs),
    ]
}

fn c08(run: &mut Run) {
    let mut tiny = vec![];
    for (field, p) in [(9u8, 2u64), (10, 17), (19, 13)] {
        for a in 0..p {
            for b in 0..p {
                tiny.push(Case { field, a: El::Low(a), b: El::Low(b), digit: a * p + b });
            }
        }
    }
    run.all("tiny-fields", tiny, check);
    let edges: Vec<El> = (0..4)
        .map(El::Low)
        .chain((0..4).map(El::High))
        .chain((-2..=2).map(El::Half))
        .chain((-2..=2).map(El::Gap))
        .chain([63, 64, 127, 128, 191, 192, 255].into_iter().flat_map(|k| [-1, 0, 1].map(|d| El::Pow(k, d))))
        .collect();
    let mut cases = vec![];
    for field in 0..20 {
        for a in &edges {
            for b in &edges {
                cases.push(Case { field, a: a.clone(), b: b.clone(), digit: F });
            }
        }
    }
    run.all("edge-pairs", cases, check);
    let field = prop_oneof![2 => Just(0u8), 2 => Just(1u8), 6 => 0..20u8];
    run.gen(
        "elements",
        24000,
        1200000,
        (field, el(), el(), prop_oneof![2 => limb(), 1 => 0..20u64]).prop_map(|(field, a, b, digit)| Case { field, a, b, digit }),
        check,
    );
}
