//! C09 the P-256 group and C10 ECDSA.
use crate::fw::*;
use crate::gens::*;
use crate::refs::nat::Nat;
use crate::refs::p256::{be, curve, Pt, L, N, P};
use crate::{ensure, ensure_eq};
use crylib::big_int::UBigInt;
use crylib::ec::ecdsa::{sign, verify_signature, Signature};
use crylib::ec::{AffinePoint, EllipticCurve, ProjectivePoint, Secp256r1};
use crylib::finite_field::FieldElement;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::sync::OnceLock;

type Order = <Secp256r1 as EllipticCurve>::Order;
type Fp = FieldElement<4, Secp256r1>;
type Fn_ = FieldElement<4, Order>;
type Proj = ProjectivePoint<Secp256r1>;
type Aff = AffinePoint<Secp256r1>;

fn fp(l: &L) -> Fp {
    Fp::try_new(UBigInt(*l)).expect("below p")
}
fn sc(l: &L) -> Fn_ {
    Fn_::try_new(UBigInt(*l)).expect("below n")
}

/// A scalar modulo the group order.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sc {
    Low(u64),
    /// n - 1 - k
    High(u64),
    /// (n + 1)/2 + k
    Half(u8),
    /// 2^k
    Pow(u8),
    /// 2^k - 1
    Ones(u8),
    Any(L),
}
impl Sc {
    pub fn l(&self) -> L {
        let n = Nat::from_limbs(&N);
        let v = match self {
            Sc::Low(k) => Nat::from_u64(*k),
            Sc::High(k) => n.sub(&Nat::from_u64(1 + *k % (1 << 63))),
            Sc::Half(k) => n.add(&Nat::one()).shr(1).add(&Nat::from_u64(*k as u64)),
            Sc::Pow(k) => Nat::pow2(*k as usize),
            Sc::Ones(k) => Nat::pow2(*k as usize).sub(&Nat::one()),
            Sc::Any(l) => Nat::from_limbs(l),
        };
        curve().n.reduce(&v)
    }
}
pub fn scalar() -> impl Strategy<Value = Sc> + Clone {
    prop_oneof![
        2 => (0..24u64).prop_map(Sc::Low),
        1 => limb().prop_map(Sc::Low),
        2 => (0..24u64).prop_map(Sc::High),
        1 => (0..6u8).prop_map(Sc::Half),
        1 => any::<u8>().prop_map(Sc::Pow),
        1 => any::<u8>().prop_map(Sc::Ones),
        3 => limbs(4).prop_map(|v| Sc::Any(v.try_into().unwrap())),
        4 => any::<L>().prop_map(Sc::Any),
    ]
}

/// A point, with the projective representation it starts in.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum P0 {
    /// the constant
    Inf,
    /// (0, y, 0) for another y
    InfAs(L),
    /// small multiples of the base point, positive or negative
    Small(i8),
    Mul(Sc),
    /// the first x at or after this one that is on the curve
    AtX(L, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PSpec {
    p: P0,
    /// scales the representation
    z: L,
}
fn small(k: i8) -> Pt {
    static T: OnceLock<Vec<Pt>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let c = curve();
        let mut v = vec![None];
        for _ in 0..40 {
            let q = c.add(v.last().unwrap(), &c.g);
            v.push(q);
        }
        v
    });
    let q = t[k.unsigned_abs() as usize % 41];
    if k < 0 {
        curve().neg(&q)
    } else {
        q
    }
}
fn red_p(l: &L) -> L {
    curve().p.reduce(&Nat::from_limbs(l))
}
impl PSpec {
    fn model(&self) -> Pt {
        match &self.p {
            P0::Inf | P0::InfAs(_) => None,
            P0::Small(k) => small(*k),
            P0::Mul(s) => curve().mul(&s.l(), &curve().g),
            P0::AtX(x, odd) => {
                let mut x = red_p(x);
                loop {
                    if let Some(y) = curve().lift_x(&x, *odd) {
                        return Some((x, y));
                    }
                    x = curve().p.add_plain(&x, &[1, 0, 0, 0]);
                }
            }
        }
    }
    fn real(&self, m: &Pt) -> Proj {
        let z = red_p(&self.z);
        let z = if z == [0; 4] { [1, 0, 0, 0] } else { z };
        match m {
            None => match &self.p {
                P0::InfAs(y) => unsafe { Proj::new_unchecked(Fp::ZERO, fp(&red_p(y)), Fp::ZERO) },
                _ => Proj::POINT_AT_INF,
            },
            Some((x, y)) => {
                let f = &curve().p;
                unsafe { Proj::new_unchecked(fp(&f.mul_plain(x, &z)), fp(&f.mul_plain(y, &z)), fp(&z)) }
            }
        }
    }
}
fn pspec() -> impl Strategy<Value = PSpec> + Clone {
    let p = prop_oneof![
        2 => Just(P0::Inf),
        1 => prop_oneof![Just([1, 0, 0, 0]), any::<L>()].prop_map(P0::InfAs),
        6 => (-8i8..=8).prop_map(P0::Small),
        3 => (-40i8..=40).prop_map(P0::Small),
        3 => scalar().prop_map(P0::Mul),
        3 => (limbs(4), any::<bool>()).prop_map(|(x, o)| P0::AtX(x.try_into().unwrap(), o)),
        2 => (any::<L>(), any::<bool>()).prop_map(|(x, o)| P0::AtX(x, o)),
    ];
    let z = prop_oneof![3 => Just([1u64, 0, 0, 0]), 1 => limbs(4).prop_map(|x| x.try_into().unwrap()), 3 => any::<L>()];
    (p, z).prop_map(|(p, z)| PSpec { p, z })
}

/// `got` is the point `exp`, in any representation.
fn is(got: &Proj, exp: &Pt, sig: &str) -> Res {
    ensure!(got.is_infinity() == exp.is_none(), sig, "{sig}: is_infinity is {}, expected {exp:x?}", got.is_infinity());
    let a = got.as_affine();
    match (a, exp) {
        (None, None) => Ok(()),
        (Some(a), Some((x, y))) => {
            ensure!(a.x().inner().0 == *x && a.y().inner().0 == *y, sig, "{sig}: got {a:?}, expected {exp:x?}");
            Ok(())
        }
        _ => fail(sig, format!("{sig}: got {a:?}, expected {exp:x?}")),
    }
}
fn aff(m: &Pt) -> Option<Aff> {
    m.map(|(x, y)| Aff::new(fp(&x), fp(&y)).expect("on the curve"))
}

pub const C09: Prop = Prop {
    id: "C09",
    rule: "points (infinity in several representations, small multiples, arbitrary multiples, arbitrary x) with random projective scaling; pairs weighted to equal, opposite and infinity; scalars weighted to 0, small, n-small, powers of two and limb extremes; random sequences of group operations on four registers; the reference is Jacobian double-and-add with case analysis; non-trivial: a finite point is involved",
    assumptions: &["the affine sum of two opposite points is not representable and is excluded", "unsafe constructors are only given what they demand"],
    run: c09,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: PSpec,
    b: PSpec,
    rel: u8,
}

fn check_pair(c: &Pair, obs: &mut Obs) -> Res {
    let cv = curve();
    let ma = c.a.model();
    let a = c.a.real(&ma);
    // relation: independent, equal or opposite (with b's representation)
    let mb = match c.rel % 8 {
        0 | 1 => ma,
        2 => cv.neg(&ma),
        _ => c.b.model(),
    };
    let b = c.b.real(&mb);
    if ma.is_none() && mb.is_none() {
        obs.trivial();
    }
    obs.label(match (ma.is_none(), mb.is_none()) {
        (true, true) => "both infinity",
        (true, false) | (false, true) => "one infinity",
        _ if ma == mb => "equal",
        _ if ma == cv.neg(&mb) => "opposite",
        _ => "different",
    });
    is(&a, &ma, "as_affine")?;
    is(&b, &mb, "as_affine")?;
    let sum = cv.add(&ma, &mb);
    is(&a.add(&b), &sum, "add")?;
    let mut t = a;
    t.add_assign(&b);
    is(&t, &sum, "add_assign")?;
    let fast = if ma.is_none() || mb.is_none() { None } else { sum };
    is(&a.add_fast(&b), &fast, "add_fast")?;
    let mut t = a;
    t.add_assign_fast(&b);
    is(&t, &fast, "add_assign_fast")?;
    let dbl = cv.add(&ma, &ma);
    is(&a.double(), &dbl, "double")?;
    let mut t = a;
    t.double_assign();
    is(&t, &dbl, "double_assign")?;
    is(&a.neg(), &cv.neg(&ma), "neg")?;
    let mut t = a;
    t.neg_assign();
    is(&t, &cv.neg(&ma), "neg_assign")?;
    // equality, also with results of operations as operands
    for (x, mx) in [(a, ma), (a.double(), dbl), (a.add(&b), sum), (a.neg(), cv.neg(&ma))] {
        for (y, my) in [(b, mb), (b.double(), cv.add(&mb, &mb)), (a.add(&a.neg()), None), (Proj::POINT_AT_INF, None)] {
            ensure!((x == y) == (mx == my) && (y == x) == (mx == my), "eq", "{x:?} == {y:?} is {}, the points are {mx:x?} and {my:x?}", x == y);
        }
    }
    // affine forms
    if let (Some(fa), Some((x, y))) = (aff(&ma), ma) {
        ensure!(fa.x().inner().0 == x && fa.y().inner().0 == y && fa.x_ref().inner().0 == x && fa.y_ref().inner().0 == y, "affine-xy", "{fa:?}");
        is(&fa.as_projective(), &ma, "as_projective")?;
        is(&Proj::from(fa), &ma, "from-affine")?;
        ensure!(Aff::try_from(a).ok() == Some(fa), "affine-try-from", "{a:?}");
        is(&fa.double().as_projective(), &dbl, "affine-double")?;
        let mut t = fa;
        t.double_assign();
        is(&t.as_projective(), &dbl, "affine-double")?;
        is(&fa.neg().as_projective(), &cv.neg(&ma), "affine-neg")?;
        let mut t = fa;
        t.neg_assign();
        is(&t.as_projective(), &cv.neg(&ma), "affine-neg")?;
        if let (Some(fb), Some(_)) = (aff(&mb), sum) {
            is(&fa.add(&fb).as_projective(), &sum, "affine-add")?;
            ensure!((fa == fb) == (ma == mb), "affine-eq", "{fa:?} {fb:?}");
        }
    } else {
        ensure!(Aff::try_from(a).is_err(), "affine-try-from", "infinity converts to affine");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum GOp {
    Set(u8, P0),
    Add(u8, u8, u8),
    AddAssign(u8, u8),
    Double(u8, u8),
    DoubleAssign(u8),
    Neg(u8),
    Sub(u8, u8, u8),
    Mul(u8, u8, Sc),
    MulAssign(u8, Sc),
    ViaAffine(u8),
}

fn check_ops(c: &Vec<GOp>, obs: &mut Obs) -> Res {
    let cv = curve();
    let mut m: [Pt; 4] = [cv.g, cv.g, None, small(2)];
    let mut r: [Proj; 4] = [Secp256r1::BASE_POINT, Secp256r1::BASE_POINT, Proj::POINT_AT_INF, Secp256r1::BASE_POINT.double()];
    if c.is_empty() {
        obs.trivial();
    }
    let ix = |x: &u8| *x as usize % 4;
    for op in c {
        match op {
            GOp::Set(d, p) => {
                let s = PSpec { p: p.clone(), z: [1, 0, 0, 0] };
                m[ix(d)] = s.model();
                r[ix(d)] = s.real(&m[ix(d)]);
            }
            GOp::Add(d, a, b) => {
                let e = cv.add(&m[ix(a)], &m[ix(b)]);
                r[ix(d)] = r[ix(a)].add(&r[ix(b)]);
                m[ix(d)] = e;
            }
            GOp::AddAssign(a, b) => {
                let e = cv.add(&m[ix(a)], &m[ix(b)]);
                let y = r[ix(b)];
                r[ix(a)].add_assign(&y);
                m[ix(a)] = e;
            }
            GOp::Double(d, a) => {
                let e = cv.add(&m[ix(a)], &m[ix(a)]);
                r[ix(d)] = r[ix(a)].double();
                m[ix(d)] = e;
            }
            GOp::DoubleAssign(a) => {
                m[ix(a)] = cv.add(&m[ix(a)], &m[ix(a)]);
                r[ix(a)].double_assign();
            }
            GOp::Neg(a) => {
                m[ix(a)] = cv.neg(&m[ix(a)]);
                r[ix(a)].neg_assign();
            }
            GOp::Sub(d, a, b) => {
                let e = cv.add(&m[ix(a)], &cv.neg(&m[ix(b)]));
                r[ix(d)] = r[ix(a)].add(&r[ix(b)].neg());
                m[ix(d)] = e;
            }
            GOp::Mul(d, a, s) => {
                let e = cv.mul(&s.l(), &m[ix(a)]);
                r[ix(d)] = r[ix(a)].mul_scalar(&sc(&s.l()));
                m[ix(d)] = e;
            }
            GOp::MulAssign(a, s) => {
                m[ix(a)] = cv.mul(&s.l(), &m[ix(a)]);
                r[ix(a)].mul_scalar_assign(&sc(&s.l()));
            }
            GOp::ViaAffine(a) => {
                if let Some(p) = r[ix(a)].as_affine() {
                    r[ix(a)] = p.into();
                }
            }
        }
        obs.label(format!("{op:?}").split('(').next().unwrap_or("").to_string());
        for (i, (x, mx)) in r.iter().zip(&m).enumerate() {
            is(x, mx, "history")?;
            for (y, my) in r.iter().zip(&m).skip(i) {
                ensure!((x == y) == (mx == my), "eq", "{x:?} == {y:?} is {}, the points are {mx:x?} and {my:x?}", x == y);
            }
        }
    }
    Ok(())
}

fn c09(run: &mut Run) {
    // the constants
    run.all("constants", [0u8], |_, _| {
        let c = curve();
        is(&Secp256r1::BASE_POINT, &c.g, "base-point")?;
        is(&Proj::POINT_AT_INF, &None, "infinity")?;
        ensure!(<Secp256r1 as crylib::finite_field::FiniteField<4>>::MODULUS.0 == P && <Order as crylib::finite_field::FiniteField<4>>::MODULUS.0 == N, "modulus", "p or n");
        is(&Secp256r1::BASE_POINT.mul_scalar(&sc(&Sc::High(0).l())), &c.neg(&c.g), "order")?;
        Ok(())
    });
    let mut small_pairs = vec![];
    for i in -6i8..=6 {
        for j in -6i8..=6 {
            for z in [1u64, 0xdead] {
                let spec = |k: i8| PSpec { p: if k == 0 { P0::Inf } else { P0::Small(k) }, z: [z, 0, 0, 7 * (z - 1)] };
                small_pairs.push(Pair { a: spec(i), b: spec(j), rel: 7 });
            }
        }
    }
    run.all("small-pairs", small_pairs, check_pair);
    run.gen("pairs", 4000, 200000, (pspec(), pspec(), any::<u8>()).prop_map(|(a, b, rel)| Pair { a, b, rel }), check_pair);
    let reg = || 0..4u8;
    let op = prop_oneof![
        2 => (reg(), prop_oneof![1 => Just(P0::Inf), 4 => (-6i8..=6).prop_map(P0::Small), 1 => scalar().prop_map(P0::Mul)]).prop_map(|(d, p)| GOp::Set(d, p)),
        5 => (reg(), reg(), reg()).prop_map(|(d, a, b)| GOp::Add(d, a, b)),
        3 => (reg(), reg()).prop_map(|(a, b)| GOp::AddAssign(a, b)),
        3 => (reg(), reg()).prop_map(|(d, a)| GOp::Double(d, a)),
        2 => reg().prop_map(GOp::DoubleAssign),
        2 => reg().prop_map(GOp::Neg),
        3 => (reg(), reg(), reg()).prop_map(|(d, a, b)| GOp::Sub(d, a, b)),
        1 => (reg(), reg(), (0..5u64).prop_map(Sc::Low)).prop_map(|(d, a, s)| GOp::Mul(d, a, s)),
        1 => (reg(), reg(), scalar()).prop_map(|(d, a, s)| GOp::Mul(d, a, s)),
        1 => (reg(), scalar()).prop_map(|(a, s)| GOp::MulAssign(a, s)),
        1 => reg().prop_map(GOp::ViaAffine),
    ];
    run.gen("histories", 1200, 40000, vec(op, 1..12), check_ops);
    let mut edge = vec![];
    for k in 0..40u64 {
        edge.push((P0::Small(1), Sc::Low(k)));
        edge.push((P0::Small(1), Sc::High(k)));
        edge.push((P0::Small(-3), Sc::Low(k)));
        edge.push((P0::Small(5), Sc::High(k)));
    }
    for k in 0..=255u8 {
        edge.push((P0::Small(1), Sc::Pow(k)));
        edge.push((P0::Small(2), Sc::Ones(k)));
    }
    for k in 0..8 {
        edge.push((P0::Small(1), Sc::Half(k)));
        edge.push((P0::Inf, Sc::Low(k as u64)));
        edge.push((P0::InfAs([9, 9, 9, 9]), Sc::High(k as u64)));
    }
    let check_mul = |c: &(PSpec, Sc), obs: &mut Obs| -> Res {
        let m = c.0.model();
        if m.is_none() {
            obs.trivial();
        }
        let p = c.0.real(&m);
        let k = c.1.l();
        let e = curve().mul(&k, &m);
        is(&p.mul_scalar(&sc(&k)), &e, "mul_scalar")?;
        let mut t = p;
        t.mul_scalar_assign(&sc(&k));
        is(&t, &e, "mul_scalar_assign")
    };
    run.all("edge-scalars", edge.into_iter().map(|(p, s)| (PSpec { p, z: [1, 0, 0, 0] }, s)), check_mul);
    run.gen("scalars", 1600, 60000, (pspec(), scalar()), check_mul);
    // membership
    run.gen(
        "membership",
        6000,
        300000,
        (limbs(4), any::<bool>(), limbs(4), 0..6u8, 0..256usize),
        |(x, odd, y, mode, bit), obs| {
            let c = curve();
            let x: L = red_p(&x.clone().try_into().unwrap());
            let raw: L = red_p(&y.clone().try_into().unwrap());
            let (x, y): (L, L) = match mode {
                0 => (x, raw),
                1 => {
                    let Some((x, y)) = (PSpec { p: P0::AtX(x, *odd), z: [1, 0, 0, 0] }).model() else { unreachable!() };
                    (x, y)
                }
                _ => {
                    let Some((mut x, mut y)) = (PSpec { p: P0::AtX(x, *odd), z: [1, 0, 0, 0] }).model() else { unreachable!() };
                    match mode {
                        2 => y[bit / 64] ^= 1 << (bit % 64),
                        3 => x[bit / 64] ^= 1 << (bit % 64),
                        4 => std::mem::swap(&mut x, &mut y),
                        _ => y = [0; 4],
                    }
                    (red_p(&x), red_p(&y))
                }
            };
            let e = c.on_curve(&x, &y);
            obs.label(if e { "on the curve" } else { "off the curve" });
            ensure!(Aff::is_on_curve(&fp(&x), &fp(&y)) == e, "is_on_curve", "is_on_curve({x:x?}, {y:x?}) is not {e}");
            let n = Aff::new(fp(&x), fp(&y));
            ensure!(n.is_some() == e, "affine-new", "new({x:x?}, {y:x?}) is not {e}");
            if let Some(p) = n {
                ensure!(p.x().inner().0 == x && p.y().inner().0 == y, "affine-new-value", "{p:?}");
            }
            Ok(())
        },
    );
}

pub const C10: Prop = Prop {
    id: "C10",
    rule: "signing: generated keys, hashes and nonce sequences (zero nonces first, so that signing must retry); verification: signatures made by the reference, then one component changed (bit flips, plus/minus the order's complement, swapped, zero, negated), forged triples solved from the verification equation so that the two intermediate points are equal, opposite or infinite, infinite public keys, and random pairs; decided by the reference equation; non-trivial: every case",
    assumptions: &["collisions of the hash are not considered (the hash value is chosen freely through the hash argument)"],
    run: c10,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tweak {
    None,
    HashBit(u8),
    RBit(u8),
    SBit(u8),
    KeyNeg,
    KeyPlusG,
    KeyInf,
    /// s -> n - s stays valid
    NegS,
    NegR,
    Swap,
    ZeroR,
    ZeroS,
    BothZero,
    SetR(Sc),
    SetS(Sc),
    /// hash + n, if it fits: the same value
    HashPlusN,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Verify {
    d: Sc,
    k: Sc,
    e: L,
    z: L,
    t: Tweak,
}
fn hash_l(h: &L) -> L {
    curve().n.reduce(&Nat::from_limbs(h))
}
fn scale(q: &Pt, z: &L) -> Proj {
    PSpec { p: P0::Inf, z: *z }.real(q)
}

fn decide(q: &Pt, z: &L, h: &L, r: &L, s: &L, obs: &mut Obs) -> Res {
    let exp = curve().ecdsa_ok(&hash_l(h), q, r, s);
    obs.label(if exp { "valid" } else { "invalid" });
    let got = verify_signature(b"message", &scale(q, z), |m| if m == b"message" { be(h) } else { [0; 32] }, &Signature::new(sc(r), sc(s)));
    ensure!(got.is_ok() == exp, if exp { "refused-valid" } else { "accepted-invalid" }, "verification says {got:?}; key {q:x?} hash {h:x?} r {r:x?} s {s:x?}");
    Ok(())
}

fn check_verify(c: &Verify, obs: &mut Obs) -> Res {
    let cv = curve();
    let one = |x: L| if x == [0; 4] { [1, 0, 0, 0] } else { x };
    let (d, k) = (one(c.d.l()), one(c.k.l()));
    let mut h = c.e;
    let mut q = cv.mul(&d, &cv.g);
    let Some((mut r, mut s)) = cv.ecdsa_sign(&hash_l(&h), &d, &k) else {
        obs.trivial();
        return Ok(());
    };
    let flip = |x: &L, b: u8| {
        let mut y = *x;
        y[b as usize / 64] ^= 1 << (b % 64);
        hash_l(&y)
    };
    match &c.t {
        Tweak::None => {}
        Tweak::HashBit(b) => h[*b as usize / 64] ^= 1 << (b % 64),
        Tweak::RBit(b) => r = flip(&r, *b),
        Tweak::SBit(b) => s = flip(&s, *b),
        Tweak::KeyNeg => q = cv.neg(&q),
        Tweak::KeyPlusG => q = cv.add(&q, &cv.g),
        Tweak::KeyInf => q = None,
        Tweak::NegS => s = Nat::from_limbs(&N).sub(&Nat::from_limbs(&s)).limbs(4).try_into().unwrap(),
        Tweak::NegR => r = Nat::from_limbs(&N).sub(&Nat::from_limbs(&r)).limbs(4).try_into().unwrap(),
        Tweak::Swap => std::mem::swap(&mut r, &mut s),
        Tweak::ZeroR => r = [0; 4],
        Tweak::ZeroS => s = [0; 4],
        Tweak::BothZero => {
            r = [0; 4];
            s = [0; 4];
        }
        Tweak::SetR(x) => r = x.l(),
        Tweak::SetS(x) => s = x.l(),
        Tweak::HashPlusN => {
            let x = Nat::from_limbs(&hash_l(&h)).add(&Nat::from_limbs(&N));
            if x.bits() <= 256 {
                h = x.limbs(4).try_into().unwrap();
            }
        }
    }
    obs.label(format!("{:?}", c.t).split('(').next().unwrap_or("").to_string());
    decide(&q, &c.z, &h, &r, &s, obs)
}

/// Triples solved from the equation for given u, v: r = x(uG + vQ), s = r/v, e = u s.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Solve {
    u: Sc,
    v: Sc,
    d: Sc,
    z: L,
    mode: u8,
    /// for modes that leave r free
    r: Sc,
}
fn check_solved(c: &Solve, obs: &mut Obs) -> Res {
    let cv = curve();
    let f = &cv.n;
    let one = |x: L| if x == [0; 4] { [1, 0, 0, 0] } else { x };
    let u = c.u.l();
    let v = one(c.v.l());
    let neg = |x: &L| -> L { if *x == [0; 4] { *x } else { Nat::from_limbs(&N).sub(&Nat::from_limbs(x)).limbs(4).try_into().unwrap() } };
    let d = match c.mode % 4 {
        0 => one(c.d.l()),
        // vQ == uG
        1 => one(f.mul_plain(&u, &f.inv_plain(&v))),
        // vQ == -uG: the sum is infinity
        2 => one(f.mul_plain(&neg(&u), &f.inv_plain(&v))),
        // infinite key, r = x(uG)
        _ => [0; 4],
    };
    obs.label(["free", "equal points", "opposite points", "infinite key"][c.mode as usize % 4]);
    let q = cv.mul(&d, &cv.g);
    let r = match cv.add(&cv.mul(&u, &cv.g), &cv.mul(&v, &q)) {
        Some((x, _)) => f.reduce(&Nat::from_limbs(&x)),
        None => one(c.r.l()),
    };
    let s = f.mul_plain(&r, &f.inv_plain(&v));
    let h = f.mul_plain(&u, &s);
    decide(&q, &c.z, &h, &r, &s, obs)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SignCase {
    d: Sc,
    e: L,
    nonces: Vec<Sc>,
    /// chooses the hash so that the first non-zero nonce gives s = 0
    force_zero_s: bool,
}
fn check_sign(c: &SignCase, obs: &mut Obs) -> Res {
    let cv = curve();
    let d = {
        let d = c.d.l();
        if d == [0; 4] {
            [1, 0, 0, 0]
        } else {
            d
        }
    };
    let ks: Vec<L> = c.nonces.iter().map(|k| k.l()).collect();
    let mut h = c.e;
    if c.force_zero_s {
        if let Some((x, _)) = ks.iter().find(|k| **k != [0; 4]).and_then(|k| cv.mul(k, &cv.g)) {
            let rd = cv.n.mul_plain(&cv.n.reduce(&Nat::from_limbs(&x)), &d);
            h = Nat::from_limbs(&N).sub(&Nat::from_limbs(&rd)).limbs(4).try_into().unwrap();
        }
    }
    let e = hash_l(&h);
    // the standard: the first nonce that is non-zero and gives non-zero r and s
    let exp = ks.iter().enumerate().filter(|(_, k)| **k != [0; 4]).find_map(|(i, k)| cv.ecdsa_sign(&e, &d, k).map(|x| (i, x)));
    let Some((i, (r, s))) = exp else {
        obs.trivial();
        return Ok(());
    };
    if i > 0 {
        obs.label("retried");
    }
    let used = Cell::new(0);
    let sig = sign::<Secp256r1>(
        b"message",
        &sc(&d),
        |m| if m == b"message" { be(&h) } else { [0; 32] },
        || {
            let n = used.get();
            used.set(n + 1);
            assert!(n < ks.len(), "asked for another nonce after a usable one");
            sc(&ks[n])
        },
    );
    ensure!(sig == Signature::new(sc(&r), sc(&s)), "signature", "key {d:x?} hash {h:x?} nonces {ks:x?}: got {sig:?}, expected {r:x?} {s:x?}");
    ensure_eq!(used.get(), i + 1, "nonces-used");
    let q = Secp256r1::BASE_POINT.mul_scalar(&sc(&d));
    ensure!(verify_signature(b"message", &q, |_| be(&h), &sig).is_ok(), "own-signature", "the signature made with key {d:x?} is refused");
    Ok(())
}

fn c10(run: &mut Run) {
    let hash = || prop_oneof![2 => limbs(4).prop_map(|v| -> L { v.try_into().unwrap() }), 4 => any::<L>(), 2 => scalar().prop_map(|s| s.l()), 1 => Just(N)];
    let z = || prop_oneof![2 => Just([1u64, 0, 0, 0]), 1 => any::<L>()];
    let tweak = prop_oneof![
        4 => Just(Tweak::None),
        3 => any::<u8>().prop_map(Tweak::HashBit),
        3 => any::<u8>().prop_map(Tweak::RBit),
        3 => any::<u8>().prop_map(Tweak::SBit),
        1 => Just(Tweak::KeyNeg),
        1 => Just(Tweak::KeyPlusG),
        1 => Just(Tweak::KeyInf),
        2 => Just(Tweak::NegS),
        1 => Just(Tweak::NegR),
        1 => Just(Tweak::Swap),
        1 => Just(Tweak::ZeroR),
        1 => Just(Tweak::ZeroS),
        1 => Just(Tweak::BothZero),
        2 => scalar().prop_map(Tweak::SetR),
        2 => scalar().prop_map(Tweak::SetS),
        1 => Just(Tweak::HashPlusN),
    ];
    run.gen(
        "sign",
        800,
        30000,
        (scalar(), hash(), vec(prop_oneof![1 => Just(Sc::Low(0)), 3 => scalar()], 1..4), proptest::bool::weighted(0.3))
            .prop_map(|(d, e, nonces, force_zero_s)| SignCase { d, e, nonces, force_zero_s }),
        check_sign,
    );
    run.gen("verify", 2400, 100000, (scalar(), scalar(), hash(), z(), tweak).prop_map(|(d, k, e, z, t)| Verify { d, k, e, z, t }), check_verify);
    run.gen(
        "solved",
        1600,
        60000,
        (scalar(), scalar(), scalar(), z(), any::<u8>(), scalar()).prop_map(|(u, v, d, z, mode, r)| Solve { u, v, d, z, mode, r }),
        check_solved,
    );
}
