//! NIST P-256 group and ECDSA from the textbook: Jacobian coordinates, double
//! and add with explicit case analysis, Montgomery limbs checked against Nat.
use super::nat::Nat;
use std::sync::OnceLock;

pub type L = [u64; 4];

pub struct Field {
    pub m: L,
    pub n: Nat,
    ninv: u64,
    r2: L,
    one: L,
}

fn geq(a: &L, b: &L) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &L, b: &L) -> L {
    let mut r = [0; 4];
    let mut borrow = 0i128;
    for i in 0..4 {
        let d = a[i] as i128 - b[i] as i128 - borrow;
        borrow = (d < 0) as i128;
        r[i] = d as u64;
    }
    r
}

impl Field {
    pub fn new(m: L) -> Self {
        let n = Nat::from_limbs(&m);
        let mut ninv = 1u64;
        for _ in 0..6 {
            ninv = ninv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(ninv)));
        }
        let ninv = ninv.wrapping_neg();
        let arr = |x: Nat| -> L { x.limbs(4).try_into().unwrap() };
        Field { m, r2: arr(Nat::pow2(512).rem(&n)), one: arr(Nat::pow2(256).rem(&n)), n, ninv }
    }
    /// Montgomery product.
    fn mm(&self, a: &L, b: &L) -> L {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[j] as u128 + a[i] as u128 * b[j] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let q = t[0].wrapping_mul(self.ninv);
            let mut c = (t[0] as u128 + q as u128 * self.m[0] as u128) >> 64;
            for j in 1..4 {
                c += t[j] as u128 + q as u128 * self.m[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[3] = c as u64;
            t[4] = t[5] + (c >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, &self.m) {
            sub_raw(&r, &self.m)
        } else {
            r
        }
    }
    pub fn enter(&self, a: &L) -> L {
        self.mm(a, &self.r2)
    }
    pub fn leave(&self, a: &L) -> L {
        self.mm(a, &[1, 0, 0, 0])
    }
    fn add(&self, a: &L, b: &L) -> L {
        let mut r = [0; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += a[i] as u128 + b[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        if c != 0 || geq(&r, &self.m) {
            sub_raw(&r, &self.m)
        } else {
            r
        }
    }
    fn sub(&self, a: &L, b: &L) -> L {
        if geq(a, b) {
            sub_raw(a, b)
        } else {
            sub_raw(&self.m, &sub_raw(b, a))
        }
    }
    fn pow(&self, a: &L, e: &Nat) -> L {
        let mut r = self.one;
        for i in (0..e.bits()).rev() {
            r = self.mm(&r, &r);
            if e.bit(i) {
                r = self.mm(&r, a);
            }
        }
        r
    }
    fn inv(&self, a: &L) -> L {
        self.pow(a, &self.n.sub(&Nat::from_u64(2)))
    }
    // plain-domain helpers
    pub fn mul_plain(&self, a: &L, b: &L) -> L {
        self.leave(&self.mm(&self.enter(a), &self.enter(b)))
    }
    pub fn add_plain(&self, a: &L, b: &L) -> L {
        self.add(a, b)
    }
    pub fn inv_plain(&self, a: &L) -> L {
        self.leave(&self.inv(&self.enter(a)))
    }
    pub fn reduce(&self, x: &Nat) -> L {
        x.rem(&self.n).limbs(4).try_into().unwrap()
    }
}

pub const P: L = [0xffffffffffffffff, 0x00000000ffffffff, 0, 0xffffffff00000001];
pub const N: L = [0xf3b9cac2fc632551, 0xbce6faada7179e84, 0xffffffffffffffff, 0xffffffff00000000];

pub struct Curve {
    pub p: Field,
    pub n: Field,
    a: L,
    b: L,
    pub g: Pt,
}

/// Affine point in plain (non-Montgomery) coordinates; `None` is infinity.
pub type Pt = Option<(L, L)>;

#[derive(Clone, Copy)]
struct Jac {
    x: L,
    y: L,
    z: L,
}

fn lim(s: &str) -> L {
    Nat::from_be(&super::hex(s)).limbs(4).try_into().unwrap()
}

pub fn curve() -> &'static Curve {
    static C: OnceLock<Curve> = OnceLock::new();
    C.get_or_init(|| {
        let p = Field::new(P);
        let a = p.enter(&sub_raw(&P, &[3, 0, 0, 0]));
        let b = p.enter(&lim("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"));
        Curve {
            a,
            b,
            g: Some((
                lim("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
                lim("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
            )),
            p,
            n: Field::new(N),
        }
    })
}

impl Curve {
    fn jac(&self, p: &Pt) -> Jac {
        match p {
            None => Jac { x: self.p.one, y: self.p.one, z: [0; 4] },
            Some((x, y)) => Jac { x: self.p.enter(x), y: self.p.enter(y), z: self.p.one },
        }
    }
    fn aff(&self, j: &Jac) -> Pt {
        if j.z == [0; 4] {
            return None;
        }
        let f = &self.p;
        let zi = f.inv(&j.z);
        let z2 = f.mm(&zi, &zi);
        Some((f.leave(&f.mm(&j.x, &z2)), f.leave(&f.mm(&j.y, &f.mm(&z2, &zi)))))
    }
    fn jdbl(&self, p: &Jac) -> Jac {
        let f = &self.p;
        if p.z == [0; 4] || p.y == [0; 4] {
            return self.jac(&None);
        }
        let yy = f.mm(&p.y, &p.y);
        let s = f.mm(&p.x, &yy);
        let s = f.add(&s, &s);
        let s = f.add(&s, &s);
        let xx = f.mm(&p.x, &p.x);
        let zz = f.mm(&p.z, &p.z);
        let m = f.add(&f.add(&xx, &f.add(&xx, &xx)), &f.mm(&self.a, &f.mm(&zz, &zz)));
        let x = f.sub(&f.mm(&m, &m), &f.add(&s, &s));
        let mut y4 = f.mm(&yy, &yy);
        for _ in 0..3 {
            y4 = f.add(&y4, &y4);
        }
        let y = f.sub(&f.mm(&m, &f.sub(&s, &x)), &y4);
        let z = f.mm(&p.y, &p.z);
        Jac { x, y, z: f.add(&z, &z) }
    }
    fn jadd(&self, p: &Jac, q: &Jac) -> Jac {
        let f = &self.p;
        if p.z == [0; 4] {
            return *q;
        }
        if q.z == [0; 4] {
            return *p;
        }
        let z1 = f.mm(&p.z, &p.z);
        let z2 = f.mm(&q.z, &q.z);
        let u1 = f.mm(&p.x, &z2);
        let u2 = f.mm(&q.x, &z1);
        let s1 = f.mm(&p.y, &f.mm(&z2, &q.z));
        let s2 = f.mm(&q.y, &f.mm(&z1, &p.z));
        if u1 == u2 {
            return if s1 == s2 { self.jdbl(p) } else { self.jac(&None) };
        }
        let h = f.sub(&u2, &u1);
        let r = f.sub(&s2, &s1);
        let hh = f.mm(&h, &h);
        let hhh = f.mm(&hh, &h);
        let v = f.mm(&u1, &hh);
        let x = f.sub(&f.sub(&f.mm(&r, &r), &hhh), &f.add(&v, &v));
        let y = f.sub(&f.mm(&r, &f.sub(&v, &x)), &f.mm(&s1, &hhh));
        Jac { x, y, z: f.mm(&h, &f.mm(&p.z, &q.z)) }
    }
    pub fn add(&self, p: &Pt, q: &Pt) -> Pt {
        self.aff(&self.jadd(&self.jac(p), &self.jac(q)))
    }
    pub fn neg(&self, p: &Pt) -> Pt {
        p.map(|(x, y)| (x, self.p.sub(&[0; 4], &y)))
    }
    pub fn mul(&self, k: &L, p: &Pt) -> Pt {
        let b = self.jac(p);
        let k = Nat::from_limbs(k);
        let mut r = self.jac(&None);
        for i in (0..k.bits()).rev() {
            r = self.jdbl(&r);
            if k.bit(i) {
                r = self.jadd(&r, &b);
            }
        }
        self.aff(&r)
    }
    pub fn on_curve(&self, x: &L, y: &L) -> bool {
        if geq(x, &P) || geq(y, &P) {
            return false;
        }
        let f = &self.p;
        let (x, y) = (f.enter(x), f.enter(y));
        f.mm(&y, &y) == self.rhs(&x)
    }
    fn rhs(&self, x: &L) -> L {
        let f = &self.p;
        f.add(&f.add(&f.mm(&f.mm(x, x), x), &f.mm(&self.a, x)), &self.b)
    }
    /// The y with the given parity, if `x` is on the curve.
    pub fn lift_x(&self, x: &L, odd: bool) -> Option<L> {
        if geq(x, &P) {
            return None;
        }
        let f = &self.p;
        let c = self.rhs(&f.enter(x));
        let y = f.pow(&c, &f.n.add(&Nat::one()).shr(2));
        if f.mm(&y, &y) != c {
            return None;
        }
        let y = f.leave(&y);
        Some(if (y[0] & 1 == 1) == odd { y } else { f.sub(&[0; 4], &y) })
    }
    /// The standard ECDSA equation for the hash value `e` (already reduced mod n).
    pub fn ecdsa_ok(&self, e: &L, q: &Pt, r: &L, s: &L) -> bool {
        let zero = [0u64; 4];
        if *r == zero || *s == zero || geq(r, &N) || geq(s, &N) {
            return false;
        }
        let Some((qx, qy)) = q else { return false };
        if !self.on_curve(qx, qy) {
            return false;
        }
        let w = self.n.inv_plain(s);
        let u1 = self.n.mul_plain(e, &w);
        let u2 = self.n.mul_plain(r, &w);
        match self.add(&self.mul(&u1, &self.g), &self.mul(&u2, q)) {
            None => false,
            Some((x, _)) => self.n.reduce(&Nat::from_limbs(&x)) == *r,
        }
    }
    /// The signature for hash value `e`, key `d`, nonce `k`; `None` if r or s is zero.
    pub fn ecdsa_sign(&self, e: &L, d: &L, k: &L) -> Option<(L, L)> {
        let (x, _) = self.mul(k, &self.g)?;
        let r = self.n.reduce(&Nat::from_limbs(&x));
        let t = self.n.add_plain(e, &self.n.mul_plain(&r, d));
        let s = self.n.mul_plain(&self.n.inv_plain(k), &t);
        if r == [0; 4] || s == [0; 4] {
            return None;
        }
        Some((r, s))
    }
}

pub fn be(l: &L) -> [u8; 32] {
    let mut o = [0; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&l[3 - i].to_be_bytes());
    }
    o
}
pub fn from_be(b: &[u8; 32]) -> L {
    let mut o = [0; 4];
    for i in 0..4 {
        o[3 - i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    o
}

pub fn selftest() {
    let c = curve();
    // Montgomery against Nat
    let mut x = 7u64;
    let mut rnd = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    for f in [&c.p, &c.n] {
        for _ in 0..500 {
            let a = f.reduce(&Nat::from_limbs(&[rnd(), rnd(), rnd(), rnd()]));
            let b = f.reduce(&Nat::from_limbs(&[rnd(), rnd(), rnd(), rnd()]));
            let (na, nb) = (Nat::from_limbs(&a), Nat::from_limbs(&b));
            assert_eq!(Nat::from_limbs(&f.mul_plain(&a, &b)), na.mulmod(&nb, &f.n));
            assert_eq!(Nat::from_limbs(&f.add(&a, &b)), na.addmod(&nb, &f.n));
            assert_eq!(Nat::from_limbs(&f.sub(&a, &b)), na.submod(&nb, &f.n));
        }
    }
    let (gx, gy) = c.g.unwrap();
    assert!(c.on_curve(&gx, &gy));
    assert_eq!(c.mul(&N, &c.g), None);
    let k = lim("519b423d715f8b581f4fa8ee59f4771a5b44c8130b4e3eacca54a56dda72b464");
    let q = c.mul(&k, &c.g).unwrap();
    assert_eq!(q.0, lim("1ccbe91c075fc7f4f033bfa248db8fccd3565de94bbfb12f3c59ff46c271bf83"));
    assert_eq!(q.1, lim("ce4014c68811f9a21a1fdb2c0e6113e06db7ca93b7404e78dc7ccd5ca89a4ca9"));
    assert_eq!(c.add(&Some(q), &c.neg(&Some(q))), None);
    assert_eq!(c.add(&c.g, &c.g), c.mul(&[2, 0, 0, 0], &c.g));
    let y = c.lift_x(&gx, gy[0] & 1 == 1).unwrap();
    assert_eq!(y, gy);
    // RFC 6979 A.2.5, SHA-256, "sample"
    let d = lim("C9AFA9D845BA75166B5C215767B1D6934E50C3DB36E89B127B8A622B120F6721");
    let kk = lim("A6E3C57DD01ABE90086538398355DD4C3B17AA873382B0F24D6129493D8AAD60");
    let e = c.n.reduce(&Nat::from_be(&super::hash::sha256(b"sample")));
    let (r, s) = c.ecdsa_sign(&e, &d, &kk).unwrap();
    assert_eq!(r, lim("EFD48B2AACB6A8FD1140DD9CD45E81D69D2C877B56AAF991C34D0EA84EAF3716"));
    assert_eq!(s, lim("F7CB1C942D657C41D436C7A1B6E29F65F3E900DBB9AFF4064DC4AB2F843ACDA8"));
    assert!(c.ecdsa_ok(&e, &c.mul(&d, &c.g), &r, &s));
}
