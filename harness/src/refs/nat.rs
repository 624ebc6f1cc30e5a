//! Arbitrary-precision naturals and signed integers, schoolbook only.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Nat(Vec<u32>); // little endian, no leading zeros

impl Nat {
    pub fn zero() -> Self {
        Nat(vec![])
    }
    pub fn from_u64(x: u64) -> Self {
        Nat(vec![x as u32, (x >> 32) as u32]).trim()
    }
    pub fn one() -> Self {
        Self::from_u64(1)
    }
    fn trim(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn from_limbs(l: &[u64]) -> Self {
        Nat(l.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect()).trim()
    }
    pub fn from_be(b: &[u8]) -> Self {
        let mut n = Nat::zero();
        for c in b {
            n = n.shl(8).add(&Nat::from_u64(*c as u64));
        }
        n
    }
    /// The low `n` limbs.
    pub fn limbs(&self, n: usize) -> Vec<u64> {
        (0..n)
            .map(|i| self.word(2 * i) as u64 | (self.word(2 * i + 1) as u64) << 32)
            .collect()
    }
    pub fn to_le(&self, n: usize) -> Vec<u8> {
        (0..n).map(|i| (self.word(i / 4) >> (8 * (i % 4))) as u8).collect()
    }
    pub fn to_be(&self, n: usize) -> Vec<u8> {
        let mut v = self.to_le(n);
        v.reverse();
        v
    }
    fn word(&self, i: usize) -> u32 {
        self.0.get(i).copied().unwrap_or(0)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(t) => 32 * self.0.len() - t.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        self.word(i / 32) >> (i % 32) & 1 == 1
    }
    pub fn pow2(k: usize) -> Self {
        Nat::one().shl(k)
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.0.len().max(o.0.len()) + 1;
        let mut c = 0u64;
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            c += self.word(i) as u64 + o.word(i) as u64;
            v.push(c as u32);
            c >>= 32;
        }
        Nat(v).trim()
    }
    /// `self - o`, which must not be negative.
    pub fn sub(&self, o: &Nat) -> Nat {
        assert!(self >= o);
        let mut borrow = 0i64;
        let mut v = Vec::with_capacity(self.0.len());
        for i in 0..self.0.len() {
            let mut d = self.word(i) as i64 - o.word(i) as i64 - borrow;
            borrow = (d < 0) as i64;
            if d < 0 {
                d += 1 << 32;
            }
            v.push(d as u32);
        }
        Nat(v).trim()
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut v = vec![0u32; self.0.len() + o.0.len() + 1];
        for i in 0..self.0.len() {
            let mut c = 0u64;
            for j in 0..o.0.len() {
                c += v[i + j] as u64 + self.0[i] as u64 * o.0[j] as u64;
                v[i + j] = c as u32;
                c >>= 32;
            }
            let mut k = i + o.0.len();
            while c > 0 {
                c += v[k] as u64;
                v[k] = c as u32;
                c >>= 32;
                k += 1;
            }
        }
        Nat(v).trim()
    }
    pub fn shl(&self, k: usize) -> Nat {
        let (w, b) = (k / 32, k % 32);
        let mut v = vec![0u32; self.0.len() + w + 1];
        for (i, x) in self.0.iter().enumerate() {
            let t = (*x as u64) << b;
            v[i + w] |= t as u32;
            v[i + w + 1] |= (t >> 32) as u32;
        }
        Nat(v).trim()
    }
    pub fn shr(&self, k: usize) -> Nat {
        let (w, b) = (k / 32, k % 32);
        let n = self.0.len().saturating_sub(w);
        Nat((0..n).map(|i| ((self.word(i + w) as u64 | (self.word(i + w + 1) as u64) << 32) >> b) as u32).collect()).trim()
    }
    /// The low `k` bits.
    pub fn low(&self, k: usize) -> Nat {
        let mut v: Vec<u32> = self.0.iter().copied().take(k.div_ceil(32)).collect();
        if k % 32 != 0 && v.len() == k / 32 + 1 {
            v[k / 32] &= (1u32 << (k % 32)) - 1;
        }
        Nat(v).trim()
    }
    /// Binary long division.
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero());
        let mut q = vec![0u32; self.0.len()];
        let mut r = vec![0u32; d.0.len() + 1];
        for i in (0..self.bits()).rev() {
            // r = 2r + bit
            let mut c = self.bit(i) as u32;
            for w in r.iter_mut() {
                let n = *w >> 31;
                *w = *w << 1 | c;
                c = n;
            }
            // compare r with d
            let mut ge = true;
            for k in (0..r.len()).rev() {
                let dk = d.word(k);
                if r[k] != dk {
                    ge = r[k] > dk;
                    break;
                }
            }
            if ge {
                let mut borrow = 0i64;
                for (k, w) in r.iter_mut().enumerate() {
                    let mut t = *w as i64 - d.word(k) as i64 - borrow;
                    borrow = (t < 0) as i64;
                    if t < 0 {
                        t += 1 << 32;
                    }
                    *w = t as u32;
                }
                q[i / 32] |= 1 << (i % 32);
            }
        }
        (Nat(q).trim(), Nat(r).trim())
    }
    pub fn rem(&self, d: &Nat) -> Nat {
        if self < d {
            return self.clone();
        }
        self.divrem(d).1
    }
    pub fn addmod(&self, o: &Nat, m: &Nat) -> Nat {
        self.add(o).rem(m)
    }
    pub fn submod(&self, o: &Nat, m: &Nat) -> Nat {
        self.rem(m).add(m).sub(&o.rem(m)).rem(m)
    }
    pub fn mulmod(&self, o: &Nat, m: &Nat) -> Nat {
        self.mul(o).rem(m)
    }
    pub fn powmod(&self, e: &Nat, m: &Nat) -> Nat {
        let mut r = Nat::one().rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mulmod(&r, m);
            if e.bit(i) {
                r = r.mulmod(self, m);
            }
        }
        r
    }
    /// Inverse modulo a prime, by Fermat.
    pub fn invmod(&self, m: &Nat) -> Nat {
        self.powmod(&m.sub(&Nat::from_u64(2)), m)
    }
    fn zip(&self, o: &Nat, f: impl Fn(u32, u32) -> u32) -> Nat {
        Nat((0..self.0.len().max(o.0.len())).map(|i| f(self.word(i), o.word(i))).collect()).trim()
    }
    pub fn and(&self, o: &Nat) -> Nat {
        self.zip(o, |a, b| a & b)
    }
    pub fn or(&self, o: &Nat) -> Nat {
        self.zip(o, |a, b| a | b)
    }
    pub fn xor(&self, o: &Nat) -> Nat {
        self.zip(o, |a, b| a ^ b)
    }
}

impl PartialOrd for Nat {
    fn partial_cmp(&self, o: &Nat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Nat {
    fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}

/// A signed integer: sign and magnitude, no negative zero.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Int {
    pub neg: bool,
    pub mag: Nat,
}
impl Int {
    pub fn new(neg: bool, mag: Nat) -> Self {
        Int { neg: neg && !mag.is_zero(), mag }
    }
    /// Two's complement of `limbs`.
    pub fn from_limbs(l: &[u64]) -> Self {
        let n = Nat::from_limbs(l);
        if l.last().unwrap() >> 63 == 1 {
            Int::new(true, Nat::pow2(64 * l.len()).sub(&n))
        } else {
            Int::new(false, n)
        }
    }
    /// Two's complement modulo 2^(64 n).
    pub fn limbs(&self, n: usize) -> Vec<u64> {
        let m = self.mag.low(64 * n);
        if self.neg && !m.is_zero() {
            Nat::pow2(64 * n).sub(&m).limbs(n)
        } else {
            m.limbs(n)
        }
    }
    pub fn negated(&self) -> Int {
        Int::new(!self.neg, self.mag.clone())
    }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            Int::new(self.neg, self.mag.add(&o.mag))
        } else if self.mag >= o.mag {
            Int::new(self.neg, self.mag.sub(&o.mag))
        } else {
            Int::new(o.neg, o.mag.sub(&self.mag))
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.negated())
    }
    pub fn mul(&self, o: &Int) -> Int {
        Int::new(self.neg != o.neg, self.mag.mul(&o.mag))
    }
}
impl PartialOrd for Int {
    fn partial_cmp(&self, o: &Int) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Int {
    fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
        }
    }
}

pub fn selftest() {
    let mut x = 12345u64;
    let mut rnd = || {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        x >> 1
    };
    for _ in 0..2000 {
        let a = rnd() as u128 | (rnd() as u128) << 63;
        let b = (rnd() as u128 | (rnd() as u128) << 63) >> (rnd() % 120);
        let n = |v: u128| Nat::from_limbs(&[v as u64, (v >> 64) as u64]);
        if b != 0 {
            assert_eq!(n(a).divrem(&n(b)), (n(a / b), n(a % b)));
        }
        if a >= b {
            assert_eq!(n(a).sub(&n(b)), n(a - b));
        }
        assert_eq!(n(a).mul(&n(b)).low(128), n(a.wrapping_mul(b)));
        assert_eq!(n(a >> 2).add(&n(b >> 2)), n((a >> 2) + (b >> 2)));
        assert_eq!(n(a).shr(37), n(a >> 37));
        assert_eq!(n(a).shl(37).shr(37), n(a));
        assert_eq!(n(a).cmp(&n(b)), a.cmp(&b));
        assert_eq!(Nat::from_be(&a.to_be_bytes()), n(a));
        assert_eq!(n(a).to_be(16), a.to_be_bytes().to_vec());
        let (q, r) = n(a).mul(&n(b)).add(&n(b >> 1)).divrem(&n(b.max(1)));
        if b != 0 {
            assert_eq!((q, r), (n(a), n(b >> 1)));
        }
    }
}
