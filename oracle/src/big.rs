//! Small exact arithmetic: arbitrary-size integers and rationals, the reference for every exact check.

use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Big {
    neg: bool,
    mag: Vec<u32>, // little endian, no leading zeros; empty is zero (and then neg is false)
}

fn trim(v: &mut Vec<u32>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}

fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}

fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut out = Vec::with_capacity(a.len() + 1);
    let mut carry = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + *b.get(i).unwrap_or(&0) as u64 + carry;
        out.push(s as u32);
        carry = s >> 32;
    }
    if carry > 0 {
        out.push(carry as u32);
    }
    out
}

fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = Vec::with_capacity(a.len());
    let mut borrow = 0i64;
    for i in 0..a.len() {
        let mut d = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - borrow;
        borrow = if d < 0 {
            d += 1 << 32;
            1
        } else {
            0
        };
        out.push(d as u32);
    }
    trim(&mut out);
    out
}

fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut out = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut carry = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + out[i + j] as u64 + carry;
            out[i + j] = t as u32;
            carry = t >> 32;
        }
        let mut k = i + b.len();
        while carry > 0 {
            let t = out[k] as u64 + carry;
            out[k] = t as u32;
            carry = t >> 32;
            k += 1;
        }
    }
    trim(&mut out);
    out
}

fn shl1(v: &mut Vec<u32>) {
    let mut carry = 0u32;
    for x in v.iter_mut() {
        let n = *x >> 31;
        *x = (*x << 1) | carry;
        carry = n;
    }
    if carry > 0 {
        v.push(carry);
    }
}

fn to_u128(v: &[u32]) -> Option<u128> {
    if v.len() > 4 {
        return None;
    }
    let mut r = 0u128;
    for (i, x) in v.iter().enumerate() {
        r |= (*x as u128) << (32 * i);
    }
    Some(r)
}

fn from_u128(mut x: u128) -> Vec<u32> {
    let mut v = vec![];
    while x > 0 {
        v.push(x as u32);
        x >>= 32;
    }
    v
}

fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty(), "reference division by zero");
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if let (Some(x), Some(y)) = (to_u128(a), to_u128(b)) {
        return (from_u128(x / y), from_u128(x % y));
    }
    // Schoolbook binary long division: slow and plain, for the rare huge values.
    let mut q = vec![0u32; a.len()];
    let mut r: Vec<u32> = vec![];
    for i in (0..a.len() * 32).rev() {
        shl1(&mut r);
        if (a[i / 32] >> (i % 32)) & 1 == 1 {
            if r.is_empty() {
                r.push(1);
            } else {
                r[0] |= 1;
            }
        }
        if cmp_mag(&r, b) != Ordering::Less {
            r = sub_mag(&r, b);
            q[i / 32] |= 1 << (i % 32);
        }
    }
    trim(&mut q);
    (q, r)
}

fn gcd_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    if let (Some(mut x), Some(mut y)) = (to_u128(a), to_u128(b)) {
        while y > 0 {
            let t = x % y;
            x = y;
            y = t;
        }
        return from_u128(x);
    }
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    while !b.is_empty() {
        let (_, r) = divrem_mag(&a, &b);
        a = b;
        b = r;
    }
    a
}

impl Big {
    fn make(neg: bool, mut mag: Vec<u32>) -> Big {
        trim(&mut mag);
        Big {
            neg: neg && !mag.is_empty(),
            mag,
        }
    }
    pub fn from_i128(v: i128) -> Big {
        Big::make(v < 0, from_u128(v.unsigned_abs()))
    }
    pub fn from_u64(v: u64) -> Big {
        Big::make(false, from_u128(v as u128))
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn neg(&self) -> Big {
        Big::make(!self.neg, self.mag.clone())
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            Big::make(self.neg, add_mag(&self.mag, &o.mag))
        } else if cmp_mag(&self.mag, &o.mag) != Ordering::Less {
            Big::make(self.neg, sub_mag(&self.mag, &o.mag))
        } else {
            Big::make(o.neg, sub_mag(&o.mag, &self.mag))
        }
    }
    pub fn mul(&self, o: &Big) -> Big {
        Big::make(self.neg != o.neg, mul_mag(&self.mag, &o.mag))
    }
    pub fn bits(&self) -> u32 {
        match self.mag.last() {
            None => 0,
            Some(x) => 32 * self.mag.len() as u32 - x.leading_zeros(),
        }
    }
    pub fn to_i64(&self) -> Option<i64> {
        let m = to_u128(&self.mag)?;
        if self.neg {
            (m <= 1 << 63).then(|| (m as i128).wrapping_neg() as i64)
        } else {
            (m < 1 << 63).then_some(m as i64)
        }
    }
    pub fn is_neg(&self) -> bool {
        self.neg
    }
    /// Nearest-ish double (relative error below 2^-50).
    pub fn to_f64(&self) -> f64 {
        let mut r = 0f64;
        for x in self.mag.iter().rev() {
            r = r * 4294967296.0 + *x as f64;
        }
        if self.neg {
            -r
        } else {
            r
        }
    }
}

/// An exact rational: lowest terms, positive denominator.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Q {
    pub n: Big,
    pub d: Big,
}

impl Q {
    pub fn new(n: Big, d: Big) -> Q {
        assert!(!d.is_zero(), "reference division by zero");
        let g = gcd_mag(&n.mag, &d.mag);
        if g == [1] {
            return Q {
                n: Big::make(n.neg != d.neg, n.mag),
                d: Big::make(false, d.mag),
            };
        }
        let neg = n.neg != d.neg;
        Q {
            n: Big::make(neg, divrem_mag(&n.mag, &g).0),
            d: Big::make(false, divrem_mag(&d.mag, &g).0),
        }
    }
    pub fn int(v: i64) -> Q {
        Q {
            n: Big::from_i128(v as i128),
            d: Big::from_u64(1),
        }
    }
    pub fn rat(neg: bool, n: u64, d: u64) -> Q {
        let n = Big::from_u64(n);
        Q::new(if neg { n.neg() } else { n }, Big::from_u64(d))
    }
    pub fn zero() -> Q {
        Q::int(0)
    }
    pub fn one() -> Q {
        Q::int(1)
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn is_one(&self) -> bool {
        *self == Q::one()
    }
    pub fn neg(&self) -> Q {
        Q {
            n: self.n.neg(),
            d: self.d.clone(),
        }
    }
    pub fn add(&self, o: &Q) -> Q {
        Q::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d))
    }
    pub fn sub(&self, o: &Q) -> Q {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Q) -> Q {
        Q::new(self.n.mul(&o.n), self.d.mul(&o.d))
    }
    pub fn div(&self, o: &Q) -> Option<Q> {
        if o.is_zero() {
            None
        } else {
            Some(Q::new(self.n.mul(&o.d), self.d.mul(&o.n)))
        }
    }
    pub fn powi(&self, e: i64) -> Option<Q> {
        if !(-64..=64).contains(&e) || self.bits() as i64 * e.abs() > 20_000 {
            return None;
        }
        if e < 0 {
            return Q::one().div(&self.powi(-e)?);
        }
        // Powers of a reduced fraction are reduced.
        let mut r = Q::one();
        for _ in 0..e {
            r.n = r.n.mul(&self.n);
            r.d = r.d.mul(&self.d);
        }
        Some(r)
    }
    pub fn to_int(&self) -> Option<i64> {
        if self.d == Big::from_u64(1) {
            self.n.to_i64()
        } else {
            None
        }
    }
    pub fn to_f64(&self) -> f64 {
        // Scaled so that neither side overflows for the sizes the checks reach.
        self.n.to_f64() / self.d.to_f64()
    }
    pub fn sign(&self) -> i64 {
        if self.is_zero() {
            0
        } else if self.n.is_neg() {
            -1
        } else {
            1
        }
    }
    pub fn bits(&self) -> u32 {
        self.n.bits().max(self.d.bits())
    }
    pub fn show(&self) -> String {
        match (self.n.to_i64(), self.d.to_i64()) {
            (Some(n), Some(1)) => format!("{n}"),
            (Some(n), Some(d)) => format!("{n}/{d}"),
            _ => format!("~{:e}", self.to_f64()),
        }
    }
}
