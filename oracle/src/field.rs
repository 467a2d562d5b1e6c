//! Expressions evaluated in a prime field at random points, with functions and general powers
//! uninterpreted (a hash of their arguments): two expressions that agree here are equal by the
//! field axioms alone (up to a chance of about 2^-60), whatever the functions mean and wherever
//! they are defined.

use crate::expr::{B, E, U};

pub const P: u64 = (1 << 61) - 1;

pub fn mulm(a: u64, b: u64) -> u64 {
    let x = a as u128 * b as u128;
    let (lo, hi) = ((x & P as u128) as u64, (x >> 61) as u64);
    let s = lo + hi;
    if s >= P {
        s - P
    } else {
        s
    }
}
pub fn addm(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P {
        s - P
    } else {
        s
    }
}
pub fn negm(a: u64) -> u64 {
    if a == 0 {
        0
    } else {
        P - a
    }
}
pub fn powm(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a);
        }
        a = mulm(a, a);
        e >>= 1;
    }
    r
}

fn mix(mut h: u64) -> u64 {
    h = h.wrapping_add(0x9e3779b97f4a7c15);
    h = (h ^ (h >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    h = (h ^ (h >> 27)).wrapping_mul(0x94d049bb133111eb);
    h ^ (h >> 31)
}
pub fn hash(tag: u64, salt: u64, xs: &[u64]) -> u64 {
    let mut h = mix(tag ^ mix(salt));
    for x in xs {
        h = mix(h ^ *x);
    }
    h % P
}

/// None where a divisor is zero in the field.
pub fn eval(e: &E, salt: u64) -> Option<u64> {
    Some(match e {
        E::Int(i) => {
            let m = i.unsigned_abs() % P;
            if *i < 0 {
                negm(m)
            } else {
                m
            }
        }
        E::Rat(neg, n, d) => {
            let d = d % P;
            if d == 0 {
                return None;
            }
            let q = mulm(n % P, powm(d, P - 2));
            if *neg {
                negm(q)
            } else {
                q
            }
        }
        // Reals are binary fractions: exact in the field.
        E::Real(x) => {
            if !x.is_finite() {
                return None;
            }
            let bits = x.abs().to_bits();
            let ex = (bits >> 52) as i64;
            let man = (bits & ((1 << 52) - 1)) | if ex == 0 { 0 } else { 1 << 52 };
            let sh = ex.max(1) - 1075;
            let two = powm(2, sh.unsigned_abs());
            let v = mulm(man % P, if sh < 0 { powm(two, P - 2) } else { two });
            if *x < 0.0 {
                negm(v)
            } else {
                v
            }
        }
        E::Pi => hash(1, salt, &[]),
        E::Eul => hash(2, salt, &[]),
        E::Var(n) => {
            let bytes: Vec<u64> = n.bytes().map(|b| b as u64).collect();
            hash(3, salt, &bytes)
        }
        E::Un(u, a) => {
            let a = eval(a, salt)?;
            match u {
                U::Neg => negm(a),
                U::Sin => hash(11, salt, &[a]),
                U::Cos => hash(12, salt, &[a]),
                U::Exp => hash(13, salt, &[a]),
                U::Ln => hash(14, salt, &[a]),
            }
        }
        E::Bin(b, l, r) => {
            let (l, r) = (eval(l, salt)?, eval(r, salt)?);
            match b {
                B::Add => addm(l, r),
                B::Sub => addm(l, negm(r)),
                B::Mul => mulm(l, r),
                B::Div => {
                    if r == 0 {
                        return None;
                    }
                    mulm(l, powm(r, P - 2))
                }
                // Small integer exponents are true powers (0^0 = 1), any other power is opaque.
                B::Pow => {
                    if r <= 64 {
                        powm(l, r)
                    } else if P - r <= 64 && l != 0 {
                        powm(powm(l, P - 2), P - r)
                    } else {
                        hash(15, salt, &[l, r])
                    }
                }
            }
        }
    })
}

/// Some(true/false) when both have values in the field at some salt.
pub fn agree(a: &E, b: &E) -> Option<bool> {
    let mut any = None;
    for salt in [0x1234_5678_9abc, 0x0fed_cba9_8765] {
        match (eval(a, salt), eval(b, salt)) {
            (Some(x), Some(y)) => {
                if x != y {
                    return Some(false);
                }
                any = Some(true);
            }
            (Some(_), None) | (None, Some(_)) => return Some(false),
            (None, None) => {}
        }
    }
    any
}

/// The derivative by the rules, in the field; powers need a small whole number as exponent.
pub fn derivative(e: &E, by: &str, salt: u64) -> Option<u64> {
    both(e, by, salt).map(|x| x.1)
}

fn both(e: &E, by: &str, salt: u64) -> Option<(u64, u64)> {
    Some(match e {
        E::Var(n) => (eval(e, salt)?, (n == by) as u64),
        E::Un(u, a) => {
            let (v, d) = both(a, by, salt)?;
            match u {
                U::Neg => (negm(v), negm(d)),
                U::Sin => (hash(11, salt, &[v]), mulm(hash(12, salt, &[v]), d)),
                U::Cos => (hash(12, salt, &[v]), negm(mulm(hash(11, salt, &[v]), d))),
                U::Exp => (hash(13, salt, &[v]), mulm(hash(13, salt, &[v]), d)),
                U::Ln if v == 0 => return None,
                U::Ln => (hash(14, salt, &[v]), mulm(d, powm(v, P - 2))),
            }
        }
        E::Bin(b, l, r) => {
            let (v, d) = both(l, by, salt)?;
            let (w, f) = both(r, by, salt)?;
            match b {
                B::Add => (addm(v, w), addm(d, f)),
                B::Sub => (addm(v, negm(w)), addm(d, negm(f))),
                B::Mul => (mulm(v, w), addm(mulm(d, w), mulm(v, f))),
                B::Div if w == 0 => return None,
                B::Div => {
                    let i = powm(w, P - 2);
                    let q = mulm(v, i);
                    (q, mulm(addm(d, negm(mulm(q, f))), i))
                }
                B::Pow => {
                    let E::Int(n) = **r else { return None };
                    if v == 0 || n.unsigned_abs() > 60 {
                        return None;
                    }
                    let up = |n: i64| {
                        let p = powm(v, n.unsigned_abs());
                        if n < 0 {
                            powm(p, P - 2)
                        } else {
                            p
                        }
                    };
                    let m = n.unsigned_abs() % P;
                    (up(n), mulm(mulm(if n < 0 { negm(m) } else { m }, up(n - 1)), d))
                }
            }
        }
        e => (eval(e, salt)?, 0),
    })
}
