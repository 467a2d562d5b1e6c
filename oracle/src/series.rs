//! Power series over the prime field. Functions are uninterpreted but for their special values
//! (sin 0, cos 0, exp 0, ln 1, exp of ln, ln of exp); powers are uninterpreted but for u^(r+1) = u * u^r.
//! What agrees here is equal exactly, not just within rounding.

use std::collections::HashMap;

use crate::expr::{B, E, U};
use crate::field::{addm, hash, mulm, negm, powm, P};

pub struct Field {
    salt: u64,
    /// The operands of logarithms and exponentials, by value.
    ln_of: HashMap<u64, u64>,
    exp_of: HashMap<u64, u64>,
    /// Exponents that are not whole, none a whole number away from another.
    exponents: Vec<u64>,
    /// exp 1 was met.
    pub euler: bool,
}

/// A whole number up to this is recognised as such. (No literal is likely to be one more: x^(r+1) and x^r
/// have to be recognised together.)
const SMALL: u64 = 1_234_567_890_123;

fn inv(a: u64) -> u64 {
    powm(a, P - 2)
}

fn small(a: u64) -> Option<i64> {
    if a <= SMALL {
        Some(a as i64)
    } else if P - a <= SMALL {
        Some(-((P - a) as i64))
    } else {
        None
    }
}

impl Field {
    pub fn new(salt: u64) -> Field {
        Field { salt, ln_of: HashMap::new(), exp_of: HashMap::new(), exponents: vec![], euler: false }
    }

    pub fn var(&self, name: &str) -> u64 {
        crate::field::eval(&E::Var(name.to_string()), self.salt).expect("variables have values")
    }

    pub fn eval(&mut self, e: &E) -> Option<u64> {
        let x = self.var("x");
        Some(self.series(e, "x", x, 0)?[0])
    }

    fn exp(&mut self, a: u64) -> u64 {
        if a == 0 {
            return 1;
        }
        if a == 1 {
            self.euler = true;
        }
        if let Some(v) = self.ln_of.get(&a) {
            return *v;
        }
        let h = hash(13, self.salt, &[a]);
        self.exp_of.insert(h, a);
        h
    }

    fn ln(&mut self, a: u64) -> u64 {
        if a == 1 {
            return 0;
        }
        if let Some(v) = self.exp_of.get(&a) {
            return *v;
        }
        let h = hash(14, self.salt, &[a]);
        self.ln_of.insert(h, a);
        h
    }

    fn pow(&mut self, u: u64, r: u64) -> Option<u64> {
        if u == 1 {
            return Some(1);
        }
        let whole = |n: i64| {
            let p = powm(u, n.unsigned_abs());
            if n < 0 {
                inv(p)
            } else {
                p
            }
        };
        if let Some(n) = small(r) {
            return if u == 0 && n <= 0 { None } else { Some(whole(n)) };
        }
        if u == 0 {
            return None;
        }
        for base in &self.exponents {
            if let Some(n) = small(addm(r, negm(*base))) {
                return Some(mulm(hash(15, self.salt, &[u, *base]), whole(n)));
            }
        }
        self.exponents.push(r);
        Some(hash(15, self.salt, &[u, r]))
    }

    /// e as a series in t where `by` = x0 + t, up to t^n. None where a divisor is zero in the field.
    pub fn series(&mut self, e: &E, by: &str, x0: u64, n: usize) -> Option<Vec<u64>> {
        let constant = |v: u64| {
            let mut s = vec![0; n + 1];
            s[0] = v;
            s
        };
        Some(match e {
            E::Var(v) if v == by => {
                let mut s = constant(x0);
                if n > 0 {
                    s[1] = 1;
                }
                s
            }
            E::Un(f, a) => {
                let u = self.series(a, by, x0, n)?;
                match f {
                    U::Neg => u.into_iter().map(negm).collect(),
                    U::Sin | U::Cos => {
                        let mut s = constant(if u[0] == 0 { 0 } else { hash(11, self.salt, &[u[0]]) });
                        let mut c = constant(if u[0] == 0 { 1 } else { hash(12, self.salt, &[u[0]]) });
                        for k in 1..=n {
                            let ik = inv(k as u64);
                            s[k] = mulm(ik, weighted(&u, &c, k));
                            c[k] = negm(mulm(ik, weighted(&u, &s, k)));
                        }
                        if *f == U::Sin {
                            s
                        } else {
                            c
                        }
                    }
                    U::Exp => {
                        let y0 = self.exp(u[0]);
                        exp_series(&u, y0)
                    }
                    U::Ln => {
                        if u[0] == 0 {
                            return None;
                        }
                        let y0 = self.ln(u[0]);
                        ln_series(&u, y0)
                    }
                }
            }
            E::Bin(b, l, r) => {
                let l = self.series(l, by, x0, n)?;
                let r = self.series(r, by, x0, n)?;
                match b {
                    B::Add => l.iter().zip(&r).map(|(a, b)| addm(*a, *b)).collect(),
                    B::Sub => l.iter().zip(&r).map(|(a, b)| addm(*a, negm(*b))).collect(),
                    B::Mul => product(&l, &r),
                    B::Div => quotient(&l, &r)?,
                    B::Pow => self.power(&l, &r)?,
                }
            }
            e => constant(crate::field::eval(e, self.salt)?),
        })
    }

    fn power(&mut self, u: &[u64], r: &[u64]) -> Option<Vec<u64>> {
        let n = u.len() - 1;
        let constant = r[1..].iter().all(|c| *c == 0);
        if constant {
            if let Some(m) = small(r[0]).filter(|m| m.abs() <= 64 || u[0] == 0) {
                let mut y = vec![0; n + 1];
                y[0] = 1;
                // Zero to the power of zero, now or after some derivations by the rule of powers, is left alone.
                if u[0] == 0 && (m <= 0 || m <= n as i64) {
                    return None;
                }
                if m > 64 {
                    // At least u^(n+1).
                    return Some(vec![0; n + 1]);
                }
                for _ in 0..m.unsigned_abs() {
                    y = product(&y, u);
                }
                if m < 0 {
                    let mut one = vec![0; n + 1];
                    one[0] = 1;
                    y = quotient(&one, &y)?;
                }
                return Some(y);
            }
        }
        if u[0] == 0 {
            return None;
        }
        let y0 = self.pow(u[0], r[0])?;
        let l0 = self.ln(u[0]);
        Some(exp_series(&product(r, &ln_series(u, l0)), y0))
    }
}

/// The sum of j * u_j * y_(k-j).
fn weighted(u: &[u64], y: &[u64], k: usize) -> u64 {
    (1..=k).fold(0, |s, j| addm(s, mulm(mulm(j as u64, u[j]), y[k - j])))
}

fn exp_series(u: &[u64], y0: u64) -> Vec<u64> {
    let mut y = vec![0; u.len()];
    y[0] = y0;
    for k in 1..u.len() {
        y[k] = mulm(inv(k as u64), weighted(u, &y, k));
    }
    y
}

fn ln_series(u: &[u64], y0: u64) -> Vec<u64> {
    let (mut y, i) = (vec![0; u.len()], inv(u[0]));
    y[0] = y0;
    for k in 1..u.len() {
        let s = (1..k).fold(0, |s, j| addm(s, mulm(mulm(j as u64, y[j]), u[k - j])));
        y[k] = mulm(addm(u[k], negm(mulm(inv(k as u64), s))), i);
    }
    y
}

fn product(a: &[u64], b: &[u64]) -> Vec<u64> {
    (0..a.len()).map(|k| (0..=k).fold(0, |s, j| addm(s, mulm(a[j], b[k - j])))).collect()
}

fn quotient(a: &[u64], b: &[u64]) -> Option<Vec<u64>> {
    if b[0] == 0 {
        return None;
    }
    let i = inv(b[0]);
    let mut q = vec![0; a.len()];
    for k in 0..a.len() {
        let s = (1..=k).fold(0, |s, j| addm(s, mulm(b[j], q[k - j])));
        q[k] = mulm(addm(a[k], negm(s)), i);
    }
    Some(q)
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::expr::{bin, un, var};
    use crate::field;

    #[test]
    fn first_derivatives_agree_with_the_rules() {
        let x = || var("x");
        let es = [
            bin(B::Pow, bin(B::Add, x(), E::Int(3)), E::Int(-3)),
            un(U::Sin, bin(B::Div, x(), bin(B::Add, x(), E::Int(2)))),
            un(U::Exp, un(U::Cos, bin(B::Mul, x(), x()))),
            un(U::Ln, bin(B::Sub, x(), E::Rat(false, 1, 3))),
        ];
        for e in es {
            let mut f = Field::new(5);
            let at = f.var("x");
            assert_eq!(f.series(&e, "x", at, 3).unwrap()[1], field::derivative(&e, "x", 5).unwrap(), "{e}");
        }
    }

    #[test]
    fn special_values_and_powers() {
        let mut f = Field::new(9);
        let u = bin(B::Add, var("x"), E::Int(1));
        let eq = |f: &mut Field, a: E, b: E| assert_eq!(f.eval(&a).unwrap(), f.eval(&b).unwrap());
        eq(&mut f, un(U::Exp, un(U::Ln, u.clone())), u.clone());
        eq(&mut f, un(U::Ln, un(U::Exp, u.clone())), u.clone());
        let half = |n: u64| E::Rat(false, n, 2);
        eq(&mut f, bin(B::Mul, bin(B::Pow, u.clone(), half(1)), u.clone()), bin(B::Pow, u.clone(), half(3)));
        let y = |n: i64| bin(B::Add, var("y"), E::Int(n));
        eq(&mut f, bin(B::Mul, bin(B::Pow, u.clone(), y(-1)), u.clone()), bin(B::Pow, u.clone(), y(0)));
        // (exp(x))'' = exp(x), (x^x)' = x^x (ln x + 1)
        let at = f.var("x");
        let s = f.series(&un(U::Exp, var("x")), "x", at, 2).unwrap();
        assert_eq!(mulm(s[2], 2), s[0]);
        let s = f.series(&bin(B::Pow, var("x"), var("x")), "x", at, 1).unwrap();
        let d = f.eval(&bin(B::Mul, bin(B::Pow, var("x"), var("x")), bin(B::Add, un(U::Ln, var("x")), E::Int(1)))).unwrap();
        assert_eq!(s[1], d);
        // sin^2 + cos^2 is not assumed, but its derivative is zero
        let sq = |u| bin(B::Mul, un(u, var("x")), un(u, var("x")));
        let s = f.series(&bin(B::Add, sq(U::Sin), sq(U::Cos)), "x", at, 3).unwrap();
        assert!(s[1] == 0 && s[2] == 0 && s[3] == 0);
    }
}
