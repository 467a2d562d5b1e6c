//! Reference evaluation in double precision with a running error bound, so that a comparison only
//! ever fails when the values provably differ; dual numbers and Taylor jets over the same scalars.

use crate::expr::{eval_q, B, E, U};

const EPS: f64 = 2.3e-16;
const LIBM: f64 = 1e-15;
const BIG: f64 = 1e150;

/// A value with an absolute error bound. `e == 0` means exact.
#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub v: f64,
    pub e: f64,
}

/// Why there is no value.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum No {
    /// Certainly undefined over the reals.
    Undef,
    /// Too ill-conditioned, too large, or a matter of convention (0^0).
    Unknown,
}

pub type R<T> = Result<T, No>;

fn ev(v: f64, e: f64) -> R<Ev> {
    if !v.is_finite() || !e.is_finite() || v.abs() > BIG || e > BIG {
        return Err(No::Unknown);
    }
    if v != 0.0 && v.abs() < 1e-150 {
        return Err(No::Unknown);
    }
    Ok(Ev { v, e })
}

impl Ev {
    pub fn exact(v: f64) -> Ev {
        Ev { v, e: 0.0 }
    }
    pub fn is_exact_zero(&self) -> bool {
        self.v == 0.0 && self.e == 0.0
    }
    pub fn definitely_nonzero(&self) -> bool {
        self.v.abs() > 4.0 * self.e && self.v != 0.0
    }
    pub fn neg(self) -> Ev {
        Ev { v: -self.v, e: self.e }
    }
    pub fn add(self, o: Ev) -> R<Ev> {
        let v = self.v + o.v;
        // TwoSum: zero iff the addition was exact.
        let bb = v - self.v;
        let t = (self.v - (v - bb)) + (o.v - bb);
        ev(v, self.e + o.e + if t == 0.0 { 0.0 } else { EPS * v.abs() + t.abs() })
    }
    pub fn sub(self, o: Ev) -> R<Ev> {
        self.add(o.neg())
    }
    pub fn mul(self, o: Ev) -> R<Ev> {
        if self.is_exact_zero() || o.is_exact_zero() {
            return Ok(Ev::exact(0.0));
        }
        let v = self.v * o.v;
        let t = self.v.mul_add(o.v, -v);
        ev(
            v,
            self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e + if t == 0.0 { 0.0 } else { EPS * v.abs() },
        )
    }
    pub fn div(self, o: Ev) -> R<Ev> {
        if o.is_exact_zero() {
            return Err(No::Undef);
        }
        if !o.definitely_nonzero() {
            return Err(No::Unknown);
        }
        if self.is_exact_zero() {
            return Ok(Ev::exact(0.0));
        }
        let v = self.v / o.v;
        let t = v.mul_add(-o.v, self.v);
        ev(
            v,
            (self.e + v.abs() * o.e) / (o.v.abs() - o.e) + if t == 0.0 { 0.0 } else { EPS * v.abs() },
        )
    }
    pub fn sin(self) -> R<Ev> {
        if self.is_exact_zero() {
            return Ok(self);
        }
        ev(self.v.sin(), self.e.min(2.0) + LIBM)
    }
    pub fn cos(self) -> R<Ev> {
        if self.is_exact_zero() {
            return Ok(Ev::exact(1.0));
        }
        ev(self.v.cos(), self.e.min(2.0) + LIBM)
    }
    pub fn exp(self) -> R<Ev> {
        if self.is_exact_zero() {
            return Ok(Ev::exact(1.0));
        }
        if self.v.abs() > 300.0 || self.e > 1.0 {
            return Err(No::Unknown);
        }
        let v = self.v.exp();
        ev(v, v * (self.e.exp_m1() + LIBM))
    }
    pub fn ln(self) -> R<Ev> {
        if self.is_exact_zero() || self.v < -4.0 * self.e {
            return Err(No::Undef);
        }
        if !self.definitely_nonzero() {
            return Err(No::Unknown);
        }
        if self.v == 1.0 && self.e == 0.0 {
            return Ok(Ev::exact(0.0));
        }
        let v = self.v.ln();
        ev(v, self.e / (self.v - self.e) + LIBM * (1.0 + v.abs()))
    }
    /// The exponent as an exact integer.
    fn int_exp(self) -> Option<i32> {
        (self.e == 0.0 && self.v.fract() == 0.0 && self.v.abs() <= 1000.0).then_some(self.v as i32)
    }
    pub fn pow(self, r: Ev) -> R<Ev> {
        if let Some(k) = r.int_exp() {
            if k >= 0 {
                if k == 0 {
                    return if self.definitely_nonzero() { Ok(Ev::exact(1.0)) } else { Err(No::Unknown) };
                }
                if k <= 64 {
                    let mut p = self;
                    for _ in 1..k {
                        p = p.mul(self)?;
                    }
                    return Ok(p);
                }
            } else if k >= -64 {
                return Ev::exact(1.0).div(self.pow(Ev::exact(-k as f64))?);
            }
        }
        if self.is_exact_zero() {
            return if r.v > 4.0 * r.e && r.v > 0.0 {
                Ok(Ev::exact(0.0))
            } else if r.v < -4.0 * r.e {
                Err(No::Undef)
            } else {
                Err(No::Unknown)
            };
        }
        if self.v > 0.0 && self.definitely_nonzero() {
            return self.ln()?.mul(r)?.exp().map(|x| Ev {
                v: x.v,
                e: x.e + x.v * 1e-14,
            });
        }
        // Negative base with a non-integer or inexact exponent: undefined over the reals when the
        // exponent is certainly not an integer.
        if self.v < -4.0 * self.e && r.e == 0.0 && r.v.fract() != 0.0 {
            return Err(No::Undef);
        }
        Err(No::Unknown)
    }
}

pub type Env<'a> = [(&'a str, Ev)];

fn lit_int(neg: bool, n: u64) -> Ev {
    let v = n as f64;
    let e = if n < (1 << 53) { 0.0 } else { EPS * v };
    Ev { v: if neg { -v } else { v }, e }
}

/// The value of a literal. `fuzzy` marks reals that the code computed (and so rounded) itself.
pub fn literal(x: &E, fuzzy: bool) -> R<Ev> {
    Ok(match x {
        E::Int(i) => lit_int(*i < 0, i.unsigned_abs()),
        E::Rat(neg, n, d) => lit_int(*neg, *n).div(lit_int(false, *d))?,
        E::Real(x) => {
            if !x.is_finite() {
                return Err(No::Undef);
            }
            ev(*x, if fuzzy { 4.0 * EPS * x.abs() } else { 0.0 })?
        }
        E::Pi => Ev { v: std::f64::consts::PI, e: 2e-16 },
        E::Eul => Ev { v: std::f64::consts::E, e: 2e-16 },
        _ => unreachable!("not a literal"),
    })
}

/// A literal in a calculus where the code under test goes another way than the reference: a real of
/// many digits gets the rounding that multiples of it may suffer, even if they cancel here.
fn constant(x: &E) -> R<Ev> {
    literal(x, long_real(x))
}

fn long_real(x: &E) -> bool {
    matches!(x, E::Real(r) if r.to_bits() << 32 != 0)
}

/// The value of a point, with the same allowance.
pub fn point(x: &E, env: &Env) -> R<Ev> {
    let v = eval(x, env, false)?;
    let long = x.any(&mut |y| long_real(y));
    Ok(if long { Ev { v: v.v, e: v.e + 4.0 * EPS * v.v.abs() } } else { v })
}

pub fn eval(x: &E, env: &Env, fuzzy: bool) -> R<Ev> {
    match x {
        E::Var(v) => env.iter().find(|(n, _)| n == v).map(|(_, x)| *x).ok_or(No::Unknown),
        E::Un(u, a) => {
            let a = eval(a, env, fuzzy)?;
            match u {
                U::Neg => Ok(a.neg()),
                U::Sin => a.sin(),
                U::Cos => a.cos(),
                U::Exp => a.exp(),
                U::Ln => a.ln(),
            }
        }
        E::Bin(b, l, r) => {
            // Undefined wins over unknown: a/b is undefined whenever either side is.
            let (l, r) = (eval(l, env, fuzzy), eval(r, env, fuzzy));
            if l.as_ref().err() == Some(&No::Undef) || r.as_ref().err() == Some(&No::Undef) {
                return Err(No::Undef);
            }
            let (l, r) = (l?, r?);
            match b {
                B::Add => l.add(r),
                B::Sub => l.sub(r),
                B::Mul => l.mul(r),
                B::Div => l.div(r),
                B::Pow => l.pow(r),
            }
        }
        lit => literal(lit, fuzzy),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp {
    Same,
    /// Agree, but the error bound is so wide that this says little.
    Weak,
    Differ,
    Unknown,
}

/// Compares a reference value with what the code produced. Only provable differences count.
pub fn compare(reference: R<Ev>, got: R<Ev>) -> Cmp {
    match (reference, got) {
        (Ok(a), Ok(b)) => {
            let scale = a.v.abs().max(b.v.abs());
            let tol = 32.0 * (a.e + b.e) + 1e-11 * scale + 1e-280;
            if (a.v - b.v).abs() <= tol {
                if tol > 1e-3 * scale && scale != 0.0 {
                    Cmp::Weak
                } else {
                    Cmp::Same
                }
            } else {
                Cmp::Differ
            }
        }
        (Ok(_), Err(No::Undef)) => Cmp::Differ,
        _ => Cmp::Unknown,
    }
}

/// Whether a power is differentiable for what it says rather than by accident: an exponent that
/// holds the variable needs a positive base, and base zero needs a whole number as exponent.
fn power_ok(base: Ev, exponent: &E, by: &str) -> bool {
    if exponent.has_var(by) {
        return base.v > 0.0 && base.definitely_nonzero();
    }
    base.definitely_nonzero()
        || (!exponent.any(&mut |x| matches!(x, E::Bin(B::Pow, ..))) && eval_q(exponent, &[]).is_some_and(|q| q.to_int().is_some()))
}

/// Value and derivative.
#[derive(Clone, Copy, Debug)]
pub struct Dual {
    pub v: Ev,
    pub d: Ev,
}

pub fn dual(x: &E, by: &str, env: &Env) -> R<Dual> {
    let zero = Ev::exact(0.0);
    match x {
        E::Var(n) => Ok(Dual {
            v: eval(x, env, false)?,
            d: if n == by { Ev::exact(1.0) } else { zero },
        }),
        E::Un(u, a) => {
            let a = dual(a, by, env)?;
            let (v, f) = match u {
                U::Neg => return Ok(Dual { v: a.v.neg(), d: a.d.neg() }),
                U::Sin => (a.v.sin()?, a.v.cos()?),
                U::Cos => (a.v.cos()?, a.v.sin()?.neg()),
                U::Exp => (a.v.exp()?, a.v.exp()?),
                U::Ln => (a.v.ln()?, Ev::exact(1.0).div(a.v)?),
            };
            Ok(Dual { v, d: f.mul(a.d)? })
        }
        E::Bin(b, l, r) => {
            let exponent = r;
            let (l, r) = (dual(l, by, env)?, dual(r, by, env)?);
            match b {
                B::Add => Ok(Dual { v: l.v.add(r.v)?, d: l.d.add(r.d)? }),
                B::Sub => Ok(Dual { v: l.v.sub(r.v)?, d: l.d.sub(r.d)? }),
                B::Mul => Ok(Dual {
                    v: l.v.mul(r.v)?,
                    d: l.d.mul(r.v)?.add(l.v.mul(r.d)?)?,
                }),
                B::Div => {
                    let v = l.v.div(r.v)?;
                    Ok(Dual { v, d: l.d.sub(v.mul(r.d)?)?.div(r.v)? })
                }
                B::Pow => {
                    let v = l.v.pow(r.v)?;
                    if !power_ok(l.v, exponent, by) {
                        return Err(No::Unknown);
                    }
                    if l.d.is_exact_zero() && r.d.is_exact_zero() {
                        return Ok(Dual { v, d: zero });
                    }
                    if r.d.is_exact_zero() {
                        // d(u^c) = c u^(c-1) u'
                        let d = match r.v.int_exp() {
                            Some(0) => zero,
                            Some(1) => l.d,
                            Some(_) => r.v.mul(l.v.pow(r.v.sub(Ev::exact(1.0))?)?)?.mul(l.d)?,
                            None if l.v.v > 0.0 && l.v.definitely_nonzero() => {
                                r.v.mul(v)?.div(l.v)?.mul(l.d)?
                            }
                            None => return Err(No::Unknown),
                        };
                        return Ok(Dual { v, d });
                    }
                    if !(l.v.v > 0.0 && l.v.definitely_nonzero()) {
                        return Err(No::Unknown);
                    }
                    let g = r.d.mul(l.v.ln()?)?.add(r.v.mul(l.d)?.div(l.v)?)?;
                    Ok(Dual { v, d: v.mul(g)? })
                }
            }
        }
        lit => Ok(Dual { v: constant(lit)?, d: zero }),
    }
}

/// Truncated power series of `x` in (by - at): coefficients 0..=n.
pub fn jet(x: &E, by: &str, env: &Env, n: usize) -> R<Vec<Ev>> {
    let z = Ev::exact(0.0);
    let konst = |v: Ev| {
        let mut c = vec![z; n + 1];
        c[0] = v;
        c
    };
    Ok(match x {
        E::Var(name) => {
            let mut c = konst(eval(x, env, false)?);
            if name == by && n > 0 {
                c[1] = Ev::exact(1.0);
            }
            c
        }
        E::Un(u, a) => {
            let a = jet(a, by, env, n)?;
            match u {
                U::Neg => a.into_iter().map(Ev::neg).collect(),
                U::Sin => j_sincos(&a)?.0,
                U::Cos => j_sincos(&a)?.1,
                U::Exp => j_exp(&a)?,
                U::Ln => j_ln(&a)?,
            }
        }
        E::Bin(b, l, r) => {
            let exponent = r;
            let (l, r) = (jet(l, by, env, n)?, jet(r, by, env, n)?);
            match b {
                B::Add => l.iter().zip(&r).map(|(a, b)| a.add(*b)).collect::<R<_>>()?,
                B::Sub => l.iter().zip(&r).map(|(a, b)| a.sub(*b)).collect::<R<_>>()?,
                B::Mul => j_mul(&l, &r)?,
                B::Div => j_div(&l, &r)?,
                B::Pow => {
                    if !power_ok(l[0], exponent, by) {
                        return Err(No::Unknown);
                    }
                    let r_const = r[1..].iter().all(Ev::is_exact_zero);
                    if r_const {
                        if let Some(k) = r[0].int_exp() {
                            if (0..=32).contains(&k) {
                                if k == 0 {
                                    return if l[0].definitely_nonzero() || l[1..].iter().any(|c| c.definitely_nonzero()) {
                                        Ok(konst(Ev::exact(1.0)))
                                    } else {
                                        Err(No::Unknown)
                                    };
                                }
                                let mut p = l.clone();
                                for _ in 1..k {
                                    p = j_mul(&p, &l)?;
                                }
                                return Ok(p);
                            }
                            if (-32..0).contains(&k) {
                                let mut p = l.clone();
                                for _ in 1..-k {
                                    p = j_mul(&p, &l)?;
                                }
                                return j_div(&konst(Ev::exact(1.0)), &p);
                            }
                        }
                    }
                    j_exp(&j_mul(&j_ln(&l)?, &r)?)?
                }
            }
        }
        lit => konst(constant(lit)?),
    })
}

fn j_mul(a: &[Ev], b: &[Ev]) -> R<Vec<Ev>> {
    (0..a.len())
        .map(|k| {
            let mut s = Ev::exact(0.0);
            for i in 0..=k {
                s = s.add(a[i].mul(b[k - i])?)?;
            }
            Ok(s)
        })
        .collect()
}

fn j_div(a: &[Ev], b: &[Ev]) -> R<Vec<Ev>> {
    let mut c: Vec<Ev> = vec![];
    for k in 0..a.len() {
        let mut s = a[k];
        for i in 1..=k {
            s = s.sub(b[i].mul(c[k - i])?)?;
        }
        c.push(s.div(b[0])?);
    }
    Ok(c)
}

fn j_exp(a: &[Ev]) -> R<Vec<Ev>> {
    let mut c = vec![a[0].exp()?];
    for k in 1..a.len() {
        let mut s = Ev::exact(0.0);
        for i in 1..=k {
            s = s.add(a[i].mul(c[k - i])?.mul(Ev::exact(i as f64))?)?;
        }
        c.push(s.div(Ev::exact(k as f64))?);
    }
    Ok(c)
}

fn j_ln(a: &[Ev]) -> R<Vec<Ev>> {
    let mut c = vec![a[0].ln()?];
    for k in 1..a.len() {
        let mut s = a[k].mul(Ev::exact(k as f64))?;
        for i in 1..k {
            s = s.sub(c[i].mul(a[k - i])?.mul(Ev::exact(i as f64))?)?;
        }
        c.push(s.div(a[0].mul(Ev::exact(k as f64))?)?);
    }
    Ok(c)
}

fn j_sincos(a: &[Ev]) -> R<(Vec<Ev>, Vec<Ev>)> {
    let (mut s, mut c) = (vec![a[0].sin()?], vec![a[0].cos()?]);
    for k in 1..a.len() {
        let (mut x, mut y) = (Ev::exact(0.0), Ev::exact(0.0));
        for i in 1..=k {
            let w = a[i].mul(Ev::exact(i as f64))?;
            x = x.add(w.mul(c[k - i])?)?;
            y = y.sub(w.mul(s[k - i])?)?;
        }
        s.push(x.div(Ev::exact(k as f64))?);
        c.push(y.div(Ev::exact(k as f64))?);
    }
    Ok((s, c))
}
