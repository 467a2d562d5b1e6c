//! The harness's own expression type: generated, shrunk, written to replay files and evaluated by
//! the oracles.

use crate::big::Q;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum U {
    Neg,
    Sin,
    Cos,
    Exp,
    Ln,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Add,
    Sub,
    Mul,
    Div,
    Pow,
}

pub const UNARY: [U; 5] = [U::Neg, U::Sin, U::Cos, U::Exp, U::Ln];
pub const BINARY: [B; 5] = [B::Add, B::Sub, B::Mul, B::Div, B::Pow];

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Int(i64),
    Rat(bool, u64, u64),
    Real(f64),
    Pi,
    Eul,
    Var(String),
    Un(U, Box<E>),
    Bin(B, Box<E>, Box<E>),
}

pub fn var(n: &str) -> E {
    E::Var(n.to_string())
}
pub fn un(u: U, a: E) -> E {
    E::Un(u, Box::new(a))
}
pub fn bin(b: B, l: E, r: E) -> E {
    E::Bin(b, Box::new(l), Box::new(r))
}

impl U {
    pub fn name(self) -> &'static str {
        match self {
            U::Neg => "neg",
            U::Sin => "sin",
            U::Cos => "cos",
            U::Exp => "exp",
            U::Ln => "ln",
        }
    }
}
impl B {
    pub fn name(self) -> &'static str {
        match self {
            B::Add => "+",
            B::Sub => "-",
            B::Mul => "*",
            B::Div => "/",
            B::Pow => "^",
        }
    }
}

impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            E::Int(i) => write!(f, "{i}"),
            E::Rat(neg, n, d) => write!(f, "{}{n}|{d}", if *neg { "-" } else { "" }),
            E::Real(x) => write!(f, "#{x:?}"),
            E::Pi => write!(f, "pi"),
            E::Eul => write!(f, "e"),
            E::Var(v) => {
                // What means something in the text of a case is written as %20 and the like.
                write!(f, "$")?;
                for c in v.chars() {
                    if c.is_whitespace() || c.is_control() || "()$@;%#".contains(c) {
                        write!(f, "%{:x}.", c as u32)?;
                    } else {
                        write!(f, "{c}")?;
                    }
                }
                Ok(())
            }
            E::Un(u, a) => write!(f, "({} {a})", u.name()),
            E::Bin(b, l, r) => write!(f, "({} {l} {r})", b.name()),
        }
    }
}

/// Reads the `Display` form back.
pub fn parse_sexpr(text: &str) -> Option<E> {
    let text = text.replace('(', " ( ").replace(')', " ) ");
    let toks: Vec<&str> = text.split_whitespace().collect();
    let mut pos = 0;
    let e = sexpr(&toks, &mut pos)?;
    (pos == toks.len()).then_some(e)
}

fn unescape(v: &str) -> Option<String> {
    let mut parts = v.split('%');
    let mut out = parts.next()?.to_string();
    for p in parts {
        let (code, rest) = p.split_once('.')?;
        out.push(char::from_u32(u32::from_str_radix(code, 16).ok()?)?);
        out.push_str(rest);
    }
    Some(out)
}

fn sexpr(t: &[&str], p: &mut usize) -> Option<E> {
    let tok = *t.get(*p)?;
    *p += 1;
    if tok == "(" {
        let op = *t.get(*p)?;
        *p += 1;
        let a = sexpr(t, p)?;
        let e = if let Some(u) = UNARY.iter().find(|u| u.name() == op) {
            un(*u, a)
        } else {
            let b = *BINARY.iter().find(|b| b.name() == op)?;
            bin(b, a, sexpr(t, p)?)
        };
        if *t.get(*p)? != ")" {
            return None;
        }
        *p += 1;
        return Some(e);
    }
    Some(if let Some(v) = tok.strip_prefix('$') {
        var(&unescape(v)?)
    } else if let Some(x) = tok.strip_prefix('#') {
        E::Real(x.parse().ok()?)
    } else if tok == "pi" {
        E::Pi
    } else if tok == "e" {
        E::Eul
    } else if let Some((n, d)) = tok.split_once('|') {
        E::Rat(
            n.starts_with('-'),
            n.trim_start_matches('-').parse().ok()?,
            d.parse().ok()?,
        )
    } else {
        E::Int(tok.parse().ok()?)
    })
}

impl E {
    pub fn size(&self) -> usize {
        match self {
            E::Un(_, a) => 1 + a.size(),
            E::Bin(_, l, r) => 1 + l.size() + r.size(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            E::Un(_, a) => 1 + a.depth(),
            E::Bin(_, l, r) => 1 + l.depth().max(r.depth()),
            _ => 1,
        }
    }
    pub fn leaves(&self) -> usize {
        match self {
            E::Un(_, a) => a.leaves(),
            E::Bin(_, l, r) => l.leaves() + r.leaves(),
            _ => 1,
        }
    }
    pub fn any(&self, f: &mut dyn FnMut(&E) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            E::Un(_, a) => a.any(f),
            E::Bin(_, l, r) => l.any(f) || r.any(f),
            _ => false,
        }
    }
    pub fn is_num(&self) -> bool {
        !matches!(self, E::Var(_) | E::Un(..) | E::Bin(..))
    }
    pub fn has_var(&self, name: &str) -> bool {
        self.any(&mut |e| matches!(e, E::Var(v) if v == name))
    }
    pub fn vars(&self) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        self.any(&mut |e| {
            if let E::Var(v) = e {
                if !out.contains(v) {
                    out.push(v.clone());
                }
            }
            false
        });
        out.sort();
        out
    }
    /// The exact value of an integer or fraction literal.
    pub fn lit_q(&self) -> Option<Q> {
        match self {
            E::Int(i) => Some(Q::int(*i)),
            E::Rat(neg, n, d) if *d != 0 => Some(Q::rat(*neg, *n, *d)),
            _ => None,
        }
    }
    pub fn max_lit(&self) -> u64 {
        let mut m = 0;
        self.any(&mut |e| {
            match e {
                E::Int(i) => m = m.max(i.unsigned_abs()),
                E::Rat(_, n, d) => m = m.max(*n).max(*d),
                E::Real(x) => m = m.max(x.abs().min(1e18) as u64),
                _ => {}
            }
            false
        });
        m
    }
    /// Same tree, literals compared by value (2/4 is 1/2, 4/2 is 2).
    pub fn same(&self, o: &E) -> bool {
        match (self, o) {
            (E::Un(a, x), E::Un(b, y)) => a == b && x.same(y),
            (E::Bin(a, x1, x2), E::Bin(b, y1, y2)) => a == b && x1.same(y1) && x2.same(y2),
            (E::Real(a), E::Real(b)) => {
                a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
            }
            _ => match (self.lit_q(), o.lit_q()) {
                (Some(a), Some(b)) => a == b,
                _ => self == o,
            },
        }
    }
    /// All at once.
    pub fn rename(&self, from: &[String], to: &[E]) -> E {
        match self {
            E::Var(v) => match from.iter().position(|f| f == v) {
                Some(i) => to[i].clone(),
                None => self.clone(),
            },
            E::Un(u, a) => un(*u, a.rename(from, to)),
            E::Bin(b, l, r) => bin(*b, l.rename(from, to), r.rename(from, to)),
            _ => self.clone(),
        }
    }
    pub fn subst(&self, name: &str, by: &E) -> E {
        match self {
            E::Var(v) if v == name => by.clone(),
            E::Un(u, a) => un(*u, a.subst(name, by)),
            E::Bin(b, l, r) => bin(*b, l.subst(name, by), r.subst(name, by)),
            _ => self.clone(),
        }
    }
    /// Structurally smaller variants, for shrinking.
    pub fn shrinks(&self) -> Vec<E> {
        let mut out = vec![];
        match self {
            E::Int(i) => {
                for c in [0, 1, -1, 2, i / 2, i - i.signum(), i.checked_neg().unwrap_or(0)] {
                    if c != *i && (c.unsigned_abs(), c < 0) < (i.unsigned_abs(), *i < 0) {
                        out.push(E::Int(c));
                    }
                }
            }
            E::Rat(neg, n, d) => {
                out.push(E::Int(0));
                out.push(E::Int(1));
                if *neg {
                    out.push(E::Rat(false, *n, *d));
                }
                for (a, b) in [(1, 2), (1, *d), (*n, 1), (*n, 2), (n / 2, *d), (*n, d / 2), (n.saturating_sub(1), *d), (*n, d - 1)] {
                    if b > 0 && (a < *n || b < *d) && a <= *n && b <= *d {
                        out.push(E::Rat(*neg, a, b));
                    }
                }
            }
            E::Real(x) => {
                if x.abs() != 0.5 {
                    out.push(E::Int(0));
                    out.push(E::Int(1));
                    if x.trunc() != *x && x.abs() < 1e9 {
                        out.push(E::Real(x.trunc()));
                    }
                    if *x < 0.0 {
                        out.push(E::Real(-x));
                    }
                    out.push(E::Real(0.5));
                }
            }
            E::Pi | E::Eul => {
                out.push(E::Int(0));
                out.push(E::Int(1));
            }
            E::Var(v) => {
                if v != "x" {
                    out.push(var("x"));
                    if v.len() > 1 && v.is_ascii() {
                        out.push(var(&v[..1]));
                    }
                }
            }
            E::Un(u, a) => {
                out.push((**a).clone());
                for c in a.shrinks() {
                    out.push(un(*u, c));
                }
            }
            E::Bin(b, l, r) => {
                out.push((**l).clone());
                out.push((**r).clone());
                for c in l.shrinks() {
                    out.push(bin(*b, c, (**r).clone()));
                }
                for c in r.shrinks() {
                    out.push(bin(*b, (**l).clone(), c));
                }
                if self.size() > 3 {
                    out.push(bin(*b, E::Int(1), (**r).clone()));
                    out.push(bin(*b, (**l).clone(), E::Int(1)));
                }
            }
        }
        out
    }
}

/// Exact value over the rationals, where it has one.
pub fn eval_q(e: &E, env: &[(&str, Q)]) -> Option<Q> {
    Some(match e {
        E::Int(_) | E::Rat(..) => e.lit_q()?,
        E::Var(v) => env.iter().find(|(n, _)| n == v)?.1.clone(),
        E::Un(U::Neg, a) => eval_q(a, env)?.neg(),
        E::Un(u, a) => {
            let a = eval_q(a, env)?;
            match u {
                U::Sin if a.is_zero() => Q::zero(),
                U::Cos | U::Exp if a.is_zero() => Q::one(),
                U::Ln if a.is_one() => Q::zero(),
                _ => return None,
            }
        }
        E::Bin(b, l, r) => {
            let (l, r) = (eval_q(l, env)?, eval_q(r, env)?);
            match b {
                B::Add => l.add(&r),
                B::Sub => l.sub(&r),
                B::Mul => l.mul(&r),
                B::Div => l.div(&r)?,
                B::Pow => {
                    let k = r.to_int()?;
                    if l.is_zero() && k == 0 {
                        Q::one() // the power-series convention
                    } else {
                        l.powi(k)?
                    }
                }
            }
        }
        _ => return None,
    })
}
