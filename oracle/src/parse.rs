//! Reads a printed expression with the conventional reading: `^` binds tighter than unary minus,
//! that tighter than `*` and `/`, those tighter than `+` and `-`; equal operators group to the left
//! (`^` to the right); a function name applies to the operand that follows it directly; white space
//! and the difference between the fraction 1/2 and the quotient 1 / 2 mean nothing.

use crate::expr::{bin, un, var, B, E, U};

#[derive(Clone, Debug, PartialEq)]
enum T {
    Int(u64),
    Real(f64),
    Name(String),
    Fn(U),
    Sym(char),
}

fn lex(s: &str) -> Result<Vec<T>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i] == ' ' {
            i += 1;
        } else if c[i].is_ascii_digit() {
            let st = i;
            while i < c.len() && c[i].is_ascii_digit() {
                i += 1;
            }
            if i + 1 < c.len() && c[i] == '.' && c[i + 1].is_ascii_digit() {
                i += 1;
                while i < c.len() && c[i].is_ascii_digit() {
                    i += 1;
                }
                let t: String = c[st..i].iter().collect();
                out.push(T::Real(t.parse().map_err(|_| format!("bad number {t}"))?));
            } else {
                let t: String = c[st..i].iter().collect();
                out.push(T::Int(t.parse().map_err(|_| format!("number too large: {t}"))?));
            }
        } else if c[i].is_alphabetic() || c[i] == '_' {
            let mut f = None;
            for u in [U::Sin, U::Cos, U::Exp, U::Ln] {
                let n: Vec<char> = u.name().chars().collect();
                if c[i..].starts_with(&n) {
                    f = Some((u, n.len()));
                }
            }
            if let Some((u, n)) = f {
                out.push(T::Fn(u));
                i += n;
                continue;
            }
            let st = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            out.push(T::Name(c[st..i].iter().collect()));
        } else if "+-*/^()".contains(c[i]) {
            out.push(T::Sym(c[i]));
            i += 1;
        } else {
            return Err(format!("unexpected character {:?}", c[i]));
        }
    }
    Ok(out)
}

fn negate(a: E) -> E {
    match a {
        // Keeps the literal -9223372036854775808 readable.
        E::Int(i) if i > 0 => E::Int(-i),
        E::Rat(false, n, 1) if n == 1 << 63 => E::Int(i64::MIN),
        E::Real(x) => E::Real(-x),
        a => un(U::Neg, a),
    }
}

struct P {
    t: Vec<T>,
    i: usize,
}

impl P {
    fn sym(&mut self, c: char) -> bool {
        if self.t.get(self.i) == Some(&T::Sym(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn sum(&mut self) -> Result<E, String> {
        let mut l = self.product()?;
        loop {
            if self.sym('+') {
                l = bin(B::Add, l, self.product()?);
            } else if self.sym('-') {
                l = bin(B::Sub, l, self.product()?);
            } else {
                return Ok(l);
            }
        }
    }
    fn product(&mut self) -> Result<E, String> {
        let mut l = self.unary()?;
        loop {
            if self.sym('*') {
                l = bin(B::Mul, l, self.unary()?);
            } else if self.sym('/') {
                l = bin(B::Div, l, self.unary()?);
            } else {
                return Ok(l);
            }
        }
    }
    fn unary(&mut self) -> Result<E, String> {
        if self.sym('-') {
            return Ok(negate(self.unary()?));
        }
        self.power()
    }
    fn power(&mut self) -> Result<E, String> {
        let l = self.primary()?;
        if self.sym('^') {
            let mut signs = 0;
            while self.sym('-') {
                signs += 1;
            }
            let r = self.primary()?;
            if self.sym('^') {
                // Read differently from the left and from the right.
                return Err("a chain of ^ without parentheses".into());
            }
            return Ok(bin(B::Pow, l, (0..signs).fold(r, |r, _| negate(r))));
        }
        Ok(l)
    }
    fn primary(&mut self) -> Result<E, String> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(match t {
            T::Int(n) => match i64::try_from(n) {
                Ok(i) => E::Int(i),
                Err(_) => E::Rat(false, n, 1),
            },
            T::Real(x) => E::Real(x),
            T::Name(n) => match n.as_str() {
                "pi" => E::Pi,
                "e" => E::Eul,
                _ => var(&n),
            },
            T::Fn(u) => {
                // A function applies to the operand right after it; a minus sign there can only
                // belong to that operand.
                if self.sym('-') {
                    return Ok(un(u, un(U::Neg, self.primary()?)));
                }
                un(u, self.primary()?)
            }
            T::Sym('(') => {
                let e = self.sum()?;
                if !self.sym(')') {
                    return Err("missing )".into());
                }
                e
            }
            T::Sym(c) => return Err(format!("unexpected {c}")),
        })
    }
}

pub fn parse(s: &str) -> Result<E, String> {
    let mut p = P { t: lex(s)?, i: 0 };
    let e = p.sum()?;
    if p.i != p.t.len() {
        return Err(format!("trailing text after token {}", p.i));
    }
    Ok(e)
}
