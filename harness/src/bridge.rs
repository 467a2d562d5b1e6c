//! Between the harness's expressions and the repository's: built through its public constructors,
//! read back through its public fields and accessors.

use sym::{Expression, Op, Pow as _, SmartNum, ToRational, ToSmartNum as _, View};
use symbolic_rust::verif_api as sym;

use oracle::big::Q;
use oracle::ev::Ev;
use oracle::expr::{bin, un, var, B, E, U};
use oracle::gen::Tape;

/// A number literal as the repository's number type.
pub fn to_num(e: &E) -> Option<SmartNum> {
    Some(match e {
        E::Int(i) => SmartNum::from(*i),
        E::Rat(neg, n, d) => SmartNum::new_rational(if *neg { -1 } else { 1 }, *n, *d)?,
        E::Real(x) => SmartNum::from(*x),
        E::Pi => SmartNum::pi(),
        E::Eul => SmartNum::e(),
        _ => return None,
    })
}

pub fn build(e: &E) -> Expression {
    match e {
        E::Int(i) => Expression::from(*i),
        E::Rat(..) => Expression::from(to_num(e).expect("valid literal")),
        E::Real(x) => Expression::from(*x),
        E::Pi => Expression::pi(),
        E::Eul => Expression::e(),
        E::Var(v) => Expression::new_variable(v),
        E::Un(u, a) => {
            let a = build(a);
            match u {
                U::Neg => -a,
                U::Sin => sym::sin(a),
                U::Cos => sym::cos(a),
                U::Exp => sym::exp(a),
                U::Ln => sym::ln(a),
            }
        }
        E::Bin(b, l, r) => {
            let (l, r) = (build(l), build(r));
            match b {
                B::Add => l + r,
                B::Sub => l - r,
                B::Mul => l * r,
                B::Div => l / r,
                B::Pow => l.pow(r),
            }
        }
    }
}

/// A repository number as a literal, by what its accessors say its value is.
pub fn read_num(n: &SmartNum) -> E {
    if n.is_pi() && n.to_f64() == std::f64::consts::PI {
        return E::Pi;
    }
    if n.is_e() && n.to_f64() == std::f64::consts::E {
        return E::Eul;
    }
    if let Some(i) = n.to_i64() {
        return E::Int(i);
    }
    match n.to_rational() {
        Some(r) => E::Rat(r.sign < 0, r.nominator, r.denominator),
        None => E::Real(n.to_f64()),
    }
}

pub fn read(x: &Expression) -> E {
    match sym::view(x) {
        View::Num(n) => read_num(n),
        View::Var(v) => var(v),
        View::Node(op, c) => {
            let u = |u: U| {
                assert_eq!(c.len(), 1, "malformed expression: {u:?} with {} operands", c.len());
                un(u, read(&c[0]))
            };
            let b = |b: B| {
                assert_eq!(c.len(), 2, "malformed expression: {b:?} with {} operands", c.len());
                bin(b, read(&c[0]), read(&c[1]))
            };
            match op {
                Op::Neg => u(U::Neg),
                Op::Sin => u(U::Sin),
                Op::Cos => u(U::Cos),
                Op::Exp => u(U::Exp),
                Op::Ln => u(U::Ln),
                Op::Add => b(B::Add),
                Op::Sub => b(B::Sub),
                Op::Mul => b(B::Mul),
                Op::Div => b(B::Div),
                Op::Pow => b(B::Pow),
            }
        }
    }
}

pub fn num_of(x: &Expression) -> Option<SmartNum> {
    x.to_smart_num().ok().copied()
}


/// The exact value of an integer or fraction of the repository; None for a real.
pub fn num_q(n: &SmartNum) -> Option<Q> {
    if let Some(i) = n.to_i64() {
        return Some(Q::int(i));
    }
    n.to_rational().and_then(|r| rat_q(&r))
}

/// None when it is no number at all: zero denominator, or a sign that is not a sign.
pub fn rat_q(r: &sym::RationalNum) -> Option<Q> {
    if r.denominator == 0 || (r.sign.unsigned_abs() != 1 && r.nominator != 0) {
        return None;
    }
    Some(Q::rat(r.sign < 0, r.nominator, r.denominator))
}

/// Values for the variables of an expression: sixteenths, taken in turn from `k`.
pub fn env<'a>(vars: &'a [String], k: &[i64], skip: usize) -> Vec<(&'a str, Ev)> {
    vars.iter()
        .enumerate()
        .map(|(i, v)| {
            let x = if k.is_empty() { 16 } else { k[(i + skip) % k.len()] };
            (v.as_str(), Ev::exact(x.clamp(-1 << 20, 1 << 20) as f64 / 16.0))
        })
        .collect()
}

/// Sample points for `env`: often zero, one and other special places.
pub fn points(t: &mut Tape, n: usize) -> Vec<i64> {
    (0..n)
        .map(|_| match t.weighted(&[3, 5, 2]) {
            0 => *t.pick(&[16, 0, 32, -16, 8, 48]),
            1 => t.range(-64, 64),
            _ => t.range(1, 96),
        })
        .collect()
}

/// Few and small enough literals that an overflow in plain folding cannot be legitimate: every
/// product of all numerators and denominators stays below 2^63.
pub fn tiny(e: &E) -> bool {
    e.leaves() <= 8 && e.max_lit() <= 9
}
