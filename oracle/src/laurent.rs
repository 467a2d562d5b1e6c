//! Reference for limits: Laurent series in t = x - a whose coefficients are rationals, or
//! error-bounded doubles once the sine of 1 or the like is involved, plus coarse limit classes once an
//! oscillating part (a sine of something unbounded) is. A leading coefficient is certainly not zero.

use crate::big::Q;
use crate::ev::{self, Ev};
use crate::expr::{B, E, U};

pub const TERMS: usize = 14;
const MAX_BITS: u32 = 2000;

/// A coefficient.
#[derive(Clone, Debug)]
pub enum N {
    Q(Q),
    F(Ev),
    /// Nothing is known.
    X,
}

impl N {
    pub fn zero() -> N {
        N::Q(Q::zero())
    }
    pub fn one() -> N {
        N::Q(Q::one())
    }
    /// The value of a literal.
    pub fn literal(x: &E) -> Option<N> {
        match x {
            E::Pi | E::Eul | E::Real(_) => ev::literal(x, false).ok().map(N::F),
            _ => x.lit_q().map(N::Q),
        }
    }
    pub fn int(v: i64) -> N {
        N::Q(Q::int(v))
    }
    /// Exactly zero.
    pub fn is_zero(&self) -> bool {
        match self {
            N::Q(q) => q.is_zero(),
            N::F(v) => v.is_exact_zero(),
            N::X => false,
        }
    }
    pub fn nonzero(&self) -> bool {
        match self {
            N::Q(q) => !q.is_zero(),
            N::F(v) => v.definitely_nonzero() && v.v.abs() > 1e-6,
            N::X => false,
        }
    }
    pub fn ev(&self) -> Option<Ev> {
        match self {
            N::Q(q) => {
                let v = q.to_f64();
                (v.is_finite() && (v == 0.0) == q.is_zero()).then(|| Ev { v, e: v.abs() * 4e-16 })
            }
            N::F(v) => Some(*v),
            N::X => None,
        }
    }
    fn num(r: ev::R<Ev>) -> N {
        r.map_or(N::X, N::F)
    }
    pub fn neg(&self) -> N {
        match self {
            N::Q(q) => N::Q(q.neg()),
            N::F(v) => N::F(v.neg()),
            N::X => N::X,
        }
    }
    fn both(&self, o: &N, q: impl Fn(&Q, &Q) -> Option<Q>, f: impl Fn(Ev, Ev) -> ev::R<Ev>) -> N {
        if let (N::Q(a), N::Q(b)) = (self, o) {
            return q(a, b).map_or(N::X, N::Q);
        }
        match (self.ev(), o.ev()) {
            (Some(a), Some(b)) => N::num(f(a, b)),
            _ => N::X,
        }
    }
    pub fn add(&self, o: &N) -> N {
        if self.is_zero() {
            return o.clone();
        }
        if o.is_zero() {
            return self.clone();
        }
        self.both(o, |a, b| Some(a.add(b)), Ev::add)
    }
    pub fn sub(&self, o: &N) -> N {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &N) -> N {
        if self.is_zero() || o.is_zero() {
            return N::zero();
        }
        self.both(o, |a, b| Some(a.mul(b)), Ev::mul)
    }
    pub fn div(&self, o: &N) -> N {
        if o.is_zero() {
            return N::X;
        }
        if self.is_zero() {
            return N::zero();
        }
        self.both(o, |a, b| a.div(b), Ev::div)
    }
    fn bits(&self) -> u32 {
        match self {
            N::Q(q) => q.bits(),
            _ => 0,
        }
    }
    pub fn show(&self) -> String {
        match self {
            N::Q(q) => q.show(),
            N::F(v) => format!("about {}", v.v),
            N::X => "?".into(),
        }
    }
}

/// A value that may turn out to be zero is no more than bounded.
fn val(n: N) -> Lim {
    if n.is_zero() || n.nonzero() {
        Lim::Val(n)
    } else {
        Lim::Bounded
    }
}

/// sum c[i] t^(v+i), i < c.len(), plus O(t^(v+c.len())); c[0] != 0.
#[derive(Clone, Debug)]
pub struct Ser {
    pub v: i32,
    pub c: Vec<N>,
}

#[derive(Clone, Debug)]
pub enum Lim {
    /// Tends to this value (zero included).
    Val(N),
    /// Grows beyond every bound in absolute value.
    Inf,
    /// Certainly oscillates: bounded, without a limit.
    Osc,
    /// Bounded; whether it converges is not known.
    Bounded,
    /// Certainly unbounded without being infinite: no kind of limit applies.
    Wild,
    Unknown,
}

#[derive(Clone, Debug)]
pub enum L {
    /// Identically zero.
    Zero,
    S(Ser),
    /// Only the class is known, and whether zeros certainly accumulate at the point.
    C(Lim, bool),
}

const UNKNOWN: L = L::C(Lim::Unknown, false);

fn norm(v: i32, c: Vec<N>) -> L {
    match c.iter().position(|x| !x.is_zero()) {
        None => UNKNOWN,
        Some(k) if !c[k].nonzero() => UNKNOWN,
        Some(k) => {
            let c: Vec<N> = c[k..].to_vec();
            if c.iter().any(|x| x.bits() > MAX_BITS) {
                return UNKNOWN;
            }
            L::S(Ser { v: v + k as i32, c })
        }
    }
}

impl L {
    pub fn lim(&self) -> Lim {
        match self {
            L::Zero => Lim::Val(N::zero()),
            L::S(s) if s.v > 0 => Lim::Val(N::zero()),
            L::S(s) if s.v == 0 => Lim::Val(s.c[0].clone()),
            L::S(_) => Lim::Inf,
            L::C(l, _) => l.clone(),
        }
    }
    /// Whether zeros certainly accumulate at the point (or it is zero throughout).
    pub fn zeros(&self) -> bool {
        match self {
            L::Zero => true,
            L::S(_) => false,
            L::C(_, z) => *z,
        }
    }
}

fn konst(q: N) -> L {
    if q.is_zero() {
        L::Zero
    } else {
        let mut c = vec![N::zero(); TERMS];
        c[0] = q;
        L::S(Ser { v: 0, c })
    }
}

fn at(s: &Ser, k: i32) -> Option<N> {
    if k < s.v {
        Some(N::zero())
    } else {
        s.c.get((k - s.v) as usize).cloned()
    }
}

pub fn neg(a: L) -> L {
    match a {
        L::Zero => L::Zero,
        L::S(s) => L::S(Ser {
            v: s.v,
            c: s.c.iter().map(N::neg).collect(),
        }),
        L::C(Lim::Val(q), z) => L::C(Lim::Val(q.neg()), z),
        c => c,
    }
}

fn is_zero_val(l: &Lim) -> bool {
    matches!(l, Lim::Val(q) if q.is_zero())
}

pub fn add(a: L, b: L) -> L {
    match (&a, &b) {
        (L::Zero, _) => b,
        (_, L::Zero) => a,
        (L::S(x), L::S(y)) => {
            let v = x.v.min(y.v);
            let end = (x.v + x.c.len() as i32).min(y.v + y.c.len() as i32);
            if end <= v {
                return UNKNOWN;
            }
            let c = (v..end).map(|k| at(x, k).unwrap().add(&at(y, k).unwrap())).collect();
            norm(v, c)
        }
        _ => L::C(
            match (a.lim(), b.lim()) {
                (Lim::Val(p), Lim::Val(q)) => val(p.add(&q)),
                (Lim::Unknown, _) | (_, Lim::Unknown) | (Lim::Inf, Lim::Inf) => Lim::Unknown,
                (Lim::Wild, Lim::Wild | Lim::Inf) | (Lim::Inf, Lim::Wild) => Lim::Unknown,
                (Lim::Wild, _) | (_, Lim::Wild) => Lim::Wild,
                (Lim::Inf, _) | (_, Lim::Inf) => Lim::Inf,
                (Lim::Osc, Lim::Val(_)) | (Lim::Val(_), Lim::Osc) => Lim::Osc,
                _ => Lim::Bounded,
            },
            false,
        ),
    }
}

pub fn mul(a: L, b: L) -> L {
    match (&a, &b) {
        (L::Zero, L::C(Lim::Unknown, _)) | (L::C(Lim::Unknown, _), L::Zero) => UNKNOWN,
        (L::Zero, _) | (_, L::Zero) => L::Zero,
        (L::S(x), L::S(y)) => {
            let n = x.c.len().min(y.c.len());
            let c = (0..n)
                .map(|k| (0..=k).fold(N::zero(), |s, i| s.add(&x.c[i].mul(&y.c[k - i]))))
                .collect();
            norm(x.v + y.v, c)
        }
        _ => {
            let (p, q) = (a.lim(), b.lim());
            // What is not known, or wild, may not exist near the point; with zeros it was built from what does.
            let exists = |l: &L| !matches!(l.lim(), Lim::Unknown | Lim::Wild) || l.zeros();
            let zeros = (a.zeros() || b.zeros()) && exists(&a) && exists(&b);
            let class = match (&p, &q) {
                (Lim::Unknown, _) | (_, Lim::Unknown) => Lim::Unknown,
                (Lim::Inf, Lim::Inf) => Lim::Inf,
                // Unbounded where the oscillation keeps away from zero, zero where it vanishes.
                (Lim::Inf, Lim::Osc | Lim::Wild) | (Lim::Osc | Lim::Wild, Lim::Inf) if zeros => Lim::Wild,
                (Lim::Wild, o) | (o, Lim::Wild) => match o {
                    Lim::Val(z) if !z.is_zero() => Lim::Wild,
                    _ => Lim::Unknown,
                },
                (Lim::Inf, o) | (o, Lim::Inf) => match o {
                    Lim::Val(z) if !z.is_zero() => Lim::Inf,
                    _ => Lim::Unknown,
                },
                (Lim::Val(p), Lim::Val(q)) => val(p.mul(q)),
                (o, _) | (_, o) if is_zero_val(o) => Lim::Val(N::zero()),
                (Lim::Osc, Lim::Val(_)) | (Lim::Val(_), Lim::Osc) => Lim::Osc,
                _ => Lim::Bounded,
            };
            L::C(class, zeros)
        }
    }
}

pub fn div(a: L, b: L) -> L {
    match (&a, &b) {
        (_, L::Zero) => UNKNOWN,
        (L::Zero, L::S(_)) => L::Zero,
        (L::S(x), L::S(y)) => {
            let n = x.c.len().min(y.c.len());
            let mut c: Vec<N> = vec![];
            for k in 0..n {
                let mut s = x.c[k].clone();
                for i in 1..=k {
                    s = s.sub(&y.c[i].mul(&c[k - i]));
                }
                c.push(s.div(&y.c[0]));
            }
            norm(x.v - y.v, c)
        }
        // Something known only by its class over a series.
        (L::C(p, zeros), L::S(y)) => {
            let class = match (p, b.lim()) {
                (Lim::Unknown, _) => Lim::Unknown,
                (Lim::Wild, Lim::Val(_)) if y.v == 0 || *zeros => Lim::Wild,
                (Lim::Osc, Lim::Val(_)) if y.v > 0 && *zeros => Lim::Wild,
                (Lim::Val(p), Lim::Val(q)) if !q.is_zero() => val(p.div(&q)),
                (Lim::Val(p), Lim::Val(_)) if !p.is_zero() => Lim::Inf,
                (Lim::Val(_), Lim::Inf) => Lim::Val(N::zero()),
                (Lim::Inf, Lim::Val(_)) => Lim::Inf,
                (Lim::Osc, _) if y.v == 0 => Lim::Osc,
                (Lim::Bounded, _) if y.v == 0 => Lim::Bounded,
                (Lim::Osc | Lim::Bounded, Lim::Inf) => Lim::Val(N::zero()),
                _ => Lim::Unknown,
            };
            L::C(class, *zeros)
        }
        // Over something known only by its class: fine when that class cannot vanish nearby.
        (_, L::C(q, zeros)) => {
            let class = match (a.lim(), q) {
                (Lim::Unknown, _) => Lim::Unknown,
                (Lim::Wild, Lim::Val(q)) if !q.is_zero() => Lim::Wild,
                // Unbounded next to every zero of the divisor, bounded where that keeps away from zero.
                (Lim::Val(p), Lim::Osc) if *zeros && (matches!(a, L::S(_)) || !p.is_zero()) => Lim::Wild,
                (Lim::Val(p), Lim::Val(q)) if !q.is_zero() => val(p.div(q)),
                (Lim::Inf, Lim::Val(q)) if !q.is_zero() => Lim::Inf,
                (Lim::Osc, Lim::Val(q)) if !q.is_zero() => Lim::Osc,
                (Lim::Bounded, Lim::Val(q)) if !q.is_zero() => Lim::Bounded,
                (Lim::Val(_) | Lim::Osc | Lim::Bounded, Lim::Inf) => Lim::Val(N::zero()),
                _ => Lim::Unknown,
            };
            // A divisor that tends to infinity or to a nonzero value does not vanish nearby.
            let sound = matches!(q, Lim::Inf) || matches!(q, Lim::Val(q) if !q.is_zero());
            L::C(class, sound && a.zeros())
        }
    }
}

/// The sine and cosine of a series without a pole.
fn sincos(s: &Ser) -> (L, L) {
    let n = TERMS.min((s.v as usize) + s.c.len());
    let g: Vec<N> = (0..n as i32).map(|k| at(s, k).unwrap()).collect();
    let (mut a, mut b) = (vec![N::zero()], vec![N::one()]);
    if s.v == 0 {
        let v = g[0].ev();
        a[0] = v.map_or(N::X, |v| N::num(v.sin()));
        b[0] = v.map_or(N::X, |v| N::num(v.cos()));
    }
    for k in 1..n {
        let (mut x, mut y) = (N::zero(), N::zero());
        for i in 1..=k {
            let w = g[i].mul(&N::int(i as i64));
            x = x.add(&w.mul(&b[k - i]));
            y = y.sub(&w.mul(&a[k - i]));
        }
        let kk = N::int(k as i64);
        a.push(x.div(&kk));
        b.push(y.div(&kk));
    }
    (norm(0, a), norm(0, b))
}

fn func(cos: bool, a: L) -> L {
    match &a {
        L::Zero => {
            if cos {
                konst(N::one())
            } else {
                L::Zero
            }
        }
        L::S(s) if s.v >= 0 => {
            let (x, y) = sincos(s);
            if cos {
                y
            } else {
                x
            }
        }
        L::S(_) => L::C(Lim::Osc, true),
        L::C(Lim::Val(q), z) if q.is_zero() => L::C(Lim::Val(if cos { N::one() } else { N::zero() }), *z && !cos),
        L::C(Lim::Val(q), _) => L::C(
            q.ev().map_or(Lim::Bounded, |v| val(N::num(if cos { v.cos() } else { v.sin() }))),
            false,
        ),
        // Continuous and unbounded would oscillate, but the class alone does not say so.
        L::C(Lim::Inf | Lim::Osc | Lim::Bounded | Lim::Wild, z) => L::C(Lim::Bounded, *z && !cos),
        L::C(_, _) => UNKNOWN,
    }
}

/// The behaviour of `x` as `by` tends to `at`.
pub fn laurent(x: &E, by: &str, point: &N) -> L {
    match x {
        E::Int(_) | E::Rat(..) | E::Pi | E::Eul | E::Real(_) => N::literal(x).map_or(UNKNOWN, konst),
        E::Var(v) if v == by => {
            let mut c = vec![N::zero(); TERMS + 1];
            c[0] = point.clone();
            c[1] = N::one();
            norm(0, c)
        }
        E::Un(u, a) => {
            let a = laurent(a, by, point);
            match u {
                U::Neg => neg(a),
                U::Sin => func(false, a),
                U::Cos => func(true, a),
                _ => UNKNOWN,
            }
        }
        E::Bin(b, l, r) => {
            let (l, r) = (laurent(l, by, point), laurent(r, by, point));
            match b {
                B::Add => add(l, r),
                B::Sub => add(l, neg(r)),
                B::Mul => mul(l, r),
                B::Div => div(l, r),
                B::Pow => UNKNOWN,
            }
        }
        _ => UNKNOWN,
    }
}
