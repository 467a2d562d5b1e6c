//! Structured generation from a tape of words that proptest draws and shrinks. A word of 0, and
//! everything past the end of the tape, makes the simplest choice.

use crate::dict;
use crate::expr::{bin, un, var, B, E, U};

pub struct Tape<'a> {
    d: &'a [u32],
    i: usize,
}

impl<'a> Tape<'a> {
    pub fn new(d: &'a [u32]) -> Tape<'a> {
        Tape { d, i: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let x = self.d.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        x
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n > 1 << 31 {
            let x = ((self.raw() as u64) << 32) | self.raw() as u64;
            return ((x as u128 * n as u128) >> 64) as u64;
        }
        (self.raw() as u64 * n) >> 32
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below(hi.wrapping_sub(lo) as u64 + 1) as i64)
    }
    /// True with probability `pct`/100; the exhausted tape says false.
    pub fn chance(&mut self, pct: u32) -> bool {
        self.raw() as u64 >= ((100 - pct as u64) << 32) / 100
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.below(total);
        for (i, w) in w.iter().enumerate() {
            if x < *w as u64 {
                return i;
            }
            x -= *w as u64;
        }
        w.len() - 1
    }
    pub fn spent(&self) -> bool {
        self.i >= self.d.len()
    }
}

// ---- numbers ----

/// A number written in the code under test, or one next to it. Draws nothing where there is none.
fn from_dict(t: &mut Tape, pct: u32) -> Option<i64> {
    let d = &dict::get().ints;
    if d.is_empty() || !t.chance(pct) {
        return None;
    }
    let v = *t.pick(d);
    Some(match t.weighted(&[6, 2, 2, 2, 1, 1]) {
        0 => v,
        1 => v.saturating_add(1),
        2 => v.saturating_sub(1),
        3 => v.checked_neg().unwrap_or(0),
        4 => v.saturating_add(t.range(0, 100)),
        _ => v.saturating_mul(t.range(1, 4)),
    })
    .filter(|v: &i64| *v != i64::MIN)
}

fn real_from_dict(t: &mut Tape, pct: u32) -> Option<f64> {
    let d = &dict::get().reals;
    if d.is_empty() || !t.chance(pct) {
        return None;
    }
    let v = *t.pick(d);
    Some(match t.weighted(&[4, 2, 2, 1, 1]) {
        0 => v,
        1 => -v,
        2 => v * (1.0 + t.range(-1000, 1000) as f64 / 1e6),
        3 => v + t.range(-8, 8) as f64 / 8.0,
        _ => v / 2.0,
    })
}

pub fn small_int(t: &mut Tape) -> i64 {
    if let Some(v) = from_dict(t, 8) {
        return v;
    }
    match t.weighted(&[60, 40, 10, 3]) {
        0 => *t.pick(&[1, 0, 2, -1, 3, -2]),
        1 => t.range(-9, 9),
        2 => t.range(-100, 100),
        _ => {
            // Places where a narrower type or a table would end.
            let v = match t.weighted(&[3, 2, 1, 2]) {
                3 => match t.weighted(&[2, 1]) {
                    0 => (1 << t.range(5, 62)) + *t.pick(&[0, 0, 1, -1]),
                    _ => 10i64.pow(t.range(2, 18) as u32) + *t.pick(&[0, 0, 1, -1]),
                },
                0 => t.range(100, 1100),
                1 => *t.pick(&[127, 128, 255, 256, 1000, 1024, 32768, 65535, 65536, 1_000_000, 2147483647, 2147483648, 4294967296]),
                _ => *t.pick(&[9007199254740993, 1_000_000_007, 1_000_000_000_000, i64::MAX]),
            };
            if t.chance(50) {
                -v
            } else {
                v
            }
        }
    }
}

/// Any size, with the places where products and sums leave 32, 63 and 64 bits well covered.
pub fn any_int(t: &mut Tape) -> i64 {
    if let Some(v) = from_dict(t, 10) {
        return v;
    }
    match t.weighted(&[6, 3, 3, 3, 3]) {
        0 => small_int(t),
        1 => t.range(-1_000_000, 1_000_000),
        2 => {
            let p = t.range(20, 63);
            let base = if p == 63 { i64::MAX } else { 1i64 << p };
            let v = base.saturating_add(t.range(-3, 3));
            if t.chance(50) {
                -v
            } else {
                v
            }
        }
        3 => {
            // Around the square root of 2^63, where a product just fits or just does not.
            let v = t.range(3_037_000_400, 3_037_000_600);
            if t.chance(50) {
                -v
            } else {
                v
            }
        }
        _ => {
            let sh = t.range(0, 62);
            let v = t.range(i64::MIN + 1, i64::MAX) >> sh;
            if v == i64::MIN {
                0
            } else {
                v
            }
        }
    }
}

pub fn any_u64(t: &mut Tape) -> u64 {
    if let Some(v) = from_dict(t, 10) {
        return v.unsigned_abs();
    }
    match t.weighted(&[6, 3, 3, 2, 3]) {
        0 => t.below(13),
        1 => t.below(1_000_000),
        2 => (1u64 << t.range(20, 63)).wrapping_add(t.range(-3, 3) as u64),
        3 => t.range(3_037_000_400, 4_294_967_400) as u64,
        _ => {
            let sh = t.range(0, 63);
            t.below(u64::MAX) >> sh
        }
    }
}

/// Small fraction literal; often not in lowest terms, sometimes whole, one or zero.
pub fn small_rat(t: &mut Tape) -> E {
    if let Some(v) = from_dict(t, 8) {
        let w = 1 + t.below(12);
        let v = v.unsigned_abs();
        return if v == 0 || t.chance(50) { E::Rat(t.chance(40), v, w) } else { E::Rat(t.chance(40), w, v) };
    }
    match t.weighted(&[60, 30, 10, 3]) {
        3 => E::Rat(t.chance(40), t.below(1200), 1 + t.below(1200)),
        0 => {
            let (n, d) = *t.pick(&[(1, 2), (1, 3), (3, 2), (2, 3), (1, 4), (3, 4), (5, 2), (2, 5), (7, 3), (22, 7), (19, 7)]);
            E::Rat(t.chance(40), n, d)
        }
        1 => {
            let (n, d) = (t.below(13), 1 + t.below(12));
            E::Rat(t.chance(40), n, d)
        }
        _ => {
            let (n, d) = *t.pick(&[(2, 4), (3, 3), (0, 5), (4, 2), (6, 4), (1, 1), (10, 4), (2, 1), (0, 1)]);
            E::Rat(t.chance(40), n, d)
        }
    }
}

pub fn any_rat(t: &mut Tape) -> E {
    if t.chance(50) {
        let (n, mut d) = (any_u64(t), any_u64(t).max(1));
        // A common factor, so that reducing matters.
        if t.chance(30) {
            let g = 1 + t.below(40);
            if let (Some(a), Some(b)) = (n.checked_mul(g), d.checked_mul(g)) {
                return E::Rat(t.chance(40), a, b);
            }
        }
        if d == 0 {
            d = 1;
        }
        E::Rat(t.chance(40), n, d)
    } else {
        small_rat(t)
    }
}

/// Reals close to numbers with a meaning of their own, but different from them.
/// The first fourteen hold in three decimals.
pub const NEAR: [f64; 18] = [
    3.14, 3.141, 3.142, 2.718, 2.72, 1.571, 0.001, -0.001, 1.001, 0.999, 6.283, -3.142, 0.785, 9.425, 3.1415, 2.7183, 1.0005, 0.0004,
];

/// A few steps from a value that code may look for.
fn beside(t: &mut Tape) -> f64 {
    use std::f64::consts::*;
    let v: f64 = *t.pick(&[PI, E, PI, E, TAU, FRAC_PI_2, FRAC_PI_4, 1.0, 2.0, 0.5]);
    let v = match t.weighted(&[2, 1, 1]) {
        0 => f64::from_bits((v.to_bits() as i64 + t.range(-30, 30)) as u64),
        1 => v + t.range(-9, 9) as f64 * 10f64.powi(-(t.range(5, 15) as i32)),
        _ => v,
    };
    if t.chance(20) {
        -v
    } else {
        v
    }
}

/// A real that a printed form of three decimals holds exactly.
pub fn eighth(t: &mut Tape) -> E {
    if let Some(v) = real_from_dict(t, 10) {
        // No more than three decimals.
        return E::Real((v * 1000.0).round() / 1000.0);
    }
    if t.chance(15) {
        return E::Real(*t.pick(&NEAR[..14]));
    }
    let k = match t.weighted(&[30, 20, 1]) {
        2 => t.range(-8_000_000, 8_000_000),
        0 => *t.pick(&[4, 12, -4, 1, 20, -12, 8, 3]),
        _ => t.range(-400, 400),
    };
    E::Real(k as f64 / 8.0)
}

pub fn any_real(t: &mut Tape) -> f64 {
    if let Some(v) = real_from_dict(t, 10) {
        return v;
    }
    if let Some(v) = from_dict(t, 4) {
        return v as f64 + t.range(-8, 8) as f64 / 8.0;
    }
    match t.weighted(&[8, 6, 6, 2, 2, 2]) {
        5 => {
            // Anywhere in the range, of any number of digits.
            let m = t.range(-(1 << 53), 1 << 53) as f64;
            let e = t.range(-1074 - 52, 1023 - 52);
            let v = m * 2f64.powi(e.max(-1000) as i32) * 2f64.powi((e + 1000).min(0) as i32);
            if v.is_finite() { v } else { 1e300 }
        }
        0 => t.range(-400, 400) as f64 / 8.0,
        1 => (t.range(-1_000_000_000, 1_000_000_000) as f64) / 1e6 + 1e-7,
        2 => {
            let m = t.range(-(1 << 53), 1 << 53) as f64;
            let e = t.range(-90, 60);
            m * 2f64.powi(e as i32)
        }
        3 if t.chance(30) => *t.pick(&NEAR),
        3 if t.chance(40) => beside(t),
        3 => *t.pick(&[
            0.0, 1.0, -1.0, -0.0, std::f64::consts::PI, std::f64::consts::E, 1e-9, 1e9, -std::f64::consts::PI,
            -std::f64::consts::E, std::f64::consts::FRAC_PI_2, std::f64::consts::TAU, 3.14159265, 2.71828183,
        ]),
        _ => {
            let m = t.range(-(1 << 53), 1 << 53) as f64;
            let e = t.range(-300, 250);
            m * 2f64.powi(e as i32)
        }
    }
}

// ---- expressions ----

pub const NAMES: [&str; 12] = ["x", "y", "z", "x1", "xx", "X", "xy", "t", "u", "a", "b", "\u{3b1}"];

#[derive(Clone)]
pub struct Cfg {
    pub vars: Vec<&'static str>,
    /// Relative weight of a variable among leaves, out of 10.
    pub var_w: u32,
    pub un: Vec<(U, u32)>,
    pub bin: Vec<(B, u32)>,
    /// Weights: small integer, small fraction, real (an eighth), pi, e.
    pub lits: [u32; 5],
    /// Percentage of powers whose exponent is a small integer.
    pub int_pow: u32,
    /// Non-negative integer exponents only.
    pub nonneg_pow: bool,
    /// Percentage of subexpressions that repeat an earlier one.
    pub reuse: u32,
}

impl Cfg {
    pub fn full() -> Cfg {
        Cfg {
            vars: vec!["x", "x", "x", "y", "z", "x1"],
            var_w: 5,
            un: vec![(U::Neg, 4), (U::Sin, 3), (U::Cos, 3), (U::Exp, 3), (U::Ln, 3)],
            bin: vec![(B::Add, 4), (B::Sub, 4), (B::Mul, 4), (B::Div, 4), (B::Pow, 3)],
            lits: [8, 4, 1, 1, 1],
            int_pow: 60,
            nonneg_pow: false,
            reuse: 8,
        }
    }
    pub fn arithmetic() -> Cfg {
        Cfg {
            un: vec![(U::Neg, 1)],
            bin: vec![(B::Add, 4), (B::Sub, 4), (B::Mul, 4), (B::Div, 3)],
            lits: [3, 2, 0, 0, 0],
            ..Cfg::full()
        }
    }
}

pub fn lit(t: &mut Tape, c: &Cfg) -> E {
    match t.weighted(&c.lits) {
        0 => E::Int(small_int(t)),
        1 => small_rat(t),
        2 => eighth(t),
        3 => E::Pi,
        _ => E::Eul,
    }
}

pub fn leaf(t: &mut Tape, c: &Cfg) -> E {
    if !c.vars.is_empty() && (t.below(10) as u32) < c.var_w {
        var(t.pick(&c.vars))
    } else {
        lit(t, c)
    }
}

/// An expression of at most about `budget` nodes.
pub fn expr(t: &mut Tape, c: &Cfg, budget: usize) -> E {
    if budget > 5 && t.chance(4) {
        return comb(t, c, budget);
    }
    let mut pool = vec![];
    go(t, c, budget, &mut pool)
}

/// A long chain to one side, mostly of one operation, or a tower of functions.
fn comb(t: &mut Tape, c: &Cfg, budget: usize) -> E {
    let side = t.below(3);
    let w: Vec<u32> = c.bin.iter().filter(|x| x.0 != B::Pow).map(|x| x.1).collect();
    let bs: Vec<B> = c.bin.iter().filter(|x| x.0 != B::Pow).map(|x| x.0).collect();
    let main = bs[t.weighted(&w)];
    let tower = !c.un.is_empty() && t.chance(25);
    let mut e = leaf(t, c);
    while e.size() < budget && !t.spent() {
        if !c.un.is_empty() && t.chance(if tower { 90 } else { 6 }) {
            let w: Vec<u32> = c.un.iter().map(|x| x.1).collect();
            e = un(c.un[t.weighted(&w)].0, e);
            continue;
        }
        let b = if t.chance(20) { bs[t.weighted(&w)] } else { main };
        let l = leaf(t, c);
        e = if side == 0 || side == 2 && t.chance(50) { bin(b, e, l) } else { bin(b, l, e) };
    }
    e
}

/// A large size once in a while.
pub fn size_or_large(t: &mut Tape, max: usize, large: usize) -> usize {
    if t.chance(2) {
        max + t.below((large - max) as u64) as usize
    } else {
        size(t, max)
    }
}

const FAMILIES: [[&str; 4]; 11] = [
    ["velocity_x", "velocity_y", "velocity", "Velocity_x"],
    ["a_rather_long_name_1", "a_rather_long_name_2", "a_rather_long_name", "a"],
    ["x_1", "x_2", "x_12", "x_"],
    ["pi", "e", "sin", "ln"],
    ["\u{3b1}", "\u{3b1}\u{3b2}", "\u{3b2}", "\u{391}"],
    ["1", "-1", "0", "x+1"],
    ["x", "X", "x'", "x''"],
    ["ab", "ba", "aa", "b"],
    ["x", "x ", " x", "x\u{a0}"],
    ["", " ", "_", "x_"],
    ["(x)", "x;y", "x@@y", "%x"],
];

/// Once in a while, other names: similar to each other or to something else. Same variables stay the same.
pub fn names(t: &mut Tape, e: &mut [E]) {
    let words = &dict::get().words;
    let worded = !words.is_empty() && t.chance(15);
    if !worded && !t.chance(8) {
        return;
    }
    let mut vs: Vec<String> = e.iter().flat_map(|e| e.vars()).collect();
    vs.sort();
    vs.dedup();
    let k = t.below(4) as usize;
    let f: Vec<String> = if worded {
        let w = t.pick(words).clone();
        let cut: String = w.chars().take(w.chars().count().max(2) - 1).collect();
        vec![w.clone(), format!("{w}1"), format!("a{w}"), if cut == w { "x".into() } else { cut }]
    } else if t.chance(30) {
        // Any short names, all different.
        let mut f: Vec<String> = vec![];
        while f.len() < 4 {
            let n = 1 + t.below(4);
            let mut w: String = (0..n).map(|_| *t.pick(&['a', 'b', 'c', 'x', 'y', 'z', 'k', 'A', 'X', '_', '1', '2', '\''])).collect();
            if f.contains(&w) {
                w = format!("{w}{}", f.len());
            }
            if !f.contains(&w) {
                f.push(w);
            } else {
                f.push(format!("v{}", f.len()));
            }
        }
        f
    } else {
        t.pick(&FAMILIES).iter().map(|x| x.to_string()).collect()
    };
    let to: Vec<E> = (0..vs.len()).map(|i| if i < 4 { var(&f[(i + k) % 4]) } else { var(&format!("{}{i}", f[0])) }).collect();
    for e in e.iter_mut() {
        *e = e.rename(&vs, &to);
    }
}

/// The same expression but for one place; often it prints alike or looks like it.
pub fn near(t: &mut Tape, c: &Cfg, e: &E) -> E {
    let reals = c.lits[2] > 0;
    match e {
        E::Un(u, a) => {
            if t.chance(25) {
                let w: Vec<u32> = c.un.iter().map(|x| x.1).collect();
                un(c.un[t.weighted(&w)].0, (**a).clone())
            } else {
                un(*u, near(t, c, a))
            }
        }
        E::Bin(B::Pow, l, r) if r.is_num() => bin(B::Pow, near(t, c, l), (**r).clone()),
        E::Bin(b, l, r) => match t.weighted(&[2, 1, 4, 4]) {
            0 if *b != B::Pow => bin(*b, (**r).clone(), (**l).clone()),
            1 if *b != B::Pow => {
                let bs: Vec<B> = c.bin.iter().filter(|x| x.0 != B::Pow && x.1 > 0).map(|x| x.0).collect();
                bin(if bs.is_empty() { *b } else { *t.pick(&bs) }, (**l).clone(), (**r).clone())
            }
            0 | 2 => bin(*b, near(t, c, l), (**r).clone()),
            _ => bin(*b, (**l).clone(), near(t, c, r)),
        },
        E::Int(i) => match t.below(3) {
            0 if reals => E::Real(*i as f64),
            1 => E::Int(i.saturating_sub(1)),
            _ => E::Int(i.saturating_add(1)),
        },
        E::Rat(s, p, q) => E::Rat(!s, *p, *q),
        E::Real(v) => E::Real(v + *t.pick(&[1e-4, -1e-4, 2e-4])),
        E::Pi if reals => E::Real(3.1415),
        E::Eul if reals => E::Real(2.7183),
        E::Var(_) if !c.vars.is_empty() => var(t.pick(&c.vars)),
        e => e.clone(),
    }
}

fn go(t: &mut Tape, c: &Cfg, budget: usize, pool: &mut Vec<E>) -> E {
    if budget <= 1 || t.spent() {
        return leaf(t, c);
    }
    if !pool.is_empty() && c.reuse > 0 && t.chance(c.reuse) {
        let k = t.below(pool.len() as u64) as usize;
        if pool[k].size() <= budget + 2 {
            return if t.chance(30) { near(t, c, &pool[k].clone()) } else { pool[k].clone() };
        }
    }
    let has_un = !c.un.is_empty();
    let kind = if budget == 2 {
        if has_un {
            t.weighted(&[1, 5, 0])
        } else {
            0
        }
    } else {
        t.weighted(&[1, if has_un { 3 } else { 0 }, 7])
    };
    let e = match kind {
        0 => return leaf(t, c),
        1 => {
            let w: Vec<u32> = c.un.iter().map(|x| x.1).collect();
            let u = c.un[t.weighted(&w)].0;
            un(u, go(t, c, budget - 1, pool))
        }
        _ => {
            let w: Vec<u32> = c.bin.iter().map(|x| x.1).collect();
            let b = c.bin[t.weighted(&w)].0;
            let left = 1 + t.below(budget as u64 - 2) as usize;
            if b == B::Pow && t.chance(c.int_pow) {
                let k = if let Some(v) = from_dict(t, 10).filter(|v| (if c.nonneg_pow { 0 } else { -30 }..=30).contains(v)) {
                    v
                } else if t.chance(6) {
                    t.range(if c.nonneg_pow { 0 } else { -12 }, 20)
                } else if c.nonneg_pow {
                    *t.pick(&[2, 3, 1, 0, 4, 5])
                } else {
                    *t.pick(&[2, 3, -1, 1, 0, -2, 4, 5, -3])
                };
                bin(b, go(t, c, budget - 2, pool), E::Int(k))
            } else {
                let l = go(t, c, left, pool);
                let r = go(t, c, budget - 1 - left, pool);
                bin(b, l, r)
            }
        }
    };
    pool.push(e.clone());
    e
}

/// A size, small ones more often.
pub fn size(t: &mut Tape, max: usize) -> usize {
    if let Some(v) = from_dict(t, 5).filter(|v| (1..=max as i64).contains(v)) {
        return v as usize;
    }
    let m = max as u64;
    match t.weighted(&[3, 4, 2]) {
        0 => 1 + t.below(m.min(5)) as usize,
        1 => 1 + t.below((m / 2).max(2)) as usize,
        _ => 1 + t.below(m) as usize,
    }
}

// ---- bounded-exhaustive enumeration ----

/// Every expression over the given leaves and operations with exactly `n` nodes.
pub fn all_of_size(n: usize, leaves: &[E], us: &[U], bs: &[B], f: &mut dyn FnMut(E)) {
    if n == 1 {
        for l in leaves {
            f(l.clone());
        }
        return;
    }
    for u in us {
        all_of_size(n - 1, leaves, us, bs, &mut |a| f(un(*u, a)));
    }
    for k in 1..n.saturating_sub(1) {
        for b in bs {
            all_of_size(k, leaves, us, bs, &mut |l| {
                all_of_size(n - 1 - k, leaves, us, bs, &mut |r| f(bin(*b, l.clone(), r)));
            });
        }
    }
}

pub fn all_up_to(n: usize, leaves: &[E], us: &[U], bs: &[B], f: &mut dyn FnMut(E)) {
    for k in 1..=n {
        all_of_size(k, leaves, us, bs, f);
    }
}
