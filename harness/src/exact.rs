//! C26: exact numbers stay exact.

use oracle::expr::{bin, eval_q, un, var, B, E, U};
use oracle::field::{mulm, P};
use oracle::gen::{self, Cfg, Tape};
use oracle::laurent::{laurent, Lim, N};
use oracle::runner::{call, Case, Obs, Prop, Stop, Verdict};
use oracle::series::Field;
use oracle::{discard, fail};

use crate::bridge::{build, read};
use crate::limits::vanishing;
use crate::structure::proper;
use symbolic_rust::verif_api as sym;
use sym::{Expression, LimitExpression, NumAggregate as _, TaylorExpansion as _, Variable};

const SALTS: [u64; 2] = [0x6d2b_79f5, 0x1b56_c4e9];

fn exact(e: &E) -> bool {
    !e.any(&mut |x| matches!(x, E::Real(_) | E::Pi | E::Eul))
}

/// The number that is not exact, if there is one.
fn approximation(e: &E) -> Option<E> {
    let mut found = None;
    e.any(&mut |x| {
        if matches!(x, E::Real(_) | E::Pi | E::Eul) {
            found = Some(x.clone());
        }
        found.is_some()
    });
    found
}

/// Whether `got` is n! times the n-th term of `e` as a series in `by` about `at` (the expression
/// itself for order 0), exactly. Discards where that leads to the number e, which is not exact.
fn same(e: &E, by: &str, at: Option<&E>, order: usize, factorial: bool, got: &E) -> Result<bool, Stop> {
    let mut seen = false;
    for salt in SALTS {
        let mut f = Field::new(salt);
        let x0 = match at {
            Some(a) => f.eval(a),
            None => Some(f.var(by)),
        };
        let Some(x0) = x0 else { continue };
        let want = f.series(e, by, x0, order).map(|s| s[order]);
        let is = f.eval(got);
        if f.euler {
            return Err(Stop::Discard("exp 1"));
        }
        if let (Some(mut w), Some(g)) = (want, is) {
            if factorial {
                w = (1..=order as u64).fold(w, |w, k| mulm(w, k % P));
            }
            if w != g {
                return Ok(false);
            }
            seen = true;
        }
    }
    if !seen {
        return Err(Stop::Discard("undefined everywhere (division by zero)"));
    }
    Ok(true)
}

fn check_one(what: &str, e: &E, by: &str, at: Option<&E>, order: usize, factorial: bool, got: &E) -> Result<(), Stop> {
    if !same(e, by, at, order, factorial, got)? {
        fail!("{what} comes out as {got}, which is not exactly that");
    }
    if let Some(a) = approximation(got) {
        fail!("{what} comes out as {got}: {a} is not exact");
    }
    Ok(())
}

/// Whether derivatives of that order stay short.
fn mild(e: &E, n: i64) -> bool {
    let mut growing = 0;
    let bad = e.any(&mut |x| {
        match x {
            E::Un(U::Neg, _) | E::Bin(B::Add | B::Sub, ..) => {}
            E::Un(U::Sin | U::Cos | U::Exp, a) => {
                growing += 1;
                // Linear in what it is a function of.
                return a.any(&mut |y| match y {
                    E::Un(..) | E::Bin(B::Pow, ..) => true,
                    E::Bin(B::Mul | B::Div, l, r) => !l.is_num() && !r.is_num(),
                    _ => false,
                });
            }
            E::Bin(B::Mul, l, r) if !l.is_num() && !r.is_num() => growing += 1,
            E::Bin(B::Div, _, r) => return !r.is_num(),
            E::Bin(B::Pow, l, r) => {
                growing += 1;
                return !(matches!(**l, E::Var(_) | E::Int(_) | E::Rat(..)) || matches!(**r, E::Int(_)));
            }
            E::Un(U::Ln, _) => return true,
            _ => {}
        }
        false
    });
    !bad && e.size() <= 12 && growing <= if n > 12 { 2 } else { 3 }
}

fn interesting(e: &E, got: &E, o: &mut Obs) {
    let symbolic = e.any(&mut |x| matches!(x, E::Un(U::Sin | U::Cos | U::Exp | U::Ln, _) | E::Bin(B::Pow, ..)));
    let number = got.any(&mut |x| match x {
        E::Int(i) => i.unsigned_abs() > 1,
        E::Rat(..) => true,
        _ => false,
    });
    if symbolic && number {
        o.hit();
    }
    if got.any(&mut |x| matches!(x, E::Rat(..))) {
        o.label("with a fraction in the result");
    }
    if e.any(&mut |x| matches!(x, E::Bin(B::Pow, _, r) if !matches!(**r, E::Int(_)))) {
        o.label("with a power that is not whole");
    }
}

fn c26(c: &Case, o: &mut Obs) -> Verdict {
    if c.e.len() != 2 || c.k.is_empty() || !c.e.iter().all(|e| proper(e) && exact(e)) || c.e[0].size() > 40 || c.e[1].size() > 12 {
        discard!("malformed");
    }
    let (e, at) = (&c.e[0], &c.e[1]);
    match c.k[0] {
        0 => {
            o.label("folding");
            let f = read(&call("folding", || build(e).num_aggregate())?);
            check_one(&format!("{e} folded"), e, "x", None, 0, false, &f)?;
            interesting(e, &f, o);
        }
        1 => {
            o.label("derivation");
            if c.k.len() > 4 {
                discard!("malformed");
            }
            let mut cur = e.clone();
            let mut x = build(e);
            for k in &c.k[1..] {
                let by = ["x", "y"][k.rem_euclid(2) as usize];
                x = match call("deriving", || sym::derivative_by_variable(x.clone(), &Variable::new_variable(by)))? {
                    Ok(d) => d,
                    Err(m) => fail!("deriving {cur} is refused: {m}"),
                };
                let d = read(&x);
                if d.size() > 4000 {
                    discard!("too long");
                }
                check_one(&format!("the derivative of {cur} by {by}"), &cur, by, None, 1, false, &d)?;
                cur = d;
            }
            interesting(e, &cur, o);
        }
        2 => {
            o.label("expansion");
            if c.k.get(1).is_some_and(|n| *n > 4) {
                o.label("order above 4");
            }
            let n = c.k.get(1).copied().unwrap_or(0);
            if at.has_var("x") || !(0..=20).contains(&n) {
                discard!("malformed");
            }
            if n > 4 && !mild(e, n) {
                discard!("too large for that order");
            }
            let t = match call("expanding", || build(e).taylor_expansion(Expression::new_variable("x"), build(at), n as u64))? {
                Ok(t) => t,
                Err(m) => fail!("expanding {e} is refused: {m}"),
            };
            let mut any = false;
            // What leads to e at one order leads to it at all of them.
            for (i, co) in t.coefficient.iter().enumerate() {
                let co = read(co);
                match check_one(&format!("coefficient {i} of {e} about {at}"), e, "x", Some(at), i, false, &co) {
                    Ok(()) => {
                        any = true;
                        interesting(e, &co, o);
                    }
                    Err(Stop::Discard(m)) if m != "exp 1" => {}
                    Err(s) => return Err(s),
                }
            }
            let r = read(&t.residual);
            if r.size() < 6000 {
                match check_one(&format!("the residual of {e} after order {n}"), e, "x", None, n as usize + 1, true, &r) {
                    Ok(()) => any = true,
                    Err(Stop::Discard(_)) => {}
                    Err(s) => return Err(s),
                }
            }
            if !any {
                discard!("undefined everywhere (division by zero)");
            }
        }
        3 => {
            o.label("limit");
            let n = c.k.get(1).copied().unwrap_or(0);
            if at.has_var("x") || !(0..=4).contains(&n) || !at.vars().is_empty() {
                discard!("malformed");
            }
            if e.any(&mut |x| matches!(x, E::Un(U::Exp | U::Ln, _) | E::Bin(B::Pow, ..))) {
                discard!("not implemented");
            }
            match call("the limit", || sym::limit_variable(build(e), &Variable::new_variable("x"), build(at), n as u64))? {
                Ok(LimitExpression::Normal(v)) => {
                    let v = read(&v);
                    if let Some(a) = approximation(&v) {
                        fail!("the limit of {e} as x tends to {at} comes out as {v}: {a} is not exact");
                    }
                    // Where no divisor vanishes, the limit is the value.
                    match same(e, "x", Some(at), 0, false, &v) {
                        Ok(true) => {}
                        Ok(false) => fail!("the limit of {e} as x tends to {at} comes out as {v}, which is not exactly that"),
                        Err(s) => {
                            // Where one does, what the expansion says if it is a fraction.
                            let truth = at.lit_q().filter(|_| e.vars().iter().all(|v| v == "x")).map(|q| laurent(e, "x", &N::Q(q)).lim());
                            match (truth, eval_q(&v, &[])) {
                                (Some(Lim::Val(N::Q(q))), Some(w)) if q == w => o.label("limit, a divisor vanishes"),
                                (Some(Lim::Val(N::Q(q))), Some(_)) => fail!("the limit of {e} as x tends to {at} comes out as {v}, it is {}", q.show()),
                                _ => return Err(s),
                            }
                        }
                    }
                    interesting(e, &v, o);
                }
                _ => discard!("no value"),
            }
        }
        _ => discard!("malformed"),
    }
    Ok(())
}

fn number(t: &mut Tape) -> E {
    match t.weighted(&[4, 4, 1]) {
        0 => E::Int(t.range(-12, 12)),
        1 => E::Rat(t.chance(30), 1 + t.below(12), 1 + t.below(12)),
        _ => E::Rat(t.chance(30), 1 + t.below(400), 1 + t.below(400)),
    }
}

fn gen_c26(t: &mut Tape) -> Case {
    let what = t.weighted(&[2, 3, 3, 2]) as i64;
    let mut c = Cfg {
        vars: vec!["x", "x", "x", "y"],
        lits: [4, 5, 0, 0, 0],
        ..Cfg::full()
    };
    if what == 3 {
        c.un = vec![(U::Neg, 1), (U::Sin, 2), (U::Cos, 2)];
        c.bin.retain(|(b, _)| *b != B::Pow);
    }
    let n = match what {
        0 => gen::size(t, 16),
        1 => gen::size(t, 10),
        _ => gen::size(t, 8),
    };
    let mut e = gen::expr(t, &c, n);
    // Numbers where they are often forgotten: exponents, operands of functions, divisors.
    for _ in 0..t.below(3) {
        let a = number(t);
        e = match t.below(if what == 3 { 6 } else { 9 }) {
            0 => bin(B::Mul, a, e),
            1 => bin(B::Div, e, a),
            2 => bin(B::Add, e, a),
            3 => un(*t.pick(&[U::Sin, U::Cos]), bin(B::Mul, a, e)),
            4 => bin(B::Div, a, e),
            5 => bin(B::Sub, a, e),
            6 => bin(B::Pow, e, a),
            7 => bin(B::Pow, a, e),
            _ => un(*t.pick(&[U::Exp, U::Ln]), bin(B::Mul, a, e)),
        };
    }
    // High orders, where factorials are large, of expressions whose derivatives stay short.
    let high = what == 2 && t.chance(12);
    if high {
        let (a, b) = (number(t), number(t));
        let line = bin(*t.pick(&[B::Add, B::Sub]), bin(B::Mul, a, var("x")), b);
        e = match t.below(5) {
            0 => un(*t.pick(&[U::Sin, U::Cos, U::Exp]), line),
            1 => un(*t.pick(&[U::Sin, U::Cos, U::Exp]), bin(B::Mul, number(t), var("x"))),
            2 => bin(B::Pow, line, E::Int(t.range(1, 16))),
            3 => bin(B::Mul, bin(B::Pow, var("x"), E::Int(t.range(1, 9))), un(*t.pick(&[U::Sin, U::Cos, U::Exp]), var("x"))),
            _ => bin(B::Add, bin(B::Mul, number(t), bin(B::Pow, var("x"), E::Int(t.range(2, 20)))), un(*t.pick(&[U::Sin, U::Exp]), var("x"))),
        };
    }
    let at = match t.weighted(&[3, 3, if what == 2 { 2 } else { 0 }]) {
        0 => E::Int(t.range(-3, 3)),
        1 => number(t),
        _ => bin(*t.pick(&[B::Add, B::Mul, B::Sub]), var("y"), number(t)),
    };
    // Quotients of things that vanish at the point.
    let zero = what == 3 && t.chance(50);
    if zero {
        let (u, v) = (vanishing(t, &at, &c), vanishing(t, &at, &c));
        let a = number(t);
        e = match t.below(5) {
            0 | 1 => bin(B::Div, u, v),
            2 => bin(B::Div, bin(B::Mul, a, u), v),
            3 => bin(B::Div, u, bin(B::Mul, a, v)),
            _ => bin(*t.pick(&[B::Add, B::Mul, B::Sub, B::Div]), bin(B::Div, u, v), a),
        };
    }
    let k = match what {
        3 if zero => vec![3, t.range(0, 4)],
        1 => {
            let mut k = vec![1];
            for _ in 0..1 + t.below(2) {
                k.push(t.weighted(&[4, 1]) as i64);
            }
            k
        }
        2 if high => vec![2, t.range(5, 20)],
        2 => vec![2, t.weighted(&[2, 3, 3, 1]) as i64],
        3 => vec![3, t.below(3) as i64],
        _ => vec![0],
    };
    Case::new(vec![e, at], k)
}

fn small_c26(thorough: bool, f: &mut dyn FnMut(Case)) {
    high_c26(f);
    let mut ns: Vec<E> = [0, 1, 2, 3, 5, 10, -1, -2, -7].iter().map(|n| E::Int(*n)).collect();
    ns.extend([(1, 2), (1, 3), (2, 3), (3, 2), (5, 7), (1, 10), (4, 2)].iter().map(|(n, d)| E::Rat(false, *n, *d)));
    ns.extend([E::Rat(true, 1, 2), E::Rat(true, 5, 3)]);
    let x = || var("x");
    let mut shapes: Vec<Box<dyn Fn(&E, &E) -> E>> = vec![
        Box::new(move |a, b| bin(B::Pow, bin(B::Add, x(), b.clone()), a.clone())),
        Box::new(move |a, b| bin(B::Mul, b.clone(), bin(B::Pow, a.clone(), x()))),
        Box::new(move |a, b| bin(B::Pow, bin(B::Mul, a.clone(), x()), bin(B::Add, x(), b.clone()))),
        Box::new(move |a, b| bin(B::Pow, x(), bin(B::Mul, a.clone(), b.clone()))),
        Box::new(move |a, b| bin(B::Pow, x(), bin(B::Add, var("y"), bin(B::Div, a.clone(), b.clone())))),
        Box::new(move |a, b| bin(B::Div, bin(B::Add, x(), a.clone()), bin(B::Add, bin(B::Mul, x(), x()), b.clone()))),
    ];
    for g in [U::Sin, U::Cos, U::Exp, U::Ln] {
        shapes.push(Box::new(move |a, b| un(g, bin(B::Add, bin(B::Mul, a.clone(), x()), b.clone()))));
        shapes.push(Box::new(move |a, b| bin(B::Mul, a.clone(), un(g, bin(B::Div, x(), b.clone())))));
        shapes.push(Box::new(move |a, b| un(g, bin(B::Mul, a.clone(), b.clone()))));
        shapes.push(Box::new(move |a, b| bin(B::Mul, un(g, bin(B::Sub, a.clone(), b.clone())), x())));
    }
    for s in &shapes {
        for a in &ns {
            for b in &ns {
                let e = s(a, b);
                f(Case::new(vec![e.clone(), E::Int(0)], vec![0]));
                f(Case::new(vec![e.clone(), E::Int(0)], vec![1, 0]));
                f(Case::new(vec![e.clone(), E::Int(0)], vec![1, 0, 0]));
                for at in [E::Int(0), E::Int(1), E::Rat(false, 1, 2), bin(B::Add, var("y"), E::Rat(false, 1, 3))] {
                    f(Case::new(vec![e.clone(), at.clone()], vec![2, if thorough { 4 } else { 2 }]));
                    f(Case::new(vec![e.clone(), at], vec![3, 1]));
                }
            }
        }
    }
}

fn high_c26(f: &mut dyn FnMut(Case)) {
    for n in 5..=20 {
        for g in [U::Sin, U::Cos, U::Exp] {
            for a in [E::Int(1), E::Int(2), E::Int(-1), E::Rat(false, 1, 2)] {
                for at in [E::Int(0), E::Int(1), var("y")] {
                    f(Case::new(vec![un(g, bin(B::Mul, a.clone(), var("x"))), at.clone()], vec![2, n]));
                    f(Case::new(vec![un(g, bin(B::Add, var("x"), a.clone())), at], vec![2, n]));
                }
            }
        }
        for m in 1..=20 {
            for at in [E::Int(0), E::Int(1), E::Int(-2), var("y")] {
                f(Case::new(vec![bin(B::Pow, var("x"), E::Int(m)), at.clone()], vec![2, n]));
                f(Case::new(vec![bin(B::Pow, bin(B::Add, var("x"), E::Int(1)), E::Int(m)), at], vec![2, n]));
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "Expressions over all operations with integers and fractions (in operands of functions, exponents and divisors too) folded, derived once or twice, expanded to order 4 at most (20 at most where derivatives stay short) about numbers and expressions, or taken to a limit; every result must have integers and fractions for its only numbers and equal, in a prime field with the rules of differentiation and the special values of functions, exactly what is asked for. All combinations of 18 by 18 numbers in 22 shapes enumerated. Non-trivial: a function or power in the expression, a number other than 0 and 1 in the result.",
        tape: 120,
        gen: gen_c26,
        check: c26,
        small: small_c26,
        quick: 2_500_000,
        thorough: 40_000_000,
    }]
}
