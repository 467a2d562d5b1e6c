//! C24: long chains of operations as one expression.

use oracle::expr::{bin, eval_q, un, var, B, E, U};
use oracle::field;
use oracle::gen::{self, Cfg, Tape};
use oracle::parse::parse;
use oracle::runner::{call, call_strict, Case, Obs, Prop, Stop, Verdict};
use oracle::big::Q;
use oracle::{discard, fail};

use crate::aggregate::unfolded;
use crate::bridge::{build, read};
use crate::structure::{exactly, proper};
use symbolic_rust::verif_api as sym;
use sym::{Expression, LimitExpression, NumAggregate as _, TaylorExpansion as _, Variable};

const DEEP: i64 = 1200;
const LARGE: usize = 12_000;
const STEPS: i64 = 15;

/// One more operation around what there is.
fn step(acc: E, code: i64, pieces: &[E]) -> E {
    let code = code.unsigned_abs() as usize;
    let (op, which) = (code % STEPS as usize, code / STEPS as usize % pieces.len());
    let p = || pieces[which].clone();
    match op {
        0 => bin(B::Add, acc, p()),
        1 => bin(B::Add, p(), acc),
        2 => bin(B::Sub, acc, p()),
        3 => bin(B::Sub, p(), acc),
        4 => un(U::Neg, acc),
        5 => bin(B::Mul, acc, p()),
        6 => bin(B::Mul, p(), acc),
        7 => bin(B::Div, acc, p()),
        8 => bin(B::Div, p(), acc),
        9 => un(U::Sin, acc),
        10 => un(U::Cos, acc),
        11 => un(U::Exp, acc),
        12 => bin(B::Pow, acc, E::Int(2)),
        13 => bin(B::Pow, acc, E::Int(-1)),
        _ => bin(B::Pow, acc, E::Int(3)),
    }
}

/// e: what is innermost, then the other operands. k: what to do, how often, then the steps, again and again.
fn chain(c: &Case) -> Option<E> {
    if c.e.len() < 2 || c.k.len() < 3 || !c.e.iter().all(proper) || c.e.iter().any(|e| e.size() > 12) {
        return None;
    }
    if !(0..=DEEP).contains(&c.k[1]) || !c.e[0].has_var("x") {
        return None;
    }
    let fits = |e: &E| {
        !e.any(&mut |x| match x {
            E::Pi | E::Eul | E::Real(_) => true,
            E::Var(v) => !matches!(v.as_str(), "x" | "y" | "z"),
            E::Un(u, a) => *u == U::Ln || *u != U::Neg && a.vars().is_empty(),
            E::Bin(B::Pow, l, r) => !matches!(**r, E::Int(-3..=3)) || l.vars().is_empty(),
            E::Bin(B::Div, _, r) => eval_q(r, &[]).is_some_and(|q| q.is_zero()),
            _ => false,
        }) && e.max_lit() <= 50
            // Nothing that folding makes a number of.
            && !e.any(&mut |x| eval_q(x, &[]).is_some_and(|q| q.is_zero()))
    };
    if !c.e.iter().all(fits) {
        return None;
    }
    let mut e = c.e[0].clone();
    let mut size = e.size();
    let steps = &c.k[2..];
    for i in 0..c.k[1] as usize {
        let n = step(e, steps[i % steps.len()], &c.e[1..]);
        size += 2;
        if size * 3 > LARGE {
            // Sizes vary: count now and then only.
            if n.size() > LARGE {
                return None;
            }
        }
        e = n;
    }
    Some(e)
}

fn agrees(a: &E, b: &E) -> Result<bool, Stop> {
    field::agree(a, b).ok_or(Stop::Discard("undefined everywhere (division by zero)"))
}

/// A short form of something long, for messages.
fn brief(e: &E) -> String {
    let s = e.to_string();
    if s.chars().count() < 200 {
        s
    } else {
        format!("{}... ({} nodes, {} deep)", s.chars().take(160).collect::<String>(), e.size(), e.depth())
    }
}

fn c24(c: &Case, o: &mut Obs) -> Verdict {
    let Some(e) = chain(c) else { discard!("malformed") };
    let x = build(&e);
    let depth = e.depth();
    match c.k[0] {
        0 => {
            o.label("folding");
            let f = call("folding", || read(&x.clone().num_aggregate()))?;
            if !agrees(&e, &f)? {
                fail!("folding {} gives {}", brief(&e), brief(&f));
            }
            if let Some(m) = unfolded(&f) {
                fail!("folding {} leaves {m}", brief(&e));
            }
        }
        1 => {
            o.label("substitution");
            let by = bin(B::Mul, var("x"), bin(B::Add, var("y"), E::Int(1)));
            let b = build(&by);
            let s = call_strict("substituting", || {
                (
                    sym::substitute(x.clone(), Expression::new_variable("x"), b.clone()),
                    sym::substitute_ref(x.clone(), &Expression::new_variable("x"), &b),
                    sym::substitute_variable(x.clone(), &Variable::new_variable("x"), &b),
                )
            })?;
            let want = e.subst("x", &by);
            for s in [s.0, s.1, s.2] {
                match s {
                    Ok(s) if exactly(&read(&s), &want) => {}
                    Ok(s) => fail!("putting {by} for x in {} gives {}", brief(&e), brief(&read(&s))),
                    Err(m) => fail!("putting {by} for x in {} is refused: {m}", brief(&e)),
                }
            }
        }
        2 => {
            o.label("derivation");
            let d = match call("deriving", || sym::derivative_by_variable(x.clone(), &Variable::new_variable("x")))? {
                Ok(d) => call_strict("reading", || read(&d))?,
                Err(m) => fail!("deriving {} is refused: {m}", brief(&e)),
            };
            let mut seen = false;
            for salt in [0x51ed, 0x2f00d] {
                if let (Some(w), Some(g)) = (field::derivative(&e, "x", salt), field::eval(&d, salt)) {
                    seen = true;
                    if w != g {
                        fail!("the derivative of {} comes out as {}", brief(&e), brief(&d));
                    }
                }
            }
            if !seen {
                discard!("undefined everywhere (division by zero)");
            }
        }
        3 => {
            o.label("printing");
            let text = call_strict("printing", || x.to_string())?;
            match parse(&text) {
                Ok(b) => {
                    if !agrees(&e, &b)? {
                        fail!("{} prints as something else, {} characters long", brief(&e), text.len());
                    }
                }
                Err(m) => fail!("{} prints as something that does not read: {m}", brief(&e)),
            }
        }
        4 => {
            o.label("copying and reading");
            if !exactly(&read(&call_strict("copying", || x.clone())?), &e) {
                fail!("a copy of {} is something else", brief(&e));
            }
            if x.is_num() || x.is_zero() || x.is_one() || x.is_operand() != (depth <= 1) {
                fail!("{} is taken for a number", brief(&e));
            }
        }
        5 | 6 => {
            // Sums, differences and products with small numbers: polynomials of degree 2 at most.
            let at = |p: i64| eval_q(&e, &[("x", Q::int(p)), ("y", Q::int(3)), ("z", Q::int(-2))]);
            let plain = !e.any(&mut |y| match y {
                E::Un(u, _) => *u != U::Neg,
                E::Bin(B::Div | B::Pow, ..) => true,
                E::Var(v) => v != "x",
                _ => false,
            });
            if !plain || degree(&e).is_none_or(|d| d > 2) {
                discard!("not a sum");
            }
            let p = c.k[2].rem_euclid(5) - 2;
            let (Some(a), Some(b), Some(m)) = (at(p), at(p + 1), at(p - 1)) else { discard!("no value") };
            if c.k[0] == 5 {
                o.label("limit");
                let l = call("the limit", || sym::limit_expression(x.clone(), Expression::new_variable("x"), Expression::from(p), 2))?;
                let good = match &l {
                    Ok(LimitExpression::Infinitesimal) => a.is_zero(),
                    Ok(LimitExpression::Normal(v)) => !a.is_zero() && eval_q(&read(v), &[]).is_some_and(|v| v == a),
                    _ => false,
                };
                if !good {
                    fail!("the limit of {} as x tends to {p} is {}, reported as {}", brief(&e), a.show(), l.map_or("none".into(), |l| l.to_string()));
                }
            } else {
                o.label("expansion");
                let half = Q::rat(false, 1, 2);
                let want = [a.clone(), b.sub(&m).mul(&half), b.add(&m).mul(&half).sub(&a)];
                let t = call("the expansion", || x.clone().taylor_expansion(Expression::new_variable("x"), Expression::from(p), 2))?;
                let Ok(t) = t else { fail!("the expansion of {} is refused", brief(&e)) };
                for (i, w) in want.iter().enumerate() {
                    let g = t.coefficient.get(i).map(read);
                    if g.as_ref().and_then(|g| eval_q(g, &[])).as_ref() != Some(w) {
                        fail!("coefficient {i} of {} about {p} is {}, given as {g:?}", brief(&e), w.show());
                    }
                }
            }
        }
        _ => discard!("malformed"),
    }
    if depth >= 30 {
        o.hit();
    }
    o.label(match depth {
        0..=29 => "less than 30 deep",
        30..=99 => "30 to 99 deep",
        100..=399 => "100 to 399 deep",
        _ => "400 deep or more",
    });
    Ok(())
}

fn degree(e: &E) -> Option<u32> {
    Some(match e {
        E::Var(_) => 1,
        E::Un(U::Neg, a) => degree(a)?,
        E::Bin(B::Add | B::Sub, l, r) => degree(l)?.max(degree(r)?),
        E::Bin(B::Mul, l, r) => degree(l)? + degree(r)?,
        E::Un(..) | E::Bin(..) => return None,
        _ => 0,
    })
}

fn gen_c24(t: &mut Tape) -> Case {
    let what = t.below(7) as i64;
    let sums = what >= 5;
    let c = Cfg {
        vars: vec!["x", "x", "y", "z"],
        lits: [5, if sums { 0 } else { 2 }, 0, 0, 0],
        un: vec![(U::Neg, 1)],
        bin: vec![(B::Add, 3), (B::Sub, 3), (B::Mul, if sums { 0 } else { 2 })],
        ..Cfg::full()
    };
    let small = |t: &mut Tape, c: &Cfg| match t.weighted(&[4, 3, 2]) {
        0 => var(if sums { "x" } else { *t.pick(&["x", "y", "z"]) }),
        1 => E::Int(*t.pick(&[1, 2, -1, 3, -2, 7, 10])),
        _ => {
            let n = t.range(1, 4) as usize;
            gen::expr(t, &Cfg { vars: if sums { vec!["x"] } else { c.vars.clone() }, ..c.clone() }, n)
        }
    };
    let first = if t.chance(60) {
        var("x")
    } else if sums {
        bin(B::Mul, var("x"), var("x"))
    } else {
        bin(*t.pick(&[B::Add, B::Sub, B::Mul, B::Div]), var("x"), small(t, &c))
    };
    let mut e = vec![first];
    for _ in 0..1 + t.below(3) {
        let s = small(t, &c);
        e.push(s);
    }
    let depth = match t.weighted(&[2, 4, 4, 1]) {
        0 => t.range(1, 29),
        1 => t.range(30, 99),
        2 => t.range(100, 399),
        _ => t.range(400, DEEP),
    };
    // The derivative of a chain is as long as the chain's square.
    let depth = if what == 2 || what == 6 { depth.min(160) } else { depth };
    let mut k = vec![what, depth];
    let m = 1 + t.below(8);
    for _ in 0..m {
        let op = if sums {
            t.weighted(&[4, 4, 4, 4, 3])
        } else {
            t.weighted(&[3, 3, 3, 3, 3, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1])
        };
        k.push(op as i64 + STEPS * t.below(3) as i64);
    }
    Case::new(e, k)
}

fn small_c24(thorough: bool, f: &mut dyn FnMut(Case)) {
    // Every pair of steps in turn, forty and three hundred times.
    for what in 0..7 {
        for a in 0..STEPS {
            for b in a..STEPS {
                for e in [vec![var("x"), E::Int(2)], vec![var("x"), var("x")], vec![bin(B::Mul, var("x"), var("x")), var("y"), E::Int(3)]] {
                    f(Case::new(e.clone(), vec![what, 40, a, b]));
                    if what != 2 || thorough {
                        f(Case::new(e, vec![what, 300, a, b + STEPS]));
                    }
                }
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "Chains up to 1200 operations deep (derivatives and expansions: 160), of up to eight steps again and again, over three variables, integers and fractions; folded, substituted in, derived, printed and read back, copied, expanded or taken to a limit, against evaluation in a prime field, node-by-node substitution or exact values. All pairs of steps enumerated 40 and 300 times over. Non-trivial: at least 30 deep.",
        tape: 60,
        gen: gen_c24,
        check: c24,
        small: small_c24,
        quick: 40_000,
        thorough: 400_000,
    }]
}
