//! C23: chains of operations, each applied to what the one before returned.

use oracle::ev::{self, Cmp};
use oracle::expr::{bin, un, var, B, E, U};
use oracle::gen::{self, Cfg, Tape};
use oracle::runner::{guard, is_overflow, Case, Obs, Prop, Stop, Verdict};
use oracle::{discard, fail};

use crate::bridge::{build, env, points, read};
use crate::structure::proper;
use symbolic_rust::verif_api as sym;
use sym::{Expression, LimitExpression, NumAggregate as _, Pow as _, TaylorExpansion as _, Variable};

pub const OPS: i64 = 20;
pub const NAMES: [&str; OPS as usize] = [
    "folded", "derived by x", "derived by y", "with x replaced", "with y replaced", "put for x", "a coefficient", "the residual", "plus", "minus", "minus, reversed",
    "times", "divided", "raised", "negated", "sin", "cos", "exp", "ln", "the limit",
];

fn gen_c23(t: &mut Tape) -> Case {
    let mut c = Cfg { vars: vec!["x", "x", "x", "y"], var_w: 5, ..Cfg::full() };
    match t.weighted(&[4, 3, 2, 2]) {
        0 => c.lits = [5, 2, 1, 2, 2],
        1 => {
            // Much that folds.
            c.var_w = 2;
            c.lits = [8, 2, 0, 2, 2];
        }
        2 => {
            // What limits take.
            c.un = vec![(U::Neg, 2), (U::Sin, 3), (U::Cos, 3)];
            c.bin = vec![(B::Add, 3), (B::Sub, 3), (B::Mul, 4), (B::Div, 2)];
        }
        _ => {
            c.un = vec![(U::Neg, 1)];
            c.int_pow = 80;
            c.nonneg_pow = true;
        }
    }
    let steps = 1 + t.below(5) as usize;
    let n = gen::size(t, 10);
    let mut e = vec![gen::expr(t, &c, n)];
    let mut k = points(t, 6);
    for _ in 0..steps {
        k.push(t.weighted(&[6, 6, 1, 3, 1, 2, 3, 1, 1, 1, 1, 2, 1, 2, 2, 1, 1, 1, 1, 2]) as i64);
        e.push(match t.weighted(&[5, 3, 2]) {
            0 => gen::leaf(t, &c),
            1 => {
                let n = gen::size(t, 4);
                gen::expr(t, &c, n)
            }
            _ => t.pick(&[E::Int(0), E::Int(1), E::Int(2), E::Pi, E::Eul]).clone(),
        });
    }
    Case::new(e, k)
}

/// What a step returned: an expression, nothing to go on with, or a panic.
#[derive(PartialEq, Debug)]
pub enum Out<T> {
    Got(T),
    None(String),
    Overflow,
}

pub fn apply(op: i64, x: Expression, arg: &E) -> Result<Out<Expression>, Stop> {
    let a = || build(arg);
    let r = guard(move || -> Result<Expression, String> {
        Ok(match op {
            0 => x.num_aggregate(),
            1 => sym::derivative_by_variable(x, &Variable::new_variable("x"))?,
            2 => sym::derivative_by(x, Expression::new_variable("y"))?,
            3 => sym::substitute_ref(x, &Expression::new_variable("x"), &a())?,
            4 => sym::substitute(x, Expression::new_variable("y"), a())?,
            5 => sym::substitute(a(), Expression::new_variable("x"), x)?,
            6 | 7 => {
                let order = (arg.size() % 3) as u64;
                let p = x.taylor_expansion(Expression::new_variable("x"), a(), order).map_err(|e| e.to_string())?;
                if op == 7 {
                    p.residual
                } else {
                    p.coefficient.into_iter().last().expect("a coefficient")
                }
            }
            8 => x + a(),
            9 => x - a(),
            10 => a() - x,
            11 => a() * x,
            12 => x / a(),
            13 => x.pow(a()),
            14 => -x,
            15 => sym::sin(x),
            16 => sym::cos(x),
            17 => sym::exp(x),
            18 => sym::ln(x),
            _ => match sym::limit_variable(x, &Variable::new_variable("x"), a(), 1) {
                Ok(LimitExpression::Normal(v)) => v,
                Ok(LimitExpression::Infinitesimal) => Expression::zero(),
                Ok(l) => return Err(l.to_string()),
                Err(_) => return Err("refused".into()),
            },
        })
    });
    match r {
        Ok(Ok(x)) => Ok(Out::Got(x)),
        Ok(Err(m)) => Ok(Out::None(m)),
        Err(m) if is_overflow(&m) => Ok(Out::Overflow),
        Err(m) if m.contains("not yet implemented") => Ok(Out::None("not implemented".into())),
        Err(m) => Err(Stop::Fail(format!("{} by {arg}: panicked: {m}", NAMES[op as usize]))),
    }
}

/// Everything an expression says about itself.
#[derive(PartialEq, Debug)]
pub struct Said {
    text: String,
    flags: [bool; 6],
    is_variable: bool,
    nodes: E,
}

pub fn said(x: &Expression) -> Said {
    let n = crate::bridge::num_of(x);
    Said {
        text: x.to_string(),
        flags: [x.is_zero(), x.is_one(), x.is_pi(), x.is_e(), x.is_num(), x.is_operator()],
        is_variable: sym::variable_of(x).is_some(),
        nodes: match n {
            // Sign and value as the number's own accessors have them.
            Some(n) => E::Bin(B::Add, Box::new(E::Int(n.sign())), Box::new(read(x))),
            None => read(x),
        },
    }
}

fn c23(c: &Case, o: &mut Obs) -> Verdict {
    let steps = c.e.len().saturating_sub(1);
    if c.e.is_empty() || c.k.len() != steps + 6 || c.k[6..].iter().any(|k| !(0..OPS).contains(k)) || c.e.iter().any(|e| !proper(e)) {
        discard!("malformed");
    }
    let mut cur = build(&c.e[0]);
    let mut same_path = true;
    for (i, arg) in c.e[1..].iter().enumerate() {
        let op = c.k[6 + i];
        if [6, 7, 19].contains(&op) && arg.has_var("x") {
            o.label("a point with the variable itself");
            return Ok(());
        }
        let before = read(&cur);
        if before.size() > 150 || !proper(&before) {
            break;
        }
        let fresh = build(&before);
        let (a, b) = (apply(op, cur, arg)?, apply(op, fresh, arg)?);
        let (a, b) = match (a, b) {
            (Out::Got(a), Out::Got(b)) => (a, b),
            (Out::None(x), Out::None(y)) if x == y => {
                o.label("no result");
                break;
            }
            (Out::Overflow, Out::Overflow) => {
                o.label("overflow");
                break;
            }
            (a, b) => {
                let show = |x: Out<Expression>| match x {
                    Out::Got(x) => x.to_string(),
                    Out::None(m) => m,
                    Out::Overflow => "overflow".into(),
                };
                fail!("step {i}: {before} {} {arg} gave {}, built afresh it gave {}", NAMES[op as usize], show(a), show(b));
            }
        };
        let (sa, sb) = (said(&a), said(&b));
        let nan = sa.nodes.any(&mut |x| matches!(x, E::Real(v) if v.is_nan()));
        if nan {
            break;
        }
        if sa != sb {
            fail!("step {i}: {before} {} {arg} became {sa:?}, built afresh it became {sb:?}", NAMES[op as usize]);
        }
        // The result prints and answers as its nodes do, however it came about.
        let after = read(&a);
        if after.size() <= 400 && proper(&after) {
            let again = said(&build(&after));
            if again != sa {
                fail!("step {i}: {before} {} {arg} became {sa:?}, which built afresh is {again:?}", NAMES[op as usize]);
            }
        }
        // What results are built from counts only from the second step on.
        if i > 0 && !matches!(c.k[6 + i - 1], 8..=18) {
            o.hit();
            o.label(NAMES[op as usize]);
        }
        // Values along the way.
        let vs = before.vars();
        let env0 = env(&vs, &c.k[..6], i);
        let (want, got) = match op {
            0 => (ev::eval(&before, &env0, false), ev::eval(&after, &env0, true)),
            1 | 2 => {
                let d = ev::dual(&before, if op == 1 { "x" } else { "y" }, &env0).map(|d| d.d);
                (d, ev::eval(&after, &env0, true))
            }
            _ => {
                cur = a;
                same_path = false;
                continue;
            }
        };
        match ev::compare(want.clone(), got.clone()) {
            Cmp::Same => o.label(if same_path { "value compared" } else { "value of a result compared" }),
            Cmp::Differ => fail!("step {i}: {before} {} became {after} = {got:?} at {env0:?}; it is {want:?}", NAMES[op as usize]),
            _ => {}
        }
        same_path = false;
        cur = a;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "Chains of 1-5 operations (folding, derivatives, substitution into and of the result, coefficients and residuals, limits, arithmetic, functions), each applied to what the one before returned and to the same expression built afresh; results compared node by node, in text and in every query; folding and derivatives also by value. Non-trivial: an operation was applied to the result of a fold, derivative, substitution, expansion or limit.",
        tape: 200,
        gen: gen_c23,
        check: c23,
        small: |_, f| {
            let es = [
                var("x"),
                bin(B::Mul, E::Pi, var("x")),
                bin(B::Sub, E::Pi, E::Pi),
                bin(B::Div, E::Eul, E::Eul),
                un(U::Exp, E::Int(1)),
                un(U::Cos, E::Pi),
                bin(B::Add, E::Rat(false, 1, 2), E::Rat(false, 1, 2)),
                bin(B::Pow, var("x"), E::Int(2)),
                un(U::Ln, un(U::Exp, var("x"))),
            ];
            for e in &es {
                for a in [E::Int(0), E::Int(1), E::Pi, var("y")] {
                    for i in 0..OPS {
                        for j in 0..OPS {
                            f(Case::new(vec![e.clone(), a.clone(), E::Int(1)], vec![8, 24, 3, 40, 16, 5, i, j]));
                            f(Case::new(vec![e.clone(), a.clone(), E::Pi], vec![8, 24, 3, 40, 16, 5, i, j]));
                        }
                    }
                }
            }
        },
        quick: 6_000_000,
        thorough: 50_000_000,
    }]
}
