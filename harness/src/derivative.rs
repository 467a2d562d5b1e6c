//! C12, C13: derivatives.

use oracle::ev::{self, Cmp};
use oracle::expr::{bin, un, var, B, BINARY, E, U, UNARY};
use oracle::gen::{self, all_up_to, Cfg, Tape};
use oracle::runner::{call, call_strict, Case, Obs, Prop, Stop, Verdict};
use oracle::{discard, fail};

use crate::aggregate::unfolded;
use crate::bridge::{build, env, points, read};
use crate::structure::proper;
use symbolic_rust::verif_api as sym;
use sym::{Expression, Variable};

/// So small that the numbers of a derivative stay far from 64 bits.
fn slight(e: &E) -> bool {
    e.size() <= 8 && e.max_lit() <= 9
}

pub fn derive(e: &E, by: &str) -> Result<E, Stop> {
    let f = || sym::derivative_by_variable(build(e), &Variable::new_variable(by)).map(|d| read(&d));
    let r = if slight(e) { call_strict("differentiation", f)? } else { call("differentiation", f)? };
    match r {
        Ok(d) => Ok(d),
        Err(m) => fail!("the derivative of {e} by {by} was refused: {m}"),
    }
}

fn d_cfg(t: &mut Tape) -> Cfg {
    let mut c = Cfg {
        vars: vec!["x", "x", "x", "x", "y", "x1"],
        var_w: 6,
        ..Cfg::full()
    };
    match t.weighted(&[5, 2, 2]) {
        0 => {}
        1 => {
            // Polynomials and rational functions, with powers.
            c.un = vec![(U::Neg, 1)];
            c.lits = [4, 1, 0, 0, 0];
            c.int_pow = 90;
        }
        _ => {
            c.bin = vec![(B::Mul, 3), (B::Div, 2), (B::Pow, 4), (B::Add, 1), (B::Sub, 1)];
            c.int_pow = 35;
        }
    }
    c
}

fn gen_d(t: &mut Tape) -> Case {
    let c = d_cfg(t);
    let n = gen::size(t, 16);
    let e = gen::expr(t, &c, n);
    let vs = e.vars();
    let by = if !vs.is_empty() && t.chance(85) {
        if vs.iter().any(|v| v == "x") && t.chance(60) {
            "x".to_string()
        } else {
            t.pick(&vs).clone()
        }
    } else {
        t.pick(&["x", "y", "xx", "X", "x1"]).to_string()
    };
    let mut e = vec![e, var(&by)];
    gen::names(t, &mut e);
    Case::new(e, points(t, 9))
}

fn small_d(thorough: bool, f: &mut dyn FnMut(Case)) {
    let ks = vec![8, 24, 0, 40, 16, -16, 56, 3, -33];
    let leaves = [var("x"), var("y"), E::Int(2), E::Int(0), E::Int(-1), E::Rat(false, 1, 2)];
    all_up_to(4, &leaves, &UNARY, &BINARY, &mut |e| f(Case::new(vec![e, var("x")], ks.clone())));
    let few = [var("x"), E::Int(3)];
    all_up_to(5, &few, &UNARY, &BINARY, &mut |e| f(Case::new(vec![e, var("x")], ks.clone())));
    if thorough {
        all_up_to(5, &leaves[..4], &UNARY, &BINARY, &mut |e| f(Case::new(vec![e, var("x")], ks.clone())));
    }
}

// ---- C12 ----

fn c12(c: &Case, o: &mut Obs) -> Verdict {
    let [e, E::Var(by)] = &c.e[..] else { discard!("malformed") };
    if !proper(e) || e.size() > 40 || !proper(&c.e[1]) {
        discard!("outside the domain");
    }
    let d = derive(e, by)?;
    let vs = e.vars();
    let mut compared = false;
    for skip in [0, 3, 6] {
        let env = env(&vs, &c.k, skip);
        let want = ev::dual(e, by, &env).map(|x| x.d);
        match ev::compare(want, ev::eval(&d, &env, true)) {
            Cmp::Same => {
                compared = true;
                o.label("value compared");
                if env.iter().any(|(n, v)| n == by && v.v == 0.0) {
                    o.label("compared at zero");
                }
                if env.iter().any(|(n, v)| n == by && v.v < 0.0) {
                    o.label("compared at a negative point");
                }
            }
            Cmp::Weak => o.label("value too uncertain"),
            Cmp::Unknown => o.label("undefined or unknown there"),
            Cmp::Differ => fail!(
                "the derivative of {e} by {by} came out as {d}; at {env:?} that is {:?}, the true value is {want:?}",
                ev::eval(&d, &env, true)
            ),
        }
    }
    // Once more: second and mixed derivatives.
    if d.size() <= 60 && compared {
        for by2 in vs.iter().take(2) {
            let d2 = match call("differentiation", || {
                sym::derivative_by_variable(build(e), &Variable::new_variable(by))
                    .and_then(|d| sym::derivative_by_variable(d, &Variable::new_variable(by2)))
                    .map(|d| read(&d))
            })? {
                Ok(d) => d,
                Err(m) => fail!("the derivative of {e} by {by} and {by2} was refused: {m}"),
            };
            let env = env(&vs, &c.k, 0);
            let want = ev::dual(&d, by2, &env).map(|x| x.d);
            match ev::compare(want, ev::eval(&d2, &env, true)) {
                Cmp::Same => o.label("second derivative compared"),
                Cmp::Differ => fail!("the derivative of {d} by {by2} came out as {d2}; at {env:?} the true value is {want:?}"),
                _ => {}
            }
        }
    }
    if compared && e.has_var(by) && e.size() > 2 {
        o.hit();
    }
    Ok(())
}

// ---- C13 ----

fn c13(c: &Case, o: &mut Obs) -> Verdict {
    let [e, E::Var(by)] = &c.e[..] else { discard!("malformed") };
    if !proper(e) || e.size() > 40 || !proper(&c.e[1]) {
        discard!("outside the domain");
    }
    let d = derive(e, by)?;
    let forms = call("differentiation", || {
        let (x, u) = (build(e), Expression::new_variable(by));
        [sym::derivative_by_ref(x.clone(), &u).map(|d| read(&d)), sym::derivative_by(x, u).map(|d| read(&d))]
    })?;
    for (how, f) in ["by reference", "by value"].iter().zip(forms) {
        match f {
            Ok(f) if f.same(&d) => {}
            Ok(f) => fail!("the derivative of {e} by {by} is {d} by variable and {f} {how}"),
            Err(m) => fail!("the derivative of {e} by {by} {how} was refused: {m}"),
        }
    }
    let vs = e.vars();
    if let Some(v) = d.vars().iter().find(|v| !vs.contains(v)) {
        fail!("the derivative of {e} by {by} is {d}: where does {v} come from?");
    }
    if !e.has_var(by) {
        o.label("variable absent");
        match d.lit_q() {
            Some(q) if q.is_zero() => {}
            _ => fail!("{e} does not depend on {by}, yet its derivative is {d}"),
        }
        if e.size() > 1 {
            o.hit();
        }
        return Ok(());
    }
    o.label("variable occurs");
    // The result is folded. Where a divisor is zero nothing is said.
    let zero_div = d.any(&mut |x| match x {
        E::Rat(_, _, 0) => true,
        E::Real(r) => !r.is_finite(),
        E::Bin(B::Div, _, r) => r.lit_q().is_some_and(|q| q.is_zero()),
        _ => false,
    });
    if zero_div {
        o.label("division by zero");
        return Ok(());
    }
    if let Some(m) = unfolded_in_derivative(&d) {
        fail!("the derivative of {e} by {by} is {d}, which still holds {m}");
    }
    if e.size() > 2 {
        o.hit();
    }
    Ok(())
}

fn unfolded_in_derivative(d: &E) -> Option<String> {
    unfolded(d)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            rule: "Expressions of up to 16 nodes over all operations, every one of up to 4 nodes over six leaves enumerated; the derivative evaluated at three points (zero, negative and special ones included) and compared with automatic differentiation by dual numbers under running error bounds, second and mixed derivatives likewise. Non-trivial: the variable occurs in at least three nodes and a value was compared.",
            tape: 130,
            gen: gen_d,
            check: c12,
            small: small_d,
            quick: 8_000_000,
            thorough: 60_000_000,
        },
        Prop {
            id: "C13",
            rule: "As for the derivative's value, with variables that do not occur (other case, longer or shorter names) in a seventh of the cases; call forms, variables, exact zero and folding of the result. Non-trivial: a compound expression.",
            tape: 130,
            gen: gen_d,
            check: c13,
            small: |th, f| {
                small_d(th, f);
                all_up_to(4, &[var("y"), var("xx"), E::Int(2), E::Pi], &UNARY, &BINARY, &mut |e| f(Case::new(vec![e, var("x")], vec![])));
                f(Case::new(vec![bin(B::Pow, var("x"), un(U::Neg, var("x"))), var("x")], vec![]));
            },
            quick: 8_000_000,
            thorough: 60_000_000,
        },
    ]
}
