//! C09-C11: folding of numbers.

use oracle::ev::{self, Cmp};
use oracle::expr::{eval_q, un, var, bin, B, BINARY, E, U, UNARY};
use oracle::gen::{self, all_up_to, Cfg, Tape};
use oracle::runner::{call, call_strict, Case, Obs, Prop, Stop, Verdict};
use oracle::{discard, fail};

use crate::bridge::{build, env, points, read, tiny};
use crate::structure::proper;
use symbolic_rust::verif_api as sym;
use sym::NumAggregate as _;

/// Folds, as the code under test does.
pub fn fold(e: &E) -> Result<E, Stop> {
    let f = || read(&build(e).num_aggregate());
    if tiny(e) {
        call_strict("folding", f)
    } else {
        call("folding", f)
    }
}

fn fold_cfg(t: &mut Tape) -> Cfg {
    let mut c = Cfg::full();
    match t.weighted(&[4, 3, 2]) {
        0 => {}
        1 => {
            // Special values everywhere.
            c.var_w = 3;
            c.lits = [5, 2, 0, 3, 3];
            c.bin[4].1 = 6;
        }
        _ => {
            c.var_w = 2;
            c.un = vec![(U::Neg, 4), (U::Sin, 1), (U::Cos, 1), (U::Exp, 1), (U::Ln, 1)];
        }
    }
    c
}

fn gen_fold(t: &mut Tape) -> Case {
    let c = fold_cfg(t);
    let n = gen::size_or_large(t, 22, 60);
    let mut e = vec![gen::expr(t, &c, n)];
    gen::names(t, &mut e);
    Case::new(e, points(t, 9))
}

fn special_leaves() -> Vec<E> {
    vec![E::Int(0), E::Int(1), E::Int(2), E::Int(-1), E::Rat(false, 1, 2), E::Pi, E::Eul, var("x"), var("y")]
}

fn small_fold(thorough: bool, f: &mut dyn FnMut(Case)) {
    let ks = vec![8, 24, 0, 40, 16, -16, 56, 3, 33];
    all_up_to(4, &special_leaves(), &UNARY, &BINARY, &mut |e| f(Case::new(vec![e], ks.clone())));
    let few = [E::Int(0), E::Int(1), E::Int(3), var("x")];
    all_up_to(5, &few, &[U::Neg, U::Ln, U::Exp], &BINARY, &mut |e| f(Case::new(vec![e], ks.clone())));
    if thorough {
        all_up_to(5, &special_leaves(), &UNARY, &BINARY, &mut |e| f(Case::new(vec![e], ks.clone())));
    }
}

// ---- C09 ----

fn c09(c: &Case, o: &mut Obs) -> Verdict {
    let [e] = &c.e[..] else { discard!("malformed") };
    if !proper(e) {
        discard!("outside the domain");
    }
    let got = fold(e)?;
    let vs = e.vars();
    if let Some(v) = got.vars().iter().find(|v| !vs.contains(v)) {
        fail!("folding {e} to {got} introduced {v}");
    }
    let mut compared = false;
    for skip in [0, 3, 6] {
        let env = env(&vs, &c.k, skip);
        let (want, have) = (ev::eval(e, &env, false), ev::eval(&got, &env, true));
        match ev::compare(want, have) {
            Cmp::Same => {
                compared = true;
                o.label("value compared");
            }
            Cmp::Weak => o.label("value too uncertain"),
            Cmp::Unknown => o.label("undefined or unknown there"),
            Cmp::Differ => fail!("{e} is {want:?} at {env:?}, folded to {got} it is {have:?}"),
        }
        // Exact values beat rounded ones.
        let exact: Vec<_> = vs.iter().zip(&env).map(|(v, x)| (v.as_str(), oracle::big::Q::rat(x.1.v < 0.0, (x.1.v.abs() * 16.0) as u64, 16))).collect();
        if let Some(a) = eval_q(e, &exact) {
            if a.bits() < 4000 && !has_zero_to_zero(e, &exact) {
                match eval_q(&got, &exact) {
                    Some(b) if a == b => o.label("exact value compared"),
                    Some(b) => fail!("{e} is exactly {} at {exact:?}, folded to {got} it is {}", a.show(), b.show()),
                    None => {}
                }
            }
        }
        if vs.is_empty() {
            break;
        }
    }
    if compared && !got.same(e) {
        o.hit();
        o.label("folding changed the expression");
    }
    Ok(())
}

fn has_zero_to_zero(e: &E, env: &[(&str, oracle::big::Q)]) -> bool {
    e.any(&mut |x| match x {
        E::Bin(B::Pow, l, r) => eval_q(r, env).is_some_and(|q| q.is_zero()) && eval_q(l, env).is_none_or(|q| q.is_zero()),
        _ => false,
    })
}

// ---- C10 ----

fn gen_c10(t: &mut Tape) -> Case {
    let mut c = Cfg::arithmetic();
    match t.weighted(&[4, 3, 3]) {
        0 => c.var_w = 0,
        1 => {
            c.var_w = 3;
            c.lits = [6, 2, 0, 0, 0];
        }
        _ => {
            c = fold_cfg(t);
            c.lits[0] = 12;
        }
    }
    let n = gen::size_or_large(t, 24, 80);
    Case::new(vec![gen::expr(t, &c, n)], vec![])
}

/// What folding must leave nowhere: arithmetic on numbers alone, and neutral or absorbing operands.
pub fn unfolded(e: &E) -> Option<String> {
    let mut found = None;
    e.any(&mut |x| {
        let zero = |y: &E| y.lit_q().is_some_and(|q| q.is_zero());
        let one = |y: &E| y.lit_q().is_some_and(|q| q.is_one());
        let bad = match x {
            E::Un(U::Neg, a) => a.is_num().then_some("the negative of a number"),
            E::Bin(b, l, r) if *b != B::Pow => {
                if l.is_num() && r.is_num() {
                    Some("arithmetic on two numbers")
                } else {
                    match b {
                        B::Add if zero(l) || zero(r) => Some("a sum with zero"),
                        B::Sub if zero(l) || zero(r) => Some("a difference with zero"),
                        B::Mul if zero(l) || zero(r) => Some("a product with zero"),
                        B::Mul if one(l) || one(r) => Some("a product with one"),
                        B::Div if zero(l) => Some("a quotient of zero"),
                        _ => None,
                    }
                }
            }
            _ => None,
        };
        if let Some(b) = bad {
            found = Some(format!("{b}: {x}"));
        }
        found.is_some()
    });
    found
}

fn divides_by_zero(e: &E) -> bool {
    e.any(&mut |x| matches!(x, E::Bin(B::Div, _, r) if eval_q(r, &[]).is_some_and(|q| q.is_zero())))
}

fn c10(c: &Case, o: &mut Obs) -> Verdict {
    let [e] = &c.e[..] else { discard!("malformed") };
    if !proper(e) {
        discard!("outside the domain");
    }
    let arithmetic_only = !e.any(&mut |x| !matches!(x, E::Int(_) | E::Rat(..) | E::Un(U::Neg, _) | E::Bin(B::Add | B::Sub | B::Mul | B::Div, ..)));
    if divides_by_zero(e) {
        discard!("division by zero");
    }
    let got = fold(e)?;
    if arithmetic_only {
        let Some(want) = eval_q(e, &[]) else { discard!("division by zero") };
        match got.lit_q() {
            Some(q) if q == want => {}
            _ => fail!("{e} is {}, folded to {got}", want.show()),
        }
        o.label("all numbers");
        if e.size() > 1 {
            o.hit();
        }
        return Ok(());
    }
    // A zero divisor that only appears on the way is as unspecified as one written out.
    if got.any(&mut |x| matches!(x, E::Rat(_, _, 0)) || matches!(x, E::Real(r) if !r.is_finite())) || divides_by_zero(&got) {
        discard!("division by zero");
    }
    if let Some(m) = unfolded(&got) {
        fail!("{e} folded to {got}, which still holds {m}");
    }
    if !got.same(e) {
        o.hit();
        o.label("something folded");
    } else {
        o.label("nothing to fold");
    }
    Ok(())
}

// ---- C11 ----

fn gen_c11(t: &mut Tape) -> Case {
    let c = fold_cfg(t);
    let n = gen::size(t, 14);
    let a = match t.weighted(&[4, 2]) {
        0 => gen::expr(t, &c, n),
        _ => un(*t.pick(&[U::Ln, U::Exp]), gen::expr(t, &c, n)),
    };
    let n = gen::size(t, 6);
    let b = gen::expr(t, &c, n);
    let mut e = vec![a, b];
    gen::names(t, &mut e);
    Case::new(e, vec![])
}

/// The documented special values; everything else stays a function of the folded argument.
fn expected(u: U, a: &E) -> E {
    let q = a.lit_q();
    let zero = q.as_ref().is_some_and(|q| q.is_zero());
    let one = q.as_ref().is_some_and(|q| q.is_one());
    match (u, a) {
        (U::Sin, _) if zero || *a == E::Pi => E::Int(0),
        (U::Cos, _) if zero => E::Int(1),
        (U::Cos, E::Pi) => E::Int(-1),
        (U::Exp, _) if zero => E::Int(1),
        (U::Exp, _) if one => E::Eul,
        (U::Exp, E::Un(U::Ln, x)) => (**x).clone(),
        (U::Ln, E::Eul) => E::Int(1),
        (U::Ln, _) if one => E::Int(0),
        (U::Ln, E::Un(U::Exp, x)) => (**x).clone(),
        _ => un(u, a.clone()),
    }
}

fn c11(c: &Case, o: &mut Obs) -> Verdict {
    let [a, b] = &c.e[..] else { discard!("malformed") };
    if !proper(a) || !proper(b) {
        discard!("outside the domain");
    }
    let fa = fold(a)?;
    for u in [U::Sin, U::Cos, U::Exp, U::Ln] {
        let e = un(u, a.clone());
        let got = fold(&e)?;
        let want = expected(u, &fa);
        if !got.same(&want) {
            fail!("{e} folded to {got}, expected {want}");
        }
        if !matches!(want, E::Un(v, _) if v == u) {
            o.label("special value");
            o.hit();
        }
    }
    if fa.size() > 1 || !fa.same(a) {
        o.hit();
    }
    // Powers: simplified only when the base or the exponent is zero or one.
    let fb = fold(b)?;
    let positive = |x: &E| match x {
        E::Pi | E::Eul => true,
        E::Real(v) => *v > 0.0,
        x => x.lit_q().is_some_and(|q| q.sign() > 0),
    };
    for (l, r, fl, fr) in [(a, b, &fa, &fb), (b, a, &fb, &fa)] {
        let plain = |x: &E| x.lit_q().is_some_and(|q| q.is_zero() || q.is_one());
        let e = bin(B::Pow, l.clone(), r.clone());
        let got = fold(&e)?;
        if plain(fl) || plain(fr) {
            o.label("power with zero or one");
            let one = |x: &E| x.lit_q().is_some_and(|q| q.is_one());
            let zero = |x: &E| x.lit_q().is_some_and(|q| q.is_zero());
            let value = if one(fl) || (zero(fr) && !zero(fl)) {
                E::Int(1)
            } else if one(fr) {
                fl.clone()
            } else if zero(fl) && positive(fr) {
                E::Int(0)
            } else if zero(fl) && (zero(fr) || matches!(fr, E::Rat(..) | E::Real(_))) {
                // 0^0, or what division by zero left.
                continue;
            } else {
                bin(B::Pow, fl.clone(), fr.clone())
            };
            if !got.same(&value) {
                fail!("{e} folded to {got}, expected {value}");
            }
            continue;
        }
        let want = bin(B::Pow, fl.clone(), fr.clone());
        if !got.same(&want) {
            fail!("{e} folded to {got}, expected it left as {want}");
        }
        o.label("power left alone");
    }
    Ok(())
}

// ---- C22 ----

fn gen_c22(t: &mut Tape) -> Case {
    let c = fold_cfg(t);
    let n = gen::size(t, 12);
    let a = gen::expr(t, &c, n);
    let b = match t.weighted(&[6, 2, 1]) {
        0 => {
            let n = gen::size(t, 10);
            gen::expr(t, &c, n)
        }
        1 => gen::leaf(t, &c),
        _ => match t.below(3) {
            0 => a.clone(),
            1 => un(U::Neg, a.clone()),
            _ => bin(*t.pick(&[B::Sub, B::Div]), a.clone(), a.clone()),
        },
    };
    let mut e = vec![a, b];
    gen::names(t, &mut e);
    Case::new(e, vec![])
}

enum Want {
    This(E),
    /// Some number: which one, the other checks say.
    Number,
    Uncovered,
}

/// Reals 0.0 and 1.0 need not be recognised as neutral.
fn real_like(x: &E, v: f64) -> bool {
    matches!(x, E::Real(r) if *r == v)
}

/// What an operation on folded parts folds to.
fn folded(op: B, l: &E, r: &E) -> Want {
    let is = |x: &E, v: i64| x.lit_q().is_some_and(|q| q == oracle::big::Q::int(v));
    if op == B::Div && (is(r, 0) || real_like(r, 0.0)) {
        return Want::Uncovered;
    }
    if l.is_num() && r.is_num() {
        return Want::Number;
    }
    if [l, r].iter().any(|x| real_like(x, 0.0) || real_like(x, 1.0)) {
        return Want::Uncovered;
    }
    Want::This(match op {
        B::Add if is(l, 0) => r.clone(),
        B::Add | B::Sub if is(r, 0) => l.clone(),
        B::Sub if is(l, 0) => un(U::Neg, r.clone()),
        B::Mul if is(l, 0) || is(r, 0) => E::Int(0),
        B::Mul if is(l, 1) => r.clone(),
        B::Mul if is(r, 1) => l.clone(),
        B::Div if is(l, 0) => E::Int(0),
        _ => bin(op, l.clone(), r.clone()),
    })
}

fn c22(c: &Case, o: &mut Obs) -> Verdict {
    let [a, b] = &c.e[..] else { discard!("malformed") };
    if !proper(a) || !proper(b) {
        discard!("outside the domain");
    }
    let (fa, fb) = (fold(a)?, fold(b)?);
    for op in [B::Add, B::Sub, B::Mul, B::Div] {
        let positive = |x: &E| match x {
        E::Pi | E::Eul => true,
        E::Real(v) => *v > 0.0,
        x => x.lit_q().is_some_and(|q| q.sign() > 0),
    };
    for (l, r, fl, fr) in [(a, b, &fa, &fb), (b, a, &fb, &fa)] {
            let e = bin(op, l.clone(), r.clone());
            match folded(op, fl, fr) {
                Want::Uncovered => o.label("uncovered"),
                Want::Number => {
                    let got = fold(&e)?;
                    if !got.is_num() {
                        fail!("{e} folded to {got}, not to a number");
                    }
                    o.label("numbers");
                }
                Want::This(want) => {
                    let got = fold(&e)?;
                    let plain = bin(op, fl.clone(), fr.clone());
                    let one = fr.lit_q().is_some_and(|q| q.is_one());
                    if op == B::Div && one && got.same(fl) {
                        o.label("divided by one");
                        continue;
                    }
                    if !got.same(&want) {
                        fail!("{e} folded to {got}, expected {want}");
                    }
                    if want.same(&plain) {
                        o.label("left alone");
                        o.hit();
                    } else {
                        o.label("neutral or absorbing operand");
                    }
                }
            }
        }
    }
    for (x, fx) in [(a, &fa), (b, &fb)] {
        let e = un(U::Neg, x.clone());
        let got = fold(&e)?;
        let want = match fx {
            E::Un(U::Neg, y) => (**y).clone(),
            f if f.is_num() => {
                if !got.is_num() {
                    fail!("{e} folded to {got}, not to a number");
                }
                continue;
            }
            f => un(U::Neg, f.clone()),
        };
        if !got.same(&want) {
            fail!("{e} folded to {got}, expected {want}");
        }
        o.label("negation");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            rule: "Expressions of up to 22 nodes over all operations, rich in 0, 1, pi, e and repeated parts, all of up to 4 nodes over nine leaves enumerated; evaluated before and after folding at up to three points with running error bounds, and exactly where rational. Non-trivial: folding changed the expression and a value was compared.",
            tape: 160,
            gen: gen_fold,
            check: c09,
            small: small_fold,
            quick: 12_000_000,
            thorough: 80_000_000,
        },
        Prop {
            id: "C10",
            rule: "Expressions of up to 24 nodes, a third of them arithmetic on numbers alone (compared with unbounded rationals), the others searched after folding for arithmetic on numbers and neutral operands. Non-trivial: something was folded.",
            tape: 160,
            gen: gen_c10,
            check: c10,
            small: small_fold,
            quick: 12_000_000,
            thorough: 80_000_000,
        },
        Prop {
            id: "C11",
            rule: "Each function applied to arguments of up to 14 nodes, powers of pairs of them, compared node by node with the folded argument under the table of special values. Non-trivial: a special value applied, or the argument is compound or changed by folding.",
            tape: 140,
            gen: gen_c11,
            check: c11,
            small: |_, f| {
                let mut es = vec![];
                all_up_to(3, &special_leaves(), &UNARY, &BINARY, &mut |e| es.push(e));
                for e in &es {
                    for b in special_leaves() {
                        f(Case::new(vec![e.clone(), b], vec![]));
                    }
                }
            },
            quick: 8_000_000,
            thorough: 50_000_000,
        },
        Prop {
            id: "C22",
            rule: "Pairs of expressions of up to 12 and 10 nodes, all small ones with nine leaves enumerated, under + - * / in both orders and negation, compared node by node with the operation on the folded parts under the table of neutral operands. Non-trivial: an operation had to be left alone.",
            tape: 140,
            gen: gen_c22,
            check: c22,
            small: |_, f| {
                let mut es = vec![];
                all_up_to(3, &special_leaves(), &UNARY, &BINARY, &mut |e| es.push(e));
                for e in &es {
                    for b in special_leaves() {
                        f(Case::new(vec![e.clone(), b], vec![]));
                    }
                }
            },
            quick: 5_000_000,
            thorough: 40_000_000,
        },
    ]
}
