//! C07, C08, C14, C21: printing, building, substitution and error values.

use oracle::expr::{bin, un, var, B, BINARY, E, U, UNARY};
use oracle::field;
use oracle::gen::{self, all_up_to, Cfg, Tape};
use oracle::parse::parse;
use oracle::runner::{call, call_strict, Case, Obs, Prop, Stop, Verdict};
use oracle::{discard, fail};

use crate::bridge::{build, read, tiny, to_num};
use symbolic_rust::verif_api as sym;
use sym::{AstNode, AstOperand, Cos as _, Exp as _, Expression, Ln as _, Pow as _, Sin as _, TaylorExpansion as _, ToRational as _, ToSmartNum as _, Variable};

pub fn proper(e: &E) -> bool {
    !e.any(&mut |x| match x {
        E::Rat(_, _, d) => *d == 0,
        E::Real(x) => !x.is_finite(),
        _ => false,
    })
}

// ---- C07 ----

/// Names a reader cannot take for a function, a constant or a product.
fn readable_name(n: &str) -> bool {
    !["sin", "cos", "exp", "ln"].iter().any(|f| n.contains(f))
        && n != "e"
        && n != "pi"
        && n.chars().all(|c| c.is_alphanumeric() || c == '_')
        && n.starts_with(|c: char| c.is_alphabetic())
}

fn print_cfg() -> Cfg {
    Cfg {
        vars: vec!["x", "y", "z", "x1", "u", "ab", "\u{3b1}", "X"],
        lits: [6, 5, 2, 1, 1],
        ..Cfg::full()
    }
}

fn gen_c07(t: &mut Tape) -> Case {
    let mut c = print_cfg();
    if t.chance(40) {
        // Operators only: where parentheses matter most.
        c.un = vec![(U::Neg, 1)];
        c.bin.iter_mut().for_each(|b| b.1 = 1);
        c.int_pow = 25;
    }
    let n = gen::size_or_large(t, 24, 120);
    let mut e = vec![gen::expr(t, &c, n)];
    gen::names(t, &mut e);
    Case::new(e, vec![])
}

fn c07(c: &Case, o: &mut Obs) -> Verdict {
    let [e] = &c.e[..] else { discard!("malformed") };
    // Reals are printed to three decimals: only those are claimed that three decimals hold.
    let bad = e.any(&mut |x| match x {
        E::Real(v) => (v * 8.0).fract() != 0.0 || v.abs() > 1e6,
        E::Var(n) => !readable_name(n),
        _ => false,
    });
    if bad || !proper(e) {
        discard!("outside the domain");
    }
    let text = call_strict("printing", || {
        let x = build(e);
        let (a, b) = (x.to_string(), format!("{x}"));
        (a == b).then_some(a)
    })?;
    let Some(text) = text else {
        fail!("to_string and {{}} differ for {e}");
    };
    let back = match parse(&text) {
        Ok(b) => b,
        Err(m) => fail!("{e} prints as {text:?}, which does not read: {m}"),
    };
    match field::agree(e, &back) {
        Some(true) => {}
        Some(false) => fail!("{e} prints as {text:?}, which reads as {back}"),
        None => discard!("undefined everywhere (division by zero)"),
    }
    if e.any(&mut |x| match x {
        E::Bin(..) => x.size() > 3,
        E::Un(_, a) => !matches!(**a, E::Var(_)),
        _ => false,
    }) {
        o.hit();
    }
    if text.contains('(') {
        o.label("parentheses printed");
    } else {
        o.label("no parentheses");
    }
    if e.any(&mut |x| matches!(x, E::Bin(B::Pow, ..))) {
        o.label("power");
    }
    if e.any(&mut |x| matches!(x, E::Rat(..))) {
        o.label("fraction literal");
    }
    if e.any(&mut |x| matches!(x, E::Int(i) if *i < 0) || matches!(x, E::Rat(true, ..))) {
        o.label("negative literal");
    }
    Ok(())
}

fn small_c07(thorough: bool, f: &mut dyn FnMut(Case)) {
    let leaves = [E::Int(2), E::Int(-3), E::Rat(false, 1, 2), E::Rat(true, 1, 2), var("x"), var("y")];
    all_up_to(4, &leaves, &UNARY, &BINARY, &mut |e| f(Case::new(vec![e], vec![])));
    let few = if thorough { &leaves[1..] } else { &leaves[4..] };
    all_up_to(5, few, &[U::Neg, U::Sin], &BINARY, &mut |e| f(Case::new(vec![e], vec![])));
    if thorough {
        all_up_to(7, &leaves[4..], &[U::Neg], &BINARY, &mut |e| f(Case::new(vec![e], vec![])));
    }
}

// ---- C08 ----

const WILD: [&str; 17] = ["x ", " x", "", "x", "y", "X", "xx", "x1", "e", "pi", "sinx", "\u{3b1}\u{3b2}", "a_b", "x'", "0", "-", "ln"];

fn wild_cfg() -> Cfg {
    Cfg {
        vars: WILD.to_vec(),
        lits: [6, 4, 2, 1, 1],
        ..Cfg::full()
    }
}

fn gen_c08(t: &mut Tape) -> Case {
    let n = gen::size_or_large(t, 30, 150);
    let mut e = gen::expr(t, &wild_cfg(), n);
    if t.chance(15) {
        // A literal of any size somewhere.
        let l = match t.below(3) {
            0 => E::Int(gen::any_int(t)),
            1 => gen::any_rat(t),
            _ => E::Real(gen::any_real(t)),
        };
        e = bin(*t.pick(&BINARY), e, l);
    }
    let mut e = [e];
    gen::names(t, &mut e);
    let [e] = e;
    Case::new(vec![e], vec![])
}

/// The same expression through the other constructors: methods, references, operands, numbers.
fn build_otherwise(e: &E) -> Expression {
    match e {
        E::Int(i) => match i8::try_from(*i) {
            Ok(0) => Expression::zero(),
            Ok(1) => Expression::one(),
            Ok(i) => Expression::from(i),
            _ => Expression {
                root: AstNode::from(*i),
                child: vec![],
            },
        },
        E::Var(v) => Expression::from(Variable::new_variable(v)),
        E::Un(u, a) => {
            let a = build_otherwise(a);
            match u {
                U::Neg => std::ops::Neg::neg(a),
                U::Sin => (&a).sin(),
                U::Cos => (&a).cos(),
                U::Exp => a.exp(),
                U::Ln => a.ln(),
            }
        }
        E::Bin(B::Pow, l, r) => {
            let l = build_otherwise(l);
            match &**r {
                E::Int(i) => l.pow(*i),
                E::Real(x) => l.pow(*x),
                r => match to_num(r) {
                    Some(n) => l.pow(n),
                    None => l.pow(build_otherwise(r)),
                },
            }
        }
        E::Bin(b, l, r) => {
            let (l, r) = (build_otherwise(l), build_otherwise(r));
            match b {
                B::Add => std::ops::Add::add(l, r),
                B::Sub => std::ops::Sub::sub(l, r),
                B::Mul => std::ops::Mul::mul(l, r),
                _ => std::ops::Div::div(l, r),
            }
        }
        lit => Expression::from(AstOperand::from(to_num(lit).expect("a literal"))),
    }
}

pub fn exactly(a: &E, b: &E) -> bool {
    match (a, b) {
        (E::Real(x), E::Real(y)) => x == y,
        (E::Un(u, x), E::Un(v, y)) => u == v && exactly(x, y),
        (E::Bin(u, x1, x2), E::Bin(v, y1, y2)) => u == v && exactly(x1, y1) && exactly(x2, y2),
        _ => match (a.lit_q(), b.lit_q()) {
            (Some(p), Some(q)) => p == q,
            _ => a == b,
        },
    }
}

fn queries(e: &E, x: &Expression) -> Verdict {
    let op = matches!(e, E::Un(..) | E::Bin(..));
    let num = e.is_num();
    let name = if let E::Var(v) = e { Some(v.as_str()) } else { None };
    let q = e.lit_q();
    let (zero, one) = (q.as_ref().is_some_and(|q| q.is_zero()), q.as_ref().is_some_and(|q| q.is_one()));
    let asked = [
        ("is_operator", x.is_operator(), op),
        ("is_operand", x.is_operand(), !op),
        ("is_num", x.is_num(), num),
        ("is_zero", x.is_zero(), zero),
        ("is_one", x.is_one(), one),
        ("is_pi", x.is_pi(), *e == E::Pi),
        ("is_e", x.is_e(), *e == E::Eul),
        ("to_smart_num by reference", x.to_smart_num().is_ok(), num),
        ("to_smart_num", x.clone().to_smart_num().is_ok(), num),
    ];
    for (what, got, want) in asked {
        if got != want {
            fail!("{what} is {got} for {e}");
        }
    }
    for (i, r) in [x.to_rational(), x.clone().to_rational()].into_iter().enumerate() {
        let got = r.as_ref().and_then(crate::bridge::rat_q);
        if r.is_some() != q.is_some() || got != q {
            fail!("to_rational (form {i}) is {r:?} for {e}");
        }
    }
    let by_ref = sym::variable_of(x).map(|v| v.name.clone());
    let by_val = sym::into_variable(x.clone()).map(|v| v.name);
    if by_ref.as_deref() != name || by_val.as_deref() != name {
        fail!("as a variable, {e} is {by_ref:?} and {by_val:?}");
    }
    // The operand alone answers as the expression does.
    if let sym::AstNode::Operand(p) = &x.root {
        let asked = [
            ("is_num", p.is_num(), num),
            ("is_zero", p.is_zero(), zero),
            ("is_one", p.is_one(), one),
            ("is_pi", p.is_pi(), *e == E::Pi),
            ("is_e", p.is_e(), *e == E::Eul),
            ("to_smart_num by reference", p.to_smart_num().is_ok(), num),
            ("to_smart_num", p.clone().to_smart_num().is_ok(), num),
        ];
        for (what, got, want) in asked {
            if got != want {
                fail!("{what} is {got} for the operand {e}");
            }
        }
        if let (Ok(a), Ok(b)) = (p.to_smart_num(), x.to_smart_num()) {
            let c = p.clone().to_smart_num().expect("asked above");
            let d = x.clone().to_smart_num().expect("asked above");
            let same = |a: &sym::SmartNum| a.to_f64().to_bits() == b.to_f64().to_bits() && a.to_string() == b.to_string();
            if ![*a, c, d].iter().all(same) {
                fail!("the number in {e} depends on how it is asked for");
            }
        }
        let by_ref: Option<&Variable> = p.into();
        let by_val: Option<Variable> = p.clone().into();
        if by_ref.map(|v| v.name.as_str()) != name || by_val.map(|v| v.name).as_deref() != name {
            fail!("as a variable, the operand {e} is {by_ref:?}");
        }
        let mut forms = vec![Expression::from(p.clone())];
        if let Some(v) = name {
            forms.push(Expression::from(AstOperand::new_variable(v)));
            forms.push(Expression::from(AstOperand::Variable(Variable::new_variable(v))));
            forms.push(Expression::new_variable(v));
        }
        for (i, f) in forms.iter().enumerate() {
            let back = read(f);
            if !exactly(e, &back) {
                fail!("the operand {e} turned into an expression (form {i}) holds {back}");
            }
        }
        let shown = x.to_string();
        if AstOperand::to_string(p) != shown || format!("{p}") != shown {
            fail!("the operand {p} prints differently from the expression {shown}");
        }
    } else if op != x.is_operator() {
        fail!("{e} has an operator at its root");
    }
    // Operators are equal exactly when they stand for the same operation.
    let operands: Vec<&E> = match e {
        E::Un(_, a) => vec![a],
        E::Bin(_, l, r) => vec![l, r],
        _ => vec![],
    };
    for (c, y) in operands.iter().zip(&x.child) {
        if let (sym::AstNode::Operator(f), sym::AstNode::Operator(g)) = (&x.root, &y.root) {
            let same = match (e, c) {
                (E::Un(u, _), E::Un(v, _)) => u == v,
                (E::Bin(b, ..), E::Bin(d, ..)) => b == d,
                _ => false,
            };
            if (f == g) != same || (g == f) != same {
                fail!("the operator of {e} and that of {c} compare as {}", !same);
            }
        }
    }
    match e {
        E::Un(_, a) => queries(a, &x.child[0]),
        E::Bin(_, l, r) => {
            queries(l, &x.child[0])?;
            queries(r, &x.child[1])
        }
        _ => Ok(()),
    }
}

fn c08(c: &Case, o: &mut Obs) -> Verdict {
    let [e] = &c.e[..] else { discard!("malformed") };
    if !proper(e) || e.any(&mut |x| *x == E::Int(i64::MIN)) {
        discard!("outside the domain");
    }
    for (how, x) in [("operators", call_strict("building", || build(e))?), ("methods", call_strict("building", || build_otherwise(e))?)] {
        let back = call_strict("reading", || read(&x))?;
        if !exactly(e, &back) {
            fail!("{e}, built by {how}, holds {back}");
        }
        let copy = call_strict("cloning", || read(&x.clone()))?;
        if !exactly(e, &copy) {
            fail!("a copy of {e} holds {copy}");
        }
        call_strict("a query", || queries(e, &x))??;
    }
    if e.size() > 2 {
        o.hit();
        o.label(if e.depth() > 6 { "deep" } else { "shallow" });
    }
    Ok(())
}

// ---- C14 ----

fn gen_c14(t: &mut Tape) -> Case {
    let mut cfg = wild_cfg();
    if t.chance(50) {
        cfg.vars = vec!["x", "x", "y", "xx", "x1", "X", "xy"];
    }
    let n = gen::size_or_large(t, 30, 150);
    let e = gen::expr(t, &cfg, n);
    // The target: usually one that occurs, sometimes one that does not.
    let vs = e.vars();
    let target = if !vs.is_empty() && t.chance(80) {
        t.pick(&vs).clone()
    } else {
        t.pick(&cfg.vars).to_string()
    };
    let by = match t.weighted(&[3, 4, 2]) {
        0 => gen::leaf(t, &cfg),
        1 => {
            let n = gen::size(t, 10);
            gen::expr(t, &cfg, n)
        }
        // The replacement mentions the variable it replaces.
        _ => bin(*t.pick(&BINARY), var(&target), gen::leaf(t, &cfg)),
    };
    let mut e = vec![e, var(&target), by];
    gen::names(t, &mut e);
    Case::new(e, vec![])
}

fn c14(c: &Case, o: &mut Obs) -> Verdict {
    let [e, E::Var(target), by] = &c.e[..] else { discard!("malformed") };
    if !proper(e) || !proper(by) || !proper(&c.e[1]) {
        discard!("outside the domain");
    }
    let want = e.subst(target, by);
    let got = call_strict("substitution", || {
        let (x, u, v) = (build(e), Expression::new_variable(target), build(by));
        let w = Variable::new_variable(target);
        [
            sym::substitute_variable(x.clone(), &w, &v),
            sym::substitute_ref(x.clone(), &u, &v),
            sym::substitute(x, u, v),
        ]
        .map(|r| r.map(|x| read(&x)))
    })?;
    for (how, g) in ["by variable", "by reference", "by value"].iter().zip(got) {
        match g {
            Ok(g) if exactly(&g, &want) => {}
            Ok(g) => fail!("putting {by} for {target} in {e} ({how}) gave {g}, expected {want}"),
            Err(m) => fail!("putting {by} for {target} in {e} ({how}) failed: {m}"),
        }
    }
    if e.has_var(target) {
        o.label("target occurs");
        if e.size() > 1 {
            o.hit();
        }
        if by.has_var(target) {
            o.label("replacement mentions the target");
        }
    } else {
        o.label("target absent");
    }
    Ok(())
}

// ---- C21 ----

fn gen_c21(t: &mut Tape) -> Case {
    let mut cfg = Cfg::full();
    cfg.un.retain(|u| !matches!(u.0, U::Exp | U::Ln));
    cfg.bin.retain(|b| b.0 != B::Pow);
    if t.chance(50) {
        cfg = Cfg::full();
    }
    let n = gen::size(t, 8);
    let e = gen::expr(t, &cfg, n);
    let target = match t.weighted(&[3, 3, 3]) {
        0 => gen::lit(t, &cfg),
        1 => {
            let n = 2 + t.below(5) as usize;
            gen::expr(t, &cfg, n)
        }
        _ => un(*t.pick(&UNARY), var("x")),
    };
    let at = gen::leaf(t, &cfg);
    let mut e = vec![e, target, at];
    gen::names(t, &mut e);
    Case::new(e, vec![t.range(0, 2)])
}

fn c21(c: &Case, o: &mut Obs) -> Verdict {
    let ([e, target, at], [order]) = (&c.e[..], &c.k[..]) else { discard!("malformed") };
    if !proper(e) || !proper(target) || !proper(at) || !(0..=3).contains(order) || e.size() > 14 {
        discard!("outside the domain");
    }
    let order = *order as u64;
    let is_var = matches!(target, E::Var(_));
    let (x, u, v) = call_strict("building", || (build(e), build(target), build(at)))?;
    if is_var {
        // The same calls with a variable never answer with an error.
        o.label("variable target");
        let d = call("derivative", || [sym::derivative_by_ref(x.clone(), &u).err(), sym::derivative_by(x.clone(), u.clone()).err()])?;
        if let Some(m) = d.into_iter().flatten().next() {
            fail!("the derivative of {e} by {target} was refused: {m}");
        }
        let s = call("substitution", || [sym::substitute_ref(x.clone(), &u, &v).err(), sym::substitute(x.clone(), u.clone(), v.clone()).err()])?;
        if let Some(m) = s.into_iter().flatten().next() {
            fail!("substituting {target} in {e} was refused: {m}");
        }
        if let Some(m) = call("expansion", || x.clone().taylor_expansion(u.clone(), v.clone(), order).map_err(|e| e.to_string()).err())? {
            fail!("expanding {e} in {target} was refused: {m}");
        }
        return Ok(());
    }
    o.hit();
    let refused: Vec<(&str, Result<Option<String>, Stop>)> = vec![
        ("derivative by value", call_strict("derivative", || sym::derivative_by(x.clone(), u.clone()).err())),
        ("derivative by reference", call_strict("derivative", || sym::derivative_by_ref(x.clone(), &u).err())),
        ("substitution by value", call_strict("substitution", || sym::substitute(x.clone(), u.clone(), v.clone()).err())),
        ("substitution by reference", call_strict("substitution", || sym::substitute_ref(x.clone(), &u, &v).err())),
        ("expansion", call_strict("expansion", || x.clone().taylor_expansion(u.clone(), v.clone(), order).map_err(|e| e.to_string()).err())),
        ("limit", call_strict("limit", || sym::limit_expression(x.clone(), u.clone(), v.clone(), order).err().map(|_| "no limit".to_string()))),
    ];
    for (what, r) in refused {
        match r? {
            Some(m) if !m.is_empty() => {}
            Some(_) => fail!("{what} of {e} with target {target} has an empty error"),
            None => fail!("{what} of {e} accepted {target} as a variable"),
        }
    }
    // Number queries on what is no number.
    let n = call_strict("a number query", || {
        (
            (&x).to_smart_num().map(|_| ()).map_err(|e| e.to_string()),
            x.clone().to_smart_num().map(|_| ()).map_err(|e| e.to_string()),
            (&x).to_rational().is_some(),
            x.clone().to_rational().is_some(),
        )
    })?;
    let near = if tiny(e) && tiny(target) && tiny(at) {
        Some(call_strict("near", || [x.near(&u, 0.5).is_ok(), u.near(&x, 0.5).is_ok(), x.near(&v, 0.5).is_ok()])?)
    } else {
        None
    };
    let num = e.is_num();
    if n.0.is_ok() != num || n.1.is_ok() != num || n.2 != e.lit_q().is_some() || n.3 != n.2 {
        fail!("as a number, {e} answers {n:?}");
    }
    if let Some(near) = near {
        let both = num && target.is_num();
        if near != [both, both, num && at.is_num()] {
            fail!("near of {e} with {target} and {at} answers {near:?}");
        }
    }
    o.label(if target.is_num() { "number target" } else { "compound target" });
    o.label(if num { "number source" } else { "compound source" });
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "Expressions of up to 24 nodes over all operations, integer, fraction and real literals of both signs, pi, e and several names; all of up to 4 nodes over six leaves (more nodes over fewer) are enumerated. Printed, read back by an independent reader of conventional notation, and compared in a prime field with functions uninterpreted. Non-trivial: an operation applied to another operation or to a literal.",
            tape: 240,
            gen: gen_c07,
            check: c07,
            small: small_c07,
            quick: 8_000_000,
            thorough: 60_000_000,
        },
        Prop {
            id: "C08",
            rule: "Expressions of up to 30 nodes over all operations, literals of every size and awkward names, built through operators and through methods, references and conversions; read back node by node with every classification query asked at every node. Non-trivial: at least three nodes.",
            tape: 300,
            gen: gen_c08,
            check: c08,
            small: |_, f| all_up_to(4, &[E::Int(0), E::Int(1), E::Rat(true, 1, 2), E::Pi, var("x")], &UNARY, &BINARY, &mut |e| f(Case::new(vec![e], vec![]))),
            quick: 6_000_000,
            thorough: 40_000_000,
        },
        Prop {
            id: "C14",
            rule: "Expressions of up to 30 nodes, a target name that mostly occurs among names sharing prefixes and case, and a replacement that may mention the target; all three call forms compared node by node with the reference substitution. Non-trivial: the target occurs inside a compound expression.",
            tape: 220,
            gen: gen_c14,
            check: c14,
            small: |_, f| {
                for by in [var("y"), E::Int(0), un(U::Neg, var("x")), bin(B::Add, var("x"), var("y"))] {
                    all_up_to(4, &[var("x"), var("y"), var("xx"), E::Int(2)], &UNARY, &BINARY, &mut |e| f(Case::new(vec![e, var("x"), by.clone()], vec![])));
                }
            },
            quick: 8_000_000,
            thorough: 50_000_000,
        },
        Prop {
            id: "C21",
            rule: "Expressions with a target that is a number or a compound expression, offered to every differentiation, substitution, expansion and limit entry point, and number queries and closeness asked of non-numbers; variable targets as the control. Non-trivial: the target is not a variable.",
            tape: 90,
            gen: gen_c21,
            check: c21,
            small: |_, f| {
                let mut es = vec![];
                all_up_to(3, &[var("x"), E::Int(2)], &UNARY, &BINARY, &mut |e| es.push(e));
                for e in &es {
                    for t in es.iter().take(40) {
                        f(Case::new(vec![e.clone(), t.clone(), E::Int(0)], vec![1]));
                    }
                }
            },
            quick: 8_000_000,
            thorough: 40_000_000,
        },
    ]
}
