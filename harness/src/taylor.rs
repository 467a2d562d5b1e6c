//! C15-C17: Taylor expansions.

use oracle::big::Q;
use oracle::ev::{self, Cmp, Ev};
use oracle::expr::{bin, eval_q, un, var, B, E, U};
use oracle::field;
use oracle::gen::{self, Cfg, Tape};
use oracle::parse::parse;
use oracle::runner::{call, call_strict, Case, Obs, Prop, Stop, Verdict};
use oracle::{discard, fail};

use crate::bridge::{build, env, points, read};
use crate::structure::proper;
use symbolic_rust::verif_api as sym;
use sym::{Expression, PartialExpansion, TaylorExpansion as _, Variable};

struct Read {
    order: u64,
    of: E,
    at: E,
    coefficient: Vec<E>,
    residual: E,
    text: String,
}

fn read_expansion(p: &PartialExpansion) -> Read {
    Read {
        order: p.order,
        of: read(&p.of),
        at: read(&p.at),
        coefficient: p.coefficient.iter().map(read).collect(),
        residual: read(&p.residual),
        text: p.to_string(),
    }
}

fn expand(e: &E, of: &str, at: &E, order: u64, strict: bool) -> Result<Read, Stop> {
    let f = || build(e).taylor_expansion(&Variable::new_variable(of), &build(at), order).map(|p| read_expansion(&p)).map_err(|m| m.to_string());
    let r = if strict { call_strict("expansion", f)? } else { call("expansion", f)? };
    match r {
        Ok(r) => Ok(r),
        Err(m) => fail!("expanding {e} in {of} at {at} was refused: {m}"),
    }
}

// ---- C15 ----

/// Functions whose derivatives stay small, so that high orders are affordable.
fn simple(t: &mut Tape) -> E {
    let x = || var("x");
    let arg = match t.weighted(&[4, 2, 2, 1]) {
        0 => x(),
        1 => bin(B::Mul, E::Int(t.range(-3, 3)), x()),
        2 => bin(B::Add, x(), gen::lit(t, &Cfg { lits: [4, 2, 0, 0, 0], ..Cfg::full() })),
        _ => un(U::Neg, x()),
    };
    let f = match t.weighted(&[3, 3, 3, 2, 2, 1]) {
        0 => un(U::Exp, arg),
        1 => un(U::Sin, arg),
        2 => un(U::Cos, arg),
        3 => un(U::Ln, arg),
        4 => bin(B::Pow, arg, E::Int(t.range(0, 9))),
        _ => bin(B::Pow, arg, E::Rat(t.chance(50), 1, 2)),
    };
    match t.weighted(&[4, 2, 1]) {
        0 => f,
        1 => bin(*t.pick(&[B::Add, B::Sub, B::Mul]), f, gen::leaf(t, &Cfg { vars: vec!["y", "z"], ..Cfg::full() })),
        _ => un(U::Neg, f),
    }
}

fn at_point(t: &mut Tape) -> E {
    match t.weighted(&[10, 6, 6, 2, 2, 4, 2, 2]) {
        7 => {
            // Not folded, and to be recorded so.
            let l = if t.chance(40) { var(t.pick(&["y", "a"])) } else { gen::small_rat(t) };
            let r = E::Int(t.range(-3, 4));
            match t.weighted(&[2, 2, 2, 1, 1]) {
                0 => bin(B::Add, l, r),
                1 => bin(B::Sub, r, l),
                2 => bin(B::Mul, r, l),
                3 => un(U::Neg, l),
                _ => bin(B::Div, E::Int(t.range(1, 6)), E::Int(t.range(1, 4))),
            }
        }
        0 => E::Int(*t.pick(&[0, 1, 2, -1, 3])),
        1 => E::Int(t.range(-6, 6)),
        2 => gen::small_rat(t),
        3 => E::Pi,
        4 => E::Eul,
        5 => var(t.pick(&["y", "a"])),
        _ => gen::eighth(t),
    }
}

fn gen_c15(t: &mut Tape) -> Case {
    let (e, order) = match t.weighted(&[4, 4]) {
        0 => {
            let e = simple(t);
            let cap = if e.any(&mut |x| matches!(x, E::Un(U::Ln, _)) || matches!(x, E::Bin(B::Pow, _, r) if matches!(**r, E::Rat(..)))) {
                6
            } else if e.size() <= 3 {
                20
            } else {
                12
            };
            (e, t.range(0, cap))
        }
        _ => {
            let n = gen::size(t, 10);
            let mut c = Cfg {
                vars: vec!["x", "x", "x", "y"],
                var_w: 6,
                ..Cfg::full()
            };
            c.lits[0] = 6;
            let e = gen::expr(t, &c, n);
            let cap = match e.size() {
                0..=3 => 6,
                4..=6 => 4,
                _ => 3,
            };
            (e, t.range(0, cap))
        }
    };
    let of = if t.chance(10) { "y" } else { "x" };
    let at = at_point(t);
    let at = if at == var(of) { E::Int(2) } else { at };
    let mut k = vec![order];
    k.extend(points(t, 4));
    let mut e = vec![e, var(of), at];
    gen::names(t, &mut e);
    Case::new(e, k)
}

fn factorial(k: u64) -> f64 {
    (1..=k).map(|i| i as f64).product()
}

/// Each quotient's derivative squares the denominator: after k of them double precision may have
/// gone out of range on the way to a value that is itself in range, and left 0, infinity or nothing.
fn lost_in_range(e: &E, env: &ev::Env, k: u64, got: &ev::R<Ev>) -> bool {
    if matches!(got, Ok(g) if g.v != 0.0 && g.v.is_finite()) {
        return false;
    }
    let mut widest = 0.0_f64;
    e.any(&mut |x| {
        if let Ok(v) = ev::eval(x, env, true) {
            if v.v != 0.0 {
                widest = widest.max(v.v.abs().ln().abs());
            }
        }
        false
    });
    widest * 2f64.powi(k as i32) > 600.0
}

fn c15(c: &Case, o: &mut Obs) -> Verdict {
    let [e, E::Var(of), at] = &c.e[..] else { discard!("malformed") };
    if c.k.is_empty() || !(0..=20).contains(&c.k[0]) || !proper(e) || !proper(at) || !proper(&c.e[1]) || at.has_var(of) {
        discard!("outside the domain");
    }
    let order = c.k[0] as u64;
    if e.size() as u64 * (order + 1) > 160 {
        discard!("too large");
    }
    // Nothing but the factorial grows for sin x, cos x, exp x, and 20! fits in 64 bits.
    let plain = matches!(e, E::Un(U::Sin | U::Cos | U::Exp, a) if matches!(**a, E::Var(_)));
    let strict = (order <= 2 && e.size() <= 5 || plain) && e.max_lit() <= 9 && at.max_lit() <= 9 && at.size() == 1;
    let p = expand(e, of, at, order, strict)?;
    if p.order != order || p.of != var(of) || !p.at.same(at) {
        fail!("expanding {e} in {of} at {at} to order {order} recorded order {}, {} and {}", p.order, p.of, p.at);
    }
    if p.coefficient.len() as u64 != order + 1 {
        fail!("{} coefficients for order {order} of {e}", p.coefficient.len());
    }
    // The other call form.
    let q = match call("expansion", || build(e).taylor_expansion(Expression::new_variable(of), build(at), order).map(|p| read_expansion(&p)).map_err(|m| m.to_string()))? {
        Ok(q) => q,
        Err(m) => fail!("expanding {e} in {of} by value was refused: {m}"),
    };
    if q.order != p.order || q.of != p.of || !q.at.same(&p.at) || q.coefficient.len() != p.coefficient.len() || q.coefficient.iter().zip(&p.coefficient).any(|(a, b)| !a.same(b)) || !q.residual.same(&p.residual) || q.text != p.text {
        fail!("the two call forms expand {e} in {of} at {at} differently");
    }
    if let Some(b) = p.coefficient.iter().find(|b| b.has_var(of)) {
        fail!("a coefficient of the expansion of {e} in {of} still holds {of}: {b}");
    }
    // Values against power-series arithmetic at that point.
    let mut vs = e.vars();
    vs.extend(at.vars());
    vs.retain(|v| v != of);
    vs.sort();
    vs.dedup();
    let env0 = env(&vs, &c.k[1..], 0);
    let Ok(a) = ev::point(at, &env0) else { discard!("no value at the point") };
    let mut env1 = env0.clone();
    env1.push((of, a));
    match ev::jet(e, of, &env1, order as usize) {
        Err(_) => o.label("not defined there"),
        Ok(j) => {
            for (k, want) in j.iter().enumerate() {
                let got = ev::eval(&p.coefficient[k], &env0, true);
                match ev::compare(Ok(*want), got) {
                    Cmp::Same => {
                        o.label("coefficient compared");
                        if k >= 2 {
                            o.label("coefficient of order 2 or more compared");
                        }
                        if e.has_var(of) && e.size() > 1 {
                            o.hit();
                        }
                    }
                    Cmp::Differ if lost_in_range(e, &env1, k as u64, &got) => o.label("beyond double range"),
                    Cmp::Differ => fail!("coefficient {k} of {e} in {of} at {at} came out as {} = {got:?}; it is {want:?} ({env0:?})", p.coefficient[k]),
                    _ => o.label("coefficient too uncertain"),
                }
            }
        }
    }
    // The residual is the next derivative, as a function of the variable.
    let mut env2 = env0.clone();
    env2.push((of, Ev::exact(c.k.last().copied().unwrap_or(8) as f64 / 16.0)));
    if let Ok(j) = ev::jet(e, of, &env2, order as usize + 1) {
        let want = j[order as usize + 1].mul(Ev::exact(factorial(order + 1)));
        let got = ev::eval(&p.residual, &env2, true);
        match ev::compare(want, got) {
            Cmp::Same => o.label("residual compared"),
            Cmp::Differ if lost_in_range(e, &env2, order + 1, &got) => o.label("beyond double range"),
            Cmp::Differ => fail!("the residual of {e} in {of} to order {order} is {} = {got:?} at {env2:?}; the next derivative is {want:?}", p.residual),
            _ => {}
        }
    }
    Ok(())
}

// ---- C16 ----

fn poly(t: &mut Tape, deg: u64) -> E {
    let lit = |t: &mut Tape| match t.weighted(&[4, 2]) {
        0 => E::Int(t.range(-5, 5)),
        _ => gen::small_rat(t),
    };
    if deg == 0 {
        return lit(t);
    }
    match t.weighted(&[3, 4, 3, 3, 2, 2]) {
        0 => var("x"),
        1 => {
            let l = poly(t, deg);
            let r = t.below(deg + 1);
            let r = poly(t, r);
            bin(*t.pick(&[B::Add, B::Sub]), l, r)
        }
        2 => {
            let a = t.below(deg + 1);
            let (l, r) = (poly(t, a), poly(t, deg - a));
            bin(B::Mul, l, r)
        }
        3 => {
            let k = 1 + t.below(deg);
            let b = deg / k;
            bin(B::Pow, if b == 0 { lit(t) } else { poly(t, b) }, E::Int(k as i64))
        }
        4 => un(U::Neg, poly(t, deg)),
        _ => {
            let mut d = lit(t);
            if d.lit_q().is_some_and(|q| q.is_zero()) {
                d = E::Int(2);
            }
            bin(B::Div, poly(t, deg), d)
        }
    }
}

/// No products of two things that vary, and only straight lines raised: derivatives stay small.
fn cheap(e: &E) -> bool {
    match e {
        E::Un(_, a) => cheap(a),
        E::Bin(B::Pow, l, r) => !r.has_var("x") && !l.any(&mut |y| matches!(y, E::Bin(B::Pow, ..) | E::Bin(B::Mul, ..))),
        E::Bin(B::Mul, l, r) => cheap(l) && cheap(r) && !(l.has_var("x") && r.has_var("x")),
        E::Bin(_, l, r) => cheap(l) && cheap(r),
        _ => true,
    }
}

fn gen_c16(t: &mut Tape) -> Case {
    if t.chance(12) {
        // High degrees.
        let mut e = None;
        for _ in 0..=t.below(3) {
            let base = match t.weighted(&[4, 2, 2]) {
                0 => var("x"),
                1 => bin(B::Add, var("x"), E::Int(*t.pick(&[1, -1, 2]))),
                _ => bin(B::Sub, E::Int(*t.pick(&[1, 0, 2])), var("x")),
            };
            let mut term = bin(B::Pow, base, E::Int(t.range(3, 20)));
            if t.chance(50) {
                term = bin(B::Mul, E::Int(t.range(-5, 5)), term);
            }
            e = Some(match e {
                None => term,
                Some(e) => bin(*t.pick(&[B::Add, B::Sub]), e, term),
            });
        }
        let at = if t.chance(70) { E::Int(*t.pick(&[0, 1, -1, 2])) } else { gen::small_rat(t) };
        return Case::new(vec![e.unwrap(), at], vec![t.range(5, 20)]);
    }
    let deg = t.below(7);
    let e = poly(t, deg);
    let at = match t.weighted(&[4, 3, 3]) {
        0 => E::Int(*t.pick(&[0, 1, -1, 2])),
        1 => E::Int(t.range(-7, 7)),
        _ => gen::small_rat(t),
    };
    Case::new(vec![e, at], vec![t.range(0, 7)])
}

/// Coefficients of a polynomial in x, and the degree one reads off its form.
fn poly_of(e: &E) -> Option<(Vec<Q>, usize)> {
    fn trim(mut c: Vec<Q>) -> Vec<Q> {
        while c.len() > 1 && c.last().unwrap().is_zero() {
            c.pop();
        }
        c
    }
    fn mul(a: &[Q], b: &[Q]) -> Vec<Q> {
        let mut c = vec![Q::zero(); a.len() + b.len() - 1];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                c[i + j] = c[i + j].add(&x.mul(y));
            }
        }
        c
    }
    Some(match e {
        E::Int(_) | E::Rat(..) => (vec![e.lit_q()?], 0),
        E::Var(v) if v == "x" => (vec![Q::zero(), Q::one()], 1),
        E::Un(U::Neg, a) => {
            let (c, d) = poly_of(a)?;
            (c.iter().map(Q::neg).collect(), d)
        }
        E::Bin(B::Pow, l, r) => {
            let (c, d) = poly_of(l)?;
            let E::Int(k @ 0..=20) = **r else { return None };
            let mut p = vec![Q::one()];
            for _ in 0..k {
                p = mul(&p, &c);
            }
            (trim(p), d * k as usize)
        }
        E::Bin(b, l, r) => {
            let ((p, dp), (q, dq)) = (poly_of(l)?, poly_of(r)?);
            match b {
                B::Add | B::Sub => {
                    let n = p.len().max(q.len());
                    let at = |c: &[Q], i: usize| c.get(i).cloned().unwrap_or(Q::zero());
                    let c = (0..n)
                        .map(|i| if *b == B::Add { at(&p, i).add(&at(&q, i)) } else { at(&p, i).sub(&at(&q, i)) })
                        .collect();
                    (trim(c), dp.max(dq))
                }
                B::Mul => (trim(mul(&p, &q)), dp + dq),
                B::Div => {
                    if dq != 0 || q[0].is_zero() {
                        return None;
                    }
                    (p.iter().map(|x| x.div(&q[0]).unwrap()).collect(), dp)
                }
                _ => return None,
            }
        }
        _ => return None,
    })
}

fn shift(c: &[Q], a: &Q) -> Vec<Q> {
    // Repeated synthetic division by (x - a).
    let mut c = c.to_vec();
    let n = c.len();
    for i in 0..n {
        for j in (i..n - 1).rev() {
            let d = c[j + 1].mul(a);
            c[j] = c[j].add(&d);
        }
    }
    c
}

fn c16(c: &Case, o: &mut Obs) -> Verdict {
    let ([e, at], [order]) = (&c.e[..], &c.k[..]) else { discard!("malformed") };
    if !proper(e) || !(0..=20).contains(order) || *order > 8 && !cheap(e) || e.size() > 40 {
        discard!("outside the domain");
    }
    let (Some((p, degree)), Some(a)) = (poly_of(e), at.lit_q()) else { discard!("not a polynomial") };
    if degree > 20 {
        discard!("too large");
    }
    let order = *order as u64;
    let strict = e.size() <= 5 && e.max_lit() <= 5 && order <= 3 && at.max_lit() <= 5 && degree <= 3;
    let x = expand(e, "x", at, order, strict)?;
    let want = shift(&p, &a);
    for (k, got) in x.coefficient.iter().enumerate() {
        let w = want.get(k).cloned().unwrap_or(Q::zero());
        if w.bits() > 900 {
            discard!("too large");
        }
        match eval_q(got, &[]) {
            Some(g) if g == w => {}
            Some(g) => fail!("coefficient {k} of {e} at {at} came out as {got} = {}; it is {}", g.show(), w.show()),
            None => fail!("coefficient {k} of {e} at {at} came out as {got}, which has no value; it is {}", w.show()),
        }
    }
    if x.coefficient.len() as u64 != order + 1 {
        fail!("{} coefficients for order {order}", x.coefficient.len());
    }
    if order as usize >= degree {
        o.label("order reaches the degree");
        if degree > 12 {
            o.label("order reaches a degree over 12");
        }
        match x.residual.lit_q() {
            Some(q) if q.is_zero() => {}
            _ => fail!("{e} has degree at most {degree}, yet the residual after order {order} is {}", x.residual),
        }
    }
    if p.len() > 1 {
        o.hit();
        if p.len() > 3 {
            o.label("degree 3 or more");
        }
        if a.is_zero() {
            o.label("at zero");
        }
    }
    Ok(())
}

// ---- C17 ----

fn readable_cfg() -> Cfg {
    Cfg {
        vars: vec!["y", "z", "a"],
        lits: [6, 5, 1, 1, 1],
        ..Cfg::full()
    }
}

fn gen_c17(t: &mut Tape) -> Case {
    let mut c = gen_c17_x(t);
    if t.chance(12) {
        // Expanded in something else.
        let to = var(t.pick(&["t", "k", "y1"]));
        for e in &mut c.e {
            *e = e.subst("x", &to);
        }
    }
    c
}

fn gen_c17_x(t: &mut Tape) -> Case {
    let c = readable_cfg();
    let at = match t.weighted(&[4, 3, 2, 2]) {
        0 => E::Int(*t.pick(&[0, 1, -1, 2, -3])),
        1 => gen::small_rat(t),
        2 => gen::leaf(t, &c),
        _ => {
            let n = gen::size(t, 5);
            gen::expr(t, &c, n)
        }
    };
    if t.chance(6) {
        // High orders.
        let n = 6 + t.below(18) as usize;
        let mut e = vec![var("x"), at];
        for _ in 0..=n {
            e.push(match t.weighted(&[5, 3, 1]) {
                0 => E::Int(0),
                1 => gen::lit(t, &c),
                _ => gen::expr(t, &c, 3),
            });
        }
        return Case::new(e, vec![]);
    }
    if t.chance(3) {
        let e = match t.weighted(&[3, 1]) {
            0 => un(*t.pick(&[U::Sin, U::Cos, U::Exp]), var("x")),
            _ => bin(B::Pow, var("x"), E::Int(t.range(5, 20))),
        };
        let n = t.range(5, 20);
        return Case::new(vec![var("x"), at, e], vec![n]);
    }
    if t.chance(50) {
        // Put together directly: coefficients of every shape.
        let n = t.below(6) as usize;
        let mut e = vec![var("x"), at];
        for _ in 0..=n {
            let s = gen::size(t, 7);
            e.push(if t.chance(15) { E::Int(0) } else { gen::expr(t, &c, s) });
        }
        // Of any order, also one higher than the coefficients go.
        let k = if t.chance(8) {
            let n = match t.weighted(&[3, 2, 1]) {
                0 => t.range(0, 70),
                1 => (1 << t.range(6, 40)) + t.range(-2, 2),
                _ => gen::any_int(t).clamp(0, 1 << 60),
            };
            vec![-1 - n]
        } else {
            vec![]
        };
        Case::new(e, k)
    } else {
        let s = gen::size(t, 7);
        let e = gen::expr(t, &Cfg { vars: vec!["x", "x", "y"], var_w: 6, lits: [4, 2, 0, 0, 0], ..c }, s);
        let n = t.range(0, 4);
        Case::new(vec![var("x"), at, e], vec![n])
    }
}

/// The last three stand in for x.
const LETTERS: [&str; 7] = ["x", "y", "z", "a", "t", "k", "y1"];

/// Equal in the field; or else, because printing folds the point `b` has (sin 0, say), equal in value at
/// some points and provably different at none.
fn same_function(a: &E, b: &E) -> Option<bool> {
    if let Some(true) = field::agree(a, b) {
        return Some(true);
    }
    let mut any = None;
    for env in [[0.8125, 1.375, 2.25, 0.4375, 0.8125, 0.8125, 0.8125], [1.6875, 0.53125, 0.8125, 3.125, 1.6875, 1.6875, 1.6875], [-0.625, 2.875, 1.21875, 1.9375, -0.625, -0.625, -0.625]] {
        let env: Vec<(&str, ev::Ev)> = LETTERS.into_iter().zip(env.map(ev::Ev::exact)).collect();
        match ev::compare(ev::eval(b, &env, true), ev::eval(a, &env, true)) {
            ev::Cmp::Differ => return Some(false),
            ev::Cmp::Same => any = Some(true),
            _ => {}
        }
    }
    any
}

fn c17(c: &Case, o: &mut Obs) -> Verdict {
    if c.e.len() < 3 || c.k.len() > 1 || c.e.iter().any(|e| !proper(e)) {
        discard!("malformed");
    }
    let (of, at) = (&c.e[0], &c.e[1]);
    let E::Var(name) = of else { discard!("malformed") };
    let odd = |e: &E| {
        e.any(&mut |x| match x {
            E::Real(v) => (v * 8.0).fract() != 0.0 || v.abs() > 1e6,
            E::Var(n) => !LETTERS.contains(&n.as_str()),
            _ => false,
        })
    };
    if c.e.iter().any(odd) || at.has_var(name) {
        discard!("outside the domain");
    }
    let p = if c.k.first().is_some_and(|n| *n >= 0) {
        // Derivatives of anything else grow too fast.
        let tame = matches!(&c.e[2], E::Un(U::Sin | U::Cos | U::Exp, a) if **a == *of)
            || matches!(&c.e[2], E::Bin(B::Pow, l, r) if **l == *of && matches!(**r, E::Int(0..=20)));
        if c.e.len() != 3 || !(0..=if tame { 20 } else { 5 }).contains(&c.k[0]) || c.e[2].size() as i64 * (c.k[0] + 1) > 70 {
            discard!("malformed");
        }
        o.label("by expansion");
        expand(&c.e[2], name, at, c.k[0] as u64, false)?
    } else {
        o.label("put together directly");
        call("printing", || {
            let coefficient = c.e[2..].iter().map(build).collect();
            read_expansion(&PartialExpansion {
                order: c.k.first().map_or(c.e.len() as u64 - 3, |n| (-1 - (*n).max(-(1 << 62))) as u64),
                of: build(of),
                at: build(at),
                coefficient,
                residual: Expression::zero(),
            })
        })?
    };
    // Reals that three decimals do not hold are not claimed.
    let lossy = |e: &E| {
        e.any(&mut |x| match x {
            E::Real(v) => !v.is_finite() || (v * 8.0).fract() != 0.0 || v.abs() > 1e6,
            E::Rat(_, _, 0) => true,
            _ => false,
        })
    };
    if p.coefficient.iter().any(lossy) {
        discard!("a coefficient is rounded in print or undefined");
    }
    let base = call("folding", || {
        use sym::NumAggregate as _;
        read(&(build(of) - build(at)).num_aggregate())
    })?;
    if lossy(&base) {
        discard!("the point is rounded in print");
    }
    let Some((sum, big_o)) = p.text.rsplit_once("O(").map(|(a, b)| (a, b.to_string())) else {
        fail!("no order term in {:?}", p.text)
    };
    let Some(inner) = big_o.strip_suffix(')') else { fail!("no order term at the end of {:?}", p.text) };
    let power = |k: i64| bin(B::Pow, bin(B::Sub, of.clone(), at.clone()), E::Int(k));
    match parse(inner).map(|b| same_function(&b, &power(p.order as i64 + 1))) {
        Ok(Some(true)) => {}
        Ok(None) => discard!("undefined everywhere"),
        _ => fail!("the order term of {:?} is not ({of} - {at}) ^ {}", p.text, p.order + 1),
    }
    let mut want = E::Int(0);
    for (k, b) in p.coefficient.iter().enumerate() {
        want = bin(B::Add, want, bin(B::Mul, b.clone(), power(k as i64)));
    }
    let sum = sum.trim_end();
    let read_sum = if sum.is_empty() {
        Ok(E::Int(0))
    } else {
        match sum.strip_suffix('+') {
            Some(s) => parse(s),
            None => fail!("{:?} does not add the order term", p.text),
        }
    };
    let got = match read_sum {
        Ok(g) => g,
        Err(m) => fail!("{:?} does not read: {m}", p.text),
    };
    match same_function(&got, &want) {
        Some(true) => {}
        Some(false) => fail!("an expansion with coefficients [{}] in {of} at {at} prints as {:?}", p.coefficient.iter().map(E::to_string).collect::<Vec<_>>().join(", "), p.text),
        None => discard!("undefined everywhere"),
    }
    if p.coefficient.iter().any(|b| b.size() > 1) {
        o.label("compound coefficient");
        o.hit();
    }
    if p.coefficient.len() > 1 && p.coefficient.iter().any(|b| !b.lit_q().is_some_and(|q| q.is_zero())) {
        o.hit();
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            rule: "Elementary functions of simple arguments to order 20 and expressions of up to 10 nodes to order 3-6, at integers, fractions, pi, e, reals and symbolic points; every coefficient and the residual compared with power-series arithmetic under running error bounds. Non-trivial: a coefficient of a compound expression in the variable was compared.",
            tape: 100,
            gen: gen_c15,
            check: c15,
            small: |_, f| {
                let us = [U::Sin, U::Cos, U::Exp, U::Ln, U::Neg];
                let at = [E::Int(0), E::Int(1), E::Int(2), E::Rat(false, 1, 2), E::Pi, E::Eul, var("a")];
                gen::all_up_to(3, &[var("x"), E::Int(2), var("y")], &us, &[B::Add, B::Sub, B::Mul, B::Div, B::Pow], &mut |e| {
                    for a in &at {
                        f(Case::new(vec![e.clone(), var("x"), a.clone()], vec![4, 24, 9, 40]));
                        if matches!(e, E::Un(U::Sin | U::Cos | U::Exp, ref v) if **v == var("x")) {
                            f(Case::new(vec![e.clone(), var("x"), a.clone()], vec![20, 24, 9, 40]));
                        }
                    }
                });
            },
            quick: 800_000,
            thorough: 6_000_000,
        },
        Prop {
            id: "C16",
            rule: "Polynomials of degree up to 20 in many forms (products, powers, quotients by constants, negations) with integer and fraction coefficients, expanded at an integer or fraction to order 0-20; every coefficient compared exactly with the shifted polynomial, the residual with zero. Non-trivial: degree at least one.",
            tape: 120,
            gen: gen_c16,
            check: c16,
            small: |_, f| {
                for at in [E::Int(0), E::Int(1), E::Int(-2), E::Rat(false, 1, 2)] {
                    gen::all_up_to(4, &[var("x"), E::Int(2), E::Rat(true, 1, 3)], &[U::Neg], &[B::Add, B::Sub, B::Mul, B::Div, B::Pow], &mut |e| {
                        f(Case::new(vec![e, at.clone()], vec![3]));
                    });
                }
            },
            quick: 1_600_000,
            thorough: 10_000_000,
        },
        Prop {
            id: "C17",
            rule: "Expansions computed from expressions and expansions put together from generated coefficients (compound, negative, fractional, zero; up to 24 of them), points and orders; the printed text is read back and compared, in a prime field, with the sum of coefficient times power, and the order term with the next power. Non-trivial: a compound coefficient, or several coefficients not all zero.",
            tape: 120,
            gen: gen_c17,
            check: c17,
            small: |_, f| {
                for at in [E::Int(0), E::Int(1), E::Int(-1), E::Rat(false, 1, 2), var("a")] {
                    gen::all_up_to(3, &[var("y"), E::Int(2), E::Int(-3), E::Rat(true, 1, 2), E::Int(0)], &[U::Neg, U::Sin], &[B::Add, B::Sub, B::Mul, B::Div, B::Pow], &mut |e| {
                        f(Case::new(vec![var("x"), at.clone(), E::Int(1), e.clone(), e], vec![]));
                    });
                }
            },
            quick: 3_000_000,
            thorough: 20_000_000,
        },
    ]
}
