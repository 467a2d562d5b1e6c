//! C18-C20: limits.

use oracle::big::Q;
use oracle::ev::{self, Cmp, Ev};
use oracle::expr::{bin, eval_q, un, var, B, E, U};
use oracle::gen::{self, all_of_size, all_up_to, Cfg, Tape};
use oracle::laurent::{self, Lim, L, N};
use oracle::sample::{self, Claim};
use oracle::runner::{guard, is_overflow, Case, Obs, Prop, Stop, Verdict};
use oracle::{discard, fail};

use crate::bridge::{build, env, read};
use crate::structure::proper;
use symbolic_rust::verif_api as sym;
use sym::{LimitExpression, Variable};

/// An answer of the code under test.
#[derive(Clone, Debug)]
enum A {
    Zero,
    Inf,
    Bounded,
    Val(E),
    Refused,
}

fn answer(r: Result<LimitExpression, sym::NoValidLimitFound>) -> A {
    match r {
        Ok(l) => kind(&l),
        Err(_) => A::Refused,
    }
}

fn kind(l: &LimitExpression) -> A {
    match l {
        LimitExpression::Infinitesimal => A::Zero,
        LimitExpression::Infinity => A::Inf,
        LimitExpression::BoundedFluctuation => A::Bounded,
        LimitExpression::Normal(e) => A::Val(read(e)),
    }
}

fn same_answer(a: &A, b: &A) -> bool {
    match (a, b) {
        (A::Zero, A::Zero) | (A::Inf, A::Inf) | (A::Bounded, A::Bounded) | (A::Refused, A::Refused) => true,
        (A::Val(x), A::Val(y)) => x.same(y),
        _ => false,
    }
}

/// The limit, or None where the code says that an operation is not implemented.
fn limit(e: &E, by: &str, at: &E, order: u64, form: bool) -> Result<Option<A>, Stop> {
    let r = guard(|| {
        if form {
            answer(sym::limit_expression(build(e), build(&var(by)), build(at), order))
        } else {
            answer(sym::limit_variable(build(e), &Variable::new_variable(by), build(at), order))
        }
    });
    match r {
        Ok(a) => Ok(Some(a)),
        Err(m) if m.contains("not yet implemented") => Ok(None),
        Err(m) if is_overflow(&m) => Err(Stop::Discard("overflow panic")),
        Err(m) => Err(Stop::Fail(format!("the limit of {e} as {by} tends to {at} panicked: {m}"))),
    }
}

fn supported(e: &E) -> bool {
    !e.any(&mut |x| match x {
        E::Int(_) | E::Rat(..) | E::Pi | E::Eul | E::Real(_) | E::Var(_) => false,
        E::Un(u, _) => !matches!(u, U::Neg | U::Sin | U::Cos),
        E::Bin(b, ..) => *b == B::Pow,
    })
}

fn point(t: &mut Tape) -> E {
    match t.weighted(&[6, 4, 2]) {
        0 => E::Int(0),
        1 => E::Int(*t.pick(&[1, -1, 2, 3, -2])),
        _ => gen::small_rat(t),
    }
}

fn limit_cfg(t: &mut Tape) -> Cfg {
    Cfg {
        vars: vec!["x"],
        var_w: 6,
        un: vec![(U::Neg, 3), (U::Sin, 4), (U::Cos, 3)],
        bin: vec![(B::Add, 3), (B::Sub, 3), (B::Mul, 4), (B::Div, if t.chance(60) { 5 } else { 2 })],
        lits: if t.chance(15) { [6, 2, 0, 2, 1] } else { [6, 2, 0, 0, 0] },
        int_pow: 0,
        nonneg_pow: true,
        reuse: 10,
    }
}

/// Something that tends to zero at `a` with a known order, free of divisions.
pub fn vanishing(t: &mut Tape, a: &E, c: &Cfg) -> E {
    let zero = matches!(a.lit_q(), Some(q) if q.is_zero());
    let h = match t.weighted(&[5, 2, 1]) {
        0 if zero => var("x"),
        0 => bin(B::Sub, var("x"), a.clone()),
        1 => bin(B::Sub, a.clone(), var("x")),
        _ => bin(B::Mul, E::Int(*t.pick(&[2, -1, 3])), bin(B::Sub, var("x"), a.clone())),
    };
    let m = t.weighted(&[4, 3, 3, 2, 2, 2, 1, 1, 1]);
    match m {
        0 => h,
        1 => un(U::Sin, h),
        2 => bin(B::Sub, E::Int(1), un(U::Cos, h)),
        3 => bin(B::Mul, h.clone(), h),
        4 => bin(B::Mul, un(U::Sin, h.clone()), h),
        5 => bin(B::Mul, h.clone(), bin(B::Mul, h.clone(), h)),
        6 => bin(B::Sub, h.clone(), un(U::Sin, h)),
        7 => bin(B::Mul, h.clone(), bin(B::Sub, un(U::Cos, h), E::Int(1))),
        _ => {
            let n = 1 + t.below(3) as usize;
            bin(B::Mul, h, division_free(t, c, n))
        }
    }
}

fn division_free(t: &mut Tape, c: &Cfg, n: usize) -> E {
    let mut c = c.clone();
    c.bin.retain(|x| x.0 != B::Div);
    gen::expr(t, &c, n)
}

fn gen_c18(t: &mut Tape) -> Case {
    let c = limit_cfg(t);
    let a = if t.chance(6) { t.pick(&[E::Pi, E::Eul]).clone() } else { point(t) };
    let a = if t.chance(5) { unfolded(t, a) } else { a };
    let e = match t.weighted(&[5, 3, 2]) {
        0 => {
            let n = gen::size(t, 18);
            gen::expr(t, &c, n)
        }
        1 => {
            // A quotient of things that vanish, or of their reciprocals.
            let (u, v) = (vanishing(t, &a, &c), vanishing(t, &a, &c));
            match t.weighted(&[4, 2, 2, 2]) {
                0 => bin(B::Div, u, v),
                1 => bin(B::Mul, u, bin(B::Div, E::Int(1), v)),
                2 => bin(B::Sub, bin(B::Div, E::Int(1), u), bin(B::Div, E::Int(1), v)),
                _ => bin(B::Div, bin(B::Div, E::Int(1), u), bin(B::Div, E::Int(2), v)),
            }
        }
        _ => {
            // Oscillation next to something else.
            let v = vanishing(t, &a, &c);
            let osc = un(*t.pick(&[U::Sin, U::Cos]), bin(B::Div, E::Int(1), v));
            let o = match t.weighted(&[5, 2, 2, 2, 2]) {
                3 => osc.clone(),
                4 => {
                    let E::Un(_, a) = &osc else { unreachable!() };
                    let other = un(*t.pick(&[U::Sin, U::Cos]), (**a).clone());
                    match t.weighted(&[2, 1, 1]) {
                        0 => other,
                        1 => bin(B::Add, E::Int(*t.pick(&[1, 2, -1])), other),
                        _ => bin(B::Mul, other.clone(), other),
                    }
                }
                0 => {
                    let n = 1 + t.below(3) as usize;
                    gen::expr(t, &c, n)
                }
                1 => bin(B::Div, E::Int(*t.pick(&[1, -2, 3])), vanishing(t, &a, &c)),
                _ => vanishing(t, &a, &c),
            };
            let b = c.bin[t.below(4) as usize].0;
            if t.chance(50) {
                bin(b, osc, o)
            } else {
                bin(b, o, osc)
            }
        }
    };
    let k = order(t, &e, &[3, 5, 3, 2, 1]);
    let c = Case::new(vec![e, a], vec![k]);
    renamed(t, c)
}

/// The parts of a case: expression, point, and the variable (x unless given).
fn parts(c: &Case) -> Option<(&E, &E, &str)> {
    let (e, at, by) = match &c.e[..] {
        [e, at] => (e, at, "x"),
        [e, at, E::Var(v)] => (e, at, v.as_str()),
        _ => return None,
    };
    let fine = proper(e) && supported(e) && proper(at) && !by.is_empty() && !by.contains(char::is_whitespace);
    let allowed = |k: &i64| (0..=5).contains(k) || ((6..=12).contains(k) && tall(e, by)) || (*k >= 0 && !divides(e));
    (fine && !at.has_var(by) && c.k.first().is_some_and(allowed)).then_some((e, at, by))
}

/// Whether something is divided by anything but a number: only then is anything derived.
fn divides(e: &E) -> bool {
    let fine = |r: &E| matches!(r, E::Pi | E::Eul) || r.lit_q().is_some_and(|q| !q.is_zero());
    e.any(&mut |x| matches!(x, E::Bin(B::Div, _, r) if !fine(r)))
}

/// Mostly a few derivations; as many as one likes where none is needed.
fn order(t: &mut Tape, e: &E, weights: &[u32]) -> i64 {
    if !divides(e) && t.chance(10) {
        return *t.pick(&[6, 7, 10, 20, 100, 1 << 20, i64::MAX]);
    }
    t.weighted(weights) as i64
}

/// The same point, not folded.
fn unfolded(t: &mut Tape, a: E) -> E {
    match t.below(5) {
        0 => bin(B::Add, E::Int(0), a),
        1 => bin(B::Mul, a, E::Int(1)),
        2 => un(U::Neg, un(U::Neg, a)),
        3 => bin(B::Div, bin(B::Mul, E::Int(2), a), E::Int(2)),
        _ => bin(B::Sub, bin(B::Add, a, E::Int(1)), E::Int(1)),
    }
}

/// A quotient of products of a few simple factors: cheap enough to derive more often than that.
fn tall(e: &E, by: &str) -> bool {
    fn factors(e: &E, n: &mut usize, sines: &mut usize) -> bool {
        match e {
            E::Un(U::Neg, a) => factors(a, n, sines),
            E::Bin(B::Mul, l, r) => factors(l, n, sines) && factors(r, n, sines),
            E::Un(U::Sin, a) => {
                *n += 1;
                *sines += 1;
                a.size() <= 3
            }
            e => {
                *n += 1;
                e.size() <= 3 && !e.any(&mut |x| matches!(x, E::Un(..)))
            }
        }
    }
    let fine = |e: &E| {
        let (mut n, mut sines) = (0, 0);
        factors(e, &mut n, &mut sines) && n <= 7 && sines <= 1
    };
    matches!(e, E::Bin(B::Div, u, v) if fine(u) && fine(v) && u.has_var(by) && v.has_var(by))
}

/// A quotient of such products, of order up to 7.
fn gen_tall(t: &mut Tape, a: &E) -> Case {
    let zero = matches!(a.lit_q(), Some(q) if q.is_zero());
    let h = match t.below(3) {
        0 | 1 if zero => var("x"),
        0 | 1 => bin(B::Sub, var("x"), a.clone()),
        _ => bin(B::Sub, a.clone(), var("x")),
    };
    let least = 4 + t.below(3) as usize;
    let (p, q) = if t.chance(50) { (least, least + t.below(2) as usize) } else { (least + t.below(2) as usize, least) };
    let side = |t: &mut Tape, n: usize| {
        let mut sines = 0;
        let mut e: Option<E> = None;
        for _ in 0..n {
            let f = if sines < 1 && t.chance(20) {
                sines += 1;
                un(U::Sin, h.clone())
            } else {
                h.clone()
            };
            e = Some(match e {
                None => f,
                Some(e) if t.chance(70) => bin(B::Mul, e, f),
                Some(e) => bin(B::Mul, f, e),
            });
        }
        let e = e.expect("at least one factor");
        match t.weighted(&[5, 2, 1]) {
            1 if n < 7 => bin(B::Mul, E::Int(*t.pick(&[2, 3, -1, 5])), e),
            2 => un(U::Neg, e),
            _ => e,
        }
    };
    let (u, v) = (side(t, p), side(t, q));
    Case::new(vec![bin(B::Div, u, v), a.clone()], vec![t.range(least as i64 - 1, 12), 7])
}

/// Now and then another name for the variable.
fn renamed(t: &mut Tape, mut c: Case) -> Case {
    if t.chance(12) {
        let v = var(*t.pick(&["t", "y", "x1", "x'", "xx", "X"]));
        if !c.e.iter().any(|e| e.any(&mut |x| *x == v)) {
            c.e[0] = c.e[0].subst("x", &v);
            c.e.push(v);
        }
    }
    c
}

const BIG: usize = 40;

// ---- C18 ----

fn c18(c: &Case, o: &mut Obs) -> Verdict {
    let Some((e, at, by)) = parts(c) else { discard!("malformed") };
    let irrational = |x: &E| matches!(x, E::Pi | E::Eul);
    if e.size() > BIG || e.vars().iter().any(|v| v != by) || e.any(&mut |x| matches!(x, E::Real(_))) || !(eval_q(at, &[]).is_some() || irrational(at)) {
        discard!("outside the domain");
    }
    let Some(p) = N::literal(at).or_else(|| eval_q(at, &[]).map(N::Q)) else { discard!("malformed") };
    let Some(a) = limit(e, by, at, c.k[0] as u64, false)? else { discard!("not implemented") };
    let form = limit(e, by, at, c.k[0] as u64, true)?;
    if !form.as_ref().is_some_and(|f| same_answer(f, &a)) {
        fail!("the limit of {e} as {by} tends to {at} is {a:?} or {form:?} depending on how the variable is passed (order {})", c.k[0]);
    }
    let behaviour = laurent::laurent(e, by, &p);
    let truth = behaviour.lim();
    match (&a, &truth) {
        (A::Refused, Lim::Wild) => {
            o.label("neither bounded nor infinite, refused");
            o.hit();
        }
        (A::Refused, _) => o.label("refused"),
        (A::Inf | A::Val(_), Lim::Unknown) if behaviour.zeros() => {
            fail!("{e} has zeros as near to {at} as one likes, its limit there is reported as {a:?}")
        }
        // Nothing known to compare with; but an exact zero is never a nonzero value.
        (A::Val(v), _) if eval_q(v, &[]).is_some_and(|q| q.is_zero()) => {
            fail!("the limit of {e} as {by} tends to {at} is reported as a nonzero value, {v}")
        }
        (_, Lim::Unknown | Lim::Bounded) => {
            let claim = match &a {
                A::Zero => Claim::Tends(0.0),
                A::Inf => Claim::Infinite,
                A::Bounded => Claim::Bounded,
                A::Val(v) => match ev::eval(v, &[], true) {
                    Ok(v) => Claim::Tends(v.v),
                    Err(_) => discard!("the value reported has none that is certain"),
                },
                A::Refused => unreachable!(),
            };
            // A sine of something that tends to 1, say, is an irrational constant in disguise.
            let disguised = e.any(&mut |x| match x {
                E::Un(U::Sin | U::Cos, a) => match laurent::laurent(a, by, &p).lim() {
                    Lim::Val(v) => !v.is_zero(),
                    Lim::Inf | Lim::Osc | Lim::Wild => false,
                    Lim::Bounded | Lim::Unknown => true,
                },
                _ => false,
            });
            if disguised {
                discard!("true limit not known");
            }
            let near = p.ev().filter(|p| p.e == 0.0 || eval_q(at, &[]).is_some()).map(|p| p.v);
            if let Some(why) = near.and_then(|p| sample::refute(e, by, p, &claim)) {
                fail!("the limit of {e} as {by} tends to {at} is reported as {a:?}, yet {why}");
            }
            if matches!(truth, Lim::Bounded) {
                if matches!(a, A::Inf) {
                    fail!("the limit of {e} as {by} tends to {at} is bounded, reported as {a:?}");
                }
                o.label("bounded, undecided");
            } else {
                o.label("judged by samples only");
            }
        }
        (A::Zero, Lim::Val(q)) if q.is_zero() => {
            o.label("zero");
            if e.size() > 1 {
                o.hit();
            }
        }
        (A::Inf, Lim::Inf) => {
            o.label("infinite");
            o.hit();
        }
        (A::Bounded, Lim::Osc) => {
            o.label("bounded, oscillating");
            o.hit();
        }
        (A::Bounded, Lim::Val(_)) => o.label("bounded, converges"),
        (A::Val(v), Lim::Val(N::Q(q))) => match eval_q(v, &[]) {
            Some(w) if w == *q => {
                o.label("value");
                if e.size() > 1 {
                    o.hit();
                }
            }
            Some(w) => fail!("the limit of {e} as {by} tends to {at} is {}, reported as {v}, that is {}", q.show(), w.show()),
            None => match ev::eval(v, &[], true) {
                Ok(w) => match ev::compare(Ok(Ev::exact(q.to_f64())), Ok(w)) {
                    Cmp::Differ => fail!("the limit of {e} as {by} tends to {at} is {}, reported as {v}", q.show()),
                    _ => o.label("value, numerically"),
                },
                Err(_) => fail!("the limit of {e} as {by} tends to {at} is {}, reported as {v}", q.show()),
            },
        },
        (A::Val(v), Lim::Val(n)) => match ev::compare(n.ev().ok_or(ev::No::Unknown), ev::eval(v, &[], true)) {
            Cmp::Differ => fail!("the limit of {e} as {by} tends to {at} is {}, reported as {v}", n.show()),
            Cmp::Same => {
                o.label("irrational value");
                o.hit();
            }
            _ => o.label("value too uncertain"),
        },
        _ => fail!("the limit of {e} as {by} tends to {at} is {truth:?}, reported as {a:?} (order {})", c.k[0]),
    }
    Ok(())
}

fn small_c18(thorough: bool, f: &mut dyn FnMut(Case)) {
    let us = [U::Neg, U::Sin, U::Cos];
    let bs = [B::Add, B::Sub, B::Mul, B::Div];
    let leaves = [var("x"), E::Int(1), E::Int(0), E::Int(-2), E::Rat(false, 1, 2)];
    for (at, order) in [(E::Int(0), 1), (E::Int(1), 1), (E::Rat(true, 1, 2), 2), (E::Int(0), 0)] {
        all_up_to(4, &leaves, &us, &bs, &mut |e| f(Case::new(vec![e, at.clone()], vec![order])));
    }
    for at in [E::Int(0), E::Int(1)] {
        all_of_size(5, &[var("x"), E::Int(1)], &us, &bs, &mut |e| f(Case::new(vec![e, at.clone()], vec![1])));
    }
    if thorough {
        all_of_size(6, &[var("x"), E::Int(1)], &us, &bs, &mut |e| f(Case::new(vec![e, E::Int(0)], vec![1])));
        all_of_size(7, &[var("x")], &us, &bs, &mut |e| f(Case::new(vec![e, E::Int(0)], vec![1])));
    }
}

// ---- C19 ----

fn gen_c19(t: &mut Tape) -> Case {
    let mut c = limit_cfg(t);
    let a = point(t);
    if t.below(250) == 0 {
        return gen_tall(t, &a);
    }
    if t.chance(50) {
        if t.chance(20) {
            c.vars = vec!["x", "x", "y", "xy"];
        }
        if t.chance(20) {
            c.lits = [4, 2, 2, 1, 1];
        }
        let a = match t.weighted(&[14, 1, 1, 1, 1, 1, 1]) {
            0 => a,
            1 => E::Pi,
            2 => E::Eul,
            3 => gen::eighth(t),
            4 => var(t.pick(&["a", "y", "x1"])),
            // Not folded.
            5 => bin(*t.pick(&[B::Add, B::Sub, B::Mul]), gen::small_rat(t), a),
            _ => {
                let c = Cfg { vars: vec!["a"], ..c.clone() };
                gen::expr(t, &c, 4)
            }
        };
        let n = gen::size(t, 14);
        let e = gen::expr(t, &c, n);
        let k = order(t, &e, &[4, 3, 1, 1, 1, 1]);
        let c = Case::new(vec![e, a], vec![k, t.range(1, 60), t.range(-40, 40), t.range(1, 100)]);
        return renamed(t, c);
    }
    let a = if t.chance(5) { unfolded(t, a) } else { a };
    let (mut u, mut v) = (vanishing(t, &a, &c), vanishing(t, &a, &c));
    for w in [&mut u, &mut v] {
        match t.weighted(&[5, 2, 2, 1, 1]) {
            0 => {}
            4 => *w = bin(B::Mul, w.clone(), vanishing(t, &a, &c)),
            1 => *w = bin(B::Add, w.clone(), vanishing(t, &a, &c)),
            2 => *w = un(U::Neg, w.clone()),
            _ => {
                let n = 1 + t.below(4) as usize;
                *w = bin(B::Mul, division_free(t, &c, n), w.clone());
            }
        }
    }
    let mut e = bin(B::Div, u, v);
    // Part of something larger.
    while t.chance(25) {
        let n = 1 + t.below(5) as usize;
        let other = match t.weighted(&[3, 3, 2]) {
            0 => gen::expr(t, &c, n),
            1 => bin(B::Div, vanishing(t, &a, &c), vanishing(t, &a, &c)),
            _ => bin(B::Div, E::Int(t.range(1, 3)), vanishing(t, &a, &c)),
        };
        let b = c.bin[t.weighted(&[3, 3, 4, 2])].0;
        e = match t.weighted(&[3, 3, 1, 1, 1]) {
            0 => bin(b, e, other),
            1 => bin(b, other, e),
            2 => un(U::Neg, e),
            3 => un(U::Sin, e),
            _ => un(U::Cos, e),
        };
    }
    let c = Case::new(vec![e, a], vec![t.weighted(&[1, 5, 5, 4, 1, 1]) as i64, 7]);
    renamed(t, c)
}

/// Whether plugging in the point settles the limit: every intermediate value is exactly known or
/// certainly not zero, and no divisor is zero. The value itself, and whether it is exactly zero.
fn plug_in(e: &E, env: &[(&str, Ev)], q: &[(&str, Q)], by: &str) -> Option<(Ev, bool)> {
    let mut ok = true;
    let mut zero_divisor = false;
    e.any(&mut |x| {
        let foreign = x.vars().iter().any(|v| v != by);
        let exact = if foreign { None } else { eval_q(x, q) };
        match exact {
            Some(_) => {}
            None => match ev::eval(x, &env, false) {
                Ok(v) if v.definitely_nonzero() && v.v.abs() > 1e-6 => {}
                _ => ok = false,
            },
        }
        if let E::Bin(B::Div, _, r) = x {
            if eval_q(r, q).is_some_and(|r| r.is_zero()) {
                zero_divisor = true;
            }
        }
        false
    });
    if !ok || zero_divisor {
        return None;
    }
    let foreign = e.vars().iter().any(|v| v != by);
    let zero = !foreign && eval_q(e, q).is_some_and(|q| q.is_zero());
    Some((ev::eval(e, &env, false).ok()?, zero))
}

fn c19(c: &Case, o: &mut Obs) -> Verdict {
    let Some((e, at, by)) = parts(c) else { discard!("malformed") };
    if e.size() > BIG || at.size() > 8 {
        discard!("outside the domain");
    }
    let order = c.k[0] as u64;
    // Every other variable stands for some number, so that values can be compared.
    let mut foreign: Vec<String> = e.vars();
    foreign.extend(at.vars());
    foreign.retain(|v| v != by);
    foreign.sort();
    foreign.dedup();
    let mut envir = env(&foreign, &c.k, 1);
    let Ok(pe) = ev::eval(at, &envir, false) else { discard!("the point has no certain value") };
    let mut q: Vec<(&str, Q)> = vec![];
    let p = eval_q(at, &[]);
    match &p {
        Some(p) => q.push((by, p.clone())),
        // A point that is not known exactly may be zero.
        None if at.is_num() || plug_in(at, &envir, &[], "").is_some_and(|x| !x.1) => {}
        None => discard!("the point has no certain value"),
    }
    envir.push((by, pe));
    let env = envir;
    let place = Place { order, by, at: p.clone(), env: &env, q: &q };
    let continuous = plug_in(e, &env, &q, by).is_some();
    let Some(want) = place.settled(e, o) else { discard!("neither continuous nor settled by its parts") };
    let mut seen: Option<A> = None;
    for form in [false, true] {
        let Some(a) = limit(e, by, at, order, form)? else { discard!("not implemented") };
        match (&a, &want) {
            (A::Zero, D::Zero) | (A::Inf, D::Inf) | (A::Bounded, D::Bounded) => {}
            (A::Val(v), D::Val(w, exact)) => {
                if let (Some(w), Some(v)) = (exact, eval_q(v, &q)) {
                    if v != *w {
                        fail!("the limit of {e} as {by} tends to {at} is {}, reported as {v:?}", w.show());
                    }
                }
                match ev::compare(Ok(*w), ev::eval(v, &env, true)) {
                    Cmp::Same => {}
                    Cmp::Weak => o.label("value too uncertain"),
                    // What hangs on the last digits of a real may differ in them.
                    Cmp::Unknown if v.any(&mut |x| matches!(x, E::Real(_))) => o.label("value too uncertain"),
                    _ => fail!("the limit of {e} as {by} tends to {at} is {w:?}, reported as {v}"),
                }
            }
            _ => fail!("the limit of {e} as {by} tends to {at} is {want:?} within order {order}, reported as {a:?}"),
        }
        if let Some(s) = &seen {
            if !same_answer(s, &a) {
                fail!("the limit of {e} as {by} tends to {at} is {s:?} or {a:?} depending on how the variable is passed");
            }
        }
        seen = Some(a);
    }
    match (&want, continuous) {
        (D::Zero, true) => o.label("continuous, zero"),
        (_, true) => o.label("continuous, value"),
        (D::Zero, _) => o.label("settled by derivation or parts: zero"),
        (D::Inf, _) => o.label("settled by derivation or parts: infinite"),
        (D::Bounded, _) => o.label("settled by derivation or parts: bounded"),
        _ => o.label("settled by derivation or parts: value"),
    }
    if e.size() > 2 && e.has_var(by) {
        o.hit();
    }
    if p.is_none() {
        o.label(if at.is_num() { "irrational or real point" } else { "symbolic point" });
    }
    if by != "x" {
        o.label("another variable");
    }
    Ok(())
}

/// What a limit must come out as.
#[derive(Clone, Debug)]
enum D {
    Zero,
    Inf,
    Bounded,
    /// Certainly not zero; exactly known or not.
    Val(Ev, Option<Q>),
}

fn value(v: Ev, q: Option<Q>) -> Option<D> {
    match &q {
        Some(q) if q.is_zero() => Some(D::Zero),
        Some(_) => Some(D::Val(v, q)),
        None => (v.definitely_nonzero() && v.v.abs() > 1e-6).then_some(D::Val(v, None)),
    }
}

struct Place<'a> {
    order: u64,
    by: &'a str,
    at: Option<Q>,
    env: &'a [(&'a str, Ev)],
    q: &'a [(&'a str, Q)],
}

impl Place<'_> {
    /// The limit, where plugging in, a few derivations of a quotient, or the limits of the parts settle it.
    fn settled(&self, e: &E, o: &mut Obs) -> Option<D> {
        if let Some((v, zero)) = plug_in(e, self.env, self.q, self.by) {
            return if zero { Some(D::Zero) } else { value(v, eval_q(e, self.q)) };
        }
        match e {
            E::Un(u, a) => {
                let a = self.settled(a, o)?;
                o.label("function of a settled part");
                match (u, a) {
                    (U::Neg, D::Val(v, q)) => Some(D::Val(v.neg(), q.map(|q| q.neg()))),
                    (U::Neg, k) => Some(k),
                    (U::Sin, D::Zero) => Some(D::Zero),
                    (U::Cos, D::Zero) => Some(D::Val(Ev::exact(1.0), Some(Q::one()))),
                    (U::Sin | U::Cos, D::Inf | D::Bounded) => Some(D::Bounded),
                    (U::Sin, D::Val(v, _)) => value(v.sin().ok()?, None),
                    (U::Cos, D::Val(v, _)) => value(v.cos().ok()?, None),
                    _ => None,
                }
            }
            E::Bin(b, l, r) => {
                if let (B::Div, Some(x)) = (b, self.derived(e, l, r, o)) {
                    return Some(x);
                }
                let (kl, kr) = (self.settled(l, o)?, self.settled(r, o)?);
                // Tending to zero is one thing, being zero throughout another.
                if *b == B::Div && matches!(kr, D::Zero) {
                    let at = N::Q(self.at.clone()?);
                    if !matches!(laurent::laurent(r, self.by, &at), L::S(_)) {
                        return None;
                    }
                }
                let x = combined(*b, kl, kr)?;
                o.label("combined from settled parts");
                Some(x)
            }
            _ => None,
        }
    }

    /// A quotient whose parts both vanish there, to no more than the allowed order.
    fn derived(&self, e: &E, n: &E, d: &E, o: &mut Obs) -> Option<D> {
        let p = self.at.as_ref()?;
        let constant = |y: &E| y.lit_q().is_some_and(|q| !q.is_zero());
        let unfit = |y: &E| match y {
            E::Bin(B::Div, _, r) => !constant(r),
            E::Pi | E::Eul | E::Real(_) => true,
            E::Var(v) => v != self.by,
            _ => false,
        };
        if n.any(&mut |y| unfit(y)) || d.any(&mut |y| unfit(y)) {
            return None;
        }
        let pn = N::Q(p.clone());
        let (sn, L::S(sd)) = (laurent::laurent(n, self.by, &pn), laurent::laurent(d, self.by, &pn)) else {
            return None;
        };
        let least = match &sn {
            L::Zero => sd.v,
            L::S(s) => s.v.min(sd.v),
            _ => return None,
        };
        // All derivatives taken on the way have to stay in the exact class too.
        if least < 1 || least > self.order as i32 || !rational_at(n, self.q) || !rational_at(d, self.q) {
            return None;
        }
        o.label(match least {
            1 => "0/0, order 1",
            2 => "0/0, order 2",
            3 => "0/0, order 3",
            4 | 5 => "0/0, order 4 or 5",
            _ => "0/0, order 6 or more",
        });
        match laurent::laurent(e, self.by, &pn).lim() {
            Lim::Inf => Some(D::Inf),
            Lim::Val(N::Q(q)) => value(N::Q(q.clone()).ev()?, Some(q)),
            _ => None,
        }
    }
}

/// The kind two kinds determine, if they do.
fn combined(b: B, l: D, r: D) -> Option<D> {
    use D::*;
    let exact = |p: &Option<Q>, q: &Option<Q>, f: &dyn Fn(&Q, &Q) -> Option<Q>| match (p, q) {
        (Some(p), Some(q)) => f(p, q),
        _ => None,
    };
    match b {
        B::Add => match (l, r) {
            (Zero, o) | (o, Zero) => Some(o),
            (Inf, Inf) => None,
            (Inf, _) | (_, Inf) => Some(Inf),
            (Val(v, p), Val(w, q)) => value(v.add(w).ok()?, exact(&p, &q, &|p, q| Some(p.add(q)))),
            _ => Some(Bounded),
        },
        B::Sub => {
            let r = match r {
                Val(v, q) => Val(v.neg(), q.map(|q| q.neg())),
                k => k,
            };
            combined(B::Add, l, r)
        }
        B::Mul => match (l, r) {
            (Zero, Inf) | (Inf, Zero) | (Inf, Bounded) | (Bounded, Inf) => None,
            (Zero, _) | (_, Zero) => Some(Zero),
            (Inf, _) | (_, Inf) => Some(Inf),
            (Val(v, p), Val(w, q)) => value(v.mul(w).ok()?, exact(&p, &q, &|p, q| Some(p.mul(q)))),
            _ => Some(Bounded),
        },
        B::Div => match (l, r) {
            (Zero, Zero) | (Inf, Inf) | (_, Bounded) | (Bounded, Zero) => None,
            (_, Zero) => Some(Inf),
            (_, Inf) => Some(Zero),
            (Zero, _) => Some(Zero),
            (Inf, _) => Some(Inf),
            (Bounded, _) => Some(Bounded),
            (Val(v, p), Val(w, q)) => value(v.div(w).ok()?, exact(&p, &q, &|p, q| p.div(q))),
        },
        B::Pow => None,
    }
}

/// Every argument of a sine or cosine vanishes at the point, so that all derivatives are rational.
fn rational_at(e: &E, q: &[(&str, Q)]) -> bool {
    !e.any(&mut |x| match x {
        E::Un(U::Sin | U::Cos, a) => !eval_sc(a, q).is_some_and(|v| v.is_zero()),
        _ => false,
    })
}

/// As eval_q, with the sine and cosine of zero.
fn eval_sc(e: &E, q: &[(&str, Q)]) -> Option<Q> {
    match e {
        E::Un(U::Neg, a) => Some(eval_sc(a, q)?.neg()),
        E::Un(u @ (U::Sin | U::Cos), a) => {
            if !eval_sc(a, q)?.is_zero() {
                return None;
            }
            Some(if *u == U::Cos { Q::one() } else { Q::zero() })
        }
        E::Bin(b, l, r) => {
            let (l, r) = (eval_sc(l, q)?, eval_sc(r, q)?);
            match b {
                B::Add => Some(l.add(&r)),
                B::Sub => Some(l.sub(&r)),
                B::Mul => Some(l.mul(&r)),
                B::Div => l.div(&r),
                B::Pow => None,
            }
        }
        _ => eval_q(e, q),
    }
}

// ---- C20 ----

const OPS: [&str; 5] = ["+", "-", "*", "/", "neg"];

/// Operands are written as x (infinite), y (bounded), 0 (tends to zero) or anything certainly nonzero.
fn operand(e: &E) -> Option<LimitExpression> {
    Some(match e {
        E::Var(v) if v == "x" => LimitExpression::Infinity,
        E::Var(v) if v == "y" => LimitExpression::BoundedFluctuation,
        _ if e.lit_q().is_some_and(|q| q.is_zero()) => LimitExpression::Infinitesimal,
        _ if nonzero(e) => LimitExpression::Normal(build(e)),
        _ => return None,
    })
}

/// What the variables in values stand for.
const STAND: [[f64; 4]; 3] = [[1.75, -0.625, 3.5, 0.25], [-2.5, 1.125, -0.375, 5.0], [0.75, 2.25, 1.5, -3.25]];
const VALUES: [&str; 4] = ["a", "b", "c1", "u"];

fn standings() -> impl Iterator<Item = Vec<(&'static str, Ev)>> {
    STAND.iter().map(|s| VALUES.iter().zip(s).map(|(n, v)| (*n, Ev::exact(*v))).collect())
}

fn nonzero(e: &E) -> bool {
    if e.any(&mut |x| matches!(x, E::Var(n) if !VALUES.contains(&n.as_str()))) {
        return false;
    }
    match eval_q(e, &[]) {
        Some(q) => !q.is_zero(),
        None => standings().all(|env| ev::eval(e, &env, true).is_ok_and(|v| v.definitely_nonzero())),
    }
}

/// Whether `got` has the value of `want`, whatever the variables stand for; None if too uncertain.
fn agrees(want: &E, got: &E) -> Option<bool> {
    match (eval_q(want, &[]), eval_q(got, &[])) {
        (Some(a), Some(b)) => return Some(a == b),
        _ if want == got => return Some(true),
        _ => {}
    }
    let mut sure = false;
    for env in standings() {
        match ev::compare(ev::eval(want, &env, false), ev::eval(got, &env, true)) {
            Cmp::Differ => return Some(false),
            Cmp::Same => sure = true,
            _ => {}
        }
    }
    if sure {
        Some(true)
    } else {
        None
    }
}

#[derive(Clone, Debug, PartialEq)]
enum K {
    Zero,
    Inf,
    Bounded,
    Val(E),
}

fn class(l: &LimitExpression) -> Option<K> {
    Some(match kind(l) {
        A::Zero => K::Zero,
        A::Inf => K::Inf,
        A::Bounded => K::Bounded,
        A::Val(e) => K::Val(e),
        A::Refused => return None,
    })
}

/// What may be answered; None stands for a refusal.
fn table(op: usize, l: &K, r: &K) -> Vec<Option<K>> {
    use K::*;
    match op {
        0 => match (l, r) {
            (Zero, o) | (o, Zero) => vec![Some(o.clone())],
            (Inf, Inf) => vec![None],
            (Inf, _) | (_, Inf) => vec![Some(Inf)],
            (Val(a), Val(b)) => vec![Some(Val(bin(B::Add, a.clone(), b.clone())))],
            _ => vec![Some(Bounded)],
        },
        1 => match r {
            Val(b) => table(0, l, &Val(un(U::Neg, b.clone()))),
            _ => table(0, l, r),
        },
        2 => match (l, r) {
            (Zero, Inf) | (Inf, Zero) | (Inf, Bounded) | (Bounded, Inf) => vec![None],
            (Zero, _) | (_, Zero) => vec![Some(Zero)],
            (Inf, _) | (_, Inf) => vec![Some(Inf)],
            (Val(a), Val(b)) => vec![Some(Val(bin(B::Mul, a.clone(), b.clone())))],
            _ => vec![Some(Bounded)],
        },
        _ => match (l, r) {
            (Zero, Zero) | (Inf, Inf) => vec![None],
            (Inf, Bounded) => vec![None, Some(Inf)],
            (_, Bounded) => vec![None],
            (Bounded, Zero) => vec![None],
            (_, Zero) => vec![Some(Inf)],
            (_, Inf) => vec![Some(Zero)],
            (Zero, _) => vec![Some(Zero)],
            (Inf, _) => vec![Some(Inf)],
            (Bounded, _) => vec![Some(Bounded)],
            (Val(a), Val(b)) => vec![Some(Val(bin(B::Div, a.clone(), b.clone())))],
        },
    }
}

fn c20(c: &Case, o: &mut Obs) -> Verdict {
    if c.e.is_empty() || c.k.len() + 1 < c.e.len() || !c.e.iter().all(proper) || c.e.iter().any(|e| e.size() > 12) || c.e.len() > 8 {
        discard!("malformed");
    }
    let mut acc = match operand(&c.e[0]) {
        Some(x) => x,
        None => discard!("malformed"),
    };
    for (i, e) in c.e.iter().enumerate().skip(1) {
        let Some(r) = operand(e) else { discard!("malformed") };
        let op = c.k[i - 1].unsigned_abs() as usize % 10;
        let (op, swapped) = (op % 5, op >= 5);
        let (l, r) = if swapped { (r, acc) } else { (acc, r) };
        let (Some(kl), Some(kr)) = (class(&l), class(&r)) else { discard!("malformed") };
        let shown = |k: &K| match k {
            K::Val(e) => e.to_string(),
            k => format!("{k:?}"),
        };
        if op == 4 {
            let n = guard(|| -l).map_err(|m| if is_overflow(&m) { Stop::Discard("overflow panic") } else { Stop::Fail(format!("negating {kl:?} panicked: {m}")) })?;
            let same = match (&kl, class(&n)) {
                (K::Val(e), Some(K::Val(g))) => agrees(&un(U::Neg, e.clone()), &g),
                (K::Val(_), _) => Some(false),
                (k, g) => Some(g.as_ref() == Some(k)),
            };
            match same {
                Some(true) => {}
                Some(false) => fail!("the negative of {} came out as {n}", shown(&kl)),
                None => discard!("value too uncertain"),
            }
            if matches!(kl, K::Val(_)) {
                o.label("negation of a value");
            }
            acc = n;
            continue;
        }
        let res = guard(|| match op {
            0 => l + r,
            1 => l - r,
            2 => l * r,
            _ => l / r,
        })
        .map_err(|m| {
            if is_overflow(&m) {
                Stop::Discard("overflow panic")
            } else {
                Stop::Fail(format!("{} {} {} panicked: {m}", shown(&kl), OPS[op], shown(&kr)))
            }
        })?;
        let got = match &res {
            Ok(x) => match class(x) {
                Some(k) => Some(k),
                None => fail!("{} {} {} came out as {x}", shown(&kl), OPS[op], shown(&kr)),
            },
            Err(_) => None,
        };
        let mut uncertain = false;
        let allowed = table(op, &kl, &kr).iter().any(|w| match (w, &got) {
            (Some(K::Val(w)), Some(K::Val(g))) => agrees(w, g).unwrap_or_else(|| {
                uncertain = true;
                true
            }),
            (w, g) => w == g,
        });
        if !allowed {
            fail!("{} {} {} came out as {}", shown(&kl), OPS[op], shown(&kr), got.as_ref().map_or("a refusal".into(), shown));
        }
        if uncertain {
            discard!("value too uncertain");
        }
        o.label(match &got {
            None => "refused",
            Some(K::Val(e)) if eval_q(e, &[]).is_some() => "an exact value",
            Some(K::Val(e)) if e.is_num() => "a real value",
            Some(K::Val(_)) => "a value with variables or functions",
            Some(K::Zero) => "zero",
            Some(K::Inf) => "infinite",
            Some(K::Bounded) => "bounded",
        });
        o.hit();
        match (res, got) {
            // A value that may be zero is no longer a nonzero value: what follows is unspecified.
            (Ok(_), Some(K::Val(e))) if !nonzero(&e) => return Ok(()),
            (Ok(x), _) => acc = x,
            _ => return Ok(()),
        }
    }
    let shown = acc.to_string();
    let want = match &acc {
        LimitExpression::Infinitesimal => "0".to_string(),
        LimitExpression::Infinity => "infinity".to_string(),
        LimitExpression::BoundedFluctuation => "~".to_string(),
        LimitExpression::Normal(e) => e.to_string(),
    };
    if shown != want {
        fail!("the limit {:?} prints as {shown:?} rather than {want:?}", kind(&acc));
    }
    Ok(())
}

fn gen_c20(t: &mut Tape) -> Case {
    let n = 1 + t.below(5) as usize;
    let one = |t: &mut Tape| match t.weighted(&[4, 3, 2, 2, 2]) {
        0 => {
            if t.chance(50) {
                E::Int(gen::small_int(t))
            } else {
                gen::small_rat(t)
            }
        }
        1 => {
            // A value of any other kind.
            let mut c = Cfg::full();
            c.vars = VALUES.to_vec();
            let n = t.range(1, 5) as usize;
            gen::expr(t, &c, n)
        }
        2 => E::Int(0),
        3 => var("x"),
        _ => var("y"),
    };
    let mut e: Vec<E> = (0..=n).map(|_| one(t)).collect();
    if t.chance(15) {
        // Values that print alike or differ in one place.
        let mut c = Cfg::full();
        c.vars = VALUES.to_vec();
        for i in 1..e.len() {
            if t.chance(50) && !matches!(&e[i - 1], E::Var(v) if !VALUES.contains(&v.as_str())) {
                e[i] = gen::near(t, &c, &e[i - 1].clone());
            }
        }
        if t.chance(40) {
            let v = gen::size(t, 4096) as f64 / 1000.0;
            let i = t.below(n as u64) as usize;
            (e[i], e[i + 1]) = (E::Real(v + 0.0001), E::Real(v + 0.0002));
        }
    }
    for e in e.iter_mut() {
        if operand(e).is_none() {
            *e = var("a");
        }
    }
    let k = (0..n).map(|_| t.below(10) as i64).collect();
    Case::new(e, k)
}

fn small_c20(_: bool, f: &mut dyn FnMut(Case)) {
    let xs = [E::Int(0), var("x"), var("y"), E::Int(1), E::Int(-3), E::Rat(false, 2, 4), E::Rat(true, 7, 3), E::Pi, E::Real(0.5), var("a"), un(U::Sin, E::Int(2))];
    for a in &xs {
        f(Case::new(vec![a.clone()], vec![]));
        for b in &xs {
            for op in 0..10 {
                f(Case::new(vec![a.clone(), b.clone()], vec![op]));
                for c in &xs {
                    for op2 in 0..10 {
                        f(Case::new(vec![a.clone(), b.clone(), c.clone()], vec![op, op2]));
                    }
                }
            }
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            rule: "Expressions in one variable over + - * / negation sin cos with integers and fractions, general ones of up to 18 nodes, quotients and differences of vanishing terms and their reciprocals, oscillating terms; all of up to 4 nodes enumerated at four points; each answer compared with the exact Laurent expansion or, where that does not know, with values ever closer to the point. Non-trivial: a compound expression was given a zero, infinite, bounded or exact value and the expansion confirms it.",
            tape: 90,
            gen: gen_c18,
            check: c18,
            small: small_c18,
            quick: 1_000_000,
            thorough: 8_000_000,
        },
        Prop {
            id: "C19",
            rule: "Half expressions of up to 14 nodes continuous at the point (checked by exact and interval evaluation), half quotients of terms vanishing to order 1 to 5, alone or as parts of something larger, now and then of products vanishing to order 4 to 7. Non-trivial: a compound expression containing the variable, or a quotient decided within the allowed order.",
            tape: 110,
            gen: gen_c19,
            check: c19,
            small: small_c18,
            quick: 1_000_000,
            thorough: 8_000_000,
        },
        Prop {
            id: "C20",
            rule: "Chains of up to five operations on limit kinds, the values being integers, fractions, reals, pi, e, variables and expressions, all chains of two operations over eleven operands enumerated, against the table of what each pair of kinds determines. Non-trivial: at least one binary operation was judged.",
            tape: 30,
            gen: gen_c20,
            check: c20,
            small: small_c20,
            quick: 8_000_000,
            thorough: 40_000_000,
        },
    ]
}
