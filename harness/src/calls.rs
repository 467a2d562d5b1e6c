//! C25: every call depends on its arguments alone.

use std::io::{Read as _, Write as _};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use oracle::expr::{bin, un, var, B, E, U};
use oracle::gen::{self, Cfg, Tape};
use oracle::runner::{guard, install_hook, Case, Obs, Prop, Verdict};
use oracle::{discard, fail};

use crate::bridge::{build, num_of};
use crate::compose::{apply, said, Out, OPS};
use crate::structure::proper;
use symbolic_rust::verif_api as sym;
use sym::{Expression, RationalNum, LimitExpression, Variable, IsClose as _, TaylorExpansion as _, ToRational as _};

const CALLS: i64 = OPS + 5;
const ARGS: i64 = 10;
const ROUNDS: usize = 3;
const CROWD: usize = 20_000;
/// For how long the threads go on at the least.
const BUSY: Duration = Duration::from_micros(2500);

fn decode(c: &Case, k: i64) -> (i64, usize, usize) {
    let k = k.rem_euclid(CALLS * ARGS * ARGS);
    let n = c.e.len();
    (k % CALLS, (k / CALLS % ARGS) as usize % n, (k / CALLS / ARGS) as usize % n)
}

/// Stands for a great many calls that fail, deep inside of expressions.
const STORM: i64 = -1;
/// Stands for making the other calls very many times.
const OFTEN: i64 = -2;
const MANY: usize = 66_000;

fn storm() {
    let most = || bin(B::Add, E::Int(i64::MAX), E::Int(1));
    let mut es = vec![];
    for b in [B::Add, B::Sub, B::Mul, B::Div, B::Pow] {
        for left in [true, false] {
            let mut e = most();
            for _ in 0..40 {
                e = if left { bin(b, e, var("x")) } else { bin(b, var("x"), e) };
            }
            es.push(e);
        }
    }
    for u in [U::Neg, U::Sin, U::Cos, U::Exp, U::Ln] {
        let mut e = bin(B::Mul, most(), var("x"));
        for _ in 0..40 {
            e = un(u, e);
        }
        es.push(e);
    }
    // Limits of exp and powers are not implemented.
    for b in [B::Add, B::Sub, B::Mul, B::Div] {
        let mut e = un(U::Exp, var("x"));
        for _ in 0..40 {
            e = bin(b, e, var("x"));
        }
        es.push(e);
    }
    let x = Variable::new_variable("x");
    for e in &es {
        let e = build(e);
        for _ in 0..100 {
            use sym::NumAggregate as _;
            let _ = guard(|| e.clone().num_aggregate());
        }
        for _ in 0..2 {
            let _ = guard(|| sym::derivative_by_variable(e.clone(), &x).is_ok());
            let _ = guard(|| sym::derivative_by(e.clone(), Expression::one()).is_ok());
            let _ = guard(|| sym::substitute(e.clone(), Expression::one(), Expression::zero()).is_ok());
            let _ = guard(|| e.clone().taylor_expansion(Expression::new_variable("x"), Expression::zero(), 1).is_ok());
        }
        for _ in 0..100 {
            let _ = guard(|| sym::limit_variable(e.clone(), &x, Expression::zero(), 1).is_ok());
        }
    }
    let (a, b) = (RationalNum::new(1, u64::MAX, 3), RationalNum::new(-1, u64::MAX - 1, 7));
    if let (Some(a), Some(b)) = (a, b) {
        for _ in 0..2000 {
            let _ = guard(|| a + b);
            let _ = guard(|| a - b);
            let _ = guard(|| a * b);
            let _ = guard(|| a / b);
        }
    }
}

/// One call, and all that its result shows.
fn one(c: &Case, k: i64) -> String {
    if k == STORM || k == OFTEN {
        return String::new();
    }
    let (op, i, j) = decode(c, k);
    let (a, b) = (&c.e[i], &c.e[j]);
    let r = guard(|| {
        let x = build(a);
        match op - OPS {
            0 => match x.taylor_expansion(Expression::new_variable("x"), build(b), (b.size() % 4) as u64) {
                Ok(p) => format!("{p} {:?}", p.coefficient.iter().map(said).collect::<Vec<_>>()),
                Err(e) => e.to_string(),
            },
            1 => format!("{x} {:?}", said(&x)),
            2 => match (x.near(&build(b), 0.5), num_of(&x), num_of(&build(b))) {
                (near, Some(m), Some(n)) => format!("{near:?} {} {}", m.is_close(n, 0.25), n.is_close(m, 1e-9)),
                (near, ..) => format!("{near:?}"),
            },
            3 => match (num_of(&x).and_then(|n| n.to_rational()), num_of(&build(b)).and_then(|n| n.to_rational())) {
                (Some(m), Some(n)) => format!("{} {} {:?} {}", m == n, m, m.reduce(), m.reduce() == n.reduce()),
                (m, n) => format!("{} {}", m.is_some(), n.is_some()),
            },
            4 => match sym::limit_variable(x, &Variable::new_variable("x"), Expression::zero(), j as u64 % 4) {
                Ok(LimitExpression::Normal(v)) => format!("{:?}", said(&v)),
                Ok(l) => l.to_string(),
                Err(_) => "no limit".into(),
            },
            _ => match apply(op, x, b) {
                Ok(Out::Got(x)) => format!("{:?}", said(&x)),
                Ok(Out::None(m)) => format!("none: {m}"),
                Ok(Out::Overflow) => "a panic".into(),
                Err(_) => "a panic".into(),
            },
        }
    });
    r.unwrap_or_else(|_| "a panic".into()).replace('\n', " ")
}

/// What the fractions among the expressions are to one another.
fn fractions(r: &[RationalNum], i: usize) -> String {
    let (a, b) = (r[i % r.len()], r[i / r.len() % r.len()]);
    format!("{:?} {:?} {:?} {} {}", a.reduce(), guard(|| a + b).ok(), guard(|| a * b).ok(), a == b, a.to_f64())
}

/// The same sums of fractions, over and over, by several threads at once.
fn crowd(c: &Case) -> Option<String> {
    let r: Vec<RationalNum> = c.e.iter().filter_map(|e| guard(|| num_of(&build(e))?.to_rational()).ok().flatten()).collect();
    if r.len() < 2 {
        return None;
    }
    let alone: Vec<String> = (0..r.len() * r.len()).map(|i| fractions(&r, i)).collect();
    let exact: Vec<RationalNum> = r.iter().map(|r| r.reduce()).collect();
    let (r, alone, exact) = (&r, &alone, &exact);
    std::thread::scope(|s| {
        let hands: Vec<_> = (0..4)
            .map(|t| {
                s.spawn(move || {
                    for round in 0..CROWD {
                        let i = (round + t) % r.len();
                        let x = r[i].reduce();
                        if (x.sign, x.nominator, x.denominator) != (exact[i].sign, exact[i].nominator, exact[i].denominator) {
                            return Some(format!("{} reduced is {x}, it was {}", r[i], exact[i]));
                        }
                        if round % 64 == 0 {
                            let i = (round / 64 + t) % alone.len();
                            let g = fractions(r, i);
                            if g != alone[i] {
                                return Some(format!("fractions are {g}, they were {}", alone[i]));
                            }
                        }
                    }
                    None
                })
            })
            .collect();
        hands.into_iter().find_map(|h| h.join().ok().flatten())
    })
}

fn fits(c: &Case) -> bool {
    !c.e.is_empty() && !c.k.is_empty() && c.k.len() <= 32 && c.e.len() <= ARGS as usize && c.e.iter().all(|e| proper(e) && e.size() <= 24)
}

/// The other process: the calls from the last to the first, then at once from several threads.
pub fn child() -> i32 {
    install_hook();
    let mut text = String::new();
    if std::io::stdin().read_to_string(&mut text).is_err() {
        return 3;
    }
    let Some(c) = Case::parse(&text) else { return 3 };
    if !fits(&c) {
        return 3;
    }
    let worker = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let n = c.k.len();
        let mut got = vec![String::new(); n];
        for i in (0..n).rev() {
            got[i] = one(&c, c.k[i]);
        }
        for g in &got {
            println!("{g}");
        }
        let (c, got) = (&c, &got);
        if let Some(w) = crowd(c) {
            println!("among threads {w}");
            return;
        }
        let wrong = std::thread::scope(|s| {
            let hands: Vec<_> = (0..4)
                .map(|t| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let from = Instant::now();
                            for round in 0.. {
                                if round >= ROUNDS && from.elapsed() > BUSY {
                                    break;
                                }
                                for i in 0..n {
                                    let i = (i * (1 + 2 * (t % 2)) + t + round) % n;
                                    let g = one(c, c.k[i]);
                                    if g != got[i] {
                                        return Some((i, g));
                                    }
                                }
                            }
                            None
                        })
                        .expect("a thread")
                })
                .collect();
            hands.into_iter().find_map(|h| h.join().ok().flatten())
        });
        if let Some((i, g)) = wrong {
            println!("among threads {i}: {g}");
        }
    });
    match worker.map(|w| w.join()) {
        Ok(Ok(())) => 0,
        _ => 3,
    }
}

fn c25(c: &Case, o: &mut Obs) -> Verdict {
    if !fits(c) {
        discard!("malformed");
    }
    // The other process does without these.
    if c.k.contains(&STORM) {
        storm();
    }
    let here: Vec<String> = c.k.iter().map(|k| one(c, *k)).collect();
    let again: Vec<String> = c.k.iter().map(|k| one(c, *k)).collect();
    let show = |i: usize| {
        let (op, a, b) = decode(c, c.k[i]);
        let what = crate::compose::NAMES.get(op as usize).copied().unwrap_or(["the printed expansion", "printed", "closeness", "as fractions", "the limit at 0 of some order"][(op - OPS).clamp(0, 4) as usize]);
        format!("{what}, of {} with {}", c.e[a], c.e[b])
    };
    for i in 0..here.len() {
        if here[i] != again[i] {
            fail!("call {i} ({}) gives {} at first and {} when repeated", show(i), here[i], again[i]);
        }
    }
    if c.k.contains(&OFTEN) {
        let x = Variable::new_variable("x");
        for n in 3..MANY {
            if n % 997 == 0 {
                // So that whatever counts calls is not in step with them.
                use sym::NumAggregate as _;
                let e = Expression::new_variable("x").num_aggregate();
                let _ = guard(|| sym::limit_variable(e.clone(), &x, Expression::zero(), 2).is_ok());
                let _ = guard(|| sym::derivative_by_variable(e.clone(), &x).is_ok());
                let _ = guard(|| sym::substitute(e.clone(), Expression::new_variable("x"), Expression::zero()).is_ok());
            }
            for i in 0..here.len() {
                let g = one(c, c.k[i]);
                if g != here[i] {
                    fail!("call {i} ({}) gives {} at first and {g} when made for the {n}th time", show(i), here[i]);
                }
            }
        }
        o.label("made very many times");
    }
    let me = std::env::current_exe().expect("the path of this program");
    let mut child = match Command::new(me).arg("--calls").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(_) => discard!("no process"),
    };
    let _ = child.stdin.take().expect("a pipe").write_all(c.text().as_bytes());
    let Ok(out) = child.wait_with_output() else { discard!("no process") };
    if !out.status.success() {
        discard!("the other process gave no answer");
    }
    let text = String::from_utf8_lossy(&out.stdout);
    let there: Vec<&str> = text.lines().collect();
    if there.len() < here.len() {
        discard!("the other process gave no answer");
    }
    for i in 0..here.len() {
        if here[i] != there[i] {
            fail!("call {i} ({}) gives {} after the calls before it, {} in a process of its own after those behind it", show(i), here[i], there[i]);
        }
    }
    if let Some(w) = there.get(here.len()) {
        fail!("calls made at once from several threads differ: {w}");
    }
    if here.len() > 1 && here.iter().any(|h| h != &here[0]) {
        o.hit();
    }
    if c.k.contains(&STORM) {
        o.label("after many failures");
    }
    let mut ops: Vec<i64> = c.k.iter().map(|k| decode(c, *k).0).collect();
    ops.sort();
    ops.dedup();
    if ops.len() < c.k.len() {
        o.label("one operation on several things");
    }
    let mut texts: Vec<String> = c.e.iter().filter_map(|e| guard(|| build(e).to_string()).ok()).collect();
    let n = texts.len();
    texts.sort();
    texts.dedup();
    if texts.len() < n {
        o.label("different expressions of equal text");
    }
    if here.iter().any(|h| h == "a panic") {
        o.label("with a panic");
    }
    Ok(())
}

/// Something easily mistaken for `e`.
fn twin(t: &mut Tape, e: &E) -> E {
    let n = t.below(e.size() as u64) as usize;
    let mut at = 0;
    twin_at(t, e, n, &mut at)
}

fn twin_at(t: &mut Tape, e: &E, n: usize, at: &mut usize) -> E {
    let me = *at;
    *at += 1;
    if me == n {
        return match e {
            E::Int(i) => match t.below(5) {
                0 => E::Rat(*i < 0, i.unsigned_abs(), 1),
                1 => E::Real(*i as f64),
                2 => E::Int(i.wrapping_neg().max(-i64::MAX)),
                3 => E::Rat(*i < 0, i.unsigned_abs().min(1 << 40) * 2, 2),
                _ => E::Int(i.saturating_add(1)),
            },
            E::Rat(s, p, q) => match t.below(3) {
                0 => E::Rat(!s, *p, *q),
                1 => E::Rat(*s, p.saturating_mul(2), q.saturating_mul(2)),
                _ => E::Rat(*s, *q, (*p).max(1)),
            },
            E::Real(v) => E::Real(v + *t.pick(&[1e-4, -1e-4, 1e-9, 1.0])),
            E::Pi => t.pick(&[E::Real(3.14159), E::Eul, var("pi"), E::Real(3.1415926)]).clone(),
            E::Eul => t.pick(&[E::Real(2.71828), E::Pi, var("e")]).clone(),
            E::Var(v) => match v.as_str() {
                "x" => t.pick(&[var("y"), var("X"), var("x1"), var("xx")]).clone(),
                _ => var("x"),
            },
            E::Un(u, a) => un(*t.pick(&[U::Neg, U::Sin, U::Cos, U::Exp, *u]), (**a).clone()),
            E::Bin(b, l, r) => match t.below(3) {
                0 => bin(*b, (**r).clone(), (**l).clone()),
                1 => bin(*t.pick(&[B::Add, B::Sub, B::Mul, B::Div, B::Pow]), (**l).clone(), (**r).clone()),
                _ => match &**l {
                    E::Bin(c, ll, lr) => bin(*c, (**ll).clone(), bin(*b, (**lr).clone(), (**r).clone())),
                    _ => bin(*b, (**r).clone(), (**r).clone()),
                },
            },
        };
    }
    match e {
        E::Un(u, a) => un(*u, twin_at(t, a, n, at)),
        E::Bin(b, l, r) => {
            let l = twin_at(t, l, n, at);
            bin(*b, l, twin_at(t, r, n, at))
        }
        e => {
            let _ = at;
            e.clone()
        }
    }
}

/// Constants (and names) that print alike, in one place of the same expression, by the same calls.
fn gen_alike(t: &mut Tape, c: &Cfg) -> Case {
    let v = gen::size(t, 4096) as f64 / 1000.0;
    let alike = [
        vec![E::Real(v + 0.0001), E::Real(v + 0.0002), E::Real(v - 0.0003)],
        vec![E::Pi, var("pi"), E::Real(3.14159)],
        vec![E::Eul, var("e"), E::Real(2.71828)],
        vec![E::Int(2), E::Rat(false, 2, 1), E::Real(2.0)],
        vec![E::Real(1e-6), E::Real(-1e-6), E::Real(2e-9)],
        vec![bin(B::Mul, var("x"), E::Real(v + 0.0001)), bin(B::Mul, var("x"), E::Real(v + 0.0002))],
    ];
    let alike = t.pick(&alike).clone();
    let n = gen::size(t, 9);
    let mut place = gen::expr(t, c, n);
    if !place.any(&mut |e| matches!(e, E::Var(v) if v == "y")) {
        let (u, b) = (*t.pick(&oracle::expr::UNARY), *t.pick(&oracle::expr::BINARY));
        place = un(u, bin(b, var("y"), place));
    }
    let mut e: Vec<E> = alike.iter().map(|a| place.subst("y", a)).collect();
    let n = e.len() as i64;
    e.push(t.pick(&[E::Int(0), var("x"), E::Int(1), var("y")]).clone());
    let other = if t.chance(60) { n } else { t.below(n as u64) as i64 };
    let mut k = vec![];
    for _ in 0..1 + t.below(8) {
        let op = t.below(CALLS as u64) as i64;
        for a in 0..n {
            k.push(op + CALLS * (a + ARGS * other));
        }
    }
    Case::new(e, k)
}

fn gen_c25(t: &mut Tape) -> Case {
    let c = Cfg {
        vars: vec!["x", "x", "x", "y"],
        lits: [5, 3, 3, 1, 1],
        ..Cfg::full()
    };
    if t.chance(35) {
        return gen_alike(t, &c);
    }
    let n = gen::size(t, 12);
    let mut e = vec![gen::expr(t, &c, n)];
    let more = 1 + t.below(5);
    for _ in 0..more {
        let x = match t.weighted(&[6, 1, 1]) {
            0 => {
                let i = t.below(e.len() as u64) as usize;
                let x = e[i].clone();
                twin(t, &x)
            }
            1 => t.pick(&[E::Int(0), E::Int(1), E::Pi, E::Int(2), var("x")]).clone(),
            _ => {
                let n = gen::size(t, 6);
                gen::expr(t, &c, n)
            }
        };
        e.push(x);
    }
    let mut k = vec![];
    let same = t.chance(60);
    let op = t.below(CALLS as u64) as i64;
    let other = t.below(ARGS as u64) as i64;
    for i in 0..2 + t.below(9) as i64 {
        let op = if same && !t.chance(20) { op } else { t.below(CALLS as u64) as i64 };
        let a = if t.chance(70) { i % e.len() as i64 } else { t.below(e.len() as u64) as i64 };
        let b = if t.chance(60) { other } else { t.below(ARGS as u64) as i64 };
        k.push(op + CALLS * (a + ARGS * b));
    }
    if t.chance(1) {
        k.insert(0, STORM);
    }
    Case::new(e, k)
}

fn small_c25(_: bool, f: &mut dyn FnMut(Case)) {
    // After many failures.
    for u in [U::Neg, U::Sin, U::Cos, U::Exp, U::Ln] {
        for b in [B::Add, B::Sub, B::Mul, B::Div, B::Pow] {
            let e = un(u, bin(b, bin(b, bin(B::Sub, E::Int(5), E::Int(3)), var("x")), bin(B::Add, E::Int(2), bin(b, E::Int(2), E::Int(1)))));
            let e = vec![e, bin(b, var("x"), E::Int(1)), bin(B::Sub, E::Int(3), E::Int(2))];
            let k = (0..CALLS).map(|op| op + CALLS * ARGS * (1 + op % 2));
            f(Case::new(e, std::iter::once(STORM).chain(k).collect()));
        }
    }
    // The same call very many times.
    let x = || var("x");
    let slow = bin(B::Div, bin(B::Sub, E::Int(1), un(U::Cos, x())), bin(B::Mul, x(), x()));
    let more = bin(B::Div, bin(B::Sub, un(U::Sin, x()), x()), bin(B::Mul, x(), bin(B::Mul, x(), x())));
    let half = bin(B::Mul, E::Rat(false, 3, 6), un(U::Exp, bin(B::Add, x(), E::Int(1))));
    for op in 0..CALLS {
        f(Case::new(vec![E::Rat(true, 3, 6), E::Rat(false, 1, 4)], vec![OFTEN, op + CALLS * ARGS]));
        f(Case::new(vec![half.clone(), x(), E::Int(0)], vec![OFTEN, op + CALLS * ARGS]));
        f(Case::new(vec![slow.clone(), x(), x(), x()], vec![OFTEN, op + CALLS * ARGS * 3]));
    }
    for e in [more, bin(B::Div, bin(B::Mul, x(), x()), bin(B::Mul, x(), x()))] {
        f(Case::new(vec![e, x(), x(), x()], vec![OFTEN, CALLS - 1 + CALLS * ARGS * 3]));
    }
    // Each operation on pairs that print alike or nearly so.
    let twins = [
        (E::Real(0.1234), E::Real(0.1231)),
        (E::Pi, var("pi")),
        (E::Eul, var("e")),
        (E::Int(2), E::Rat(false, 2, 1)),
        (bin(B::Mul, E::Real(1.0001), var("x")), bin(B::Mul, E::Real(1.0002), var("x"))),
        (bin(B::Pow, var("x"), E::Int(2)), bin(B::Pow, var("y"), E::Int(2))),
        (bin(B::Sub, var("x"), var("y")), bin(B::Sub, var("y"), var("x"))),
        (un(U::Sin, var("x")), un(U::Cos, var("x"))),
    ];
    let places: Vec<Box<dyn Fn(&E) -> E>> = vec![
        Box::new(|a| a.clone()),
        Box::new(|a| bin(B::Mul, var("x"), a.clone())),
        Box::new(|a| un(U::Sin, bin(B::Mul, var("x"), a.clone()))),
        Box::new(|a| un(U::Cos, bin(B::Mul, a.clone(), var("x")))),
        Box::new(|a| un(U::Exp, bin(B::Mul, var("x"), a.clone()))),
        Box::new(|a| un(U::Ln, bin(B::Add, var("x"), a.clone()))),
        Box::new(|a| un(U::Neg, bin(B::Sub, var("x"), a.clone()))),
        Box::new(|a| bin(B::Pow, var("x"), a.clone())),
        Box::new(|a| bin(B::Pow, a.clone(), var("x"))),
        Box::new(|a| bin(B::Div, var("x"), a.clone())),
        Box::new(|a| bin(B::Div, un(U::Sin, bin(B::Mul, a.clone(), var("x"))), var("x"))),
        Box::new(|a| bin(B::Mul, a.clone(), a.clone())),
        Box::new(|a| bin(B::Add, E::Rat(false, 1, 3), a.clone())),
    ];
    for (a, b) in &twins {
        for p in &places {
            for other in [E::Int(0), var("x")] {
                let e = vec![p(a), p(b), other];
                for half in [0..CALLS / 2, CALLS / 2..CALLS] {
                    let k = half.flat_map(|op| (0..2).map(move |a| op + CALLS * (a + 2 * ARGS)));
                    f(Case::new(e.clone(), k.collect()));
                }
            }
            // All that can be done to the one.
            let e = vec![p(a), E::Int(0), E::Int(1), var("x")];
            f(Case::new(e, (0..CALLS).map(|op| op + CALLS * ARGS * (1 + op % 3)).collect()));
            let e = vec![p(a), E::Int(0), E::Int(1), var("x")];
            f(Case::new(e, (0..16).map(|i| [OPS + 4, OPS, 6, 19][i as usize / 4] + CALLS * ARGS * (i % 4)).collect()));
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "Lists of 2 to 26 calls (folding, deriving, substituting, expanding, limits, arithmetic, printing, queries, closeness) on 2 to 6 expressions easily mistaken for one another (equal text, shape or names), made in order and again here (single calls 66000 times), in a fresh process from the last to the first, and there from four threads at once; every result must be the same each time. Non-trivial: at least two calls with different results.",
        tape: 90,
        gen: gen_c25,
        check: c25,
        small: small_c25,
        quick: 20_000,
        thorough: 300_000,
    }]
}
