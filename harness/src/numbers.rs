//! C01-C06: the number type.

use oracle::big::Q;
use oracle::expr::E;
use oracle::gen::{self, Tape};
use oracle::runner::{call, call_strict, guard, Case, Obs, Prop, Stop, Verdict};
use oracle::{discard, fail};

use crate::bridge::{num_q, rat_q, to_num};
use symbolic_rust::verif_api as sym;
use sym::{AstOperand, Expression, IsClose, RationalNum, SmartNum, ToRational, ToSmartNum as _};

const ADD: i64 = 0;
const SUB: i64 = 1;
const MUL: i64 = 2;
const DIV: i64 = 3;
const NEG: i64 = 4;
/// Added to an operation code: operands in the other order.
const REV: i64 = 8;

fn op_name(op: i64) -> &'static str {
    ["+", "-", "*", "/", "neg"][(op & 7) as usize % 5]
}

fn exact_lit(t: &mut Tape) -> E {
    match t.weighted(&[3, 3, 3, 3]) {
        0 => E::Int(gen::small_int(t)),
        1 => E::Int(gen::any_int(t)),
        2 => gen::small_rat(t),
        _ => gen::any_rat(t),
    }
}

fn any_lit(t: &mut Tape) -> E {
    match t.weighted(&[4, 4, 2, 2]) {
        0 => exact_lit(t),
        1 => E::Real(gen::any_real(t)),
        2 => E::Pi,
        _ => E::Eul,
    }
}

fn any_op(t: &mut Tape) -> i64 {
    let op = [ADD, SUB, MUL, DIV, NEG][t.weighted(&[4, 4, 4, 4, 1])];
    if t.chance(30) {
        op + REV
    } else {
        op
    }
}

fn apply(op: i64, a: SmartNum, b: SmartNum) -> SmartNum {
    let (a, b) = if op & REV != 0 { (b, a) } else { (a, b) };
    match op & 7 {
        ADD => a + b,
        SUB => a - b,
        MUL => a * b,
        DIV => a / b,
        _ => -a,
    }
}

fn apply_rat(op: i64, a: RationalNum, b: RationalNum) -> RationalNum {
    let (a, b) = if op & REV != 0 { (b, a) } else { (a, b) };
    match op & 7 {
        ADD => a + b,
        SUB => a - b,
        MUL => a * b,
        DIV => a / b,
        _ => -a,
    }
}

fn apply_q(op: i64, a: &Q, b: &Q) -> Option<Q> {
    let (a, b) = if op & REV != 0 { (b, a) } else { (a, b) };
    match op & 7 {
        ADD => Some(a.add(b)),
        SUB => Some(a.sub(b)),
        MUL => Some(a.mul(b)),
        DIV => a.div(b),
        _ => Some(a.neg()),
    }
}

fn valid_op(op: i64) -> bool {
    (0..=4).contains(&op) || (REV..=REV + 4).contains(&op)
}

/// Numerator and denominator as held.
fn held(n: &SmartNum) -> Option<(bool, i128, i128)> {
    if let Some(i) = n.to_i64() {
        return Some((true, i.unsigned_abs() as i128, 1));
    }
    n.to_rational().map(|r| (false, r.nominator as i128, r.denominator as i128))
}

fn held_rat(r: &RationalNum) -> (bool, i128, i128) {
    (false, r.nominator as i128, r.denominator as i128)
}

/// True when no intermediate product or sum of the schoolbook method leaves 63 bits.
fn fits(op: i64, a: (bool, i128, i128), b: (bool, i128, i128)) -> bool {
    const M: i128 = i64::MAX as i128;
    let (a, b) = if op & REV != 0 { (b, a) } else { (a, b) };
    let ok = |x: i128, y: i128| x.checked_mul(y).is_some_and(|p| p <= M);
    if a.1 > M || b.1 > M || a.2 > M || b.2 > M {
        return false;
    }
    match op & 7 {
        ADD | SUB => ok(a.1, b.2) && ok(b.1, a.2) && ok(a.2, b.2) && a.1 * b.2 + b.1 * a.2 <= M,
        MUL => ok(a.1, b.1) && ok(a.2, b.2),
        DIV => ok(a.1, b.2) && ok(a.2, b.1),
        _ => true,
    }
}

fn lits(c: &Case) -> Result<Vec<SmartNum>, Stop> {
    c.e.iter()
        .map(|e| {
            if !e.is_num() {
                discard!("not a number");
            }
            match call_strict("making a number", || to_num(e))? {
                Some(n) => Ok(n),
                None => discard!("not a number"),
            }
        })
        .collect()
}

fn gen_chain(t: &mut Tape, f: fn(&mut Tape) -> E) -> Case {
    let n = 1 + t.weighted(&[6, 3, 2, 1]);
    let mut e = vec![f(t)];
    let mut k = vec![];
    for _ in 0..n {
        // Sometimes an operand that meets the running value again.
        let v = if t.chance(10) { e[0].clone() } else { f(t) };
        e.push(v);
        k.push(any_op(t));
    }
    Case::new(e, k)
}

fn small_pairs(f: &mut dyn FnMut(Case)) {
    let mut vals = vec![];
    for i in -12..=12 {
        vals.push(E::Int(i));
    }
    for d in 1..=6u64 {
        for n in 0..=6u64 {
            vals.push(E::Rat(false, n, d));
            vals.push(E::Rat(true, n, d));
        }
    }
    for big in [i64::MAX, i64::MIN + 1, 1 << 62, -(1 << 62), 1 << 32, (1 << 31) - 1, 3037000500] {
        vals.push(E::Int(big));
        vals.push(E::Rat(big < 0, big.unsigned_abs(), 3));
        vals.push(E::Rat(big < 0, 5, big.unsigned_abs()));
    }
    for a in &vals {
        for b in &vals {
            for op in [ADD, SUB, MUL, DIV, NEG] {
                f(Case::new(vec![a.clone(), b.clone()], vec![op]));
            }
        }
    }
}

// ---- C01 ----

fn c01(c: &Case, o: &mut Obs) -> Verdict {
    if c.e.len() != c.k.len() + 1 || c.k.iter().any(|op| !valid_op(*op)) {
        discard!("malformed");
    }
    let vals: Vec<Q> = match c.e.iter().map(E::lit_q).collect::<Option<Vec<Q>>>() {
        Some(v) => v,
        None => discard!("not exact numbers"),
    };
    let nums = lits(c)?;
    c01_smart(c, &nums, &vals, o)?;
    c01_rational(c, &vals, o)
}

fn c01_smart(c: &Case, nums: &[SmartNum], vals: &[Q], o: &mut Obs) -> Verdict {
    let (mut acc, mut q) = (nums[0], vals[0].clone());
    for (i, op) in c.k.iter().enumerate() {
        let (b, bq) = (nums[i + 1], &vals[i + 1]);
        let Some(want) = apply_q(*op, &q, bq) else {
            o.label("division by zero skipped");
            continue;
        };
        let (Some(ha), Some(hb)) = (held(&acc), held(&b)) else {
            fail!("step {i}: an operand is not an exact number");
        };
        // Two integers stay integers except under division.
        let must = if ha.0 && hb.0 && op & 7 != DIV {
            want.to_int().is_some_and(|v| v != i64::MIN)
        } else {
            fits(*op, ha, hb)
        };
        match guard(|| apply(*op, acc, b)) {
            Err(m) => {
                if must {
                    fail!("step {i} ({} with exact result {}) panicked: {m}", op_name(*op), want.show());
                }
                o.label("panic where 64 bits are exceeded");
                o.hit();
                return Ok(());
            }
            Ok(r) => {
                match num_q(&r) {
                    Some(got) if got == want => {}
                    Some(got) => fail!("step {i}: {} gave {}, exact result is {}", op_name(*op), got.show(), want.show()),
                    None => fail!("step {i}: {} left the exact numbers: {:?}, exact result is {}", op_name(*op), r, want.show()),
                }
                if !must {
                    o.label("exact beyond the guaranteed range");
                }
                if want.d.to_i64() != Some(1) {
                    o.label("fraction result");
                }
                if want.bits() > 32 {
                    o.label("result over 32 bits");
                }
                if !q.is_zero() && !bq.is_zero() {
                    o.hit();
                }
                acc = r;
                q = want;
            }
        }
    }
    Ok(())
}

fn to_rat(e: &E) -> Option<RationalNum> {
    match e {
        E::Int(i) => Some(RationalNum::from(*i)),
        E::Rat(neg, n, d) => {
            if *d == 1 && !*neg {
                Some(RationalNum::from(*n))
            } else {
                RationalNum::new(if *neg { -1 } else { 1 }, *n, *d)
            }
        }
        _ => None,
    }
}

fn rats(c: &Case) -> Result<Vec<RationalNum>, Stop> {
    let mut out = vec![];
    for e in &c.e {
        if *e == E::Int(i64::MIN) {
            discard!("out of range");
        }
        match call("making a fraction", || to_rat(e))? {
            Some(r) => out.push(r),
            None => fail!("a fraction was refused: {e}"),
        }
    }
    Ok(out)
}

fn c01_rational(c: &Case, vals: &[Q], o: &mut Obs) -> Verdict {
    let nums = rats(c)?;
    let (mut acc, mut q) = (nums[0], vals[0].clone());
    for (i, op) in c.k.iter().enumerate() {
        let (b, bq) = (nums[i + 1], &vals[i + 1]);
        let Some(want) = apply_q(*op, &q, bq) else {
            continue;
        };
        match guard(|| apply_rat(*op, acc, b)) {
            Err(m) => {
                if fits(*op, held_rat(&acc), held_rat(&b)) {
                    fail!("fraction step {i} ({} with exact result {}) panicked: {m}", op_name(*op), want.show());
                }
                o.label("fraction panic where 64 bits are exceeded");
                return Ok(());
            }
            Ok(r) => {
                match rat_q(&r) {
                    Some(got) if got == want => {}
                    _ => fail!("fraction step {i}: {} gave {r:?}, exact result is {}", op_name(*op), want.show()),
                }
                acc = r;
                q = want;
            }
        }
    }
    Ok(())
}

// ---- C02 ----

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn normal(r: &RationalNum, what: &str) -> Verdict {
    if r.denominator == 0 {
        fail!("{what} has denominator 0: {r:?}");
    }
    if r.sign != 1 && r.sign != -1 {
        fail!("{what} has sign {}: {r:?}", r.sign);
    }
    if gcd(r.nominator, r.denominator) != 1 {
        fail!("{what} is not in lowest terms: {r:?}");
    }
    Ok(())
}

fn gen_c02(t: &mut Tape) -> Case {
    let a = gen::any_rat(t);
    let b = if t.chance(25) {
        // The same value written differently, perhaps with the other sign.
        match &a {
            E::Rat(neg, n, d) => {
                let g = 1 + t.below(50);
                match (n.checked_mul(g), d.checked_mul(g)) {
                    (Some(n), Some(d)) => E::Rat(*neg ^ t.chance(20), n, d),
                    _ => a.clone(),
                }
            }
            _ => a.clone(),
        }
    } else {
        gen::any_rat(t)
    };
    let sign = match t.weighted(&[4, 2]) {
        0 => *t.pick(&[1, -1, 0, 2, -2]),
        _ => *t.pick(&[i64::MAX, i64::MIN, 3, -3, 100]),
    };
    let den = if t.chance(30) { 0 } else { gen::any_u64(t) };
    Case::new(vec![a, b], vec![sign, gen::any_u64(t) as i64, den as i64])
}

fn c02(c: &Case, o: &mut Obs) -> Verdict {
    if c.e.len() != 2 || c.k.len() != 3 || !c.e.iter().all(|e| matches!(e, E::Rat(_, _, d) if *d != 0)) {
        discard!("malformed");
    }
    // Constructors accept exactly a sign of one and a nonzero denominator.
    let (sign, n, d) = (c.k[0], c.k[1] as u64, c.k[2] as u64);
    let legal = (sign == 1 || sign == -1) && d != 0;
    let made = match guard(|| (RationalNum::new(sign, n, d), SmartNum::new_rational(sign, n, d))) {
        Ok(x) => x,
        Err(m) => fail!("making the fraction {sign}, {n}, {d} panicked: {m}"),
    };
    if made.0.is_some() != legal || made.1.is_some() != legal {
        fail!("a fraction of sign {sign}, numerator {n}, denominator {d} was {}", if legal { "refused" } else { "accepted" });
    }
    if let (Some(r), Some(s)) = made {
        let want = Q::rat(sign < 0, n, d);
        if rat_q(&r).as_ref() != Some(&want) || num_q(&s).as_ref() != Some(&want) {
            fail!("the fraction of sign {sign}, {n}, {d} holds {r:?} and {s:?}");
        }
    }
    let by_sign = call_strict("making a fraction", || (RationalNum::new_positive(n, d), RationalNum::new_negative(n, d)))?;
    for (r, neg) in [(by_sign.0, false), (by_sign.1, true)] {
        if r.is_some() != (d != 0) || r.is_some_and(|r| rat_q(&r) != Some(Q::rat(neg, n, d))) {
            fail!("the {} fraction {n}/{d} came out as {r:?}", if neg { "negative" } else { "positive" });
        }
    }
    if !legal {
        o.label("refused fraction");
    }
    let r = rats(c)?;
    let (a, b) = (r[0], r[1]);
    let (qa, qb) = (c.e[0].lit_q().unwrap(), c.e[1].lit_q().unwrap());
    for (x, q) in [(a, &qa), (b, &qb)] {
        let red = call_strict("reducing", || x.reduce())?;
        normal(&red, "a reduced fraction")?;
        if rat_q(&red).as_ref() != Some(q) {
            fail!("reducing {x:?} changed its value to {red:?}");
        }
        if red.nominator != x.nominator {
            o.label("reduced");
            o.hit();
        }
        if x != red || red != x || !(x == x) {
            fail!("{x:?} does not equal its reduced form {red:?}");
        }
    }
    if (a == b) != (qa == qb) || (b == a) != (qa == qb) {
        fail!("equality of {a:?} and {b:?} is {}, their values are {} and {}", a == b, qa.show(), qb.show());
    }
    if qa == qb {
        o.label("equal pair");
        if a.nominator != b.nominator {
            o.label("equal pair, different form");
            o.hit();
        }
    }
    for op in [ADD, SUB, MUL, DIV] {
        if op == DIV && qb.is_zero() {
            continue;
        }
        match guard(|| apply_rat(op, a, b)) {
            Err(m) => {
                if fits(op, held_rat(&a), held_rat(&b)) {
                    fail!("{} of {a:?} and {b:?} panicked: {m}", op_name(op));
                }
                o.label("overflow panic");
            }
            Ok(r) => {
                normal(&r, &format!("{a} {} {b}", op_name(op)))?;
                o.label("result checked");
                if r.nominator != 0 {
                    o.hit();
                } else {
                    o.label("zero result");
                }
                let want = apply_q(op, &qa, &qb).unwrap();
                if rat_q(&r) != Some(want) {
                    fail!("{a} {} {b} has the wrong value {r:?}", op_name(op));
                }
            }
        }
    }
    Ok(())
}

// ---- C03 ----

fn as_f64(e: &E) -> Option<f64> {
    Some(match e {
        E::Int(i) => *i as f64,
        E::Rat(neg, n, d) => {
            let x = *n as f64 / *d as f64;
            if *neg {
                -x
            } else {
                x
            }
        }
        E::Real(x) => *x,
        E::Pi => std::f64::consts::PI,
        E::Eul => std::f64::consts::E,
        _ => return None,
    })
}

fn gen_c03(t: &mut Tape) -> Case {
    let mut c = gen_chain(t, any_lit);
    if c.e.iter().all(|e| e.lit_q().is_some()) {
        let i = t.below(c.e.len() as u64) as usize;
        c.e[i] = if t.chance(20) { E::Pi } else { E::Real(gen::any_real(t)) };
    }
    c
}

fn c03(c: &Case, o: &mut Obs) -> Verdict {
    if c.e.len() != c.k.len() + 1 || c.k.iter().any(|op| !valid_op(*op)) {
        discard!("malformed");
    }
    let nums = lits(c)?;
    let Some(vals) = c.e.iter().map(as_f64).collect::<Option<Vec<f64>>>() else {
        discard!("not numbers");
    };
    let mut acc = nums[0];
    // While the running value is exact, C01 answers for it.
    let mut exact = c.e[0].lit_q().is_some();
    for (i, op) in c.k.iter().enumerate() {
        let (mut x, mut y) = (acc.to_f64(), vals[i + 1]);
        let both_exact = exact && c.e[i + 1].lit_q().is_some();
        if op & 7 == NEG {
            // The running value alone, or the new operand alone.
            let r = call("negation", || apply(*op, acc, nums[i + 1]))?;
            let want = if op & REV != 0 { -y } else { -x };
            if op & REV != 0 {
                exact = c.e[i + 1].lit_q().is_some();
            }
            if !exact {
                if r.to_f64() != want {
                    fail!("step {i}: negation gave {}, expected {want}", r.to_f64());
                }
                o.hit();
            }
            acc = r;
            continue;
        }
        if op & REV != 0 {
            std::mem::swap(&mut x, &mut y);
        }
        if op & 7 == DIV && y == 0.0 {
            o.label("division by zero skipped");
            continue;
        }
        let want = match op & 7 {
            ADD => x + y,
            SUB => x - y,
            MUL => x * y,
            _ => x / y,
        };
        if !want.is_finite() {
            o.label("left the finite range");
            return Ok(());
        }
        let r = call(op_name(*op), || apply(*op, acc, nums[i + 1]))?;
        if !both_exact {
            let got = r.to_f64();
            let scale = match op & 7 {
                ADD | SUB => x.abs() + y.abs(),
                _ => want.abs(),
            };
            if !((got - want).abs() <= 1e-14 * scale + 1e-322) {
                fail!("step {i}: {x:?} {} {y:?} gave {got:?}, double precision gives {want:?}", op_name(*op));
            }
            o.label(op_name(*op));
            o.hit();
            exact = num_q(&r).is_some();
        }
        acc = r;
    }
    Ok(())
}

// ---- C04 ----

fn gen_c04(t: &mut Tape) -> Case {
    let a = match t.weighted(&[3, 2]) {
        0 => exact_lit(t),
        _ => E::Real(gen::any_real(t)),
    };
    // Close pairs as well as unrelated ones.
    let (b, eps) = if t.chance(60) {
        let x = as_f64(&a).unwrap_or(0.0);
        let p = t.range(-30, 3);
        let d = 10f64.powi(p as i32 / 3) * t.range(1, 9) as f64;
        (E::Real(x + if t.chance(50) { d } else { -d }), p / 3 + t.range(-1, 2))
    } else {
        (any_lit(t), t.range(-12, 6))
    };
    let ty = t.range(0, 9);
    let raw = match t.weighted(&[3, 3, 2]) {
        0 => gen::any_int(t),
        1 => gen::any_u64(t) as i64,
        _ => *t.pick(&[0, 1, -1, i64::MAX, i64::MIN, 255, 256, 128, 127, -128, 65535, 32768, 4294967295, 2147483648]),
    };
    if t.chance(4) {
        // No tolerance, a negative one, one without end; often between equal numbers.
        let b = if t.chance(50) { a.clone() } else { b };
        return Case::new(vec![a, b], vec![ty, raw, eps, *t.pick(&[2, 3, 4])]);
    }
    if t.chance(5) {
        let small = |t: &mut Tape| if t.chance(40) { gen::eighth(t) } else { E::Int(gen::small_int(t)) };
        return Case::new(vec![small(t), small(t)], vec![ty, raw, eps, 1]);
    }
    Case::new(vec![a, b], vec![ty, raw, eps])
}

fn from_primitive(ty: i64, raw: i64, f: f64, o: &mut Obs) -> Verdict {
    macro_rules! int {
        ($t:ty) => {{
            let v = raw as $t;
            let made = call_strict("conversion", || (SmartNum::from(v), Expression::from(v), AstOperand::from(v)))?;
            (made, Some(v as i128), v as f64, stringify!($t))
        }};
    }
    let ((n, e, op), int, real, name) = match ty {
        0 => int!(u8),
        1 => int!(i8),
        2 => int!(u16),
        3 => int!(i16),
        4 => int!(u32),
        5 => int!(i32),
        6 => int!(i64),
        7 => int!(u64),
        8 => {
            let v = f as f32;
            if !v.is_finite() {
                return Ok(());
            }
            (call_strict("conversion", || (SmartNum::from(v), Expression::from(v), AstOperand::from(v)))?, None, v as f64, "f32")
        }
        9 => (call_strict("conversion", || (SmartNum::from(f), Expression::from(f), AstOperand::from(f)))?, None, f, "f64"),
        _ => discard!("malformed"),
    };
    o.label(name);
    let from_e = match call_strict("conversion", || e.to_smart_num())? {
        Ok(n) => n,
        Err(_) => fail!("an expression made from a {name} is no number"),
    };
    let from_op = match call_strict("conversion", || op.to_smart_num())? {
        Ok(n) => n,
        Err(_) => fail!("an operand made from a {name} is no number"),
    };
    for n in [n, from_e, from_op] {
        if (n.to_f64() - real).abs() > 1e-15 * real.abs() {
            fail!("{name} {real:?} (raw {raw}) became {:?}", n.to_f64());
        }
        if let Some(v) = int {
            match n.to_i64() {
                Some(i) if i as i128 == v => {}
                None if v > i64::MAX as i128 => {}
                other => fail!("{name} {v} became the integer {other:?}"),
            }
            match call_strict("conversion", || n.to_rational()) {
                Ok(Some(r)) if rat_q(&r) == Some(Q::new(oracle::big::Big::from_i128(v), oracle::big::Big::from_u64(1))) => {}
                Ok(r) => fail!("{name} {v} became the fraction {r:?}"),
                Err(_) if v == i64::MIN as i128 => {}
                Err(s) => return Err(s),
            }
            if n.is_zero() != (v == 0) || n.is_one() != (v == 1) {
                fail!("{name} {v}: is it zero: {}, is it one: {}", n.is_zero(), n.is_one());
            }
            if v.unsigned_abs() > 1 << 31 {
                o.label("over 31 bits");
            }
        } else if let Some(q) = num_q(&n) {
            if q.to_f64() != real {
                fail!("{name} {real:?} became {}", q.show());
            }
        }
    }
    o.hit();
    Ok(())
}

fn c04(c: &Case, o: &mut Obs) -> Verdict {
    if c.e.len() != 2 || !(3..=4).contains(&c.k.len()) || c.e.iter().any(|e| matches!(e, E::Rat(_, _, 0))) {
        discard!("malformed");
    }
    let f = match &c.e[0] {
        E::Real(x) => *x,
        other => match as_f64(other) {
            Some(x) => x,
            None => discard!("not a number"),
        },
    };
    from_primitive(c.k[0], c.k[1], f, o)?;
    let nums = lits(c)?;
    for (n, e) in nums.iter().zip(&c.e) {
        let want = as_f64(e).unwrap();
        if (n.to_f64() - want).abs() > 1e-15 * want.abs() {
            fail!("{e} reads as {:?}, its value is {want:?}", n.to_f64());
        }
        if n.sign() != if want == 0.0 { 0 } else { want.signum() as i64 } {
            fail!("the sign of {e} is {}", n.sign());
        }
        match (e.lit_q(), call_strict("to_rational", || n.to_rational())) {
            (Some(q), Ok(Some(r))) if rat_q(&r) == Some(q.clone()) => {}
            (Some(q), Ok(r)) => fail!("{e} reads as the fraction {r:?}, its value is {}", q.show()),
            (None, Ok(Some(r))) if rat_q(&r).is_none_or(|q| q.to_f64() != want) => fail!("{e} reads as the fraction {r:?}"),
            (_, Err(Stop::Fail(m))) => fail!("{m}"),
            _ => {}
        }
        match (n.to_i64(), e.lit_q()) {
            (Some(i), Some(q)) if q != Q::int(i) => fail!("{e} reads as the integer {i}"),
            (None, _) if matches!(e, E::Int(_)) => fail!("the integer {e} does not read as one"),
            (Some(i), None) if i as f64 != want => fail!("{e} reads as the integer {i}"),
            _ => {}
        }
    }
    // Closeness.
    let (x, y) = (as_f64(&c.e[0]).unwrap(), as_f64(&c.e[1]).unwrap());
    let eps = 10f64.powi(c.k[2].clamp(-300, 300) as i32);
    let (mut eps, d) = (eps, (x - y).abs());
    // On request exactly the tolerance they differ by: that is not close, and there is no rounding here.
    let exactly = |x: f64| x.abs() < 2e8 && (x * 4096.0).fract() == 0.0;
    if c.k.get(3) == Some(&1) && exactly(x) && exactly(y) && d > 0.0 && [(x, &c.e[0]), (y, &c.e[1])].iter().all(|(x, e)| e.lit_q().is_none_or(|q| Q::int((x * 4096.0) as i64) == q.mul(&Q::int(4096)))) {
        eps = d;
        o.label("apart by exactly the tolerance");
    } else if let (Some(n @ 2..=4), true) = (c.k.get(3), d.is_finite()) {
        eps = [0.0, -eps, f64::INFINITY][(n - 2) as usize];
        o.label(["tolerance zero", "tolerance negative", "tolerance infinite"][(n - 2) as usize]);
    } else if (d - eps).abs() <= 1e-9 * (eps + d) + 1e-15 * (x.abs() + y.abs()) {
        o.label("closeness undecided by rounding");
        return Ok(());
    }
    let want = d < eps;
    let (a, b) = (nums[0], nums[1]);
    let got = call_strict("is_close", || [a.is_close(b, eps), b.is_close(a, eps), (&a).is_close(&b, eps)])?;
    if got.iter().any(|g| *g != want) {
        fail!("{} and {} within {eps:e}: {got:?}, they are {d:e} apart", c.e[0], c.e[1]);
    }
    let (ea, eb) = (Expression::from(a), Expression::from(b));
    // Expressions are subtracted exactly first, which may overflow.
    let near = match guard(|| (ea.near(&eb, eps), eb.near(&ea, eps))) {
        Ok(n) => n,
        Err(m) => {
            if let (Some(p), Some(q)) = (held(&a), held(&b)) {
                if fits(SUB, p, q) && fits(SUB + REV, p, q) {
                    fail!("near panicked: {m}");
                }
            }
            o.label("near overflowed");
            return Ok(());
        }
    };
    match near {
        (Ok(p), Ok(q)) if p == want && q == want => {}
        (p, q) => fail!("near({}, {}, {eps:e}) is {:?} and {:?}, they are {d:e} apart", c.e[0], c.e[1], p.ok(), q.ok()),
    }
    o.label(if want { "close" } else { "not close" });
    Ok(())
}

// ---- C05 ----

fn gen_c05(t: &mut Tape) -> Case {
    fn f(t: &mut Tape) -> E {
        match t.weighted(&[4, 2, 1, 2, 2, 3]) {
            0 => E::Int(*t.pick(&[0, 1, -1, 2, -2, 3])),
            1 => gen::small_rat(t),
            2 => exact_lit(t),
            3 => E::Pi,
            4 => E::Eul,
            _ => E::Real(gen::any_real(t)),
        }
    }
    gen_chain(t, f)
}

fn flags(n: &SmartNum) -> [bool; 4] {
    [n.is_zero(), n.is_one(), n.is_pi(), n.is_e()]
}

fn honest(n: &SmartNum, want: Option<&Q>, what: &str, o: &mut Obs) -> Verdict {
    let f = flags(n);
    let v = n.to_f64();
    for (i, (said, name)) in f.iter().zip(["zero", "one", "pi", "e"]).enumerate() {
        let target = [0.0, 1.0, std::f64::consts::PI, std::f64::consts::E][i];
        if *said {
            if v != target {
                fail!("{what} claims to be {name}, its value is {v:?}");
            }
            if i < 2 {
                if let Some(q) = num_q(n) {
                    if q != Q::int(i as i64) {
                        fail!("{what} claims to be {name}, its value is {}", q.show());
                    }
                }
            }
            o.label(["recognised zero", "recognised one", "recognised pi", "recognised e"][i]);
        }
    }
    if let Some(q) = want {
        if f != [q.is_zero(), q.is_one(), false, false] {
            fail!("{what} has the exact value {}, but answers zero/one/pi/e = {f:?}", q.show());
        }
    }
    let e = Expression::from(*n);
    if [e.is_zero(), e.is_one(), e.is_pi(), e.is_e()] != f {
        fail!("{what} answers {f:?} as a number and differently as an expression");
    }
    Ok(())
}

fn c05(c: &Case, o: &mut Obs) -> Verdict {
    if c.e.len() != c.k.len() + 1 || c.k.iter().any(|op| !valid_op(*op)) {
        discard!("malformed");
    }
    for (n, e, want) in [
        (SmartNum::zero(), Expression::zero(), [true, false, false, false]),
        (SmartNum::one(), Expression::one(), [false, true, false, false]),
        (SmartNum::pi(), Expression::pi(), [false, false, true, false]),
        (SmartNum::e(), Expression::e(), [false, false, false, true]),
    ] {
        if flags(&n) != want || [e.is_zero(), e.is_one(), e.is_pi(), e.is_e()] != want {
            fail!("a named constant answers {:?}", flags(&n));
        }
        honest(&n, None, "a named constant", o)?;
    }
    let nums = lits(c)?;
    for (n, e) in nums.iter().zip(&c.e) {
        honest(n, e.lit_q().as_ref(), &format!("the number {e}"), o)?;
    }
    let (mut acc, mut q) = (nums[0], c.e[0].lit_q());
    for i in 0..=c.k.len() {
        // Adding nothing and multiplying by one change neither value nor recognition.
        let f = flags(&acc);
        let zeros = [SmartNum::zero(), SmartNum::from(0_u8), SmartNum::new_rational(1, 0, 5).unwrap(), SmartNum::new_rational(-1, 0, 2).unwrap()];
        let ones = [SmartNum::one(), SmartNum::from(1_i32), SmartNum::new_rational(1, 3, 3).unwrap()];
        let mut same = vec![];
        for z in zeros {
            same.push(("+ 0", call_strict("+", || acc + z)?));
            same.push(("0 +", call_strict("+", || z + acc)?));
            same.push(("- 0", call_strict("-", || acc - z)?));
        }
        for w in ones {
            same.push(("* 1", call_strict("*", || acc * w)?));
            same.push(("1 *", call_strict("*", || w * acc)?));
        }
        for (what, r) in same {
            // Out of range for doubles, a chain may have come to no number at all; that stays.
            let same_value = r.to_f64() == acc.to_f64() || (r.to_f64().is_nan() && acc.to_f64().is_nan());
            if flags(&r) != f || !same_value || num_q(&r) != num_q(&acc) {
                fail!("step {i}: {acc:?} {what} became {r:?}");
            }
        }
        if i == c.k.len() {
            break;
        }
        let op = c.k[i];
        let b = nums[i + 1];
        let div_by = if op & REV != 0 { acc.to_f64() } else { b.to_f64() };
        if op & 7 == DIV && div_by == 0.0 {
            o.label("division by zero skipped");
            continue;
        }
        let next_q = match (&q, c.e[i + 1].lit_q()) {
            (Some(x), Some(y)) => apply_q(op, x, &y),
            _ => None,
        };
        // What double precision says: a claim has to fit that as well.
        let (x, y) = if op & REV != 0 { (b.to_f64(), acc.to_f64()) } else { (acc.to_f64(), b.to_f64()) };
        let (want, scale) = match op & 7 {
            ADD => (x + y, x.abs() + y.abs()),
            SUB => (x - y, x.abs() + y.abs()),
            MUL => (x * y, (x * y).abs()),
            DIV => (x / y, (x / y).abs()),
            _ => (-x, x.abs()),
        };
        acc = call(op_name(op), || apply(op, acc, b))?;
        for (i, said) in flags(&acc).iter().enumerate() {
            let target = [0.0, 1.0, std::f64::consts::PI, std::f64::consts::E][i];
            if *said && want.is_finite() && (want - target).abs() > 1e-15 * scale + 1e-322 {
                fail!("{x:?} {} {y:?} claims to be {target:?}, it is {want:?}", op_name(op));
            }
        }
        q = next_q;
        honest(&acc, q.as_ref(), &format!("after step {i} ({}) the result", op_name(op)), o)?;
        o.hit();
    }
    Ok(())
}

// ---- C06 ----

/// What a printed number denotes: exactly, or as a decimal.
enum Printed {
    Exact(Q),
    Decimal(f64),
    Pi,
    E,
}

fn read_printed(s: &str) -> Option<Printed> {
    if s == "pi" {
        return Some(Printed::Pi);
    }
    if s == "e" {
        return Some(Printed::E);
    }
    let (neg, body) = match s.strip_prefix('-') {
        Some(b) => (true, b),
        None => (false, s),
    };
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    if let Some((n, d)) = body.split_once('/') {
        if !digits(n) || !digits(d) {
            return None;
        }
        let (n, d): (u64, u64) = (n.parse().ok()?, d.parse().ok()?);
        return (d != 0).then(|| Printed::Exact(Q::rat(neg, n, d)));
    }
    if let Some((a, b)) = body.split_once('.') {
        if !digits(a) || !digits(b) {
            return None;
        }
        let v: f64 = body.parse().ok()?;
        return Some(Printed::Decimal(if neg { -v } else { v }));
    }
    if !digits(body) {
        return None;
    }
    let v: i128 = body.parse().ok()?;
    let q = Q::new(oracle::big::Big::from_i128(if neg { -v } else { v }), oracle::big::Big::from_u64(1));
    Some(Printed::Exact(q))
}

fn reads_back(text: &str, exact: Option<&Q>, value: f64) -> Result<(), String> {
    let ok = match read_printed(text) {
        None => return Err(format!("{text:?} is not a number as written")),
        Some(Printed::Exact(p)) => match exact {
            Some(q) => p == *q,
            None => (p.to_f64() - value).abs() <= 0.000501 + 1e-15 * value.abs(),
        },
        Some(Printed::Decimal(d)) => match exact {
            Some(q) => q.to_f64() == d,
            None => (d - value).abs() <= 0.000501 + 1e-15 * value.abs(),
        },
        Some(Printed::Pi) => exact.is_none() && value == std::f64::consts::PI,
        Some(Printed::E) => exact.is_none() && value == std::f64::consts::E,
    };
    // A real zero may carry a sign.
    let negative = match exact {
        Some(q) => q.sign() < 0,
        None => value < 0.0 || (value == 0.0 && text.starts_with('-')),
    };
    if ok && text.starts_with('-') == negative {
        Ok(())
    } else {
        Err(format!("{text:?} is printed for {}", exact.map(Q::show).unwrap_or(format!("{value:?}"))))
    }
}

fn c06(c: &Case, o: &mut Obs) -> Verdict {
    if c.e.len() != c.k.len() + 1 || c.k.iter().any(|op| !valid_op(*op)) {
        discard!("malformed");
    }
    let nums = lits(c)?;
    let (mut acc, mut q, mut v) = (nums[0], c.e[0].lit_q(), as_f64(&c.e[0]).unwrap_or(f64::NAN));
    for i in 0..=c.k.len() {
        if !v.is_finite() {
            o.label("not finite");
            return Ok(());
        }
        let texts = call_strict("printing", || {
            let e = Expression::from(acc);
            let op = AstOperand::from(acc);
            [acc.to_string(), format!("{acc}"), e.to_string(), format!("{e}"), op.to_string(), format!("{op}")]
        })?;
        for t in &texts {
            if let Err(m) = reads_back(t, q.as_ref(), v) {
                fail!("step {i}: {m}");
            }
        }
        match &q {
            Some(x) if x.to_int().is_none() => {
                o.label("fraction printed");
                o.hit();
            }
            Some(x) => {
                o.label("integer printed");
                if x.to_int().is_some_and(|i| i.unsigned_abs() > 1) {
                    o.hit();
                }
            }
            None => {
                o.label("real printed");
                o.hit();
            }
        }
        if i == c.k.len() {
            break;
        }
        let (op, b) = (c.k[i], nums[i + 1]);
        let div_by = if op & REV != 0 { acc.to_f64() } else { b.to_f64() };
        if op & 7 == DIV && div_by == 0.0 {
            continue;
        }
        let next_q = match (&q, c.e[i + 1].lit_q()) {
            (Some(x), Some(y)) => apply_q(op, x, &y),
            _ => None,
        };
        acc = call(op_name(op), || apply(op, acc, b))?;
        // An exact result of reals (0 * pi) reads as what it is.
        q = next_q.or_else(|| num_q(&acc));
        v = acc.to_f64();
    }
    // Fractions on their own.
    for e in &c.e {
        let Some(q) = e.lit_q() else { continue };
        if *e == E::Int(i64::MIN) {
            continue;
        }
        if let Some(r) = call("making a fraction", || to_rat(e))? {
            let text = call_strict("printing", || r.to_string())?;
            if let Err(m) = reads_back(&text, Some(&q), q.to_f64()) {
                fail!("as a fraction {m}");
            }
        }
    }
    Ok(())
}

fn none(_: bool, _: &mut dyn FnMut(Case)) {}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "Chains of 1-4 operations (+ - * / neg, either operand order) over integers and fractions of every size, carried out on the number type and on the bare fraction type and compared step by step with unbounded rationals; all pairs of 131 small and boundary values are enumerated. Non-trivial: some step has two nonzero operands, or leaves the 64-bit range.",
            tape: 64,
            gen: |t| gen_chain(t, exact_lit),
            check: c01,
            small: |_, f| small_pairs(f),
            quick: 16_000_000,
            thorough: 100_000_000,
        },
        Prop {
            id: "C02",
            rule: "Pairs of fractions (reduced or not, zero, whole, equal in value but written differently) put through reduction, equality and + - * /, and triples offered to the constructors. Non-trivial: a reduction that changes the fraction, an equal pair written differently, or an arithmetic result that is not zero.",
            tape: 48,
            gen: gen_c02,
            check: c02,
            small: |_, f| {
                for (a, b) in (0..=8u64).flat_map(|a| (1..=8u64).map(move |b| (a, b))) {
                    for (c, d) in (0..=8u64).flat_map(|a| (1..=8u64).map(move |b| (a, b))) {
                        for s in 0..4 {
                            f(Case::new(vec![E::Rat(s & 1 == 1, a, b), E::Rat(s & 2 == 2, c, d)], vec![[1, -1, 0, 2][s], a as i64, d as i64 - 1]));
                        }
                    }
                }
            },
            quick: 12_000_000,
            thorough: 100_000_000,
        },
        Prop {
            id: "C03",
            rule: "Chains of 1-4 operations with at least one real, pi or e among integers, fractions and reals of every magnitude, each step compared with double-precision arithmetic. Non-trivial: a step in which a real takes part.",
            tape: 64,
            gen: gen_c03,
            check: c03,
            small: none,
            quick: 16_000_000,
            thorough: 100_000_000,
        },
        Prop {
            id: "C04",
            rule: "Values of ten primitive types turned into numbers, operands and expressions and read back as integer, fraction, double and sign; pairs of numbers near and far compared for closeness. Non-trivial: a primitive conversion was compared.",
            tape: 48,
            gen: gen_c04,
            check: c04,
            small: none,
            quick: 16_000_000,
            thorough: 100_000_000,
        },
        Prop {
            id: "C05",
            rule: "Chains of operations over integers, fractions, reals, pi and e; after every step the answers to is-zero/one/pi/e are compared with the value, and adding zero or multiplying by one (each in several forms) must change nothing. Non-trivial: at least one operation was carried out.",
            tape: 64,
            gen: gen_c05,
            check: c05,
            small: |_, f| small_pairs(f),
            quick: 12_000_000,
            thorough: 80_000_000,
        },
        Prop {
            id: "C06",
            rule: "Numbers of every kind, given and computed by chains of operations, printed on every level (number, operand, expression, bare fraction) and read back. Non-trivial: the number is a fraction, a real or an integer other than -1, 0, 1.",
            tape: 64,
            gen: |t| gen_chain(t, any_lit),
            check: c06,
            small: |_, f| small_pairs(f),
            quick: 10_000_000,
            thorough: 80_000_000,
        },
    ]
}
