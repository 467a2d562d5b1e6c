//! Sampling next to a point: refutes a reported limit by values that certainly do not behave so, at
//! one scale after the other. Says nothing where nothing is certain.

use crate::ev::{self, Ev};
use crate::expr::{B, E, U};

pub enum Claim {
    /// Tends to this value.
    Tends(f64),
    Infinite,
    Bounded,
}

const STEPS: [f64; 12] = [1.0, -1.0, 1.25, -1.25, 1.5, -1.5, 1.625, -1.375, 1.75, -1.875, 1.3125, -1.0625];

fn value(e: &E, by: &str, x: f64) -> Option<Ev> {
    ev::eval(e, &[(by, Ev::exact(x))], false).ok()
}

/// Why the claim about `e` as `by` tends to `p` does not hold.
pub fn refute(e: &E, by: &str, p: f64, claim: &Claim) -> Option<String> {
    // Large numbers could hide the behaviour at the point behind another.
    // And irrational ones may cancel.
    let inexact = e.any(&mut |x| matches!(x, E::Pi | E::Eul | E::Real(_)));
    if inexact || e.max_lit() > 50 || e.size() > 24 || (p * 4.0).fract() != 0.0 || p.abs() > 16.0 {
        return None;
    }
    let scales: &[i32] = if matches!(claim, Claim::Bounded) {
        // Far enough out to tell how near to zero a fast oscillating divisor gets.
        &[9, 10, 11, 12, 13, 14, 16, 18, 20]
    } else if p == 0.0 { &[8, 12, 16, 20, 24, 28, 31] } else { &[8, 12, 16, 20, 24, 28] };
    // What every scale shows: how far from the claim.
    let mut seen: Vec<(f64, f64)> = vec![];
    for k in scales {
        let h = 2f64.powi(-k);
        let mut xs: Vec<f64> = STEPS.iter().map(|s| p + s * h).collect();
        xs.extend(near_zeros(e, by, p, h, matches!(claim, Claim::Infinite)));
        let mut worst: Option<(f64, f64)> = None;
        for x in xs {
            let Some(v) = value(e, by, x) else { continue };
            let certain = match claim {
                Claim::Tends(w) => ((v.v - w).abs() - 8.0 * v.e - 1e-9 * w.abs()).max(0.0),
                Claim::Infinite => v.v.abs() + 8.0 * v.e,
                Claim::Bounded => (v.v.abs() - 8.0 * v.e).max(0.0),
            };
            let better = match (claim, worst) {
                (_, None) => true,
                (Claim::Infinite, Some(w)) => certain < w.1,
                (_, Some(w)) => certain > w.1,
            };
            if better {
                worst = Some((x, certain));
            }
        }
        seen.extend(worst);
    }
    if seen.len() < 4 {
        return None;
    }
    let (first, last) = (seen[0].1, seen[seen.len() - 1].1);
    let late = &seen[seen.len() - 3..];
    let (holds, what) = match claim {
        Claim::Tends(w) => {
            let far = 0.02 * (1.0 + w.abs());
            (!(late.iter().all(|s| s.1 > far) && last >= first / 8.0), "stays away from it")
        }
        Claim::Infinite => (!(late.iter().all(|s| s.1 < 1e3) && last <= (8.0 * first).max(1e-4)), "stays small"),
        Claim::Bounded => (seen.iter().filter(|s| s.1 > 1e7).count() < 3, "grows without bound"),
    };
    (!holds).then(|| {
        let shown: Vec<(f64, f64)> = match claim {
            Claim::Bounded => seen.iter().filter(|s| s.1 > 1e7).copied().collect(),
            _ => late.to_vec(),
        };
        let at = shown.iter().map(|s| format!("{:e}", s.0 - p)).collect::<Vec<_>>().join(", ");
        format!("it {what}, as at distances {at}")
    })
}

/// Places next to which a divisor, or a sine, cosine, sum or difference, changes its sign.
fn near_zeros(e: &E, by: &str, p: f64, h: f64, small: bool) -> Vec<f64> {
    let mut divisors: Vec<E> = vec![];
    e.any(&mut |x| {
        let part = match x {
            E::Bin(B::Div, _, d) if !small => &**d,
            E::Un(U::Sin | U::Cos, _) | E::Bin(B::Add | B::Sub, ..) if small => x,
            _ => return false,
        };
        if part.has_var(by) && divisors.len() < 3 && !divisors.contains(part) {
            divisors.push(part.clone());
        }
        false
    });
    let mut found = vec![];
    for d in &divisors {
        let sign = |x: f64| value(d, by, x).filter(|v| v.definitely_nonzero()).map(|v| v.v > 0.0);
        // Close together where it oscillates fast.
        for width in [h / 8.0, h * h, h * h * h] {
            let mut last: Option<(f64, bool)> = None;
            for i in 0..8 {
                let x = p + h + width * i as f64 * 0.77;
                let Some(s) = sign(x) else {
                    last = None;
                    continue;
                };
                if let Some((l, ls)) = last {
                    if ls != s && l != x {
                        let (mut a, mut b) = (l, x);
                        for _ in 0..60 {
                            let m = a + (b - a) / 2.0;
                            match sign(m) {
                                Some(s) if s == ls => a = m,
                                Some(_) => b = m,
                                None => break,
                            }
                        }
                        found.extend([a, b]);
                        break;
                    }
                }
                last = Some((x, s));
            }
        }
    }
    found
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::expr::{bin, un, var};

    #[test]
    fn refutes_and_leaves_alone() {
        let inv = || bin(B::Div, E::Int(1), var("x"));
        let s = un(U::Sin, inv());
        let c = un(U::Cos, inv());
        assert!(refute(&s, "x", 0.0, &Claim::Tends(0.0)).is_some());
        assert!(refute(&bin(B::Mul, s.clone(), s.clone()), "x", 0.0, &Claim::Tends(1.0)).is_some());
        assert!(refute(&bin(B::Div, s.clone(), c), "x", 0.0, &Claim::Bounded).is_some());
        assert!(refute(&s, "x", 0.0, &Claim::Bounded).is_none());
        assert!(refute(&s, "x", 0.0, &Claim::Infinite).is_some());
        assert!(refute(&bin(B::Mul, s.clone(), s.clone()), "x", 0.0, &Claim::Infinite).is_some());
        assert!(refute(&bin(B::Mul, s, var("x")), "x", 0.0, &Claim::Tends(0.0)).is_none());
        assert!(refute(&inv(), "x", 0.0, &Claim::Infinite).is_none());
    }
}
