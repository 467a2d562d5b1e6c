//! A dictionary, as fuzzers use: the unusual numbers and words written in the code under test, offered
//! to the generators. It steers what is tried, never what is judged.

use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub ints: Vec<i64>,
    pub reals: Vec<f64>,
    pub words: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

/// Numbers that any run tries anyway.
fn usual(v: i64) -> bool {
    v.unsigned_abs() <= 10 || [63, 64, 99, 100].contains(&v)
}

const USUAL_REALS: [f64; 7] = [0.0, 0.5, 1.0, 3.14, 2.7, 0.1, 1e-9];

const USUAL_WORDS: [&str; 23] = ["~", 
    "x", "y", "u", "a", "b", "pi", "e", "sin", "cos", "exp", "ln", "sinx", "cosx", "expx", "sin1", "cos1", "infinity", "-", "+", "*", "/", "^",
];

pub fn load(src: &Path) {
    let mut d = Dict::default();
    let mut files = vec![];
    walk(src, &mut files);
    files.sort();
    for f in files {
        if let Ok(text) = std::fs::read_to_string(&f) {
            scan(&text, &mut d);
        }
    }
    d.ints.sort_unstable();
    d.ints.dedup();
    d.reals.sort_by(f64::total_cmp);
    d.reals.dedup();
    d.words.sort();
    d.words.dedup();
    d.ints.truncate(60);
    d.reals.truncate(40);
    d.words.truncate(40);
    let _ = DICT.set(d);
}

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

fn number(w: &str, d: &mut Dict) {
    if let Ok(x) = w.parse::<f64>() {
        if x.is_finite() && !USUAL_REALS.contains(&x) {
            // A bound like 1e6 meets integers too.
            if x.fract() == 0.0 && x.abs() < 9e18 {
                if usual(x as i64) {
                    return;
                }
                d.ints.push(x as i64);
            }
            d.reals.push(x);
        }
    }
}

fn scan(text: &str, d: &mut Dict) {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '"' {
            let start = i + 1;
            i += 1;
            while i < c.len() && c[i] != '"' {
                i += if c[i] == '\\' { 2 } else { 1 };
            }
            let w: String = c[start.min(c.len())..i.min(c.len())].iter().collect();
            if !w.is_empty() && w.chars().count() <= 16 && !w.contains(|c: char| c.is_whitespace() || "{}\\".contains(c)) {
                // A number written as text is a number: `n`, `-n/d` or `x.y`.
                let parts: Vec<&str> = w.split('/').collect();
                if parts.len() <= 2 && parts.iter().all(|p| p.parse::<f64>().is_ok_and(f64::is_finite)) {
                    for p in parts {
                        match p.parse::<i64>() {
                            Ok(v) if !usual(v) => d.ints.push(v),
                            Ok(_) => {}
                            Err(_) => number(p, d),
                        }
                    }
                } else if !USUAL_WORDS.contains(&w.as_str()) {
                    d.words.push(w);
                }
            }
            i += 1;
        } else if c[i] == '\'' && c.get(i + 2) == Some(&'\'') {
            if c[i + 1].is_alphanumeric() {
                d.words.push(c[i + 1].to_string());
            }
            i += 3;
        } else if c[i].is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let start = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || (c[i] == '.' && c.get(i + 1).is_some_and(|x| x.is_ascii_digit())) || ("+-".contains(c[i]) && matches!(c[i - 1], 'e' | 'E') && !c[start..i].contains(&'x'))) {
                i += 1;
            }
            let mut w: String = c[start..i].iter().filter(|x| **x != '_').collect();
            for s in ["i64", "u64", "f64", "i32", "u32", "f32", "i16", "u16", "i8", "u8", "usize", "isize", "i128", "u128"] {
                if let Some(b) = w.strip_suffix(s) {
                    w = b.to_string();
                    break;
                }
            }
            let v = if let Some(h) = w.strip_prefix("0x") {
                i64::from_str_radix(h, 16).ok()
            } else if let Some(b) = w.strip_prefix("0b") {
                i64::from_str_radix(b, 2).ok()
            } else {
                w.parse::<i64>().ok()
            };
            // `1 << 20` and `10.pow(6)`, as such bounds are often written.
            let rest: String = c[i..c.len().min(i + 24)].iter().collect();
            let after = |op: &str| {
                let r = rest.trim_start().strip_prefix(op)?.trim_start();
                r[..r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len())].parse::<u32>().ok()
            };
            let made = match v {
                Some(v) if v > 0 => match (after("<<"), after(".pow(")) {
                    (Some(k), _) if k < 63 => v.checked_mul(1 << k),
                    (_, Some(k)) => v.checked_pow(k),
                    _ => None,
                },
                _ => None,
            };
            match made.or(v) {
                Some(v) if !usual(v) => d.ints.push(v),
                Some(_) => {}
                None => number(&w, d),
            }
        } else {
            i += 1;
        }
    }
    for (name, v) in [
        ("u8::MAX", u8::MAX as i64),
        ("i8::MAX", i8::MAX as i64),
        ("u16::MAX", u16::MAX as i64),
        ("i16::MAX", i16::MAX as i64),
        ("u32::MAX", u32::MAX as i64),
        ("i32::MAX", i32::MAX as i64),
        ("i8::MIN", i8::MIN as i64),
        ("i16::MIN", i16::MIN as i64),
        ("i32::MIN", i32::MIN as i64),
    ] {
        if text.contains(name) {
            d.ints.push(v);
        }
    }
}
