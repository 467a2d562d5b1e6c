//! Drives one property: the committed regression cases, the bounded-exhaustive part, then proptest
//! generation over eight shards, each a pure function of VERIF_SEED; shrinks what fails; writes the
//! replay file and the evidence.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};

use crate::expr::{parse_sexpr, E};
use crate::gen::Tape;

const SHARDS: usize = 8;
const STACK: usize = 512 << 20;

// ---- cases ----

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub e: Vec<E>,
    pub k: Vec<i64>,
}

impl Case {
    pub fn new(e: Vec<E>, k: Vec<i64>) -> Case {
        Case { e, k }
    }
    pub fn text(&self) -> String {
        let e: Vec<String> = self.e.iter().map(E::to_string).collect();
        let k: Vec<String> = self.k.iter().map(i64::to_string).collect();
        format!("{} @@ {}", e.join(" ;; "), k.join(" "))
    }
    pub fn parse(s: &str) -> Option<Case> {
        let (e, k) = s.split_once("@@")?;
        let e = if e.trim().is_empty() {
            vec![]
        } else {
            e.split(";;").map(parse_sexpr).collect::<Option<Vec<E>>>()?
        };
        let k = k.split_whitespace().map(|x| x.parse().ok()).collect::<Option<Vec<i64>>>()?;
        Some(Case { e, k })
    }
    fn weight(&self) -> (usize, u128) {
        let size: usize = self.e.iter().map(E::size).sum::<usize>() + self.e.len() + self.k.len();
        let k: u128 = self.k.iter().map(|k| k.unsigned_abs() as u128).sum();
        (size, k)
    }
    fn shrinks(&self) -> Vec<Case> {
        let mut out = vec![];
        for i in 0..self.e.len() {
            let mut c = self.clone();
            c.e.remove(i);
            out.push(c.clone());
            // Sequences pair an operation code with each value.
            if i < c.k.len() {
                c.k.remove(i);
                out.push(c.clone());
            }
            if i > 0 && i <= self.k.len() {
                let mut c = self.clone();
                c.e.remove(i);
                c.k.remove(i - 1);
                out.push(c);
            }
        }
        for i in 0..self.e.len() {
            for s in self.e[i].shrinks() {
                let mut c = self.clone();
                c.e[i] = s;
                out.push(c);
            }
        }
        for i in 0..self.k.len() {
            let v = self.k[i];
            for w in [0, 1, v / 2, v - v.signum()] {
                if w != v && w.unsigned_abs() < v.unsigned_abs() {
                    let mut c = self.clone();
                    c.k[i] = w;
                    out.push(c);
                }
            }
        }
        out
    }
}

// ---- outcomes ----

pub enum Stop {
    /// Outside the property's domain, or nothing can be decided.
    Discard(&'static str),
    Fail(String),
}

pub type Verdict = Result<(), Stop>;

/// What a check saw of one case.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn hit(&mut self) {
        self.nontrivial = true;
    }
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::runner::Stop::Fail(format!($($a)*))) };
}
#[macro_export]
macro_rules! discard {
    ($a:expr) => { return Err($crate::runner::Stop::Discard($a)) };
}

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    /// Longest tape of random words.
    pub tape: usize,
    pub gen: fn(&mut Tape) -> Case,
    pub check: fn(&Case, &mut Obs) -> Verdict,
    /// The bounded-exhaustive part.
    pub small: fn(bool, &mut dyn FnMut(Case)),
    /// Generated cases in the quick and the thorough tier.
    pub quick: u64,
    pub thorough: u64,
}

// ---- calls into the code under test ----

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p: &dyn Any = info.payload();
        let msg = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if INSIDE.with(Cell::get) {
            LAST.with(|l| *l.borrow_mut() = format!("{msg} at {at}"));
        } else {
            LAST.with(|l| *l.borrow_mut() = format!("{msg} at {at}"));
        }
    }));
}

/// Runs code under test; a panic there comes back as its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = INSIDE.with(|i| i.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    INSIDE.with(|i| i.set(was));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub fn is_overflow(msg: &str) -> bool {
    msg.to_lowercase().contains("overflow")
}

/// As `guard`; an arithmetic overflow panic puts the case aside, any other panic fails it.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Stop> {
    guard(f).map_err(|m| {
        if is_overflow(&m) {
            Stop::Discard("overflow panic")
        } else {
            Stop::Fail(format!("{what} panicked: {m}"))
        }
    })
}

/// As `call`, where numbers are too small for an overflow to be legitimate.
pub fn call_strict<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Stop> {
    guard(f).map_err(|m| Stop::Fail(format!("{what} panicked: {m}")))
}

// ---- the clock ----

/// A case of this size takes milliseconds; one that runs this long does not come back.
const STUCK: Duration = Duration::from_secs(60);
const STUCK_CODE: i32 = 99;

/// When each thread began the case it is on, in milliseconds since the start plus one; 0 when idle.
static BEAT: [AtomicU64; SHARDS + 2] = [const { AtomicU64::new(0) }; SHARDS + 2];
static SLOWEST: Mutex<(u64, String)> = Mutex::new((0, String::new()));
static SLOWEST_MS: AtomicU64 = AtomicU64::new(200);

thread_local! {
    static LANE: Cell<usize> = const { Cell::new(SHARDS + 1) };
}

fn clock() -> Instant {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *START.get_or_init(Instant::now)
}

fn now_ms() -> u64 {
    clock().elapsed().as_millis() as u64 + 1
}

/// Ends the process by `then` once a case has been running for too long.
fn watch(then: impl FnOnce() -> i32 + Send + 'static) {
    clock();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        let now = now_ms();
        if BEAT.iter().any(|b| {
            let b = b.load(Ordering::Relaxed);
            b != 0 && now.saturating_sub(b) > STUCK.as_millis() as u64
        }) {
            let code = then();
            let _ = std::io::stdout().flush();
            std::process::exit(code);
        }
    });
}

fn judge(p: &Prop, c: &Case, o: &mut Obs) -> Verdict {
    let lane = &BEAT[LANE.get()];
    let t0 = now_ms();
    lane.store(t0, Ordering::Relaxed);
    let v = judge_untimed(p, c, o);
    lane.store(0, Ordering::Relaxed);
    let took = now_ms() - t0;
    if took > SLOWEST_MS.load(Ordering::Relaxed) {
        SLOWEST_MS.store(took, Ordering::Relaxed);
        let mut s = SLOWEST.lock().unwrap();
        if took > s.0 {
            *s = (took, c.text());
        }
    }
    v
}

/// Judges a case. A panic in the code under test that the check did not provide for (comparing,
/// copying and the like never may) fails the case; one anywhere else is a fault of the check.
fn judge_untimed(p: &Prop, c: &Case, o: &mut Obs) -> Verdict {
    catch_unwind(AssertUnwindSafe(|| (p.check)(c, o))).unwrap_or_else(|e| {
        let m = LAST.with(|l| l.borrow().clone());
        if m.contains("/repo/src/") {
            return Err(Stop::Fail(format!("panicked: {m}")));
        }
        eprintln!("harness panic: {m}");
        resume_unwind(e)
    })
}

// ---- statistics ----

#[derive(Default)]
struct Stats {
    evaluations: u64,
    generated: u64,
    enumerated: u64,
    corpus: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    discards: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

fn hash_text(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.generated += o.generated;
        self.enumerated += o.enumerated;
        self.corpus += o.corpus;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.discards {
            *self.discards.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
    fn run(&mut self, p: &Prop, c: &Case) -> Option<String> {
        let mut obs = Obs::default();
        self.evaluations += 1;
        let v = judge(p, c, &mut obs);
        for l in &obs.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        match v {
            Ok(()) => {
                if obs.nontrivial {
                    self.nontrivial += 1;
                    let text = c.text();
                    if self.distinct.insert(hash_text(&text)) {
                        let n = self.nontrivial;
                        // 1st, 2nd, 4th, ... so that samples spread over the run.
                        if n.is_power_of_two() && text.len() < 400 {
                            self.samples.push(text);
                        }
                    }
                }
                None
            }
            Err(Stop::Discard(why)) => {
                *self.discards.entry(why).or_default() += 1;
                None
            }
            Err(Stop::Fail(m)) => Some(m),
        }
    }
}

// ---- shrinking ----

fn fails(p: &Prop, c: &Case) -> Option<String> {
    match judge(p, c, &mut Obs::default()) {
        Err(Stop::Fail(m)) => Some(m),
        _ => None,
    }
}

fn shrink(mut c: Case, mut msg: String, fails: &mut dyn FnMut(&Case) -> Option<String>, budget: usize, secs: u64) -> (Case, String) {
    let start = Instant::now();
    let mut n = 0;
    'outer: loop {
        let mut cand = c.shrinks();
        cand.sort_by_key(Case::weight);
        let w = c.weight();
        for s in cand {
            if s == c || s.weight().0 > w.0 {
                continue;
            }
            n += 1;
            if n > budget || start.elapsed() > Duration::from_secs(secs) {
                break 'outer;
            }
            if let Some(m) = fails(&s) {
                c = s;
                msg = m;
                continue 'outer;
            }
        }
        break;
    }
    (c, msg)
}

// ---- the run ----

struct Opts {
    seed: u64,
    thorough: bool,
    crumbs: Option<PathBuf>,
}

struct Failure {
    case: Case,
    msg: String,
    /// The shard and the how-manieth case of it, where a shard came upon it.
    at: Option<(usize, u64)>,
}

fn shard_seed(id: &str, seed: u64, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4 {
        let h = hash_text(&format!("{id}/{seed}/{shard}/{i}"));
        let h = (h ^ (h >> 31)).wrapping_mul(0x9e3779b97f4a7c15);
        out[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

struct Crumb(Option<std::fs::File>);

impl Crumb {
    fn new(o: &Opts, shard: usize) -> Crumb {
        Crumb(o.crumbs.as_ref().map(|d| std::fs::File::create(d.join(format!("{shard}"))).expect("breadcrumb file")))
    }
    fn drop(&mut self, c: &Case) {
        if let Some(f) = &mut self.0 {
            use std::os::unix::fs::FileExt;
            let t = c.text() + "\n";
            let _ = f.write_all_at(t.as_bytes(), 0);
            let _ = f.set_len(t.len() as u64);
        }
    }
}

/// A slow machine or slow code ends the search early rather than without an answer.
fn out_of_time(o: &Opts) -> bool {
    !o.thorough && clock().elapsed() > Duration::from_secs(480)
}

fn run_shard(p: &Prop, o: &Opts, shard: usize, known: &HashSet<String>, found: &Mutex<Vec<Failure>>, stop: &AtomicBool, done: &AtomicU64) -> Stats {
    LANE.set(shard);
    let mut st = Stats::default();
    let mut crumb = Crumb::new(o, shard);
    // Bounded-exhaustive part, dealt out by index.
    let mut i = 0usize;
    let mut first: Option<Failure> = None;
    (p.small)(o.thorough, &mut |c| {
        i += 1;
        if i % SHARDS != shard || first.is_some() || stop.load(Ordering::Relaxed) || out_of_time(o) {
            return;
        }
        crumb.drop(&c);
        st.enumerated += 1;
        done.fetch_add(1, Ordering::Relaxed);
        if let Some(msg) = st.run(p, &c) {
            if !known.contains(&c.text()) {
                first = Some(Failure { case: c, msg, at: Some((shard, st.enumerated)) });
            }
        }
    });
    if let Some(f) = first {
        stop.store(true, Ordering::Relaxed);
        found.lock().unwrap().push(f);
        return st;
    }
    if stop.load(Ordering::Relaxed) {
        return st;
    }
    // Generated part.
    let mut original: Option<Failure> = None;
    let cell = RefCell::new((st, crumb, &mut original));
    let res = generate(p, o, shard, |tape| {
        if stop.load(Ordering::Relaxed) || out_of_time(o) {
            return Ok(());
        }
        let case = (p.gen)(&mut Tape::new(&tape));
        let (st, crumb, original) = &mut *cell.borrow_mut();
        crumb.drop(&case);
        st.generated += 1;
        done.fetch_add(1, Ordering::Relaxed);
        match st.run(p, &case) {
            Some(m) if !known.contains(&case.text()) => {
                if original.is_none() {
                    let at = Some((shard, st.enumerated + st.generated));
                    **original = Some(Failure { case, msg: m.clone(), at });
                }
                Err(TestCaseError::fail(m))
            }
            _ => Ok(()),
        }
    });
    let st = cell.into_inner().0;
    match res {
        Ok(()) => {}
        Err(TestError::Fail(_, tape)) => {
            let case = (p.gen)(&mut Tape::new(&tape));
            let mut f = original.take().expect("what failed");
            // What failed on its way through the generator's shrinking is kept if it fails again.
            if let Some(msg) = fails(p, &case) {
                f = Failure { case, msg, ..f };
            }
            stop.store(true, Ordering::Relaxed);
            found.lock().unwrap().push(f);
        }
        Err(TestError::Abort(r)) => panic!("proptest aborted: {r}"),
    }
    st
}

fn generate(p: &Prop, o: &Opts, shard: usize, run: impl Fn(Vec<u32>) -> Result<(), TestCaseError>) -> Result<(), TestError<Vec<u32>>> {
    let total = if o.thorough { p.thorough } else { p.quick };
    let cases = total / SHARDS as u64;
    let config = Config {
        cases: cases as u32,
        failure_persistence: None,
        max_shrink_iters: 3000,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &shard_seed(p.id, o.seed, shard));
    let mut runner = TestRunner::new_with_rng(config, rng);
    let strategy = prop::collection::vec(any::<u32>(), 4..=p.tape);
    runner.run(&strategy, run)
}

/// The last `keep` cases of a shard up to its `upto`-th, generated once more.
fn history(p: &Prop, o: &Opts, shard: usize, upto: u64, keep: u64) -> Vec<Case> {
    let (mut i, mut n) = (0usize, 0u64);
    let mut out = vec![];
    (p.small)(o.thorough, &mut |c| {
        i += 1;
        if i % SHARDS == shard {
            n += 1;
            if n <= upto && n + keep > upto {
                out.push(c);
            }
        }
    });
    let cell = RefCell::new((n, &mut out));
    let _ = generate(p, o, shard, |tape| {
        let (n, out) = &mut *cell.borrow_mut();
        *n += 1;
        if *n > upto {
            return Err(TestCaseError::fail("enough"));
        }
        if *n + keep > upto {
            out.push((p.gen)(&mut Tape::new(&tape)));
        }
        Ok(())
    });
    out
}

/// Runs the cases of a file in a process of its own: the exit code, if it came to that in time.
fn afresh(p: &Prop, file: &Path) -> Option<i32> {
    let mut cmd = Command::new(std::env::current_exe().expect("own path"));
    cmd.arg(p.id).arg("--replay").arg(file).stdout(Stdio::null()).stderr(Stdio::null());
    wait(cmd, Duration::from_secs(30)).and_then(|s| s.code())
}

/// A failure that does not repeat alone hangs on what was called before: the calls then belong to it.
fn with_history(p: &Prop, o: &Opts, root: &Path, f: &Failure) {
    let mut msg = format!("{} (not when it is the only case: it depends on calls before it, or at the same time)", f.msg);
    let mut cases = vec![f.case.clone()];
    if let Some((shard, upto)) = f.at {
        let all = history(p, o, shard, upto, 1 << 17);
        let mut tries: Vec<Vec<Case>> = [16, 256, 1 << 12, 1 << 15, 1 << 17]
            .iter()
            .filter(|k| **k < all.len() * 8)
            .map(|k| all[all.len() - all.len().min(*k)..].to_vec())
            .collect();
        // What the other shards did meanwhile may matter as well.
        tries.push((0..SHARDS).flat_map(|i| history(p, o, i, upto * 2, 1 << 15)).collect());
        for t in tries {
            let path = write_replay(root, p.id, &t, &msg);
            if afresh(p, &path) == Some(1) {
                cases = t;
                msg = format!("{msg}; so somewhere in the {} cases of the replay file", cases.len());
                break;
            }
            let _ = std::fs::remove_file(&path);
        }
    }
    report_cases(root, p.id, &f.case, &cases, &msg);
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_map(m: &BTreeMap<&'static str, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    format!("{{{}}}", v.join(", "))
}

fn write_evidence(root: &Path, p: &Prop, o: &Opts, st: &Stats, wall: f64, violations: usize) {
    let mut samples: Vec<&String> = st.samples.iter().collect();
    samples.sort_by_key(|s| hash_text(s));
    let shown: Vec<String> = samples.iter().take(12).map(|s| json_str(s)).collect();
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"nontrivial\": {},\n    \"generated\": {},\n    \"enumerated\": {},\n    \"regression_cases\": {},\n    \"rule\": {},\n    \"labels\": {},\n    \"set_aside\": {},\n    \"samples\": [{}]\n  }},\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json_str(p.id),
        if o.thorough { "thorough" } else { "quick" },
        o.seed,
        st.evaluations,
        st.distinct.len(),
        st.nontrivial,
        st.generated,
        st.enumerated,
        st.corpus,
        json_str(p.rule),
        json_map(&st.labels),
        json_map(&st.discards),
        shown.join(", "),
        wall,
        violations
    );
    let dir = root.join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence directory");
    std::fs::write(dir.join(format!("{}.json", p.id)), text).expect("evidence file");
}

fn write_replay(root: &Path, id: &str, cases: &[Case], msg: &str) -> PathBuf {
    let dir = root.join("replay");
    std::fs::create_dir_all(&dir).expect("replay directory");
    let text = cases.iter().map(Case::text).collect::<Vec<_>>().join("\n");
    let path = dir.join(format!("{id}-{:016x}.txt", hash_text(&text)));
    let mut out = std::fs::File::create(&path).expect("replay file");
    writeln!(out, "# property {id}\n# {}\n{text}", msg.replace('\n', " ")).expect("replay file");
    path
}

fn report(root: &Path, id: &str, f: &Failure) {
    report_cases(root, id, &f.case, &[f.case.clone()], &f.msg);
}

fn report_cases(root: &Path, id: &str, case: &Case, cases: &[Case], msg: &str) {
    let path = write_replay(root, id, cases, msg);
    println!("failing case: {}", case.text());
    println!("{msg}");
    println!("VIOLATION property={id} replay={}", path.display());
}

fn read_cases(path: &Path) -> Vec<Case> {
    let Ok(text) = std::fs::read_to_string(path) else {
        return vec![];
    };
    text.lines()
        .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
        .map(|l| Case::parse(l).unwrap_or_else(|| panic!("cannot read case {l:?} of {}", path.display())))
        .collect()
}

fn known_findings(root: &Path, id: &str) -> Vec<Case> {
    let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) else {
        return vec![];
    };
    let prefix = format!("finding: property={id} case=");
    text.lines()
        .filter_map(|l| l.strip_prefix(&prefix))
        .map(|l| {
            let l = l.split(" ## ").next().unwrap();
            Case::parse(l).unwrap_or_else(|| panic!("cannot read known finding {l:?}"))
        })
        .collect()
}

fn worker(p: &Prop, root: &Path, o: &Opts) -> i32 {
    install_hook();
    // Found already, and shrinking: what is found is reported as it stands.
    let pending: Arc<Mutex<Option<Failure>>> = Arc::default();
    let (pending2, root2, id) = (pending.clone(), root.to_path_buf(), p.id);
    watch(move || match &*pending2.lock().unwrap() {
        Some(f) => {
            report(&root2, id, f);
            1
        }
        None => STUCK_CODE,
    });
    let start = Instant::now();
    let known = known_findings(root, p.id);
    let known_set: HashSet<String> = known.iter().map(Case::text).collect();
    let found: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let mut total = Stats::default();
    let mut broken = false;

    // Regression cases first, on a thread with the same stack.
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let mut st = Stats::default();
                let mut crumb = Crumb::new(o, SHARDS);
                LANE.set(SHARDS);
                for c in &known {
                    if let Some(m) = fails(p, c) {
                        println!("KNOWN-FINDING: property={} {} ({})", p.id, c.text(), m.replace('\n', " "));
                    }
                }
                for c in read_cases(&root.join("corpus").join(format!("{}.txt", p.id))) {
                    crumb.drop(&c);
                    st.corpus += 1;
                    if let Some(msg) = st.run(p, &c) {
                        if !known_set.contains(&c.text()) {
                            found.lock().unwrap().push(Failure { case: c, msg, at: None });
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                }
                st
            })
            .expect("thread");
        match h.join() {
            Ok(st) => total.merge(st),
            Err(_) => broken = true,
        }
    });
    if !broken && !stop.load(Ordering::Relaxed) {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|i| {
                    let (known_set, found, stop, done) = (&known_set, &found, &stop, &done);
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || run_shard(p, o, i, known_set, found, stop, done))
                        .expect("thread")
                })
                .collect();
            for h in hs {
                match h.join() {
                    Ok(st) => total.merge(st),
                    Err(_) => broken = true,
                }
            }
        });
    }
    let mut failures = found.into_inner().unwrap();
    if broken && failures.is_empty() {
        eprintln!("the check itself failed (see above)");
        return 2;
    }
    // One violation is reported: the smallest, shrunk.
    failures.sort_by_key(|f| f.case.weight());
    let mut code = 0;
    if !failures.is_empty() {
        let f = failures.remove(0);
        *pending.lock().unwrap() = Some(Failure { case: f.case.clone(), msg: f.msg.clone(), at: f.at });
        let shrunk = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || shrink(f.case.clone(), f.msg.clone(), &mut |c| fails(p, c), 20_000, 30))
                .expect("thread")
                .join()
        });
        let (case, msg) = shrunk.unwrap_or((f.case.clone(), f.msg.clone()));
        let shrunk = Failure { case, msg, at: f.at };
        let path = write_replay(root, p.id, &[shrunk.case.clone()], &shrunk.msg);
        // Without an end, or with a bad one, it is no better than a failure.
        if afresh(p, &path) != Some(0) {
            report(root, p.id, &shrunk);
        } else {
            let _ = std::fs::remove_file(&path);
            with_history(p, o, root, &f);
        }
        code = 1;
    }
    let wall = start.elapsed().as_secs_f64();
    write_evidence(root, p, o, &total, wall, code as usize);
    println!(
        "{}: {} cases ({} generated, {} enumerated, {} regression), {} distinct non-trivial, {} violation(s), {:.1} s",
        p.id,
        total.evaluations,
        total.generated,
        total.enumerated,
        total.corpus,
        total.distinct.len(),
        code,
        wall
    );
    if std::env::var_os("SYM_STATS").is_some() {
        println!("slowest {:?}", SLOWEST.lock().unwrap());
        println!("labels {:?}\nset aside {:?}", total.labels, total.discards);
    }
    code
}

/// Runs the cases of a file, and nothing else. Exit 1 with VIOLATION when one fails.
fn replay(p: &Prop, path: &Path) -> i32 {
    install_hook();
    let cases = read_cases(path);
    let line = format!("{}\nVIOLATION property={} replay={}", no_answer(STUCK), p.id, path.display());
    watch(move || {
        println!("{line}");
        1
    });
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                for c in &cases {
                    let mut o = Obs::default();
                    match judge(p, c, &mut o) {
                        Ok(()) => println!("held {:?}: {}", o.labels, c.text()),
                        Err(Stop::Discard(w)) => println!("set aside ({w}): {}", c.text()),
                        Err(Stop::Fail(m)) => {
                            println!("{m}\nVIOLATION property={} replay={}", p.id, path.display());
                            return 1;
                        }
                    }
                }
                0
            })
            .expect("thread")
            .join()
    });
    r.unwrap_or(2)
}

// ---- the parent: survives a worker that dies ----

fn wait(mut cmd: Command, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut child = cmd.spawn().expect("cannot start the worker");
    let start = Instant::now();
    loop {
        if let Some(s) = child.try_wait().expect("wait") {
            return Some(s);
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn no_answer(limit: Duration) -> String {
    format!("no answer within {} s", limit.as_secs())
}

fn dies(me: &Path, p: &Prop, scratch: &Path, c: &Case, limit: Duration) -> Option<String> {
    let f = scratch.join("one.txt");

    std::fs::write(&f, c.text() + "\n").ok()?;
    let mut cmd = Command::new(me);
    cmd.arg(p.id).arg("--replay").arg(&f).stdout(Stdio::null()).stderr(Stdio::null());
    let Some(s) = wait(cmd, limit) else { return Some(no_answer(limit)) };
    use std::os::unix::process::ExitStatusExt;
    s.signal().filter(|s| [4, 6, 7, 8, 11].contains(s)).map(|s| format!("the process died with signal {s} (stack exhausted or aborted)"))
}

fn parent(p: &Prop, root: &Path, o: &Opts) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let me = std::env::current_exe().expect("own path");
    let limit = Duration::from_secs(if o.thorough { 3 * 3600 } else { 700 });
    let mut cmd = Command::new(&me);
    cmd.arg(p.id).arg("--worker");
    let Some(s) = wait(cmd, limit) else {
        eprintln!("{}: no answer within {} s", p.id, limit.as_secs());
        return 3;
    };
    if let Some(c) = s.code().filter(|c| *c != STUCK_CODE) {
        return c;
    }
    let sig = s.signal().unwrap_or(0);
    if sig == 9 {
        eprintln!("{}: the worker was killed (memory?)", p.id);
        return 4;
    }
    // The code under test took the process down: find the case, confirm it alone, shrink it.
    let scratch = std::env::temp_dir().join(format!("symcheck-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let mut cmd = Command::new(&me);
    cmd.arg(p.id).arg("--worker").env("SYM_CRUMBS", &scratch);
    let again = wait(cmd, limit);
    let mut hit = None;
    let mut last = vec![];
    for i in 0..=SHARDS {
        for c in read_cases(&scratch.join(format!("{i}"))) {
            last.push(c.clone());
            if hit.is_none() {
                hit = dies(&me, p, &scratch, &c, STUCK - Duration::from_secs(5)).map(|m| (c, m));
            }
        }
    }
    let code = match hit {
        Some((c, m)) => {
            let (case, msg) = shrink(c, m, &mut |c| dies(&me, p, &scratch, c, Duration::from_secs(20)), 400, 90);
            report(root, p.id, &Failure { case, msg, at: None });
            write_evidence(root, p, o, &Stats::default(), 0.0, 1);
            1
        }
        None if again.is_some_and(|s| s.code() == Some(STUCK_CODE) || s.signal().is_some_and(|s| s != 9)) => {
            let msg = "the calls under way at the same time, or before, bring the process down or to a standstill, twice; none does alone";
            report_cases(root, p.id, &last[0], &last, msg);
            write_evidence(root, p, o, &Stats::default(), 0.0, 1);
            1
        }
        None => {
            eprintln!("{}: the worker died with signal {sig} or stood still, and no single case reproduces it", p.id);
            5
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

pub fn main(props: &[Prop], root: &Path) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(p) = args.first().and_then(|id| props.iter().find(|p| p.id == *id)) else {
        eprintln!("usage: symcheck <property> [--replay FILE]");
        return 64;
    };
    let o = Opts {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        crumbs: std::env::var_os("SYM_CRUMBS").map(PathBuf::from),
    };
    crate::dict::load(&root.join("../repo/src"));
    if std::env::var_os("SYM_DICT").is_some() {
        eprintln!("{:?}", crate::dict::get());
    }
    match args.get(1).map(String::as_str) {
        Some("--worker") => worker(p, root, &o),
        Some("--replay") => replay(p, Path::new(args.get(2).expect("a replay file"))),
        Some("--case") => {
            // One case given on the command line.
            let f = std::env::temp_dir().join(format!("symcase-{}", std::process::id()));
            std::fs::write(&f, format!("{}\n", args[2])).expect("scratch file");
            let r = replay(p, &f);
            let _ = std::fs::remove_file(&f);
            r
        }
        _ => parent(p, root, &o),
    }
}
