//! Check framework: deterministic cases spread over threads, three-valued verdicts, evidence,
//! known findings, replay, and crash/hang attribution through a supervising parent process.
use crate::json::{s, J};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    /// Case count for the tier.
    pub fn n(self, quick: u64, thorough: u64) -> u64 {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub struct Fail {
    pub sig: String,
    pub detail: String,
}

/// What one thread observed.
#[derive(Default)]
pub struct Local {
    pub seed: u64,
    pub pid: &'static str,
    pub phase: &'static str,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    /// Largest values measured.
    pub highs: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    fails: Vec<Fail>,
    /// Text describing the current case, for the replay file.
    pub doing: String,
}
impl Local {
    pub fn count(&mut self, k: impl AsRef<str>) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: impl AsRef<str>, n: u64) {
        let k = k.as_ref();
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn high(&mut self, k: &str, n: u64) {
        match self.highs.get_mut(k) {
            Some(x) => *x = n.max(*x),
            None => {
                self.highs.insert(k.to_string(), n);
            }
        }
    }
    /// One evaluated input; `h` identifies it.
    pub fn seen(&mut self, h: u64) {
        self.evals += 1;
        self.distinct.insert(h);
    }
    pub fn seen_trivial(&mut self) {
        self.evals += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut t = f();
            if t.len() > 1500 {
                let mut e = 1500;
                while !t.is_char_boundary(e) {
                    e -= 1;
                }
                t.truncate(e);
                t.push_str("...");
            }
            self.samples.push(format!("[{}] {}", self.phase, t));
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        self.fails.push(Fail {
            sig: sig.into(),
            detail: detail.into(),
        });
    }
    pub fn check(&mut self, sig: &str, r: Result<(), String>) -> bool {
        match r {
            Ok(()) => true,
            Err(e) => {
                self.fail(sig, e);
                false
            }
        }
    }
    pub fn rng(&self, case: u64) -> crate::rng::Rng {
        crate::rng::Rng::for_case(self.seed, &format!("{}/{}", self.pid, self.phase), case)
    }
}

pub type CaseFn = Box<dyn Fn(&mut Local, u64) + Sync + Send>;
pub struct Phase {
    pub name: &'static str,
    pub cases: u64,
    pub exhaustive: bool,
    pub run: CaseFn,
}
pub fn phase(name: &'static str, cases: u64, run: impl Fn(&mut Local, u64) + Sync + Send + 'static) -> Phase {
    Phase {
        name,
        cases,
        exhaustive: false,
        run: Box::new(run),
    }
}
pub fn exhaustive(name: &'static str, cases: u64, run: impl Fn(&mut Local, u64) + Sync + Send + 'static) -> Phase {
    Phase {
        name,
        cases,
        exhaustive: true,
        run: Box::new(run),
    }
}

pub struct Check {
    pub pid: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub stack: usize,
    /// Counters that must not be zero, else the run observed too little to decide.
    pub must_see: Vec<&'static str>,
    pub phases: Vec<Phase>,
}

pub struct Opts {
    pub pid: String,
    pub tier: Tier,
    pub seed: u64,
    pub dir: PathBuf,
    /// Run only this phase and case.
    pub only: Option<(String, u64)>,
}

const THREADS: usize = 8;
const MAX_FAILS: usize = 30;

pub struct Known {
    entries: Vec<(String, String)>,
}
impl Known {
    pub fn load(dir: &Path, pid: &str) -> Known {
        let mut entries = vec![];
        if let Ok(t) = std::fs::read_to_string(dir.join("known_findings.txt")) {
            for l in t.lines() {
                if let Some(rest) = l.strip_prefix(&format!("known: property={pid} sig=")) {
                    let (sig, d) = rest.split_once(" | ").unwrap_or((rest, ""));
                    entries.push((sig.trim().to_string(), d.trim().to_string()));
                }
            }
        }
        Known { entries }
    }
    fn get(&self, sig: &str) -> Option<&str> {
        self.entries
            .iter()
            .find(|(x, _)| x == sig)
            .map(|(_, d)| d.as_str())
    }
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
        .unwrap_or_else(|| "panic".into())
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn run_case(ph: &Phase, l: &mut Local, case: u64) {
    l.doing.clear();
    let r = catch_unwind(AssertUnwindSafe(|| (ph.run)(l, case)));
    if let Err(p) = r {
        let at = LAST_PANIC.with(|x| std::mem::take(&mut *x.borrow_mut()));
        // A panic raised by the harness itself is a harness error, not a verdict.
        let t = panic_text(p);
        let sig = if at.contains("harness/src") || at.starts_with("src/") {
            "harness-panic"
        } else {
            "panic"
        };
        l.fail(sig, format!("panicked at {at}: {t}"));
    }
}

#[derive(Default)]
struct Outcome {
    locals: Vec<Local>,
    /// phase, case, fail, doing
    fails: Vec<(&'static str, u64, Fail, String)>,
    per_phase: Vec<(&'static str, u64, bool)>,
    known_hits: BTreeMap<String, u64>,
}

fn explore(c: &Check, o: &Opts, known: &Known, progress: &std::fs::File) -> Outcome {
    let mut out = Outcome::default();
    for (pi, ph) in c.phases.iter().enumerate() {
        let (mut lo, mut hi) = (0, ph.cases);
        if let Some((p, k)) = &o.only {
            if p != ph.name {
                continue;
            }
            lo = *k;
            hi = *k + 1;
        }
        let next = AtomicU64::new(lo);
        let nfail = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        let fails = Mutex::new(vec![]);
        let hits = Mutex::new(BTreeMap::<String, u64>::new());
        let locals = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for t in 0..if o.only.is_some() { 1 } else { THREADS } {
                let (next, nfail, fails, hits, locals, done) = (&next, &nfail, &fails, &hits, &locals, &done);
                std::thread::Builder::new()
                    .stack_size(c.stack)
                    .spawn_scoped(sc, move || {
                        let mut l = Local {
                            seed: o.seed,
                            pid: c.pid,
                            phase: ph.name,
                            ..Default::default()
                        };
                        loop {
                            let case = next.fetch_add(1, Ordering::Relaxed);
                            if case >= hi || nfail.load(Ordering::Relaxed) >= MAX_FAILS {
                                break;
                            }
                            let mut b = [0u8; 16];
                            b[..8].copy_from_slice(&(pi as u64 + 1).to_le_bytes());
                            b[8..].copy_from_slice(&case.to_le_bytes());
                            let _ = progress.write_at(&b, t as u64 * 16);
                            run_case(ph, &mut l, case);
                            done.fetch_add(1, Ordering::Relaxed);
                            for f in std::mem::take(&mut l.fails) {
                                if known.get(&f.sig).is_some() {
                                    *hits.lock().unwrap().entry(f.sig.clone()).or_default() += 1;
                                } else {
                                    nfail.fetch_add(1, Ordering::Relaxed);
                                    fails
                                        .lock()
                                        .unwrap()
                                        .push((ph.name, case, f, l.doing.clone()));
                                }
                            }
                        }
                        let _ = progress.write_at(&[0u8; 16], t as u64 * 16);
                        locals.lock().unwrap().push(l);
                    })
                    .expect("spawn");
            }
        });
        out.per_phase
            .push((ph.name, done.load(Ordering::Relaxed), ph.exhaustive));
        let mut f = fails.into_inner().unwrap();
        f.sort_by(|a, b| (a.1, &a.2.sig).cmp(&(b.1, &b.2.sig)));
        out.fails.append(&mut f);
        for (k, v) in hits.into_inner().unwrap() {
            *out.known_hits.entry(k).or_default() += v;
        }
        out.locals.append(&mut locals.into_inner().unwrap());
    }
    out
}

pub fn oneline(t: &str, n: usize) -> String {
    let mut x: String = t
        .chars()
        .map(|c| if c.is_control() { ' ' } else { c })
        .take(n)
        .collect();
    if t.chars().count() > n {
        x.push_str("...");
    }
    x
}

fn write_replay(o: &Opts, phase: &str, case: u64, sig: &str, detail: &str, doing: &str) -> PathBuf {
    let dir = o.dir.join("evidence/replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.json", o.pid, phase, case));
    let j = J::Obj(vec![
        ("property".into(), s(&o.pid)),
        ("phase".into(), s(phase)),
        ("case".into(), J::Int(case as i128)),
        ("seed".into(), J::Int(o.seed as i128)),
        (
            "tier".into(),
            s(if o.tier == Tier::Quick { "quick" } else { "thorough" }),
        ),
        ("signature".into(), s(sig)),
        ("detail".into(), s(detail)),
        ("input".into(), s(doing)),
        (
            "rerun".into(),
            s(format!(
                "harness replay {} (in {})",
                p.display(),
                o.dir.display()
            )),
        ),
    ]);
    let _ = std::fs::write(&p, j.to_text());
    p
}

fn evidence(c: &Check, o: &Opts, out: &Outcome, wall: f64, violations: usize) {
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<J> = vec![];
    let mut evals = 0;
    let mut seen_phase: BTreeMap<&str, usize> = BTreeMap::new();
    for l in &out.locals {
        evals += l.evals;
        distinct.extend(&l.distinct);
        for (k, v) in &l.counters {
            *counters.entry(format!("{}: {}", l.phase, k)).or_default() += v;
        }
        for (k, v) in &l.highs {
            let x = counters.entry(format!("{}: highest {}", l.phase, k)).or_default();
            *x = (*v).max(*x);
        }
        let n = seen_phase.entry(l.phase).or_default();
        for x in &l.samples {
            if *n < 2 {
                *n += 1;
                samples.push(s(x));
            }
        }
    }
    let ex = out.per_phase.iter().all(|p| p.2) && !out.per_phase.is_empty();
    let cov = J::Obj(vec![
        ("evaluations".into(), J::Int(evals as i128)),
        ("distinct_nontrivial".into(), J::Int(distinct.len() as i128)),
        ("rule".into(), s(c.rule)),
        ("exhaustive".into(), J::Bool(ex)),
        (
            "phases".into(),
            J::Obj(
                out.per_phase
                    .iter()
                    .map(|(n, d, e)| {
                        (
                            n.to_string(),
                            J::Obj(vec![
                                ("cases_run".into(), J::Int(*d as i128)),
                                ("enumerates_finite_space".into(), J::Bool(*e)),
                            ]),
                        )
                    })
                    .collect(),
            ),
        ),
        (
            "observed".into(),
            J::Obj(
                counters
                    .iter()
                    .map(|(k, v)| (k.clone(), J::Int(*v as i128)))
                    .collect(),
            ),
        ),
        (
            "known_findings_seen".into(),
            J::Obj(
                out.known_hits
                    .iter()
                    .map(|(k, v)| (k.clone(), J::Int(*v as i128)))
                    .collect(),
            ),
        ),
        ("samples".into(), J::Arr(samples)),
    ]);
    let j = J::Obj(vec![
        ("property".into(), s(c.pid)),
        (
            "tier".into(),
            s(if o.tier == Tier::Quick { "quick" } else { "thorough" }),
        ),
        ("seed".into(), J::Int(o.seed as i128)),
        ("level".into(), s("exploration")),
        ("coverage".into(), cov),
        (
            "assumptions".into(),
            J::Arr(c.assumptions.iter().map(|x| s(*x)).collect()),
        ),
        ("wall_s".into(), J::Flt(wall)),
        ("violations".into(), J::Int(violations as i128)),
    ]);
    let dir = o.dir.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", c.pid)), j.to_text()).expect("evidence file");
}

/// Runs the whole check in this process; the exit code is the verdict.
pub fn worker(c: &Check, o: &Opts) -> i32 {
    std::panic::set_hook(Box::new(|i| {
        let at = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|x| *x.borrow_mut() = at);
    }));
    let known = Known::load(&o.dir, c.pid);
    let progress = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .write(true)
        .open(progress_path(o))
        .expect("progress file");
    let st = Instant::now();
    let mut out = explore(c, o, &known, &progress);
    let wall = st.elapsed().as_secs_f64();
    let mut harness_errors = vec![];
    out.fails.retain(|f| {
        if f.2.sig == "harness-panic" {
            harness_errors.push(format!("{} case {}: {}", f.0, f.1, f.2.detail));
            false
        } else {
            true
        }
    });
    if o.only.is_none() {
        evidence(c, o, &out, wall, out.fails.len());
    }
    for (sig, n) in &out.known_hits {
        println!(
            "KNOWN-FINDING: property={} [{}] {} (seen {} times)",
            c.pid,
            sig,
            known.get(sig).unwrap_or(""),
            n
        );
    }
    if !out.fails.is_empty() {
        let mut shown = HashSet::new();
        for (ph, case, f, doing) in &out.fails {
            if shown.len() >= 5 || !shown.insert((*ph, f.sig.clone())) {
                continue;
            }
            let p = write_replay(o, ph, *case, &f.sig, &f.detail, doing);
            println!("VIOLATION property={} replay={}", c.pid, p.display());
            println!("  [{}] {}: {}", ph, f.sig, oneline(&f.detail, 600));
        }
        return 1;
    }
    if !harness_errors.is_empty() {
        for h in harness_errors.iter().take(5) {
            println!("INCONCLUSIVE: harness error in {h}");
        }
        return 3;
    }
    if o.only.is_none() {
        for m in &c.must_see {
            let n: u64 = out
                .locals
                .iter()
                .map(|l| l.counters.get(*m).copied().unwrap_or(0))
                .sum();
            if n == 0 {
                println!("INCONCLUSIVE: property={} never observed '{m}'", c.pid);
                return 3;
            }
        }
    }
    let n: u64 = out.locals.iter().map(|l| l.evals).sum();
    if n == 0 {
        println!("INCONCLUSIVE: property={} evaluated nothing", c.pid);
        return 3;
    }
    println!("OK property={} evaluations={} wall={:.1}s", c.pid, n, wall);
    0
}

fn progress_path(o: &Opts) -> PathBuf {
    let _ = std::fs::create_dir_all(o.dir.join("evidence"));
    let tag = match &o.only {
        None => String::new(),
        Some((p, k)) => format!("-{p}-{k}"),
    };
    o.dir.join(format!("evidence/.progress-{}{}", o.pid, tag))
}

fn read_progress(c: &Check, o: &Opts) -> Vec<Option<(&'static str, u64)>> {
    let b = std::fs::read(progress_path(o)).unwrap_or_default();
    b.chunks(16)
        .map(|x| {
            if x.len() < 16 {
                return None;
            }
            let p = u64::from_le_bytes(x[..8].try_into().unwrap());
            let k = u64::from_le_bytes(x[8..].try_into().unwrap());
            (p > 0).then(|| (c.phases[p as usize - 1].name, k))
        })
        .collect()
}

/// CPU seconds a single case may burn when re-run alone before it counts as not terminating;
/// cases normally take milliseconds.
const CPU_LIMIT: u64 = 60;
const STALL: Duration = Duration::from_secs(100);

fn fatal(sig: Option<i32>) -> bool {
    // ILL, TRAP, ABRT, BUS, FPE, SEGV
    matches!(sig, Some(4 | 5 | 6 | 7 | 8 | 11))
}

/// Supervises a worker process so that crashes and hangs become verdicts with a witness.
pub fn supervise(c: &Check, o: &Opts) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let st = Instant::now();
    let args = |cmd: &mut Command| {
        cmd.arg("worker")
            .arg(&o.pid)
            .arg(if o.tier == Tier::Quick { "quick" } else { "thorough" })
            .arg(o.seed.to_string())
            .arg(&o.dir);
    };
    let mut cmd = Command::new(&exe);
    args(&mut cmd);
    let mut child = cmd.spawn().expect("worker");
    let mut last: Vec<Option<(&'static str, u64)>> = vec![];
    let mut since: Vec<Instant> = vec![];
    let mut stalled = None;
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(x) => break Some(x),
            None => std::thread::sleep(Duration::from_millis(100)),
        }
        let now = read_progress(c, o);
        if now.len() != last.len() {
            since = vec![Instant::now(); now.len()];
        }
        for (i, x) in now.iter().enumerate() {
            if last.get(i) != Some(x) {
                since[i] = Instant::now();
            } else if let (Some(x), true) = (x, since[i].elapsed() > STALL) {
                stalled = Some(*x);
            }
        }
        last = now;
        if stalled.is_some() {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    let suspects: Vec<(&'static str, u64)> = match &status {
        Some(x) => {
            if let Some(code) = x.code() {
                let _ = std::fs::remove_file(progress_path(o));
                return code;
            }
            if !fatal(x.signal()) {
                println!(
                    "INCONCLUSIVE: property={} worker ended by signal {:?}",
                    o.pid,
                    x.signal()
                );
                return 3;
            }
            read_progress(c, o).into_iter().flatten().collect()
        }
        None => stalled.into_iter().collect(),
    };
    let _ = std::fs::remove_file(progress_path(o));
    let mut verdict = 3;
    for (ph, case) in suspects {
        let mut cmd = Command::new("sh");
        cmd.arg("-c")
            .arg(format!("ulimit -t {CPU_LIMIT}; exec \"$0\" \"$@\""))
            .arg(&exe);
        args(&mut cmd);
        cmd.arg(ph).arg(case.to_string());
        cmd.stderr(Stdio::null()).stdout(Stdio::null());
        let r = cmd.status().expect("re-run");
        let _ = std::fs::remove_file(o.dir.join(format!("evidence/.progress-{}-{ph}-{case}", o.pid)));
        let why = match (r.code(), r.signal()) {
            (_, Some(24) | Some(9)) => Some(format!(
                "this single case used more than {CPU_LIMIT} s of processor time without finishing"
            )),
            (_, sg) if fatal(sg) => Some(format!("the process died from signal {}", sg.unwrap())),
            (Some(1), _) => Some("the case fails when run alone".to_string()),
            _ => None,
        };
        if let Some(w) = why {
            let p = write_replay(o, ph, case, "crash", &w, "");
            println!("VIOLATION property={} replay={}", o.pid, p.display());
            println!("  [{ph}] crash: {w}");
            verdict = 1;
            let out = Outcome {
                per_phase: vec![(ph, 1, false)],
                locals: vec![Local {
                    evals: 1,
                    phase: ph,
                    ..Default::default()
                }],
                ..Default::default()
            };
            evidence(c, o, &out, st.elapsed().as_secs_f64(), 1);
            break;
        }
    }
    if verdict == 3 {
        println!(
            "INCONCLUSIVE: property={} crash or stall did not reproduce on a single case",
            o.pid
        );
    }
    verdict
}
