//! Supervisor: spawns the workload in a worker process, watches it for death
//! and non-termination, collects what the monitors observed, writes evidence.
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// short stable signature of what failed
    pub sig: String,
    pub msg: String,
    /// the failing input, for the replay file
    pub detail: String,
}

pub type R<T = ()> = Result<T, Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>, detail: impl Into<String>) -> R<T> {
    Err(Fail {
        sig: sig.into(),
        msg: msg.into(),
        detail: detail.into(),
    })
}

pub trait Detail<T> {
    fn with(self, f: impl FnOnce() -> String) -> R<T>;
}
impl<T> Detail<T> for R<T> {
    fn with(self, f: impl FnOnce() -> String) -> R<T> {
        self.map_err(|mut e| {
            if e.detail.is_empty() {
                e.detail = f();
            } else {
                e.detail = format!("{}\n---\n{}", e.detail, f());
            }
            e
        })
    }
}

#[derive(Default)]
pub struct Obs {
    pub events: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<(u64, String)>,
    pub evals: u64,
}

pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub tier: Tier,
    pub obs: Obs,
    pub seed: u64,
}

impl Ctx {
    /// Counts an event the monitors observed.
    pub fn ev(&mut self, k: &str, n: usize) {
        match self.obs.events.get_mut(k) {
            Some(v) => *v += n as u64,
            None => {
                self.obs.events.insert(k.into(), n as u64);
            }
        }
    }
    /// Notes a distinct non-trivial case.
    pub fn seen(&mut self, h: u64) {
        if self.obs.distinct.len() < 2_000_000 {
            self.obs.distinct.insert(h);
        }
    }
    /// One execution judged by an oracle.
    pub fn eval(&mut self) {
        self.obs.evals += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 6 && self.obs.samples.iter().filter(|s| s.0 == self.idx).count() < 1 {
            let mut s = f();
            if s.len() > 700 {
                let mut e = 700;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push('…');
            }
            self.obs.samples.push((self.idx, s));
        }
    }
}

pub struct Spec {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> R,
    /// events which have to have been seen in a full run, with their least number
    pub need: &'static [(&'static str, u64)],
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// smallest stack and one case at a time (for deep recursion checks)
    pub isolated: bool,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

fn short_loc(l: &str) -> String {
    // the line number would make signatures fragile
    l.rsplit_once(':').map(|x| x.0).unwrap_or(l).trim_start_matches("/repo/").to_string()
}

/// Runs code under test; a panic in it is a violation.
pub fn sut<T>(label: &str, f: impl FnOnce() -> T) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            fail(
                &format!("panic in {label} at {}", short_loc(&loc)),
                format!("{label} panicked at {loc}: {msg}"),
                "",
            )
        }
    }
}

const SLOTS: usize = 64;

/// In-flight cases, in a file shared with the parent.
struct Journal(*mut AtomicU64);
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}

impl Journal {
    fn open(p: &Path) -> std::io::Result<Journal> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p)?;
        f.set_len((SLOTS * 16) as u64)?;
        let m = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOTS * 16,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if m == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Journal(m as *mut AtomicU64))
    }
    fn cell(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(i) }
    }
    /// case index + 1, 0 when idle; and its start in ms
    fn set(&self, slot: usize, idx: u64, ms: u64) {
        self.cell(slot * 2 + 1).store(ms, SeqCst);
        self.cell(slot * 2).store(idx, SeqCst);
    }
    fn inflight(&self) -> Vec<(u64, u64)> {
        (0..SLOTS)
            .filter_map(|s| {
                let i = self.cell(s * 2).load(SeqCst);
                (i > 0).then(|| (i - 1, self.cell(s * 2 + 1).load(SeqCst)))
            })
            .collect()
    }
}

fn now_ms() -> u64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_str(id)).wrapping_add(idx))
}

/// One case; Err is a violation, a panic of the harness itself is passed on.
fn run_case(spec: &Spec, seed: u64, tier: Tier, idx: u64) -> (Obs, Result<R, String>) {
    let mut ctx = Ctx {
        rng: Rng::new(case_seed(seed, spec.id, idx)),
        idx,
        tier,
        obs: Obs::default(),
        seed,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (spec.run)(&mut ctx)));
    let r = match r {
        Ok(r) => Ok(r),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("/repo/") {
                Ok(fail(
                    &format!("panic at {}", short_loc(&loc)),
                    format!("panicked at {loc}: {msg}"),
                    "",
                ))
            } else if msg.starts_with("minimal ") && matches!(spec.id, "C06" | "C15") {
                // the templates state all that is required, at disabled level
                Ok(fail("template", format!("building at disabled level was refused: {msg}"), ""))
            } else {
                Err(format!("harness panicked at {loc}: {msg}"))
            }
        }
    };
    (ctx.obs, r)
}

fn limit(res: libc::__rlimit_resource_t, v: u64) {
    let l = libc::rlimit {
        rlim_cur: v,
        rlim_max: v,
    };
    unsafe { libc::setrlimit(res, &l) };
}

pub struct Args {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub dir: PathBuf,
    pub only: Option<u64>,
    pub threads: usize,
    pub wall: u64,
    pub cases: Option<u64>,
}

const STACK: usize = 8 << 20;

pub fn fail_json(idx: u64, f: &Fail) -> serde_json::Value {
    serde_json::json!({"idx": idx, "sig": f.sig, "msg": f.msg, "detail": f.detail})
}

/// Runs in the worker process: writes result.json.
pub fn worker(spec: &Spec, a: &Args) -> i32 {
    install_hook();
    limit(libc::RLIMIT_CORE, 0);
    if a.only.is_some() {
        limit(libc::RLIMIT_AS, 6 << 30);
        limit(libc::RLIMIT_CPU, 40);
    } else {
        limit(libc::RLIMIT_AS, 24 << 30);
    }
    let journal = Journal::open(&a.dir.join("journal")).expect("journal");
    let total = match a.tier {
        Tier::Quick => spec.quick,
        Tier::Thorough => spec.thorough,
    };
    let total = a.cases.unwrap_or(total);
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let merged = Mutex::new(Obs::default());
    let fails: Mutex<Vec<serde_json::Value>> = Mutex::new(vec![]);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let start = Instant::now();
    let threads = if a.only.is_some() || spec.isolated { 1 } else { a.threads };
    std::thread::scope(|s| {
        for slot in 0..threads {
            let (journal, next, done, stop, merged, fails, errors) =
                (&journal, &next, &done, &stop, &merged, &fails, &errors);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut all = Obs::default();
                    loop {
                        if stop.load(SeqCst) || start.elapsed().as_secs() >= a.wall {
                            break;
                        }
                        let idx = match a.only {
                            Some(i) => {
                                if next.fetch_add(1, SeqCst) > 0 {
                                    break;
                                }
                                i
                            }
                            None => next.fetch_add(1, SeqCst),
                        };
                        if a.only.is_none() && idx >= total {
                            break;
                        }
                        journal.set(slot, idx + 1, now_ms());
                        let (obs, r) = run_case(spec, a.seed, a.tier, idx);
                        journal.set(slot, 0, 0);
                        done.fetch_add(1, SeqCst);
                        for (k, v) in obs.events {
                            *all.events.entry(k).or_default() += v;
                        }
                        all.distinct.extend(obs.distinct);
                        all.samples.extend(obs.samples);
                        all.evals += obs.evals;
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(f)) => {
                                let mut fs = fails.lock().unwrap();
                                let same = fs.iter().any(|x| x["sig"] == f.sig.as_str());
                                if !same {
                                    fs.push(fail_json(idx, &f));
                                }
                                if fs.len() >= 12 {
                                    stop.store(true, SeqCst);
                                }
                            }
                            Err(e) => {
                                let mut es = errors.lock().unwrap();
                                es.push(format!("case {idx}: {e}"));
                                if es.len() > 20 {
                                    stop.store(true, SeqCst);
                                }
                            }
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    for (k, v) in all.events {
                        *m.events.entry(k).or_default() += v;
                    }
                    m.distinct.extend(all.distinct);
                    m.samples.extend(all.samples);
                    m.evals += all.evals;
                })
                .expect("thread");
        }
    });
    let mut m = merged.into_inner().unwrap();
    m.samples.sort();
    let out = serde_json::json!({
        "cases": done.load(SeqCst),
        "planned": total,
        "evals": m.evals,
        "distinct": m.distinct.len(),
        "events": m.events,
        "samples": m.samples.iter().map(|x| &x.1).collect::<Vec<_>>(),
        "fails": *fails.lock().unwrap(),
        "errors": *errors.lock().unwrap(),
    });
    std::fs::write(a.dir.join("result.json"), out.to_string()).expect("result");
    0
}

fn spawn(a: &Args, only: Option<u64>, wall: u64) -> std::process::Child {
    let _ = std::fs::remove_file(a.dir.join("result.json"));
    let mut c = std::process::Command::new(std::env::current_exe().expect("exe"));
    c.arg("worker")
        .arg(&a.id)
        .arg("--tier")
        .arg(a.tier.name())
        .arg("--seed")
        .arg(a.seed.to_string())
        .arg("--verif")
        .arg(&a.verif)
        .arg("--dir")
        .arg(&a.dir)
        .arg("--threads")
        .arg(a.threads.to_string())
        .arg("--wall")
        .arg(wall.to_string())
        .stdin(std::process::Stdio::null());
    if let Some(n) = a.cases {
        c.arg("--cases").arg(n.to_string());
    }
    if let Some(i) = only {
        c.arg("--only").arg(i.to_string());
    }
    if let Ok(f) = std::fs::File::create(a.dir.join("stderr")) {
        c.stderr(f);
    }
    c.spawn().expect("worker")
}

enum End {
    Done(serde_json::Value),
    Died(String),
    Hung(Vec<u64>),
}

/// Waits for the worker; a case in flight for longer than `patience` is a hang.
fn watch(a: &Args, mut c: std::process::Child, journal: &Journal, patience: u64, wall: u64) -> End {
    use std::os::unix::process::ExitStatusExt;
    let start = Instant::now();
    loop {
        if let Some(st) = c.try_wait().expect("wait") {
            if st.success() {
                if let Ok(t) = std::fs::read_to_string(a.dir.join("result.json")) {
                    if let Ok(v) = serde_json::from_str(&t) {
                        return End::Done(v);
                    }
                }
                return End::Died("no result".into());
            }
            return End::Died(match st.signal() {
                Some(s) => format!("signal {s}"),
                None => format!("exit {:?}", st.code()),
            });
        }
        let now = now_ms();
        let stuck: Vec<u64> = journal
            .inflight()
            .into_iter()
            .filter(|x| x.1 > 0 && now.saturating_sub(x.1) > patience * 1000)
            .map(|x| x.0)
            .collect();
        if !stuck.is_empty() || start.elapsed().as_secs() > wall + patience {
            let _ = c.kill();
            let _ = c.wait();
            return End::Hung(stuck);
        }
        std::thread::sleep(Duration::from_millis(15));
    }
}

fn clear(j: &Journal) {
    for s in 0..SLOTS {
        j.set(s, 0, 0);
    }
}

struct Known {
    sigs: Vec<(String, String)>,
}

fn known(verif: &Path, id: &str) -> Known {
    let mut sigs = vec![];
    if let Ok(t) = std::fs::read_to_string(verif.join("known-findings.txt")) {
        for l in t.lines() {
            // known: property=C00 sig=<...> | <what fails>
            if let Some(rest) = l.strip_prefix("known: ") {
                if let Some(rest) = rest.strip_prefix(&format!("property={id} sig=")) {
                    if let Some((s, w)) = rest.split_once(" | ") {
                        sigs.push((s.to_string(), w.to_string()));
                    }
                }
            }
        }
    }
    Known { sigs }
}

pub fn parent(spec: &Spec, a: &Args) -> i32 {
    let t0 = Instant::now();
    std::fs::create_dir_all(&a.dir).expect("run dir");
    let journal = Journal::open(&a.dir.join("journal")).expect("journal");
    clear(&journal);
    let patience = 45;
    let mut fails: Vec<serde_json::Value> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    let mut result = serde_json::json!({});
    // what is not a matter of cases: case u64::MAX stands for it
    let staged = spec.id == "C22" && a.cases.is_none() && a.only.map_or(true, |i| i == u64::MAX);
    let stage = staged.then(|| {
        let (v, t, s) = (a.verif.clone(), a.tier, a.seed);
        std::thread::spawn(move || crate::checks::pure::stage(&v, t, s))
    });
    let only_stage = a.only == Some(u64::MAX);
    let end = if only_stage {
        End::Done(serde_json::json!({}))
    } else {
        let c = spawn(a, a.only, a.wall);
        watch(a, c, &journal, patience, a.wall)
    };
    match end {
        End::Done(v) => result = v,
        e => {
            let (what, cases) = match e {
                End::Died(s) => (s, journal.inflight().into_iter().map(|x| x.0).collect()),
                End::Hung(v) => ("no progress".to_string(), v),
                End::Done(_) => unreachable!(),
            };
            // rerun what was in flight, one case per process
            let mut confirmed = false;
            let tried = format!("{cases:?}");
            for idx in cases {
                clear(&journal);
                let c = spawn(a, Some(idx), 120);
                match watch(a, c, &journal, 90, 120) {
                    End::Done(v) => {
                        if let Some(f) = v["fails"].as_array() {
                            if !f.is_empty() {
                                confirmed = true;
                            }
                            fails.extend(f.iter().cloned());
                        }
                    }
                    End::Died(s) => {
                        confirmed = true;
                        let err = std::fs::read_to_string(a.dir.join("stderr")).unwrap_or_default();
                        let how = if err.contains("overflowed its stack") {
                            "stack overflow".to_string()
                        } else if s == "signal 24" || s == "signal 9" {
                            "no end within 40 s of CPU time".to_string()
                        } else if err.contains("memory allocation") {
                            "memory exhausted".to_string()
                        } else {
                            s.clone()
                        };
                        fails.push(serde_json::json!({
                            "idx": idx,
                            "sig": format!("process died: {how}"),
                            "msg": format!("the process running case {idx} died ({s}; {how})"),
                            "detail": err,
                        }));
                    }
                    // a wall clock limit is no verdict; the CPU time limit above is
                    End::Hung(_) => {}
                }
                if confirmed {
                    break;
                }
            }
            if !confirmed {
                inconclusive.push(format!("the worker ended abnormally ({what}) and no case reproduces it: {tried}"));
            }
        }
    }
    let mut notes: Vec<String> = vec![];
    if let Some(h) = stage {
        match h.join() {
            Ok(s) => {
                for (k, n) in s.events {
                    let old = result["events"][&k].as_u64().unwrap_or(0);
                    result["events"][&k] = serde_json::json!(old + n);
                }
                fails.extend(s.fails);
                inconclusive.extend(s.inconclusive);
                notes = s.notes;
            }
            Err(_) => inconclusive.push("the stage of race detectors panicked".into()),
        }
    }
    fails.extend(result["fails"].as_array().into_iter().flatten().cloned());
    for e in result["errors"].as_array().into_iter().flatten() {
        inconclusive.push(e.as_str().unwrap_or("?").to_string());
    }
    let cases = result["cases"].as_u64().unwrap_or(0);
    let planned = result["planned"].as_u64().unwrap_or(0);
    if fails.is_empty() && inconclusive.is_empty() && a.only.is_none() && a.cases.is_none() {
        if cases * 4 < planned {
            inconclusive.push(format!("only {cases} of {planned} cases ran within {} s", a.wall));
        } else {
            for (k, n) in spec.need {
                let got = result["events"][*k].as_u64().unwrap_or(0);
                // the minimum is for the quick tier
                let want = if cases < planned { n * cases / planned } else { *n };
                if got < want {
                    inconclusive.push(format!("event `{k}` seen {got} times, {want} needed"));
                }
            }
        }
    }
    // known findings
    let k = known(&a.verif, &a.id);
    let mut violations = vec![];
    let mut reported: HashSet<String> = HashSet::new();
    for f in fails {
        let sig = f["sig"].as_str().unwrap_or("").to_string();
        match k.sigs.iter().find(|x| x.0 == sig) {
            Some(_) => {
                reported.insert(sig);
            }
            None => violations.push(f),
        }
    }
    for (s, w) in &k.sigs {
        let _ = s;
        println!("KNOWN-FINDING: property={} {w}", a.id);
    }
    let evid = a.verif.join("evidence");
    let _ = std::fs::create_dir_all(evid.join("replay"));
    let mut first = None;
    for (n, f) in violations.iter().enumerate() {
        let p = evid.join("replay").join(format!("{}-{n}.txt", a.id));
        let text = format!(
            "check: {}\ntier: {}\nseed: {}\ncase: {}\nsignature: {}\n\n{}\n\n{}\n",
            a.id,
            a.tier.name(),
            a.seed,
            f["idx"],
            f["sig"].as_str().unwrap_or(""),
            f["msg"].as_str().unwrap_or(""),
            f["detail"].as_str().unwrap_or("")
        );
        let _ = std::fs::write(&p, text);
        let mut m = f["msg"].as_str().unwrap_or("").replace('\n', " ");
        if m.len() > 400 {
            let mut e = 400;
            while !m.is_char_boundary(e) {
                e -= 1;
            }
            m.truncate(e);
        }
        println!("case {}: {m}", f["idx"]);
        first.get_or_insert(p);
    }
    let ev = serde_json::json!({
        "property": a.id,
        "tier": a.tier.name(),
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": result["evals"].as_u64().unwrap_or(0),
            "distinct_nontrivial": result["distinct"].as_u64().unwrap_or(0),
            "rule": spec.rule,
            "samples": result["samples"],
            "cases": cases,
            "cases_planned": planned,
            "events": result["events"],
            "inconclusive": inconclusive,
            "notes": notes,
        },
        "assumptions": spec.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    if a.only.is_none() {
        let _ = std::fs::write(
            evid.join(format!("{}.json", a.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        );
    }
    let _ = std::fs::remove_file(a.dir.join("journal"));
    let _ = std::fs::remove_file(a.dir.join("result.json"));
    let _ = std::fs::remove_file(a.dir.join("stderr"));
    let _ = std::fs::remove_dir(&a.dir);
    if let Some(p) = first {
        println!("VIOLATION property={} replay={}", a.id, p.display());
        return 1;
    }
    if !inconclusive.is_empty() {
        for e in &inconclusive {
            println!("inconclusive: {e}");
        }
        return 2;
    }
    println!(
        "{} {}: held on {} executions ({} cases, {} distinct), {:.1} s",
        a.id,
        a.tier.name(),
        result["evals"],
        cases,
        result["distinct"],
        t0.elapsed().as_secs_f64()
    );
    0
}
