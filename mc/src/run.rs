//! The exploration driver: families of cases, worker threads, crash/hang detection, replay, evidence.
use crate::env;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs::{self, File};
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    /// identifies the failing input, to be looked up in the known findings
    pub key: Option<String>,
    pub msg: String,
}

impl Fail {
    pub fn new(msg: String) -> Self {
        Fail { key: None, msg }
    }
}

pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err($crate::run::Fail::new(format!($($t)*)));
        }
    };
}

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => {
        return Err($crate::run::Fail::new(format!($($t)*)))
    };
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Ctx {
    /// states of the model (or of the model x implementation product) visited
    pub states: u64,
    /// transitions taken between them
    pub transitions: u64,
    /// behaviours of the real code compared with what the model says
    pub traces: u64,
    pub want_sample: bool,
    pub sample: Option<String>,
    /// violations found in a case that goes on (for known findings)
    pub soft: Vec<Fail>,
}

impl Ctx {
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

type RunFn = dyn Fn(u64, &mut Ctx) -> R + Send + Sync;

pub struct Family {
    pub name: String,
    pub len: u64,
    pub chunk: u64,
    pub run: Box<RunFn>,
}

pub fn family(
    name: impl Into<String>,
    len: u64,
    run: impl Fn(u64, &mut Ctx) -> R + Send + Sync + 'static,
) -> Family {
    Family {
        name: name.into(),
        len,
        chunk: (len / 256).clamp(1, 256),
        run: Box::new(run),
    }
}

impl Family {
    pub fn chunked(mut self, chunk: u64) -> Self {
        self.chunk = chunk;
        self
    }
}

pub struct Cfg {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub status: Option<PathBuf>,
    pub threads: usize,
    /// longest time one case may take before it counts as not terminating
    pub case_limit: Duration,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        if std::thread::current().name() == Some("main") {
            eprintln!("panic at {loc}: {msg}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(Fail::new(
            PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into()),
        )),
    }
}

struct Slot {
    fam: AtomicUsize,
    idx: AtomicU64,
    chunk_start: AtomicU64,
    since_ms: AtomicU64,
    /// the processor time of the thread at work
    clock: AtomicI32,
}

pub fn load_known(root: &Path) -> BTreeMap<(String, String), String> {
    let mut map = BTreeMap::new();
    let Ok(text) = fs::read_to_string(root.join("known_findings.jsonl")) else {
        return map;
    };
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        let Ok(v) = serde_json::from_str::<Value>(line) else {
            continue;
        };
        if v["status"] == "known" {
            map.insert(
                (
                    v["property"].as_str().unwrap_or_default().to_string(),
                    v["key"].as_str().unwrap_or_default().to_string(),
                ),
                v["what"].as_str().unwrap_or_default().to_string(),
            );
        }
    }
    map
}

fn chunk_seed(seed: u64, fam: usize, start: u64) -> u64 {
    let mut s = seed ^ ((fam as u64) << 48) ^ start.wrapping_mul(0x2545F4914F6CDD1D);
    env::splitmix(&mut s)
}

fn rss_bytes() -> u64 {
    fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
}

struct Shared<'a> {
    cfg: &'a Cfg,
    families: &'a [Family],
    stop: AtomicBool,
    violations: Mutex<Vec<(usize, u64, u64, Fail)>>,
    known_seen: Mutex<BTreeMap<String, String>>,
    known: BTreeMap<(String, String), String>,
    per_family: Vec<[AtomicU64; 5]>,
    samples: Mutex<BTreeMap<usize, (u64, String)>>,
}

impl Shared<'_> {
    fn note(&self, fam: usize, chunk_start: u64, idx: u64, f: Fail) {
        if let Some(key) = &f.key {
            if let Some(what) = self.known.get(&(self.cfg.prop.clone(), key.clone())) {
                self.known_seen
                    .lock()
                    .unwrap()
                    .insert(key.clone(), what.clone());
                return;
            }
        }
        self.violations
            .lock()
            .unwrap()
            .push((fam, chunk_start, idx, f));
        self.stop.store(true, SeqCst);
    }

    /// runs the cases chunk_start..end of a family on the current (fresh) thread
    fn run_chunk(&self, slot: &Slot, fam: usize, chunk_start: u64, end: u64, epoch: Instant, each: Option<&File>) {
        env::set_seed(chunk_seed(self.cfg.seed, fam, chunk_start));
        slot.clock.store(own_clock(), Relaxed);
        let began = Instant::now();
        let f = &self.families[fam];
        let mut tot = Ctx::default();
        let mut n = 0;
        for idx in chunk_start..end {
            if self.stop.load(Relaxed) {
                break;
            }
            slot.idx.store(idx, Relaxed);
            slot.since_ms
                .store(epoch.elapsed().as_millis() as u64 + 1, Relaxed);
            if let Some(file) = each {
                write_status(file, 0, fam, chunk_start, idx);
            }
            let mut ctx = Ctx {
                want_sample: idx == f.len / 2 || idx == f.len - 1,
                ..Ctx::default()
            };
            let r = guarded(|| (f.run)(idx, &mut ctx));
            n += 1;
            tot.states += ctx.states;
            tot.transitions += ctx.transitions;
            tot.traces += ctx.traces;
            if let Some(s) = ctx.sample {
                let mut map = self.samples.lock().unwrap();
                let e = map.entry(fam).or_insert((u64::MAX, String::new()));
                if idx < e.0 {
                    *e = (idx, s);
                }
            }
            for s in ctx.soft {
                self.note(fam, chunk_start, idx, s);
            }
            if let Err(e) = r {
                self.note(fam, chunk_start, idx, e);
            }
        }
        slot.since_ms.store(0, Relaxed);
        let p = &self.per_family[fam];
        p[0].fetch_add(n, Relaxed);
        p[1].fetch_add(tot.states, Relaxed);
        p[2].fetch_add(tot.transitions, Relaxed);
        p[3].fetch_add(tot.traces, Relaxed);
        p[4].fetch_add(began.elapsed().as_micros() as u64, Relaxed);
    }
}

fn write_status(file: &File, slot: usize, fam: usize, start: u64, idx: u64) {
    let mut b = [0u8; 24];
    b[..8].copy_from_slice(&(fam as u64 + 1).to_le_bytes());
    b[8..16].copy_from_slice(&start.to_le_bytes());
    b[16..].copy_from_slice(&idx.to_le_bytes());
    let _ = file.write_at(&b, slot as u64 * 24);
}

pub fn read_status(path: &Path) -> Vec<(usize, u64, u64)> {
    let Ok(b) = fs::read(path) else { return vec![] };
    b.chunks_exact(24)
        .filter_map(|c| {
            let w = |i: usize| u64::from_le_bytes(c[i * 8..i * 8 + 8].try_into().unwrap());
            (w(0) > 0).then(|| (w(0) as usize - 1, w(1), w(2)))
        })
        .collect()
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}

/// the clock of the processor time of this thread, 0 if there is none
fn own_clock() -> i32 {
    let mut c = 0;
    let r = unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    if r == 0 { c } else { 0 }
}

fn cpu_ms(clock: i32) -> u64 {
    let mut t = [0i64; 2];
    if clock == 0 || unsafe { clock_gettime(clock, &mut t) } != 0 {
        return 0;
    }
    t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
}

/// `only`: run just one chunk up to and including an index (replay, crash pinpointing)
pub fn explore(cfg: &Cfg, families: Vec<Family>, only: Option<(usize, u64, u64)>) -> i32 {
    let t0 = Instant::now();
    let shared = Shared {
        cfg,
        families: &families,
        stop: AtomicBool::new(false),
        violations: Mutex::new(vec![]),
        known_seen: Mutex::new(BTreeMap::new()),
        known: load_known(&cfg.root),
        per_family: families.iter().map(|_| Default::default()).collect(),
        samples: Mutex::new(BTreeMap::new()),
    };
    let status = cfg.status.as_ref().map(|p| File::create(p).expect("status file"));
    // biggest families first, interleaved by chunk order
    let mut work: Vec<(usize, u64, u64)> = vec![];
    if let Some((fam, start, idx)) = only {
        work.push((fam, start, idx + 1));
    } else {
        for (fi, f) in families.iter().enumerate() {
            let mut s = 0;
            while s < f.len {
                work.push((fi, s, (s + f.chunk).min(f.len)));
                s += f.chunk;
            }
        }
    }
    let next = AtomicUsize::new(0);
    let threads = if only.is_some() { 1 } else { cfg.threads };
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot {
            fam: AtomicUsize::new(0),
            idx: AtomicU64::new(0),
            chunk_start: AtomicU64::new(0),
            since_ms: AtomicU64::new(0),
            clock: AtomicI32::new(0),
        })
        .collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let handles: Vec<_> = (0..threads)
            .map(|t| {
                let (shared, work, next, slots, status) = (&shared, &work, &next, &slots, &status);
                let each = only.is_some();
                sc.spawn(move || loop {
                    if shared.stop.load(Relaxed) {
                        break;
                    }
                    let w = next.fetch_add(1, Relaxed);
                    let Some(&(fam, start, end)) = work.get(w) else { break };
                    slots[t].fam.store(fam, Relaxed);
                    slots[t].chunk_start.store(start, Relaxed);
                    if let Some(f) = status {
                        write_status(f, t, fam, start, end - 1);
                    }
                    std::thread::scope(|inner| {
                        std::thread::Builder::new()
                            .stack_size(8 << 20)
                            .spawn_scoped(inner, || {
                                shared.run_chunk(
                                    &slots[t],
                                    fam,
                                    start,
                                    end,
                                    t0,
                                    if each { status.as_ref() } else { None },
                                )
                            })
                            .expect("thread")
                            .join()
                            .expect("worker");
                    });
                })
            })
            .collect();
        let (shared, slots, done) = (&shared, &slots, &done);
        let only_ = only;
        sc.spawn(move || {
            // a busy machine must not make a case look endless: the limit is on the processor time of the thread.
            // What waits for another thread or process uses none itself, and has a longer limit
            let limit = cfg.case_limit.as_millis() as u64;
            let mut seen = vec![(0u64, 0u64); slots.len()];
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64;
                let rss = rss_bytes();
                for (s, seen) in slots.iter().zip(&mut seen) {
                    let since = s.since_ms.load(Relaxed);
                    if since == 0 {
                        continue;
                    }
                    let waited = now.saturating_sub(since);
                    let cpu = cpu_ms(s.clock.load(Relaxed));
                    if seen.0 != since {
                        *seen = (since, cpu);
                    }
                    let age = cpu.saturating_sub(seen.1).min(waited);
                    let endless = age > limit || waited > 6 * limit;
                    if endless || (rss > (10 << 30) && waited > 2000) {
                        let (fam, start, idx) = (
                            s.fam.load(Relaxed),
                            s.chunk_start.load(Relaxed),
                            s.idx.load(Relaxed),
                        );
                        let why = if endless {
                            format!("no result within {} s: does not terminate", limit / 1000)
                        } else {
                            format!("memory grew to {} MB", rss >> 20)
                        };
                        let v = (fam, start, idx, Fail::new(why));
                        // the stuck thread cannot be stopped: report and leave
                        let code = finish(shared, only_.is_some(), t0, Some(v));
                        std::process::exit(code);
                    }
                }
            }
        });
        for h in handles {
            let _ = h.join();
        }
        done.store(true, SeqCst);
    });
    finish(&shared, only.is_some(), t0, None)
}

fn finish(sh: &Shared, replaying: bool, t0: Instant, hang: Option<(usize, u64, u64, Fail)>) -> i32 {
    let cfg = sh.cfg;
    let mut violations = sh.violations.lock().unwrap().clone();
    violations.extend(hang);
    violations.sort_by_key(|v| (v.0, v.2));
    for (k, what) in sh.known_seen.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {} [{}]", cfg.prop, what, k);
    }
    if !replaying {
        let sum = |i: usize| -> u64 { sh.per_family.iter().map(|p| p[i].load(Relaxed)).sum() };
        let fams: Vec<Value> = sh
            .families
            .iter()
            .zip(&sh.per_family)
            .map(|(f, p)| {
                json!({"family": f.name, "cases_in_space": f.len, "cases_run": p[0].load(Relaxed),
                    "states": p[1].load(Relaxed), "transitions": p[2].load(Relaxed),
                    "traces_validated": p[3].load(Relaxed), "cpu_s": p[4].load(Relaxed) as f64 / 1e6})
            })
            .collect();
        let samples: Vec<Value> = sh
            .samples
            .lock()
            .unwrap()
            .iter()
            .map(|(f, (i, s))| json!({"family": sh.families[*f].name, "case": i, "what": s}))
            .collect();
        let exhaustive = sh
            .families
            .iter()
            .zip(&sh.per_family)
            .all(|(f, p)| p[0].load(Relaxed) == f.len);
        let ev = json!({
            "property": cfg.prop,
            "tier": if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": cfg.seed,
            "level": "model_checking",
            "coverage": {
                "evaluations": sum(0),
                "states": sum(1),
                "transitions": sum(2),
                "traces_validated_against_impl": sum(3),
                "exhaustive": exhaustive,
                "explanation": "cases = members of the enumerated families (each family is enumerated completely); \
    states/transitions = states and transitions of the reference model, or of the product of reference model and real \
    implementation, visited while deciding the cases; traces = behaviours of the real code (word verdicts, evaluator \
    positions, operation results, printed texts) compared with the model",
                "families": fams,
                "samples": samples,
            },
            "assumptions": ["the bounds of each family", "the reference model in mc/src", "rustc, std and the dependencies of the code under test"],
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": violations.len(),
        });
        let dir = cfg.root.join("evidence");
        let _ = fs::create_dir_all(&dir);
        fs::write(
            dir.join(format!("{}.json", cfg.prop)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("evidence");
        println!(
            "{}: {} cases in {} families, {} states, {} transitions, {} traces against the implementation, {:.1} s",
            cfg.prop,
            sum(0),
            sh.families.len(),
            sum(1),
            sum(2),
            sum(3),
            t0.elapsed().as_secs_f64()
        );
    }
    if violations.is_empty() {
        if replaying {
            println!("replay: no violation");
        }
        return 0;
    }
    for (fam, start, idx, f) in violations.iter().take(1) {
        report(cfg, &sh.families[*fam].name, *start, *idx, f);
    }
    1
}

pub fn report(cfg: &Cfg, fam_name: &str, start: u64, idx: u64, f: &Fail) {
    let dir = cfg.root.join("target").join("replay");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", cfg.prop));
    let v = json!({"property": cfg.prop, "tier": if cfg.tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": cfg.seed, "family": fam_name, "chunk_start": start, "index": idx,
        "key": f.key, "message": f.msg});
    fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
    println!("family {fam_name}, case {idx}:");
    println!("{}", f.msg);
    println!("VIOLATION property={} replay={}", cfg.prop, path.display());
}
