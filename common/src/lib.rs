//! A small stateless model checker.
//!
//! A *body* is a deterministic function of the choices it makes with [`Ch::pick`]; [`Ctx::explore`]
//! runs it on every choice sequence (depth-first, replaying the prefix each time), in parallel on
//! disjoint subtrees. Nothing is sampled and no states are merged; distinct observed states are only
//! counted. Every violation is written as a choice sequence that `--replay` runs again.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub mod ids;
pub mod alloc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violation: `key` identifies it (for the known-findings file), `msg` explains it.
#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Viol>;
pub fn viol<T>(key: impl Into<String>, msg: impl Into<String>) -> Res<T> {
    Err(Viol { key: key.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($fmt:tt)+) => {
        if !$cond { return $crate::viol($key, format!($($fmt)+)); }
    };
}

struct StopProbe;

/// The choices of one run.
pub struct Ch<'a> {
    vec: Vec<u32>,
    sizes: Vec<u32>,
    pos: usize,
    fresh_from: usize,
    stop_at: usize,
    verbose: bool,
    log: Vec<String>,
    rep: &'a mut Local,
}
/// Per-worker counters, merged at the end.
#[derive(Default)]
struct Local {
    transitions: u64,
    runs: u64,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
}

impl<'a> Ch<'a> {
    /// Chooses one of `n` alternatives.
    pub fn pick(&mut self, n: usize) -> usize {
        if n == 0 {
            panic!("HARNESS: pick(0)");
        }
        if self.pos == self.stop_at {
            resume_unwind(Box::new(StopProbe));
        }
        if self.pos < self.vec.len() {
            if self.sizes[self.pos] == 0 {
                self.sizes[self.pos] = n as u32; // replayed prefix
                if self.vec[self.pos] >= n as u32 {
                    panic!("HARNESS: choice {} out of range {n} at {}", self.vec[self.pos], self.pos);
                }
            }
            if self.sizes[self.pos] != n as u32 {
                panic!("HARNESS: the run diverged while replaying its prefix (choice {})", self.pos);
            }
        } else {
            self.vec.push(0);
            self.sizes.push(n as u32);
        }
        self.pos += 1;
        self.vec[self.pos - 1] as usize
    }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.pick(xs.len());
        xs[i].clone()
    }
    pub fn flip(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// Is the current point new, or merely the replayed prefix of an earlier run?
    pub fn fresh(&self) -> bool {
        self.pos > self.fresh_from
    }
    /// Counts an executed operation (once per point of the tree).
    pub fn step(&mut self) {
        if self.fresh() {
            self.rep.transitions += 1;
        }
    }
    pub fn steps(&mut self, n: u64) {
        if self.fresh() {
            self.rep.transitions += n;
        }
    }
    /// Counts an observed state.
    pub fn state(&mut self, h: u64) {
        if self.rep.states.len() < 2_000_000 {
            self.rep.states.insert(h);
        }
    }
    pub fn outcome(&mut self, h: u64) {
        if self.rep.outcomes.len() < 100_000 {
            self.rep.outcomes.insert(h);
        }
    }
    pub fn verbose(&self) -> bool {
        self.verbose
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }
}

/// Adds `x` to the hash `h`.
pub fn fnv(h: u64, x: u64) -> u64 {
    let mut z = h.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(x ^ 0xcbf29ce484222325);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone)]
struct Found {
    engine: String,
    choices: Vec<u32>,
    log: Vec<String>,
    v: Viol,
}

#[derive(Default, Clone)]
struct EngineStat {
    runs: u64,
    transitions: u64,
    states: u64,
    outcomes: u64,
    wall: f64,
    bound: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    verif: PathBuf,
    start: Instant,
    threads: usize,
    replay: Option<(String, Vec<u32>)>,
    replayed: AtomicBool,
    found: Mutex<Vec<Found>>,
    stats: Mutex<BTreeMap<String, EngineStat>>,
    samples: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    all_states: Mutex<HashSet<u64>>,
    traces: AtomicU64,
    scratch: Option<PathBuf>,
    extra: Mutex<BTreeMap<String, String>>,
    capped: AtomicBool,
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
/// When each worker's current run began (seconds since the start, plus one; 0: idle).
static RUNNING: [AtomicU64; 65] = {
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; 65]
};
static NOW: AtomicU64 = AtomicU64::new(0);
const RUN_LIMIT_S: u64 = 120;
static INTERNAL: Mutex<Option<String>> = Mutex::new(None);

/// Runs `f`, reporting a panic as `Err((message, location))`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    match r {
        Ok(t) => Ok(t),
        Err(p) => {
            if p.is::<StopProbe>() {
                resume_unwind(p)
            }
            Err(LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default())
        }
    }
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((msg, loc)));
        if !QUIET.with(|q| q.get()) {
            old(info)
        }
    }));
}

/// Errors of the check itself. (Any other panic is one of the code under test, or of the harness
/// on a result that the code under test must not give.)
fn is_harness_panic(p: &(String, String)) -> bool {
    p.0.starts_with("HARNESS")
}

impl Ctx {
    /// Parses `PROP [--tier quick|thorough] [--replay FILE] [--choices ENGINE c c c]`.
    pub fn from_args() -> Ctx {
        install_hook();
        let a: Vec<String> = std::env::args().skip(1).collect();
        let prop = a.first().cloned().unwrap_or_else(|| {
            eprintln!("usage: {{bin}} PROPERTY [--replay FILE]");
            std::process::exit(2)
        });
        let mut tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let mut replay = None;
        let mut i = 1;
        while i < a.len() {
            match a[i].as_str() {
                "--tier" => {
                    tier = if a[i + 1] == "thorough" { Tier::Thorough } else { Tier::Quick };
                    i += 1
                }
                "--replay" => {
                    let t = std::fs::read_to_string(&a[i + 1]).expect("replay file");
                    let get = |k: &str| {
                        t.lines()
                            .find_map(|l| l.strip_prefix(&format!("{k}: ")).map(|s| s.trim().to_string()))
                            .unwrap_or_default()
                    };
                    if get("tier") == "thorough" {
                        tier = Tier::Thorough;
                    }
                    replay = Some((
                        get("engine"),
                        get("choices").split_whitespace().map(|x| x.parse().unwrap()).collect(),
                    ));
                    i += 1
                }
                x => {
                    eprintln!("unknown argument {x}");
                    std::process::exit(2)
                }
            }
            i += 1;
        }
        std::thread::spawn(|| {
            for now in 1.. {
                std::thread::sleep(std::time::Duration::from_secs(1));
                NOW.store(now, SeqCst);
                for r in &RUNNING {
                    let t = r.load(SeqCst);
                    if t != 0 && now > t + RUN_LIMIT_S {
                        eprintln!("a single run took more than {RUN_LIMIT_S} s");
                        std::process::abort();
                    }
                }
            }
        });
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let threads = std::env::var("MC_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).min(8));
        Ctx {
            prop,
            tier,
            seed,
            verif,
            start: Instant::now(),
            threads,
            replay,
            replayed: AtomicBool::new(false),
            found: Default::default(),
            stats: Default::default(),
            samples: Default::default(),
            assumptions: Default::default(),
            all_states: Default::default(),
            traces: AtomicU64::new(0),
            scratch: std::env::var("MC_SCRATCH").ok().map(PathBuf::from),
            extra: Default::default(),
            capped: AtomicBool::new(false),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Picks the bound for the tier.
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn note(&self, k: &str, v: impl ToString) {
        self.extra.lock().unwrap().insert(k.into(), v.to_string());
    }

    fn run_once<F>(&self, ch: &mut Ch, body: &F) -> (bool, Option<Viol>)
    where
        F: Fn(&mut Ch) -> Res + Sync,
    {
        ch.pos = 0;
        ch.log.clear();
        QUIET.with(|q| q.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| body(ch)));
        QUIET.with(|q| q.set(false));
        match r {
            Ok(Ok(())) => (false, None),
            Ok(Err(v)) => (false, Some(v)),
            Err(p) if p.is::<StopProbe>() => (true, None),
            Err(_) => {
                let p = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
                if is_harness_panic(&p) {
                    *INTERNAL.lock().unwrap() = Some(format!("{} at {} (choices {:?})", p.0, p.1, ch.vec));
                    (false, None)
                } else {
                    (false, Some(Viol { key: "panic".into(), msg: format!("panicked: {} at {}", p.0, p.1) }))
                }
            }
        }
    }

    /// Explores `body` on every choice sequence. `split` is the number of leading choices over which
    /// the work is divided between threads; `bound` says in words what is covered.
    pub fn explore<F>(&self, engine: &str, split: usize, bound: &str, body: F)
    where
        F: Fn(&mut Ch) -> Res + Sync,
    {
        if let Some((e, choices)) = &self.replay {
            if e == engine {
                self.replayed.store(true, SeqCst);
                let mut l = Local::default();
                let mut ch = Ch { sizes: vec![0; choices.len()], vec: choices.clone(), pos: 0, fresh_from: 0, stop_at: usize::MAX, verbose: true, log: vec![], rep: &mut l };
                self.mark(0, engine, &ch.vec);
                let (_, v) = self.run_once(&mut ch, &body);
                RUNNING[0].store(0, SeqCst);
                for s in &ch.log {
                    println!("  {s}");
                }
                if let Some(v) = v {
                    self.found.lock().unwrap().push(Found { engine: engine.into(), choices: ch.vec.clone(), log: ch.log.clone(), v });
                }
            }
            return;
        }
        let t0 = Instant::now();
        let mut total = Local::default();
        // 1: probe the first `split` choices sequentially (their points are fully checked here)
        let mut tasks: Vec<(Vec<u32>, Vec<u32>)> = vec![];
        {
            let mut ch = Ch { vec: vec![], sizes: vec![], pos: 0, fresh_from: 0, stop_at: split, verbose: false, log: vec![], rep: &mut total };
            loop {
                self.mark(0, engine, &ch.vec);
                let (stopped, v) = self.run_once(&mut ch, &body);
                self.truncate(&mut ch);
                if let Some(v) = v {
                    self.report(engine, &ch, v, &body);
                } else if stopped {
                    tasks.push((ch.vec.clone(), ch.sizes.clone()));
                }
                if !stopped {
                    ch.rep.runs += 1;
                }
                if self.stop() || !advance(&mut ch, 0) {
                    break;
                }
            }
        }
        RUNNING[0].store(0, SeqCst);
        // 2: the subtrees, in parallel
        let next = AtomicUsize::new(0);
        let merged = Mutex::new(total);
        std::thread::scope(|s| {
            for w in 0..self.threads.min(tasks.len().max(1)) {
                let (next, merged, tasks, body) = (&next, &merged, &tasks, &body);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut l = Local::default();
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= tasks.len() || self.stop() {
                                break;
                            }
                            let (vec, sizes) = tasks[i].clone();
                            let base = vec.len();
                            let mut ch = Ch { vec, sizes, pos: 0, fresh_from: base, stop_at: usize::MAX, verbose: false, log: vec![], rep: &mut l };
                            loop {
                                self.mark(w, engine, &ch.vec);
                                let (_, v) = self.run_once(&mut ch, body);
                                ch.rep.runs += 1;
                                self.truncate(&mut ch);
                                if let Some(v) = v {
                                    self.report(engine, &ch, v, body);
                                }
                                if self.stop() || !advance(&mut ch, base) {
                                    break;
                                }
                            }
                        }
                        RUNNING[w].store(0, SeqCst);
                        let mut m = merged.lock().unwrap();
                        m.runs += l.runs;
                        m.transitions += l.transitions;
                        m.states.extend(l.states);
                        m.outcomes.extend(l.outcomes);
                    })
                    .unwrap();
            }
        });
        let total = merged.into_inner().unwrap();
        // 3: samples, re-run with a log
        if let Some(t) = tasks.get((self.seed as usize * 7919) % tasks.len().max(1)).or(tasks.first()) {
            let mut l = Local::default();
            let mut ch = Ch { vec: t.0.clone(), sizes: t.1.clone(), pos: 0, fresh_from: 0, stop_at: usize::MAX, verbose: true, log: vec![], rep: &mut l };
            self.run_once(&mut ch, &body);
            let mut s = ch.log.join("; ");
            if s.len() > 900 {
                let mut k = 900;
                while !s.is_char_boundary(k) {
                    k -= 1
                }
                s.truncate(k);
                s.push_str(" ...");
            }
            self.samples.lock().unwrap().push(format!("{engine} {:?}: {s}", ch.vec));
        }
        self.traces.fetch_add(total.runs, SeqCst);
        let mut st = self.stats.lock().unwrap();
        let e = st.entry(engine.to_string()).or_default();
        e.runs += total.runs;
        e.transitions += total.transitions;
        e.states += total.states.len() as u64;
        e.outcomes += total.outcomes.len() as u64;
        e.wall += t0.elapsed().as_secs_f64();
        e.bound = bound.into();
        let mut all = self.all_states.lock().unwrap();
        for s in total.states {
            all.insert(fnv(hash_of(&engine), s));
        }
    }

    fn stop(&self) -> bool {
        if self.start.elapsed().as_secs() > self.by(600, 24 * 3600) {
            self.capped.store(true, SeqCst);
            return true;
        }
        INTERNAL.lock().unwrap().is_some() || self.found.lock().unwrap().len() >= 4
    }

    /// Records which run is under way, for the supervisor to find after a crash.
    fn mark(&self, worker: usize, engine: &str, vec: &[u32]) {
        RUNNING[worker.min(64)].store(NOW.load(SeqCst) + 1, SeqCst);
        if let Some(d) = &self.scratch {
            thread_local!(static F: RefCell<Option<(PathBuf, std::fs::File)>> = const { RefCell::new(None) });
            let p = d.join(format!("run.{worker}"));
            F.with(|f| {
                let mut f = f.borrow_mut();
                if f.as_ref().map_or(true, |x| x.0 != p) {
                    *f = Some((p.clone(), std::fs::File::create(&p).unwrap()));
                }
                let mut s = format!("engine: {engine}\ntier: {}\nchoices:", self.tier_name());
                for c in vec {
                    s.push_str(&format!(" {c}"));
                }
                s.push_str("\n\n");
                use std::os::unix::fs::FileExt;
                let _ = f.as_ref().unwrap().1.write_at(s.as_bytes(), 0);
            })
        }
    }

    fn truncate(&self, ch: &mut Ch) {
        ch.vec.truncate(ch.pos);
        ch.sizes.truncate(ch.pos);
    }

    fn report<F>(&self, engine: &str, ch: &Ch, v: Viol, body: &F)
    where
        F: Fn(&mut Ch) -> Res + Sync,
    {
        // replay it: the same choices must fail the same way
        let mut l = Local::default();
        let mut c2 = Ch { vec: ch.vec.clone(), sizes: ch.sizes.clone(), pos: 0, fresh_from: 0, stop_at: usize::MAX, verbose: true, log: vec![], rep: &mut l };
        let (_, again) = self.run_once(&mut c2, body);
        let v = match again {
            Some(v2) => v2,
            None => Viol { key: v.key, msg: format!("{} (did not fail again when replayed)", v.msg) },
        };
        let mut f = self.found.lock().unwrap();
        if f.iter().any(|x| x.v.key == v.key && x.engine == engine) || f.len() >= 4 {
            return;
        }
        f.push(Found { engine: engine.into(), choices: ch.vec.clone(), log: c2.log.clone(), v });
    }

    fn tier_name(&self) -> &'static str {
        self.by("quick", "thorough")
    }

    /// Writes the evidence, prints the verdict and exits.
    pub fn finish(self) -> ! {
        if let Some(e) = INTERNAL.lock().unwrap().as_ref() {
            eprintln!("ERROR: the harness itself failed: {e}");
            std::process::exit(2);
        }
        let found = self.found.lock().unwrap().clone();
        let known = std::fs::read_to_string(self.verif.join("known_findings.txt")).unwrap_or_default();
        let is_known = |f: &Found| {
            known.lines().any(|l| {
                l.starts_with("known: ")
                    && l.contains(&format!("property={} ", self.prop))
                    && l.contains(&format!("key={} ", f.v.key))
            })
        };
        let (kn, bad): (Vec<_>, Vec<_>) = found.iter().cloned().partition(|f| is_known(f));
        for f in &kn {
            println!("KNOWN-FINDING: property={} {}", self.prop, f.v.msg);
        }
        if self.replay.is_some() {
            if !self.replayed.load(SeqCst) {
                eprintln!("ERROR: no such engine");
                std::process::exit(2);
            }
            for f in &bad {
                println!("violated: [{}] {}", f.v.key, f.v.msg);
            }
            std::process::exit(if bad.is_empty() { 0 } else { 1 });
        }
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replay"));
        let mut lines = vec![];
        for (i, f) in bad.iter().enumerate() {
            let p = dir.join("replay").join(format!("{}-{}.txt", self.prop, i + 1));
            let mut o = format!("property: {}\ntier: {}\nengine: {}\nchoices:", self.prop, self.tier_name(), f.engine);
            for c in &f.choices {
                o.push_str(&format!(" {c}"));
            }
            o.push_str(&format!("\nkey: {}\nviolation: {}\nhistory:\n", f.v.key, f.v.msg));
            for l in &f.log {
                o.push_str(&format!("  {l}\n"));
            }
            o.push_str(&format!("\nreplay with: /verif/check {} --replay {}\n", self.prop, p.display()));
            std::fs::write(&p, o).expect("write replay");
            lines.push((p, f.clone()));
        }
        let st = self.stats.lock().unwrap();
        let sum = |g: fn(&EngineStat) -> u64| st.values().map(g).sum::<u64>();
        let capped = self.capped.load(SeqCst);
        let mut j = String::new();
        j.push_str(&format!(
            "{{\n \"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"exhaustive\": {},\n  \"samples\": [{}],\n",
            js(&self.prop), self.tier_name(), self.seed,
            self.all_states.lock().unwrap().len(), sum(|e| e.transitions), self.traces.load(SeqCst),
            !capped && bad.is_empty(),
            self.samples.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "),
        ));
        for (k, v) in self.extra.lock().unwrap().iter() {
            j.push_str(&format!("  {}: {},\n", js(k), js(v)));
        }
        j.push_str("  \"engines\": {");
        j.push_str(
            &st.iter()
                .map(|(k, e)| format!("\n   {}: {{\"explored\": {}, \"executions\": {}, \"transitions\": {}, \"distinct_states\": {}, \"distinct_outcomes\": {}, \"wall_s\": {:.2}}}", js(k), js(&e.bound), e.runs, e.transitions, e.states, e.outcomes, e.wall))
                .collect::<Vec<_>>()
                .join(","),
        );
        j.push_str(&format!(
            "\n  }}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
            self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            bad.len()
        ));
        std::fs::write(dir.join(format!("{}.json", self.prop)), j).expect("write evidence");
        println!(
            "{}: {} executions, {} transitions, {} states, {:.1} s{}",
            self.prop, self.traces.load(SeqCst), sum(|e| e.transitions), self.all_states.lock().unwrap().len(),
            self.start.elapsed().as_secs_f64(), if capped { " (time cap hit)" } else { "" }
        );
        for (k, e) in st.iter() {
            println!("  {k}: {} executions, {} states, {} outcomes, {:.1} s", e.runs, e.states, e.outcomes, e.wall);
        }
        for (p, f) in &lines {
            println!("[{}] {}", f.v.key, f.v.msg);
            println!("VIOLATION property={} replay={}", self.prop, p.display());
        }
        let _ = std::io::stdout().flush();
        if st.is_empty() {
            eprintln!("ERROR: nothing was explored");
            std::process::exit(2);
        }
        std::process::exit(if bad.is_empty() { 0 } else { 1 })
    }
}

fn advance(ch: &mut Ch, base: usize) -> bool {
    while ch.vec.len() > base {
        let i = ch.vec.len() - 1;
        if ch.vec[i] + 1 < ch.sizes[i] {
            ch.vec[i] += 1;
            ch.fresh_from = i;
            return true;
        }
        ch.vec.pop();
        ch.sizes.pop();
    }
    false
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub fn exists(p: &Path) -> bool {
    p.exists()
}
