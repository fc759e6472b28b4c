//! Exhaustive stateless explorer.
//!
//! A scenario is a function whose every choice goes through `Cx::choose`. The explorer re-executes
//! it from the start for every combination of choices (depth-first, split over worker threads) until
//! the whole tree is covered. `Cx::dev` marks choices where index 0 is the environment's default
//! answer and any other answer is a *deviation*; deviations per execution are bounded.
use crate::{alloc, logcap, util};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
type Set64 = HashSet<u64, BuildHasherDefault<Ident>>;

pub type ScenarioFn = fn(&mut Cx) -> Result<(), String>;
pub struct Scenario {
    pub name: &'static str,
    pub f: ScenarioFn,
    /// Deviation bound per tier.
    pub dev: (usize, usize),
    pub bounds: &'static str,
}
pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub scenarios: Vec<Scenario>,
    pub assumptions: &'static [&'static str],
}

#[derive(Default)]
pub struct Stats {
    pub execs: u64,
    pub steps: u64,
    pub states: Set64,
    pub outcomes: Set64,
    pub cover: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, String)>,
    pub max_choices: usize,
}

pub struct Cx {
    pub tier: Tier,
    pub dev_bound: usize,
    dev_used: usize,
    replay: Vec<(u32, u32)>, // (choice, n); n = 0: not checked
    trail: Vec<(u32, u32)>,
    lenient: bool,
    worker: usize,
    stats: Stats,
    verbose: bool,
    notes: Vec<String>,
    sampling: bool,
    diverged: bool,
}

impl Cx {
    fn new(tier: Tier, dev_bound: usize, worker: usize) -> Self {
        Cx {
            tier,
            dev_bound,
            dev_used: 0,
            replay: vec![],
            trail: vec![],
            lenient: false,
            worker,
            stats: Stats::default(),
            verbose: false,
            notes: vec![],
            sampling: false,
            diverged: false,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn by_tier<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    /// Nondeterministic choice of 0..n.
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "harness: choice of nothing");
        if n == 1 {
            return 0;
        }
        let i = self.trail.len();
        let c = match self.replay.get(i) {
            Some(&(c, m)) => {
                if self.lenient {
                    (c as usize).min(n - 1) as u32
                } else {
                    if (m != 0 && m != n as u32) || c as usize >= n {
                        // The code under test keeps state between executions.
                        self.diverged = true;
                    }
                    c.min(n as u32 - 1)
                }
            }
            None => 0,
        };
        self.trail.push((c, n as u32));
        let sl = &SLOTS[self.worker];
        if i < SLOT_LEN {
            sl.choices[i].store(c, Relaxed);
        }
        sl.len.store(i + 1, Relaxed);
        c as usize
    }
    #[inline]
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    #[inline]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    /// Choice where 0 is the default answer; others count as a deviation.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.dev_used >= self.dev_bound {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.dev_used += 1;
        }
        c
    }
    /// One operation executed against the implementation.
    #[inline]
    pub fn step(&mut self) {
        self.stats.steps += 1;
    }
    #[inline]
    pub fn steps(&mut self, n: u64) {
        self.stats.steps += n;
    }
    /// A canonical state (or observation) reached.
    #[inline]
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = util::hash(t);
        self.stats.states.insert(h);
    }
    #[inline]
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = util::hash(t);
        self.stats.outcomes.insert(h);
    }
    pub fn cover(&mut self, l: &'static str) {
        *self.stats.cover.entry(l).or_insert(0) += 1;
    }
    /// Description of the case, kept for samples and replays.
    #[inline]
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose || self.sampling {
            let s = f();
            if self.verbose {
                println!("  {s}");
            }
            self.notes.push(s);
        }
    }
}

const SLOT_LEN: usize = 4096;
const MAXW: usize = 64;
struct Slot {
    len: AtomicUsize,
    case: AtomicU64,
    busy: AtomicBool,
    choices: [AtomicU32; SLOT_LEN],
}
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU32 = AtomicU32::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    len: AtomicUsize::new(0),
    case: AtomicU64::new(0),
    busy: AtomicBool::new(false),
    choices: [Z; SLOT_LEN],
};
static SLOTS: [Slot; MAXW] = [SLOT0; MAXW];

/// Which of the two builds of the checks this is ("plain" or "release", see run.sh).
fn build_name() -> &'static str {
    if cfg!(debug_assertions) {
        "release"
    } else {
        "plain"
    }
}

struct Current {
    prop: String,
    scenario: String,
    tier: Tier,
    dev: usize,
    replaying: bool,
}
static CURRENT: Mutex<Option<Current>> = Mutex::new(None);
static CURRENT_FILE: Mutex<Option<String>> = Mutex::new(None);

fn die(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    unsafe { libc::_exit(3) }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| concat!(env!("CARGO_MANIFEST_DIR"), "/..").to_string())
}

/// Ends the process reporting the execution the given worker is in (used for hangs, memory
/// blow-ups and livelocks, from which there is no way back).
pub fn fatal_violation(worker: usize, msg: &str) -> ! {
    let cur = CURRENT.lock().unwrap();
    let Some(c) = cur.as_ref() else { die(msg) };
    let s = &SLOTS[worker];
    let n = s.len.load(SeqCst).min(SLOT_LEN);
    let ch: Vec<u32> = (0..n).map(|i| s.choices[i].load(SeqCst)).collect();
    report(c, &ch, msg, &[]);
    unsafe { libc::_exit(1) }
}
thread_local! { static MY: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
pub fn fatal_here(msg: &str) -> ! {
    fatal_violation(MY.with(|m| m.get()), msg)
}

fn report(c: &Current, choices: &[u32], msg: &str, notes: &[String]) {
    let path = if c.replaying {
        CURRENT_FILE.lock().unwrap().clone().unwrap_or_default()
    } else {
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}{}.json", c.prop, c.scenario, if build_name() == "plain" { "-plain" } else { "" });
        let j = format!(
            "{{\n \"property\": {},\n \"scenario\": {},\n \"build\": {},\n \"tier\": {},\n \"deviation_bound\": {},\n \"choices\": {:?},\n \"message\": {},\n \"trace\": [{}]\n}}\n",
            util::json_str(&c.prop),
            util::json_str(&c.scenario),
            util::json_str(build_name()),
            util::json_str(if c.tier == Tier::Quick { "quick" } else { "thorough" }),
            c.dev,
            choices,
            util::json_str(msg),
            notes.iter().map(|n| util::json_str(n)).collect::<Vec<_>>().join(",\n  ")
        );
        let _ = std::fs::write(&path, j);
        path
    };
    for n in notes {
        println!("  {n}");
    }
    println!("  {}: {}", c.scenario, msg);
    println!("VIOLATION property={} replay={}", c.prop, path);
    use std::io::Write;
    let _ = std::io::stdout().flush();
}

thread_local! { static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((m, loc)));
    }));
}

/// Runs `f`, turning a panic of the code under test into Err(message). A panic inside the harness
/// itself is an error of the check, never a verdict.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (m, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness(&loc) {
                die(&format!("panic in the harness at {loc}: {m}"));
            }
            Err(format!("panic at {}: {m}", loc.trim_start_matches("/repo/")))
        }
    }
}
fn is_harness(loc: &str) -> bool {
    const CORE: &str = env!("CARGO_MANIFEST_DIR");
    let verif = CORE.strip_suffix("/core").unwrap_or(CORE);
    loc.starts_with("src/") || loc.starts_with(verif)
}

fn run_once(s: &Scenario, cx: &mut Cx, choices: &[(u32, u32)], lenient: bool) -> Result<(), String> {
    cx.replay.clear();
    cx.replay.extend_from_slice(choices);
    cx.trail.clear();
    cx.lenient = lenient;
    cx.dev_used = 0;
    cx.diverged = false;
    cx.notes.clear();
    let sl = &SLOTS[cx.worker];
    sl.len.store(0, Relaxed);
    sl.case.fetch_add(1, Relaxed);
    sl.busy.store(true, Relaxed);
    alloc::arm(512 << 20);
    let r = catch(|| (s.f)(cx)).and_then(|r| r);
    alloc::disarm();
    sl.busy.store(false, Relaxed);
    logcap::reset();
    crate::world::reset();
    cx.stats.execs += 1;
    cx.stats.max_choices = cx.stats.max_choices.max(cx.trail.len());
    r
}

/// What std gives every thread, so that runaway recursion is seen.
const STACK: usize = 2 << 20;

static CRASHED: AtomicUsize = AtomicUsize::new(0);
static CRASH_SIGNAL: AtomicUsize = AtomicUsize::new(0);

extern "C" fn on_crash(sig: libc::c_int) {
    CRASH_SIGNAL.store(sig as usize, SeqCst);
    CRASHED.store(MY.with(|m| m.get()) + 1, SeqCst);
    loop {
        // The watchdog reports the execution this thread was in.
        unsafe { libc::pause() };
    }
}
/// A stack overflow, abort or invalid access of the code under test ends as a reported execution.
fn install_crash_handler() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_crash as extern "C" fn(libc::c_int) as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

struct Shared {
    queue: Mutex<Vec<Vec<u32>>>,
    idle: AtomicUsize,
    stop: AtomicBool,
    viol: Mutex<Option<(Vec<u32>, String)>>,
    workers: usize,
    deadline: Option<Instant>,
    capped: AtomicBool,
    diverged: AtomicBool,
}

fn worker(s: &Scenario, sh: &Shared, cx: &mut Cx) {
    alloc::set_worker(cx.worker);
    MY.with(|m| m.set(cx.worker));
    let mut idle = false;
    loop {
        let task = {
            let t = sh.queue.lock().unwrap().pop();
            if let (Some(_), true) = (&t, idle) {
                sh.idle.fetch_sub(1, SeqCst);
                idle = false;
            }
            t
        };
        let Some(task) = task else {
            if !idle {
                sh.idle.fetch_add(1, SeqCst);
                idle = true;
            }
            if sh.stop.load(SeqCst) || (sh.idle.load(SeqCst) == sh.workers && sh.queue.lock().unwrap().is_empty()) {
                // All workers idle and nothing queued: no one can create new work.
                if sh.stop.load(SeqCst) || sh.idle.load(SeqCst) == sh.workers {
                    return;
                }
            }
            std::thread::sleep(Duration::from_micros(50));
            continue;
        };
        let base = task.len();
        let mut path: Vec<(u32, u32)> = task.iter().map(|&c| (c, 0)).collect();
        let mut limits: Vec<u32> = vec![];
        loop {
            if sh.stop.load(Relaxed) {
                return;
            }
            let n = cx.stats.execs;
            cx.sampling = n < 2 || (n.is_power_of_two() && cx.stats.samples.len() < 40);
            let r = run_once(s, cx, &path, false);
            if cx.sampling && !cx.notes.is_empty() {
                let t = cx.notes.join(" | ");
                let t = if t.len() > 1500 { t.chars().take(1500).collect::<String>() + "..." } else { t };
                cx.stats.samples.push((n, t));
            }
            if let Err(m) = r {
                let ch: Vec<u32> = cx.trail.iter().map(|c| c.0).collect();
                let mut v = sh.viol.lock().unwrap();
                if v.as_ref().map_or(true, |(o, _)| (ch.len(), &ch) < (o.len(), o)) {
                    *v = Some((ch, m));
                }
                sh.stop.store(true, SeqCst);
                return;
            }
            if cx.diverged || cx.trail.len() < path.len() {
                // Not the execution that was asked for: give up this subtree, which is an error of
                // the check unless a violation turns up elsewhere.
                sh.diverged.store(true, SeqCst);
                break;
            }
            if let Some(d) = sh.deadline {
                if cx.stats.execs % 64 == 0 && Instant::now() > d {
                    sh.capped.store(true, SeqCst);
                    sh.stop.store(true, SeqCst);
                    return;
                }
            }
            // limits for new positions
            limits.truncate(path.len().saturating_sub(base));
            for i in base + limits.len()..cx.trail.len() {
                limits.push(cx.trail[i].1);
            }
            // donate work to idle workers
            if sh.idle.load(Relaxed) > 0 {
                if let Some(i) = (base..cx.trail.len()).find(|&i| cx.trail[i].0 + 1 < limits[i - base]) {
                    let mut q = sh.queue.lock().unwrap();
                    if q.len() < 4 * sh.workers {
                        for alt in cx.trail[i].0 + 1..limits[i - base] {
                            let mut p: Vec<u32> = cx.trail[..i].iter().map(|c| c.0).collect();
                            p.push(alt);
                            q.push(p);
                        }
                        limits[i - base] = cx.trail[i].0 + 1;
                    }
                }
            }
            // next leaf
            let Some(i) = (base..cx.trail.len()).rev().find(|&i| cx.trail[i].0 + 1 < limits[i - base]) else { break };
            path.clear();
            path.extend_from_slice(&cx.trail[..=i]);
            path[i].0 += 1;
        }
    }
}

pub struct Outcome {
    pub stats: Stats,
    pub violation: Option<(Vec<u32>, String)>,
    pub capped: bool,
    pub wall: f64,
}

pub fn explore(s: &Scenario, tier: Tier, dev: usize, workers: usize, deadline: Option<Instant>) -> Outcome {
    let t0 = Instant::now();
    let sh = Shared {
        queue: Mutex::new(vec![vec![]]),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        viol: Mutex::new(None),
        workers,
        deadline,
        capped: AtomicBool::new(false),
        diverged: AtomicBool::new(false),
    };
    let mut stats = Stats::default();
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                let sh = &sh;
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        let mut cx = Cx::new(tier, dev, w);
                        worker(s, sh, &mut cx);
                        cx.stats
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            let st = h.join().unwrap_or_else(|_| die("worker panicked"));
            stats.execs += st.execs;
            stats.steps += st.steps;
            if stats.states.is_empty() {
                stats.states = st.states;
            } else {
                stats.states.extend(st.states);
            }
            stats.outcomes.extend(st.outcomes);
            for (k, v) in st.cover {
                *stats.cover.entry(k).or_insert(0) += v;
            }
            stats.samples.extend(st.samples);
            stats.max_choices = stats.max_choices.max(st.max_choices);
        }
    });
    let violation = sh.viol.into_inner().unwrap();
    if violation.is_none() && sh.diverged.into_inner() {
        die(&format!("{}: repeated executions of one choice sequence differed: uncontrolled nondeterminism", s.name));
    }
    Outcome { stats, violation, capped: sh.capped.into_inner(), wall: t0.elapsed().as_secs_f64() }
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = [0u64; MAXW];
        let mut stuck = [0u32; MAXW];
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let c = CRASHED.load(SeqCst);
            if c > 0 {
                let sig = CRASH_SIGNAL.load(SeqCst);
                fatal_violation(c - 1, &format!("the process crashed with signal {sig} (a stack of {STACK} bytes overflowed, or an abort)"));
            }
            if alloc::EXCEEDED.load(SeqCst) {
                let w = alloc::EXCEEDED_BY.load(SeqCst);
                if w < MAXW {
                    fatal_violation(w, "one execution allocated more than 512 MiB: runaway memory use");
                }
                die("harness memory limit");
            }
            for w in 0..MAXW {
                let c = SLOTS[w].case.load(Relaxed);
                if SLOTS[w].busy.load(Relaxed) && c == last[w] {
                    stuck[w] += 1;
                    if stuck[w] > 450 {
                        fatal_violation(w, "the execution does not terminate (no progress for 45 s)");
                    }
                } else {
                    stuck[w] = 0;
                    last[w] = c;
                }
            }
        }
    });
}

/// Greedy reduction of a failing choice sequence (each candidate is re-executed).
fn shrink(s: &Scenario, tier: Tier, dev: usize, ch: Vec<u32>, msg: String) -> (Vec<u32>, String, Vec<String>) {
    let mut cx = Cx::new(tier, dev, MAXW - 1);
    MY.with(|m| m.set(MAXW - 1));
    alloc::set_worker(MAXW - 1);
    let first = (ch.clone(), msg.clone());
    let mut best = ch;
    let mut bmsg = msg;
    let t0 = Instant::now();
    let mut progress = true;
    while progress && t0.elapsed() < Duration::from_secs(10) {
        progress = false;
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            for v in 0..best[i] {
                if t0.elapsed() > Duration::from_secs(10) {
                    break;
                }
                let mut c = best.clone();
                c[i] = v;
                let p: Vec<(u32, u32)> = c.iter().map(|&x| (x, 0)).collect();
                if let Err(m) = run_once(s, &mut cx, &p, true) {
                    let t: Vec<u32> = cx.trail.iter().map(|c| c.0).collect();
                    if (t.len(), &t) < (best.len(), &best) {
                        best = t;
                        bmsg = m;
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    cx.sampling = true;
    let p: Vec<(u32, u32)> = best.iter().map(|&x| (x, 0)).collect();
    for _ in 0..2 {
        match run_once(s, &mut cx, &p, false) {
            Err(m) if m == bmsg => {}
            r => {
                // The harness is deterministic, so the code under test keeps state between
                // executions; report the execution in which the violation was first seen.
                let now = match r {
                    Ok(()) => "now the same choices pass".to_string(),
                    Err(m) => format!("now the same choices give: {m}"),
                };
                return (first.0, format!("{} (depends on earlier executions in this process: {now})", first.1), vec![]);
            }
        }
    }
    (best, bmsg, cx.notes.clone())
}

fn known_findings(id: &str) -> BTreeSet<String> {
    let p = format!("{}/known-findings.txt", verif_dir());
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={id} key=")).map(|r| r.split_whitespace().next().unwrap_or("").to_string()))
        .collect()
}

pub fn main(props: Vec<Property>) {
    logcap::install();
    install_hook();
    crate::world::link();
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("list") {
        for p in &props {
            for s in &p.scenarios {
                println!("{} {} (dev {:?}): {}", p.id, s.name, s.dev, s.bounds);
            }
        }
        return;
    }
    install_crash_handler();
    watchdog();
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        let file = args[2].clone();
        std::thread::Builder::new().stack_size(STACK).spawn(move || replay(&props, &file)).unwrap().join().unwrap();
        return;
    }
    let Some(p) = args.get(1).and_then(|a| props.iter().find(|p| p.id == a)) else { die("unknown property") };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let only = args.get(2).cloned();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16);
    let cap: u64 = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 600 } else { 3 * 3600 });
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(cap);
    let known = known_findings(p.id);
    let mut tot = Stats::default();
    let mut rows = vec![];
    let mut samples: Vec<String> = vec![];
    let mut exhaustive = true;
    let mut failed: Option<(String, Vec<u32>, String, Vec<String>)> = None;
    let mut state_sum = 0u64;
    let mut outcome_sum = 0u64;
    let mut sc_run = 0;
    for s in &p.scenarios {
        if only.as_ref().map_or(false, |o| o != s.name) {
            continue;
        }
        sc_run += 1;
        let dev = if tier == Tier::Quick { s.dev.0 } else { s.dev.1 };
        *CURRENT.lock().unwrap() = Some(Current { prop: p.id.into(), scenario: s.name.into(), tier, dev, replaying: false });
        let o = explore(s, tier, dev, workers, Some(deadline));
        exhaustive &= !o.capped;
        println!(
            "{} {}: executions={} steps={} states={} outcomes={} max_choices={} dev<={} wall={:.1}s{}",
            p.id, s.name, o.stats.execs, o.stats.steps, o.stats.states.len(), o.stats.outcomes.len(), o.stats.max_choices, dev, o.wall,
            if o.capped { " CAPPED" } else { "" }
        );
        rows.push(format!(
            "{{\"scenario\": {}, \"bounds\": {}, \"executions\": {}, \"steps\": {}, \"states\": {}, \"distinct_outcomes\": {}, \"deviation_bound\": {}, \"max_choices\": {}, \"completed\": {}, \"wall_s\": {:.2}, \"cover\": {{{}}}}}",
            util::json_str(s.name), util::json_str(s.bounds), o.stats.execs, o.stats.steps, o.stats.states.len(), o.stats.outcomes.len(), dev, o.stats.max_choices,
            !o.capped && o.violation.is_none(), o.wall,
            o.stats.cover.iter().map(|(k, v)| format!("{}: {}", util::json_str(k), v)).collect::<Vec<_>>().join(", ")
        ));
        tot.execs += o.stats.execs;
        tot.steps += o.stats.steps;
        state_sum += o.stats.states.len() as u64;
        outcome_sum += o.stats.outcomes.len() as u64;
        let mut sm = o.stats.samples;
        sm.sort();
        let k = sm.len();
        for j in [0, k / 3, 2 * k / 3, k.saturating_sub(1)] {
            if let Some((n, t)) = sm.get(j) {
                let t = format!("{}#{}: {}", s.name, n, t);
                if !samples.contains(&t) && samples.len() < 40 {
                    samples.push(t);
                }
            }
        }
        if let Some((ch, m)) = o.violation {
            // a keyed, listed finding is printed, anything else is a violation
            if let Some(k) = m.strip_prefix('[').and_then(|r| r.split(']').next()) {
                if known.contains(k) {
                    println!("KNOWN-FINDING: property={} {}", p.id, m);
                    continue;
                }
            }
            let (ch, m, notes) = shrink(s, tier, dev, ch, m);
            failed = Some((s.name.to_string(), ch, m, notes));
            break;
        }
    }
    if sc_run == 0 {
        die("no such scenario");
    }
    let wall = t0.elapsed().as_secs_f64();
    let nv = failed.is_some() as i32;
    let plain_file = format!("{}/target/plain-{}.json", verif_dir(), p.id);
    let plain = if build_name() == "plain" {
        let f = format!(
            "{{\"build\": \"no debug assertions, wrapping arithmetic\", \"tier\": \"quick\", \"states\": {state_sum}, \"transitions\": {}, \"executions\": {}, \"exhaustive\": {}, \"wall_s\": {wall:.2}, \"violations\": {nv}}}",
            tot.steps, tot.execs, exhaustive && nv == 0
        );
        if only.is_none() {
            let _ = std::fs::write(&plain_file, &f);
        }
        f
    } else {
        std::fs::read_to_string(&plain_file).unwrap_or("null".into())
    };
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"plain_build\": {plain},\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"scenarios\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        util::json_str(p.id),
        util::json_str(if tier == Tier::Quick { "quick" } else { "thorough" }),
        seed,
        state_sum,
        tot.steps,
        tot.execs,
        outcome_sum,
        exhaustive && nv == 0,
        util::json_str(p.rule),
        rows.join(",\n   "),
        samples.iter().map(|s| util::json_str(s)).collect::<Vec<_>>().join(",\n   "),
        p.assumptions.iter().map(|s| util::json_str(s)).collect::<Vec<_>>().join(", "),
        wall,
        nv
    );
    if only.is_none() {
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        if std::fs::write(format!("{dir}/{}.json", p.id), j).is_err() {
            die("cannot write evidence");
        }
    }
    if let Some((sc, ch, m, notes)) = failed {
        let dev = p.scenarios.iter().find(|s| s.name == sc).map(|s| if tier == Tier::Quick { s.dev.0 } else { s.dev.1 }).unwrap_or(0);
        report(&Current { prop: p.id.into(), scenario: sc, tier, dev, replaying: false }, &ch, &m, &notes);
        std::process::exit(1);
    }
    println!("OK property={} build={} executions={} wall={:.1}s", p.id, build_name(), tot.execs, wall);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(0) }
}

fn field<'a>(j: &'a str, k: &str) -> &'a str {
    let pat = format!("\"{k}\": ");
    let i = j.find(&pat).unwrap_or_else(|| die("bad replay file")) + pat.len();
    let r = &j[i..];
    let e = if r.starts_with('[') { r.find(']').unwrap() + 1 } else { r.find('\n').unwrap() };
    r[..e].trim_end_matches(',')
}

fn replay(props: &[Property], file: &str) {
    let j = std::fs::read_to_string(file).unwrap_or_else(|_| die("cannot read replay file"));
    let un = |s: &str| s.trim_matches('"').to_string();
    let prop = un(field(&j, "property"));
    let sc = un(field(&j, "scenario"));
    let tier = if un(field(&j, "tier")) == "quick" { Tier::Quick } else { Tier::Thorough };
    let dev: usize = field(&j, "deviation_bound").parse().unwrap();
    let ch: Vec<(u32, u32)> = field(&j, "choices")
        .trim_matches(|c| c == '[' || c == ']')
        .split(',')
        .filter_map(|x| x.trim().parse::<u32>().ok())
        .map(|c| (c, 0))
        .collect();
    let s = props
        .iter()
        .find(|p| p.id == prop)
        .and_then(|p| p.scenarios.iter().find(|s| s.name == sc))
        .unwrap_or_else(|| die("unknown property or scenario in replay file"));
    *CURRENT_FILE.lock().unwrap() = Some(file.to_string());
    *CURRENT.lock().unwrap() = Some(Current { prop: prop.clone(), scenario: sc.clone(), tier, dev, replaying: true });
    let mut cx = Cx::new(tier, dev, 0);
    cx.verbose = true;
    alloc::set_worker(0);
    match run_once(s, &mut cx, &ch, false) {
        Ok(()) => println!("replay: property {prop} holds on this execution"),
        Err(m) => {
            println!("  {sc}: {m}");
            println!("VIOLATION property={prop} replay={file}");
            std::process::exit(1);
        }
    }
}
