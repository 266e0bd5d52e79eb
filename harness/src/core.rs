//! Exploration core: suites, case accounting, parallel enumeration, explicit-state search,
//! violations, known findings, evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::Instant;

pub static HEARTBEAT: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug)]
pub struct Viol {
    pub suite: String,
    pub key: String,
    pub detail: String,
}

#[derive(Default)]
pub struct SuiteStat {
    pub bound: String,
    pub states: u64,
    pub transitions: u64,
    pub cases: u64,
    pub outcomes: u64,
    pub depth: Option<u64>,
    pub wall_s: f64,
}

pub struct Rep {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub only_suite: Option<String>,
    pub suites: Mutex<BTreeMap<String, SuiteStat>>,
    pub viol: Mutex<Vec<Viol>>,
    pub samples: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
    pub t0: Instant,
    pub status_file: Option<String>,
    pub profile: bool,
}

pub struct Suite<'a> {
    pub rep: &'a Rep,
    pub name: String,
    states: AtomicU64,
    transitions: AtomicU64,
    cases: AtomicU64,
    depth: AtomicU64,
    outcomes: Mutex<HashSet<u64>>,
    samples: AtomicUsize,
    nviol: AtomicUsize,
    stopped: AtomicBool,
}

const MAX_VIOL_PER_SUITE: usize = 12;

thread_local! {
    static AT: Cell<[u128; 6]> = const { Cell::new([0; 6]) };
    static CASE: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Cheap "where are we" marker for hot loops, reported when the library panics.
#[inline]
pub fn at(v: [u128; 6]) {
    AT.with(|a| a.set(v));
}
pub fn case_label(s: String) {
    CASE.with(|c| *c.borrow_mut() = s);
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        PANIC.with(|p| *p.borrow_mut() = msg.replace('\n', " "));
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}
/// Run a closure, turning a panic into an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16)
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Rep {
    pub fn suite(&self, name: &str, bound: &str, f: impl FnOnce(&Suite)) {
        if let Some(o) = &self.only_suite {
            if o != name {
                return;
            }
        }
        if let Some(p) = &self.status_file {
            let _ = std::fs::write(p, name);
        }
        let s = Suite {
            rep: self,
            name: name.to_string(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            cases: AtomicU64::new(0),
            depth: AtomicU64::new(u64::MAX),
            outcomes: Mutex::new(HashSet::new()),
            samples: AtomicUsize::new(0),
            nviol: AtomicUsize::new(0),
            stopped: AtomicBool::new(false),
        };
        let t = Instant::now();
        case_label(String::new());
        if let Err(m) = guard(|| f(&s)) {
            s.fail("suite-panic", &format!("panic outside a case: {m} (last case: {})", CASE.with(|c| c.borrow().clone())));
        }
        let mut g = self.suites.lock().unwrap();
        let st = g.entry(name.to_string()).or_default();
        st.bound = bound.to_string();
        st.states += s.states.load(Relaxed);
        st.transitions += s.transitions.load(Relaxed);
        st.cases += s.cases.load(Relaxed);
        st.outcomes += s.outcomes.lock().unwrap().len() as u64;
        let d = s.depth.load(Relaxed);
        if d != u64::MAX {
            st.depth = Some(d);
        }
        st.wall_s += t.elapsed().as_secs_f64();
        if self.profile {
            eprintln!(
                "  suite {:<34} cases={:<9} states={:<9} trans={:<10} outcomes={:<7} {:.2}s",
                name, st.cases, st.states, st.transitions, st.outcomes, st.wall_s
            );
        }
        if s.stopped.load(Relaxed) && s.nviol.load(Relaxed) == 0 {
            panic!("suite stopped without a violation");
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
}

impl<'a> Suite<'a> {
    pub fn fail(&self, key: &str, detail: &str) {
        let n = self.nviol.fetch_add(1, Relaxed);
        if n >= MAX_VIOL_PER_SUITE {
            self.stopped.store(true, Relaxed);
            return;
        }
        self.rep.viol.lock().unwrap().push(Viol {
            suite: self.name.clone(),
            key: key.to_string(),
            detail: detail.chars().take(4000).collect(),
        });
    }
    pub fn stop(&self) -> bool {
        self.stopped.load(Relaxed)
    }
    pub fn states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
        HEARTBEAT.fetch_add(1, Relaxed);
    }
    pub fn transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
        HEARTBEAT.fetch_add(1, Relaxed);
    }
    pub fn cases(&self, n: u64) {
        self.cases.fetch_add(n, Relaxed);
        HEARTBEAT.fetch_add(1, Relaxed);
    }
    pub fn depth(&self, d: u64) {
        self.depth.store(d, Relaxed);
    }
    pub fn outcome(&self, h: u64) {
        let mut g = self.outcomes.lock().unwrap();
        if g.len() < 4_000_000 {
            g.insert(h);
        }
    }
    pub fn outcomes(&self, hs: &[u64]) {
        let mut g = self.outcomes.lock().unwrap();
        if g.len() < 4_000_000 {
            g.extend(hs);
        }
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        if self.samples.fetch_add(1, Relaxed) < 2 {
            let s = format!("{}: {}", self.name, f());
            self.rep.samples.lock().unwrap().push(s.chars().take(600).collect());
        }
    }
    /// One case: counts it, runs it, records an error or a panic as a violation.
    pub fn case(&self, key: &str, f: impl FnOnce() -> Result<u64, String>) -> bool {
        if self.stop() {
            return false;
        }
        case_label(format!("{}/{}", self.name, key));
        self.cases(1);
        self.states(1);
        match guard(f) {
            Ok(Ok(t)) => {
                self.transitions(t);
                true
            }
            Ok(Err(e)) => {
                self.fail(key, &e);
                false
            }
            Err(p) => {
                self.fail(key, &format!("panicked: {p}"));
                false
            }
        }
    }
    /// Enumerate all items in parallel; a panic in one item is a violation carrying the last marker.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..threads().min(items.len().max(1)) {
                sc.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= items.len() || self.stop() {
                            break;
                        }
                        at([0; 6]);
                        case_label(format!("{}#{}", self.name, i));
                        if let Err(p) = guard(|| f(&items[i])) {
                            let c = CASE.with(|c| c.borrow().clone());
                            let a = AT.with(|a| a.get());
                            self.fail(&format!("panic@{c}"), &format!("panicked in case {c} at {a:?}: {p}"));
                        }
                    }
                });
            }
        });
    }
    pub fn par_n(&self, n: usize, f: impl Fn(usize) + Sync) {
        let v: Vec<usize> = (0..n).collect();
        self.par(&v, |&i| f(i));
    }
}

/// Explicit-state breadth-first search whose transitions call the real implementation.
pub trait Machine: Sync {
    type State: Clone + Send + Sync;
    type Op: Clone + Send + Sync + std::fmt::Debug;
    /// Operations enabled in a state (the alphabet).
    fn ops(&self, s: &Self::State) -> Vec<Self::Op>;
    /// Apply on the implementation and on the model; Err is a violation.
    fn step(&self, s: &Self::State, op: &Self::Op) -> Result<Self::State, String>;
    /// Exact canonical form (implementation contents and model contents).
    fn canon(&self, s: &Self::State) -> u128;
    /// Invariant evaluated in every distinct state.
    fn check(&self, s: &Self::State) -> Result<u64, String>;
}

pub fn h128<T: Hash + ?Sized>(t: &T) -> u128 {
    let mut a = std::collections::hash_map::DefaultHasher::new();
    0x9e37u64.hash(&mut a);
    t.hash(&mut a);
    let mut b = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut b);
    0x51ed_u64.hash(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}

struct Node<S, O> {
    st: S,
    hist: Vec<O>,
}

pub fn bfs<M: Machine>(su: &Suite, m: &M, inits: Vec<(String, M::State)>, depth: usize, cap: usize) {
    let mut seen: HashSet<u128> = HashSet::new();
    let mut frontier: Vec<(String, Node<M::State, M::Op>)> = vec![];
    for (name, st) in inits {
        let k = m.canon(&st);
        if seen.insert(k) {
            if !su.case(&format!("init={name}"), || m.check(&st)) {
                continue;
            }
            su.outcome(k as u64);
            frontier.push((name, Node { st, hist: vec![] }));
        }
    }
    for d in 0..depth {
        if su.stop() {
            return;
        }
        let next: Mutex<Vec<(usize, usize, u128, String, Node<M::State, M::Op>)>> = Mutex::new(vec![]);
        let last = d + 1 == depth;
        let seen_ro = &seen;
        let lastseen: Mutex<HashSet<u128>> = Mutex::new(HashSet::new());
        let idx: Vec<usize> = (0..frontier.len()).collect();
        su.par(&idx, |&i| {
            let (name, node) = &frontier[i];
            let mut out = vec![];
            for (j, op) in m.ops(&node.st).into_iter().enumerate() {
                if su.stop() {
                    return;
                }
                su.transitions(1);
                let label = || {
                    let mut s = format!("init={name}");
                    for o in &node.hist {
                        let _ = write!(s, " ; {o:?}");
                    }
                    let _ = write!(s, " ; {op:?}");
                    s
                };
                match guard(|| m.step(&node.st, &op)) {
                    Err(p) => su.fail(&label(), &format!("history [{}] panicked: {p}", label())),
                    Ok(Err(e)) => su.fail(&label(), &format!("history [{}]: {e}", label())),
                    Ok(Ok(ns)) => {
                        let k = m.canon(&ns);
                        if seen_ro.contains(&k) {
                            continue;
                        }
                        if last {
                            if !lastseen.lock().unwrap().insert(k) {
                                continue;
                            }
                        }
                        // invariant in the new state
                        su.cases(1);
                        match guard(|| m.check(&ns)) {
                            Err(p) => su.fail(&label(), &format!("history [{}]: invariant check panicked: {p}", label())),
                            Ok(Err(e)) => su.fail(&label(), &format!("history [{}]: {e}", label())),
                            Ok(Ok(t)) => {
                                su.transitions(t);
                                su.outcome(k as u64);
                                if i == frontier.len() / 2 {
                                    su.sample(&label);
                                }
                                if !last {
                                    let mut hist = node.hist.clone();
                                    hist.push(op);
                                    out.push((i, j, k, name.clone(), Node { st: ns, hist }));
                                } else {
                                    su.states(1);
                                }
                            }
                        }
                    }
                }
            }
            next.lock().unwrap().extend(out);
        });
        su.depth(d as u64 + 1);
        let mut nx = next.into_inner().unwrap();
        nx.sort_by_key(|x| (x.0, x.1));
        frontier.clear();
        for (_, _, k, name, node) in nx {
            if seen.insert(k) {
                su.states(1);
                frontier.push((name, node));
            }
        }
        if !last && frontier.len() > cap {
            eprintln!("engine error: state cap {cap} exceeded at depth {}: {} states", d + 1, frontier.len());
            std::process::exit(2);
        }
        if frontier.is_empty() && !last {
            break;
        }
    }
}

/// Cartesian power: every vector of `n` indices below `k`, in lexicographic order.
pub fn all_tuples(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        let mut nx = Vec::with_capacity(out.len() * k);
        for v in &out {
            for i in 0..k {
                let mut w = v.clone();
                w.push(i);
                nx.push(w);
            }
        }
        out = nx;
    }
    out
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

// ---------------------------------------------------------------- randomness owned by the harness
use rand_chacha::ChaCha8Rng;
use rand_chacha::rand_core::SeedableRng;

pub fn rng(seed: u64) -> ChaCha8Rng {
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    ChaCha8Rng::seed_from_u64(base.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ seed)
}
/// Small deterministic generator for data that only needs to be "some value".
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

// ---------------------------------------------------------------- json (writer only)
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// An iterator with one of the size hints it may truthfully give.
#[derive(Clone)]
pub struct Hint<I>(pub I, pub usize);
pub const HINTS: usize = 4;
impl<I: ExactSizeIterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 {
            0 => (0, None),
            1 => (0, Some(n)),
            2 => (n, None),
            _ => (n.min(1), Some(2 * n + 5)),
        }
    }
}
