//! Case generation, shrinking, sharding, replay files and evidence.
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Debug;
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<A>(self, q: A, t: A) -> A {
        if self == Tier::Quick { q } else { t }
    }
}
#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// extra executions performed inside the case
    pub calls: u64,
}
pub type Outcome = Result<Info, String>;

pub trait Prop: Sync {
    type Case: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    /// enumerated cases (size sweeps), run before the random search
    fn systematic(&self, _t: Tier) -> Vec<Self::Case> {
        vec![]
    }
    /// number of random cases
    fn cases(&self, t: Tier) -> usize;
    fn gen(&self, r: &mut TestRng, t: Tier) -> Self::Case;
    fn shrink(&self, c: &Self::Case) -> Vec<Self::Case>;
    fn check(&self, c: &Self::Case) -> Outcome;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
}

// ---- proptest strategy with explicit shrink candidates
struct Strat<'a, P: Prop>(&'a P, Tier);
impl<'a, P: Prop> Debug for Strat<'a, P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0.id())
    }
}
struct Tree<'a, P: Prop> {
    p: &'a P,
    best: P::Case,
    cur: P::Case,
    cands: VecDeque<P::Case>,
}
impl<'a, P: Prop> ValueTree for Tree<'a, P> {
    type Value = P::Case;
    fn current(&self) -> P::Case {
        self.cur.clone()
    }
    fn simplify(&mut self) -> bool {
        self.best = self.cur.clone();
        self.cands = self.p.shrink(&self.best).into();
        match self.cands.pop_front() {
            Some(c) => {
                self.cur = c;
                true
            }
            None => false,
        }
    }
    fn complicate(&mut self) -> bool {
        match self.cands.pop_front() {
            Some(c) => {
                self.cur = c;
                true
            }
            None => {
                self.cur = self.best.clone();
                false
            }
        }
    }
}
impl<'a, P: Prop> Strategy for Strat<'a, P> {
    type Tree = Tree<'a, P>;
    type Value = P::Case;
    fn new_tree(&self, r: &mut TestRunner) -> NewTree<Self> {
        let c = self.0.gen(r.rng(), self.1);
        Ok(Tree { p: self.0, best: c.clone(), cur: c, cands: VecDeque::new() })
    }
}

// ---- crash attribution: the case each thread is working on, readable from a signal handler
const SLOTS: usize = 64;
struct Slot {
    ptr: AtomicPtr<u8>,
    len: AtomicUsize,
    /// seconds since process start (+1) at which the case began; 0 = idle
    since: AtomicUsize,
}
static CUR: [Slot; SLOTS] =
    [const { Slot { ptr: AtomicPtr::new(std::ptr::null_mut()), len: AtomicUsize::new(0), since: AtomicUsize::new(0) } }; SLOTS];
static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now() -> usize {
    T0.get_or_init(Instant::now).elapsed().as_secs() as usize + 1
}
static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MY: usize = NEXT.fetch_add(1, SeqCst) % SLOTS;
    static HOLD: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static CRASH_FD: AtomicUsize = AtomicUsize::new(usize::MAX);
fn set_current(s: String) {
    MY.with(|&m| {
        CUR[m].len.store(0, SeqCst);
        HOLD.with(|h| {
            *h.borrow_mut() = s;
            let b = h.borrow();
            CUR[m].ptr.store(b.as_ptr() as *mut u8, SeqCst);
            CUR[m].len.store(b.len(), SeqCst);
            CUR[m].since.store(now(), SeqCst);
        })
    })
}
fn set_idle() {
    MY.with(|&m| {
        CUR[m].len.store(0, SeqCst);
        CUR[m].since.store(0, SeqCst);
    })
}
unsafe fn dump_slot(m: usize) -> bool {
    let fd = CRASH_FD.load(SeqCst) as i32;
    let n = CUR[m].len.load(SeqCst);
    if n > 0 {
        libc::write(fd, CUR[m].ptr.load(SeqCst) as *const _, n);
        libc::write(fd, b"\n".as_ptr() as *const _, 1);
    }
    n > 0
}
/// write the faulting thread's case; if the thread has none (a thread the case itself spawned), all of them
pub extern "C" fn dump_cases() {
    unsafe {
        let m = MY.try_with(|&m| m).unwrap_or(0);
        if !dump_slot(m) {
            for i in 0..SLOTS {
                dump_slot(i);
            }
        }
    }
}
extern "C" fn on_crash(sig: i32) {
    dump_cases();
    unsafe { libc::_exit(if sig == libc::SIGABRT { 98 } else { 99 }) }
}
/// The best failure so far and when the first one was found: if other threads (or the minimisation) then get
/// stuck in the library, the watchdog reports it.
static FOUND: Mutex<Option<(String, String, String, usize)>> = Mutex::new(None);
fn found(id: &str, json: &str, msg: &str) {
    let mut g = FOUND.lock().unwrap();
    let t = g.as_ref().map_or(now(), |f| f.3);
    *g = Some((id.into(), json.into(), msg.into(), t));
}
fn report(id: &str, json: &str, msg: &str) {
    let path = write_replay(id, json, msg);
    println!("property {} violated: {}", id, msg);
    println!("minimal case: {}", if json.len() > 2000 { &json[..2000] } else { json });
    println!("VIOLATION property={} replay={}", id, path.display());
}
/// A library call that never returns is reported as exit 97 with the case it was running.
pub fn start_watchdog(limit_s: usize) {
    now();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let late = FOUND.lock().unwrap().clone().filter(|f| now() > f.3 + 75);
        if let Some((id, json, msg, _)) = late {
            report(&id, &json, &msg);
            use std::io::Write;
            let _ = std::io::stdout().flush();
            unsafe { libc::_exit(1) }
        }
        for m in 0..SLOTS {
            let s = CUR[m].since.load(SeqCst);
            if s != 0 && now() > s + limit_s {
                unsafe {
                    dump_slot(m);
                    libc::_exit(97);
                }
            }
        }
    });
}
pub fn install_crash_handler(path: &str) {
    use std::os::fd::IntoRawFd;
    let f = std::fs::File::create(path).expect("crash file");
    CRASH_FD.store(f.into_raw_fd() as usize, SeqCst);
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_crash as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    crate::signal::mix(h)
}

#[derive(Default)]
struct Stats {
    evals: u64,
    calls: u64,
    nontrivial: HashSet<u64>,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    shrink_evals: u64,
}
impl Stats {
    fn add(&mut self, json: &str, i: &Info) {
        self.evals += 1;
        self.calls += i.calls;
        let h = hash(json);
        self.distinct.insert(h);
        if i.nontrivial && self.nontrivial.insert(h) && self.samples.len() < 4 && json.len() < 1500 && (self.nontrivial.len() % 37 == 1) {
            self.samples.push(json.to_string());
        }
        for l in &i.labels {
            *self.labels.entry(l.clone()).or_default() += 1;
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.calls += o.calls;
        self.shrink_evals += o.shrink_evals;
        self.nontrivial.extend(o.nontrivial);
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
    }
}

/// check + process-wide heap red-zone verdict
fn checked<P: Prop>(p: &P, c: &P::Case) -> Outcome {
    let before = crate::alloc::CORRUPT.load(SeqCst);
    crate::core::SKEW.with(|s| s.set(0));
    crate::plan::FUSE.with(|f| f.set(0));
    let r = match crate::core::guard(|| p.check(c)) {
        Ok(r) => r,
        Err(m) => Err(format!("panic while evaluating the case: {}", m)),
    };
    if r.is_ok() && crate::alloc::CORRUPT.load(SeqCst) != before {
        return Err("heap red zone overwritten while this case ran (out-of-bounds write)".into());
    }
    r
}
fn greedy<P: Prop>(p: &P, c: &P::Case, msg: String, evals: &mut u64) -> (P::Case, String) {
    let (mut best, mut bm) = (c.clone(), msg);
    let t0 = Instant::now();
    let mut budget = 600;
    'outer: loop {
        for s in p.shrink(&best) {
            if budget == 0 || t0.elapsed().as_secs() > 60 {
                break 'outer;
            }
            budget -= 1;
            *evals += 1;
            set_current(serde_json::to_string(&s).unwrap());
            if let Err(m) = checked(p, &s) {
                best = s;
                bm = m;
                continue 'outer;
            }
        }
        break;
    }
    (best, bm)
}

pub struct Failure {
    pub json: String,
    pub msg: String,
    order: usize,
}
pub const VERIF: &str = env!("CARGO_MANIFEST_DIR");
pub fn verif_dir() -> std::path::PathBuf {
    if let Some(d) = std::env::var_os("DHT_VERIF") {
        return d.into();
    }
    std::path::Path::new(VERIF).parent().unwrap().to_path_buf()
}

fn corpus<P: Prop>(p: &P) -> Vec<P::Case> {
    let f = verif_dir().join("corpus").join(format!("{}.jsonl", p.id()));
    let Ok(s) = std::fs::read_to_string(f) else { return vec![] };
    s.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).unwrap_or_else(|e| panic!("bad corpus line {}: {}", l, e)))
        .collect()
}

pub fn write_replay(id: &str, case_json: &str, msg: &str) -> std::path::PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).expect("replays dir");
    let f = dir.join(format!("{}-{:016x}.json", id, hash(case_json)));
    let case: serde_json::Value = serde_json::from_str(case_json).unwrap_or(serde_json::Value::String(case_json.into()));
    let v = serde_json::json!({"property": id, "message": msg, "case": case,
        "how": format!("bash /verif/check.sh {} replay <this file>", id)});
    std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
    f
}

pub struct RunOpts {
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    /// percentage of the tier's random case count
    pub scale: usize,
    /// run every `thin`-th enumerated case
    pub thin: usize,
    /// where to write the evidence
    pub evidence: Option<String>,
}

/// Run a property; Ok(true) = held.
pub fn run<P: Prop>(p: &P, o: &RunOpts) -> bool {
    let t0 = Instant::now();
    let corp = corpus(p);
    let ncorp = corp.len();
    let mut sys = corp;
    let thin = o.thin.max(1);
    sys.extend(p.systematic(o.tier).into_iter().skip(thin - 1).step_by(thin));
    let nsys = sys.len();
    let fail: Mutex<Option<Failure>> = Mutex::new(None);
    let min_fail = AtomicUsize::new(usize::MAX);
    let stats = Mutex::new(Stats::default());
    let record = |f: Failure| {
        min_fail.fetch_min(f.order, SeqCst);
        let mut g = fail.lock().unwrap();
        if g.as_ref().map_or(true, |x| f.order < x.order) {
            found(p.id(), &f.json, &f.msg);
            *g = Some(f);
        }
    };
    // Time limits of this stage. The quick ones are several times what a run takes here: they only matter on a
    // much slower machine or library, where fewer cases are better than no answer. The evidence tells how many ran.
    let (limit1, limit2) = match (o.tier, o.scale >= 100) {
        (Tier::Quick, true) => (250, 330),
        (Tier::Quick, false) => (120, 180),
        (Tier::Thorough, true) => (1500, 900),
        (Tier::Thorough, false) => (500, 400),
    };
    // phase 1: corpus + enumerated cases
    let idx = AtomicUsize::new(0);
    let work1 = || {
        let mut st = Stats::default();
        loop {
            let i = idx.fetch_add(1, SeqCst);
            if i >= nsys || i > min_fail.load(SeqCst) || t0.elapsed().as_secs() > limit1 {
                break;
            }
            let c = &sys[i];
            let js = serde_json::to_string(c).unwrap();
            set_current(js.clone());
            match checked(p, c) {
                Ok(info) => st.add(&js, &info),
                Err(m) => {
                    st.evals += 1;
                    if FOUND.lock().unwrap().is_none() {
                        found(p.id(), &js, &m);
                    }
                    let (b, bm) = greedy(p, c, m, &mut st.shrink_evals);
                    record(Failure { json: serde_json::to_string(&b).unwrap(), msg: bm, order: i });
                }
            }
        }
        set_idle();
        stats.lock().unwrap().merge(st);
    };
    std::thread::scope(|s| {
        for _ in 0..o.threads {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, &work1).unwrap();
        }
    });
    let ran = idx.load(SeqCst).min(nsys);
    let t_sys = t0.elapsed().as_secs_f64();
    // enumeration may have eaten the time: leave some for the random part anyway
    let limit2 = limit2.max(t_sys as u64 + limit2 / 4);
    // phase 2: random search
    let total = p.cases(o.tier) * o.scale / 100;
    const SHARDS: usize = 32;
    let shard = AtomicUsize::new(0);
    let work2 = || {
        let st = std::cell::RefCell::new(Stats::default());
        loop {
            let s = shard.fetch_add(1, SeqCst);
            if s >= SHARDS || t0.elapsed().as_secs() > limit2 || s + nsys > min_fail.load(SeqCst) || min_fail.load(SeqCst) < nsys {
                break;
            }
            let n = total / SHARDS + if s < total % SHARDS { 1 } else { 0 };
            let mut seed = [0u8; 32];
            for (j, ch) in seed.chunks_mut(8).enumerate() {
                let v = crate::signal::mix(o.seed ^ crate::signal::mix(hash(p.id()) ^ ((s as u64) << 8 | j as u64)));
                ch.copy_from_slice(&v.to_le_bytes());
            }
            let cfg = Config { cases: n as u32, failure_persistence: None, max_shrink_iters: 600, max_shrink_time: 60_000, verbose: 0, ..Config::default() };
            if n == 0 {
                continue;
            }
            let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
            let failed = std::cell::Cell::new(false);
            let last = std::cell::RefCell::new(None::<(P::Case, String)>);
            let r = runner.run(&Strat(p, o.tier), |c| {
                if !failed.get() && t0.elapsed().as_secs() > limit2 {
                    return Ok(());
                }
                let js = serde_json::to_string(&c).unwrap();
                set_current(js.clone());
                match checked(p, &c) {
                    Ok(info) => {
                        if failed.get() {
                            st.borrow_mut().shrink_evals += 1;
                        } else {
                            st.borrow_mut().add(&js, &info);
                        }
                        Ok(())
                    }
                    Err(m) => {
                        if failed.replace(true) {
                            st.borrow_mut().shrink_evals += 1;
                        } else {
                            if FOUND.lock().unwrap().is_none() {
                                found(p.id(), &js, &m);
                            }
                            st.borrow_mut().evals += 1;
                        }
                        *last.borrow_mut() = Some((c.clone(), m.clone()));
                        Err(TestCaseError::fail(m))
                    }
                }
            });
            match r {
                Ok(()) => {}
                Err(TestError::Fail(..)) => {
                    let (c, m) = last.borrow_mut().take().unwrap();
                    record(Failure { json: serde_json::to_string(&c).unwrap(), msg: m, order: nsys + s });
                }
                Err(TestError::Abort(e)) => {
                    eprintln!("proptest aborted: {}", e);
                    std::process::exit(2);
                }
            }
        }
        let st = st.into_inner();
        set_idle();
        stats.lock().unwrap().merge(st);
    };
    if min_fail.load(SeqCst) == usize::MAX {
        std::thread::scope(|s| {
            for _ in 0..o.threads {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, &work2).unwrap();
            }
        });
    }
    let st = stats.into_inner().unwrap();
    let f = fail.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    eprintln!(
        "{}: {} cases ({} saved, {} enumerated in {:.1}s), {} library calls, {} distinct non-trivial, {:.1}s, labels {:?}",
        p.id(), st.evals, ncorp, ran.max(ncorp) - ncorp, t_sys, st.calls, st.nontrivial.len(), wall, st.labels
    );
    for (k, v) in crate::core::CALIB.lock().unwrap().iter() {
        eprintln!("calib {} {:.3} {}", k, v.0, &v.1[..v.1.len().min(300)]);
    }
    if let Some(path) = &o.evidence {
        let samples: Vec<serde_json::Value> = st.samples.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
        let mut ass = p.assumptions();
        ass.push("evidence is a search over generated cases, not a proof");
        let ev = serde_json::json!({
            "property": p.id(),
            "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": o.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": st.evals,
                "distinct_nontrivial": st.nontrivial.len(),
                "distinct": st.distinct.len(),
                "saved_cases": ncorp,
                "enumerated_cases": ran.max(ncorp) - ncorp,
                "library_calls": st.calls,
                "shrink_evaluations": st.shrink_evals,
                "rule": p.rule(),
                "classes": st.labels,
                "samples": samples,
            },
            "assumptions": ass,
            "wall_s": wall,
            "violations": if f.is_some() { 1 } else { 0 },
        });
        std::fs::write(path, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    match f {
        None => true,
        Some(f) => {
            report(p.id(), &f.json, &f.msg);
            false
        }
    }
}

/// Re-run one saved case (replay file or bare case JSON).
pub fn replay<P: Prop>(p: &P, text: &str) -> Result<Info, String> {
    let v: serde_json::Value = serde_json::from_str(text).expect("replay file is not JSON");
    let c = if v.get("case").is_some() && v.get("property").is_some() { v["case"].clone() } else { v };
    let c: P::Case = serde_json::from_value(c).expect("replay case does not parse");
    set_current(serde_json::to_string(&c).unwrap());
    checked(p, &c)
}
/// shrink candidates of a case, as JSON (used by the parent to minimise crashing cases out of process)
pub fn candidates<P: Prop>(p: &P, text: &str) -> Vec<String> {
    let c: P::Case = serde_json::from_str(text).expect("case does not parse");
    p.shrink(&c).iter().map(|s| serde_json::to_string(s).unwrap()).collect()
}
