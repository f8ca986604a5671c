//! Exploration engine: distributes work items over threads inside a child process,
//! guards every call into the crate under check (panic, abort, memory, hang), collects
//! violations and coverage, and writes the evidence.
use crate::alloc;
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::Instant;

pub const SLOTS: usize = 16;
const DESC: usize = 24 * 1024;

#[repr(C)]
pub struct Slot {
    in_impl: AtomicU32,
    culprit: AtomicU32,
    seq: AtomicU64,
    item: AtomicU32,
    pid_tid: AtomicU32,
    op_len: AtomicU32,
    byte_len: AtomicU32,
    op: [u8; 128],
    desc: [u8; DESC],
}

pub fn now_raw(clock: libc::clockid_t) -> f64 {
    // the clock_gettime symbol is replaced in this binary: ask the kernel
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, clock, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

pub struct Violation {
    pub key: String,
    pub detail: String,
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Result of a guarded call into the crate.
pub type Imp<R> = Result<R, String>;

pub struct W {
    slot: *mut Slot,
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub viols: Vec<Violation>,
    keys: HashSet<String>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub peak: usize,
    pub outcomes: HashSet<u64>,
    pub item: usize,
}
unsafe impl Send for W {}

fn hash_bytes(b: &[u8], seed: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h ^= u64::from_le_bytes(x) ^ ((c.len() as u64) << 56);
        h = h.wrapping_mul(0x0000_0100_0000_01B3).rotate_left(29).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    h ^ (h >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes(), 7)
}

fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    let at = PANIC_AT.with(|p| p.borrow().clone());
    format!("panic: {m}{at}")
}
/// Run something on a helper thread; a panic becomes its text.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Imp<R> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|e| panic_text(&*e))
}

impl W {
    pub fn new(slot: *mut Slot, item: usize) -> W {
        W {
            slot,
            states: HashSet::new(),
            transitions: 0,
            traces: 0,
            viols: vec![],
            keys: HashSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            peak: 0,
            outcomes: HashSet::new(),
            item,
        }
    }
    /// Record a model state (identified by the unit and its bytes); true if new to this item.
    pub fn state(&mut self, unit: &str, bytes: &[u8]) -> bool {
        self.states.insert(hash_bytes(bytes, hash_str(unit)))
    }
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn outcome(&mut self, s: &str) {
        self.outcomes.insert(hash_str(s));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.is_empty() {
            self.samples.push(f());
        }
    }
    /// Enough reported for this item: stop exploring it.
    pub fn full(&self) -> bool {
        self.viols.len() >= 40 || OUT_OF_TIME.load(SeqCst)
    }
    pub fn viol(&mut self, key: String, detail: impl FnOnce() -> String) {
        if self.keys.insert(key.clone()) {
            let d = detail();
            self.viols.push(Violation { key, detail: d });
        }
    }
    /// Run a call into the crate under check. `bytes` describes the input for reports.
    pub fn imp<R>(&mut self, op: &'static str, unit: &str, bytes: &[u8], f: impl FnOnce() -> R) -> Imp<R> {
        self.transitions += 1;
        unsafe {
            let s = &mut *self.slot;
            let mut n = 0;
            for part in [op.as_bytes(), b" ", unit.as_bytes()] {
                let k = part.len().min(s.op.len() - n);
                s.op[n..n + k].copy_from_slice(&part[..k]);
                n += k;
            }
            s.op_len.store(n as u32, SeqCst);
            let k = bytes.len().min(DESC);
            s.desc[..k].copy_from_slice(&bytes[..k]);
            s.byte_len.store(k as u32, SeqCst);
            s.seq.fetch_add(1, SeqCst);
            s.in_impl.store(1, SeqCst);
        }
        alloc::begin();
        QUIET.with(|q| q.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        QUIET.with(|q| q.set(false));
        self.peak = alloc::end();
        unsafe { (*self.slot).in_impl.store(0, SeqCst) };
        r.map_err(|e| {
            let m = panic_text(&*e);
            if m.starts_with("panic: engine:") {
                eprintln!("ENGINE ERROR in {op} {unit}: {m}");
                std::process::exit(3);
            }
            m
        })
    }
}

pub type Work = Box<dyn Fn(&mut W) + Send + Sync>;
pub struct Item {
    pub name: String,
    pub work: Work,
}
pub fn item(name: impl Into<String>, f: impl Fn(&mut W) + Send + Sync + 'static) -> Item {
    Item { name: name.into(), work: Box::new(f) }
}

pub struct Plan {
    pub items: Vec<Item>,
    /// what the run enumerates, for the evidence
    pub rule: String,
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
    /// 1 to run items on one thread (C19 replaces the clock, C22 schedules threads)
    pub threads: usize,
}

struct Total {
    states: HashSet<u64>,
    transitions: u64,
    traces: u64,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    outcomes: HashSet<u64>,
    viols: Vec<(usize, Violation)>,
    /// work items left out or cut short because the time was over
    skipped: u64,
}

pub struct Known {
    pub property: String,
    pub key: String,
    pub text: String,
}
pub fn known_findings() -> Vec<Known> {
    let path = format!("{}/../known_findings.txt", env!("CARGO_MANIFEST_DIR"));
    let Ok(t) = std::fs::read_to_string(&path) else { return vec![] };
    let mut out = vec![];
    for l in t.lines() {
        // finding: property=<id> key=<key> -- <text>
        if let Some(r) = l.strip_prefix("finding: property=") {
            let (p, r) = r.split_once(" key=").expect("engine: known findings");
            let (k, x) = r.split_once(" -- ").expect("engine: known findings");
            out.push(Known { property: p.trim().into(), key: k.trim().into(), text: x.trim().into() });
        }
    }
    out
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(9000) {
        let _ = write!(s, "{x:02x}");
    }
    s
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub only: Option<usize>,
    pub verbose: bool,
}

/// Set when the time allowed for the tier is over: items stop early, the evidence says so.
pub static OUT_OF_TIME: AtomicBool = AtomicBool::new(false);
static STARTED: AtomicU64 = AtomicU64::new(0);
pub fn start_clock() {
    STARTED.store(now_raw(libc::CLOCK_MONOTONIC).to_bits(), SeqCst);
}
pub fn elapsed() -> f64 {
    now_raw(libc::CLOCK_MONOTONIC) - f64::from_bits(STARTED.load(SeqCst))
}

pub fn slots() -> *mut Slot {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SLOTS * std::mem::size_of::<Slot>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "engine: mmap");
        p.cast::<Slot>()
    }
}

fn root() -> String {
    std::fs::canonicalize(format!("{}/..", env!("CARGO_MANIFEST_DIR")))
        .expect("engine: root")
        .display()
        .to_string()
}

fn write_replay(o: &Opts, n: usize, item: &str, idx: usize, key: &str, detail: &str) -> String {
    let dir = format!("{}/evidence/replay", root());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{dir}/{}-{n}.json", o.prop);
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"item\": {},\n \"item_index\": {idx},\n \"key\": {},\n \"case\": {},\n \"rerun\": \"harness/target/debug/odv {} {} --item {idx}\"\n}}\n",
        json_str(&o.prop),
        json_str(&o.tier),
        json_str(item),
        json_str(key),
        json_str(detail),
        o.prop,
        o.tier
    );
    let _ = std::fs::write(&p, body);
    p
}

/// Run the plan; returns the exit code.
pub fn run(o: &Opts, plan: &Plan) -> i32 {
    let t0 = now_raw(libc::CLOCK_MONOTONIC);
    let sl = slots();
    let _ = std::io::stdout().flush();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "engine: fork");
    if pid == 0 {
        let code = child(o, plan, sl, t0);
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(code) };
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 90 {
        return libc::WEXITSTATUS(st);
    }
    // The child died inside (or was stopped because of) a call into the crate.
    let how = if libc::WIFEXITED(st) {
        "did not return".to_string()
    } else {
        format!("killed the process (signal {})", libc::WTERMSIG(st))
    };
    let mut cand = vec![];
    for i in 0..SLOTS {
        let s = unsafe { &*sl.add(i) };
        if s.culprit.load(SeqCst) != 0 {
            cand.insert(0, i);
        } else if s.in_impl.load(SeqCst) != 0 {
            cand.push(i);
        }
    }
    if cand.is_empty() {
        eprintln!("ENGINE ERROR: the worker died outside the code under check: {how}");
        return 3;
    }
    if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL {
        eprintln!("ENGINE ERROR: the worker was killed from outside");
        return 3;
    }
    let pick = if unsafe { (*sl.add(cand[0])).culprit.load(SeqCst) } != 0 || cand.len() == 1 {
        Some(cand[0])
    } else {
        // find the one that fails alone
        cand.iter().copied().find(|&c| {
            let idx = unsafe { (*sl.add(c)).item.load(SeqCst) } as usize;
            let s2 = slots();
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                let o2 = Opts { prop: o.prop.clone(), tier: o.tier.clone(), only: Some(idx), verbose: false };
                let c = child_quiet(&o2, plan, s2);
                unsafe { libc::_exit(c) };
            }
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            libc::WIFSIGNALED(st) || libc::WEXITSTATUS(st) == 90
        })
    };
    let Some(c) = pick else {
        eprintln!("ENGINE ERROR: the worker died and no single case reproduces it");
        return 3;
    };
    let s = unsafe { &*sl.add(c) };
    let op = String::from_utf8_lossy(&s.op[..s.op_len.load(SeqCst) as usize]).to_string();
    let n = s.byte_len.load(SeqCst) as usize;
    let idx = s.item.load(SeqCst) as usize;
    let why = match s.culprit.load(SeqCst) {
        1 => "allocated more memory than any packet can justify".to_string(),
        2 => "did not return (hang)".to_string(),
        _ => how,
    };
    let detail = format!("{op}: {why}; input {}", hex(&s.desc[..n]));
    let name = plan.items.get(idx).map_or("?", |i| i.name.as_str()).to_string();
    let path = write_replay(o, 0, &name, idx, &format!("crash {op}"), &detail);
    println!("{}", detail.chars().take(600).collect::<String>());
    println!("VIOLATION property={} replay={path}", o.prop);
    evidence(o, plan, &Total::empty(), now_raw(libc::CLOCK_MONOTONIC) - t0, 1, 0);
    1
}

impl Total {
    fn empty() -> Total {
        Total {
            states: HashSet::new(),
            transitions: 0,
            traces: 0,
            samples: vec![],
            counters: BTreeMap::new(),
            outcomes: HashSet::new(),
            viols: vec![],
            skipped: 0,
        }
    }
}

fn child_quiet(o: &Opts, plan: &Plan, sl: *mut Slot) -> i32 {
    let _ = explore(o, plan, sl);
    0
}

fn explore(o: &Opts, plan: &Plan, sl: *mut Slot) -> Total {
    std::panic::set_hook(Box::new(|info| {
        if QUIET.with(Cell::get) {
            let at = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
            PANIC_AT.with(|p| *p.borrow_mut() = at);
        } else {
            eprintln!("ENGINE ERROR: {info}");
            unsafe { libc::_exit(3) };
        }
    }));
    let next = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    let total = Mutex::new(Total::empty());
    let ids: Vec<usize> = match o.only {
        Some(i) => vec![i],
        None => (0..plan.items.len()).collect(),
    };
    let nthreads = if o.only.is_some() { 1 } else { plan.threads.min(SLOTS - 1).max(1) };
    struct P(*mut Slot);
    unsafe impl Sync for P {}
    let p = P(sl);
    let live = AtomicUsize::new(nthreads);
    std::thread::scope(|sc| {
        let (next, done, total, p, ids, live) = (&next, &done, &total, &p, &ids, &live);
        for t in 0..nthreads {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(sc, move || {
                    let slot = unsafe { { p }.0.add(t) };
                    alloc::register(unsafe { std::ptr::addr_of_mut!((*slot).culprit) }.cast::<u32>());
                    unsafe { (*slot).pid_tid.store(libc::syscall(libc::SYS_gettid) as u32, SeqCst) };
                    loop {
                        let k = next.fetch_add(1, SeqCst);
                        if k >= ids.len() {
                            break;
                        }
                        if OUT_OF_TIME.load(SeqCst) {
                            total.lock().unwrap().skipped += 1;
                            continue;
                        }
                        let i = ids[k];
                        unsafe { (*slot).item.store(i as u32, SeqCst) };
                        let mut w = W::new(slot, i);
                        let b = Instant::now;
                        let _ = b;
                        let ts = now_raw(libc::CLOCK_MONOTONIC);
                        (plan.items[i].work)(&mut w);
                        let dt = now_raw(libc::CLOCK_MONOTONIC) - ts;
                        if o.verbose {
                            eprintln!("  {:>8.3}s {:>9} ops {}", dt, w.transitions, plan.items[i].name);
                        }
                        let mut tt = total.lock().unwrap();
                        tt.skipped += u64::from(OUT_OF_TIME.load(SeqCst));
                        tt.states.extend(w.states.drain());
                        tt.transitions += w.transitions;
                        tt.traces += w.traces;
                        tt.outcomes.extend(w.outcomes.drain());
                        for (k, v) in w.counters {
                            *tt.counters.entry(k).or_insert(0) += v;
                        }
                        if let Some(s) = w.samples.pop() {
                            let s = format!("{}: {s}", plan.items[i].name);
                            tt.samples.push(s);
                        }
                        tt.viols.extend(w.viols.into_iter().map(|v| (i, v)));
                    }
                    live.fetch_sub(1, SeqCst);
                })
                .expect("engine: spawn");
        }
        // watchdog
        let limit = std::env::var("ODV_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if o.tier == "quick" { 560.0 } else { 10_800.0 });
        sc.spawn(move || {
            let mut last = [(0u64, 0.0f64, 0.0f64); SLOTS];
            while live.load(SeqCst) > 0 && !done.load(SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                if elapsed() > limit {
                    OUT_OF_TIME.store(true, SeqCst);
                }
                for (t, l) in last.iter_mut().enumerate().take(nthreads) {
                    let s = unsafe { &*{ p }.0.add(t) };
                    let q = s.seq.load(SeqCst);
                    let tid = s.pid_tid.load(SeqCst) as i32;
                    if tid == 0 {
                        continue;
                    }
                    // CPU clock of that thread: MAKE_THREAD_CPUCLOCK(tid, CPUCLOCK_SCHED)
                    let clk = (!tid << 3) | 4 | 2;
                    let cpu = now_raw(clk);
                    let wall = now_raw(libc::CLOCK_MONOTONIC);
                    if s.in_impl.load(SeqCst) == 0 || l.0 != q {
                        *l = (q, cpu, wall);
                        continue;
                    }
                    let cpu_lim = if crate::SINGLE_STEP.load(SeqCst) { 60.0 } else { 5.0 };
                    if cpu - l.1 > cpu_lim || wall - l.2 > 90.0 {
                        s.culprit.store(2, SeqCst);
                        unsafe { libc::_exit(90) };
                    }
                }
            }
        });
    });
    total.into_inner().unwrap()
}

fn child(o: &Opts, plan: &Plan, sl: *mut Slot, t0: f64) -> i32 {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 16 << 30, rlim_max: 16 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let mut tot = explore(o, plan, sl);
    tot.viols.sort_by(|a, b| (a.0, &a.1.key).cmp(&(b.0, &b.1.key)));
    tot.samples.sort();
    let known = known_findings();
    let mut seen_known: BTreeMap<String, String> = BTreeMap::new();
    let mut fresh: Vec<&(usize, Violation)> = vec![];
    let mut seen: HashSet<&str> = HashSet::new();
    for v in &tot.viols {
        if let Some(k) = known.iter().find(|k| k.property == o.prop && k.key == v.1.key) {
            seen_known.insert(k.key.clone(), k.text.clone());
        } else if seen.insert(&v.1.key) {
            fresh.push(v);
        }
    }
    for (k, t) in &seen_known {
        println!("KNOWN-FINDING: property={} {k}: {t}", o.prop);
    }
    if std::env::var("ODV_KEYS").is_ok() {
        for (_, v) in &fresh {
            println!("KEY property={} key={}", o.prop, v.key);
        }
    }
    for (n, (i, v)) in fresh.iter().enumerate().take(8) {
        let p = write_replay(o, n, &plan.items[*i].name, *i, &v.key, &v.detail);
        println!("[{}] {}: {}", plan.items[*i].name, v.key, v.detail.chars().take(900).collect::<String>());
        println!("VIOLATION property={} replay={p}", o.prop);
    }
    if fresh.len() > 8 {
        println!("... and {} more", fresh.len() - 8);
    }
    let wall = now_raw(libc::CLOCK_MONOTONIC) - t0;
    evidence(o, plan, &tot, wall, fresh.len(), seen_known.len());
    println!(
        "{} {}: {} items, {} states, {} transitions, {} traces compared, {} distinct outcomes, {:.1}s, {} violations",
        o.prop,
        o.tier,
        plan.items.len(),
        tot.states.len(),
        tot.transitions,
        tot.traces,
        tot.outcomes.len(),
        wall,
        fresh.len()
    );
    if o.only.is_none() && fresh.is_empty() && (tot.states.len() < 2 || tot.transitions == 0 || tot.traces == 0) {
        eprintln!("ENGINE ERROR: vacuous exploration");
        return 3;
    }
    i32::from(!fresh.is_empty())
}

fn evidence(o: &Opts, plan: &Plan, t: &Total, wall: f64, viols: usize, known: usize) {
    if o.only.is_some() {
        return;
    }
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let step = (t.samples.len() / 12).max(1);
    let samples: Vec<String> = t
        .samples
        .iter()
        .step_by(step)
        .take(12)
        .map(|s| json_str(&s.chars().take(700).collect::<String>()))
        .collect();
    let mut all = t.counters.clone();
    if t.skipped > 0 {
        all.insert("work items left out or cut short by the time limit".into(), t.skipped);
    }
    let counters: Vec<String> = all.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
    let list = |v: &[String]| v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"distinct_outcomes\": {},\n  \"work_items\": {},\n  \"exhaustive\": {},\n  \"rule\": {},\n  \"bounds\": [{}],\n  \"counters\": {{{}}},\n  \"known_findings_seen\": {known},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.3},\n \"violations\": {viols}\n}}\n",
        json_str(&o.prop),
        json_str(&o.tier),
        t.states.len(),
        t.transitions,
        t.traces,
        t.outcomes.len(),
        plan.items.len(),
        plan.exhaustive && t.skipped == 0,
        json_str(&plan.rule),
        list(&plan.bounds),
        counters.join(", "),
        samples.join(",\n   "),
        list(&plan.assumptions),
    );
    std::fs::write(format!("{dir}/{}.json", o.prop), s).expect("engine: evidence");
}
