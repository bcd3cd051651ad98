//! Runs the finite list of cases of one property, and writes verdict and evidence.
//!
//! A case is one closed exploration (one configuration, all choices below it). All the cases are
//! run, on several threads, in a child process: a crash of the code under test is a verdict of the
//! parent, not an error of the check.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Fail { pub msg: String }
impl From<String> for Fail { fn from(msg: String) -> Self { Fail { msg } } }
impl From<&str> for Fail { fn from(msg: &str) -> Self { Fail { msg: msg.to_string() } } }
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*).into()); } };
}

/// what one case has covered
#[derive(Default)]
pub struct Ctx {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<String>,
    pub findings: Vec<(String, String)>,
    pub outcomes: BTreeMap<String, u64>,
    pub thorough: bool,
    pub capped: bool,
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Ctx {
    /// a state of the explored space has been reached; true if it is new in this case
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) -> bool { self.states.insert(hash_of(t)) }
    /// the real code has been called `n` times
    pub fn step(&mut self, n: u64) { self.transitions += n }
    /// one complete behaviour of the reference has been compared with the real code
    pub fn trace(&mut self) { self.traces += 1 }
    pub fn outcome(&mut self, s: &str) { *self.outcomes.entry(s.to_string()).or_insert(0) += 1 }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.samples.len() < 1 { let s = f(); self.samples.push(s) } }
    /// the real code deviates exactly as the named finding says
    pub fn finding(&mut self, key: &str, what: &str) {
        if !self.findings.iter().any(|f| f.0 == key) { self.findings.push((key.to_string(), what.to_string())) }
    }
}

type Body = Box<dyn Fn(&mut Ctx) -> R + Send + Sync>;
pub struct Case { pub id: String, pub run: Body }

#[derive(Default)]
pub struct Cases { pub list: Vec<Case>, pub thorough: bool, pub notes: Vec<String> }
impl Cases {
    pub fn add(&mut self, id: impl Into<String>, f: impl Fn(&mut Ctx) -> R + Send + Sync + 'static) {
        self.list.push(Case { id: id.into(), run: Box::new(f) })
    }
    pub fn note(&mut self, s: &str) { self.notes.push(s.to_string()) }
}

pub struct Property {
    pub id: &'static str,
    pub build: fn(&mut Cases),
    /// what is taken as given
    pub assumptions: &'static [&'static str],
    /// bounds of the space that is enumerated, in words
    pub space: &'static str,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// runs code under test, a panic is a result
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            crate::sched::reset();
            let m = PANIC.with(|p| p.borrow_mut().take());
            Err(m.unwrap_or_else(|| payload(&*e)))
        }
    }
}

pub fn payload(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".to_string() }
}

const SLOT: usize = 512;
const KNOWN: &str = "known-findings.txt";

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cut(s: &str, n: usize) -> String { if s.chars().count() <= n { s.to_string() } else { let t: String = s.chars().take(n).collect(); t + "…" } }

struct Total {
    states: HashSet<u64>, transitions: u64, traces: u64, samples: Vec<String>, done: usize,
    fails: Vec<(String, String)>, findings: BTreeMap<String, (String, String)>, outcomes: BTreeMap<String, u64>, capped_cases: u64,
    slow: Vec<(f64, String)>,
}

/// keys listed for this property
fn known(prop: &str) -> HashMap<String, String> {
    let mut m = HashMap::new();
    let p = base_dir().join(KNOWN);
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        let l = l.trim();
        if let Some(r) = l.strip_prefix("finding: ") {
            // finding: property=<id> key=<key> <what>
            let mut it = r.splitn(3, ' ');
            let (a, b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if a.strip_prefix("property=") == Some(prop) {
                if let Some(k) = b.strip_prefix("key=") { m.insert(k.to_string(), c.to_string()); }
            }
        }
    }
    m
}

pub fn base_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| ".".to_string()))
}

fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }
fn seed() -> i64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }

fn write_replay(prop: &str, case: &str, msg: &str) -> String {
    let dir = base_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}.txt", prop));
    let text = format!(
        "property: {}\ncase: {}\nwhat: {}\ntier: {}\n\nreplay with\n  VERIF_TIER={} ./check.sh {} --case '{}'\n",
        prop, case, msg, if thorough() { "thorough" } else { "quick" }, if thorough() { "thorough" } else { "quick" }, prop, case);
    let _ = std::fs::write(&p, text);
    format!("replay/{}.txt", prop)
}

fn write_evidence(p: &Property, t: &Total, total_cases: usize, skipped: usize, wall: f64, notes: &[String], violations: usize) {
    let dir = base_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut samples: Vec<String> = t.samples.clone();
    samples.truncate(8);
    let exhaustive = skipped == 0 && t.capped_cases == 0 && t.done == total_cases;
    let outcomes: Vec<String> = t.outcomes.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n", esc(p.id), esc(if thorough() { "thorough" } else { "quick" }), seed()));
    s.push_str("  \"coverage\": {\n");
    s.push_str(&format!("    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n", t.states.len(), t.transitions, t.traces));
    s.push_str(&format!("    \"configurations\": {},\n    \"configurations_skipped_by_time_cap\": {},\n    \"configurations_cut_by_a_run_cap\": {},\n", t.done, skipped, t.capped_cases));
    s.push_str(&format!("    \"exhaustive\": {},\n    \"space\": {},\n", exhaustive, esc(p.space)));
    s.push_str(&format!("    \"outcomes\": {{{}}},\n", outcomes.join(", ")));
    s.push_str(&format!("    \"notes\": [{}],\n", notes.iter().map(|n| esc(n)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!("    \"known_findings_seen\": {},\n", t.findings.len()));
    s.push_str(&format!("    \"samples\": [{}]\n  }},\n", samples.iter().map(|n| esc(&cut(n, 400))).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!("  \"assumptions\": [{}],\n", p.assumptions.iter().map(|n| esc(n)).collect::<Vec<_>>().join(", ")));
    s.push_str(&format!("  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n", wall, violations));
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), s);
}

/// entry point of every check binary: `<bin> <property> [--case ID] [--list]`
pub fn main(props: &[Property]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let p = match props.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("unknown property {:?}", id); std::process::exit(2) } };
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    if args.iter().any(|a| a == "--list") {
        let mut c = Cases { thorough: thorough(), ..Default::default() };
        (p.build)(&mut c);
        for c in c.list.iter() { println!("{}", c.id); }
        std::process::exit(0)
    }
    if std::env::var("MC_CHILD").is_ok() { child(p, opt("--case")) } else { parent(p, opt("--case"), &args) }
}

fn spawn_child(args: &[String], case: Option<&str>, slots: &std::path::Path) -> std::process::ExitStatus {
    let exe = std::env::current_exe().expect("path of this program");
    let mut c = std::process::Command::new(exe);
    c.arg(&args[1]);
    if let Some(k) = case { c.arg("--case").arg(k); }
    c.env("MC_CHILD", "1").env("MC_SLOTS", slots).env("RUST_BACKTRACE", "0");
    c.status().expect("child")
}

fn parent(p: &Property, case: Option<String>, args: &[String]) -> ! {
    let t0 = Instant::now();
    let slots = std::env::temp_dir().join(format!("mc-slots-{}", std::process::id()));
    let st = spawn_child(args, case.as_deref(), &slots);
    let code = match (st.code(), st.signal()) {
        (Some(c), _) => c,
        (None, Some(sig)) if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) => {
            // the code under test took the process down: find the case that does it alone
            let data = std::fs::read(&slots).unwrap_or_default();
            let mut cands: Vec<String> = data.chunks(SLOT).map(|c| { let e = c.iter().position(|b| *b == 0).unwrap_or(c.len()); String::from_utf8_lossy(&c[..e]).to_string() }).filter(|s| !s.is_empty()).collect();
            cands.dedup();
            let mut hit = None;
            for c in cands.iter() {
                let st = spawn_child(args, Some(c), &slots);
                if st.signal().map_or(false, |s| s != libc::SIGKILL && s != libc::SIGTERM) { hit = Some(c.clone()); break; }
                if st.code() == Some(1) { hit = Some(c.clone()); break; }
            }
            let c = hit.or(case).or(cands.first().cloned()).unwrap_or_default();
            let msg = format!("the code under test ended the process with signal {}", sig);
            let path = write_replay(p.id, &c, &msg);
            println!("case {}: {}", c, msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            let t = Total { states: HashSet::new(), transitions: 0, traces: 0, samples: vec![], done: 0, fails: vec![], findings: BTreeMap::new(), outcomes: BTreeMap::new(), capped_cases: 0, slow: vec![] };
            write_evidence(p, &t, 1, 0, t0.elapsed().as_secs_f64(), &["crashed".to_string()], 1);
            1
        }
        _ => { eprintln!("the explorer was ended from outside: {:?}", st); 3 }
    };
    let _ = std::fs::remove_file(&slots);
    std::process::exit(code)
}

fn child(p: &Property, only: Option<String>) -> ! {
    let t0 = Instant::now();
    // what the code under test prints is not ours
    let verdict = unsafe {
        let fd = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        use std::os::unix::io::FromRawFd;
        Arc::new(Mutex::new(std::fs::File::from_raw_fd(fd)))
    };
    unsafe {
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    let debug = std::env::var("MC_DEBUG").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        let m = format!("panic: {} at {}", payload_of(i), i.location().map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default());
        if debug { eprintln!("{}", m); }
        PANIC.with(|p| { let mut p = p.borrow_mut(); if p.is_none() { *p = Some(m) } });
    }));

    let mut cases = Cases { thorough: thorough(), ..Default::default() };
    (p.build)(&mut cases);
    {
        let mut seen = HashSet::new();
        for c in cases.list.iter() { if !seen.insert(c.id.clone()) { eprintln!("two cases with id {}", c.id); std::process::exit(4) } }
    }
    if cases.list.is_empty() { eprintln!("{}: nothing to explore ({})", p.id, cases.notes.join("; ")); std::process::exit(2) }
    let notes = cases.notes.clone();
    let single = only.is_some();
    let mut list = cases.list;
    if let Some(o) = only {
        list.retain(|c| c.id == o);
        if list.is_empty() { eprintln!("no such case: {}", o); std::process::exit(4) }
    }
    let list = Arc::new(list);
    let n_threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize).min(list.len().max(1));
    let cap = Duration::from_secs(std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 3 * 3600 } else { 300 }));
    let case_limit = Duration::from_secs(if thorough() { 1800 } else { 300 });
    let next = Arc::new(AtomicUsize::new(0));
    let skipped = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new(Total { states: HashSet::new(), transitions: 0, traces: 0, samples: vec![], done: 0, fails: vec![], findings: BTreeMap::new(), outcomes: BTreeMap::new(), capped_cases: 0, slow: vec![] }));
    let slots = std::env::var("MC_SLOTS").ok().and_then(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).ok()).map(Arc::new);
    let started: Arc<Vec<AtomicU64>> = Arc::new((0..n_threads).map(|_| AtomicU64::new(0)).collect());
    let current: Arc<Vec<AtomicUsize>> = Arc::new((0..n_threads).map(|_| AtomicUsize::new(0)).collect());
    let mut hs = vec![];
    for me in 0..n_threads {
        let (list, next, skipped, stop, total, slots, started, current) = (list.clone(), next.clone(), skipped.clone(), stop.clone(), total.clone(), slots.clone(), started.clone(), current.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= list.len() { break; }
                if t0.elapsed() > cap || stop.load(Relaxed) { skipped.fetch_add(1, Relaxed); continue; }
                let case = &list[i];
                if let Some(f) = slots.as_ref() {
                    let mut b = [0u8; SLOT];
                    let k = case.id.len().min(SLOT - 1);
                    b[..k].copy_from_slice(&case.id.as_bytes()[..k]);
                    let _ = f.write_all_at(&b, (me * SLOT) as u64);
                }
                current[me].store(i, Relaxed);
                started[me].store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                let c0 = Instant::now();
                let mut ctx = Ctx { thorough: thorough(), ..Default::default() };
                let r = match quiet(|| (case.run)(&mut ctx)) { Ok(r) => r, Err(m) => Err(Fail { msg: m }) };
                started[me].store(0, Relaxed);
                let mut t = total.lock().unwrap();
                t.states.extend(ctx.states.iter().map(|s| s ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15)));
                t.transitions += ctx.transitions;
                t.traces += ctx.traces;
                t.done += 1;
                if ctx.capped { t.capped_cases += 1; }
                t.slow.push((c0.elapsed().as_secs_f64(), case.id.clone()));
                for (k, v) in ctx.outcomes { *t.outcomes.entry(k).or_insert(0) += v; }
                if t.samples.len() < 400 { for s in ctx.samples { t.samples.push(format!("{}: {}", case.id, s)); } }
                for (k, w) in ctx.findings { t.findings.entry(k).or_insert((w, case.id.clone())); }
                if let Err(f) = r {
                    t.fails.push((case.id.clone(), f.msg));
                    if t.fails.len() >= 20 { stop.store(true, Relaxed); }
                }
            }
        }).expect("thread"));
    }
    // a case that never comes back is a verdict too
    loop {
        if hs.iter().all(|h| h.is_finished()) { break; }
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        for me in 0..n_threads {
            let s = started[me].load(Relaxed);
            if s != 0 && now > s && now - s > case_limit.as_millis() as u64 {
                let id = &list[current[me].load(Relaxed)].id;
                let msg = format!("did not terminate within {} s", case_limit.as_secs());
                let path = write_replay(p.id, id, &msg);
                let mut v = verdict.lock().unwrap();
                let _ = writeln!(v, "case {}: {}\nVIOLATION property={} replay={}", id, msg, p.id, path);
                let t = total.lock().unwrap();
                write_evidence(p, &t, list.len(), 0, t0.elapsed().as_secs_f64(), &notes, 1);
                std::process::exit(1)
            }
        }
    }
    for h in hs { let _ = h.join(); }
    let mut t = total.lock().unwrap();
    let skipped = skipped.load(Relaxed);
    let listed = known(p.id);
    let mut v = verdict.lock().unwrap();
    let mut seen_known = vec![];
    let mut extra = vec![];
    for (k, (w, case)) in t.findings.iter() {
        if let Some(what) = listed.get(k) { seen_known.push(format!("KNOWN-FINDING: property={} {} [{}]", p.id, if what.is_empty() { w } else { what }, k)) }
        else { extra.push((case.clone(), format!("{} [{}]", w, k))) }
    }
    t.fails.extend(extra);
    t.slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    // the samples in evidence come from different parts of the space
    let n = t.samples.len();
    if n > 8 { let s: Vec<String> = (0..8).map(|i| t.samples[i * n / 8].clone()).collect(); t.samples = s; }
    let wall = t0.elapsed().as_secs_f64();
    if !single { write_evidence(p, &t, list.len(), skipped, wall, &notes, t.fails.len()); }
    for l in seen_known { let _ = writeln!(v, "{}", l); }
    let _ = writeln!(v, "{}: {} configurations, {} states, {} transitions, {} traces compared, {} skipped, {:.1} s", p.id, t.done, t.states.len(), t.transitions, t.traces, skipped, wall);
    if std::env::var("MC_SLOW").is_ok() { for (s, id) in t.slow.iter().take(12) { let _ = writeln!(v, "  {:.2}s {}", s, id); } for (k, n) in t.outcomes.iter() { let _ = writeln!(v, "  outcome {}: {}", k, n); } }
    if t.fails.is_empty() { std::process::exit(0) }
    t.fails.sort_by_key(|f| (f.0.len(), f.0.clone()));
    for (c, m) in t.fails.iter().take(10) { let _ = writeln!(v, "case {}: {}", c, cut(m, 600)); }
    let (c, m) = &t.fails[0];
    let path = write_replay(p.id, c, m);
    let _ = writeln!(v, "VIOLATION property={} replay={}", p.id, path);
    std::process::exit(1)
}

fn short(s: &str) -> &str { s.rsplit_once("/repo/").map(|x| x.1).unwrap_or(s) }
fn payload_of(i: &std::panic::PanicHookInfo) -> String {
    let e = i.payload();
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".to_string() }
}
