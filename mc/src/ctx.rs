//! Bookkeeping of a check: cases, coverage counters, violations, known findings, evidence.
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

static OUT_FD: AtomicI32 = AtomicI32::new(1);
pub static LEVEL: OnceLock<&str> = OnceLock::new();
pub static GLOBAL: OnceLock<Ctx> = OnceLock::new();

/// prints a line on the real standard output (the code under test prints on fd 1, which goes to /dev/null)
pub fn say(s: &str) {
    let l = format!("{}\n", s);
    let fd = OUT_FD.load(Ordering::Relaxed);
    unsafe {
        libc::syscall(libc::SYS_write, fd, l.as_ptr(), l.len());
    }
}

pub fn silence() {
    if std::env::var_os("MC_VERBOSE").is_some() {
        return;
    }
    unsafe {
        let d = libc::dup(1);
        libc::fcntl(d, libc::F_SETFD, libc::FD_CLOEXEC);
        OUT_FD.store(d, Ordering::Relaxed);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        libc::dup2(n, 2);
        libc::close(n);
    }
}

thread_local! {
    static CUR_KEY: Cell<Option<*const dyn Fn() -> String>> = const { Cell::new(None) };
    pub static EXPECT_PANIC: Cell<bool> = const { Cell::new(false) };
}

pub fn current_key() -> Option<String> {
    CUR_KEY.with(|c| c.get()).map(|p| unsafe { (*p)() })
}

#[derive(Clone)]
pub struct Known {
    pub property: String,
    pub case: String,
    pub what: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub deadline: Instant,
    pub only: Option<String>,
    pub stop: AtomicBool,
    pub fatal: AtomicBool,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    distinct: Vec<Mutex<HashSet<u64>>>,
    pub cases: AtomicU64,
    violations: Mutex<Vec<(String, String)>>,
    known: Vec<Known>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    pub exhaustive: AtomicBool,
    notes: Mutex<Vec<String>>,
    nviol: AtomicUsize,
}

pub fn ctx() -> &'static Ctx {
    GLOBAL.get().unwrap()
}

pub fn hash64(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

impl Ctx {
    pub fn new(prop: &str, tier: &str, budget: u64, only: Option<String>) -> Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = Vec::new();
        let p = verif_dir().join("known-findings.txt");
        if let Ok(s) = std::fs::read_to_string(p) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("open: property=") {
                    let mut it = r.splitn(3, ' ');
                    let property = it.next().unwrap_or("").to_string();
                    let case = it.next().unwrap_or("").strip_prefix("case=").unwrap_or("").to_string();
                    let what = it.next().unwrap_or("").to_string();
                    known.push(Known { property, case, what });
                }
            }
        }
        let start = Instant::now();
        Ctx {
            prop: prop.into(),
            tier: tier.into(),
            thorough: tier == "thorough",
            seed,
            start,
            deadline: start + Duration::from_secs(budget),
            only,
            stop: AtomicBool::new(false),
            fatal: AtomicBool::new(false),
            counters: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            cases: AtomicU64::new(0),
            violations: Mutex::new(Vec::new()),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            exhaustive: AtomicBool::new(true),
            notes: Mutex::new(Vec::new()),
            nviol: AtomicUsize::new(0),
        }
    }
    pub fn pick<V>(&self, quick: V, thorough: V) -> V {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    /// true when there is no time left: the enumeration stops and the evidence says so
    pub fn out_of_time(&self) -> bool {
        if Instant::now() > self.deadline {
            self.exhaustive.store(false, Ordering::Relaxed);
            true
        } else {
            self.stopped()
        }
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }
    pub fn maxi(&self, name: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s);
        }
    }
    pub fn note(&self, s: &str) {
        self.notes.lock().unwrap().push(s.to_string());
    }
    /// registers the fingerprint of a reached state / produced result
    pub fn state(&self, fp: u64) {
        self.new_state(fp);
    }
    /// true if it had not been seen
    pub fn new_state(&self, fp: u64) -> bool {
        self.distinct[(fp % 64) as usize].lock().unwrap().insert(fp)
    }
    pub fn skip(&self, key: &str) -> bool {
        match &self.only {
            None => false,
            Some(o) => o != key,
        }
    }
    /// Runs one case.  A panic in it is a violation.
    pub fn case<K, F>(&self, key: K, f: F)
    where
        K: Fn() -> String,
        F: FnOnce() -> Result<(), String>,
    {
        if self.stopped() {
            return;
        }
        if let Some(o) = &self.only {
            if *o != key() {
                return;
            }
        }
        let n = self.cases.fetch_add(1, Ordering::Relaxed);
        if n < 3 || (n < 5_000_000 && n.is_power_of_two()) {
            self.sample(key());
        }
        let kd: &dyn Fn() -> String = &key;
        let kp: *const (dyn Fn() -> String + 'static) =
            unsafe { std::mem::transmute::<*const (dyn Fn() -> String + '_), *const (dyn Fn() -> String + 'static)>(kd as *const _) };
        let old = CUR_KEY.with(|c| c.replace(Some(kp)));
        watch_begin(Some(kp));
        let r = catch_unwind(AssertUnwindSafe(f));
        watch_end();
        CUR_KEY.with(|c| c.set(old));
        let e = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => format!("panic: {}", mcctl::panic_message(&*p)),
        };
        self.violation(&key(), &e);
    }
    pub fn violation(&self, key: &str, what: &str) {
        for k in &self.known {
            if k.property == self.prop && !k.case.is_empty() && k.case == key {
                let mut h = self.known_hit.lock().unwrap();
                let n = h.entry(k.case.clone()).or_insert(0);
                *n += 1;
                if *n == 1 {
                    say(&format!("KNOWN-FINDING: property={} case={} {}", self.prop, k.case, k.what));
                }
                return;
            }
        }
        let n = self.nviol.fetch_add(1, Ordering::SeqCst);
        self.violations.lock().unwrap().push((key.to_string(), what.to_string()));
        if n < 5 {
            let dir = verif_dir().join("replay");
            let _ = std::fs::create_dir_all(&dir);
            let p = dir.join(format!("{}-{}.txt", self.prop, n));
            let mut s = String::new();
            s.push_str(&format!("property {}\ntier {}\nseed {}\ncase {}\n", self.prop, self.tier, self.seed, key));
            for l in what.lines() {
                s.push_str(&format!("# {}\n", l));
            }
            let _ = std::fs::write(&p, s);
            say(&format!("VIOLATION property={} replay={}", self.prop, p.display()));
            say(&format!("  case {}", key));
            say(&format!("  {}", what.chars().take(1500).collect::<String>()));
        }
        if n >= 2 {
            self.stop.store(true, Ordering::SeqCst);
        }
    }
    pub fn nviolations(&self) -> usize {
        self.nviol.load(Ordering::SeqCst)
    }
    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str]) -> i32 {
        let nv = self.nviolations();
        if self.only.is_none() {
            let mut s = String::new();
            s.push_str("{\n");
            s.push_str(&format!(" \"property\": {},\n", js(&self.prop)));
            s.push_str(&format!(" \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", js(&self.tier), self.seed, js(level)));
            s.push_str(" \"coverage\": {\n");
            let c = self.counters.lock().unwrap();
            let d: usize = self.distinct.iter().map(|d| d.lock().unwrap().len()).sum();
            let g = |k: &str| c.get(k).copied().unwrap_or(0);
            let evals = self.cases.load(Ordering::Relaxed) + g("schedules");
            if level == "model_checking" {
                s.push_str(&format!("  \"states\": {},\n  \"transitions\": {},\n", d, g("transitions") + g("insertions") + g("operations") + g("reloads")));
                s.push_str(&format!("  \"traces_validated_against_impl\": {},\n", evals));
            } else {
                s.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", evals, d));
            }
            s.push_str(&format!("  \"rule\": {},\n", js(rule)));
            s.push_str(&format!("  \"exhaustive\": {},\n", self.exhaustive.load(Ordering::Relaxed)));
            let k: Vec<String> = c.iter().filter(|(k, _)| *k != "transitions" && *k != "schedules").map(|(k, v)| format!("{}: {}", js(k), v)).collect();
            s.push_str(&format!("  \"counters\": {{{}}},\n", k.join(", ")));
            let kh: Vec<String> = self.known_hit.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
            s.push_str(&format!("  \"known_findings_hit\": {{{}}},\n", kh.join(", ")));
            let nt: Vec<String> = self.notes.lock().unwrap().iter().map(|x| js(x)).collect();
            s.push_str(&format!("  \"notes\": [{}],\n", nt.join(",\n    ")));
            let sm: Vec<String> = self.samples.lock().unwrap().iter().map(|x| js(x)).collect();
            s.push_str(&format!("  \"samples\": [{}]\n }},\n", sm.join(",\n    ")));
            let a: Vec<String> = assumptions.iter().map(|x| js(x)).collect();
            s.push_str(&format!(" \"assumptions\": [{}],\n", a.join(", ")));
            s.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), nv));
            let dir = verif_dir().join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.prop)), s) {
                say(&format!("cannot write evidence: {}", e));
                return 2;
            }
            say(&format!(
                "{} {}: {} evaluations, {} distinct states, exhaustive={}, {:.1}s, {} violation(s)",
                self.prop, self.tier, evals, d, self.exhaustive.load(Ordering::Relaxed), self.start.elapsed().as_secs_f64(), nv
            ));
            for (k, v) in c.iter() {
                say(&format!("   {} = {}", k, v));
            }
        }
        if nv > 0 {
            1
        } else {
            0
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(|s| s.into()).unwrap_or_else(|| "/verif".into())
}

/// Distributes the items over the cores.
pub fn parallel<'i, I: Sync, F: Fn(usize, usize, &'i I) + Sync>(items: &'i [I], f: F) {
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1).min(items.len().max(1));
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for core in 0..n {
            let next = &next;
            let f = &f;
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    mcctl::pin_to(core);
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() || ctx().stopped() {
                            break;
                        }
                        f(core, i, &items[i]);
                    }
                })
                .unwrap();
        }
    });
}

// ------------------------------------------------------------------------------------------------
// a call that does not return is a violation of the case being run

const HANG_S: u64 = 100;
struct Slot {
    since: AtomicU64,
    key: Mutex<Option<usize>>,
}
static SLOTS: [Slot; 64] = [const { Slot { since: AtomicU64::new(0), key: Mutex::new(None) } }; 64];
static KEYS: Mutex<Vec<Option<KeyPtr>>> = Mutex::new(Vec::new());
#[derive(Clone, Copy)]
struct KeyPtr(*const dyn Fn() -> String);
unsafe impl Send for KeyPtr {}
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static SLOT: usize = NEXT_SLOT.fetch_add(1, Ordering::Relaxed) % 64;
}
/// marks the start of a case (or of an execution of a scenario) on this thread
pub fn watch_begin(k: Option<*const dyn Fn() -> String>) {
    SLOT.with(|&i| {
        if let Some(k) = k {
            let mut v = KEYS.lock().unwrap();
            if v.len() < 64 {
                v.resize(64, None);
            }
            v[i] = Some(KeyPtr(k));
            *SLOTS[i].key.lock().unwrap() = Some(i);
        }
        SLOTS[i].since.store(1 + ctx().start.elapsed().as_millis() as u64, Ordering::SeqCst);
    });
}
pub fn watch_end() {
    SLOT.with(|&i| {
        SLOTS[i].since.store(0, Ordering::SeqCst);
        *SLOTS[i].key.lock().unwrap() = None;
    });
}
pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = ctx().start.elapsed().as_millis() as u64;
        for s in SLOTS.iter() {
            let t = s.since.load(Ordering::SeqCst);
            if t > 0 && now > t + HANG_S * 1000 {
                let i = *s.key.lock().unwrap();
                let key = i.and_then(|i| KEYS.lock().unwrap()[i]).map(|k| unsafe { (*k.0)() });
                let key = key.unwrap_or_else(|| format!("hang:{}", crate::conc::running()));
                fatal_in(&key, "a call has not returned for 100 s");
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------
// fatal events: a call that brings the process down is a violation of the case being run

fn fatal(what: &str) -> ! {
    let key = current_key().unwrap_or_else(|| format!("fatal:{}", crate::conc::running()));
    fatal_in(&key, what)
}
fn fatal_in(key: &str, what: &str) -> ! {
    if let Some(c) = GLOBAL.get() {
        if !c.fatal.swap(true, Ordering::SeqCst) {
            c.violation(key, what);
            let nv = c.nviolations();
            if nv > 0 {
                c.exhaustive.store(false, Ordering::Relaxed);
                c.finish(LEVEL.get().copied().unwrap_or("exploration"), "stopped by a fatal event", &[]);
                crate::iou::cleanup();
                unsafe { libc::_exit(1) }
            }
        }
    }
    crate::iou::cleanup();
    unsafe { libc::_exit(3) }
}

extern "C" fn on_signal(sig: i32) {
    fatal(&format!("the process is brought down by signal {}", sig));
}

pub fn install_fatal_handlers() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_NODEFER | libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("MC_PANIC").is_some() {
            say(&format!("panic: {}", i));
        }
        let _ = std::io::stdout().flush();
    }));
}

pub static ALLOW_EXIT: AtomicBool = AtomicBool::new(false);

/// std::process::exit ends here
#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if GLOBAL.get().is_some() && !ALLOW_EXIT.load(Ordering::SeqCst) {
        fatal(&format!("the process is ended by exit({})", code));
    }
    unsafe { libc::_exit(code) }
}
