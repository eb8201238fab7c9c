//! Framework: sections of completely enumerated cases, run on all cores, with counting,
//! replay, crash containment, known findings and evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::ffi::CString;
use std::fmt::Write as _;
use std::os::raw::{c_char, c_ulong};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn mc_guard_case(section: *const c_char, index: c_ulong);
    fn mc_guard_altstack();
    fn mc_guard_install(id: *const c_char, dir: *const c_char, variant: *const c_char, tier: *const c_char);
}

pub type Res = Result<(), String>;

/// What one worker accumulates while running cases.
pub struct Local {
    pub desc: String,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    outcomes: HashSet<u64>,
    outcome_cap: usize,
    skipped: bool,
    pub want_sample: bool,
    pub sample: Option<String>,
    pub counters: BTreeMap<&'static str, u64>,
}

impl Local {
    fn new() -> Self {
        Local { desc: String::new(), states: 0, transitions: 0, traces: 0, outcomes: HashSet::new(), outcome_cap: 1 << 16,
            skipped: false, want_sample: false, sample: None, counters: BTreeMap::new() }
    }
    /// calls into the implementation
    #[inline]
    pub fn op(&mut self, n: u64) {
        self.transitions += n;
    }
    /// model predictions compared with what the implementation did
    #[inline]
    pub fn trace(&mut self, n: u64) {
        self.traces += n;
    }
    /// additional states beyond the case itself
    #[inline]
    pub fn state(&mut self, n: u64) {
        self.states += n;
    }
    #[inline]
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < self.outcome_cap {
            self.outcomes.insert(h);
        }
    }
    /// this case number does not name a case
    pub fn skip(&mut self) -> Res {
        self.skipped = true;
        Ok(())
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    #[inline]
    pub fn describe(&mut self, args: std::fmt::Arguments<'_>) {
        self.desc.clear();
        let _ = self.desc.write_fmt(args);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let mut it = bytes.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
    }
    for &b in it.remainder() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
    }
    (h ^ (h >> 31)).wrapping_mul(0xD6E8FEB86659FD93) ^ bytes.len() as u64
}
pub fn hash16(d: &[i16]) -> u64 {
    hash(unsafe { std::slice::from_raw_parts(d.as_ptr() as *const u8, d.len() * 2) })
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(4096) {
        let _ = write!(s, "{:02x}", x);
    }
    if b.len() > 4096 {
        s.push_str("...");
    }
    s
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs `f`; a panic becomes an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|m| format!("panicked: {}", m.borrow())))
}

#[derive(Clone)]
pub struct Known {
    pub key: String,
    pub text: String,
}

pub struct Check {
    pub id: &'static str,
    pub thorough: bool,
    variant: String,
    only: Option<(String, u64)>,
    out: Option<String>,
    replay_dir: String,
    start: Instant,
    states: u64,
    transitions: u64,
    traces: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    sections: Vec<String>,
    counters: BTreeMap<&'static str, u64>,
    known: Vec<Known>,
    known_hit: Vec<String>,
    violations: u64,
    threads: usize,
}

struct Slot {
    index: AtomicU64,
    since: AtomicU64, // milliseconds since start, 0 = idle
}

impl Check {
    pub fn variant(&self) -> &str {
        &self.variant
    }
    pub fn new(id: &'static str) -> Check {
        let args: Vec<String> = std::env::args().collect();
        let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
        let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
        let only = get("--only").map(|s| {
            let (a, b) = s.rsplit_once(':').expect("--only section:index");
            (a.to_string(), b.parse().unwrap())
        });
        let replay_dir = get("--replay-dir").unwrap_or_else(|| "/verif/replay".into());
        let _ = std::fs::create_dir_all(&replay_dir);
        let mut known = vec![];
        if let Some(f) = get("--known") {
            for line in std::fs::read_to_string(&f).unwrap_or_default().lines() {
                // known: property=<id> key=<key> <text>
                if let Some(r) = line.strip_prefix(&format!("known: property={} key=", id)) {
                    let (k, t) = r.split_once(' ').unwrap_or((r, ""));
                    known.push(Known { key: k.into(), text: t.into() });
                }
            }
        }
        let variant = get("--variant").unwrap_or_else(|| "default".into());
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC_MSG.with(|m| *m.borrow_mut() = format!("{}{}", msg, loc));
        }));
        unsafe {
            let c = |s: &str| CString::new(s).unwrap().into_raw();
            mc_guard_install(c(id), c(&replay_dir), c(&variant), c(&tier));
            mc_guard_altstack();
        }
        let threads = get("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8)
        });
        Check { id, thorough: tier == "thorough", variant, only, out: get("--out"), replay_dir, start: Instant::now(), states: 0,
            transitions: 0, traces: 0, outcomes: HashSet::new(), samples: vec![], sections: vec![], counters: BTreeMap::new(), known,
            known_hit: vec![], violations: 0, threads }
    }

    /// run on `n` worker threads (1 when the harness must own all threads)
    pub fn set_threads(&mut self, n: usize) {
        self.threads = n;
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }

    /// Runs `f` on every index below `n`. All of them, or until violations are found.
    pub fn section<F>(&mut self, name: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Local) -> Res + Sync,
    {
        let (lo, hi) = match &self.only {
            Some((s, i)) if s == name => (*i, *i + 1),
            Some(_) => return,
            None => (0, n),
        };
        assert!(hi <= n, "no such case");
        let t0 = Instant::now();
        let cname = CString::new(name).unwrap();
        let next = AtomicU64::new(lo);
        let stop = AtomicBool::new(false);
        let found: Mutex<Vec<(u64, String, String)>> = Mutex::new(vec![]);
        let threads = self.threads.min((hi - lo).max(1) as usize);
        let chunk = ((hi - lo) / (threads as u64 * 64)).clamp(1, 1024);
        let slots: Vec<Slot> = (0..threads).map(|_| Slot { index: AtomicU64::new(0), since: AtomicU64::new(0) }).collect();
        let locals: Mutex<Vec<Local>> = Mutex::new(vec![]);
        let done = AtomicBool::new(false);
        let base = self.start;
        // coarse clock, kept by the watchdog
        let tick = AtomicU64::new(base.elapsed().as_millis() as u64 | 1);
        std::thread::scope(|sc| {
            sc.spawn(|| {
                // a case that does not terminate is a violation of any property
                while !done.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = base.elapsed().as_millis() as u64;
                    tick.store(now | 1, Relaxed);
                    for s in &slots {
                        let since = s.since.load(Relaxed);
                        if since != 0 && now > since + 150_000 {
                            let i = s.index.load(Relaxed);
                            let p = self.write_replay(name, i, "", "does not terminate within 150 s");
                            println!("VIOLATION property={} replay={}", self.id, p);
                            std::process::exit(1);
                        }
                    }
                }
            });
            let workers: Vec<_> = slots.iter().map(|slot| {
                let (next, stop, found, f, locals, cname, tick) = (&next, &stop, &found, &f, &locals, &cname, &tick);
                sc.spawn(move || {
                    unsafe { mc_guard_altstack() };
                    let mut l = Local::new();
                    l.want_sample = true;
                    while !stop.load(Relaxed) {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= hi {
                            break;
                        }
                        for i in a..(a + chunk).min(hi) {
                            slot.index.store(i, Relaxed);
                            slot.since.store(tick.load(Relaxed), Relaxed);
                            unsafe { mc_guard_case(cname.as_ptr(), i as c_ulong) };
                            l.desc.clear();
                            l.skipped = false;
                            let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut l)))
                                .unwrap_or_else(|_| Err(PANIC_MSG.with(|m| format!("panicked: {}", m.borrow()))));
                            l.states += !l.skipped as u64;
                            if let Err(e) = r {
                                let mut fd = found.lock().unwrap();
                                fd.push((i, l.desc.clone(), e));
                                if fd.len() >= 20 {
                                    stop.store(true, Relaxed);
                                }
                            }
                            if stop.load(Relaxed) {
                                break;
                            }
                        }
                        slot.since.store(0, Relaxed);
                    }
                    slot.since.store(0, Relaxed);
                    unsafe { mc_guard_case(std::ptr::null(), 0) };
                    locals.lock().unwrap().push(l);
                })
            }).collect();
            for w in workers {
                w.join().unwrap();
            }
            done.store(true, Relaxed);
        });
        let mut section_outcomes = HashSet::new();
        let mut st = 0;
        for l in locals.into_inner().unwrap() {
            st += l.states;
            self.states += l.states;
            self.transitions += l.transitions;
            self.traces += l.traces;
            section_outcomes.extend(l.outcomes);
            for (k, v) in l.counters {
                *self.counters.entry(k).or_insert(0) += v;
            }
            if let Some(s) = l.sample {
                if self.samples.len() < 40 && !self.samples.iter().any(|x| x.starts_with(&format!("{}: ", name))) {
                    self.samples.push(format!("{}: {}", name, s));
                }
            }
        }
        let mut found = found.into_inner().unwrap();
        found.sort();
        let mut reported = 0;
        for (i, desc, msg) in &found {
            let (key, text) = match msg.strip_prefix("KEY:") {
                Some(r) => {
                    let (k, t) = r.split_once('|').unwrap();
                    (Some(k.to_string()), t.to_string())
                }
                None => (None, msg.clone()),
            };
            if let Some(k) = key.as_ref().and_then(|k| self.known.iter().find(|x| x.key == *k)).cloned() {
                println!("KNOWN-FINDING: property={} {} ({})", self.id, k.text, k.key);
                self.known_hit.push(k.key);
                continue;
            }
            self.violations += 1;
            reported += 1;
            if reported <= 3 {
                let p = self.write_replay(name, *i, desc, &text);
                println!("case {}:{} {}\n  {}", name, i, clip(desc, 600), clip(&text, 1200));
                println!("VIOLATION property={} replay={}", self.id, p);
            }
        }
        let line = format!("{}: enumerated={} of {} cases={} distinct_outcomes={} time={:.2}s", name, hi - lo, n, st, section_outcomes.len(),
            t0.elapsed().as_secs_f64());
        println!("[{} {}] {}", self.id, self.variant, line);
        self.sections.push(line);
        if self.outcomes.len() < 1 << 22 {
            self.outcomes.extend(section_outcomes);
        }
    }

    fn write_replay(&self, section: &str, index: u64, desc: &str, msg: &str) -> String {
        let p = format!("{}/{}-{}-{}-{}.txt", self.replay_dir, self.id, self.variant, section, index);
        let _ = std::fs::write(&p, format!(
            "property={}\nvariant={}\ntier={}\ncase={}:{}\nreplay_cmd=python3 /verif/check.py --replay {}\ninput={}\nmessage={}\n",
            self.id, self.variant, if self.thorough { "thorough" } else { "quick" }, section, index, p, desc, msg));
        p
    }

    pub fn finish(self) -> ! {
        let j = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 32 => o.push(' '),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let arr = |v: &[String]| format!("[{}]", v.iter().map(|s| j(s)).collect::<Vec<_>>().join(","));
        if let Some(p) = &self.out {
            let counters = self.counters.iter().map(|(k, v)| format!("{}:{}", j(k), v)).collect::<Vec<_>>().join(",");
            let text = format!(
                "{{\"variant\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"distinct_outcomes\":{},\"samples\":{},\"sections\":{},\"counters\":{{{}}},\"violations\":{},\"known\":{},\"wall_s\":{:.3}}}\n",
                j(&self.variant), self.states, self.transitions, self.traces, self.outcomes.len(), arr(&self.samples),
                arr(&self.sections), counters, self.violations, arr(&self.known_hit), self.start.elapsed().as_secs_f64());
            std::fs::write(p, text).expect("write evidence part");
        }
        std::process::exit(if self.violations > 0 { 1 } else { 0 })
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { s.to_string() } else { format!("{}...", s.chars().take(n).collect::<String>()) }
}

/// Decodes a case number digit by digit.
pub struct Radix(pub u64);
impl Radix {
    #[inline]
    pub fn n(&mut self, n: u64) -> u64 {
        let d = self.0 % n;
        self.0 /= n;
        d
    }
    #[inline]
    pub fn of<T: Copy>(&mut self, a: &[T]) -> T {
        a[self.n(a.len() as u64) as usize]
    }
    #[inline]
    pub fn bit(&mut self) -> bool {
        self.n(2) == 1
    }
    pub fn end(&self) {
        assert_eq!(self.0, 0, "case number has digits left: section size is wrong");
    }
}
/// a^n
pub fn pow(a: u64, n: u64) -> u64 {
    a.checked_pow(n as u32).expect("space too large")
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c { return Err(format!($($a)*)); }
    };
}
