//! Check driver: parallel cases, statistics, evidence, verdicts.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use vref::rng::Rng;
use vref::util::{fnv, json_str};

pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
    pub root: PathBuf,
    pub stats: Mutex<Stats>,
    pub stop: AtomicBool,
    pub limit: Duration,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>,
    pub errors: Vec<String>,
}

impl Stats {
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn case(&mut self, key: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < 4_000_000 {
            self.distinct.insert(fnv(key));
        }
        if nontrivial && self.samples.len() < 4 && key.len() < 600 {
            self.samples.push(key.to_string());
        }
    }
    /// `what`: one line; `detail`: everything needed to replay.
    pub fn violation(&mut self, what: impl Into<String>, detail: impl Into<String>) {
        if self.violations.len() < 5 {
            self.violations.push((what.into(), detail.into()));
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            self.add(&k, v);
        }
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
        self.errors.extend(o.errors);
    }
}

/// What each worker is doing, for the watchdog and for post-mortems.
struct Slot {
    tid: u64,
    cpu0: u64,
    note: String,
    busy: bool,
}
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
static CRASH_DIR: Mutex<Option<PathBuf>> = Mutex::new(None);

thread_local! {
    static SLOT: RefCell<Option<usize>> = RefCell::new(None);
    static CRASH: RefCell<Option<std::fs::File>> = RefCell::new(None);
}

/// CPU time of a thread of this process, in clock ticks (1/100 s).
fn cpu(tid: u64) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let get = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    get(11) + get(12)
}

fn slot_begin() {
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|x| x.to_str().map(String::from))).and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut all = SLOTS.lock().unwrap();
        all.push(Slot { tid, cpu0: 0, note: String::new(), busy: false });
        *s = Some(all.len() - 1);
    });
}
fn slot_set(busy: bool) {
    SLOT.with(|s| {
        if let Some(i) = *s.borrow() {
            let mut all = SLOTS.lock().unwrap();
            let c = cpu(all[i].tid);
            all[i].cpu0 = c;
            all[i].busy = busy;
            all[i].note.clear();
        }
    });
}

/// Says what the code under test is being given, so that a crash or a hang can be attributed.
pub fn note(text: &str) {
    SLOT.with(|s| {
        if let Some(i) = *s.borrow() {
            let mut all = SLOTS.lock().unwrap();
            all[i].note.clear();
            all[i].note.push_str(text);
        }
    });
    CRASH.with(|c| {
        use std::io::{Seek, SeekFrom, Write};
        let mut c = c.borrow_mut();
        if c.is_none() {
            if let Some(d) = CRASH_DIR.lock().unwrap().as_ref() {
                let i = SLOT.with(|s| s.borrow().unwrap_or(0));
                *c = std::fs::File::create(d.join(format!("{}.txt", i))).ok();
            }
        }
        if let Some(f) = c.as_mut() {
            let _ = f.set_len(0);
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(text.as_bytes());
        }
    });
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Runs code under test; `Err` is the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

/// A case that burns a minute of CPU time, thousands of times the usual, is stuck. For the
/// property that the compiler always answers that is the violation; elsewhere it is inconclusive.
fn watchdog(prop: String, root: PathBuf, violation: bool, limit: u64) {
    let start = Instant::now();
    loop {
        std::thread::sleep(Duration::from_secs(2));
        let all = SLOTS.lock().unwrap();
        for s in all.iter().filter(|s| s.busy) {
            let used = cpu(s.tid).saturating_sub(s.cpu0) / 100;
            if used > 60 {
                if violation && !s.note.is_empty() {
                    let rd = root.join("work").join("replay");
                    let _ = std::fs::create_dir_all(&rd);
                    let p = rd.join(format!("{}-hang.txt", prop));
                    let _ = std::fs::write(&p, format!("no answer after {} s of CPU time\n\nprogram:\n{}\n", used, s.note));
                    println!("no answer after {} s of CPU time on {:?}", used, s.note);
                    println!("VIOLATION property={} replay={}", prop, p.display());
                    std::process::exit(1);
                }
                println!("INCONCLUSIVE a case is stuck: {:?}", s.note);
                std::process::exit(2);
            }
        }
        drop(all);
        if start.elapsed().as_secs() > limit + 300 {
            println!("INCONCLUSIVE out of time");
            std::process::exit(2);
        }
    }
}

impl Run {
    pub fn from_env(prop: &str) -> Run {
        quiet_panics();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let limit = std::env::var("VERIF_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1800 } else { 150 });
        let crash = PathBuf::from(&root).join("work").join("current").join(prop);
        let _ = std::fs::remove_dir_all(&crash);
        let _ = std::fs::create_dir_all(&crash);
        *CRASH_DIR.lock().unwrap() = Some(crash);
        let hang_is_violation = ["C05", "C06", "C08", "C12", "C13", "C14", "C15", "C16", "C22", "C23", "C24", "C29"].contains(&prop);
        let (p, r) = (prop.to_string(), PathBuf::from(&root));
        std::thread::spawn(move || watchdog(p, r, hang_is_violation, limit));
        Run {
            prop: prop.into(),
            seed,
            thorough,
            start: Instant::now(),
            root: root.into(),
            stats: Mutex::new(Stats::default()),
            stop: AtomicBool::new(false),
            limit: Duration::from_secs(limit),
        }
    }
    pub fn scale(&self, quick: usize, factor: usize) -> usize {
        // how many times the basic counts a quick run takes
        let boost = match self.prop.as_str() {
            "C04" | "C07" | "C13" | "C22" | "C23" | "C24" | "C29" => 8,
            "C14" | "C15" | "C16" | "C19" | "C26" => 5,
            "C05" => 3,
            "C06" | "C08" | "C17" => 2,
            _ => 1,
        };
        if self.thorough {
            quick * factor.max(2 * boost)
        } else {
            quick * boost
        }
    }
    pub fn over(&self) -> bool {
        self.stop.load(Ordering::Relaxed) || self.start.elapsed() > self.limit
    }
    /// Runs `n` cases over all cores; each has its own random stream. A panic escaping a case is a
    /// harness error, never a verdict.
    pub fn par(&self, label: &str, n: usize, f: impl Fn(usize, &mut Rng, &mut Stats) + Sync) {
        let next = AtomicUsize::new(0);
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
        let done = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(1 << 30)
                    .spawn_scoped(s, || {
                        let mut st = Stats::default();
                        slot_begin();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || self.over() {
                                break;
                            }
                            let mut r = Rng::new(self.seed, fnv(&format!("{}/{}/{}", self.prop, label, i)));
                            slot_set(true);
                            if let Err(e) = guard(|| f(i, &mut r, &mut st)) {
                                st.errors.push(format!("{} case {}: {}", label, i, e));
                            }
                            slot_set(false);
                            done.fetch_add(1, Ordering::Relaxed);
                            if st.violations.len() >= 3 || st.errors.len() >= 3 {
                                self.stop.store(true, Ordering::Relaxed);
                            }
                        }
                        self.stats.lock().unwrap().merge(st);
                    })
                    .unwrap();
            }
        });
        let d = done.load(Ordering::Relaxed);
        self.stats.lock().unwrap().add(&format!("cases: {}", label), d as u64);
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut Stats) -> T) -> T {
        f(&mut self.stats.lock().unwrap())
    }
    /// Writes the evidence file, prints the verdict, exits.
    pub fn finish(self, rule: &str, assumptions: &[&str]) -> ! {
        let st = self.stats.into_inner().unwrap();
        let dir = self.root.join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        let known = std::fs::read_to_string(self.root.join("known-findings.txt")).unwrap_or_default();
        let mut fresh = vec![];
        let mut listed = vec![];
        for (what, detail) in &st.violations {
            let hit = known.lines().find(|l| {
                l.strip_prefix(&format!("known: property={} match=", self.prop)).map_or(false, |m| !m.is_empty() && what.contains(m))
            });
            match hit {
                Some(_) => listed.push(what.clone()),
                None => fresh.push((what.clone(), detail.clone())),
            }
        }
        let mut j = String::from("{\n");
        j += &format!(" \"property\": {},\n", json_str(&self.prop));
        j += &format!(" \"tier\": \"{}\",\n", if self.thorough { "thorough" } else { "quick" });
        j += &format!(" \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n", self.seed);
        j += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", st.evals, st.distinct.len());
        j += &format!("  \"rule\": {},\n", json_str(rule));
        j += "  \"observed\": {";
        j += &st.counters.iter().map(|(k, v)| format!("\n   {}: {}", json_str(k), v)).collect::<Vec<_>>().join(",");
        j += "\n  },\n  \"samples\": [";
        j += &st.samples.iter().map(|s| format!("\n   {}", json_str(s))).collect::<Vec<_>>().join(",");
        j += "\n  ]\n },\n \"assumptions\": [";
        j += &assumptions.iter().map(|s| format!("\n  {}", json_str(s))).collect::<Vec<_>>().join(",");
        j += &format!("\n ],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), fresh.len());
        std::fs::write(dir.join(format!("{}.json", self.prop)), j).unwrap();
        for w in listed {
            println!("KNOWN-FINDING: property={} {}", self.prop, w);
        }
        if !fresh.is_empty() {
            let rd = self.root.join("work").join("replay");
            std::fs::create_dir_all(&rd).unwrap();
            for (i, (what, detail)) in fresh.iter().enumerate().take(5) {
                let p = rd.join(format!("{}-{}.txt", self.prop, i));
                std::fs::write(&p, format!("{}\n\n{}\n", what, detail)).unwrap();
                println!("{}", what.replace('\n', " "));
                println!("VIOLATION property={} replay={}", self.prop, p.display());
            }
            std::process::exit(1);
        }
        if !st.errors.is_empty() {
            for e in st.errors.iter().take(5) {
                println!("HARNESS-ERROR {}", e);
            }
            std::process::exit(2);
        }
        if st.evals == 0 || st.distinct.is_empty() {
            println!("HARNESS-ERROR nothing was observed");
            std::process::exit(2);
        }
        println!(
            "ok property={} evaluations={} distinct={} wall={:.1}s",
            self.prop,
            st.evals,
            st.distinct.len(),
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(0);
    }
}
