//! Case runner: seeded cases on worker threads, panic and non-termination monitors, counters.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// xoshiro256** seeded by splitmix64
#[derive(Clone, Debug)]
pub struct Prng([u64; 4]);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut a = [0u8; 8];
        a[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(a));
    }
    h
}
impl Prng {
    pub fn new(seed: u64) -> Prng {
        let mut s = [0; 4];
        let mut z = seed;
        for x in s.iter_mut() {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            *x = mix(z);
        }
        Prng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
}

/// What one case sees.
pub struct Case {
    pub id: (&'static str, u64),
    pub rng: Prng,
    pub counts: BTreeMap<&'static str, u64>,
    sig: u64,
    nontrivial: bool,
    pub sample: Option<String>,
    want_sample: bool,
}
impl Case {
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    /// Identity of the case's inputs, for counting distinct ones.
    pub fn sig(&mut self, words: &[u64]) {
        for w in words {
            self.sig = mix(self.sig ^ w);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

pub type CaseFn = fn(&mut Case) -> Result<(), String>;

pub struct Family {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub idx: u64,
    pub kind: &'static str,
    pub msg: String,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Run f; a panic is returned as (location, message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

/// Panics located in the harness's own sources are harness errors.
pub fn own_panic(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/src/")
}

fn family_hash(name: &str) -> u64 {
    hash_bytes(name.as_bytes())
}

pub fn run_one(fam: &Family, seed: u64, idx: u64, want_sample: bool) -> (Case, Result<(), Violation>) {
    let cs = mix(mix(seed) ^ family_hash(fam.name)).wrapping_add(mix(idx));
    let mut case = Case {
        id: (fam.name, idx),
        rng: Prng::new(cs),
        counts: BTreeMap::new(),
        sig: family_hash(fam.name),
        nontrivial: false,
        sample: None,
        want_sample,
    };
    let r = guard(|| (fam.f)(&mut case));
    let v = |kind, msg| Violation { family: fam.name.into(), idx, kind, msg };
    let res = match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(v("mismatch", m)),
        Err((loc, msg)) => {
            let kind = if own_panic(&loc) && !msg.starts_with("SUT:") { "harness" } else { "panic" };
            Err(v(kind, format!("panic at {}: {}", loc, msg)))
        }
    };
    (case, res)
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub sigs: Vec<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<Violation>,
    pub truncated: bool,
}

struct Watch {
    tid: AtomicU64,
    /// 0: idle, else serial of the running case
    serial: AtomicU64,
    fam: AtomicU64,
    idx: AtomicU64,
}

fn cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}
fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|s| s.to_string_lossy().into_owned()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

/// Threads that cases start themselves: (thread, CPU at its start, case).
static HELPERS: Mutex<Vec<(u64, u64, (&'static str, u64))>> = Mutex::new(vec![]);
/// Run the body of a thread that a case started, under the watch for non-termination.
pub fn helper<T>(id: (&'static str, u64), f: impl FnOnce() -> T) -> T {
    struct Off(u64);
    impl Drop for Off {
        fn drop(&mut self) {
            HELPERS.lock().unwrap_or_else(|e| e.into_inner()).retain(|h| h.0 != self.0);
        }
    }
    if cfg!(miri) {
        return f();
    }
    let tid = my_tid();
    HELPERS.lock().unwrap_or_else(|e| e.into_inner()).push((tid, cpu_ticks(tid).unwrap_or(0), id));
    let _off = Off(tid);
    f()
}
fn process_ticks() -> u64 {
    let Ok(s) = std::fs::read_to_string("/proc/self/stat") else { return 0 };
    let Some(rest) = s.rsplit(')').next() else { return 0 };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    n(11) + n(12)
}

/// CPU seconds (of the thread itself, so load does not matter) after which a case, which
/// takes milliseconds, counts as not terminating.
pub const HANG_CPU_S: u64 = 60;
/// Wall seconds over which the whole process, with a case under way, used no CPU: every thread
/// waits for another.
pub const DEADLOCK_S: u64 = 60;

pub fn run(
    fams: &[Family],
    seed: u64,
    thorough: bool,
    scale: f64,
    threads: usize,
    time_limit: Duration,
    on_hang: impl Fn(Violation) + Send + Sync + 'static,
    trace: bool,
) -> Stats {
    let total = Mutex::new(Stats::default());
    let stop = Arc::new(AtomicBool::new(false));
    let start = Instant::now();
    let watches: Arc<Vec<Watch>> = Arc::new(
        (0..threads)
            .map(|_| Watch {
                tid: AtomicU64::new(0),
                serial: AtomicU64::new(0),
                fam: AtomicU64::new(0),
                idx: AtomicU64::new(0),
            })
            .collect(),
    );
    let names: Vec<String> = fams.iter().map(|f| f.name.to_string()).collect();
    let done = Arc::new(AtomicBool::new(false));
    let wd = {
        let (watches, done) = (watches.clone(), done.clone());
        std::thread::spawn(move || {
            let mut seen: Vec<(u64, u64)> = vec![(0, 0); watches.len()];
            let mut idle = (process_ticks(), 0u64);
            while !done.load(Relaxed) {
                for _ in 0..10 {
                    if !done.load(Relaxed) {
                        std::thread::sleep(Duration::from_millis(50));
                    }
                }
                let stuck: Vec<_> = HELPERS
                    .lock()
                    .unwrap_or_else(|e| e.into_inner())
                    .iter()
                    .filter(|h| cpu_ticks(h.0).map_or(false, |t| t.saturating_sub(h.1) > HANG_CPU_S * 100))
                    .map(|h| h.2)
                    .collect();
                if let Some((f, i)) = stuck.first() {
                    on_hang(Violation {
                        family: f.to_string(),
                        idx: *i,
                        kind: "hang",
                        msg: format!("a call in a second thread did not return within {} s of its own CPU time", HANG_CPU_S),
                    });
                }
                // the watch itself uses a tick now and then
                let t = process_ticks();
                if t.saturating_sub(idle.0) > 40 {
                    idle = (t, 0);
                } else if idle.1 < 2 * DEADLOCK_S {
                    // counted in rounds of the watch, which a stopped process does not make
                    idle.1 += 1;
                } else {
                    if let Some(w) = watches.iter().find(|w| w.serial.load(Acquire) != 0) {
                        on_hang(Violation {
                            family: names[w.fam.load(Relaxed) as usize].clone(),
                            idx: w.idx.load(Relaxed),
                            kind: "hang",
                            msg: format!("deadlock: no thread made progress for {} s", DEADLOCK_S),
                        });
                    }
                }
                for (i, w) in watches.iter().enumerate() {
                    let s = w.serial.load(Acquire);
                    if s == 0 {
                        continue;
                    }
                    let Some(t) = cpu_ticks(w.tid.load(Relaxed)) else { continue };
                    if seen[i].0 != s {
                        seen[i] = (s, t);
                    } else if t.saturating_sub(seen[i].1) > HANG_CPU_S * 100 {
                        on_hang(Violation {
                            family: names[w.fam.load(Relaxed) as usize].clone(),
                            idx: w.idx.load(Relaxed),
                            kind: "hang",
                            msg: format!(
                                "a call did not return within {} s of its own CPU time",
                                HANG_CPU_S
                            ),
                        });
                    }
                }
            }
        })
    };
    // Work items in chunks; families interleaved so that a time limit cuts all of them.
    let mut items: Vec<(usize, u64, u64)> = vec![];
    for (i, f) in fams.iter().enumerate() {
        let n = ((if thorough { f.thorough } else { f.quick }) as f64 * scale).ceil() as u64;
        let chunks = n.min(200);
        for c in 0..chunks {
            items.push((i, n * c / chunks, n * (c + 1) / chunks));
        }
    }
    // interleave by fraction of the family
    items.sort_by_key(|(i, lo, _)| {
        let f = &fams[*i];
        let n = ((if thorough { f.thorough } else { f.quick }) as f64 * scale).ceil().max(1.0);
        ((*lo as f64 / n * 1e6) as u64, *i)
    });
    let next = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (items, next, total, stop, watches) = (&items, &next, &total, &stop, &watches);
            let b = std::thread::Builder::new().stack_size(64 << 20);
            b.spawn_scoped(sc, move || {
                let w = &watches[t];
                w.tid.store(my_tid(), Relaxed);
                let mut st = Stats::default();
                let mut serial = 0u64;
                loop {
                    let k = next.fetch_add(1, Relaxed) as usize;
                    if k >= items.len() || stop.load(Relaxed) {
                        break;
                    }
                    let (fi, lo, hi) = items[k];
                    let fam = &fams[fi];
                    for idx in lo..hi {
                        if start.elapsed() > time_limit {
                            st.truncated = true;
                            stop.store(true, Relaxed);
                            break;
                        }
                        serial += 1;
                        w.fam.store(fi as u64, Relaxed);
                        w.idx.store(idx, Relaxed);
                        w.serial.store(serial, Release);
                        if trace {
                            eprintln!("CASE {} {}", fam.name, idx);
                        }
                        let (case, r) = run_one(fam, seed, idx, idx == 0 || idx == 7);
                        w.serial.store(0, Release);
                        st.evaluations += 1;
                        *st.counts.entry(format!("cases:{}", fam.name)).or_insert(0) += 1;
                        for (k, n) in case.counts {
                            *st.counts.entry(k.to_string()).or_insert(0) += n;
                        }
                        if case.nontrivial {
                            st.nontrivial += 1;
                            st.sigs.push(case.sig);
                        }
                        if let Some(s) = case.sample {
                            st.samples.push(format!("{}#{}: {}", fam.name, idx, s));
                        }
                        if let Err(v) = r {
                            if v.kind == "harness" {
                                st.harness_errors.push(v);
                            } else {
                                st.violations.push(v);
                            }
                            if st.violations.len() + st.harness_errors.len() > 20 {
                                stop.store(true, Relaxed);
                                break;
                            }
                        }
                    }
                }
                let mut g = total.lock().unwrap();
                g.evaluations += st.evaluations;
                g.nontrivial += st.nontrivial;
                g.sigs.append(&mut st.sigs);
                for (k, n) in st.counts {
                    *g.counts.entry(k).or_insert(0) += n;
                }
                g.samples.append(&mut st.samples);
                g.violations.append(&mut st.violations);
                g.harness_errors.append(&mut st.harness_errors);
                g.truncated |= st.truncated;
            })
            .expect("spawn");
        }
    });
    done.store(true, Relaxed);
    let _ = wd.join();
    let mut s = total.into_inner().unwrap();
    s.violations.sort_by(|a, b| (&a.family, a.idx).cmp(&(&b.family, b.idx)));
    s.samples.sort();
    s
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c as u32 > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o += &format!("\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
