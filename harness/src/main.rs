mod gen;
mod p_arith;
mod p_codec;
mod p_stream;
#[cfg(feature = "s")]
mod tok;
mod p_conc;
mod p_cost;
mod p_fr;
mod p_groups;
mod p_hist;
mod p_pair;
mod p_rand;
mod p_xcfg;
mod refcurve;
mod refmath;
mod refpair;
mod reftower;
mod rt;
mod sut;

use rt::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[cfg(feature = "alloc")]
mod counting {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
    pub static LIVE: AtomicI64 = AtomicI64::new(0);
    pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
    pub static CALLS: AtomicU64 = AtomicU64::new(0);
    thread_local! {
        /// Live heap of this thread, and its peak since the last mark.
        pub static MINE: Cell<i64> = const { Cell::new(0) };
        pub static PEAK: Cell<i64> = const { Cell::new(0) };
    }
    pub struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            BLOCKS.fetch_add(1, Relaxed);
            CALLS.fetch_add(1, Relaxed);
            let now = MINE.get() + l.size() as i64;
            MINE.set(now);
            if now > PEAK.get() {
                PEAK.set(now);
            }
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            BLOCKS.fetch_sub(1, Relaxed);
            MINE.set(MINE.get() - l.size() as i64);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static G: A = A;
}

/// Live heap of the calling thread (0 without the counting allocator).
#[cfg(feature = "alloc")]
pub fn live() -> i64 {
    counting::MINE.get()
}
/// Forget the peak so far; the live heap now.
#[cfg(feature = "alloc")]
pub fn mark_peak() -> i64 {
    counting::PEAK.set(counting::MINE.get());
    counting::MINE.get()
}
#[cfg(feature = "alloc")]
pub fn peak() -> i64 {
    counting::PEAK.get()
}
#[cfg(not(feature = "alloc"))]
pub fn live() -> i64 {
    0
}
#[cfg(not(feature = "alloc"))]
pub fn mark_peak() -> i64 {
    0
}
#[cfg(not(feature = "alloc"))]
pub fn peak() -> i64 {
    0
}

fn all_families(prop: &str) -> Vec<Family> {
    let mut v = vec![];
    v.extend(p_arith::families(prop));
    v.extend(p_codec::families(prop));
    v.extend(p_stream::families(prop));
    v.extend(p_conc::families(prop));
    v.extend(p_cost::families(prop));
    v.extend(p_fr::families(prop));
    v.extend(p_groups::families(prop));
    v.extend(p_hist::families(prop));
    v.extend(p_pair::families(prop));
    v.extend(p_rand::families(prop));
    v
}
const PROPS: [&str; 14] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];
/// C16 runs everything, at a lower volume.
fn families(prop: &str) -> Vec<Family> {
    if prop == "C16" {
        let mut v = vec![];
        for p in PROPS {
            v.extend(all_families(p));
        }
        return v;
    }
    all_families(prop)
}

struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    fn str(&self, k: &str, d: &str) -> String {
        self.get(k).unwrap_or(d).to_string()
    }
    fn num<T: std::str::FromStr>(&self, k: &str, d: T) -> T {
        match self.get(k) {
            None => d,
            Some(s) => s.parse().unwrap_or_else(|_| die(&format!("bad --{} {}", k, s))),
        }
    }
}
fn die(m: &str) -> ! {
    eprintln!("harness: {}", m);
    std::process::exit(2)
}

fn jviol(v: &Violation) -> String {
    format!(
        "{{\"family\":{},\"idx\":{},\"kind\":{},\"msg\":{}}}",
        jstr(&v.family),
        v.idx,
        jstr(v.kind),
        jstr(&v.msg.chars().take(4000).collect::<String>())
    )
}
fn jlist(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.collect::<Vec<_>>().join(","))
}
fn report(s: &Stats, wall: f64) -> String {
    let mut sigs = s.sigs.clone();
    sigs.sort_unstable();
    sigs.dedup();
    format!(
        "{{\"codec\":{},\"checked\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"counts\":{{{}}},\"samples\":{},\"violations\":{},\"harness_errors\":{},\"truncated\":{},\"wall_s\":{:.2}}}",
        jstr(sut::CODEC),
        sut::CHECKED,
        s.evaluations,
        s.nontrivial,
        sigs.len(),
        s.counts.iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect::<Vec<_>>().join(","),
        jlist(s.samples.iter().map(|x| jstr(&x.chars().take(600).collect::<String>()))),
        jlist(s.violations.iter().map(jviol)),
        jlist(s.harness_errors.iter().map(jviol)),
        s.truncated,
        wall
    )
}
fn put(out: &str, text: &str) {
    if out == "-" {
        println!("{}", text);
    } else if let Err(e) = std::fs::write(out, text) {
        die(&format!("{}: {}", out, e));
    }
}

fn cmd_run(a: &Args) -> i32 {
    let prop = a.str("prop", "");
    let mut fams = families(&prop);
    if let Some(f) = a.get("family") {
        fams.retain(|x| f.split(',').any(|y| y == x.name));
    }
    if fams.is_empty() {
        die(&format!("no families for {:?}", prop));
    }
    let out = a.str("out", "-");
    let start = Instant::now();
    let o2 = out.clone();
    let hang = move |v: Violation| {
        // the thread cannot be stopped: report and leave
        let s = Stats { evaluations: 1, violations: vec![v], truncated: true, ..Stats::default() };
        put(&o2, &report(&s, start.elapsed().as_secs_f64()));
        std::process::exit(0);
    };
    let s = run(
        &fams,
        a.num("seed", 1),
        a.str("tier", "quick") == "thorough",
        a.num("scale", 1.0),
        a.num("threads", 8),
        Duration::from_secs_f64(a.num("time", 3600.0)),
        hang,
        a.get("trace").is_some(),
    );
    if let Some(p) = a.get("sigs") {
        let mut v = s.sigs.clone();
        v.sort_unstable();
        v.dedup();
        let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        if let Err(e) = std::fs::write(p, b) {
            die(&format!("{}: {}", p, e));
        }
    }
    put(&out, &report(&s, start.elapsed().as_secs_f64()));
    0
}

/// How many different cases several runs had.
fn cmd_union(files: &[String]) -> i32 {
    let mut v: Vec<u64> = vec![];
    for f in files {
        match std::fs::read(f) {
            Ok(b) => v.extend(sut::le_words(&b)),
            Err(e) => die(&format!("{}: {}", f, e)),
        }
    }
    v.sort_unstable();
    v.dedup();
    println!("{}", v.len());
    0
}

/// One case again.
fn cmd_one(a: &Args) -> i32 {
    let prop = a.str("prop", "");
    let name = a.str("family", "");
    let fams = families(&prop);
    let Some(f) = fams.iter().find(|f| f.name == name) else { die(&format!("no family {:?}", name)) };
    let (_, r) = run_one(f, a.num("seed", 1), a.num("idx", 0), false);
    match r {
        Ok(()) => {
            println!("held: {} case {}", name, a.num("idx", 0u64));
            0
        }
        Err(v) if v.kind == "harness" => die(&v.msg),
        Err(v) => {
            println!("violated: {} case {}: {}: {}", v.family, v.idx, v.kind, v.msg);
            1
        }
    }
}

/// A few cases of each of some families, one after the other, a line for each: for interpreters.
fn cmd_few(a: &Args) -> i32 {
    let fams = families(&a.str("prop", "C16"));
    let start = Instant::now();
    let limit = Duration::from_secs_f64(a.num("time", 3600.0));
    let from: u64 = a.num("from", 0);
    let mut plan = vec![];
    for x in a.str("plan", "").split(',') {
        let Some((name, n)) = x.split_once(':') else { die(&format!("bad plan {:?}", x)) };
        let Some(f) = fams.iter().find(|f| f.name == name) else { die(&format!("no family {:?}", name)) };
        plan.push((f, n.parse::<u64>().unwrap_or(0)));
    }
    let most = plan.iter().map(|p| p.1).max().unwrap_or(0);
    for i in 0..most {
        for (f, n) in &plan {
            // spread, so that a time limit cuts all alike
            let k = i * n / most;
            if (i + 1) * n / most == k {
                continue;
            }
            if start.elapsed() > limit {
                println!("FEW truncated");
                return 0;
            }
            let (c, r) = run_one(f, a.num("seed", 1), from + k, false);
            let seen: u64 = c.counts.values().sum();
            let what = match r {
                Ok(()) => "held".into(),
                Err(v) => format!("{}: {}", v.kind, v.msg.replace('\n', " ")),
            };
            println!("FEW {} {} {} {}", f.name, from + k, seen, what);
        }
    }
    0
}

/// The results of a workload: one line per case, or everything of one case.
fn cmd_transcript(a: &Args) -> i32 {
    let seed = a.num("seed", 1);
    let scale: f64 = a.num("scale", 1.0);
    let tiny = a.get("tiny").is_some();
    let parts = p_xcfg::parts();
    if let (Some(p), Some(_)) = (a.get("part"), a.get("idx")) {
        let Some(p) = parts.iter().find(|x| x.name == p) else { die("no such part") };
        let (log, r) = p_xcfg::case(p, seed, a.num("idx", 0), tiny);
        for (i, (l, b)) in log.iter().enumerate() {
            let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
            println!("{} {} {}", i, l.replace(' ', "_"), h);
        }
        if let Err(e) = r {
            println!("ended: {}", e);
        }
        return 0;
    }
    let mut jobs = vec![];
    for p in &parts {
        let n = ((if tiny { p.tiny } else { p.native }) as f64 * scale).ceil() as u64;
        for i in 0..n {
            jobs.push((p, i));
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let threads: usize = a.num("threads", 8);
    let out = a.str("out", "-");
    let done = Arc::new(Rows { lines: Mutex::new(vec![]), now: (0..threads).map(|_| Mutex::new(None)).collect() });
    let deadline = Instant::now() + Duration::from_secs_f64(a.num("time", 3600.0));
    let stall = Duration::from_secs_f64(a.num("stall", 60.0));
    if !cfg!(miri) {
        // a case that does not come to its end ends the run
        let (done, out) = (done.clone(), out.clone());
        let names: Vec<(String, u64)> = jobs.iter().map(|(p, i)| (p.name.to_string(), *i)).collect();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let late: Vec<usize> = done.now.iter().filter_map(|n| n.lock().unwrap().filter(|n| n.1.elapsed() > stall).map(|n| n.0)).collect();
            if !late.is_empty() {
                for k in late {
                    let (p, i) = &names[k];
                    done.lines.lock().unwrap().push((k, format!("{} {} 0 0 ended: hang: no end after {:?}", p, i, stall)));
                }
                done.write(&out);
                std::process::exit(0);
            }
        });
    }
    std::thread::scope(|s| {
        for t in 0..threads {
            let (done, next, jobs) = (&done, &next, &jobs);
            s.spawn(move || loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if k >= jobs.len() || Instant::now() > deadline {
                    break;
                }
                let (p, i) = jobs[k];
                *done.now[t].lock().unwrap() = Some((k, Instant::now()));
                let (log, r) = p_xcfg::case(p, seed, i, tiny);
                *done.now[t].lock().unwrap() = None;
                let h = p_xcfg::digest(&log);
                let end = r.err().map(|e| format!(" ended: {}", e.replace('\n', " "))).unwrap_or_default();
                done.lines.lock().unwrap().push((k, format!("{} {} {} {:016x}{}", p.name, i, log.len(), h, end)));
            });
        }
    });
    done.write(&out);
    0
}

/// The lines of a transcript, and the case each thread is at.
struct Rows {
    lines: Mutex<Vec<(usize, String)>>,
    now: Vec<Mutex<Option<(usize, Instant)>>>,
}
impl Rows {
    fn write(&self, out: &str) {
        let mut v = self.lines.lock().unwrap();
        v.sort();
        let mut text = String::new();
        for (_, l) in v.iter() {
            text += l;
            text.push('\n');
        }
        put(out, &text);
    }
}

/// A small workload in one thread, for interpreters and sanitizers; and the allocations that
/// each of its cases leaves behind.
fn cmd_mini(a: &Args) -> i32 {
    let seed = a.num("seed", 1);
    let scale: f64 = a.num("scale", 1.0);
    let tiny = a.str("size", "tiny") == "tiny";
    let only = a.get("part");
    let mut cases = 0u64;
    let mut results = 0u64;
    let mut digest = 0u64;
    #[allow(unused_mut)]
    let mut bad = 0;
    let start = Instant::now();
    let limit = Duration::from_secs_f64(a.num("time", 3600.0));
    'all: for p in p_xcfg::parts() {
        if only.map_or(false, |o| !o.split(',').any(|o| o == p.name)) {
            continue;
        }
        let n = ((if tiny { p.tiny } else { p.native }) as f64 * scale).ceil() as u64;
        let lo: u64 = a.num("from", 0);
        for i in lo..lo + n {
            if start.elapsed() > limit {
                println!("MINI truncated");
                break 'all;
            }
            if a.get("trace").is_some() {
                println!("CASE {} {}", p.name, i);
            }
            let (log, r) = p_xcfg::case(&p, seed, i, tiny);
            cases += 1;
            results += log.len() as u64;
            // every byte of every result is looked at, so that the monitors see it read
            let h = p_xcfg::digest(&log);
            digest = mix(digest ^ h);
            if a.get("digests").is_some() {
                println!("DIGEST {} {} {:016x}{}", p.name, i, h, if r.is_err() { " ended" } else { "" });
            }
            if let Err(e) = r {
                // a panic or a wrong result is no matter of memory
                println!("MINI-ENDED {} {}: {}", p.name, i, e.replace('\n', " "));
            }
            #[cfg(feature = "alloc")]
            {
                use std::sync::atomic::Ordering::Relaxed;
                drop(log);
                let grows = |k: u32| -> Option<(i64, i64)> {
                    let (l, b) = (counting::LIVE.load(Relaxed), counting::BLOCKS.load(Relaxed));
                    for _ in 0..k {
                        drop(p_xcfg::case(&p, seed, i, tiny));
                    }
                    let (l2, b2) = (counting::LIVE.load(Relaxed), counting::BLOCKS.load(Relaxed));
                    if l2 > l && b2 > b { Some((l2 - l, b2 - b)) } else { None }
                };
                // a cache may grow at first: a leak grows at every repetition
                if grows(1).is_some() && (0..6).all(|_| grows(1).is_some()) {
                    let (l, b) = grows(1).unwrap_or((0, 0));
                    println!("MINI-LEAK {} {}: leaks {} bytes in {} blocks at every repetition", p.name, i, l, b);
                    bad += 1;
                }
            }
        }
    }
    #[cfg(feature = "alloc")]
    println!("MINI allocations {}", counting::CALLS.load(std::sync::atomic::Ordering::Relaxed));
    println!("MINI digest {:016x}", digest);
    println!("MINI cases {} results {} bad {}", cases, results, bad);
    if bad > 0 { 1 } else { 0 }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut m = BTreeMap::new();
    let rest: Vec<String> = it.collect();
    if cmd == "eval" {
        install_panic_hook();
        match p_conc::eval(&rest) {
            Some(s) => println!("{}", s),
            None => std::process::exit(3),
        }
        std::process::exit(0);
    }
    if cmd == "cold" {
        install_panic_hook();
        match p_conc::cold_eval(&rest) {
            Some(s) => print!("{}", s),
            None => std::process::exit(3),
        }
        std::process::exit(0);
    }
    if cmd == "union" {
        std::process::exit(cmd_union(&rest));
    }
    let mut i = 0;
    while i < rest.len() {
        let Some(k) = rest[i].strip_prefix("--") else { die(&format!("unexpected {}", rest[i])) };
        if i + 1 < rest.len() && !rest[i + 1].starts_with("--") {
            m.insert(k.to_string(), rest[i + 1].clone());
            i += 2;
        } else {
            m.insert(k.to_string(), String::new());
            i += 1;
        }
    }
    let a = Args(m);
    install_panic_hook();
    let code = match cmd.as_str() {
        "run" => cmd_run(&a),
        "one" => cmd_one(&a),
        "transcript" => cmd_transcript(&a),
        "mini" => cmd_mini(&a),
        "few" => cmd_few(&a),
        "list" => {
            for p in PROPS.iter().chain(["C15"].iter()) {
                for f in families(p) {
                    println!("{} {} {} {}", p, f.name, f.quick, f.thorough);
                }
            }
            0
        }
        _ => die("run | one | transcript | mini | list"),
    };
    std::process::exit(code);
}
