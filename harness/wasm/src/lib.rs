//! The workloads of C01 to C14 and C16's transcript as a WebAssembly module: pointers and `usize` of 32
//! bits, overflow checks and debug assertions on. `run.js` calls `run` or `one` for one case at a time.
#![allow(dead_code)]
#[path = "../../src/gen.rs"]
mod gen;
#[path = "../../src/p_arith.rs"]
mod p_arith;
#[path = "../../src/p_codec.rs"]
mod p_codec;
#[path = "../../src/p_fr.rs"]
mod p_fr;
#[path = "../../src/p_groups.rs"]
mod p_groups;
#[path = "../../src/p_hist.rs"]
mod p_hist;
#[path = "../../src/p_pair.rs"]
mod p_pair;
#[path = "../../src/p_rand.rs"]
mod p_rand;
#[path = "../../src/p_stream.rs"]
mod p_stream;
#[path = "../../src/p_xcfg.rs"]
mod p_xcfg;
#[path = "../../src/refcurve.rs"]
mod refcurve;
#[path = "../../src/refmath.rs"]
mod refmath;
#[path = "../../src/refpair.rs"]
mod refpair;
#[path = "../../src/reftower.rs"]
mod reftower;
#[path = "../../src/rt.rs"]
mod rt;
#[path = "../../src/sut.rs"]
mod sut;
#[cfg(feature = "s")]
#[path = "../../src/tok.rs"]
mod tok;

use std::alloc::{GlobalAlloc, Layout};
use std::cell::UnsafeCell;

/// Blocks of powers of two from the module's own memory, and a list of free ones of each size:
/// there is no libc to ask.
struct Blocks(UnsafeCell<([usize; 32], usize, usize)>);
unsafe impl Sync for Blocks {}
impl Blocks {
    unsafe fn get(&self, size: usize) -> *mut u8 {
        let (free, at, end) = &mut *self.0.get();
        let k = size.max(16).next_power_of_two().trailing_zeros() as usize;
        if free[k] != 0 {
            let p = free[k];
            free[k] = *(p as *const usize);
            return p as *mut u8;
        }
        let n = 1usize << k;
        if *at + n > *end {
            let pages = (n + 4095) / 65536 + 16;
            let old = core::arch::wasm32::memory_grow(0, pages);
            if old == usize::MAX {
                return std::ptr::null_mut();
            }
            *at = old * 65536;
            *end = *at + pages * 65536;
        }
        let p = *at;
        *at += n;
        p as *mut u8
    }
    unsafe fn put(&self, p: *mut u8, size: usize) {
        let (free, _, _) = &mut *self.0.get();
        let k = size.max(16).next_power_of_two().trailing_zeros() as usize;
        *(p as *mut usize) = free[k];
        free[k] = p as usize;
    }
}
unsafe impl GlobalAlloc for Blocks {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.get(l.size().max(l.align()))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        self.put(p, l.size().max(l.align()))
    }
}
#[global_allocator]
static HEAP: Blocks = Blocks(UnsafeCell::new(([0; 32], 0, 0)));

static mut TEXT: Vec<u8> = vec![];

#[allow(static_mut_refs)]
fn put(s: String) -> usize {
    unsafe {
        TEXT = s.into_bytes();
        TEXT.len()
    }
}

/// Where the text is that the last call left.
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn text() -> usize {
    unsafe { TEXT.as_ptr() as usize }
}

/// What went before a panic, which ends the module.
#[no_mangle]
pub extern "C" fn prepare() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = i.payload();
        let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or(p.downcast_ref::<String>().cloned());
        put(format!("panic at {}: {}", loc, m.unwrap_or_default()).replace('\n', " "));
    }));
}

/// The parts of the workload and the number of cases of each.
#[no_mangle]
pub extern "C" fn parts() -> usize {
    let v: Vec<String> = p_xcfg::parts().iter().map(|p| format!("{} {}", p.name, p.native)).collect();
    put(v.join("\n"))
}

/// One case: results and digest on a line, or with `full` the results one by one.
#[no_mangle]
pub extern "C" fn run(part: usize, seed: u64, idx: u64, full: u32) -> usize {
    let p = &p_xcfg::parts()[part];
    let (log, r) = p_xcfg::case(p, seed, idx, false);
    if full != 0 {
        let mut s = String::new();
        for (i, (l, b)) in log.iter().enumerate() {
            let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
            s += &format!("{} {} {}\n", i, l.replace(' ', "_"), h);
        }
        if let Err(e) = r {
            s += &format!("ended: {}\n", e);
        }
        return put(s);
    }
    let end = r.err().map(|e| format!(" ended: {}", e.replace('\n', " "))).unwrap_or_default();
    put(format!("{} {} {} {:016x}{}", p.name, idx, log.len(), p_xcfg::digest(&log), end))
}

fn all() -> Vec<rt::Family> {
    let mut v = vec![];
    for p in 1..=14 {
        let p = format!("C{:02}", p);
        v.extend(p_arith::families(&p));
        v.extend(p_codec::families(&p));
        v.extend(p_stream::families(&p));
        v.extend(p_fr::families(&p));
        v.extend(p_groups::families(&p));
        v.extend(p_hist::families(&p));
        v.extend(p_pair::families(&p));
        v.extend(p_rand::families(&p));
    }
    v
}

/// The families of the other properties' workloads and the number of cases of each.
#[no_mangle]
pub extern "C" fn families() -> usize {
    let v: Vec<String> = all().iter().map(|f| format!("{} {}", f.name, f.quick)).collect();
    put(v.join("\n"))
}

/// One case of them, with its monitors.
#[no_mangle]
pub extern "C" fn one(family: usize, seed: u64, idx: u64) -> usize {
    let f = &all()[family];
    let (c, r) = rt::run_one(f, seed, idx, false);
    let n: u64 = c.counts.values().sum();
    put(match r {
        Ok(()) => format!("{} {} {} held", f.name, idx, n),
        Err(v) => format!("{} {} {} {}: {}", f.name, idx, n, v.kind, v.msg.replace('\n', " ")),
    })
}
