//! Deterministic bounds on one case: steps (in a build with trace-pc-guard instrumentation) and heap.
//!
//! Code that never ends, or that allocates without end, cannot be judged by a clock. It is judged by counting:
//! a case whose thread executes more than `STEP_LIMIT` instrumented blocks, or asks for more than `HEAP_LIMIT`
//! bytes, is a failed case. In the first case the thread hands over the choices made so far and is parked; in
//! the second the process ends, and the case is found like one that overflows the stack.
use crate::Outcome;
use std::cell::{Cell, RefCell};
use std::sync::mpsc::Sender;

/// The longest scenario (C17 wide) needs a quarter of this, all others less than an eighth.
pub const STEP_LIMIT: u64 = 40_000_000_000;
/// About twice what the most demanding scenario (C05 large) holds.
pub const HEAP_LIMIT: i64 = 3_900_000_000;
/// For scenarios of many small cases: ten times what any of them needs.
pub const SMALL_STEP_LIMIT: u64 = 20_000_000_000;
const OFF: u64 = u64::MAX;

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(OFF) };
    static LIMIT: Cell<u64> = const { Cell::new(OFF) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static REC: Cell<*const Vec<u64>> = const { Cell::new(std::ptr::null()) };
    static TX: RefCell<Option<Sender<Outcome>>> = const { RefCell::new(None) };
}
static CASE_LIMIT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(STEP_LIMIT);

/// The step limit of cases started from now on.
pub fn set_step_limit(n: u64) {
    CASE_LIMIT.store(n, std::sync::atomic::Ordering::SeqCst);
}
pub(crate) fn enter(tx: Sender<Outcome>) {
    TX.with(|t| *t.borrow_mut() = Some(tx));
    let n = CASE_LIMIT.load(std::sync::atomic::Ordering::SeqCst);
    LIMIT.with(|l| l.set(n));
    LEFT.with(|l| l.set(n));
}
pub(crate) fn watch(rec: &Vec<u64>) {
    REC.with(|r| r.set(rec));
}
pub(crate) fn used() -> u64 {
    let l = LIMIT.with(|l| l.get());
    if l == OFF {
        0
    } else {
        l - LEFT.with(|x| x.get())
    }
}
pub(crate) fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
pub(crate) fn leave() {
    LEFT.with(|l| l.set(OFF));
    REC.with(|r| r.set(std::ptr::null()));
    TX.with(|t| *t.borrow_mut() = None);
}

fn park(msg: String) {
    let rec = REC.with(|r| r.replace(std::ptr::null()));
    if rec.is_null() {
        return;
    }
    // the thread stands still from here on: nobody else touches the vector
    let rec = unsafe { (*rec).clone() };
    let tx = TX.with(|t| t.borrow_mut().take());
    if let Some(tx) = tx {
        let _ = tx.send(Outcome {
            res: Err(msg),
            rec,
            max: Vec::new(),
            labels: Default::default(),
            nontrivial: true,
            excluded: 0,
            trace: Vec::new(),
            over: true,
            steps: 0,
            heap: 0,
        });
        loop {
            std::thread::sleep(std::time::Duration::from_secs(3600));
        }
    }
}

/// Called by the allocator with the bytes the thread holds or is about to hold.
#[inline]
pub fn heap(bytes: i64) {
    let _ = PEAK.try_with(|p| {
        if bytes > p.get() {
            p.set(bytes)
        }
    });
    if bytes > HEAP_LIMIT {
        heap_over(bytes);
    }
}
#[cold]
fn heap_over(_bytes: i64) {
    // ends the process, which frees the memory; `after_crash` finds and shrinks the case in processes of their own
    if LEFT.try_with(|l| l.replace(OFF)).unwrap_or(OFF) != OFF {
        let _ = std::io::Write::write_all(&mut std::io::stderr(), b"abort: memory without bound, one case asks for more than 3.9 GB in total\n");
        std::process::abort();
    }
}

/// Called at every block of an instrumented build.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_guard: *mut u32) {
    LEFT.with(|l| {
        let n = l.get();
        if n != OFF {
            if n == 0 {
                l.set(OFF);
                park(format!("does not end: more than {} blocks executed", LIMIT.with(|l| l.get())));
            } else {
                l.set(n - 1);
            }
        }
    });
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_start: *mut u32, _stop: *mut u32) {}
