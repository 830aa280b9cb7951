//! A watchdog for operations that never return.
//!
//! Every call into the code under test is bracketed by `enter` / drop, which
//! count in a slot of the calling thread: an odd count means "inside the code
//! under test".  A thread that polls the slots once a second and finds one odd
//! and unchanged for LIMIT polls in a row has seen a call that does not return
//! (the slowest call takes milliseconds).  Counts restart with every job and jobs
//! are deterministic, so (job, count) names the call; the job is run once more
//! up to that call to say what it was.

use crate::run::Job;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex, OnceLock};

#[repr(align(128))]
pub struct Slot {
    n: AtomicU64,
    armed: AtomicU64,
    job: AtomicUsize,
}

/// 0..8 the workers, 8..16 their partner threads (C23), 16 the main thread, 17 a rerun
pub const SLOTS: usize = 18;
const MAIN: usize = 16;
const RERUN: usize = 17;
const LIMIT: u32 = 60;
pub const NO_JOB: usize = usize::MAX;

#[allow(clippy::declare_interior_mutable_const)]
const S0: Slot = Slot { n: AtomicU64::new(0), armed: AtomicU64::new(u64::MAX), job: AtomicUsize::new(NO_JOB) };
static SLOT: [Slot; SLOTS] = [S0; SLOTS];
static CAUGHT: Mutex<Option<String>> = Mutex::new(None);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(MAIN) };
}

pub struct In(&'static Slot);

#[inline(always)]
pub fn enter(what: impl Fn() -> String) -> In {
    let s = &SLOT[ME.with(|m| m.get())];
    let n = s.n.load(Relaxed) + 1;
    s.n.store(n, Relaxed);
    if n == s.armed.load(Relaxed) {
        caught(what());
    }
    In(s)
}

#[cold]
fn caught(what: String) {
    *CAUGHT.lock().unwrap() = Some(what);
}

impl In {
    /// one more call has returned, and the next one begins
    #[inline(always)]
    pub fn again(&self, what: impl Fn() -> String) {
        let n = self.0.n.load(Relaxed) + 2;
        self.0.n.store(n, Relaxed);
        if n == self.0.armed.load(Relaxed) {
            caught(what());
        }
    }
}

impl Drop for In {
    #[inline(always)]
    fn drop(&mut self) {
        self.0.n.store(self.0.n.load(Relaxed) + 1, Relaxed);
    }
}

/// the memory of the slots: the harness's own, though touched while inside a call
#[allow(dead_code)]
pub fn memory() -> (usize, usize) {
    let a = SLOT.as_ptr() as usize;
    (a, a + std::mem::size_of_val(&SLOT))
}

#[allow(dead_code)]
pub fn my_slot() -> usize {
    ME.with(|m| m.get())
}

pub fn worker(id: usize) {
    ME.with(|m| m.set(id));
}

/// a job begins on this thread: count its calls from zero
pub fn start_job(i: usize) {
    let s = &SLOT[ME.with(|m| m.get())];
    s.n.store(0, Relaxed);
    s.job.store(i, Relaxed);
}

/// Poll until some call has not returned for LIMIT seconds; its job and count.
pub fn wait_for_hang(stop: &dyn Fn() -> bool) -> Option<(usize, u64)> {
    let mut last = [(0u64, NO_JOB, 0u32); SLOTS];
    loop {
        for _ in 0..10 {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if stop() {
                return None;
            }
        }
        for i in 0..SLOTS {
            let (n, j) = (SLOT[i].n.load(Relaxed), SLOT[i].job.load(Relaxed));
            let l = &mut last[i];
            if n & 1 == 1 && n == l.0 && j == l.1 {
                l.2 += 1;
                if l.2 >= LIMIT {
                    return Some((j, n));
                }
            } else {
                *l = (n, j, 0);
            }
        }
    }
}

/// Run job `j` again up to its call number `n`: what is that call, and does it
/// return within LIMIT seconds?  None: the job came to its end.  (A value the first run
/// computed once and kept shifts the numbers, so the rerun may stop at another
/// number; then that one is looked up in a further run.)
pub fn again(job: &Job, n: u64) -> Option<(String, bool)> {
    // a thread whose call does not return cannot be joined: the process ends
    // right after this, without leaving the scope that owns the jobs
    let job: &'static Job<'static> = unsafe { std::mem::transmute(job) };
    let mut n = n;
    for _ in 0..3 {
        let s = &SLOT[RERUN];
        s.armed.store(n, Relaxed);
        *CAUGHT.lock().unwrap() = None;
        let over = Arc::new(AtomicUsize::new(0));
        let over2 = over.clone();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                worker(RERUN);
                start_job(NO_JOB);
                let mut cx = crate::run::Cx::new(0);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (job.run)(&mut cx)));
                over2.store(1, Relaxed);
            })
            .unwrap();
        let (mut last, mut same) = (0, 0);
        while over.load(Relaxed) == 0 && same < LIMIT * 10 {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let now = s.n.load(Relaxed);
            if now == last {
                same += 1;
                // waiting for a value that the first, stuck run was computing
                if now & 1 == 0 && same >= LIMIT * 10 {
                    return Some((format!("call {} (a starting value never comes about)", n), false));
                }
            } else {
                last = now;
                same = 0;
            }
        }
        let what = CAUGHT.lock().unwrap().clone();
        if over.load(Relaxed) == 1 {
            return what.map(|w| (w, true));
        }
        if last == n {
            return what.map(|w| (w, false));
        }
        n = last;
    }
    Some((format!("call {}", n), false))
}

/// what is being checked: property, tier, replay file
pub static INFO: OnceLock<(String, String, String)> = OnceLock::new();

/// Report the call that does not return and end the process.
pub fn report(job: Option<&Job>, n: u64) -> ! {
    let (id, tier, path) = INFO.get().cloned().unwrap_or(("?".into(), "quick".into(), "/tmp/replay.txt".into()));
    let (name, what) = match job {
        None => ("(preparation)".into(), Some(("a call made while the starting states were prepared".into(), false))),
        Some(j) => (j.name.clone(), again(j, n)),
    };
    match what {
        Some((what, false)) => {
            let text = format!("a call did not return within {} seconds: {} ({})", LIMIT, what, name);
            let r = format!("property {}\nkind hang\ntier {}\njob {}\ncall {}\n# {}\n", id, tier, name, n, text);
            std::fs::write(&path, r).expect("replay file");
            println!("{}\nVIOLATION property={} replay={}", text, id, path);
            std::process::exit(1);
        }
        other => {
            eprintln!("ENGINE ERROR: call {} of job {} did not return, but could not be reproduced ({:?})", n, name, other);
            std::process::exit(3);
        }
    }
}

/// Watch over `f`, which runs on this thread before any job.
pub fn over<T>(f: impl FnOnce() -> T) -> T {
    let done = Arc::new(AtomicUsize::new(0));
    let d = done.clone();
    std::thread::spawn(move || {
        if let Some((_, n)) = wait_for_hang(&|| d.load(Relaxed) == 1) {
            report(None, n);
        }
    });
    let r = f();
    done.store(1, Relaxed);
    r
}
