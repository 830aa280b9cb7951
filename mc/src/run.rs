//! Parallel enumeration, counting, violation capture, evidence.

use crate::field::{Elem, Field, Op, BLANK};
use crate::gen::{place, Rep};
use crate::machine::{model, panic_msg, run, Step};
use crate::num::U;
use crate::watch;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

/// Set for the thorough tier: the largest bounds.
pub static MORE: AtomicBool = AtomicBool::new(false);
pub fn more() -> bool {
    MORE.load(Ordering::Relaxed)
}
/// A bound by depth: quick, deep, thorough.
pub fn lv<T>(deep: bool, a: T, b: T, c: T) -> T {
    if more() {
        c
    } else if deep {
        b
    } else {
        a
    }
}

pub struct Violation {
    pub text: String,
    pub replay: String,
}

pub struct Cx {
    /// 64-bit fingerprints of the states visited (capped, see CAP)
    pub seen: Vec<u64>,
    pub overflowed: bool,
    pub transitions: u64,
    pub traces: u64,
    pub skipped: u64,
    pub out_of_domain: u64,
    pub samples: Vec<String>,
    pub notes: Vec<(String, u64)>,
    salt: u64,
}

const CAP: usize = 400_000;

impl Cx {
    pub fn new(salt: u64) -> Cx {
        Cx {
            seen: vec![],
            overflowed: false,
            transitions: 0,
            traces: 0,
            skipped: 0,
            out_of_domain: 0,
            samples: vec![],
            notes: vec![],
            salt,
        }
    }
    #[inline]
    pub fn fp(&mut self, h: u64) {
        if self.seen.len() < CAP {
            self.seen.push(h);
        } else if !self.overflowed {
            self.seen.sort_unstable();
            self.seen.dedup();
            if self.seen.len() >= CAP / 2 {
                self.overflowed = true;
            }
        }
    }
    #[inline]
    pub fn state(&mut self, f: &dyn Field, a: &Elem, b: &Elem) {
        if self.overflowed {
            return;
        }
        let n = (f.md().n + f.w() - 1) / f.w();
        let mut h = (self.salt + f.md().n as u64).wrapping_mul(0x9e3779b97f4a7c15);
        for i in 0..n {
            h = (h ^ a.0[i] as u64).wrapping_mul(0xff51afd7ed558ccd);
            h ^= h >> 32;
            h = (h ^ b.0[i] as u64).wrapping_mul(0xc4ceb9fe1a85ec53);
            h ^= h >> 29;
        }
        self.fp(h);
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 2 {
            self.samples.push(s);
        }
    }
    pub fn note(&mut self, k: &str, n: u64) {
        if let Some(x) = self.notes.iter_mut().find(|x| x.0 == k) {
            x.1 += n;
        } else {
            self.notes.push((k.into(), n));
        }
    }
}

pub type Res = Result<(), Violation>;
pub struct Job<'a> {
    pub name: String,
    pub run: Box<dyn Fn(&mut Cx) -> Res + Send + Sync + 'a>,
}

pub fn job<'a>(name: String, f: impl Fn(&mut Cx) -> Res + Send + Sync + 'a) -> Job<'a> {
    Job { name, run: Box::new(f) }
}

#[derive(Default)]
pub struct Totals {
    pub states: u64,
    pub states_capped: bool,
    pub transitions: u64,
    pub traces: u64,
    pub skipped: u64,
    pub out_of_domain: u64,
    pub samples: Vec<String>,
    pub notes: Vec<(String, u64)>,
    pub jobs: usize,
    pub violation: Option<Violation>,
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) };
}
/// Silence panics, but remember where the last one of each thread came from.
pub fn panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| (l.file().to_string(), l.line()));
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()));
        if let Some((f, l)) = at {
            PANIC_AT.with(|p| *p.borrow_mut() = (f.clone(), format!("{} at {}:{}", m.unwrap_or_default(), f, l)));
        }
    }));
}
fn last_panic_in_repo() -> bool {
    PANIC_AT.with(|p| p.borrow().0.starts_with("/repo/") || p.borrow().1.starts_with(IMPL_PANIC))
}
fn last_panic() -> String {
    PANIC_AT.with(|p| p.borrow().1.clone())
}
/// start of the message of a panic the harness raises because of what the code
/// under test did
pub const IMPL_PANIC: &str = "the code under test ";

/// Run all jobs on all cores; the reported violation is the one of the first
/// job in order, so the verdict and the replay do not depend on scheduling.
pub fn run_all(jobs: &[Job]) -> Totals {
    let next = AtomicUsize::new(0);
    let best = AtomicUsize::new(usize::MAX);
    let engine = AtomicBool::new(false);
    let done: Mutex<(Vec<Cx>, Option<Violation>)> = Mutex::new((vec![], None));
    let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    let finished = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            if let Some((j, n)) = watch::wait_for_hang(&|| finished.load(Ordering::SeqCst) == nthreads) {
                watch::report(jobs.get(j), n);
            }
        });
        let (next, best, engine, done, finished) = (&next, &best, &engine, &done, &finished);
        for id in 0..nthreads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= jobs.len() || i > best.load(Ordering::SeqCst) {
                        finished.fetch_add(1, Ordering::SeqCst);
                        break;
                    }
                    watch::worker(id);
                    watch::start_job(i);
                    let mut cx = Cx::new((i as u64 / 1_000_000).wrapping_mul(77));
                    let t0 = std::time::Instant::now();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (jobs[i].run)(&mut cx)));
                    if verbose {
                        eprintln!("{:8.2}s {:10} traces {}", t0.elapsed().as_secs_f64(), cx.traces, jobs[i].name);
                    }
                    let r = match r {
                        Ok(r) => r,
                        // the code under test panicked where no panic was expected
                        Err(_) if last_panic_in_repo() => {
                            let text = format!("{}: the code under test panicked: {}", jobs[i].name, last_panic());
                            Err(Violation { replay: format!("kind panic\njob {}\n# {}\n", jobs[i].name, text), text })
                        }
                        Err(p) => {
                            // an engine error, not a verdict: the run has no answer
                            // unless another job finds a violation
                            eprintln!("ENGINE ERROR in job {}: {}", jobs[i].name, panic_msg(&p));
                            engine.store(true, Ordering::SeqCst);
                            Ok(())
                        }
                    };
                    cx.seen.sort_unstable();
                    cx.seen.dedup();
                    let mut d = done.lock().unwrap();
                    if let Err(v) = r {
                        if i < best.load(Ordering::SeqCst) {
                            best.store(i, Ordering::SeqCst);
                            d.1 = Some(v);
                        }
                    }
                    d.0.push(cx);
                })
                .unwrap();
        }
    });
    let (cxs, violation) = done.into_inner().unwrap();
    if engine.load(Ordering::SeqCst) && violation.is_none() {
        std::process::exit(3);
    }
    let mut t = Totals { violation, jobs: jobs.len(), ..Default::default() };
    let mut all: Vec<u64> = vec![];
    for c in cxs {
        t.transitions += c.transitions;
        t.traces += c.traces;
        t.skipped += c.skipped;
        t.out_of_domain += c.out_of_domain;
        t.states_capped |= c.overflowed;
        for s in c.samples {
            if t.samples.len() < 8 {
                t.samples.push(s);
            }
        }
        for (k, n) in c.notes {
            if let Some(x) = t.notes.iter_mut().find(|x| x.0 == k) {
                x.1 += n;
            } else {
                t.notes.push((k, n));
            }
        }
        all.extend(c.seen);
    }
    t.notes.sort();
    t.samples.sort();
    all.sort_unstable();
    all.dedup();
    t.states = all.len() as u64;
    t
}

/// Build the violation for a failing trace (re-running it step by step on the
/// machine, which also says at which step real code and model part).
pub fn violation(f: &dyn Field, steps: &[Step], text: &str) -> Violation {
    let mut replay = format!("kind field\nfield {}\n", f.name());
    for s in steps {
        replay.push_str(&format!("{:?}\n", s));
    }
    let msg = match run(f, steps) {
        Err((i, e)) => format!("{}: step {} `{:?}`: {}", f.name(), i, steps[i], e),
        Ok(_) => format!("{}: {}", f.name(), text),
    };
    replay.push_str(&format!("# {}\n# {}\n", text, msg));
    Violation { text: msg, replay }
}

/// Call the real operation, turning a panic into an error.
#[inline]
pub fn guarded<T>(g: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).map_err(|p| panic_msg(&p))
}

/// One case of an operation with registers a, b: run it on the real code,
/// compare what a packs to with `want`.
#[inline]
pub fn case2(cx: &mut Cx, f: &dyn Field, op: Op, a: &Rep, b: &Rep, want: &U) -> Res {
    let (mut ea, mut eb) = (a.e, b.e);
    let n = f.nbytes();
    let mut buf = [0u8; 80];
    let r = guarded(|| {
        f.apply(op, &mut ea, &mut eb);
        f.pack(&ea, &mut buf[..n]);
    });
    cx.transitions += 2;
    cx.traces += 1;
    cx.state(f, &a.e, &b.e);
    if r.is_ok() && buf[..n] == want.to_bytes()[..n] && eb == b.e {
        if cx.samples.is_empty() {
            cx.sample(format!(
                "{} {:?} a={}(recipe {}) b={}(recipe {}) -> {}",
                f.name(),
                op,
                a.v.hex(),
                a.how,
                b.v.hex(),
                b.how,
                want.hex()
            ));
        }
        return Ok(());
    }
    Err(fail2(f, op, a, Some(b), want, r.err(), &buf[..n]))
}

#[inline]
pub fn case1(cx: &mut Cx, f: &dyn Field, op: Op, a: &Rep, want: &U) -> Res {
    let mut ea = a.e;
    let mut eb = BLANK;
    let n = f.nbytes();
    let mut buf = [0u8; 80];
    let r = guarded(|| {
        f.apply(op, &mut ea, &mut eb);
        f.pack(&ea, &mut buf[..n]);
    });
    cx.transitions += 2;
    cx.traces += 1;
    cx.state(f, &a.e, &BLANK);
    if r.is_ok() && buf[..n] == want.to_bytes()[..n] {
        if cx.samples.is_empty() {
            cx.sample(format!("{} {:?} a={}(recipe {}) -> {}", f.name(), op, a.v.hex(), a.how, want.hex()));
        }
        return Ok(());
    }
    Err(fail2(f, op, a, None, want, r.err(), &buf[..n]))
}

#[cold]
pub fn fail2(
    f: &dyn Field,
    op: Op,
    a: &Rep,
    b: Option<&Rep>,
    want: &U,
    panicked: Option<String>,
    got: &[u8],
) -> Violation {
    let mut steps = place(f.md(), a, 0, b.map(|b| (b, 1)));
    steps.push(Step::Do(op, 0, 1));
    let text = match panicked {
        Some(p) => format!("{:?} panicked: {}", op, p),
        None => format!("{:?} gave {} instead of {} (or changed its operand)", op, U::from_bytes(got).hex(), want.hex()),
    };
    violation(f, &steps, &text)
}

/// One case checked through the machine itself (observations, in-domain test).
pub fn case_m(cx: &mut Cx, f: &dyn Field, pre: &[Step], a: &Rep, b: Option<&Rep>, ops: &[Step]) -> Res {
    let mut m = crate::machine::Machine::new();
    m.e[0] = a.e;
    m.v[0] = a.v;
    if let Some(b) = b {
        m.e[1] = b.e;
        m.v[1] = b.v;
    } else {
        m.e[1] = f.mk(&crate::num::ZERO);
    }
    m.e[2] = m.e[1];
    m.v[2] = m.v[1];
    m.e[3] = m.e[1];
    m.v[3] = m.v[1];
    for s in pre {
        let _ = m.step(f, s);
    }
    cx.traces += 1;
    cx.state(f, &m.e[0], &m.e[1]);
    for s in ops {
        let r = guarded(|| m.step(f, s));
        cx.transitions += 1;
        match r {
            Ok(Ok(true)) => {}
            Ok(Ok(false)) => cx.out_of_domain += 1,
            _ => {
                let mut steps = place(f.md(), a, 0, b.map(|b| (b, 1)));
                steps.extend_from_slice(pre);
                steps.extend_from_slice(ops);
                let e = match r {
                    Err(p) => format!("panic: {}", p),
                    Ok(Err(e)) => e,
                    _ => unreachable!(),
                };
                return Err(violation(f, &steps, &e));
            }
        }
    }
    if cx.samples.is_empty() {
        cx.sample(format!("{} a={}(recipe {}) {:?}", f.name(), a.v.hex(), a.how, &ops[..ops.len().min(6)]));
    }
    Ok(())
}

/// The model's verdict for one operation (used by sweeps): the residue A must have.
pub fn expect(f: &dyn Field, op: Op, a: &U, b: &U) -> Option<U> {
    let (mut x, mut y) = (*a, *b);
    model(f.md(), op, &mut x, &mut y).ok().map(|_| x)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
