//! C23: an operation's result depends on nothing but its operands: not on the
//! operations before it, and not on operations that run at the same time.
//! Built only with the instrumented crate (feature `ct`).
//!
//! Sequences: after every sequence of calls of a bounded length, every call still gives the digits
//! it gave at first.  Schedules: two threads run two calls each, under a scheduler
//! that can switch before each call and before each access to writable static memory, over all
//! schedules with a bounded number of preemptions.

use crate::curve::*;
use crate::field::*;
use crate::gen::*;
use crate::num::{U, ZERO};
use crate::p_curve;
use crate::p_field::Fields;
use crate::run::*;
use crate::watch;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, OnceLock};

/// One call with fixed operands.
#[derive(Clone)]
enum Call {
    F(Op, Elem, Elem),
    Unpack(Vec<u8>),
    PackNorm(Elem),
    Packed(Elem),
    Eq(Elem, Elem, bool),
    Hex(Elem, bool),
    P(POp, PElem, PElem, Elem),
    Init(Elem, Elem),
}

#[derive(Clone, Copy)]
struct On<'a> {
    f: &'a dyn Field,
    c: Option<&'a dyn Cv>,
}

impl<'a> On<'a> {
    fn name(&self) -> &'static str {
        self.c.map(|c| c.name()).unwrap_or(self.f.name())
    }
    /// the digits of everything the call leaves behind
    fn exec(&self, k: &Call, out: &mut Vec<i64>) {
        out.clear();
        match k {
            Call::F(op, a, b) => {
                let (mut a, mut b) = (*a, *b);
                let r = self.f.apply(*op, &mut a, &mut b);
                out.extend_from_slice(&a.0);
                out.extend_from_slice(&b.0);
                out.push(r.map(|x| x as i64).unwrap_or(-1));
            }
            Call::Unpack(b) => out.extend_from_slice(&self.f.unpack(b).0),
            Call::PackNorm(a) => {
                let mut b = [0u8; 80];
                self.f.pack_normalized(a, &mut b[..self.f.nbytes()]);
                out.extend(b.iter().map(|x| *x as i64));
            }
            Call::Packed(a) => {
                let mut a = *a;
                let v = self.f.packed(&mut a);
                out.extend_from_slice(&a.0);
                out.extend(v.iter().map(|x| *x as i64));
            }
            Call::Eq(a, b, m) => {
                let (mut a, mut b) = (*a, *b);
                let r = if *m { self.f.eq_mut(&mut a, &mut b) } else { self.f.eq_self(&mut a, &b) };
                out.extend_from_slice(&a.0);
                out.extend_from_slice(&b.0);
                out.push(r as i64);
            }
            Call::Hex(a, up) => out.extend(self.f.hex(a, *up).bytes().map(|x| x as i64)),
            Call::P(op, p, q, k) => {
                let (mut p, mut q, mut k) = (*p, *q, *k);
                self.c.unwrap().apply(*op, &mut p, &mut q, &mut k);
                out.extend_from_slice(&p.0);
                out.extend_from_slice(&q.0);
                out.extend_from_slice(&k.0);
            }
            Call::Init(x, y) => {
                let c = self.c.unwrap();
                let mut p = c.zero();
                c.init(&mut p, x, y);
                out.extend_from_slice(&p.0);
            }
        }
    }
    /// Whether two results of a call are the same to a user: the same digits or else other
    /// digits of the same elements (a remembered result may well be held in another form).
    fn same(&self, k: &Call, got: &[i64], want: &[i64]) -> bool {
        if got == want {
            return true;
        }
        if got.len() != want.len() {
            return false;
        }
        guarded(|| {
            let elems = |at: usize, n: usize| {
                got[at..at + 16 * n].chunks(16).zip(want[at..at + 16 * n].chunks(16)).all(|(x, y)| {
                    let e = |v: &[i64]| Elem(v.try_into().unwrap());
                    x == y || self.f.val(&e(x)) == self.f.val(&e(y))
                })
            };
            let point = |at: usize| {
                let e = |v: &[i64]| PElem(v[at..at + 48].try_into().unwrap());
                let (x, y) = (e(got), e(want));
                if x.0 == y.0 {
                    return true;
                }
                let c = self.c.unwrap();
                let (p, q, md) = (c.coords(&x), c.coords(&y), self.f.md());
                // x, y and t over z
                [0, 1, 3].iter().all(|&i| md.mul(&p[i], &q[2]) == md.mul(&q[i], &p[2])) && p[2].is_zero() == q[2].is_zero()
            };
            match k {
                Call::F(..) | Call::Eq(..) => elems(0, 2) && got[32..] == want[32..],
                Call::Packed(_) => elems(0, 1) && got[16..] == want[16..],
                Call::Unpack(_) => elems(0, 1),
                Call::P(..) => point(0) && point(48) && elems(96, 1),
                Call::Init(..) => point(0),
                Call::PackNorm(_) | Call::Hex(..) => false,
            }
        })
        .unwrap_or(false)
    }
    fn show(&self, k: &Call) -> String {
        let n = (self.f.md().n + 47) / 48;
        let d = |e: &Elem| format!("{:?}", &e.0[..n.min(16)]);
        match k {
            Call::F(op, a, b) => format!("{:?} on digits {} and {}", op, d(a), d(b)),
            Call::Unpack(b) => format!("unpack {}", U::from_bytes(b).hex()),
            Call::PackNorm(a) => format!("pack_normalized of digits {}", d(a)),
            Call::Packed(a) => format!("packed of digits {}", d(a)),
            Call::Eq(a, b, _) => format!("equality of digits {} and {}", d(a), d(b)),
            Call::Hex(a, _) => format!("formatting of digits {}", d(a)),
            Call::P(op, p, q, k) => format!("{:?} on digits {:?}, {:?} and {}", op, &p.0[..4 * n], &q.0[..4 * n], d(k)),
            Call::Init(x, y) => format!("init with digits {} and {}", d(x), d(y)),
        }
    }
}

/// Values that share parts of their digits with one another: a result remembered under a
/// part of the operand would be handed out for another one.
fn values(f: &dyn Field, many: bool) -> Vec<Elem> {
    let md = f.md();
    let w = f.w();
    let x = pattern(md, w, &[9, 5, 11, 9, 5, 11, 9, 5, 11, 9, 5, 11]);
    let x = if x.is_zero() { U::from(0x1234567) } else { x };
    let top = U::pow2(md.n - 3);
    let mut vs = vec![
        x,
        md.add(&x, &U::from(1)),
        md.add(&x, &top),
        md.add(&x, &U::pow2(w)),
        md.neg(&x),
        U::from(4),
        ZERO,
        U::from(1),
    ];
    if many {
        let l = (md.n + w - 1) / w;
        for i in 1..l {
            vs.push(md.add(&x, &U::pow2(i * w + 3)));
        }
        vs.push(md.neg(&U::from(1)));
        vs.push(md.mul(&x, &x));
        vs.push(md.sub(&ZERO, &md.add(&x, &top)));
    }
    let mut out: Vec<Elem> = vec![];
    for (i, v) in vs.iter().enumerate() {
        for r in reps(f, v, if i < 3 || many { &[0, 3] } else { &[0] }, &mut 0) {
            out.push(r.e);
        }
    }
    out
}

/// All calls on a field, grouped by operation.
fn field_calls(f: &dyn Field, many: bool) -> Vec<Vec<Call>> {
    let es = values(f, many);
    let mut g: Vec<Vec<Call>> = vec![];
    let bs: Vec<Elem> = es.iter().step_by(3).copied().collect();
    for op in [Op::Add(0), Op::Sub(2), Op::Mul(0), Op::And(0), Op::Or(0), Op::MaskSel(true)] {
        g.push(es.iter().flat_map(|a| bs.iter().map(move |b| Call::F(op, *a, *b))).collect());
    }
    g.push(es.iter().step_by(2).flat_map(|a| bs.iter().take(3).map(move |b| Call::F(Op::Div(0), *b, *a))).collect());
    for op in [Op::Neg, Op::Sq(0), Op::Sq(1), Op::Inv(0), Op::Inv(1), Op::Leg, Op::Norm, Op::PackMut, Op::Bit(0), Op::Bit(77)] {
        g.push(es.iter().map(|a| Call::F(op, *a, BLANK)).collect());
    }
    // square roots of squares
    g.push(
        es.iter()
            .map(|a| {
                let mut a = *a;
                f.apply(Op::Sq(0), &mut a, &mut BLANK.clone());
                Call::F(Op::Sqrt, a, BLANK)
            })
            .collect(),
    );
    for ops in [
        [Op::SAdd(7, 0), Op::SAdd(-7, 0), Op::SAdd(i32::MAX, 0)],
        [Op::SSub(7, 0), Op::SSub(-7, 0), Op::SSub(i32::MIN, 0)],
        [Op::SMul(7, 0), Op::SMul(-7, 0), Op::SMul(i32::MAX, 0)],
    ] {
        g.push(es.iter().take(8).flat_map(|a| ops.iter().map(move |op| Call::F(*op, *a, BLANK))).collect());
    }
    g.push(
        es.iter()
            .flat_map(|a| {
                let mut n = *a;
                f.apply(Op::Norm, &mut n, &mut BLANK.clone());
                let mut b = [0u8; 80];
                f.pack(a, &mut b[..f.nbytes()]);
                vec![Call::Unpack(b[..f.nbytes()].to_vec()), Call::PackNorm(n), Call::Packed(*a), Call::Hex(n, false), Call::Hex(n, true)]
            })
            .collect(),
    );
    g.push(es.iter().take(6).flat_map(|a| bs.iter().flat_map(move |b| [Call::Eq(*a, *b, true), Call::Eq(*a, *b, false)])).collect());
    g
}

fn curve_calls(c: &dyn Cv, many: bool) -> Vec<Vec<Call>> {
    let ps: Vec<p_curve::PRep> = p_curve::points(c, 2, 1, 1).iter().flat_map(|a| p_curve::preps(c, a, 1 + many as usize)).collect();
    let zero = PElem([0; 48]);
    let z = c.f().mk(&ZERO);
    let ks: Vec<Elem> = values(c.f(), false).into_iter().take(if many { 4 } else { 2 }).collect();
    let mut g = vec![];
    g.push(ps.iter().flat_map(|p| ps.iter().step_by(2).map(move |q| Call::P(POp::Add(0), p.p, q.p, z))).collect());
    for op in [POp::Dbl(0), POp::Dbl(1), POp::Tpl(0), POp::Tpl(1)] {
        g.push(ps.iter().map(|p| Call::P(op, p.p, zero, z)).collect());
    }
    g.push(ps.iter().map(|p| Call::Init(c.f().mk(&p.a.x), c.f().mk(&p.a.y))).collect());
    g.push(
        ps.iter()
            .step_by((ps.len() / if many { 3 } else { 2 }).max(1))
            .flat_map(|p| {
                ks.iter().map(move |k| {
                    let mut k = *k;
                    c.f().apply(Op::Norm, &mut k, &mut BLANK.clone());
                    Call::P(POp::Mul(1), p.p, zero, k)
                })
            })
            .collect(),
    );
    g.push(vec![Call::P(POp::Mul(0), ps[ps.len() - 1].p, zero, ks[0]), Call::P(POp::Mul(0), ps[ps.len() - 1].p, zero, ks[1])]);
    g
}

struct Base {
    deep: bool,
    on_calls: Vec<Call>,
    /// the calls made after every other
    all: usize,
    /// call numbers by operation
    groups: Vec<Vec<usize>>,
    want: Vec<Vec<i64>>,
    /// pairs of calls of one operation whose operands share all digits but one
    twins: Vec<(usize, usize)>,
}

/// The digits every call gives when it is first made (calls that panic are left out: that
/// is another check's business).
fn base(on: On, deep: bool) -> Base {
    let groups = match on.c {
        None => field_calls(on.f, deep),
        Some(c) => curve_calls(c, deep),
    };
    let mut b = Base { deep, all: 0, on_calls: vec![], groups: vec![], want: vec![], twins: vec![] };
    let put = |b: &mut Base, k: Call| {
        let mut out = vec![];
        guarded(|| on.exec(&k, &mut out)).ok()?;
        b.on_calls.push(k);
        b.want.push(out);
        Some(b.want.len() - 1)
    };
    for g in groups {
        let ids = g.into_iter().filter_map(|k| put(&mut b, k)).collect();
        b.groups.push(ids);
    }
    b.all = b.on_calls.len();
    if on.c.is_none() {
        for (x, y) in twins(on.f, deep) {
            for op in [Op::Neg, Op::Sq(0), Op::Inv(0), Op::Leg, Op::Norm, Op::PackMut, Op::Bit(0), Op::SMul(7, 0), Op::Sqrt] {
                if op == Op::Sqrt && !(square(on.f, &x) && square(on.f, &y)) {
                    continue;
                }
                if matches!(op, Op::Inv(_)) && (on.f.val(&x).is_zero() || on.f.val(&y).is_zero()) {
                    continue;
                }
                let i = put(&mut b, Call::F(op, x, BLANK));
                // something else in between, so that the second is not answered from the first
                put(&mut b, Call::F(op, on.f.mk(&U::from(4)), BLANK));
                let j = put(&mut b, Call::F(op, y, BLANK));
                if let (Some(i), Some(j)) = (i, j) {
                    b.twins.push((i, j));
                }
            }
        }
    }
    b
}

fn square(f: &dyn Field, x: &Elem) -> bool {
    f.md().jacobi(&f.val(x)) != -1
}

/// Pairs of elements in internal forms that agree in all digits but one or two or in all
/// digits up to the carry held above the top digit, but are different numbers.
fn twins(f: &dyn Field, many: bool) -> Vec<(Elem, Elem)> {
    let md = f.md();
    let w = f.w();
    let l = (md.n + w - 1) / w;
    let x = pattern(md, w, &[9, 5, 11, 9, 5, 11, 9, 5, 11, 9, 5, 11]);
    let c = U::from(md.c);
    let mut vs = vec![x, md.add(&x, &c), md.sub(&x, &c), md.add(&x, &md.add(&c, &c)), md.neg(&x)];
    let pow = |i: usize| if i < md.n { U::pow2(i) } else { U::pow2(md.n - 1) };
    for i in 0..l {
        for bit in [0, w / 2, w - 1] {
            vs.push(md.add(&x, &pow(i * w + bit)));
        }
        // the same sum and the same exclusive or of all digits
        vs.push(md.sub(&md.add(&x, &pow(i * w)), &pow((i + 1) % l * w)));
        vs.push(md.add(&md.add(&x, &pow(i * w + 1)), &pow((i + 1) % l * w + 1)));
    }
    let all: Vec<u8> = (0..N_RECIPES).collect();
    let mut es: Vec<Elem> = vec![];
    for v in dedup(vs) {
        for r in reps(f, &v, if many { &all } else { &[0, 1, 2, 3, 13, 17] }, &mut 0) {
            es.push(r.e);
        }
    }
    let mask = (1i64 << (md.n - (l - 1) * w)) - 1;
    let mut out = vec![];
    let mut seen = std::collections::HashMap::new();
    for a in &es {
        for b in &es {
            // which digits differ, and whether it is the carry only
            let mut d = 0u32;
            for i in 0..l {
                d |= ((a.0[i] != b.0[i]) as u32) << i;
            }
            let top = l - 1;
            let carry = d == 1 << top && (a.0[top] ^ b.0[top]) & mask == 0;
            let k = seen.entry((d, carry, (a.0[top] & !mask).signum(), (b.0[top] & !mask).signum())).or_insert(0);
            if d != 0 && d.count_ones() <= 2 && *k < if many { 8 } else { 2 } && f.val(a) != f.val(b) {
                *k += 1;
                out.push((*a, *b));
            }
        }
    }
    out
}

fn fp(cx: &mut Cx, on: &On, seq: &[usize]) {
    let mut h = (on.f.md().n as u64 * 31 + on.c.is_some() as u64).wrapping_mul(0x9e3779b97f4a7c15);
    for x in seq {
        h = (h ^ *x as u64).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
    }
    cx.fp(h);
}

/// Make the calls of a sequence; every one must give what it gave at first.
fn sequence(cx: &mut Cx, on: On, b: &Base, seq: &[usize], out: &mut Vec<i64>) -> Res {
    cx.traces += 1;
    fp(cx, &on, seq);
    for (i, &k) in seq.iter().enumerate() {
        cx.transitions += 1;
        let r = guarded(|| on.exec(&b.on_calls[k], out));
        if r.is_err() || !on.same(&b.on_calls[k], out, &b.want[k]) {
            let mut text = format!(
                "{}: a call does not give what it gave before: {}; before it came {}",
                on.name(),
                on.show(&b.on_calls[k]),
                if i == 0 { "other sequences".into() } else { on.show(&b.on_calls[seq[i - 1]]) }
            );
            if let Err(p) = r {
                text += &format!(" (it panicked: {})", p);
            }
            return Err(fail(on, b, &[seq.to_vec()], 0, &[], text));
        }
    }
    Ok(())
}

fn fail(on: On, b: &Base, threads: &[Vec<usize>], first: usize, sched: &[u64], text: String) -> Violation {
    let mut replay = format!("kind history\non {}\ndeep {}\nfirst {}\n", on.name(), b.deep, first);
    for (t, s) in threads.iter().enumerate() {
        for k in s {
            replay.push_str(&format!("thread {} call {}: {}\n", t, k, on.show(&b.on_calls[*k])));
        }
    }
    if threads.len() > 1 {
        replay.push_str(&format!("preempt {:?}\n", sched));
    }
    replay.push_str(&format!("# {}\n", text));
    Violation { text, replay }
}

// ------------------------------------------------------------------ scheduler

const NOBODY: usize = 9;

/// Two threads, of which one runs at a time.
struct Sched {
    turn: AtomicUsize,
    /// scheduling points passed so far
    step: AtomicU64,
    done: [AtomicBool; 2],
    preempt: Mutex<Vec<u64>>,
    /// the owner of the turn was blocked by something else than the scheduler
    stolen: AtomicU64,
    static_points: AtomicU64,
}

thread_local! {
    static AT: std::cell::Cell<(usize, *const Sched)> = const { std::cell::Cell::new((0, std::ptr::null())) };
}

impl Sched {
    fn wait(&self, me: usize) {
        let mut spins = 0u64;
        let (mut seen, mut since) = (self.step.load(SeqCst), std::time::Instant::now());
        while self.turn.load(SeqCst) != me {
            spins += 1;
            if spins < 200 {
                std::hint::spin_loop();
            } else {
                std::thread::yield_now();
            }
            if spins % 1024 == 0 {
                let now = self.step.load(SeqCst);
                if now != seen {
                    seen = now;
                    since = std::time::Instant::now();
                } else if since.elapsed().as_millis() > 10 && self.turn.load(SeqCst) == 1 - me {
                    // the other thread holds the turn but makes no step (a lock that this
                    // thread holds): go on
                    self.stolen.fetch_add(1, SeqCst);
                    self.turn.store(me, SeqCst);
                }
            }
        }
    }
    fn point(&self, me: usize) {
        if self.turn.load(SeqCst) != me {
            self.wait(me);
        }
        let n = self.step.fetch_add(1, SeqCst);
        if self.preempt.lock().unwrap().contains(&n) && !self.done[1 - me].load(SeqCst) {
            self.turn.store(1 - me, SeqCst);
            self.wait(me);
        }
    }
}

fn static_point() {
    let (me, s) = AT.with(|a| a.get());
    let s = unsafe { &*s };
    s.static_points.fetch_add(1, SeqCst);
    s.point(me);
}

/// Run the two programs under one schedule; the results, the number of scheduling points.
struct Pair {
    s: Arc<Sched>,
    go: [std::sync::mpsc::Sender<Vec<usize>>; 2],
    back: std::sync::mpsc::Receiver<(usize, Vec<(usize, Option<Vec<i64>>)>)>,
}

impl Pair {
    fn run(&self, first: usize, progs: [&[usize]; 2], preempt: &[u64]) -> ([Vec<(usize, Option<Vec<i64>>)>; 2], u64) {
        let s = &self.s;
        s.step.store(0, SeqCst);
        s.done[0].store(false, SeqCst);
        s.done[1].store(false, SeqCst);
        *s.preempt.lock().unwrap() = preempt.to_vec();
        s.turn.store(NOBODY, SeqCst);
        for i in 0..2 {
            self.go[i].send(progs[i].to_vec()).unwrap();
        }
        s.turn.store(first, SeqCst);
        let mut r = [vec![], vec![]];
        for _ in 0..2 {
            let (i, v) = self.back.recv().unwrap();
            r[i] = v;
        }
        (r, s.step.load(SeqCst))
    }
}

fn thread(me: usize, slot: usize, s: Arc<Sched>, on: On, b: &Base, rx: std::sync::mpsc::Receiver<Vec<usize>>, tx: std::sync::mpsc::Sender<(usize, Vec<(usize, Option<Vec<i64>>)>)>) {
    watch::worker(slot);
    AT.with(|a| a.set((me, Arc::as_ptr(&s))));
    while let Ok(prog) = rx.recv() {
        let mut res = vec![];
        let mut out = vec![];
        s.wait(me);
        for k in prog {
            s.point(me);
            let r = guarded(|| {
                cov::hook(Some(static_point));
                on.exec(&b.on_calls[k], &mut out);
            });
            cov::hook(None);
            res.push((k, r.ok().map(|_| out.clone())));
        }
        s.done[me].store(true, SeqCst);
        s.turn.store(1 - me, SeqCst);
        if tx.send((me, res)).is_err() {
            break;
        }
    }
}

/// Start the two threads and give them to `go`.
fn with_pair<R>(on: On, b: &Base, f: impl FnOnce(&Pair) -> R) -> R {
    let s = Arc::new(Sched {
        turn: AtomicUsize::new(NOBODY),
        step: AtomicU64::new(0),
        done: [AtomicBool::new(false), AtomicBool::new(false)],
        preempt: Mutex::new(vec![]),
        stolen: AtomicU64::new(0),
        static_points: AtomicU64::new(0),
    });
    let id = watch::my_slot();
    std::thread::scope(|sc| {
        let (tx, back) = std::sync::mpsc::channel();
        let mut go = vec![];
        for me in 0..2 {
            let (g, rx) = std::sync::mpsc::channel();
            go.push(g);
            let (s, tx) = (s.clone(), tx.clone());
            // the second thread has a slot of its own, the first uses that of this waiting thread
            let slot = if me == 0 || id >= 8 { id } else { id + 8 };
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || thread(me, slot, s, on, b, rx, tx)).unwrap();
        }
        drop(tx);
        let g1 = go.pop().unwrap();
        f(&Pair { s: s.clone(), go: [go.pop().unwrap(), g1], back })
    })
}

/// All schedules with at most `bound` preemptions of the given pairs of programs.
fn schedules(cx: &mut Cx, on: On, b: &Base, progs: &[[Vec<usize>; 2]], bound: usize) -> Res {
    with_pair(on, b, |pair| {
        let s = &pair.s;
        for p in progs {
            for first in 0..2 {
                let mut todo: Vec<Vec<u64>> = vec![vec![]];
                while let Some(pre) = todo.pop() {
                    let (r, steps) = pair.run(first, [&p[0], &p[1]], &pre);
                    cx.traces += 1;
                    cx.transitions += steps;
                    fp(cx, &on, &[p[0][0], p[0][1], p[1][0], p[1][1], first, pre.len(), pre.iter().sum::<u64>() as usize]);
                    for t in 0..2 {
                        for (k, got) in &r[t] {
                            if !got.as_ref().is_some_and(|g| on.same(&b.on_calls[*k], g, &b.want[*k])) {
                                let text = format!(
                                    "{}: with two threads, a call does not give what it gives alone: {} (starting with thread {}, switching before points {:?})",
                                    on.name(),
                                    on.show(&b.on_calls[*k]),
                                    first,
                                    pre
                                );
                                return Err(fail(on, b, &[p[0].clone(), p[1].clone()], first, &pre, text));
                            }
                        }
                    }
                    // all schedules with one preemption; with more of them where that stays feasible
                    // (and while no lock makes the switched-to thread wait for the other all the time)
                    if pre.len() < bound && (pre.is_empty() || steps < 600) && s.stolen.load(SeqCst) < 200 {
                        let from = pre.last().map(|x| x + 1).unwrap_or(1);
                        for x in from..steps {
                            let mut q = pre.clone();
                            q.push(x);
                            todo.push(q);
                        }
                    }
                }
            }
        }
        cx.note("schedules in which a lock of the code under test intervened", s.stolen.load(SeqCst));
        cx.note("accesses to writable static memory met by the scheduler", s.static_points.load(SeqCst));
        Ok(())
    })
}

// ------------------------------------------------------------------ jobs

pub fn c23<'a>(fs: &'a Fields, cs: &'a [Arc<dyn Cv>], deep: bool) -> Vec<Job<'a>> {
    let (lo, hi) = watch::memory();
    cov::ignore(lo, hi);
    let mut ons: Vec<On<'a>> = fs.iter().map(|f| On { f: f.as_ref(), c: None }).collect();
    ons.extend(cs.iter().map(|c| On { f: c.f(), c: Some(c.as_ref()) }));
    let mut jobs = vec![];
    // The schedules come first and by themselves: state shared between threads would also
    // be shared with the other jobs.
    let alone = Arc::new((Mutex::new(false), Condvar::new()));
    struct Over(Arc<(Mutex<bool>, Condvar)>);
    impl Drop for Over {
        fn drop(&mut self) {
            *self.0 .0.lock().unwrap() = true;
            self.0 .1.notify_all();
        }
    }
    let bases: Vec<Arc<OnceLock<Base>>> = ons.iter().map(|_| Arc::new(OnceLock::new())).collect();
    let get = move |on: On<'a>| base(on, deep);
    let (ons2, bases2, alone2) = (ons.clone(), bases.clone(), alone.clone());
    jobs.push(job("all schedules".into(), move |cx| {
        let _over = Over(alone2.clone());
        for (on, data) in ons2.iter().zip(bases2.iter()) {
            let on = *on;
            let b = data.get_or_init(|| get(on));
            let mut progs = vec![];
            let ng = b.groups.len();
            for (i, g) in b.groups.iter().enumerate() {
                if g.len() < 2 {
                    continue;
                }
                // the same operation on different operands in both threads, and another one
                let h = &b.groups[(i + 1) % ng];
                let last = g[g.len() - 1];
                progs.push([vec![g[0], last], vec![last, g[0]]]);
                progs.push([vec![g[g.len() / 2], g[0]], vec![last, g[g.len() / 2]]]);
                if !h.is_empty() {
                    progs.push([vec![g[0], h[0]], vec![h[h.len() - 1], last]]);
                }
            }
            schedules(cx, on, b, &progs, lv(deep, 2, 2, 3))?;
            cx.sample(format!("{}: {} pairs of two-call programs, all schedules with few preemptions", on.name(), progs.len()));
        }
        Ok(())
    }));
    for (on, data) in ons.into_iter().zip(bases) {
        let parts = 8;
        for part in 0..parts {
            let (d, alone) = (data.clone(), alone.clone());
            jobs.push(job(format!("{} sequences {}", on.name(), part), move |cx| {
                let mut go = alone.0.lock().unwrap();
                while !*go {
                    go = alone.1.wait(go).unwrap();
                }
                drop(go);
                let b = d.get_or_init(|| get(on));
                let mut out = vec![];
                let n = b.all;
                // every call after every other call
                for i in (part..n).step_by(parts) {
                    for j in 0..n {
                        sequence(cx, on, b, &[i, j], &mut out)?;
                    }
                }
                // operands that agree in part
                for &(i, j) in b.twins.iter().skip(part).step_by(parts) {
                    sequence(cx, on, b, &[i, j], &mut out)?;
                    sequence(cx, on, b, &[j, i, j], &mut out)?;
                }
                // within one operation: every sequence of three, of thinned operands
                for g in &b.groups {
                    let g: Vec<usize> = g.iter().step_by((g.len() / lv(deep, 8, 16, 32)).max(1)).copied().collect();
                    for &i in g.iter().skip(part).step_by(parts) {
                        for &j in &g {
                            for &k in &g {
                                sequence(cx, on, b, &[i, j, k], &mut out)?;
                            }
                        }
                    }
                }
                // a call made many times over
                for g in b.groups.iter() {
                    for &i in g.iter().skip(part).step_by(parts * 4) {
                        let heavy = matches!(b.on_calls[i], Call::P(POp::Mul(_), ..));
                        let many = vec![i; if heavy { lv(deep, 20, 70, 300) } else { lv(deep, 300, 1100, 5000) }];
                        sequence(cx, on, b, &many, &mut out)?;
                    }
                }
                // one call of each light operation, past every 16-bit (18-bit) counter
                for g in b.groups.iter().skip(part).step_by(parts) {
                    let Some(&i) = g.get(g.len() / 2) else { continue };
                    let light = !matches!(
                        b.on_calls[i],
                        Call::P(POp::Mul(_), ..) | Call::F(Op::Inv(_) | Op::Div(_) | Op::Leg | Op::Sqrt, ..) | Call::Hex(..)
                    );
                    if light {
                        sequence(cx, on, b, &vec![i; lv(deep, 70_000, 70_000, 300_000)], &mut out)?;
                    }
                }
                if cx.samples.is_empty() {
                    cx.sample(format!("{}: {} calls of {} operations, every one after every other", on.name(), n, b.groups.len()));
                }
                Ok(())
            }));
        }
    }
    jobs
}

/// Run the history of a counterexample again.
pub fn replay(text: &str) -> Result<String, String> {
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let (lo, hi) = watch::memory();
    cov::ignore(lo, hi);
    let fs = all();
    let cs = all_curves();
    let name = get("on ");
    let on = match cs.iter().find(|c| c.name() == name) {
        Some(c) => On { f: c.f(), c: Some(c.as_ref()) },
        None => On { f: fs.iter().find(|f| f.name() == name).expect("field").as_ref(), c: None },
    };
    let b = base(on, get("deep ") == "true");
    let progs: Vec<Vec<usize>> = (0..2)
        .map(|t| {
            let p = format!("thread {} call ", t);
            text.lines().filter_map(|l| l.strip_prefix(p.as_str())).filter_map(|l| l.split(':').next()?.parse().ok()).collect()
        })
        .collect();
    let mut cx = Cx::new(0);
    if progs[1].is_empty() {
        return sequence(&mut cx, on, &b, &progs[0], &mut vec![]).map_err(|v| v.text).map(|_| "every call gave what it gave at first".into());
    }
    let pre: Vec<u64> = get("preempt ").split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    let first = get("first ").parse().unwrap_or(0);
    with_pair(on, &b, |pair| {
        let (r, n) = pair.run(first, [&progs[0], &progs[1]], &pre);
        for (t, rs) in r.iter().enumerate() {
            for (k, got) in rs {
                if !got.as_ref().is_some_and(|g| on.same(&b.on_calls[*k], g, &b.want[*k])) {
                    return Err(format!("thread {}: {} does not give what it gives alone", t, on.show(&b.on_calls[*k])));
                }
            }
        }
        Ok(format!("{} scheduling points, every call gave what it gives alone", n))
    })
}
