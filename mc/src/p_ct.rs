//! C21: the sequence of basic blocks an operation executes does not depend on
//! its operands.  C24: nor does the sequence of memory addresses it accesses.  Built only with the instrumented crate (feature `ct`).

use crate::curve::*;
use crate::field::*;
use crate::gen::*;
use crate::machine::Step;
use crate::num::{U, ZERO};
use crate::p_curve::{self, PStep};
use crate::p_field::Fields;
use crate::run::*;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, OnceLock};

/// C24: compare the addresses instead of the blocks.
static MEM: AtomicBool = AtomicBool::new(false);
fn what() -> &'static str {
    if MEM.load(Ordering::Relaxed) {
        "memory accesses"
    } else {
        "basic blocks"
    }
}
/// Makes the frame of the recording function aligned, so that functions that align their own
/// frames further place them the same every time.
#[repr(align(256))]
struct Aligned([u8; 256]);

/// One recorded execution; None if the operation panicked (another check's business).
#[inline(never)]
fn traced(f: &dyn Field, op: Op, a: &Elem, b: &Elem) -> Option<(u64, u64)> {
    let (mut ea, mut eb) = (*a, *b);
    let n = f.nbytes();
    let mut buf = [0u8; 80];
    match op {
        Op::And(k) | Op::Or(k) if k > 0 => {
            f.apply(Op::Norm, &mut eb, &mut BLANK.clone());
            if k > 1 {
                f.apply(Op::Norm, &mut ea, &mut BLANK.clone());
            }
        }
        Op::PackNorm => {
            f.apply(Op::Norm, &mut ea, &mut eb);
        }
        Op::Reload => f.pack(a, &mut buf[..n]),
        _ => {}
    }
    let mut frame = Aligned([0; 256]);
    let base = std::hint::black_box(&mut frame).0.as_mut_ptr() as usize;
    let mem = MEM.load(Ordering::Relaxed);
    let r = guarded(|| {
        cov::start(mem, base);
        match op {
            Op::PackNorm => f.pack_normalized(&ea, &mut buf[..n]),
            Op::Packed => {
                let mut k = ea;
                f.pack(&mut k, &mut buf[..n])
            }
            Op::Reload => f.unpack_into(&mut ea, &buf[..n]),
            _ => {
                f.apply(op, &mut ea, &mut eb);
            }
        }
    });
    let t = cov::stop();
    if r.is_ok() {
        Some(t)
    } else {
        None
    }
}

fn two(op: Op) -> bool {
    matches!(op, Op::Add(_) | Op::Sub(_) | Op::Mul(_) | Op::Div(_) | Op::And(_) | Op::Or(_) | Op::MaskSel(_))
}

/// Integer operands of the small operations.
fn ints() -> Vec<i32> {
    let mut v = vec![0, 1, -1, 2, -2, 3, 7, -7, 18, 100, 127, -127, -128];
    for i in [7, 8, 14, 15, 16, 23, 24, 29, 30] {
        for d in -1..=1 {
            v.push((1i32 << i) + d);
            v.push(-((1i32 << i) + d));
        }
    }
    v.extend([i32::MAX, i32::MIN, i32::MIN + 1, 376014, -376014]);
    v.sort();
    v.dedup();
    v
}

/// Compare the trace of one case with the first case of the same operation.
fn same(
    cx: &mut Cx,
    f: &dyn Field,
    first: &mut Option<(Op, Rep, Option<Rep>, (u64, u64))>,
    op: Op,
    a: &Rep,
    b: Option<&Rep>,
) -> Res {
    let be = b.map(|b| b.e).unwrap_or(BLANK);
    let t = match traced(f, op, &a.e, &be) {
        Some(t) => t,
        None => {
            cx.out_of_domain += 1;
            return Ok(());
        }
    };
    cx.transitions += 1;
    cx.traces += 1;
    cx.note(if MEM.load(Ordering::Relaxed) { "memory_accesses_recorded" } else { "basic_blocks_executed" }, t.1);
    cx.state(f, &a.e, &be);
    match first {
        None => {
            if t.1 == 0 {
                panic!("the crate under test is not instrumented");
            }
            if cx.samples.is_empty() {
                cx.sample(format!("{} {:?}: the same {} {} for every operand", f.name(), op, t.1, what()));
            }
            *first = Some((op, *a, b.copied(), t));
            Ok(())
        }
        Some((_, _, _, t0)) if *t0 == t => Ok(()),
        Some((op0, a0, b0, t0)) => {
            let (tb, tb0) = (be, b0.map(|b| b.e).unwrap_or(BLANK));
            // the recorder itself must be deterministic on this very case
            if traced(f, op, &a.e, &tb) != Some(t) || traced(f, *op0, &a0.e, &tb0) != Some(*t0) {
                panic!("the recording is not repeatable");
            }
            let text = format!(
                "{}: {:?} executes {} {} for one operand and {} (or others) for another",
                f.name(),
                op,
                t0.1,
                what(),
                t.1
            );
            let mut replay = format!("kind trace {}\nfield {}\n", what(), f.name());
            let mut put = |a: &Rep, b: Option<&Rep>, op: Op| {
                let mut s = place(f.md(), a, 0, b.map(|b| (b, 1)));
                s.push(Step::Do(op, 0, 1));
                for x in s {
                    replay.push_str(&format!("{:?}\n", x));
                }
                replay.push_str("---\n");
            };
            put(a0, b0.as_ref(), *op0);
            put(a, b, op);
            replay.push_str(&format!("# {}\n", text));
            Err(Violation { text, replay })
        }
    }
}

/// The operands: boundary values and digit patterns, each in every representation.
fn prepared(f: &dyn Field, deep: bool) -> Vec<Vec<Rep>> {
    let md = f.md();
    let mut vals = edge(md, f.w(), 6, if deep { 1 } else { 6 });
    vals.extend(patterns(md, f.w(), &[0, 1]).into_iter().take(if deep { 2048 } else { 128 }));
    dedup(vals).iter().map(|v| reps(f, v, &ALL_RECIPES, &mut 0)).collect()
}

pub fn c21<'a>(fs: &'a Fields, cs: &'a [Arc<dyn Cv>], deep: bool) -> Vec<Job<'a>> {
    let mut jobs = vec![];
    for f in fs.iter() {
        let f: &'a dyn Field = f.as_ref();
        let data: Arc<OnceLock<Vec<Vec<Rep>>>> = Arc::new(OnceLock::new());
        let mut groups: Vec<Vec<Op>> = vec![];
        for k in 0..BIN_FORMS {
            for op in [Op::Add(k), Op::Sub(k), Op::Mul(k), Op::Div(k)] {
                groups.push(vec![op]);
            }
        }
        for op in [
            Op::Neg,
            Op::Sq(0),
            Op::Sq(1),
            Op::Inv(0),
            Op::Inv(1),
            Op::Leg,
            Op::Sqrt,
            Op::Norm,
            Op::PackMut,
            Op::PackNorm,
            Op::Packed,
            Op::Reload,
            Op::And(0),
            Op::And(1),
            Op::And(2),
            Op::Or(0),
            Op::Or(1),
            Op::Or(2),
        ] {
            groups.push(vec![op]);
        }
        // a mask made from a secret bit: both values belong to one operation
        groups.push(vec![Op::MaskSel(true), Op::MaskSel(false)]);
        for k in 0..4 {
            groups.push(vec![Op::MaskAnd(true, k), Op::MaskAnd(false, k)]);
            groups.push(vec![Op::MaskOr(k)]);
        }
        for i in 0..f.md().n as u16 {
            groups.push(vec![Op::Bit(i)]);
        }
        for (n, mk) in [
            (SADD_FORMS, Op::SAdd as fn(i32, u8) -> Op),
            (SSUB_FORMS, Op::SSub as fn(i32, u8) -> Op),
            (SMUL_FORMS, Op::SMul as fn(i32, u8) -> Op),
        ] {
            for form in 0..n {
                groups.push(ints().into_iter().filter(|k| form_fits(*k, form)).map(|k| mk(k, form)).collect());
            }
        }
        for ops in groups {
            let heavy = matches!(ops[0], Op::Div(_) | Op::Inv(_) | Op::Leg | Op::Sqrt);
            let data = data.clone();
            jobs.push(job(format!("{} {:?} control flow", f.name(), ops[0]), move |cx| {
                let many = ops.len() > 1 || matches!(ops[0], Op::Bit(_));
                let thin = match (deep, heavy, many) {
                    (true, true, _) => 4,
                    (true, _, _) => 1,
                    (false, true, _) => 24,
                    (false, _, true) => 24,
                    _ => 1,
                };
                let rs: Vec<Rep> = data
                    .get_or_init(|| prepared(f, deep))
                    .iter()
                    .enumerate()
                    .filter(|(i, _)| *i < 12 || i % thin == 0)
                    .flat_map(|(_, r)| r.iter().copied())
                    .collect();
                let bs: Vec<Rep> = if !two(ops[0]) {
                    vec![]
                } else if heavy {
                    rs.iter().step_by((rs.len() / 12).max(1)).cloned().collect()
                } else {
                    rs.iter().step_by((rs.len() / if deep { 200 } else { 30 }).max(1)).cloned().collect()
                };
                let mut first = None;
                for op in &ops {
                    for a in &rs {
                        if bs.is_empty() {
                            same(cx, f, &mut first, *op, a, None)?;
                        }
                        for b in &bs {
                            same(cx, f, &mut first, *op, a, Some(b))?;
                        }
                        if two(*op) {
                            // equal operands
                            same(cx, f, &mut first, *op, a, Some(a))?;
                        }
                    }
                }
                Ok(())
            }));
        }
    }
    for c in cs {
        let c: &'a dyn Cv = c.as_ref();
        for op in [POp::Add(0), POp::Add(1), POp::Add(2), POp::Add(3), POp::Dbl(0), POp::Dbl(1), POp::Tpl(0), POp::Tpl(1)] {
            jobs.push(job(format!("{} {:?} control flow", c.name(), op), move |cx| {
                let ps: Vec<p_curve::PRep> =
                    p_curve::points(c, 6, 6, 4).iter().flat_map(|a| p_curve::preps(c, a, if deep { 12 } else { 6 })).collect();
                let k = c.f().mk(&ZERO);
                let mut first = None;
                for x in &ps {
                    if let POp::Add(_) = op {
                        for y in &ps {
                            psame(cx, c, &mut first, op, x, Some(y), (&ZERO, 0, &k))?;
                        }
                    } else {
                        psame(cx, c, &mut first, op, x, None, (&ZERO, 0, &k))?;
                    }
                }
                Ok(())
            }));
        }
        for form in 0..2u8 {
            let ks = p_curve::scalars(c, deep);
            let chunk = (ks.len() + 7) / 8;
            for (i, part) in ks.chunks(chunk).enumerate() {
                // every part starts from the same scalar, so that all parts are compared
                let mut part = part.to_vec();
                part.insert(0, ks[0]);
                jobs.push(job(format!("{} Mul({}) control flow {}", c.name(), form, i), move |cx| {
                    let ps: Vec<p_curve::PRep> =
                        p_curve::points(c, 3, 2, 2).iter().flat_map(|a| p_curve::preps(c, a, 1 + deep as usize)).collect();
                    let mut first = None;
                    for (i, k) in part.iter().enumerate() {
                        let hs: &[u8] = if form == 1 { &[0] } else { &[0, 1, 3, 22, 23, 20] };
                        for (j, h) in hs.iter().enumerate() {
                            let e = match p_curve::scalar_rep(c, k, *h) {
                                Some(e) => e,
                                None => continue,
                            };
                            // small scalars with all points, the others with rotating ones
                            let take = if k.bits() <= 3 { ps.len() } else if deep { 8 } else { 2 };
                            for n in 0..take {
                                let x = &ps[(2 * (i + j) + n) % ps.len()];
                                psame(cx, c, &mut first, POp::Mul(form), x, None, (k, *h, &e))?;
                            }
                        }
                    }
                    Ok(())
                }));
            }
        }
    }
    jobs
}

#[inline(never)]
fn ptraced(c: &dyn Cv, op: POp, p: &PElem, q: &PElem, k: &Elem) -> Option<(u64, u64)> {
    let (mut p, mut q, mut k) = (*p, *q, *k);
    let mut frame = Aligned([0; 256]);
    let base = std::hint::black_box(&mut frame).0.as_mut_ptr() as usize;
    let mem = MEM.load(Ordering::Relaxed);
    let r = guarded(|| {
        cov::start(mem, base);
        c.apply(op, &mut p, &mut q, &mut k);
    });
    let t = cov::stop();
    if r.is_ok() {
        Some(t)
    } else {
        None
    }
}

type PCase = (p_curve::PRep, Option<p_curve::PRep>, (U, u8, Elem), (u64, u64));

fn psame(
    cx: &mut Cx,
    c: &dyn Cv,
    first: &mut Option<PCase>,
    op: POp,
    x: &p_curve::PRep,
    y: Option<&p_curve::PRep>,
    k: (&U, u8, &Elem),
) -> Res {
    let q = y.map(|y| y.p).unwrap_or(PElem([0; 48]));
    let t = match ptraced(c, op, &x.p, &q, k.2) {
        Some(t) => t,
        None => {
            cx.out_of_domain += 1;
            return Ok(());
        }
    };
    cx.transitions += 1;
    cx.traces += 1;
    cx.note(if MEM.load(Ordering::Relaxed) { "memory_accesses_recorded" } else { "basic_blocks_executed" }, t.1);
    p_curve::pstate(cx, c, &x.p, if let POp::Mul(_) = op { &x.p } else { &q });
    match first {
        None => {
            if t.1 == 0 {
                panic!("the crate under test is not instrumented");
            }
            if cx.samples.is_empty() {
                cx.sample(format!("{} {:?}: the same {} {} for every operand", c.name(), op, t.1, what()));
            }
            *first = Some((x.clone(), y.cloned(), (*k.0, k.1, *k.2), t));
            Ok(())
        }
        Some(f0) if f0.3 == t => Ok(()),
        Some((x0, y0, k0, t0)) => {
            let q0 = y0.as_ref().map(|y| y.p).unwrap_or(PElem([0; 48]));
            if ptraced(c, op, &x.p, &q, k.2) != Some(t) || ptraced(c, op, &x0.p, &q0, &k0.2) != Some(*t0) {
                panic!("the recording is not repeatable");
            }
            let text = format!(
                "{}: {:?} executes {} {} for one operand and {} (or others) for another",
                c.name(),
                op,
                t0.1,
                what(),
                t.1
            );
            let mut replay = format!("kind trace {}\ncurve {}\n", what(), c.name());
            let mut put = |x: &p_curve::PRep, y: Option<&p_curve::PRep>, k: (&U, u8)| {
                let mut s = match y {
                    Some(y) => p_curve::place2(x, y),
                    None => x.steps.clone(),
                };
                if let POp::Mul(_) = op {
                    s.push(PStep::K(*k.0, k.1));
                }
                s.push(PStep::Do(op, 0, 1));
                for z in s {
                    replay.push_str(&format!("{:?}\n", z));
                }
                replay.push_str("---\n");
            };
            put(x0, y0.as_ref(), (&k0.0, k0.1));
            put(x, y, (k.0, k.1));
            replay.push_str(&format!("# {}\n", text));
            Err(Violation { text, replay })
        }
    }
}

/// The same cases, comparing the addresses they access.
pub fn c24<'a>(fs: &'a Fields, cs: &'a [Arc<dyn Cv>], deep: bool) -> Vec<Job<'a>> {
    MEM.store(true, Ordering::Relaxed);
    c21(fs, cs, deep)
}

/// Re-run the two cases of a counterexample and compare what was recorded.
pub fn replay(text: &str) -> Result<String, String> {
    MEM.store(text.contains("kind trace memory"), Ordering::Relaxed);
    let mut traces = vec![];
    let (mut fname, mut cname) = ("", "");
    let (mut steps, mut psteps) = (vec![], vec![]);
    for l in text.lines() {
        if let Some(n) = l.strip_prefix("field ") {
            fname = n.trim();
        } else if let Some(n) = l.strip_prefix("curve ") {
            cname = n.trim();
        } else if let Some(s) = crate::machine::parse_step(l) {
            steps.push(s);
        } else if let Some(s) = p_curve::parse_pstep(l) {
            psteps.push(s);
        } else if l == "---" {
            if let Some(Step::Do(op, a, b)) = steps.pop() {
                let fs = all();
                let f = fs.iter().find(|f| f.name() == fname).expect("field").as_ref();
                let m = crate::machine::run(f, &steps).map_err(|(i, e)| format!("step {}: {}", i, e))?;
                traces.push(traced(f, op, &m.e[a as usize], &m.e[b as usize]));
            } else if let Some(PStep::Do(op, a, b)) = psteps.pop() {
                let cs = all_curves();
                let c = cs.iter().find(|c| c.name() == cname).expect("curve").as_ref();
                let m = p_curve::run_points(c, &psteps).map_err(|(i, e)| format!("step {}: {}", i, e))?;
                traces.push(ptraced(c, op, &m.p[a as usize], &m.p[b as usize], &m.k));
            }
            steps.clear();
            psteps.clear();
        }
    }
    if traces.len() == 2 && traces[0] != traces[1] {
        return Err(format!("{} differ: {:?} and {:?} (hash, length)", what(), traces[0], traces[1]));
    }
    Ok(format!("{:?}", traces))
}
