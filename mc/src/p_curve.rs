//! C13..C17, C20 on the real curves: register machine over points.

use crate::curve::*;
use crate::field::{Elem, Field, Op, BLANK};
use crate::gen::{edge, pattern, patterns, recipe, reps, ALL_RECIPES};
use crate::machine::{run as run_field, Step};
use crate::num::{Md, U, ZERO};
use crate::p_field::Fields;
use crate::run::*;
use std::fmt;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq)]
pub enum PStep {
    /// register := init(x, y), coordinates in the representations of two recipes
    Init(u8, Aff, u8, u8),
    /// register := (lx : ly : l : lxy), every coordinate in the representation of a recipe
    Inject(u8, Aff, U, u8),
    /// scalar := value, in the representation of a recipe
    K(U, u8),
    Do(POp, u8, u8),
}

impl fmt::Debug for PStep {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            PStep::Init(r, p, a, b) => write!(f, "pinit {} {} {} {} {}", r, p.x.hex(), p.y.hex(), a, b),
            PStep::Inject(r, p, l, h) => write!(f, "pinject {} {} {} {} {}", r, p.x.hex(), p.y.hex(), l.hex(), h),
            PStep::K(v, h) => write!(f, "pscalar {} {}", v.hex(), h),
            PStep::Do(op, a, b) => write!(f, "pop {:?} {} {}", op, a, b),
        }
    }
}

pub fn parse_pstep(s: &str) -> Option<PStep> {
    let w: Vec<&str> = s.split_whitespace().collect();
    let n = |x: &str| x.parse::<u8>().ok();
    Some(match w.as_slice() {
        ["pinit", r, x, y, a, b] => PStep::Init(n(r)?, Aff { x: U::from_hex(x), y: U::from_hex(y) }, n(a)?, n(b)?),
        ["pinject", r, x, y, l, h] => PStep::Inject(n(r)?, Aff { x: U::from_hex(x), y: U::from_hex(y) }, U::from_hex(l), n(h)?),
        ["pscalar", v, h] => PStep::K(U::from_hex(v), n(h)?),
        ["pop", o, a, b] => {
            let (name, k) = match o.find('(') {
                Some(i) => (&o[..i], o[i + 1..o.len() - 1].parse().ok()?),
                None => (*o, 0),
            };
            let op = match name {
                "Add" => POp::Add(k),
                "Dbl" => POp::Dbl(k),
                "Tpl" => POp::Tpl(k),
                "Mul" => POp::Mul(k),
                "Zero" => POp::Zero,
                "Reinit" => POp::Reinit,
                "Swap" => POp::Swap,
                "Dup" => POp::Dup,
                _ => return None,
            };
            PStep::Do(op, n(a)?, n(b)?)
        }
        _ => return None,
    })
}

#[derive(Clone, Copy)]
pub struct PMachine {
    pub p: [PElem; 4],
    pub a: [Aff; 4],
    pub k: Elem,
    pub kv: U,
}

/// field element v in the representation of recipe h (plain if the recipe does
/// not apply or is itself broken)
fn elem(f: &dyn Field, v: &U, h: u8) -> Elem {
    if h != 0 {
        if let Some(s) = recipe(f.md(), h, v) {
            if let Ok(m) = run_field(f, &s) {
                if m.v[0] == *v {
                    return m.e[0];
                }
            }
        }
    }
    f.mk(v)
}

fn inject(c: &dyn Cv, p: &Aff, l: &U, h: u8) -> PElem {
    let md = c.f().md();
    let v = [md.mul(l, &p.x), md.mul(l, &p.y), *l, md.mul(l, &md.mul(&p.x, &p.y))];
    let mut s = [BLANK; 4];
    for i in 0..4 {
        s[c.order()[i]] = elem(c.f(), &v[i], h);
    }
    c.from_slots(&s)
}

/// Does the real point stand for the affine point a, with all its invariants?
pub fn judge(c: &dyn Cv, p: &PElem, a: &Aff) -> Result<(), String> {
    let md = c.f().md();
    let [x, y, z, t] = c.coords(p);
    let show = || format!("({} : {} : {} : {})", x.hex(), y.hex(), z.hex(), t.hex());
    if z.is_zero() {
        return Err(format!("Z = 0 in {}", show()));
    }
    if x != md.mul(&a.x, &z) || y != md.mul(&a.y, &z) {
        return Err(format!("{} is not the point ({}, {})", show(), a.x.hex(), a.y.hex()));
    }
    if md.mul(&t, &z) != md.mul(&x, &y) {
        return Err(format!("X*Y != Z*T in {}", show()));
    }
    Ok(())
}

impl PMachine {
    pub fn new(c: &dyn Cv) -> PMachine {
        PMachine { p: [inject(c, &NEUTRAL, &U::from(1), 0); 4], a: [NEUTRAL; 4], k: c.f().mk(&ZERO), kv: ZERO }
    }
    pub fn step(&mut self, c: &dyn Cv, m: &Model, s: &PStep) -> Result<(), String> {
        let f = c.f();
        match *s {
            PStep::Init(r, a, h1, h2) => {
                let r = r as usize;
                let (ex, ey) = (elem(f, &a.x, h1), elem(f, &a.y, h2));
                c.init(&mut self.p[r], &ex, &ey);
                self.a[r] = a;
                judge(c, &self.p[r], &a)
            }
            PStep::Inject(r, a, l, h) => {
                self.p[r as usize] = inject(c, &a, &l, h);
                self.a[r as usize] = a;
                Ok(())
            }
            PStep::K(v, h) => {
                self.kv = v;
                self.k = elem(f, &v, h);
                Ok(())
            }
            PStep::Do(op, ra, rb) => {
                let (ra, rb) = (ra as usize, rb as usize);
                let (mut p, mut q) = (self.p[ra], self.p[rb]);
                let mut k = self.k;
                let (mut a, mut b) = (self.a[ra], self.a[rb]);
                match op {
                    POp::Add(_) => a = m.add(&a, &b),
                    POp::Dbl(_) => a = m.add(&a, &a),
                    POp::Tpl(_) => a = m.add(&a, &m.add(&a, &a)),
                    POp::Mul(_) => a = m.mul(&self.kv, &a),
                    POp::Zero => a = NEUTRAL,
                    POp::Reinit => {
                        let (ex, ey) = (f.mk(&a.x), f.mk(&a.y));
                        c.init(&mut p, &ex, &ey);
                    }
                    POp::Swap => std::mem::swap(&mut a, &mut b),
                    POp::Dup => b = a,
                }
                if let POp::Mul(1) = op {
                    let mut t = BLANK;
                    f.apply(Op::Norm, &mut k, &mut t);
                }
                c.apply(op, &mut p, &mut q, &mut k);
                if f.val(&k) != self.kv {
                    return Err("the scalar changed its value".into());
                }
                if ra != rb {
                    judge(c, &q, &b).map_err(|e| format!("second operand: {}", e))?;
                    self.p[rb] = q;
                    self.a[rb] = b;
                }
                self.p[ra] = p;
                self.a[ra] = a;
                self.k = k;
                judge(c, &p, &a)
            }
        }
    }
}

pub fn run_points(c: &dyn Cv, steps: &[PStep]) -> Result<PMachine, (usize, String)> {
    let m = model(c);
    let mut s = PMachine::new(c);
    for (i, st) in steps.iter().enumerate() {
        let mut k = s;
        match guarded(|| k.step(c, &m, st)) {
            Ok(Ok(())) => s = k,
            Ok(Err(e)) => return Err((i, e)),
            Err(p) => return Err((i, format!("panic: {}", p))),
        }
    }
    Ok(s)
}

pub fn model(c: &dyn Cv) -> Model {
    let md: Md = *c.f().md();
    Model { md, d: md.small(c.params().d) }
}

pub fn pviolation(c: &dyn Cv, steps: &[PStep], text: &str) -> Violation {
    let mut replay = format!("kind curve\ncurve {}\n", c.name());
    for s in steps {
        replay.push_str(&format!("{:?}\n", s));
    }
    let msg = match run_points(c, steps) {
        Err((i, e)) => format!("{}: step {} `{:?}`: {}", c.name(), i, steps[i], e),
        Ok(_) => format!("{}: {}", c.name(), text),
    };
    replay.push_str(&format!("# {}\n# {}\n", text, msg));
    Violation { text: msg, replay }
}

#[derive(Clone)]
pub struct PRep {
    pub a: Aff,
    pub p: PElem,
    pub steps: Vec<PStep>, // leave it in register 0, using 1 and 2 as scratch
}

/// Small-order points.
pub fn torsion(c: &dyn Cv) -> Vec<Aff> {
    let m = model(c);
    let md = &m.md;
    let one = U::from(1);
    let mut v = vec![NEUTRAL, Aff { x: ZERO, y: md.neg(&one) }, Aff { x: one, y: ZERO }, Aff { x: md.neg(&one), y: ZERO }];
    // points of order 8: x^2 = y^2 = (1 +- sqrt(1-d))/d
    if let Some(s) = crate::p_field::root(c.f(), &md.sub(&one, &m.d)) {
        for s in [s, md.neg(&s)] {
            let xx = md.mul(&md.add(&one, &s), &md.inv(&m.d));
            if let Some(x) = crate::p_field::root(c.f(), &xx) {
                for x2 in [x, md.neg(&x)] {
                    for y in [x, md.neg(&x)] {
                        v.push(Aff { x: x2, y });
                    }
                }
            }
        }
    }
    for p in v.iter() {
        assert!(m.on(p));
    }
    v
}

pub fn base(c: &dyn Cv) -> Aff {
    let p = c.params();
    Aff { x: U::from_hex(p.base_x), y: U::from_hex(p.base_y) }
}

/// Points: torsion, small multiples of the base, lifts of small and large y,
/// and sums of these with torsion points.
pub fn points(c: &dyn Cv, nmul: u64, nlift: u64, npow: usize) -> Vec<Aff> {
    let m = model(c);
    let md = &m.md;
    let tors = torsion(c);
    let b = base(c);
    let mut v = tors.clone();
    let mut acc = b;
    for _ in 0..nmul {
        v.push(acc);
        v.push(m.neg(&acc));
        acc = m.add(&acc, &b);
    }
    for y in 2..2 + nlift {
        for y in [U::from(y), md.neg(&U::from(y))] {
            if let Some(p) = m.lift(c.f(), &y) {
                v.push(p);
                v.push(m.neg(&p));
            }
        }
    }
    let mut acc = b;
    for _ in 0..npow {
        for _ in 0..(md.n / (npow + 1)) {
            acc = m.add(&acc, &acc);
        }
        v.push(acc);
    }
    let some: Vec<Aff> = v[tors.len()..].iter().step_by(5).copied().collect();
    for p in some {
        for t in tors[1..].iter() {
            v.push(m.add(&p, t));
        }
    }
    let mut out: Vec<Aff> = vec![];
    for p in v {
        assert!(m.on(&p));
        if !out.contains(&p) {
            out.push(p);
        }
    }
    out
}

/// The representations of one point: how it was come by.
pub fn preps(c: &dyn Cv, a: &Aff, n: usize) -> Vec<PRep> {
    use PStep::*;
    let m = model(c);
    let md = &m.md;
    let b = base(c);
    let one = U::from(1);
    // a long scaling factor (every digit maximal), never 0
    let long = match pattern(md, c.f().w(), &[1; 16]) {
        l if l.is_zero() => md.neg(&U::pow2(md.n / 2)),
        l => l,
    };
    let mut progs: Vec<Vec<PStep>> = vec![
        vec![Init(0, *a, 0, 0)],
        vec![Inject(0, *a, md.neg(&one), 0)],
        vec![Init(1, b, 0, 0), Init(0, m.add(a, &m.neg(&b)), 0, 0), Do(POp::Add(0), 0, 1)],
        vec![Init(0, *a, 1, 3)],
        vec![Inject(0, *a, md.inv(&U::from(3)), 1)],
        vec![Inject(0, *a, long, 3)],
        vec![Init(0, *a, 3, 1), Do(POp::Zero, 1, 2), Do(POp::Add(0), 0, 1)],
        vec![Inject(0, *a, U::pow2(md.n - 1), 20)],
        vec![Inject(0, *a, md.neg(&U::from(2)), 8)],
    ];
    // doubled from half: if a = 2h is known only for some points, use the odd order
    if n > 9 {
        // a = 2*(a - B) - (a - 2B)
        let h = m.add(a, &m.neg(&b));
        let r = m.neg(&m.add(a, &m.neg(&m.add(&b, &b))));
        progs.push(vec![Init(0, h, 0, 0), Do(POp::Dbl(0), 0, 1), Init(1, r, 0, 0), Do(POp::Add(0), 0, 1)]);
    }
    if *a == NEUTRAL {
        progs.push(vec![Do(POp::Zero, 0, 1)]);
        progs.push(vec![Init(0, b, 0, 0), Init(1, m.neg(&b), 0, 0), Do(POp::Add(0), 0, 1)]);
    }
    let mut out = vec![];
    for s in progs.into_iter().take(if *a == NEUTRAL { 99 } else { n }) {
        if let Ok(st) = run_points(c, &s) {
            if st.a[0] == *a {
                out.push(PRep { a: *a, p: st.p[0], steps: s });
            }
        }
    }
    if out.is_empty() {
        // even plain initialization looks wrong: check it all the same
        if let Ok(p) = guarded(|| inject(c, a, &one, 0)) {
            out.push(PRep { a: *a, p, steps: vec![Inject(0, *a, one, 0)] });
        }
    }
    out
}

pub fn pstate(cx: &mut Cx, c: &dyn Cv, p: &PElem, q: &PElem) {
    let mut h = c.f().md().n as u64;
    for x in p.0.iter().chain(q.0.iter()) {
        h = (h ^ *x as u64).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
    }
    cx.fp(h);
}

pub fn place2(x: &PRep, y: &PRep) -> Vec<PStep> {
    let mut s = x.steps.clone();
    s.push(PStep::Do(POp::Swap, 0, 3));
    s.extend(y.steps.iter().copied());
    s.push(PStep::Do(POp::Swap, 0, 1));
    s.push(PStep::Do(POp::Swap, 0, 3));
    s
}

/// One point operation on prepared representations.
fn pcase(cx: &mut Cx, c: &dyn Cv, op: POp, x: &PRep, y: Option<&PRep>, k: Option<(&U, u8, &Elem)>, want: &Aff) -> Res {
    let mut p = x.p;
    let mut q = y.map(|y| y.p).unwrap_or(x.p);
    let q0 = q;
    let mut ke = k.map(|k| *k.2).unwrap_or(BLANK);
    let r = guarded(|| {
        c.apply(op, &mut p, &mut q, &mut ke);
        judge(c, &p, want)
    });
    cx.transitions += 1;
    cx.traces += 1;
    pstate(cx, c, &x.p, &q0);
    let mut err = match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(p) => Some(format!("panic: {}", p)),
    };
    if err.is_none() && q.0 != q0.0 {
        err = Some("the second operand was modified".into());
    }
    if err.is_none() {
        if let Some((v, _, _)) = k {
            if c.f().val(&ke) != *v {
                err = Some("the scalar changed its value".into());
            }
        }
    }
    if let Some(e) = err {
        let mut s = match y {
            Some(y) => place2(x, y),
            None => x.steps.clone(),
        };
        if let Some((v, h, _)) = k {
            s.push(PStep::K(*v, h));
        }
        s.push(PStep::Do(op, 0, 1));
        return Err(pviolation(c, &s, &format!("{:?}: {}", op, e)));
    }
    if cx.samples.is_empty() {
        cx.sample(format!("{} {:?} after {:?} -> ({}, {})", c.name(), op, x.steps, want.x.hex(), want.y.hex()));
    }
    Ok(())
}

fn d_ok(c: &dyn Cv) -> Res {
    // the curve parameter the generic code is given
    let m = model(c);
    if c.d() != m.d {
        return Err(Violation {
            text: format!("{}: d_val() is {} instead of {}", c.name(), c.d().hex(), m.d.hex()),
            replay: format!("kind curve\ncurve {}\n# d_val() is {}\n", c.name(), c.d().hex()),
        });
    }
    Ok(())
}

// ------------------------------------------------------------------ C14
pub fn c14<'a>(cs: &'a [Arc<dyn Cv>], deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for c in cs.iter() {
        let c: &dyn Cv = c.as_ref();
        let chunks = lv(deep, 16, 32, 128);
        let data: Arc<std::sync::OnceLock<Vec<Vec<PRep>>>> = Arc::new(std::sync::OnceLock::new());
        for k in 0..chunks {
            let data = data.clone();
            out.push(job(format!("all pairs {} {}/{}", c.name(), k, chunks), move |cx| {
                let m = model(c);
                let g = data.get_or_init(|| {
                    let pts = {
                    let n: (u64, u64, usize) = lv(deep, (8, 10, 3), (30, 40, 12), (120, 130, 30));
                    points(c, n.0, n.1, n.2)
                };
                    pts.iter().map(|a| preps(c, a, if deep { 10 } else { 6 })).collect()
                });
                for i in 0..g.len() {
                    if i % chunks != k {
                        continue;
                    }
                    for j in 0..g.len() {
                        if g[i].is_empty() || g[j].is_empty() {
                            continue;
                        }
                        let want = m.add(&g[i][0].a, &g[j][0].a);
                        for (xi, x) in g[i].iter().enumerate() {
                            for (yi, y) in g[j].iter().enumerate() {
                                let form = ((xi + yi) % 4) as u8;
                                pcase(cx, c, POp::Add(form), x, Some(y), None, &want)?;
                                if xi + yi == 0 {
                                    for form in 1..4 {
                                        pcase(cx, c, POp::Add(form), x, Some(y), None, &want)?;
                                    }
                                }
                            }
                        }
                    }
                }
                Ok(())
            }));
        }
    }
    out
}

// ------------------------------------------------------------------ C15
pub fn c15<'a>(cs: &'a [Arc<dyn Cv>], deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for c in cs.iter() {
        let c: &dyn Cv = c.as_ref();
        let chunks = lv(deep, 8, 32, 128);
        let data: Arc<std::sync::OnceLock<Vec<Aff>>> = Arc::new(std::sync::OnceLock::new());
        for k in 0..chunks {
            let data = data.clone();
            out.push(job(format!("double and triple {} {}/{}", c.name(), k, chunks), move |cx| {
                let m = model(c);
                let pts = data.get_or_init(|| {
                    let n: (u64, u64, usize) = lv(deep, (100, 60, 12), (1000, 600, 40), (6000, 4000, 100));
                    points(c, n.0, n.1, n.2)
                });
                for (i, a) in pts.iter().enumerate() {
                    if i % chunks != k {
                        continue;
                    }
                    let two = m.add(a, a);
                    let three = m.add(&two, a);
                    for x in preps(c, a, 10) {
                        for f in 0..2 {
                            pcase(cx, c, POp::Dbl(f), &x, None, None, &two)?;
                            pcase(cx, c, POp::Tpl(f), &x, None, None, &three)?;
                        }
                    }
                }
                Ok(())
            }));
        }
    }
    out
}

/// scalar v in the representation of recipe h
pub fn scalar_rep(c: &dyn Cv, v: &U, h: u8) -> Option<Elem> {
    reps(c.f(), v, &[h], &mut 0).first().map(|r| r.e)
}

// ------------------------------------------------------------------ C16
pub fn scalars(c: &dyn Cv, deep: bool) -> Vec<U> {
    let md = c.f().md();
    let ord = U::from_hex(c.params().order);
    let mut v = vec![];
    let one = U::from(1);
    for k in 0..(if deep { 300 } else { 20 }) {
        v.push(U::from(k));
        v.push(md.neg(&U::from(k)));
    }
    for k in 0..(if deep { 20 } else { 4 }) {
        v.push(ord.plus(&U::from(k)));
        v.push(ord.minus(&U::from(k)));
    }
    let mut mult = ord;
    for _ in 1..c.params().cofactor {
        v.push(mult);
        mult = mult.plus(&ord);
        if mult.ge(&md.p) {
            break;
        }
        v.push(mult.minus(&one));
        v.push(mult.plus(&one));
    }
    for i in 0..md.n {
        v.push(U::pow2(i));
        if deep || i % 4 == 0 {
            v.push(U::pow2(i).minus(&one));
            v.push(U::pow2(i).plus(&one));
            v.push(md.neg(&U::pow2(i)));
        }
    }
    for pat in [0x55u8, 0xaa, 0x33, 0x0f, 0xf0, 0x01, 0x80, 0x7e] {
        v.push(md.red(&U::from_bytes(&[pat; 80]).low(md.n)));
    }
    let w = c.f().w();
    let pats = patterns(md, w, &[0, 1]);
    let st = if deep { 1.max(pats.len() / 256) } else { 1.max(pats.len() / 16) };
    v.extend(pats.into_iter().step_by(st));
    if deep {
        v.extend(edge(md, w, 4, 1000));
    }
    let v: Vec<U> = v.into_iter().filter(|x| x.lt(&md.p)).collect();
    crate::gen::dedup(v)
}

pub fn c16<'a>(cs: &'a [Arc<dyn Cv>], deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for c in cs.iter() {
        let c: &dyn Cv = c.as_ref();
        let chunks = if deep { 40 } else { 16 };
        for k in 0..chunks {
            out.push(job(format!("multiples of the base point {} {}/{}", c.name(), k, chunks), move |cx| {
                let m = model(c);
                let b = base(c);
                let xs = preps(c, &b, 6);
                let t = torsion(c);
                let mut other: Vec<PRep> = vec![];
                for a in [t[0], t[1], t[2], t[3], m.add(&b, &t[2])].iter().chain(t[4..].iter().take(2)) {
                    other.extend(preps(c, a, 3).into_iter().skip(0));
                }
                let lift = points(c, 0, 3, 0);
                for a in lift[t.len()..].iter().take(if deep { 6 } else { 2 }) {
                    other.extend(preps(c, a, 2));
                }
                let mut sk = 0;
                let ord = U::from_hex(c.params().order);
                for (i, s) in scalars(c, deep).iter().enumerate() {
                    if i % chunks != k {
                        continue;
                    }
                    let want = m.mul(s, &b);
                    let kr = reps(c.f(), s, &[0, 1, 3], &mut sk);
                    let x = match xs.get(i / chunks % xs.len().max(1)) {
                        Some(x) => x,
                        None => continue,
                    };
                    // plain, and normalized entry point
                    if let Some(e) = kr.first() {
                        pcase(cx, c, POp::Mul(1), x, None, Some((s, 0, &e.e)), &want)?;
                    }
                    for (j, e) in kr.iter().enumerate() {
                        if deep || j == 0 || (i / chunks) % 3 == j % 3 {
                            pcase(cx, c, POp::Mul(0), &xs[(i + j) % xs.len()], None, Some((s, e.how, &e.e)), &want)?;
                        }
                    }
                    // other points
                    let special = s.bits() <= 5 || s.ge(&ord.minus(&U::from(9))) && s.lt(&ord.plus(&U::from(9)));
                    if special || deep || (i / chunks) % 4 == 0 {
                        for (j, o) in other.iter().enumerate() {
                            if special || (i / chunks + j) % 5 == 0 {
                                let want = m.mul(s, &o.a);
                                if let Some(e) = kr.first() {
                                    pcase(cx, c, POp::Mul(0), o, None, Some((s, 0, &e.e)), &want)?;
                                }
                            }
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
    }
    out
}

// ------------------------------------------------------------------ C17
pub fn c17<'a>(cs: &'a [Arc<dyn Cv>], deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for c in cs.iter() {
        let c: &dyn Cv = c.as_ref();
        let chunks = lv(deep, 4, 8, 64);
        for k in 0..chunks {
            out.push(job(format!("construction and neutral element {} {}/{}", c.name(), k, chunks), move |cx| {
                let m = model(c);
                let f = c.f();
                let md = f.md();
                let pts = {
                    let n: (u64, u64, usize) = lv(deep, (25, 25, 4), (150, 100, 10), (3000, 2000, 50));
                    points(c, n.0, n.1, n.2)
                };
                // receivers whose previous content must not matter
                let receivers: Vec<PRep> = [NEUTRAL, base(c), torsion(c)[2]].iter().flat_map(|a| preps(c, a, 3)).collect();
                let zero = guarded(|| c.zero());
                match zero {
                    Ok(z) => {
                        if let Err(e) = judge(c, &z, &NEUTRAL) {
                            return Err(pviolation(c, &[PStep::Do(POp::Zero, 0, 1)], &e));
                        }
                    }
                    Err(p) => return Err(pviolation(c, &[PStep::Do(POp::Zero, 0, 1)], &p)),
                }
                let zr = PRep { a: NEUTRAL, p: c.zero(), steps: vec![PStep::Do(POp::Zero, 0, 1)] };
                let rec: &[u8] = if deep { &ALL_RECIPES } else { &[0, 1, 3, 5, 8, 11, 20, 25] };
                for (i, a) in pts.iter().enumerate() {
                    if i % chunks != k {
                        continue;
                    }
                    for &hx in rec {
                        for &hy in rec {
                            let r = &receivers[(i + hx as usize + hy as usize) % receivers.len()];
                            let mut p = r.p;
                            let (ex, ey) = (elem(f, &a.x, hx), elem(f, &a.y, hy));
                            let g = guarded(|| {
                                c.init(&mut p, &ex, &ey);
                                judge(c, &p, a)
                            });
                            cx.transitions += 1;
                            cx.traces += 1;
                            pstate(cx, c, &p, &r.p);
                            if g != Ok(Ok(())) {
                                let mut s = r.steps.clone();
                                s.push(PStep::Init(0, *a, hx, hy));
                                return Err(pviolation(c, &s, &format!("{:?}", g)));
                            }
                        }
                    }
                    let na = m.neg(a);
                    let nr = preps(c, &na, 4);
                    for x in preps(c, a, 10) {
                        // neutral on both sides
                        pcase(cx, c, POp::Add(0), &x, Some(&zr), None, a)?;
                        pcase(cx, c, POp::Add(0), &zr, Some(&x), None, a)?;
                        // inverse: (-x, y)
                        for y in nr.iter() {
                            pcase(cx, c, POp::Add(0), &x, Some(y), None, &NEUTRAL)?;
                        }
                    }
                }
                let _ = md;
                for op in [POp::Dbl(0), POp::Dbl(1), POp::Tpl(0), POp::Tpl(1)] {
                    pcase(cx, c, op, &zr, None, None, &NEUTRAL)?;
                }
                Ok(())
            }));
        }
    }
    out
}

// ------------------------------------------------------------------ C20
pub fn c20<'a>(cs: &'a [Arc<dyn Cv>], deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for c in cs.iter() {
        let c: &dyn Cv = c.as_ref();
        let m = model(c);
        let b = base(c);
        let t = torsion(c);
        let mut starts: Vec<(Aff, Aff)> = vec![(b, b), (b, t[2]), (b, m.neg(&b)), (m.add(&b, &t[1]), t[3]), (t[1], t[2]), (NEUTRAL, b)];
        if t.len() > 4 {
            starts.push((t[4], b));
            starts.push((t[4], t[5]));
        }
        let ops = [POp::Add(0), POp::Dbl(0), POp::Tpl(0), POp::Swap, POp::Dup, POp::Zero, POp::Reinit, POp::Add(3), POp::Dbl(1)];
        let depth = lv(deep, 4, 6, 8);
        let starts2 = starts.clone();
        for (si, st) in starts.into_iter().enumerate() {
            let nops = if deep { 7 } else { ops.len() };
            for first in 0..nops {
                let m = m.clone();
                out.push(job(format!("point histories {} start {} first {:?}", c.name(), si, ops[first]), move |cx| {
                    let pre = [PStep::Init(0, st.0, 0, 0), PStep::Init(1, st.1, 1, 3)];
                    let mut s0 = PMachine::new(c);
                    let mut path: Vec<PStep> = pre.to_vec();
                    for p in pre.iter() {
                        let r = guarded(|| s0.step(c, &m, p));
                        if r != Ok(Ok(())) {
                            return Err(pviolation(c, &path, &format!("{:?}", r)));
                        }
                    }
                    hist(cx, c, &m, &ops[..nops], &s0, &mut path, depth, Some(first))?;
                    Ok(())
                }));
            }
        }
        // histories with scalar multiplications, by scalars in several internal forms; the scalar
        // is used again as the multiplication left it
        let md = c.f().md();
        let ks = [U::from(0), U::from(3), md.neg(&U::from(1)), U::from_hex(c.params().order), nth_pattern(md, c.f().w())];
        let mut steps: Vec<Vec<PStep>> = vec![];
        for (i, k) in ks.iter().enumerate() {
            steps.push(vec![PStep::K(*k, [3, 0, 1, 3, 9][i]), PStep::Do(POp::Mul(0), 0, 1)]);
        }
        steps.push(vec![PStep::K(ks[4], 0), PStep::Do(POp::Mul(1), 0, 1)]);
        steps.push(vec![PStep::Do(POp::Mul(0), 0, 1)]);
        for op in [POp::Add(0), POp::Dbl(0), POp::Tpl(0), POp::Swap, POp::Dup] {
            steps.push(vec![PStep::Do(op, 0, 1)]);
        }
        let depth = lv(deep, 2, 2, 3);
        for (si, st) in starts2.into_iter().enumerate() {
            for first in 0..steps.len() {
                let (m, steps) = (m.clone(), steps.clone());
                out.push(job(format!("histories with multiplications {} start {} first {}", c.name(), si, first), move |cx| {
                    let pre = [PStep::Init(0, st.0, 0, 0), PStep::Init(1, st.1, 1, 3)];
                    let mut s0 = PMachine::new(c);
                    for p in pre.iter() {
                        let r = guarded(|| s0.step(c, &m, p));
                        if r != Ok(Ok(())) {
                            return Err(pviolation(c, &pre, &format!("{:?}", r)));
                        }
                    }
                    let mut path = pre.to_vec();
                    hist_steps(cx, c, &m, &steps, &s0, &mut path, depth, Some(first))
                }));
            }
        }
        // long chains: many operations without ever reading the point
        out.push(job(format!("long chains {}", c.name()), move |cx| {
            let m = model(c);
            let b = base(c);
            let chains: Vec<Vec<PStep>> = vec![
                vec![PStep::Do(POp::Dbl(0), 0, 1)],
                vec![PStep::Do(POp::Tpl(0), 0, 1)],
                vec![PStep::Do(POp::Add(0), 0, 1)],
                vec![PStep::Do(POp::Add(0), 0, 1), PStep::Do(POp::Swap, 0, 1)],
                vec![PStep::Do(POp::Dbl(0), 0, 1), PStep::Do(POp::Add(0), 0, 1)],
                vec![PStep::Do(POp::Tpl(0), 0, 1), PStep::Do(POp::Dbl(0), 1, 0), PStep::Do(POp::Add(0), 0, 1)],
            ];
            for ch in chains {
                let mut st = PMachine::new(c);
                let mut path = vec![PStep::Init(0, b, 0, 0), PStep::Init(1, b, 3, 1)];
                for p in path.iter() {
                    let r = guarded(|| st.step(c, &m, p));
                    if r != Ok(Ok(())) {
                        return Err(pviolation(c, &path, &format!("{:?}", r)));
                    }
                }
                for _ in 0..lv(deep, 200, 2000, 20_000) {
                    for s in ch.iter() {
                        path.push(*s);
                        let r = guarded(|| st.step(c, &m, s));
                        cx.transitions += 1;
                        pstate(cx, c, &st.p[0], &st.p[1]);
                        if r != Ok(Ok(())) {
                            return Err(pviolation(c, &path, &format!("{:?}", r)));
                        }
                    }
                }
                cx.traces += 1;
            }
            Ok(())
        }));
    }
    out
}

fn nth_pattern(md: &Md, w: usize) -> U {
    let v = pattern(md, w, &[9, 5, 11, 9, 5, 11, 9, 5, 11, 9, 5, 11]);
    md.add(&v, &U::from(6))
}

fn hist_steps(cx: &mut Cx, c: &dyn Cv, m: &Model, steps: &[Vec<PStep>], s: &PMachine, path: &mut Vec<PStep>, depth: usize, first: Option<usize>) -> Res {
    if depth == 0 {
        cx.traces += 1;
        return Ok(());
    }
    for (i, step) in steps.iter().enumerate() {
        if first.map(|f| f != i).unwrap_or(false) {
            continue;
        }
        let mut n = *s;
        let len = path.len();
        for st in step {
            path.push(*st);
            let r = guarded(|| n.step(c, m, st));
            cx.transitions += 1;
            if r != Ok(Ok(())) {
                return Err(pviolation(c, path, &format!("{:?}", r)));
            }
        }
        pstate(cx, c, &n.p[0], &n.p[1]);
        hist_steps(cx, c, m, steps, &n, path, depth - 1, None)?;
        path.truncate(len);
    }
    Ok(())
}

fn hist(cx: &mut Cx, c: &dyn Cv, m: &Model, ops: &[POp], s: &PMachine, path: &mut Vec<PStep>, depth: usize, first: Option<usize>) -> Res {
    if depth == 0 {
        cx.traces += 1;
        if cx.samples.is_empty() {
            cx.sample(format!("{} {:?}", c.name(), path));
        }
        return Ok(());
    }
    for (i, op) in ops.iter().enumerate() {
        if first.map(|f| f != i).unwrap_or(false) {
            continue;
        }
        let st = PStep::Do(*op, 0, 1);
        let mut n = *s;
        let r = guarded(|| n.step(c, m, &st));
        cx.transitions += 1;
        pstate(cx, c, &n.p[0], &n.p[1]);
        path.push(st);
        if r != Ok(Ok(())) {
            return Err(pviolation(c, path, &format!("{:?}", r)));
        }
        hist(cx, c, m, ops, &n, path, depth - 1, None)?;
        path.pop();
    }
    Ok(())
}

// ------------------------------------------------------------------ C13
struct Mont {
    name: &'static str,
    a: i64,
}

pub fn c13<'a>(fs: &'a Fields, cs: &'a [Arc<dyn Cv>], _deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        out.push(job(format!("constants {}", f.name()), move |cx| {
            let md = f.md();
            let one = U::from(1);
            let fail = |n: &str, t: String| Violation {
                text: format!("{}: constant {}: {}", f.name(), n, t),
                replay: format!("kind const\nfield {}\nconstant {}\n# {}\n", f.name(), n, t),
            };
            let consts = f.consts();
            let nb = f.nbytes();
            let get = |n: &str| consts.iter().find(|c| c.0 == n).map(|c| f.val(&c.1));
            for (n, e) in consts.iter() {
                cx.transitions += 2;
                cx.traces += 1;
                cx.state(f, e, e);
                let v = f.val(e);
                let mut raw = [0u8; 80];
                f.pack_normalized(e, &mut raw[..nb]);
                // "the normalized representation": reads without normalizing
                let expect_raw = if *n == "MODULUS" { md.p } else { v };
                if raw[..nb] != expect_raw.to_bytes()[..nb] {
                    return Err(fail(n, format!("its digits read {}", U::from_bytes(&raw[..nb]).hex())));
                }
                let want = match *n {
                    "ZERO" | "MODULUS" => Some(ZERO),
                    "ONE" => Some(one),
                    "M_ONE" => Some(md.neg(&one)),
                    "M_HALF" => Some(md.neg(&md.inv(&U::from(2)))),
                    _ => published(n, md),
                };
                match want {
                    Some(w) if w == v => {}
                    Some(w) => return Err(fail(n, format!("is {} instead of {}", v.hex(), w.hex()))),
                    None => return Err(fail(n, "has no published value to compare with".into())),
                }
                cx.sample(format!("{} {} = {}", f.name(), n, v.hex()));
            }
            // the trait's own constants
            for (k, w) in [(0u8, ZERO), (1, one), (2, md.neg(&one)), (3, ZERO)] {
                let mut e = f.mk(&U::from(77));
                let mut t = BLANK;
                f.apply(Op::Set(k), &mut e, &mut t);
                cx.transitions += 1;
                cx.traces += 1;
                let mut raw = [0u8; 80];
                f.pack_normalized(&e, &mut raw[..nb]);
                let want_raw = if k == 3 { md.p } else { w };
                if f.val(&e) != w || raw[..nb] != want_raw.to_bytes()[..nb] {
                    return Err(fail(["zero()", "one()", "m_one()", "modulus()"][k as usize], format!("is {}", U::from_bytes(&raw[..nb]).hex())));
                }
            }
            // Montgomery curves: base point on y^2 = x^3 + a x^2 + x, of the stated order
            for mo in [
                Mont { name: "M221", a: 117050 },
                Mont { name: "CURVE25519", a: 486662 },
                Mont { name: "M383", a: 2065150 },
                Mont { name: "CURVE383187", a: 229969 },
                Mont { name: "M511", a: 530438 },
            ] {
                let (x, y, o) = match (
                    get(&format!("{}_BASE_X", mo.name)),
                    get(&format!("{}_BASE_Y", mo.name)),
                    get(&format!("{}_ORDER", mo.name)),
                ) {
                    (Some(x), Some(y), Some(o)) => (x, y, o),
                    _ => continue,
                };
                let a = md.small(mo.a);
                let xx = md.mul(&x, &x);
                let rhs = md.add(&md.mul(&xx, &md.add(&x, &a)), &x);
                cx.transitions += 1;
                if md.mul(&y, &y) != rhs {
                    return Err(fail(mo.name, "the base point is not on the curve".into()));
                }
                if mont_mul(md, &a, &o, (x, y)).is_some() || mont_mul(md, &a, &U::from(8), (x, y)).is_none() {
                    return Err(fail(mo.name, "the base point does not have the stated order".into()));
                }
                cx.note("base points whose order was recomputed", 1);
            }
            Ok(())
        }));
    }
    for c in cs.iter() {
        let c: &dyn Cv = c.as_ref();
        out.push(job(format!("curve parameters {}", c.name()), move |cx| {
            let f = c.f();
            let md = f.md();
            let m = model(c);
            let fail = |t: String| Violation {
                text: format!("{}: {}", c.name(), t),
                replay: format!("kind const\ncurve {}\n# {}\n", c.name(), t),
            };
            d_ok(c)?;
            let pre = c.name().to_uppercase();
            let get = |s: &str| f.consts().iter().find(|k| k.0 == format!("{}_{}", pre, s)).map(|k| f.val(&k.1)).unwrap();
            if get("D") != m.d || md.jacobi(&m.d) != -1 {
                return Err(fail("d is wrong or a square (the addition law would be incomplete)".into()));
            }
            let b = Aff { x: get("BASE_X"), y: get("BASE_Y") };
            let o = get("ORDER");
            if !m.on(&b) {
                return Err(fail("the base point is not on the curve".into()));
            }
            if m.mul(&o, &b) != NEUTRAL || m.mul(&U::from(c.params().cofactor as u64), &b) == NEUTRAL {
                return Err(fail("the base point does not have the stated order".into()));
            }
            cx.transitions += 4;
            cx.traces += 1;
            cx.note("base points whose order was recomputed", 1);
            Ok(())
        }));
    }
    out
}

fn mont_mul(md: &Md, a: &U, k: &U, p: (U, U)) -> Option<(U, U)> {
    let add = |p: Option<(U, U)>, q: Option<(U, U)>| -> Option<(U, U)> {
        let (p, q) = match (p, q) {
            (None, q) => return q,
            (p, None) => return p,
            (Some(p), Some(q)) => (p, q),
        };
        let l = if p.0 == q.0 {
            if md.add(&p.1, &q.1).is_zero() {
                return None;
            }
            let xx = md.mul(&p.0, &p.0);
            let num = md.add(&md.add(&md.add(&xx, &md.add(&xx, &xx)), &md.mul(&md.add(a, a), &p.0)), &U::from(1));
            md.mul(&num, &md.inv(&md.add(&p.1, &p.1)))
        } else {
            md.mul(&md.sub(&q.1, &p.1), &md.inv(&md.sub(&q.0, &p.0)))
        };
        let x = md.sub(&md.sub(&md.sub(&md.mul(&l, &l), a), &p.0), &q.0);
        Some((x, md.sub(&md.mul(&l, &md.sub(&p.0, &x)), &p.1)))
    };
    let mut r = None;
    for i in (0..k.bits()).rev() {
        r = add(r, r);
        if k.bit(i) {
            r = add(r, Some(p));
        }
    }
    r
}

/// Published values (SafeCurves / RFC 7748), written down here independently of the crate.
fn published(n: &str, md: &Md) -> Option<U> {
    for (pre, p) in [("E222", E222_P), ("CURVE1174", C1174_P), ("E382", E382_P), ("CURVE41417", C41417_P), ("E521", E521_P)] {
        if n == format!("{}_D", pre) {
            return Some(md.small(p.d));
        }
        if n == format!("{}_BASE_X", pre) {
            return Some(U::from_hex(p.base_x));
        }
        if n == format!("{}_BASE_Y", pre) {
            return Some(U::from_hex(p.base_y));
        }
        if n == format!("{}_ORDER", pre) {
            return Some(U::from_hex(p.order));
        }
    }
    let h = match n {
        "M221_BASE_X" => "4",
        "M221_BASE_Y" => "f7acdd2a4939571d1cef14eca37c228e61dbff10707dc6c08c5056d",
        "M221_ORDER" => "40000000000000000000000000015a08ed730e8a2f77f005042605b",
        "CURVE25519_BASE_X" => "9",
        "CURVE25519_BASE_Y" => "20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9",
        "CURVE25519_ORDER" => "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed",
        "M383_BASE_X" => "c",
        "M383_BASE_Y" => "1ec7ed04aaf834af310e304b2da0f328e7c165f0e8988abd3992861290f617aa1f1b2e7d0b6e332e969991b62555e77e",
        "M383_ORDER" => "10000000000000000000000000000000000000000000000006c79673ac36ba6e7a32576f7b1b249e46bbc225be9071d7",
        "CURVE383187_BASE_X" => "5",
        "CURVE383187_BASE_Y" => "1eebe07dc1871896732b12d5504a32370471965c7a11f2c89865f855ab3cbd7c224e3620c31af3370788457dd5ce46df",
        "CURVE383187_ORDER" => "1000000000000000000000000000000000000000000000000e85a85287a1488acd41ae84b2b7030446f72088b00a0e21",
        "M511_BASE_X" => "5",
        "M511_BASE_Y" => "2fbdc0ad8530803d28fdbad354bb488d32399ac1cf8f6e01ee3f96389b90c809422b9429e8a43dbf49308ac4455940abe9f1dbca542093a895e30a64af056fa5",
        "M511_ORDER" => "100000000000000000000000000000000000000000000000000000000000000017b5feff30c7f5677ab2aeebd13779a2ac125042a6aa10bfa54c15bab76baf1b",
        _ => return None,
    };
    Some(U::from_hex(h))
}

#[allow(dead_code)]
fn unused(_: &[Step]) {}
