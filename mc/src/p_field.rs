//! C01..C13, C19: what is enumerated for each property of the prime fields.

use crate::field::*;
use crate::gen::*;
use crate::machine::{Machine, Step};
use crate::num::{Md, U, ZERO};
use crate::run::*;
use std::collections::{HashSet, VecDeque};
use std::sync::{Arc, OnceLock};

pub type Fields = Vec<Box<dyn Field>>;

/// A lazily built table shared by the jobs of one field.
struct Lazy<T>(OnceLock<T>, Box<dyn Fn() -> T + Send + Sync>);
fn lazy<T>(g: impl Fn() -> T + Send + Sync + 'static) -> Arc<Lazy<T>> {
    Arc::new(Lazy(OnceLock::new(), Box::new(g)))
}
impl<T> Lazy<T> {
    fn get(&self) -> &T {
        self.0.get_or_init(|| (self.1)())
    }
}

fn all_reps(f: &dyn Field, vs: &[U], which: &[u8]) -> Vec<Vec<Rep>> {
    let mut sk = 0;
    vs.iter().map(|v| reps(f, v, which, &mut sk)).collect()
}

fn rep0(f: &dyn Field, v: &U) -> Rep {
    Rep { v: *v, e: f.mk(v), how: 0 }
}

/// Every op over every pair of representation groups, chunked into jobs.
fn sweep_pairs<'a>(
    out: &mut Vec<Job<'a>>,
    name: &str,
    f: &'a dyn Field,
    chunks: usize,
    ops: Vec<Op>,
    av: Vec<U>,
    bv: Vec<U>,
    which: &'static [u8],
) {
    let na = av.len();
    let f2: &'a dyn Field = f;
    let data: Arc<(OnceLock<(Vec<Vec<Rep>>, Vec<Vec<Rep>>)>, Vec<U>, Vec<U>)> = Arc::new((OnceLock::new(), av, bv));
    let ops = Arc::new(ops);
    for c in 0..chunks {
        let (data, ops) = (data.clone(), ops.clone());
        out.push(job(format!("{} {} {}/{}", name, f.name(), c, chunks), move |cx| {
            let (ra, rb) =
                data.0.get_or_init(|| (all_reps(f2, &data.1, which), all_reps(f2, &data.2, which)));
            for i in (c * na / chunks)..((c + 1) * na / chunks) {
                for b in rb.iter() {
                    if ra[i].is_empty() || b.is_empty() {
                        continue;
                    }
                    for &op in ops.iter() {
                        let want = match expect(f2, op, &ra[i][0].v, &b[0].v) {
                            Some(w) => w,
                            None => {
                                cx.out_of_domain += 1;
                                continue;
                            }
                        };
                        for x in ra[i].iter() {
                            for y in b.iter() {
                                case2(cx, f2, op, x, y, &want)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
}

/// Unary operation over representation groups; `ok` judges the packed result.
fn sweep_unary<'a>(
    out: &mut Vec<Job<'a>>,
    name: &str,
    f: &'a dyn Field,
    chunks: usize,
    ops: Vec<Op>,
    av: Vec<U>,
    which: &'static [u8],
) {
    let av = Arc::new(av);
    let ops = Arc::new(ops);
    let na = av.len();
    for c in 0..chunks {
        let (av, ops) = (av.clone(), ops.clone());
        out.push(job(format!("{} {} {}/{}", name, f.name(), c, chunks), move |cx| {
            for i in (c * na / chunks)..((c + 1) * na / chunks) {
                let mut sk = 0;
                let r = reps(f, &av[i], which, &mut sk);
                cx.skipped += sk;
                for &op in ops.iter() {
                    for x in r.iter() {
                        un(cx, f, op, x)?;
                    }
                }
            }
            Ok(())
        }));
    }
}

/// One unary case with a cheap oracle where the model's own computation is slow.
fn un(cx: &mut Cx, f: &dyn Field, op: Op, x: &Rep) -> Res {
    let md = f.md();
    match op {
        Op::Inv(_) => {
            if x.v.is_zero() {
                cx.out_of_domain += 1;
                return Ok(());
            }
            judged(cx, f, op, x, |r| md.mul(r, &x.v) == U::from(1), "the inverse")
        }
        Op::Sqrt => {
            if md.jacobi(&x.v) == -1 {
                cx.out_of_domain += 1;
                return Ok(());
            }
            judged(cx, f, op, x, |r| md.mul(r, r) == x.v, "a square root")
        }
        _ => {
            let want = expect(f, op, &x.v, &ZERO).unwrap();
            case1(cx, f, op, x, &want)
        }
    }
}

fn judged(cx: &mut Cx, f: &dyn Field, op: Op, a: &Rep, ok: impl Fn(&U) -> bool, what: &str) -> Res {
    let mut ea = a.e;
    let mut eb = BLANK;
    let n = f.nbytes();
    let mut buf = [0u8; 80];
    let r = guarded(|| {
        f.apply(op, &mut ea, &mut eb);
        f.pack(&ea, &mut buf[..n]);
    });
    cx.transitions += 2;
    cx.traces += 1;
    cx.state(f, &a.e, &BLANK);
    let got = U::from_bytes(&buf[..n]);
    if r.is_ok() && got.lt(&f.md().p) && ok(&got) {
        if cx.samples.is_empty() {
            cx.sample(format!("{} {:?} a={}(recipe {}) -> {}", f.name(), op, a.v.hex(), a.how, got.hex()));
        }
        return Ok(());
    }
    let mut steps = place(f.md(), a, 0, None);
    steps.push(Step::Do(op, 0, 1));
    let text = match r {
        Err(p) => format!("{:?} panicked: {}", op, p),
        _ => format!("{:?} gave {}, not {}", op, got.hex(), what),
    };
    Err(violation(f, &steps, &text))
}

fn forms(mk: impl Fn(u8) -> Op) -> Vec<Op> {
    (0..BIN_FORMS).map(mk).collect()
}

/// special results that a targeted second operand should produce
fn specials(f: &dyn Field) -> Vec<U> {
    let md = f.md();
    let mut v: Vec<U> = vec![];
    for k in 0..4 {
        v.push(U::from(k));
        v.push(md.neg(&U::from(k)));
    }
    for d in -1i64..=1 {
        v.push(md.small(md.c as i64 + d));
        v.push(md.small(-(md.c as i64) + d));
    }
    let l = limbs(md, f.w());
    for i in 1..l {
        let b = U::pow2(i * f.w());
        v.push(b);
        v.push(b.minus(&U::from(1)));
        v.push(md.neg(&b));
    }
    v.push(U::pow2(md.n - 1));
    v.push(md.red(&U::pow2(md.n - 1).minus(&U::from(1))));
    dedup(v)
}

/// Two-digit patterns for the products: one or two non-trivial digits over a
/// background of zeros or of ones.
fn sparse(f: &dyn Field) -> Vec<U> {
    let md = f.md();
    let w = f.w();
    let l = limbs(md, w);
    let mut v = vec![];
    for bg in [0u8, 1] {
        for i in 0..l {
            for ci in 0..7 {
                for j in i..l {
                    for cj in [0u8, 1, 5, 6] {
                        let mut c = vec![bg; l];
                        c[j] = cj;
                        c[i] = ci;
                        v.push(pattern(md, w, &c));
                    }
                }
            }
        }
    }
    dedup(v)
}

/// windows of two digits; `fine` takes every digit content
fn wins(f: &dyn Field, fine: bool) -> Vec<U> {
    let all: Vec<u8> = (0..N_CODES).collect();
    windows(f.md(), f.w(), if fine { &all } else { &[0, 1, 2, 3, 5, 6, 8, 10] }, &[0, 1, 8])
}

fn dense(f: &dyn Field, n: u64) -> Vec<U> {
    let md = f.md();
    let mut v: Vec<U> = (0..n).map(U::from).collect();
    v.extend((1..n).map(|k| md.neg(&U::from(k))));
    v
}

// ------------------------------------------------------------------ C01
pub fn c01<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let w = f.w();
        let l = limbs(md, w);
        let mut ops = forms(Op::Add);
        ops.extend(forms(Op::Sub));
        // edge x edge, all forms, few values, every representation
        let small = edge(md, w, 6, 1000);
        let core: Vec<U> = small.iter().enumerate().filter(|(i, _)| i % 5 == 0 || *i < 40).map(|x| *x.1).collect();
        sweep_pairs(&mut out, "forms x reps", f, 4, ops, core.clone(), core, &ALL_RECIPES);
        // edge x edge, all edges
        let e = edge(md, w, if deep { 24 } else { 8 }, if deep { 3 } else { 64 });
        let rec: &'static [u8] = if more() { &ALL_RECIPES } else { &MAIN_RECIPES };
        sweep_pairs(&mut out, "edge x edge", f, lv(deep, 8, 32, 128), vec![Op::Add(0), Op::Sub(0)], e.clone(), e, rec);
        if more() {
            let e = edge(md, w, 300, 1);
            sweep_pairs(&mut out, "all edges", f, 128, vec![Op::Add(0), Op::Sub(0)], e.clone(), e, &[0, 1, 3]);
        }
        // every vector of per-digit carry classes
        let nine: &[(u8, u8)] = &[(0, 0), (1, 0), (0, 1), (1, 2), (2, 1), (0, 2), (1, 1), (3, 2), (4, 4)];
        let all: Vec<(u8, u8)> = (0..7).flat_map(|i| (0..7).map(move |j| (i, j))).collect();
        let some: Vec<(u8, u8)> = (0..5).flat_map(|i| (0..5).map(move |j| (i, j))).collect();
        let classes: &[(u8, u8)] = if more() && l == 4 {
            &all
        } else if more() && l == 5 {
            &some
        } else if more() && l <= 8 {
            nine
        } else if more() {
            &nine[..6]
        } else if l >= 10 && !deep {
            &[(0, 0), (1, 0), (1, 2), (0, 2)]
        } else if l >= 10 {
            &[(0, 0), (1, 0), (1, 2), (0, 2), (1, 1)]
        } else if l >= 7 && !deep {
            &[(0, 0), (1, 0), (1, 2), (0, 2), (1, 1)]
        } else {
            &[(0, 0), (1, 0), (0, 1), (1, 2), (0, 2), (1, 1), (3, 2)]
        };
        let k = classes.len() as u64;
        let total = k.pow(l as u32);
        let chunks = (total / 100_000 + 1).min(256);
        let classes = classes.to_vec();
        for c in 0..chunks {
            let classes = classes.clone();
            out.push(job(format!("carry classes {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                for idx in (c * total / chunks)..((c + 1) * total / chunks) {
                    let mut x = idx;
                    let mut ca = [0u8; 16];
                    let mut cb = [0u8; 16];
                    for i in 0..l {
                        let (p, q) = classes[(x % k) as usize];
                        x /= k;
                        ca[i] = p;
                        cb[i] = q;
                    }
                    let (a, b) = (pattern(md, w, &ca[..l]), pattern(md, w, &cb[..l]));
                    let (ra, rb) = (rep0(f, &a), rep0(f, &b));
                    case2(cx, f, Op::Add(0), &ra, &rb, &md.add(&a, &b))?;
                    case2(cx, f, Op::Sub(0), &ra, &rb, &md.sub(&a, &b))?;
                    case2(cx, f, Op::Sub(0), &rb, &ra, &md.sub(&b, &a))?;
                    if total < 100_000 {
                        for r in reps(f, &b, &[1, 3], &mut sk) {
                            case2(cx, f, Op::Add(0), &ra, &r, &md.add(&a, &b))?;
                            case2(cx, f, Op::Sub(0), &ra, &r, &md.sub(&a, &b))?;
                            case2(cx, f, Op::Sub(0), &r, &ra, &md.sub(&b, &a))?;
                        }
                    }
                }
                Ok(())
            }));
        }
        // result-targeted: b chosen so that a+b, a-b hit every special residue
        let alpha: &'static [u8] = if l >= 10 { &[0, 1] } else { &[0, 1, 2] };
        out.push(job(format!("targeted sums {}", f.name()), move |cx| {
            let mut av = patterns(md, w, alpha);
            av.extend(edge(md, w, 8, 16));
            let sp = specials(f);
            let mut sk = 0;
            for a in av.iter() {
                let ra = reps(f, a, &[0, 1, 3], &mut sk);
                for s in sp.iter() {
                    let b = md.sub(s, a);
                    let rb = rep0(f, &b);
                    for x in ra.iter() {
                        case2(cx, f, Op::Add(0), x, &rb, s)?;
                    }
                    let b = md.sub(a, s);
                    let rb = rep0(f, &b);
                    for x in ra.iter() {
                        case2(cx, f, Op::Sub(0), x, &rb, s)?;
                    }
                }
            }
            cx.skipped += sk;
            Ok(())
        }));
        // negation
        let mut nv = edge(md, w, 64, 1);
        nv.extend(patterns(md, w, alpha));
        sweep_unary(&mut out, "neg", f, 4, vec![Op::Neg], nv, &ALL_RECIPES);
        let wv = Arc::new(wins(f, more()));
        sweep_unary(&mut out, "neg windows", f, 2, vec![Op::Neg], wv.to_vec(), &[0, 1, 3]);
        // every pair of digit contents against few second operands
        let chunks = lv(deep, 4, 8, 32);
        for c in 0..chunks {
            let wv = wv.clone();
            out.push(job(format!("windows {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                for a in wv[(c * wv.len() / chunks)..((c + 1) * wv.len() / chunks)].iter() {
                    let ra = reps(f, a, &[0, 1, 3], &mut sk);
                    let na = md.neg(a);
                    let one = U::from(1);
                    let alt = md.red(&U::from_bytes(&[0xa5; 80]).low(md.n));
                    for b in [*a, na, md.add(&na, &one), md.sub(&na, &one), md.sub(a, &one), one, md.neg(&one), alt, md.neg(&U::from(md.c))] {
                        for y in reps(f, &b, &[0, 1, 3], &mut sk) {
                            for x in ra.iter() {
                                case2(cx, f, Op::Add(0), x, &y, &md.add(a, &b))?;
                                case2(cx, f, Op::Sub(0), x, &y, &md.sub(a, &b))?;
                                case2(cx, f, Op::Sub(0), &y, x, &md.sub(&b, a))?;
                            }
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
    }
    out
}

// ------------------------------------------------------------------ C02
/// Large odd factors with various digit contents.
fn factors(md: &Md) -> Vec<U> {
    let n = md.n;
    let one = U::from(1);
    let mut v = vec![
        U::pow2(n - 1).plus(&one),
        md.p.minus(&U::from(2)),
        U::pow2(n).minus(&U::pow2(n / 2)).plus(&one),
    ];
    for pat in [[0x55u8, 0x55, 0x55], [0x9b, 0x37, 0x79], [0x01, 0xff, 0x80], [0xc1, 0x07, 0x3e]] {
        let mut b = [0u8; 80];
        for (i, x) in b.iter_mut().enumerate() {
            *x = pat[i % 3].rotate_left(i as u32 / 5);
        }
        v.push(U::from_bytes(&b).low(n - 1).or(&U::pow2(n - 1)).or(&one));
    }
    v.into_iter().filter(|x| x.lt(&md.p)).collect()
}

/// Products and squares whose double-width value has a high part (or a low
/// part) made of half digits at which the fold by C and the carries tip over.
fn solved_products<'a>(out: &mut Vec<Job<'a>>, f: &'a dyn Field, deep: bool) {
    let md = f.md();
    let (n, w) = (md.n, f.w());
    let win = lv(deep, 3, 3, 4);
    let pats: Arc<OnceLock<Vec<U>>> = Arc::new(OnceLock::new());
    let parts = lv(deep, 1, 1, 16);
    for (i, a) in factors(md).into_iter().enumerate().flat_map(|x| (0..parts).map(move |p| (x.0 * parts + p, x.1))) {
        let pats = pats.clone();
        out.push(job(format!("solved products {} {}", f.name(), i), move |cx| {
            let inv = inv_pow2(&a, n);
            let ra = reps(f, &a, &[0, 1, 3], &mut cx.skipped);
            for (j, h) in pats.get_or_init(|| fold_patterns(md, w, win, 0)).iter().enumerate() {
                if j % parts != i % parts {
                    continue;
                }
                for b in [div_high(h, n, &a), mul_low(h, &inv, n)] {
                    if !b.lt(&md.p) {
                        continue;
                    }
                    let want = md.mul(&a, &b);
                    let rb = rep0(f, &b);
                    case2(cx, f, Op::Mul(0), &ra[0], &rb, &want)?;
                    case2(cx, f, Op::Mul(0), &rb, &ra[j % ra.len()], &want)?;
                }
            }
            Ok(())
        }));
    }
    let win = lv(deep, 3, 4, 5);
    let chunks = lv(deep, 8, 32, 128);
    let pats: Arc<OnceLock<Vec<U>>> = Arc::new(OnceLock::new());
    for c in 0..chunks {
        let pats = pats.clone();
        out.push(job(format!("solved squares {} {}/{}", f.name(), c, chunks), move |cx| {
            let v = pats.get_or_init(|| fold_patterns(md, w, win, 0));
            for (j, h) in v.iter().enumerate() {
                if j % chunks != c {
                    continue;
                }
                let a = isqrt(h, &ZERO, n);
                let low = sqrt_pow2(&h.shr(3).shl(3).plus(&U::from(1)), n);
                for b in [a, a.plus(&U::from(1)), low, U::pow2(n).minus(&low)] {
                    if !b.lt(&md.p) {
                        continue;
                    }
                    let want = md.mul(&b, &b);
                    let rb = rep0(f, &b);
                    case1(cx, f, Op::Sq(0), &rb, &want)?;
                    case2(cx, f, Op::Mul(0), &rb, &rb, &want)?;
                    if j % 16 == 0 {
                        for r in reps(f, &b, &MAIN_RECIPES, &mut cx.skipped) {
                            case1(cx, f, Op::Sq(0), &r, &want)?;
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    // squares with a chosen residue
    out.push(job(format!("squares with chosen residue {}", f.name()), move |cx| {
        let mut rs = edge(md, w, 64, if deep { 1 } else { 2 });
        rs.extend(fold_patterns(md, w, if deep { 2 } else { 1 }, 0));
        for s in dedup(rs) {
            if !s.lt(&md.p) {
                continue;
            }
            if let Some(r) = root(f, &s) {
                for b in [r, md.neg(&r)] {
                    case1(cx, f, Op::Sq(0), &rep0(f, &b), &s)?;
                }
            }
        }
        Ok(())
    }));
}

pub fn c02<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let w = f.w();
        let l = limbs(md, w);
        let small = edge(md, w, 6, 1000);
        let core: Vec<U> = small.iter().enumerate().filter(|(i, _)| i % 5 == 0 || *i < 40).map(|x| *x.1).collect();
        sweep_pairs(&mut out, "forms x reps", f, 4, forms(Op::Mul), core.clone(), core, &ALL_RECIPES);
        let e = edge(md, w, if deep { 24 } else { 8 }, if deep { 4 } else { 64 });
        sweep_pairs(&mut out, "edge x edge", f, if deep { 32 } else { 8 }, vec![Op::Mul(0)], e.clone(), e, &MAIN_RECIPES);
        if more() {
            let e = edge(md, w, 300, 1);
            sweep_pairs(&mut out, "all edges", f, 128, vec![Op::Mul(0)], e.clone(), e, &[0, 3]);
        }
        // all bit pairs
        let n = md.n;
        let chunks = 4;
        for c in 0..chunks {
            out.push(job(format!("bit pairs {} {}/{}", f.name(), c, chunks), move |cx| {
                let one = U::from(1);
                let var = |i: usize, k: usize| match k {
                    0 => U::pow2(i),
                    1 => md.red(&U::pow2(i).minus(&one)),
                    2 => md.neg(&U::pow2(i)),
                    _ => md.red(&U::pow2(i).plus(&one)),
                };
                let nv = if deep { 4 } else { 3 };
                for i in (c * n / chunks)..((c + 1) * n / chunks) {
                    for k in 0..nv {
                        let a = rep0(f, &var(i, k));
                        for j in 0..n {
                            for m in 0..nv {
                                if !deep && k > 0 && m > 0 && (k != m) {
                                    continue;
                                }
                                let b = rep0(f, &var(j, m));
                                let want = md.mul(&a.v, &b.v);
                                case2(cx, f, Op::Mul(0), &a, &b, &want)?;
                            }
                        }
                    }
                }
                Ok(())
            }));
        }
        // limb patterns
        let (pa, pb): (&[u8], &[u8]) = match (l, deep) {
            (5, true) if more() => (&[0, 1, 2, 5, 6], &[0, 1, 3, 4, 5]),
            (7, true) if more() => (&[0, 1, 2, 5], &[0, 1, 6]),
            (8, true) if more() => (&[0, 1, 5], &[0, 1, 6]),
            (10, true) if more() => (&[0, 1], &[0, 1, 6]),
            (4, false) => (&[0, 1, 2, 4, 5], &[0, 1, 3, 6]),
            (4, true) => (&[0, 1, 2, 3, 4, 5, 6], &[0, 1, 2, 3, 4, 5, 6]),
            (5, false) => (&[0, 1, 5], &[0, 1, 6]),
            (5, true) => (&[0, 1, 2, 5, 6], &[0, 1, 3, 5]),
            (7, false) => (&[0, 1], &[0, 1, 6]),
            (7, true) => (&[0, 1, 5], &[0, 1, 6]),
            (8, false) => (&[0, 1], &[0, 1]),
            (8, true) => (&[0, 1], &[0, 1, 6]),
            (_, false) => (&[0, 1], &[0, 1]),
            (_, true) => (&[0, 1], &[0, 1]),
        };
        let (av, bv) = (patterns(md, w, pa), patterns(md, w, pb));
        let which: &'static [u8] = if l <= 5 && !deep { &[0, 1, 3] } else { &[0] };
        sweep_pairs(&mut out, "patterns", f, lv(deep, 8, 32, 256), vec![Op::Mul(0)], av, bv, which);
        let sv = sparse(f);
        let ev: Vec<U> = if deep { sv.clone() } else { sv.iter().step_by(5).copied().collect() };
        sweep_pairs(&mut out, "sparse", f, if deep { 16 } else { 4 }, vec![Op::Mul(0)], sv.clone(), ev, &[0]);
        // result-targeted products
        let step = if deep { 8 } else { 64 };
        let ce = edge(md, w, 8, step);
        let nchunk = 4;
        let ce = Arc::new(ce);
        for c in 0..nchunk {
            let ce = ce.clone();
            out.push(job(format!("targeted products {} {}/{}", f.name(), c, nchunk), move |cx| {
                let sp = specials(f);
                let mut sk = 0;
                for i in (c * ce.len() / nchunk)..((c + 1) * ce.len() / nchunk) {
                    let a = &ce[i];
                    if a.is_zero() {
                        continue;
                    }
                    let inv = md.inv(a);
                    let ra = reps(f, a, &[0, 1, 3], &mut sk);
                    for s in sp.iter() {
                        let b = md.mul(s, &inv);
                        for y in reps(f, &b, &[0, 1, 3], &mut sk) {
                            for x in ra.iter() {
                                case2(cx, f, Op::Mul(0), x, &y, s)?;
                            }
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
        // operands solved so that the double-width product has chosen half digits
        solved_products(&mut out, f, deep);
        // squares
        let mut qv = edge(md, w, 200, 1);
        qv.extend(sv);
        qv.extend(patterns(md, w, pa));
        qv.extend(patterns(md, w, pb));
        for s in specials(f) {
            if let Some(r) = root(f, &s) {
                qv.push(r);
                qv.push(md.neg(&r));
            }
        }
        sweep_unary(&mut out, "squares", f, 8, vec![Op::Sq(0)], dedup(qv), &ALL_RECIPES);
        let wv = wins(f, deep);
        sweep_unary(&mut out, "square windows", f, 8, vec![Op::Sq(0)], wv, &[0, 1, 3]);
        let wv = Arc::new(wins(f, more()));
        let chunks = lv(deep, 4, 8, 32);
        for c in 0..chunks {
            let wv = wv.clone();
            out.push(job(format!("product windows {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                let one = U::from(1);
                let alt = md.red(&U::from_bytes(&[0xa5; 80]).low(md.n));
                let bs = [one, md.neg(&one), U::from(md.c), md.neg(&U::from(md.c)), alt, md.neg(&alt), U::pow2(w - 1), U::pow2(md.n / 2), md.inv(&U::from(2)), md.inv(&U::pow2(w))];
                let rb: Vec<Rep> = bs.iter().flat_map(|b| reps(f, b, &[0, 3], &mut sk)).collect();
                for a in wv[(c * wv.len() / chunks)..((c + 1) * wv.len() / chunks)].iter() {
                    for x in reps(f, a, &[0, 1, 3], &mut sk) {
                        for y in rb.iter() {
                            case2(cx, f, Op::Mul(0), &x, y, &md.mul(a, &y.v))?;
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
        sweep_unary(&mut out, "squares functional", f, 1, vec![Op::Sq(1)], edge(md, w, 50, 16), &ALL_RECIPES);
    }
    out
}

/// reference square root
pub fn root(f: &dyn Field, s: &U) -> Option<U> {
    let md = f.md();
    if md.jacobi(s) == -1 {
        return None;
    }
    let one = U::from(1);
    if md.p.0[0] & 3 == 3 {
        let r = md.pow(s, &md.p.plus(&one).shr(2));
        if md.mul(&r, &r) == *s {
            return Some(r);
        }
        return None;
    }
    // p = 5 mod 8 (Atkin)
    let two_s = md.add(s, s);
    let b = md.pow(&two_s, &md.p.minus(&U::from(5)).shr(3));
    let i = md.mul(&two_s, &md.mul(&b, &b));
    let r = md.mul(&md.mul(s, &b), &md.sub(&i, &one));
    if md.mul(&r, &r) == *s {
        Some(r)
    } else {
        None
    }
}

// ------------------------------------------------------------------ C03
pub fn k32() -> Vec<i32> {
    let mut v: Vec<i32> = vec![];
    for i in 0..32 {
        for d in -2i64..=2 {
            for s in [1i64, -1] {
                let k = s * (1i64 << i) + d;
                if k as i32 as i64 == k {
                    v.push(k as i32);
                }
            }
        }
    }
    for p in [0x5555_5555u32, 0xaaaa_aaaa, 0x3333_3333, 0x0f0f_0f0f, 0xf0f0_f0f0, 0x00ff_00ff, 0xff00_ff00, 121665, 486662, 2065150, 530438, 117050, 229969] {
        v.push(p as i32);
        v.push((p as i32).wrapping_neg());
    }
    let mut s = HashSet::new();
    v.into_iter().filter(|x| s.insert(*x)).collect()
}

/// Operands solved so that the unreduced value of a op k, or the residue, has
/// half digits at which carries tip over.
fn solved_small<'a>(out: &mut Vec<Job<'a>>, f: &'a dyn Field, deep: bool) {
    let md = f.md();
    let (n, w) = (md.n, f.w());
    let mut ks: Vec<i32> = vec![1, 2, 3, 7, 117, 187, 255, 1174, 3617, 67254, 160102, 376014];
    for i in [13, 16, 20, 24, 26, 27, 28, 29, 30] {
        ks.extend([(1i32 << i) - 1, 1 << i, (1 << i) + 1]);
    }
    ks.extend([i32::MAX, i32::MAX - 1, 0x55555555, 0x2aaaaaab, 0x7fff0001, 0x6b8b4567]);
    let neg: Vec<i32> = ks.iter().map(|k| -k).chain([i32::MIN, i32::MIN + 1]).collect();
    ks.extend(neg);
    let ks = Arc::new(ks);
    let win = if deep { 3 } else { 2 };
    let pats: Arc<OnceLock<Vec<U>>> = Arc::new(OnceLock::new());
    let chunks = if deep { 16 } else { 8 };
    for c in 0..chunks {
        let (ks, pats) = (ks.clone(), pats.clone());
        out.push(job(format!("solved small {} {}/{}", f.name(), c, chunks), move |cx| {
            let hs = pats.get_or_init(|| fold_patterns(md, w, win, 0));
            for (i, k) in ks.iter().enumerate() {
                if i % chunks != c {
                    continue;
                }
                let km = md.small(*k as i64);
                let ki = md.inv(&km);
                let ku = U::from(k.unsigned_abs() as u64);
                for (j, h) in hs.iter().enumerate() {
                    if deep && (i + j) % 8 > 0 {
                        continue;
                    }
                    let mut cand: Vec<(Op, U)> = vec![];
                    if h.lt(&md.p) {
                        // the residue is the pattern
                        cand.push((Op::SMul(*k, 0), md.mul(h, &ki)));
                        cand.push((Op::SAdd(*k, 0), md.sub(h, &km)));
                        cand.push((Op::SSub(*k, 0), md.add(h, &km)));
                        // the operand is the pattern
                        cand.push((Op::SMul(*k, 0), *h));
                        cand.push((Op::SAdd(*k, 0), *h));
                        cand.push((Op::SSub(*k, 0), *h));
                    }
                    // the unreduced product is the pattern, with some top part
                    for top in [ZERO, ku.shr(1), ku.minus(&U::from(1))] {
                        let x = h.or(&top.shl(n));
                        cand.push((Op::SMul(*k, 0), div_high(&x, 0, &ku)));
                    }
                    for (op, a) in cand {
                        if !a.lt(&md.p) {
                            continue;
                        }
                        let want = expect(f, op, &a, &ZERO).unwrap();
                        case1(cx, f, op, &rep0(f, &a), &want)?;
                        if (i + j) % 64 == 0 {
                            for r in reps(f, &a, &MAIN_RECIPES, &mut cx.skipped) {
                                case1(cx, f, op, &r, &want)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
}

/// Every 32-bit integer: the results of consecutive integers are added up in
/// the field and each sum of a block compared; a wrong block is then searched.
fn every_i32<'a>(out: &mut Vec<Job<'a>>, f: &'a dyn Field) {
    let md = f.md();
    const BLOCK: i64 = 1 << 12;
    let parts = 32i64;
    for c in 0..parts {
        for kind in 0..3 {
            out.push(job(format!("every i32 {} {}/{} op {}", f.name(), c, parts, kind), move |cx| {
                let mk = |k: i64| match kind {
                    0 => Op::SAdd(k as i32, 0),
                    1 => Op::SSub(k as i32, 0),
                    _ => Op::SMul(k as i32, 0),
                };
                let v = md.red(&pattern(md, f.w(), &[1, 4, 6, 0, 1, 5, 3, 1, 6, 1]).minus(&U::from(77)));
                let r = reps(f, &v, &[0, 1, 3], &mut cx.skipped);
                let x = &r[c as usize % r.len()];
                let span = (1i64 << 32) / parts;
                let mut k = (i32::MIN as i64) + c * span;
                let end = k + span;
                let zero = f.mk(&ZERO);
                while k < end {
                    let mut acc = zero;
                    let ok = guarded(|| {
                        for i in k..k + BLOCK {
                            let (mut a, mut b) = (x.e, zero);
                            f.apply(mk(i), &mut a, &mut b);
                            f.apply(Op::Add(0), &mut acc, &mut a);
                        }
                    })
                    .is_ok();
                    cx.transitions += 2 * BLOCK as u64;
                    cx.traces += BLOCK as u64;
                    // sum of the integers of the block
                    let s = md.small(BLOCK * k + BLOCK * (BLOCK - 1) / 2);
                    let bv = md.mul(&v, &U::from(BLOCK as u64));
                    let want = match kind {
                        0 => md.add(&bv, &s),
                        1 => md.sub(&bv, &s),
                        _ => md.mul(&v, &s),
                    };
                    if !ok || f.val(&acc) != want {
                        for i in k..k + BLOCK {
                            let want = expect(f, mk(i), &v, &ZERO).unwrap();
                            case1(cx, f, mk(i), x, &want)?;
                        }
                        // each result is right: the additions are at fault (C01)
                        cx.skipped += 1;
                    }
                    k += BLOCK;
                }
                Ok(())
            }));
        }
    }
}

pub fn c03<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let w = f.w();
        let l = limbs(md, w);
        // all i8 x all forms x edge values x representations
        let vs: Vec<U> = edge(md, w, 4, 1000).into_iter().enumerate().filter(|(i, _)| *i < 24 || i % 16 == 0).map(|x| x.1).collect();
        let vs = Arc::new(vs);
        for c in 0..4i32 {
            let vs = vs.clone();
            out.push(job(format!("all i8, all forms {} {}", f.name(), c), move |cx| {
                let mut sk = 0;
                let rs: Vec<Vec<Rep>> = vs.iter().map(|v| reps(f, v, &MAIN_RECIPES, &mut sk)).collect();
                for k in (-128 + 64 * c)..(-128 + 64 * (c + 1)) {
                    for r in rs.iter() {
                        for op in sforms(k) {
                            if r.is_empty() {
                                continue;
                            }
                            let want = expect(f, op, &r[0].v, &ZERO).unwrap();
                            for x in r.iter() {
                                case1(cx, f, op, x, &want)?;
                            }
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
        // all i16, i16 forms and i32 forms
        for c in 0..8i32 {
            let vs = vs.clone();
            out.push(job(format!("all i16 {} {}", f.name(), c), move |cx| {
                let mut sk = 0;
                let mut rs: Vec<Rep> = vec![];
                for v in vs.iter().step_by(if deep { 1 } else { 9 }) {
                    rs.extend(reps(f, v, &[0, 1, 3], &mut sk));
                }
                for k in (-32768 + 8192 * c)..(-32768 + 8192 * (c + 1)) {
                    for x in rs.iter() {
                        for op in [Op::SAdd(k, 3), Op::SSub(k, 3), Op::SMul(k, 3)] {
                            let want = expect(f, op, &x.v, &ZERO).unwrap();
                            case1(cx, f, op, x, &want)?;
                        }
                    }
                    for op in sforms(k) {
                        let x = &rs[(k & 7) as usize % rs.len()];
                        let want = expect(f, op, &x.v, &ZERO).unwrap();
                        case1(cx, f, op, x, &want)?;
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
        // boundary i32 x all edges x representations, and targeted operands
        let ks = Arc::new(k32());
        let nchunk = if deep { 16 } else { 6 };
        for c in 0..nchunk {
            let ks = ks.clone();
            out.push(job(format!("boundary i32 {} {}/{}", f.name(), c, nchunk), move |cx| {
                let mut sk = 0;
                let mut ev = edge(md, w, 8, if deep { 4 } else { 100 });
                let alpha: &[u8] = if l >= 8 { &[0, 1] } else { &[0, 1, 5] };
                ev.extend(patterns(md, w, alpha).into_iter().step_by(if deep { 1 } else { 1 + l / 2 }));
                let rs: Vec<Vec<Rep>> = dedup(ev).iter().map(|v| reps(f, v, &[0, 1, 3], &mut sk)).collect();
                let sp = specials(f);
                for ki in (c * ks.len() / nchunk)..((c + 1) * ks.len() / nchunk) {
                    let k = ks[ki];
                    for (i, r) in rs.iter().enumerate() {
                        if r.is_empty() {
                            continue;
                        }
                        for op in [Op::SAdd(k, (i % 2) as u8), Op::SSub(k, (i % 2) as u8), Op::SMul(k, (i % 2) as u8)] {
                            let want = expect(f, op, &r[0].v, &ZERO).unwrap();
                            for x in r.iter() {
                                case1(cx, f, op, x, &want)?;
                            }
                        }
                    }
                    let km = md.small(k as i64);
                    let ki = if k != 0 { md.inv(&km) } else { ZERO };
                    for s in sp.iter() {
                        for (op, v) in [
                            (Op::SAdd(k, 0), md.sub(s, &km)),
                            (Op::SSub(k, 0), md.add(s, &km)),
                            (Op::SMul(k, 0), md.mul(s, &ki)),
                        ] {
                            if k == 0 {
                                continue;
                            }
                            for x in reps(f, &v, &[0, 1, 3], &mut sk) {
                                case1(cx, f, op, &x, s)?;
                            }
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
        solved_small(&mut out, f, deep);
        let wv = Arc::new(wins(f, more()));
        let chunks = lv(deep, 4, 8, 32);
        for c in 0..chunks {
            let wv = wv.clone();
            out.push(job(format!("windows {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                for v in wv[(c * wv.len() / chunks)..((c + 1) * wv.len() / chunks)].iter() {
                    for x in reps(f, v, &[0, 1, 3], &mut sk) {
                        for k in [0, 1, -1, 2, -2, 3, md.c as i32, -(md.c as i32), 127, -128, 32767, -32768, 0x5555_5555, -0x5555_5555, i32::MAX, i32::MIN] {
                            for op in [Op::SAdd(k, 0), Op::SSub(k, 0), Op::SMul(k, 0)] {
                                let want = expect(f, op, v, &ZERO).unwrap();
                                case1(cx, f, op, &x, &want)?;
                            }
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
        if deep {
            every_i32(&mut out, f);
        }
        // strided walk over all i32, each result compared on its own
        let stride: i64 = if deep { 253 } else { 1021 };
        let parts: i64 = if deep { 32 } else { 8 };
        for c in 0..parts {
            out.push(job(format!("i32 walk {} {}/{}", f.name(), c, parts), move |cx| {
                let mut sk = 0;
                let v = md.neg(&U::from(0x1234567));
                let r = reps(f, &v, &[0, 1, 3], &mut sk);
                if r.is_empty() {
                    cx.skipped += sk;
                    return Ok(());
                }
                let total = 1i64 << 32;
                let mut k = (i32::MIN as i64) + c * total / parts;
                let end = (i32::MIN as i64) + (c + 1) * total / parts;
                let mut i = 0;
                while k < end {
                    let x = &r[i % r.len()];
                    i += 1;
                    for op in [Op::SAdd(k as i32, 0), Op::SSub(k as i32, 0), Op::SMul(k as i32, 0)] {
                        let want = expect(f, op, &v, &ZERO).unwrap();
                        case1(cx, f, op, x, &want)?;
                    }
                    k += stride;
                }
                Ok(())
            }));
        }
    }
    out
}

/// every syntactic form that can carry the value k
pub fn sforms(k: i32) -> Vec<Op> {
    let mut v = vec![];
    for f in 0..SADD_FORMS {
        if form_fits(k, f) {
            v.push(Op::SAdd(k, f));
        }
    }
    for f in 0..SSUB_FORMS {
        if form_fits(k, f) {
            v.push(Op::SSub(k, f));
        }
    }
    for f in 0..SMUL_FORMS {
        if form_fits(k, f) {
            v.push(Op::SMul(k, f));
        }
    }
    v
}

// ------------------------------------------------------------------ C04 C05 C06
fn heavy_values(f: &dyn Field, deep: bool) -> Vec<U> {
    let md = f.md();
    let w = f.w();
    let l = limbs(md, w);
    let mut v = edge(md, w, lv(deep, 400, 4000, 30_000), if deep { 1 } else { 7 });
    let alpha: &[u8] = match (l, deep) {
        (4, _) if more() => &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11],
        (5, _) if more() => &[0, 1, 2, 3, 5, 6, 8],
        (7, _) if more() => &[0, 1, 2, 5],
        (8, _) if more() => &[0, 1, 2, 5],
        (10, _) if more() => &[0, 1, 5],
        (4, _) => &[0, 1, 5],
        (5, _) => &[0, 1, 5],
        (7, true) => &[0, 1, 5],
        (_, _) => &[0, 1],
    };
    v.extend(patterns(md, w, alpha).into_iter().step_by(if deep { 1 } else { (1 << l) / 128 + 1 }));
    v.extend(windows(md, w, if more() { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10] } else { &[0, 2, 6, 8] }, if more() { &[0, 1, 8] } else { &[0, 1] }));
    dedup(v)
}

pub fn c04<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let w = f.w();
        let ch = lv(deep, 8, 32, 256);
        sweep_unary(&mut out, "inverse", f, ch, vec![Op::Inv(0)], heavy_values(f, deep), &[0, 1, 3]);
        let small = edge(md, w, 8, 1000);
        sweep_unary(&mut out, "inverse forms", f, 2, vec![Op::Inv(0), Op::Inv(1)], small.iter().step_by(4).copied().collect(), &ALL_RECIPES);
        // a*a^-1 targets: inverses of the special values
        let mut iv: Vec<U> = specials(f).iter().filter(|x| !x.is_zero()).map(|x| md.inv(x)).collect();
        iv.extend(edge(md, w, 4, 100).iter().filter(|x| !x.is_zero()).map(|x| md.inv(x)));
        sweep_unary(&mut out, "inverse of inverses", f, 2, vec![Op::Inv(0)], iv, &[0, 1, 3]);
        let step = if deep { 7 } else { 23 };
        let d: Vec<U> = small.iter().step_by(step).copied().chain((1..6).map(U::from)).collect();
        sweep_pairs(&mut out, "quotients", f, ch / 4, forms(Op::Div), d.clone(), d, &[0, 1, 3, 22, 23]);
        // quotients chosen to hit special results
        out.push(job(format!("targeted quotients {}", f.name()), move |cx| {
            for s in specials(f) {
                for b in edge(md, w, 3, 1000).into_iter().step_by(if deep { 3 } else { 40 }) {
                    if b.is_zero() {
                        continue;
                    }
                    case2(cx, f, Op::Div(0), &rep0(f, &md.mul(&s, &b)), &rep0(f, &b), &s)?;
                }
            }
            Ok(())
        }));
    }
    out
}

pub fn c05<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let ch = lv(deep, 8, 32, 256);
        let hv = heavy_values(f, deep);
        sweep_unary(&mut out, "legendre", f, ch, vec![Op::Leg], hv.clone(), &[0, 1, 3, 22, 23]);
        // squares, negated squares: both classes by construction
        let mut sq: Vec<U> = vec![];
        for v in edge(md, f.w(), 20, 50) {
            let s = md.mul(&v, &v);
            sq.push(s);
            sq.push(md.neg(&s));
            sq.push(md.add(&s, &s));
        }
        sweep_unary(&mut out, "legendre of squares", f, ch / 4, vec![Op::Leg], dedup(sq), &[0, 1, 3, 8]);
        let some: Vec<U> = hv.iter().step_by(37).copied().collect();
        sweep_unary(&mut out, "legendre, all representations", f, 2, vec![Op::Leg], some, &ALL_RECIPES);
    }
    out
}

pub fn c06<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let ch = lv(deep, 8, 32, 256);
        let hv = heavy_values(f, deep);
        sweep_unary(&mut out, "sqrt", f, ch, vec![Op::Sqrt], hv.clone(), &[0, 1, 3, 22, 23]);
        let mut sq: Vec<U> = vec![];
        for v in edge(md, f.w(), 20, 25) {
            let s = md.mul(&v, &v);
            sq.push(s);
            sq.push(md.mul(&s, &s));
            if md.jacobi(&md.neg(&s)) != -1 {
                sq.push(md.neg(&s));
            }
        }
        for s in specials(f) {
            sq.push(md.mul(&s, &s));
        }
        sweep_unary(&mut out, "sqrt of squares", f, ch / 2, vec![Op::Sqrt], dedup(sq), &[0, 1, 3, 8]);
        let some: Vec<U> = hv.iter().step_by(37).copied().collect();
        sweep_unary(&mut out, "sqrt, all representations", f, 2, vec![Op::Sqrt], some, &ALL_RECIPES);
    }
    out
}

// ------------------------------------------------------------------ C07
pub fn c07<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let w = f.w();
        let nb = f.nbytes();
        let dirty: Vec<Step> = vec![];
        let _ = dirty;
        let chunks = if deep { 8 } else { 2 };
        for c in 0..chunks {
            out.push(job(format!("byte pairs {} {}/{}", f.name(), c, chunks), move |cx| {
                // every value of every pair of adjacent bytes, over several backgrounds
                let bgs: Vec<u8> = lv(deep, vec![0, 0xff], vec![0, 0xff, 0xaa, 0x55, 0x80, 0x01], (0..=255).collect());
                let mut targets = vec![f.mk(&ZERO), f.mk(&md.neg(&U::from(1)))];
                let mut sk = 0;
                if let Some(r) = reps(f, &U::from(5), &[3], &mut sk).first() {
                    targets.push(r.e);
                }
                for pos in 0..nb {
                    for &bg in bgs.iter() {
                        for hi in 0..256u32 {
                            if hi as usize % chunks != c {
                                continue;
                            }
                            for lo in 0..256u32 {
                                if pos + 1 == nb && lo != 0 {
                                    break;
                                }
                                let mut b = [0u8; 80];
                                for x in b[..nb].iter_mut() {
                                    *x = bg;
                                }
                                if pos + 1 == nb {
                                    b[pos] = hi as u8;
                                } else {
                                    b[pos] = lo as u8;
                                    b[pos + 1] = hi as u8;
                                }
                                let v = U::from_bytes(&b[..nb]).low(md.n);
                                if v.ge(&md.p) {
                                    cx.out_of_domain += 1;
                                    continue;
                                }
                                let by = v.to_bytes();
                                let e = f.unpack(&by[..nb]);
                                let mut got = [0u8; 80];
                                f.pack(&e, &mut got[..nb]);
                                let mut got2 = [0u8; 80];
                                let mut e2 = targets[(lo as usize) % targets.len()];
                                f.unpack_into(&mut e2, &by[..nb]);
                                f.pack(&e2, &mut got2[..nb]);
                                cx.transitions += 4;
                                cx.traces += 2;
                                cx.state(f, &e, &e2);
                                if got[..nb] != by[..nb] || got2[..nb] != by[..nb] {
                                    return Err(violation(
                                        f,
                                        &[Step::Load(0, v), Step::Load(1, md.neg(&U::from(1))), Step::Load(0, v), Step::Do(Op::Reload, 0, 1)],
                                        &format!("unpack/pack of {} gave {:02x?} / {:02x?} (over a used target)", v.hex(), &got[..nb], &got2[..nb]),
                                    ));
                                }
                            }
                        }
                    }
                }
                Ok(())
            }));
        }
        out.push(job(format!("pack of every representation {}", f.name()), move |cx| {
            let mut sk = 0;
            let mut vs = edge(md, w, 64, if deep { 1 } else { 4 });
            let l = limbs(md, w);
            vs.extend(patterns(md, w, if l >= 8 { &[0, 1] } else { &[0, 1, 4] }));
            for v in dedup(vs) {
                for r in reps(f, &v, &ALL_RECIPES, &mut sk) {
                    case_m(
                        cx,
                        f,
                        &[],
                        &r,
                        None,
                        &[
                            Step::Do(Op::Packed, 0, 1),
                            Step::Do(Op::PackNorm, 0, 1),
                            Step::Do(Op::PackMut, 0, 1),
                            Step::Do(Op::PackNorm, 0, 1),
                            Step::Do(Op::Reload, 0, 1),
                            Step::Do(Op::Reload, 1, 0),
                        ],
                    )?;
                    case_m(cx, f, &[], &r, None, &[Step::Do(Op::Reload, 0, 1), Step::Do(Op::PackNorm, 0, 1)])?;
                }
            }
            cx.skipped += sk;
            Ok(())
        }));
        // buffers longer than an encoding: pack and pack_normalized write the first nbytes bytes only
        out.push(job(format!("longer buffers {}", f.name()), move |cx| {
            let mut sk = 0;
            for v in edge(md, w, 4, 40) {
                for r in reps(f, &v, &[0, 1, 3], &mut sk) {
                    for extra in [0, 1, 2, 7, 8, nb] {
                        for fill in [0u8, 0xff, 0xa5] {
                            let want = v.to_bytes();
                            for normalized in [false, true] {
                                let mut b = vec![fill; nb + extra];
                                let mut e = r.e;
                                if normalized {
                                    f.apply(Op::Norm, &mut e, &mut BLANK.clone());
                                    f.pack_normalized(&e, &mut b);
                                } else {
                                    f.pack(&e, &mut b);
                                }
                                cx.transitions += 1;
                                cx.traces += 1;
                                cx.state(f, &e, &r.e);
                                if b[..nb] != want[..nb] || b[nb..].iter().any(|x| *x != fill) {
                                    return Err(violation(
                                        f,
                                        &place(md, &r, 0, None),
                                        &format!("packing {} into {} bytes of {:02x} left {:02x?}", v.hex(), nb + extra, fill, b),
                                    ));
                                }
                            }
                        }
                    }
                }
            }
            cx.skipped += sk;
            Ok(())
        }));
        // nbytes agrees with the field
        out.push(job(format!("sizes {}", f.name()), move |cx| {
            cx.transitions += 2;
            cx.traces += 1;
            if f.claimed_nbytes() != nb as i32 {
                return Err(violation(f, &[], &format!("nbytes() is {} for a {}-bit field", f.claimed_nbytes(), md.n)));
            }
            let mut e = f.mk(&U::from(1));
            if f.packed(&mut e).len() != nb {
                return Err(violation(f, &[], "packed() has the wrong length"));
            }
            Ok(())
        }));
    }
    out
}

/// digit alphabet for sweeps over complete digit patterns
fn pat_alpha(l: usize, deep: bool) -> &'static [u8] {
    match (l, deep) {
        (4, _) if more() => &[0, 1, 2, 3, 4, 5, 6],
        (5, _) if more() => &[0, 1, 2, 4, 5, 6],
        (7, _) if more() => &[0, 1, 2, 5],
        (_, _) if more() => &[0, 1, 5],
        (7, false) | (8, _) | (10, _) => &[0, 1],
        _ => &[0, 1, 5],
    }
}

// ------------------------------------------------------------------ C08
pub fn c08<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let w = f.w();
        let l = limbs(md, w);
        let mut vs = edge(md, w, lv(deep, 40, 40, 4000), if deep { 1 } else { 16 });
        vs.extend(patterns(md, w, pat_alpha(l, deep)));
        vs.extend(wins(f, more()));
        let vs = Arc::new(dedup(vs));
        let chunks = lv(deep, 4, 8, 64);
        for c in 0..chunks {
            let vs = vs.clone();
            out.push(job(format!("normalize and self-equality {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                for v in vs[(c * vs.len() / chunks)..((c + 1) * vs.len() / chunks)].iter() {
                    let rs = reps(f, v, &ALL_RECIPES, &mut sk);
                    for x in rs.iter() {
                        let mut e = x.e;
                        let mut t = BLANK;
                        f.apply(Op::Norm, &mut e, &mut t);
                        let mut e2 = e;
                        f.apply(Op::Norm, &mut e2, &mut t);
                        cx.transitions += 2;
                        cx.traces += 1;
                        if f.val(&e) != *v || f.val(&e2) != *v {
                            let mut s = place(md, x, 0, None);
                            s.push(Step::Do(Op::Norm, 0, 1));
                            s.push(Step::Do(Op::Norm, 0, 1));
                            return Err(violation(f, &s, "normalize changed the value"));
                        }
                        case_m(cx, f, &[], x, None, &[Step::Do(Op::Norm, 0, 1), Step::Do(Op::PackNorm, 0, 1), Step::Do(Op::Norm, 0, 1)])?;
                        for y in rs.iter() {
                            case_m(cx, f, &[], x, Some(y), &[Step::Do(Op::EqMut, 0, 1)])?;
                            case_m(cx, f, &[], x, Some(y), &[Step::Do(Op::EqSelf, 0, 1)])?;
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
        // near misses: must be unequal
        let ev = Arc::new(edge(md, w, lv(deep, 4, 4, 40), lv(deep, 1000, 1000, 7)));
        for c in 0..chunks {
            let ev = ev.clone();
            out.push(job(format!("near misses {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                let step = if deep { 1 } else { 12 };
                for (vi, v) in ev.iter().enumerate() {
                    if vi % step != 0 && vi > 16 {
                        continue;
                    }
                    if vi % chunks != c {
                        continue;
                    }
                    let rs = reps(f, v, &[0, 1, 3], &mut sk);
                    for i in 0..md.n {
                        for y in [md.add(v, &U::pow2(i)), md.sub(v, &U::pow2(i)), {
                            // flip bit i
                            if v.bit(i) {
                                v.minus(&U::pow2(i))
                            } else {
                                md.red(&v.plus(&U::pow2(i)))
                            }
                        }] {
                            if y == *v {
                                continue;
                            }
                            let ys = if i % 16 == 0 || deep { reps(f, &y, &[0, 1, 3], &mut sk) } else { vec![rep0(f, &y)] };
                            for x in rs.iter() {
                                for y in ys.iter() {
                                    for (op, r) in [
                                        (Op::EqMut, guarded(|| f.eq_mut(&mut x.e.clone(), &mut y.e.clone()))),
                                        (Op::EqSelf, guarded(|| {
                                            let mut t = BLANK;
                                            let mut ye = y.e;
                                            f.apply(Op::Norm, &mut ye, &mut t);
                                            f.eq_self(&mut x.e.clone(), &ye)
                                        })),
                                    ] {
                                        cx.transitions += 1;
                                        cx.traces += 1;
                                        if r != Ok(false) {
                                            let mut s = place(md, x, 0, Some((y, 1)));
                                            s.push(Step::Do(op, 0, 1));
                                            return Err(violation(f, &s, &format!("{:?} gave {:?} for different residues", op, r)));
                                        }
                                    }
                                    cx.state(f, &x.e, &y.e);
                                }
                            }
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
        // unequal pairs from the pattern set
        let pv = Arc::new(patterns(md, w, if more() && l <= 8 { &[0, 1, 5] } else { &[0, 1] }));
        let pstep = if l >= 10 && !deep { 7 } else { 1 };
        out.push(job(format!("pattern pairs {}", f.name()), move |cx| {
            for (i, a) in pv.iter().enumerate().step_by(pstep) {
                for (j, b) in pv.iter().enumerate().step_by(pstep) {
                    let r = guarded(|| f.eq_mut(&mut f.mk(a), &mut f.mk(b)));
                    cx.transitions += 1;
                    cx.traces += 1;
                    if r != Ok(i == j) {
                        return Err(violation(
                            f,
                            &[Step::Load(0, *a), Step::Load(1, *b), Step::Do(Op::EqMut, 0, 1)],
                            &format!("normalize_eq gave {:?}", r),
                        ));
                    }
                }
            }
            Ok(())
        }));
    }
    out
}

// ------------------------------------------------------------------ C09
fn bfs_ops() -> Vec<Op> {
    vec![
        Op::Add(0),
        Op::Sub(0),
        Op::Mul(0),
        Op::Neg,
        Op::Sq(0),
        Op::SAdd(1, 0),
        Op::SAdd(i32::MAX, 0),
        Op::SAdd(i32::MIN, 0),
        Op::SSub(1, 0),
        Op::SSub(i32::MAX, 0),
        Op::SSub(i32::MIN, 0),
        Op::SMul(2, 0),
        Op::SMul(-1, 0),
        Op::SMul(i32::MAX, 0),
        Op::SMul(i32::MIN, 0),
        Op::Swap,
        Op::Dup,
        Op::Norm,
        Op::Set(0),
        Op::Set(2),
        Op::Set(3),
        Op::MaskSel(true),
        Op::MaskSel(false),
        Op::And(0),
        Op::Or(0),
        Op::PackMut,
    ]
}

fn starts(f: &dyn Field) -> Vec<(U, U)> {
    let md = f.md();
    let one = U::from(1);
    let m1 = md.neg(&one);
    let p1 = pattern(md, f.w(), &[1u8; 16]);
    let top = U::pow2(md.n - 1);
    let mid = md.p.minus(&one).shr1();
    let alt = md.red(&U::from_bytes(&[0xaa; 80]).low(md.n));
    vec![
        (ZERO, one),
        (m1, m1),
        (m1, md.neg(&U::from(2))),
        (p1, m1),
        (mid, mid.plus(&one)),
        (top, U::pow2(f.w()).minus(&one)),
        (alt, mid),
        (md.small(md.c as i64), md.small(-(md.c as i64))),
    ]
}

pub fn c09<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        for (si, st) in starts(f).into_iter().enumerate() {
            out.push(job(format!("history tree {} start {}", f.name(), si), move |cx| {
                bfs(cx, f, st, &bfs_ops(), lv(deep, 4, 5, 6), lv(deep, 150_000, 1_500_000, 6_000_000))
            }));
            if si < 3 || deep {
                out.push(job(format!("history tree with roots and quotients {} start {}", f.name(), si), move |cx| {
                    let mut ops = vec![Op::Inv(0), Op::Div(0), Op::Leg, Op::Sqrt];
                    ops.extend([Op::Add(0), Op::Sub(0), Op::Mul(0), Op::Neg, Op::SAdd(1, 0), Op::SMul(i32::MIN, 0), Op::Swap, Op::Dup]);
                    bfs(cx, f, st, &ops, lv(deep, 3, 3, 4), lv(deep, 6_000, 60_000, 60_000))
                }));
            }
        }
        // lassos: every cycle of up to two (three) operations, repeated
        let ops: Vec<Op> = bfs_ops().into_iter().filter(|o| !matches!(o, Op::Set(_) | Op::PackMut)).collect();
        let reps_n = lv(deep, 300, 1500, 12_000);
        for (si, st) in starts(f).into_iter().enumerate().filter(|(i, _)| deep || *i == 1 || *i == 4 || *i == 6) {
            let ops = ops.clone();
            out.push(job(format!("repeated cycles {} start {}", f.name(), si), move |cx| {
                let n = ops.len();
                for i in 0..n {
                    for j in 0..n {
                        let cyc = if i == j { vec![ops[i]] } else { vec![ops[i], ops[j]] };
                        lasso(cx, f, st, &cyc, reps_n)?;
                    }
                }
                Ok(())
            }));
        }
        // one operation (or two by turns) repeated past every 16-bit counter (deep: 20-bit)
        let times = lv(deep, 1_000, 70_000, 1_100_000);
        for (si, st) in starts(f).into_iter().enumerate().filter(|(i, _)| deep || *i == 3) {
            out.push(job(format!("long runs {} start {}", f.name(), si), move |cx| {
                let one = [
                    Op::Add(0), Op::Sub(0), Op::Mul(0), Op::Sq(0), Op::SAdd(1, 0), Op::SAdd(i32::MAX, 0), Op::SAdd(i32::MIN, 0), Op::SSub(1, 0),
                    Op::SSub(i32::MAX, 0), Op::SSub(i32::MIN, 0), Op::SMul(2, 0), Op::SMul(-1, 0), Op::SMul(i32::MAX, 0), Op::SMul(i32::MIN, 0), Op::Neg,
                ];
                for o in one {
                    long_run(cx, f, st, &[o], times)?;
                }
                for (a, b) in [
                    (Op::Add(0), Op::Neg), (Op::SAdd(i32::MAX, 0), Op::Neg), (Op::Add(0), Op::Swap), (Op::Sub(0), Op::Swap),
                    (Op::Add(0), Op::SSub(i32::MIN, 0)), (Op::SMul(2, 0), Op::SAdd(1, 0)), (Op::SMul(-1, 0), Op::SSub(i32::MAX, 0)), (Op::Add(0), Op::Norm),
                ] {
                    long_run(cx, f, st, &[a, b], times / 2)?;
                }
                Ok(())
            }));
        }
        if deep {
            let times = lv(deep, 100, 100, 600);
            let ops: Vec<Op> = vec![Op::Add(0), Op::Sub(0), Op::Mul(0), Op::Neg, Op::SAdd(i32::MAX, 0), Op::SSub(i32::MAX, 0), Op::SMul(i32::MIN, 0), Op::SMul(i32::MAX, 0), Op::Swap, Op::Sq(0)];
            for (si, st) in starts(f).into_iter().enumerate() {
                let ops = ops.clone();
                out.push(job(format!("repeated triple cycles {} start {}", f.name(), si), move |cx| {
                    for i in 0..ops.len() {
                        for j in 0..ops.len() {
                            for k in 0..ops.len() {
                                lasso(cx, f, st, &[ops[i], ops[j], ops[k]], times)?;
                            }
                        }
                    }
                    Ok(())
                }));
            }
        }
    }
    out
}

/// The integers at which a small multiple or sum may begin to need another
/// carry: +-2^i, +-(2^i - 1), +-(2^i + 1) and a few odd ones.
fn thresholds() -> Vec<i32> {
    let mut ks = vec![3i64, 5, 7, -7, 100, 1000, 121665, 121666, -1174, 65521, 1_000_003];
    for i in 0..32 {
        for d in [-1i64, 0, 1] {
            ks.push((1 << i) + d);
            ks.push(-((1 << i) + d));
        }
    }
    ks.retain(|k| *k as i32 as i64 == *k);
    ks.sort();
    ks.dedup();
    ks.into_iter().map(|k| k as i32).collect()
}

/// Every operation with a small integer (deep: and every second one), and then
/// the operations of the property on what it left, in one register or in both.
/// With `own` the preparing operations are judged, too.
pub fn after_small<'a>(fs: &'a Fields, id: &str, deep: bool) -> Vec<Job<'a>> {
    let own = id == "C09";
    let tails: Vec<Vec<Op>> = match id {
        "C01" => vec![vec![Op::Add(0)], vec![Op::Sub(0)], vec![Op::Neg], vec![Op::Swap, Op::Sub(0)]],
        "C02" => vec![vec![Op::Mul(0)], vec![Op::Sq(0)], vec![Op::Swap, Op::Mul(0)]],
        "C03" => [i32::MAX, i32::MIN, -1, 3, 0x7fff, -0x8000]
            .iter()
            .flat_map(|k| [vec![Op::SMul(*k, 0)], vec![Op::SAdd(*k, 0)], vec![Op::SSub(*k, 0)]])
            .collect(),
        "C04" => vec![vec![Op::Inv(0)], vec![Op::Div(0)]],
        "C05" => vec![vec![Op::Leg]],
        "C06" => vec![vec![Op::Sqrt]],
        "C08" => vec![vec![Op::Norm], vec![Op::EqMut], vec![Op::Dup, Op::Norm, Op::EqMut], vec![Op::EqSelf], vec![Op::Norm, Op::Norm]],
        "C10" => vec![
            vec![Op::And(0)],
            vec![Op::Or(0)],
            vec![Op::MaskSel(true)],
            vec![Op::MaskSel(false)],
            vec![Op::MaskAnd(true, 0)],
            vec![Op::MaskAnd(false, 2)],
            vec![Op::MaskOr(1)],
            vec![Op::Bit(0)],
            vec![Op::Bit(200)],
        ],
        "C11" => vec![vec![Op::Hex(false)], vec![Op::Hex(true)]],
        "C22" => vec![
            vec![Op::Norm, Op::NormRead],
            vec![Op::PackMut, Op::NormRead],
            vec![Op::Bit(3), Op::NormRead],
            vec![Op::EqMut, Op::NormRead, Op::Swap, Op::NormRead],
            vec![Op::And(0), Op::NormRead, Op::Swap, Op::NormRead],
            vec![Op::Or(0), Op::Swap, Op::NormRead],
        ],
        "C09" => bfs_ops().into_iter().map(|o| vec![o]).chain(TAILS.iter().map(|t| t.to_vec())).collect(),
        _ => return vec![],
    };
    let heavy = matches!(id, "C04" | "C05" | "C06" | "C11");
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        for (si, st) in starts(f).into_iter().enumerate() {
            let tails = tails.clone();
            out.push(job(format!("after small integers {} start {}", f.name(), si), move |cx| {
                let ks = thresholds();
                let firsts: Vec<Op> = ks.iter().flat_map(|k| [Op::SMul(*k, 0), Op::SAdd(*k, 0), Op::SSub(*k, 0)]).collect();
                let seconds: Vec<Option<Op>> = if heavy {
                    vec![None]
                } else {
                    let step = lv(deep, 24, 12, 2);
                    let mut v: Vec<Option<Op>> = vec![None];
                    v.extend(ks.iter().step_by(step).map(|k| Some(Op::SMul(*k, 0))));
                    v.extend(ks.iter().step_by(step * 3).flat_map(|k| [Some(Op::SAdd(*k, 0)), Some(Op::SSub(*k, 0)), Some(Op::Neg), Some(Op::Add(0)), Some(Op::Sub(0))]));
                    v
                };
                let load = [Step::Load(0, st.0), Step::Load(1, st.1)];
                let mut m0 = Machine::new();
                for s in load {
                    if !matches!(guarded(|| m0.step(f, &s)), Ok(Ok(_))) {
                        return Ok(());
                    }
                }
                let mut left_out = 0;
                for o1 in firsts.iter() {
                    for both in [false, true] {
                        let mut pre = vec![Step::Do(*o1, 0, 1)];
                        if both {
                            pre.push(Step::Do(*o1, 1, 0));
                        }
                        let m1 = match walk(cx, f, &m0, &pre) {
                            Ok(m) => m,
                            Err(k) => {
                                if own {
                                    let s: Vec<Step> = load.iter().chain(pre[..=k].iter()).copied().collect();
                                    return Err(violation(f, &s, "an operation with a small integer"));
                                }
                                left_out += 1;
                                continue;
                            }
                        };
                        for o2 in seconds.iter().filter(|o| !both || o.is_none()) {
                            let pre2: Vec<Step> = o2.iter().map(|o| Step::Do(*o, 0, 1)).collect();
                            let m2 = match walk(cx, f, &m1, &pre2) {
                                Ok(m) => m,
                                Err(_) => {
                                    if own {
                                        let s: Vec<Step> = load.iter().chain(pre.iter()).chain(pre2.iter()).copied().collect();
                                        return Err(violation(f, &s, "after an operation with a small integer"));
                                    }
                                    left_out += 1;
                                    continue;
                                }
                            };
                            for t in tails.iter() {
                                cx.traces += 1;
                                let post: Vec<Step> = t.iter().map(|o| Step::Do(*o, 0, 1)).collect();
                                if let Err(k) = walk(cx, f, &m2, &post) {
                                    let s: Vec<Step> = load.iter().chain(pre.iter()).chain(pre2.iter()).chain(post[..=k].iter()).copied().collect();
                                    return Err(violation(f, &s, "after operations with small integers"));
                                }
                            }
                            cx.state(f, &m2.e[0], &m2.e[1]);
                        }
                    }
                }
                cx.skipped += left_out;
                Ok(())
            }));
        }
    }
    out
}

fn walk(cx: &mut Cx, f: &dyn Field, from: &Machine, steps: &[Step]) -> Result<Machine, usize> {
    let mut m = Machine { e: from.e, v: from.v };
    for (k, s) in steps.iter().enumerate() {
        cx.transitions += 1;
        if !matches!(guarded(|| m.step(f, s)), Ok(Ok(_))) {
            return Err(k);
        }
    }
    Ok(m)
}

/// Short histories made after a cycle.
const TAILS: [&[Op]; 9] = [
    &[Op::Mul(0), Op::Sq(0)],
    &[Op::Swap, Op::Mul(0)],
    &[Op::Sq(0), Op::Add(0)],
    &[Op::Sub(0), Op::Mul(0)],
    &[Op::Swap, Op::Sub(0), Op::Sq(0)],
    &[Op::Neg, Op::Add(0), Op::Mul(0)],
    &[Op::SMul(i32::MIN, 0), Op::SMul(i32::MAX, 0), Op::Add(0)],
    &[Op::SSub(i32::MIN, 0), Op::SAdd(i32::MAX, 0), Op::SMul(-7, 0)],
    &[Op::EqMut, Op::Norm, Op::Mul(0)],
];

fn lasso(cx: &mut Cx, f: &dyn Field, st: (U, U), cyc: &[Op], times: usize) -> Res {
    let mut m = Machine::new();
    m.v[0] = st.0;
    m.v[1] = st.1;
    m.e[0] = f.mk(&st.0);
    m.e[1] = f.mk(&st.1);
    let mut seen_here: HashSet<Vec<i64>> = HashSet::new();
    cx.traces += 1;
    for t in 0..times {
        for (k, op) in cyc.iter().enumerate() {
            let s = Step::Do(*op, 0, 1);
            let md = f.md();
            // step on the real code; compare register 0 and 1
            let mut m2 = Machine { e: m.e, v: m.v };
            let r = guarded(|| m2.step(f, &s));
            cx.transitions += 1;
            match r {
                Ok(Ok(_)) => m = m2,
                _ => {
                    let mut steps = vec![Step::Load(0, st.0), Step::Load(1, st.1)];
                    for _ in 0..t {
                        for o in cyc {
                            steps.push(Step::Do(*o, 0, 1));
                        }
                    }
                    for o in &cyc[..=k] {
                        steps.push(Step::Do(*o, 0, 1));
                    }
                    let _ = md;
                    return Err(violation(f, &steps, &format!("after {} rounds of {:?}", t, cyc)));
                }
            }
        }
        cx.state(f, &m.e[0], &m.e[1]);
        // the cycle closed: everything after this repeats
        let key: Vec<i64> = m.e[0].0.iter().chain(m.e[1].0.iter()).copied().collect();
        let closed = !seen_here.insert(key);
        // what the cycle left behind must be fit for every operation
        if closed || t + 1 == times || (t + 1).is_power_of_two() {
            for tail in TAILS {
                let mut m2 = Machine { e: m.e, v: m.v };
                for (k, op) in tail.iter().enumerate() {
                    cx.transitions += 1;
                    let s = Step::Do(*op, 0, 1);
                    if !matches!(guarded(|| m2.step(f, &s)), Ok(Ok(_))) {
                        let mut steps = vec![Step::Load(0, st.0), Step::Load(1, st.1)];
                        for _ in 0..=t {
                            steps.extend(cyc.iter().map(|o| Step::Do(*o, 0, 1)));
                        }
                        steps.extend(tail[..=k].iter().map(|o| Step::Do(*o, 0, 1)));
                        return Err(violation(f, &steps, &format!("{:?} after {} rounds of {:?}", tail, t + 1, cyc)));
                    }
                }
            }
        }
        if closed {
            cx.note("cycles closed before the bound", 1);
            break;
        }
    }
    if cx.samples.is_empty() {
        cx.sample(format!("{} from ({},{}) rounds of {:?}", f.name(), st.0.hex(), st.1.hex(), cyc));
    }
    Ok(())
}

/// A cycle repeated `times` times or until its state recurs (found by keeping
/// one state and comparing, the kept state moving up at powers of two).
fn long_run(cx: &mut Cx, f: &dyn Field, st: (U, U), cyc: &[Op], times: usize) -> Res {
    let mut m = Machine::new();
    m.v[0] = st.0;
    m.v[1] = st.1;
    m.e[0] = f.mk(&st.0);
    m.e[1] = f.mk(&st.1);
    let mut kept = m.e;
    cx.traces += 1;
    let steps = |t: usize, k: usize, tail: &[Op]| {
        let mut s = vec![Step::Load(0, st.0), Step::Load(1, st.1)];
        for _ in 0..t {
            s.extend(cyc.iter().map(|o| Step::Do(*o, 0, 1)));
        }
        s.extend(cyc[..k].iter().chain(tail.iter()).map(|o| Step::Do(*o, 0, 1)));
        s
    };
    for t in 0..times {
        for (k, op) in cyc.iter().enumerate() {
            cx.transitions += 1;
            if !matches!(guarded(|| m.step(f, &Step::Do(*op, 0, 1))), Ok(Ok(_))) {
                return Err(violation(f, &steps(t, k + 1, &[]), &format!("round {} of {:?}", t + 1, cyc)));
            }
        }
        let closed = m.e[0].0 == kept[0].0 && m.e[1].0 == kept[1].0;
        if closed || t + 1 == times || (t + 1).is_power_of_two() {
            cx.state(f, &m.e[0], &m.e[1]);
            for tail in TAILS {
                let mut m2 = Machine { e: m.e, v: m.v };
                for (k, op) in tail.iter().enumerate() {
                    cx.transitions += 1;
                    if !matches!(guarded(|| m2.step(f, &Step::Do(*op, 0, 1))), Ok(Ok(_))) {
                        return Err(violation(f, &steps(t + 1, 0, &tail[..=k]), &format!("{:?} after {} rounds of {:?}", tail, t + 1, cyc)));
                    }
                }
            }
        }
        if closed {
            cx.note("cycles closed before the bound", 1);
            return Ok(());
        }
        if (t + 1).is_power_of_two() {
            kept = m.e;
        }
    }
    Ok(())
}

/// Breadth-first exploration of all histories up to `depth`, merging states
/// whose two registers hold byte-identical elements (the registers are all the
/// state there is, so merged states have the same futures).
fn bfs(cx: &mut Cx, f: &dyn Field, st: (U, U), ops: &[Op], depth: usize, cap: usize) -> Res {
    let mut m0 = Machine::new();
    m0.v[0] = st.0;
    m0.v[1] = st.1;
    m0.e[0] = f.mk(&st.0);
    m0.e[1] = f.mk(&st.1);
    let l = (f.md().n + f.w() - 1) / f.w();
    let key = |m: &Machine| -> Vec<i64> { m.e[0].0[..l].iter().chain(m.e[1].0[..l].iter()).copied().collect() };
    // node: elements, values, parent, op
    struct Node {
        e: [Elem; 2],
        v: [U; 2],
        parent: u32,
        op: u8,
    }
    let mut nodes: Vec<Node> = vec![Node { e: [m0.e[0], m0.e[1]], v: [m0.v[0], m0.v[1]], parent: u32::MAX, op: 0 }];
    let mut seen: HashSet<Vec<i64>> = HashSet::new();
    seen.insert(key(&m0));
    let mut frontier: VecDeque<(u32, usize)> = VecDeque::new();
    frontier.push_back((0, 0));
    let mut complete_depth = depth;
    let mut capped = false;
    while let Some((ni, d)) = frontier.pop_front() {
        if d == depth {
            continue;
        }
        for (oi, op) in ops.iter().enumerate() {
            let mut m = Machine::new();
            m.e[0] = nodes[ni as usize].e[0];
            m.e[1] = nodes[ni as usize].e[1];
            m.v[0] = nodes[ni as usize].v[0];
            m.v[1] = nodes[ni as usize].v[1];
            let r = guarded(|| m.step(f, &Step::Do(*op, 0, 1)));
            cx.transitions += 1;
            match r {
                Ok(Ok(true)) => {
                    if d + 1 == depth {
                        // leaves are checked but not kept
                        cx.state(f, &m.e[0], &m.e[1]);
                        cx.traces += 1;
                        continue;
                    }
                    if nodes.len() >= cap {
                        if !capped {
                            capped = true;
                            complete_depth = d + 1;
                        }
                        cx.state(f, &m.e[0], &m.e[1]);
                        continue;
                    }
                    if seen.insert(key(&m)) {
                        cx.state(f, &m.e[0], &m.e[1]);
                        nodes.push(Node { e: [m.e[0], m.e[1]], v: [m.v[0], m.v[1]], parent: ni, op: oi as u8 });
                        frontier.push_back((nodes.len() as u32 - 1, d + 1));
                    }
                }
                Ok(Ok(false)) => cx.out_of_domain += 1,
                _ => {
                    let mut path = vec![Step::Do(*op, 0, 1)];
                    let mut k = ni;
                    while nodes[k as usize].parent != u32::MAX {
                        path.push(Step::Do(ops[nodes[k as usize].op as usize], 0, 1));
                        k = nodes[k as usize].parent;
                    }
                    path.push(Step::Load(1, st.1));
                    path.push(Step::Load(0, st.0));
                    path.reverse();
                    let e = match r {
                        Err(p) => format!("panic: {}", p),
                        Ok(Err(e)) => e,
                        _ => unreachable!(),
                    };
                    return Err(violation(f, &path, &e));
                }
            }
        }
    }
    if capped {
        cx.note(&format!("trees complete to depth {} only (node cap)", complete_depth), 1);
    } else {
        cx.note(&format!("trees complete to depth {}", depth), 1);
    }
    if cx.samples.is_empty() {
        cx.sample(format!("{} all histories of {} operations to depth {} from ({},{})", f.name(), ops.len(), depth, st.0.hex(), st.1.hex()));
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
pub fn c10<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let w = f.w();
        let l = limbs(md, w);
        out.push(job(format!("nbits {}", f.name()), move |cx| {
            cx.transitions += 1;
            cx.traces += 1;
            if f.nbits() != md.n {
                return Err(violation(f, &[], &format!("nbits() is {} for a {}-bit field", f.nbits(), md.n)));
            }
            Ok(())
        }));
        let mut vs = edge(md, w, lv(deep, 16, 16, 600), if deep { 1 } else { 8 });
        vs.extend(patterns(md, w, pat_alpha(l, deep)));
        vs.extend(wins(f, more()));
        let vs = Arc::new(dedup(vs));
        let chunks = lv(deep, 2, 8, 64);
        for c in 0..chunks {
            let vs = vs.clone();
            out.push(job(format!("all bits {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                for v in vs[(c * vs.len() / chunks)..((c + 1) * vs.len() / chunks)].iter() {
                    for x in reps(f, v, &[0, 1, 3, 22, 23], &mut sk) {
                        // one normalized copy for the normalized reads
                        let mut ne = x.e;
                        let mut t = BLANK;
                        let r = guarded(|| f.apply(Op::Norm, &mut ne, &mut t));
                        cx.state(f, &x.e, &ne);
                        for i in 0..md.n {
                            let a = guarded(|| f.apply(Op::Bit(i as u16), &mut x.e.clone(), &mut t).unwrap());
                            let b = guarded(|| f.bit_normalized(&ne, i));
                            cx.transitions += 2;
                            cx.traces += 1;
                            if r.is_err() || a != Ok(v.bit(i)) || b != Ok(v.bit(i)) {
                                let mut s = place(md, &x, 0, None);
                                s.push(Step::Do(Op::Bit(i as u16), 0, 1));
                                return Err(violation(f, &s, &format!("bit {} read as {:?} / normalized {:?}", i, a, b)));
                            }
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
        // and / or, all forms, on edge pairs and representations
        let mut ev = edge(md, w, lv(deep, 4, 4, 24), lv(deep, 1000, 1000, 3));
        if !deep {
            ev = ev.into_iter().enumerate().filter(|(i, _)| *i < 24 || i % 6 == 0).map(|x| x.1).collect();
        }
        let ops: Vec<Op> = (0..3).map(Op::And).chain((0..3).map(Op::Or)).collect();
        let ev = Arc::new(ev);
        for c in 0..chunks {
            let (ev, ops) = (ev.clone(), ops.clone());
            out.push(job(format!("and/or {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                let rs = all_reps(f, &ev, &[0, 1, 3]);
                for i in (c * ev.len() / chunks)..((c + 1) * ev.len() / chunks) {
                    for j in 0..ev.len() {
                        for (k, &op) in ops.iter().enumerate() {
                            for x in rs[i].iter() {
                                let y = match rs[j].get((k + j) % rs[j].len().max(1)) {
                                    Some(y) => y,
                                    None => continue,
                                };
                                case_bits(cx, f, op, x, y)?;
                            }
                        }
                    }
                }
                sk += 0;
                cx.skipped += sk;
                Ok(())
            }));
        }
        let pv = Arc::new(patterns(md, w, if l <= 5 { &[0, 1, 5] } else { &[0, 1] }));
        let stepv = if l >= 8 && !deep { 5 } else { 1 };
        out.push(job(format!("and/or patterns {}", f.name()), move |cx| {
            for a in pv.iter().step_by(stepv) {
                for b in pv.iter().step_by(stepv) {
                    case_bits(cx, f, Op::And(2), &rep0(f, a), &rep0(f, b))?;
                    case_bits(cx, f, Op::Or(2), &rep0(f, a), &rep0(f, b))?;
                }
            }
            Ok(())
        }));
        // the mask type has no reader: its memory is all ones or all zeros
        out.push(job(format!("mask type {}", f.name()), move |cx| {
            for bit in [true, false] {
                for over in [None, Some(true), Some(false)] {
                    cx.transitions += 1;
                    cx.traces += 1;
                    let got = guarded(|| f.mask_bytes(over, bit));
                    let want = if bit { 0xff } else { 0 };
                    if !matches!(&got, Ok(b) if b.iter().all(|x| *x == want)) {
                        let text = match over {
                            None => format!("the mask of {} made by filled({}) is {:x?}", f.name(), bit, got),
                            Some(o) => format!("the mask of {} made by filled({}) and fill({}) is {:x?}", f.name(), o, bit, got),
                        };
                        return Err(Violation { replay: format!("kind mask\nfield {}\n# {}\n", f.name(), text), text });
                    }
                }
            }
            Ok(())
        }));
        // masks: selection keeps the selected value whatever its representation
        let vs2 = vs.clone();
        out.push(job(format!("masks {}", f.name()), move |cx| {
            let mut sk = 0;
            let others: Vec<Rep> = [ZERO, md.neg(&U::from(1)), U::pow2(md.n - 1)]
                .iter()
                .flat_map(|v| reps(f, v, &[0, 1, 3, 20, 23], &mut sk))
                .collect();
            for v in vs2.iter() {
                for x in reps(f, v, &ALL_RECIPES, &mut sk) {
                    for y in others.iter() {
                        for bit in [true, false] {
                            let want = if bit { x.v } else { y.v };
                            case2m(cx, f, Op::MaskSel(bit), &x, y, &want)?;
                        }
                    }
                    for form in 0..4 {
                        case1(cx, f, Op::MaskAnd(true, form), &x, &x.v)?;
                        case1(cx, f, Op::MaskAnd(false, form), &x, &ZERO)?;
                        case1(cx, f, Op::MaskOr(form), &x, &x.v)?;
                    }
                }
            }
            cx.skipped += sk;
            Ok(())
        }));
    }
    out
}

fn case2m(cx: &mut Cx, f: &dyn Field, op: Op, a: &Rep, b: &Rep, want: &U) -> Res {
    case2(cx, f, op, a, b, want)
}

/// and/or: the bits of the result are the and/or of the bits (and b keeps its value)
fn case_bits(cx: &mut Cx, f: &dyn Field, op: Op, a: &Rep, b: &Rep) -> Res {
    let n = f.nbytes();
    let want = expect(f, op, &a.v, &b.v).unwrap();
    let (mut ea, mut eb) = (a.e, b.e);
    let mut ba = [0u8; 80];
    let mut bb = [0u8; 80];
    let r = guarded(|| {
        f.apply(op, &mut ea, &mut eb);
        f.pack(&ea, &mut ba[..n]);
        f.pack(&eb, &mut bb[..n]);
    });
    cx.transitions += 3;
    cx.traces += 1;
    cx.state(f, &a.e, &b.e);
    if r.is_ok() && ba[..n] == want.to_bytes()[..n] && bb[..n] == b.v.to_bytes()[..n] {
        return Ok(());
    }
    Err(fail2(f, op, a, Some(b), &want, r.err(), &ba[..n]))
}

// ------------------------------------------------------------------ C22
/// Operations documented to normalize leave their arguments readable by the
/// functions that assume a normalized element.
pub fn c22<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    use Step::Do;
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let w = f.w();
        let l = limbs(md, w);
        let mut vs = edge(md, w, lv(deep, 30, 60, 2000), if deep { 1 } else { 4 });
        vs.extend(patterns(md, w, pat_alpha(l, deep)));
        vs.extend(windows(md, w, &[0, 2, 3, 6, 8], &[0, 1]));
        let vs = Arc::new(dedup(vs));
        let chunks = lv(deep, 4, 16, 128);
        for c in 0..chunks {
            let vs2 = vs.clone();
            out.push(job(format!("single operands {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                let mut ops = vec![Op::Norm, Op::PackMut, Op::Packed, Op::MaskAnd(true, 1), Op::MaskAnd(true, 3), Op::MaskAnd(false, 1), Op::MaskOr(1), Op::MaskOr(3)];
                let bits = if deep { (0..md.n).step_by(5).chain(Some(md.n - 1)).collect::<Vec<_>>() } else { vec![0, w - 1, w, md.n / 2, md.n - 1] };
                ops.extend(bits.into_iter().map(|i| Op::Bit(i as u16)));
                for v in vs2[(c * vs2.len() / chunks)..((c + 1) * vs2.len() / chunks)].iter() {
                    for x in reps(f, v, &ALL_RECIPES, &mut sk) {
                        for &op in &ops {
                            case_m(cx, f, &[], &x, None, &[Do(op, 0, 1), Do(Op::NormRead, 0, 1)])?;
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
            let mut ev = edge(md, w, 4, 1000);
            if !deep {
                ev = ev.into_iter().enumerate().filter(|(i, _)| *i < 24 || i % 5 == 0).map(|x| x.1).collect();
            }
            out.push(job(format!("pairs {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                let rs: Vec<Vec<Rep>> = ev.iter().map(|v| reps(f, v, if deep { &MAIN_RECIPES } else { &[0, 1, 3, 22, 23] }, &mut sk)).collect();
                for i in 0..ev.len() {
                    if i % chunks != c {
                        continue;
                    }
                    for j in 0..ev.len() {
                        for (k, x) in rs[i].iter().enumerate() {
                            let y = &rs[j][(i + k) % rs[j].len()];
                            // equal values too
                            let z = &rs[i][(j + k) % rs[i].len()];
                            for y in [y, z] {
                                case_m(cx, f, &[], x, Some(y), &[Do(Op::EqMut, 0, 1), Do(Op::NormRead, 0, 1), Do(Op::NormRead, 1, 0)])?;
                                case_m(cx, f, &[], x, Some(y), &[Do(Op::EqSelf, 0, 1), Do(Op::NormRead, 0, 1)])?;
                                case_m(cx, f, &[], x, Some(y), &[Do(Op::And(0), 0, 1), Do(Op::NormRead, 0, 1), Do(Op::NormRead, 1, 0)])?;
                                // the or of two canonical numbers may be p or more
                                case_m(cx, f, &[], x, Some(y), &[Do(Op::Or(0), 0, 1), Do(Op::NormRead, 1, 0)])?;
                            }
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
    }
    out
}

// ------------------------------------------------------------------ C11
pub fn c11<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let w = f.w();
        let l = limbs(md, w);
        let mut vs = edge(md, w, 300, if deep { 1 } else { 3 });
        vs.extend(wins(f, more()));
        // every byte value at every byte position, over two backgrounds
        for pos in 0..f.nbytes() {
            for b in 0..256u64 {
                for bg in [0u8, 0xff, 0xa5] {
                    if bg == 0xa5 && !deep {
                        continue;
                    }
                    let mut by = [0u8; 80];
                    for x in by[..f.nbytes()].iter_mut() {
                        *x = bg;
                    }
                    by[pos] = b as u8;
                    let v = U::from_bytes(&by[..f.nbytes()]).low(md.n);
                    if v.lt(&md.p) {
                        vs.push(v);
                    }
                }
            }
        }
        if more() {
            // and pairs of neighbouring bytes whose nibbles are 0, 1, 9, a or f
            let nib = [0u64, 1, 9, 10, 15];
            for pos in 0..f.nbytes() - 1 {
                for k in 0..625usize {
                    for bg in [0u8, 0xff, 0x0a, 0xa0] {
                        let mut by = [0u8; 80];
                        for x in by[..f.nbytes()].iter_mut() {
                            *x = bg;
                        }
                        by[pos] = (nib[k % 5] << 4 | nib[k / 5 % 5]) as u8;
                        by[pos + 1] = (nib[k / 25 % 5] << 4 | nib[k / 125]) as u8;
                        let v = U::from_bytes(&by[..f.nbytes()]).low(md.n);
                        if v.lt(&md.p) {
                            vs.push(v);
                        }
                    }
                }
            }
        }
        vs.extend(patterns(md, w, pat_alpha(l, deep)));
        let vs = Arc::new(dedup(vs));
        let chunks = lv(deep, 4, 8, 64);
        for c in 0..chunks {
            let vs = vs.clone();
            out.push(job(format!("hex {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                for (i, v) in vs[(c * vs.len() / chunks)..((c + 1) * vs.len() / chunks)].iter().enumerate() {
                    let which: &[u8] = if i % 16 == 0 || deep { &ALL_RECIPES } else { &[0, 1, 3, 22] };
                    for x in reps(f, v, which, &mut sk) {
                        case_m(cx, f, &[], &x, None, &[Step::Do(Op::Hex(false), 0, 1), Step::Do(Op::Hex(true), 0, 1)])?;
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
    }
    out
}

// ------------------------------------------------------------------ C12
fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

fn draw(f: &dyn Field, script: &[u64], used: &mut usize) -> Result<U, String> {
    let mut i = 0usize;
    let mut src = || {
        let w = if i < script.len() { script[i] } else { mix(i as u64) };
        i += 1;
        if i > 100_000 {
            panic!("the generator was asked for more than 100000 words");
        }
        w
    };
    let r = guarded(|| {
        let e = f.rand(&mut src);
        f.val(&e)
    });
    *used = i;
    r
}

pub fn c12<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let l = limbs(md, f.w());
        let fail = move |script: &[u64], text: String| -> Violation {
            let s: Vec<String> = script.iter().map(|x| format!("{:x}", x)).collect();
            Violation {
                text: format!("{}: {}", f.name(), text),
                replay: format!("kind rand\nfield {}\nwords {}\n# {}\n", f.name(), s.join(" "), text),
            }
        };
        let check = move |cx: &mut Cx, script: &[u64]| -> Result<U, Violation> {
            let (mut u1, mut u2) = (0, 0);
            let a = draw(f, script, &mut u1);
            let b = draw(f, script, &mut u2);
            cx.transitions += 2;
            cx.traces += 1;
            match (a, b) {
                (Ok(x), Ok(y)) if x == y && u1 == u2 && x.lt(&md.p) => {
                    let mut h = 0u64;
                    for w in x.0.iter() {
                        h = mix(h ^ w);
                    }
                    cx.fp(h ^ md.n as u64);
                    if cx.samples.is_empty() {
                        cx.sample(format!("{} words {:x?} -> {}", f.name(), &script[..script.len().min(4)], x.hex()));
                    }
                    Ok(x)
                }
                (Err(p), _) => Err(fail(script, format!("drawing panicked: {}", p))),
                (a, b) => Err(fail(script, format!("drew {:?} and {:?} (words used {} / {})", a.map(|x| x.hex()), b.map(|x| x.hex()), u1, u2))),
            }
        };
        // all word vectors over a small alphabet, one word per digit (and two spare)
        let alpha: Vec<u64> = vec![0, u64::MAX, 0x5555_5555_5555_5555, 1 << 63];
        let len = l;
        let k = if more() { 4u64 } else if deep && l <= 8 { 4 } else if l <= 7 { 3 } else { 2 };
        let total = k.pow(len as u32);
        let alpha2 = alpha.clone();
        out.push(job(format!("generator words {}", f.name()), move |cx| {
            for idx in 0..total {
                let mut x = idx;
                let script: Vec<u64> = (0..len)
                    .map(|_| {
                        let c = alpha2[(x % k) as usize];
                        x /= k;
                        c
                    })
                    .collect();
                check(cx, &script)?;
            }
            Ok(())
        }));
        // single-word deviations from constant streams
        out.push(job(format!("single deviations {}", f.name()), move |cx| {
            for base in [0u64, 0x0123_4567_89ab_cdef, u64::MAX >> 1] {
                for pos in 0..l {
                    for i in 0..64 {
                        for v in [1u64 << i, !(1u64 << i), (1u64 << i).wrapping_sub(1)] {
                            let mut s = vec![base; l + 2];
                            s[pos] = v;
                            check(cx, &s)?;
                        }
                    }
                }
            }
            Ok(())
        }));
        if more() {
            out.push(job(format!("pairs of deviations {}", f.name()), move |cx| {
                for base in [0u64, u64::MAX >> 1] {
                    for i in 0..l * 64 {
                        for j in 0..i {
                            let mut s = vec![base; l + 2];
                            s[i / 64] ^= 1 << (i % 64);
                            s[j / 64] ^= 1 << (j % 64);
                            check(cx, &s)?;
                        }
                    }
                }
                Ok(())
            }));
        }
        // rejection at each position
        out.push(job(format!("rejected words {}", f.name()), move |cx| {
            for pos in 0..l {
                for n in 0..8 {
                    let mut s: Vec<u64> = (0..l as u64).map(|i| mix(i + 1000)).collect();
                    for _ in 0..n {
                        s.insert(pos, u64::MAX);
                    }
                    check(cx, &s)?;
                }
            }
            Ok(())
        }));
        // no bit of the element is stuck, none is tied to another
        let streams = lv(deep, 512u64, 4096, 65536);
        out.push(job(format!("no stuck or tied bits {}", f.name()), move |cx| {
            let words = (streams / 64) as usize;
            let mut col = vec![vec![0u64; words]; md.n];
            let mut scripts = vec![];
            for s in 0..streams {
                let script: Vec<u64> = (0..l as u64 + 4).map(|i| mix(s * 1000 + i)).collect();
                let v = check(cx, &script)?;
                for i in 0..md.n {
                    if v.bit(i) {
                        col[i][(s / 64) as usize] |= 1 << (s % 64);
                    }
                }
                scripts.push(script);
            }
            for i in 0..md.n {
                let ones: u32 = col[i].iter().map(|x| x.count_ones()).sum();
                if ones == 0 || ones as u64 == streams {
                    return Err(fail(&scripts[0], format!("bit {} is the same in all {} drawn elements", i, streams)));
                }
                for j in 0..i {
                    let same = (0..words).all(|k| col[i][k] == col[j][k]);
                    let opp = (0..words).all(|k| col[i][k] == !col[j][k]);
                    if same || opp {
                        return Err(fail(&scripts[0], format!("bits {} and {} always move together", j, i)));
                    }
                }
            }
            cx.note("bit pairs compared", (md.n * (md.n - 1) / 2) as u64);
            Ok(())
        }));
    }
    out
}

// ------------------------------------------------------------------ C25
/// Every operation returns (no panic, no overflow, no endless loop: the
/// watchdog sees those) on every element, whether or not its result there is
/// defined; and so do the operations that follow on what it left.
fn exec_any(f: &dyn Field, e: &mut [Elem; 2], op: Op) {
    let [a, b] = e;
    match op {
        Op::EqMut => {
            f.eq_mut(a, b);
        }
        Op::EqSelf => {
            f.apply(Op::Norm, b, &mut BLANK.clone());
            f.eq_self(a, b);
        }
        Op::Hex(up) => {
            f.hex(a, up);
        }
        Op::Packed => {
            f.packed(a);
        }
        Op::PackNorm => {
            f.apply(Op::Norm, a, &mut BLANK.clone());
            f.pack_normalized(a, &mut [0u8; 80][..f.nbytes()]);
        }
        Op::Reload => {
            let p = f.packed(a);
            f.unpack_into(a, &p);
        }
        _ => {
            f.apply(op, a, b);
        }
    }
}

/// Steps (loads of any number that fits the bytes of an encoding) without judging results.
pub fn run_any(f: &dyn Field, steps: &[Step]) -> Result<(), (usize, String)> {
    let mut e = [f.mk(&ZERO); 4];
    for (i, s) in steps.iter().enumerate() {
        let r = guarded(|| match *s {
            Step::Load(r, v) => e[r as usize] = f.mk(&v),
            Step::Do(op, a, b) => {
                let mut p = [e[a as usize], e[b as usize]];
                exec_any(f, &mut p, op);
                e[a as usize] = p[0];
                if a != b {
                    e[b as usize] = p[1];
                }
            }
        });
        if let Err(t) = r {
            return Err((i, t));
        }
    }
    Ok(())
}

fn total_fail(f: &dyn Field, steps: &[Step], how: &str) -> Violation {
    let text = format!("{}: {:?} did not return: {}", f.name(), steps.last().unwrap(), how);
    let lines: Vec<String> = steps.iter().map(|s| format!("{:?}", s)).collect();
    Violation { replay: format!("kind total\nfield {}\n{}\n# {}\n", f.name(), lines.join("\n"), text), text }
}

fn all_ops() -> Vec<Op> {
    vec![
        Op::Inv(0), Op::Div(0), Op::Leg, Op::Sqrt, Op::Add(0), Op::Sub(0), Op::Mul(0), Op::Neg, Op::Sq(0), Op::SAdd(1, 0),
        Op::SAdd(i32::MAX, 0), Op::SSub(i32::MAX, 0), Op::SAdd(i32::MIN, 0), Op::SMul(i32::MAX, 0), Op::SMul(i32::MIN, 0), Op::SMul(-1, 0),
        Op::Swap, Op::Dup, Op::Norm, Op::PackMut, Op::And(0), Op::Or(0), Op::Bit(0), Op::MaskSel(true), Op::MaskSel(false), Op::EqMut,
        Op::EqSelf, Op::Hex(false), Op::PackNorm, Op::Packed, Op::Reload,
    ]
}

pub fn c25<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let w = f.w();
        let l = limbs(md, w);
        let one = U::from(1);
        let non = (2u64..).map(U::from).find(|v| md.jacobi(v) == -1).unwrap();
        let full = U::pow2(md.n).minus(&one);
        // elements and encodings whose number is not reduced, up to the last bit of the last byte
        let mut ops: Vec<U> = vec![
            ZERO, one, md.neg(&one), non, md.neg(&non), U::from(4), pattern(md, w, &[1u8; 16]), U::pow2(md.n - 1),
            md.p, md.p.plus(&one), md.p.plus(&non), full, U::pow2(8 * f.nbytes()).minus(&one),
        ];
        if md.n < 8 * f.nbytes() {
            ops.push(U::pow2(md.n));
        }
        ops.extend((1..l).map(|i| U::pow2(w * i).minus(&one)));
        let ops = Arc::new(dedup(ops.into_iter().filter(|v| v.lt(&U::pow2(8 * f.nbytes()))).collect()));
        let chunks = ops.len();
        for c in 0..chunks {
            let ops = ops.clone();
            out.push(job(format!("any operations after any operations {} {}/{}", f.name(), c, chunks), move |cx| {
                let a = ops[c];
                let al = all_ops();
                for b in ops.iter() {
                    let start = [Step::Load(0, a), Step::Load(1, *b)];
                    if let Err((i, t)) = run_any(f, &start) {
                        return Err(total_fail(f, &start[..=i], &t));
                    }
                    let mut level: Vec<(Vec<Op>, [Elem; 2])> = vec![(vec![], [f.mk(&a), f.mk(b)])];
                    let mut seen = std::collections::HashSet::new();
                    for d in 0..lv(deep, 2, 2, 3) {
                        let mut next = vec![];
                        for (path, e) in level.iter() {
                            for op in al.iter() {
                                let mut k = *e;
                                let r = guarded(|| exec_any(f, &mut k, *op));
                                cx.transitions += 1;
                                cx.traces += 1;
                                let mut p = path.clone();
                                p.push(*op);
                                if let Err(t) = r {
                                    let steps: Vec<Step> = start.iter().copied().chain(p.iter().map(|o| Step::Do(*o, 0, 1))).collect();
                                    return Err(total_fail(f, &steps, &t));
                                }
                                if seen.insert((k[0].0, k[1].0)) {
                                    cx.state(f, &k[0], &k[1]);
                                    next.push((p, k));
                                }
                            }
                        }
                        level = next;
                        let _ = d;
                    }
                }
                cx.sample(format!("{}: every operation after every other, from {} and each of {} operands", f.name(), a.hex(), ops.len()));
                Ok(())
            }));
        }
        // the operations with a domain, on everything in every form, and then on their results
        let mut vs = edge(md, w, lv(deep, 20, 20, 200), if deep { 2 } else { 8 });
        vs.extend(patterns(md, w, pat_alpha(l, false)));
        vs.push(ZERO);
        let step = lv(deep, 8, 8, 1);
        let vs: Vec<U> = dedup(vs).into_iter().enumerate().filter(|(i, _)| *i < 60 || i % step == 0).map(|x| x.1).collect();
        let vs = Arc::new(vs);
        let chunks = lv(deep, 4, 4, 32);
        for c in 0..chunks {
            let vs = vs.clone();
            out.push(job(format!("operations outside their domain {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                let zeros = reps(f, &ZERO, &ALL_RECIPES, &mut sk);
                for (i, v) in vs.iter().enumerate().filter(|(i, _)| i % chunks == c) {
                    let rs = reps(f, v, if i < 60 { &ALL_RECIPES } else { &[0, 1, 3] }, &mut sk);
                    for x in rs.iter() {
                        for (oi, op) in [Op::Inv(0), Op::Inv(1), Op::Sqrt, Op::Leg, Op::Div(0), Op::Div(3)].into_iter().enumerate() {
                            let ys = if oi < 4 { &zeros[..1] } else if i < 8 { &zeros[..] } else { &zeros[..2.min(zeros.len())] };
                            for y in ys {
                                let mut e = [x.e, y.e];
                                let mut done = vec![op];
                                let mut r = guarded(|| exec_any(f, &mut e, op));
                                cx.transitions += 1;
                                cx.traces += 1;
                                cx.state(f, &e[0], &e[1]);
                                for more in [Op::Mul(0), Op::Sq(0), Op::SMul(i32::MIN, 0), Op::Norm, Op::PackMut] {
                                    if r.is_err() {
                                        break;
                                    }
                                    done.push(more);
                                    r = guarded(|| exec_any(f, &mut e, more));
                                    cx.transitions += 1;
                                }
                                if let Err(t) = r {
                                    let mut s = place(md, x, 0, Some((y, 1)));
                                    s.extend(done.iter().map(|o| Step::Do(*o, 0, 1)));
                                    return Err(total_fail(f, &s, &t));
                                }
                            }
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
    }
    out
}

// ------------------------------------------------------------------ C19
pub fn c19<'a>(fs: &'a Fields, deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for f in fs.iter() {
        let f: &dyn Field = f.as_ref();
        let md = f.md();
        let w = f.w();
        let ev = edge(md, w, lv(deep, 4, 4, 30), lv(deep, 1000, 1000, 12));
        let n = ev.len();
        let core: Vec<U> = ev.iter().enumerate().filter(|(i, _)| *i < 20 || i % (if deep { 3 } else { 7 }) == 0).map(|x| *x.1).collect();
        let mut ops = vec![];
        for i in 0..4 {
            ops.push(Op::Add(i));
            ops.push(Op::Sub(i));
            ops.push(Op::Mul(i));
        }
        let _ = n;
        sweep_pairs(&mut out, "binary forms", f, lv(deep, 4, 8, 64), ops, core.clone(), core.clone(), &[0, 1, 3]);
        let dv: Vec<U> = core.iter().step_by(if deep { 6 } else { 16 }).copied().chain([U::from(1), U::from(2)]).collect();
        sweep_pairs(&mut out, "quotient forms", f, 2, forms(Op::Div), dv.clone(), dv.clone(), &[0, 3]);
        sweep_unary(
            &mut out,
            "unary forms",
            f,
            2,
            vec![Op::Sq(0), Op::Sq(1), Op::Inv(0), Op::Inv(1), Op::Neg],
            core.iter().step_by(3).copied().collect(),
            &[0, 1, 3],
        );
        let core = Arc::new(core);
        let chunks = 4;
        for c in 0..chunks {
            let core = core.clone();
            out.push(job(format!("small forms {} {}/{}", f.name(), c, chunks), move |cx| {
                let mut sk = 0;
                let mut ks: Vec<i32> = k32();
                ks.extend((-128..128).filter(|k| deep || k % 5 == 0));
                let rs: Vec<Rep> = core.iter().step_by(if deep { 2 } else { 6 }).flat_map(|v| reps(f, v, &[0, 1, 3], &mut sk)).collect();
                for ki in (c * ks.len() / chunks)..((c + 1) * ks.len() / chunks) {
                    for op in sforms(ks[ki]) {
                        for x in rs.iter() {
                            let want = expect(f, op, &x.v, &ZERO).unwrap();
                            case1(cx, f, op, x, &want)?;
                        }
                    }
                }
                cx.skipped += sk;
                Ok(())
            }));
        }
    }
    out
}

#[allow(dead_code)]
fn unused() {
    let _ = lazy(|| 0u8).get();
}
