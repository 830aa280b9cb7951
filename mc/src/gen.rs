//! Input alphabets: residues chosen at every boundary the representation has,
//! and every distinct internal representation of a residue that a fixed list
//! of recipes (short operation sequences) can produce.

use crate::field::{Elem, Field, Op};
use crate::machine::Step;
use crate::run::guarded;
use crate::num::{Md, U, ZERO};
use std::collections::HashSet;

pub fn dedup(v: Vec<U>) -> Vec<U> {
    let mut s = HashSet::new();
    v.into_iter().filter(|x| s.insert(*x)).collect()
}

/// Residues at the edges: 0..s, p-s..p, the halves, alternating patterns, and
/// 2^i with neighbours (every `step`-th i and every i near a limb boundary).
pub fn edge(md: &Md, w: usize, s: u64, step: usize) -> Vec<U> {
    let mut v = vec![];
    let one = U::from(1);
    let neg = |x: &U| md.neg(x);
    for k in 0..s {
        v.push(U::from(k));
    }
    for k in 1..=s {
        v.push(neg(&md.red(&U::from(k))));
    }
    // around the constant c = 2^n - p: values whose fold-back is delicate
    for d in -2i64..=2 {
        v.push(md.small(md.c as i64 + d));
        v.push(md.small(-(md.c as i64) + d));
        v.push(md.small(2 * md.c as i64 + d));
        v.push(md.small(-2 * (md.c as i64) + d));
    }
    let half = md.p.minus(&one).shr1();
    v.push(half);
    v.push(half.plus(&one));
    v.push(half.minus(&one));
    for pat in [0x55u8, 0xaa, 0x33, 0xcc, 0x0f, 0xf0] {
        v.push(md.red(&U::from_bytes(&[pat; 80]).low(md.n)));
    }
    for i in 0..md.n {
        let near = {
            let m = i % w;
            m <= 1 || m + 2 >= w || m == w / 2 || m == w / 2 - 1 || i + 2 >= md.n
        };
        if !near && i % step != 0 {
            continue;
        }
        let p2 = U::pow2(i);
        for x in [p2, p2.minus(&one), p2.plus(&one)] {
            let x = md.red(&x);
            v.push(x);
            v.push(neg(&x));
        }
    }
    // runs of ones covering whole limbs
    let l = (md.n + w - 1) / w;
    for i in 0..l {
        for j in i..l {
            let hi = ((j + 1) * w).min(md.n);
            let run = U::pow2(hi).minus(&U::pow2(i * w));
            v.push(md.red(&run));
            v.push(neg(&md.red(&run)));
        }
    }
    dedup(v)
}

/// Limb-pattern residues: every vector of limbs from an alphabet of digits.
/// digit codes: 0 -> 0, 1 -> max, 2 -> 1, 3 -> max-1, 4 -> half, 5 -> low half full, 6 -> high half full
pub fn digit(code: u8, bits: usize) -> u64 {
    let max = (1u64 << bits) - 1;
    let h = bits / 2;
    match code {
        0 => 0,
        1 => max,
        2 => 1,
        3 => max - 1,
        4 => 1 << (bits - 1),
        5 => (1u64 << h) - 1,
        6 => max ^ ((1u64 << h) - 1),
        7 => 2,
        8 => 0x5555_5555_5555_5555 & max,
        9 => 0xaaaa_aaaa_aaaa_aaaa & max,
        10 => 1 << h,
        11 => (1 << h) + 1,
        12 => 0x5555_5555_5555_5555 & max & !((1u64 << h) - 1),
        13 => 0x5555_5555_5555_5555 & max | ((1u64 << h) - 1),
        _ => max - 2,
    }
}
pub const N_CODES: u8 = 15;

/// Every pair of digit contents from `alpha` in every pair of digit positions, on
/// backgrounds of zeros, of ones and of mixed bits, and the same at distance 1, 2 and C
/// from the values 2^(digit border) and p.
pub fn windows(md: &Md, w: usize, alpha: &[u8], bgs: &[u8]) -> Vec<U> {
    let l = limbs(md, w);
    let mut v = vec![];
    for &bg in bgs {
        for i in 0..l {
            for j in i + 1..l {
                for &ci in alpha {
                    for &cj in alpha {
                        let mut c = vec![bg; l];
                        c[i] = ci;
                        c[j] = cj;
                        v.push(pattern(md, w, &c));
                    }
                }
            }
        }
    }
    let near: Vec<U> = v.iter().step_by(7).copied().collect();
    for d in [1, 2, md.c as i64] {
        for s in [1, -1] {
            for x in near.iter() {
                v.push(md.add(x, &md.small(s * d)));
            }
        }
    }
    dedup(v)
}

pub fn limbs(md: &Md, w: usize) -> usize {
    (md.n + w - 1) / w
}

pub fn pattern(md: &Md, w: usize, codes: &[u8]) -> U {
    let l = limbs(md, w);
    let mut r = ZERO;
    for i in 0..l {
        let bits = if i + 1 == l { md.n - w * (l - 1) } else { w };
        r = r.or(&U::from(digit(codes[i], bits)).shl(w * i));
    }
    md.red(&r)
}

pub fn nth_codes(l: usize, alpha: &[u8], mut idx: u64) -> Vec<u8> {
    (0..l)
        .map(|_| {
            let c = alpha[(idx % alpha.len() as u64) as usize];
            idx /= alpha.len() as u64;
            c
        })
        .collect()
}

pub fn patterns(md: &Md, w: usize, alpha: &[u8]) -> Vec<U> {
    let l = limbs(md, w);
    let n = (alpha.len() as u64).pow(l as u32);
    dedup((0..n).map(|i| pattern(md, w, &nth_codes(l, alpha, i))).collect())
}

#[derive(Clone, Copy)]
pub struct Rep {
    pub v: U,
    pub e: Elem,
    pub how: u8,
}

pub const N_RECIPES: u8 = 26;

/// The steps that leave residue v in register 0, or None if recipe r does not
/// apply to v.  Registers 1 and 2 are scratch.
pub fn recipe(md: &Md, r: u8, v: &U) -> Option<Vec<Step>> {
    use Step::*;
    let one = U::from(1);
    let m1 = md.neg(&one);
    let big = md.p.minus(&one).shr1(); // (p-1)/2
    let i31 = i32::MAX;
    Some(match r {
        0 => vec![Load(0, *v)],
        // + p: carry 1 in the top digit
        1 => vec![Load(0, m1), Load(1, md.add(v, &one)), Do(Op::Add(0), 0, 1)],
        2 => vec![Load(0, big), Load(1, md.sub(v, &big)), Do(Op::Add(0), 0, 1)],
        // - p: negative top digit
        3 => vec![Load(0, ZERO), Load(1, md.neg(v)), Do(Op::Sub(0), 0, 1)],
        4 => vec![Load(0, *v), Load(1, m1), Do(Op::Sub(0), 0, 1), Do(Op::SSub(1, 0), 0, 1)],
        5 => vec![Load(0, md.neg(v)), Do(Op::Neg, 0, 1)],
        6 => vec![Load(0, *v), Do(Op::Neg, 0, 1), Do(Op::Neg, 0, 1)],
        // products
        7 => vec![Load(0, *v), Load(1, one), Do(Op::Mul(0), 0, 1)],
        8 => vec![Load(0, md.neg(v)), Load(1, m1), Do(Op::Mul(0), 0, 1)],
        9 => vec![Load(0, md.neg(v)), Do(Op::SMul(-1, 0), 0, 1)],
        10 => vec![Load(0, *v), Do(Op::SMul(1, 0), 0, 1)],
        11 => vec![Load(0, md.mul(v, &md.inv(&md.small(i32::MIN as i64)))), Do(Op::SMul(i32::MIN, 0), 0, 1)],
        12 => vec![Load(0, md.mul(v, &md.inv(&md.small(i31 as i64)))), Do(Op::SMul(i31, 0), 0, 1)],
        // small sums
        13 => vec![Load(0, md.sub(v, &md.small(i31 as i64))), Do(Op::SAdd(i31, 0), 0, 1)],
        14 => vec![Load(0, md.add(v, &md.small(i31 as i64))), Do(Op::SSub(i31, 0), 0, 1)],
        15 => vec![Load(0, md.sub(v, &one)), Do(Op::SAdd(1, 0), 0, 1)],
        16 => vec![Load(0, md.add(v, &one)), Do(Op::SSub(1, 0), 0, 1)],
        // deeper: carries fed from carries
        17 => {
            // v = a + a + a + b with a = -1 unnormalized
            let b = md.add(v, &U::from(3));
            vec![Load(0, m1), Load(1, m1), Do(Op::Add(0), 0, 1), Do(Op::Add(0), 0, 1), Load(1, b), Do(Op::Add(0), 0, 1)]
        }
        18 => {
            // x = -(v+1) as a lazily negative number, then x' = -1 - x
            vec![
                Load(1, ZERO),
                Load(0, md.neg(&md.add(v, &one))),
                Do(Op::Sub(0), 1, 0),
                Load(0, m1),
                Do(Op::Add(0), 0, 1),
            ]
        }
        19 => {
            // lazily positive plus lazily positive: (m1+m1) + (m1 + (v+3))
            vec![
                Load(0, m1),
                Load(1, m1),
                Do(Op::Add(0), 0, 1),
                Load(2, md.add(v, &U::from(3))),
                Do(Op::Add(0), 1, 2),
                Do(Op::Add(0), 0, 1),
            ]
        }
        20 => {
            // lazily negative minus lazily positive: (0-1... ) - (m1 + x)
            // value: (0 - m1) - (m1 + x) = 1 + 1 - x  => x = 2 - v
            vec![
                Load(0, ZERO),
                Load(1, m1),
                Do(Op::Sub(0), 0, 1),
                Load(2, md.sub(&U::from(2), v)),
                Do(Op::Add(0), 1, 2),
                Do(Op::Sub(0), 0, 1),
            ]
        }
        21 => {
            // mask selection of a lazily positive representation (no normalization)
            vec![
                Load(0, m1),
                Load(1, md.add(v, &one)),
                Do(Op::Add(0), 0, 1),
                Load(1, one),
                Do(Op::MaskSel(true), 0, 1),
            ]
        }
        22 => {
            // a non-canonical digit vector below 2^n, made by the bitwise or
            if !v.lt(&U::from(md.c)) {
                return None;
            }
            let x = md.p.plus(v);
            let t = U::pow2(md.n - 1);
            let lo = x.minus(&t);
            vec![Load(0, lo), Load(1, t), Do(Op::Or(2), 0, 1)]
        }
        23 => {
            if !v.is_zero() {
                return None;
            }
            vec![Do(Op::Set(3), 0, 1)]
        }
        24 => {
            if !v.is_zero() {
                return None;
            }
            // modulus - modulus, lazily
            vec![Load(0, ZERO), Do(Op::Set(3), 1, 2), Do(Op::Sub(0), 0, 1)]
        }
        25 => vec![Load(0, *v), Do(Op::Set(3), 1, 2), Do(Op::Add(0), 0, 1)],
        _ => return None,
    })
}

/// The value of the digits in memory.  Used only to decide whether a recipe
/// worked when packing says it did not (packing may be what is broken).
fn digit_value(f: &dyn Field, e: &Elem) -> U {
    let md = f.md();
    let mut r = ZERO;
    for i in 0..limbs(md, f.w()) {
        r = md.add(&r, &md.mul(&md.small(e.0[i]), &md.red(&U::pow2(f.w() * i))));
    }
    r
}

/// Execute a recipe without looking at anything in between.
fn run_blind(f: &dyn Field, steps: &[Step]) -> Option<Elem> {
    guarded(|| {
        let mut e = [f.mk(&ZERO); 4];
        for s in steps {
            match *s {
                Step::Load(r, v) => e[r as usize] = f.mk(&v),
                Step::Do(op, a, b) => {
                    let (mut x, mut y) = (e[a as usize], e[b as usize]);
                    f.apply(op, &mut x, &mut y);
                    e[a as usize] = x;
                    if a != b {
                        e[b as usize] = y;
                    }
                }
            }
        }
        e[0]
    })
    .ok()
}

/// All distinct representations of v the recipes reach (the plain one first).
/// A recipe whose own result is wrong is left out: that is the business of
/// the check of the operations it uses (C01-C03, C09), counted in `skipped`.
pub fn reps(f: &dyn Field, v: &U, which: &[u8], skipped: &mut u64) -> Vec<Rep> {
    let mut out: Vec<Rep> = vec![];
    for &r in which {
        if let Some(steps) = recipe(f.md(), r, v) {
            match run_blind(f, &steps) {
                Some(e) => {
                    if out.iter().any(|x| x.e == e) {
                        continue;
                    }
                    let packed = guarded(|| f.val(&e) == *v).unwrap_or(false);
                    if packed || digit_value(f, &e) == *v {
                        out.push(Rep { v: *v, e, how: r });
                    } else {
                        *skipped += 1;
                    }
                }
                None => *skipped += 1,
            }
        }
    }
    if out.is_empty() {
        // even the plain load looks wrong: check it all the same
        if let Ok(e) = guarded(|| f.mk(v)) {
            out.push(Rep { v: *v, e, how: 0 });
        }
    }
    out
}

pub const ALL_RECIPES: [u8; 26] =
    [0, 1, 3, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25];
/// the ones that matter most, for the large sweeps
pub const MAIN_RECIPES: [u8; 8] = [0, 1, 3, 8, 22, 23, 20, 11];

/// Trace that puts rep a in register `ra` and rep b in register `rb`.
pub fn place(md: &Md, a: &Rep, ra: u8, b: Option<(&Rep, u8)>) -> Vec<Step> {
    // registers used by the recipe: 0,1,2 ; parking place: 3
    let mut s = recipe(md, a.how, &a.v).unwrap();
    match b {
        None => {
            if ra != 0 {
                s.push(Step::Do(Op::Swap, 0, ra));
            }
            s
        }
        Some((b, rb)) => {
            s.push(Step::Do(Op::Swap, 0, 3));
            s.extend(recipe(md, b.how, &b.v).unwrap());
            assert!(ra == 0 && rb == 1);
            s.push(Step::Do(Op::Swap, 0, 1)); // b in 1
            s.push(Step::Do(Op::Swap, 0, 3)); // a in 0
            s
        }
    }
}

// ------------------------------------------------ operands solved for products

/// Inverse of an odd a modulo 2^k.
pub fn inv_pow2(a: &U, k: usize) -> U {
    // Newton: x := x (2 - a x), doubling the number of right bits
    let mut x = *a; // right to 3 bits
    let mut good = 3;
    while good < k {
        let ax = mul_low(a, &x, k);
        let t = U::pow2(k).plus(&U::from(2)).minus(&ax).low(k);
        x = mul_low(&x, &t, k);
        good *= 2;
    }
    x.low(k)
}

/// a*b modulo 2^k (k <= 640).
pub fn mul_low(a: &U, b: &U, k: usize) -> U {
    let mut r = [0u64; 10];
    let l = (k + 63) / 64;
    for i in 0..l {
        let mut c = 0u128;
        for j in 0..l - i {
            let t = a.0[i] as u128 * b.0[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
    }
    U(r).low(k)
}

/// ceil(H * 2^n / a), for a >= 2^(n-1)-ish so that the quotient stays below 2^(n+2).
pub fn div_high(h: &U, n: usize, a: &U) -> U {
    let (mut q, mut rem) = (ZERO, ZERO);
    let top = h.bits() + n;
    for i in (0..top).rev() {
        rem = rem.shl(1);
        if i >= n && h.bit(i - n) {
            rem.0[0] |= 1;
        }
        q = q.shl(1);
        if rem.ge(a) {
            rem = rem.minus(a);
            q.0[0] |= 1;
        }
    }
    if rem.is_zero() {
        q
    } else {
        q.plus(&U::from(1))
    }
}

/// floor(sqrt(H * 2^n + L))
pub fn isqrt(h: &U, l: &U, n: usize) -> U {
    let bit = |i: usize| if i >= n { h.bit(i - n) } else { l.bit(i) };
    let (mut root, mut rem) = (ZERO, ZERO);
    let pairs = (h.bits() + n + 1) / 2;
    for i in (0..pairs).rev() {
        rem = rem.shl(2);
        rem.0[0] |= (bit(2 * i + 1) as u64) << 1 | bit(2 * i) as u64;
        let t = root.shl(2).plus(&U::from(1));
        root = root.shl(1);
        if rem.ge(&t) {
            rem = rem.minus(&t);
            root.0[0] |= 1;
        }
    }
    root
}

/// A root of L (= 1 mod 8) modulo 2^n.
pub fn sqrt_pow2(l: &U, n: usize) -> U {
    let mut x = U::from(1);
    let mut sq = U::from(1);
    for i in 3..n {
        if sq.bit(i) != l.bit(i) {
            // (x + 2^(i-1))^2 = x^2 + 2^i x + 2^(2i-2)
            sq = sq.plus(&x.shl(i).low(n)).plus(&if 2 * i - 2 < n { U::pow2(2 * i - 2) } else { ZERO }).low(n);
            x = x.plus(&U::pow2(i - 1));
        }
    }
    x
}

/// n-bit numbers whose half digits run through the values at which the
/// multiplication by C and the carry between digits are about to tip over:
/// every window of `win` neighbouring half digits over the alphabet, on each
/// of the backgrounds.
pub fn fold_patterns(md: &Md, w: usize, win: usize, offset: usize) -> Vec<U> {
    let hw = w / 2;
    let mask = (1u64 << hw) - 1;
    let ci = inv_pow2(&U::from(md.c), hw).0[0];
    let mut alpha = vec![0, mask, mask & ci.wrapping_neg(), ci, (1u64 << hw) / md.c & mask, ((1u64 << hw) / md.c + 1) & mask, mask - 1, 1 << (hw - 1)];
    alpha.sort();
    alpha.dedup();
    let m = (md.n - offset + hw - 1) / hw;
    let mut v = vec![];
    for bg in 0..4 {
        let back = |i: usize| match bg {
            0 => 0,
            1 => mask,
            2 => ci & mask,
            _ => {
                if i % 2 == 0 {
                    mask
                } else {
                    0
                }
            }
        };
        let base: Vec<u64> = (0..m).map(back).collect();
        for at in 0..m {
            let k = alpha.len().pow(win as u32);
            for mut idx in 0..k {
                let mut d = base.clone();
                for j in 0..win {
                    if at + j < m {
                        d[at + j] = alpha[idx % alpha.len()];
                    }
                    idx /= alpha.len();
                }
                let mut x = ZERO;
                for (i, d) in d.iter().enumerate() {
                    x = x.or(&U::from(*d).shl(offset + i * hw));
                }
                v.push(x.low(md.n));
            }
        }
    }
    dedup(v)
}
