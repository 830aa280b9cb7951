//! The crate's own generic point code (EdwardsExtended<C>) run over toy prime
//! fields so small that every point, every projective representation, every
//! scalar and every curve parameter can be enumerated.  The toy field mirrors
//! the contract of the real ones: lazily reduced, so that normalized reads of a
//! non-normal value give garbage (and are counted), masks are all-ones words.

use crate::run::*;
use crate::watch;
use rand::{Rand, Rng};
use safecurves_rust::curve::edwards::{EdwardsCurve, EdwardsExtended};
use safecurves_rust::curve::point::Point;
use safecurves_rust::field::prime_field::PrimeField;
use safecurves_rust::normalize::{Normalize, NormalizeEq};
use safecurves_rust::pack::Pack;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::ops::*;

thread_local! {
    static P: Cell<i64> = Cell::new(13);
    static D: Cell<i64> = Cell::new(2);
    static MISREAD: Cell<u64> = Cell::new(0);
    static TRACING: Cell<bool> = Cell::new(false);
    static TRACE: RefCell<Vec<u32>> = RefCell::new(Vec::new());
}

fn p() -> i64 {
    P.with(|x| x.get())
}
#[inline]
fn ev(code: u32) {
    if TRACING.with(|t| t.get()) {
        TRACE.with(|t| {
            let mut t = t.borrow_mut();
            if t.len() >= 4_000_000 {
                panic!("{}performs more than four million field operations in one call", crate::run::IMPL_PANIC);
            }
            t.push(code)
        });
    }
}

#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
pub struct T(pub i64);

impl T {
    fn v(&self) -> i64 {
        self.0.rem_euclid(p())
    }
    /// keep the lazy value within (-2p, 3p)
    fn lazy(r: i64) -> T {
        let p = p();
        let mut r = r;
        while r >= 3 * p {
            r -= 2 * p;
        }
        while r <= -2 * p {
            r += 2 * p;
        }
        T(r)
    }
}

macro_rules! binop {
    ($Tr:ident, $m:ident, $TrA:ident, $ma:ident, $code:expr, $f:expr) => {
        impl $Tr<T> for T {
            type Output = T;
            fn $m(self, o: T) -> T {
                ev($code);
                let f: fn(T, T) -> T = $f;
                f(self, o)
            }
        }
        impl<'a> $Tr<&'a T> for T {
            type Output = T;
            fn $m(self, o: &'a T) -> T {
                ev($code);
                let f: fn(T, T) -> T = $f;
                f(self, *o)
            }
        }
        impl<'a, 'b> $Tr<&'b T> for &'a T {
            type Output = T;
            fn $m(self, o: &'b T) -> T {
                ev($code);
                let f: fn(T, T) -> T = $f;
                f(*self, *o)
            }
        }
        impl $TrA<T> for T {
            fn $ma(&mut self, o: T) {
                ev($code);
                let f: fn(T, T) -> T = $f;
                *self = f(*self, o)
            }
        }
        impl<'a> $TrA<&'a T> for T {
            fn $ma(&mut self, o: &'a T) {
                ev($code);
                let f: fn(T, T) -> T = $f;
                *self = f(*self, *o)
            }
        }
    };
}
fn tmul(a: T, b: T) -> T {
    let r = a.v() * b.v() % p();
    // sometimes leave the product unnormalized, as the real fields do
    if (a.0 ^ b.0) & 1 == 1 {
        T(r + p())
    } else {
        T(r)
    }
}
fn tinv(a: T) -> T {
    let p = p();
    let (mut r, mut b, mut e) = (1i64, a.v(), p - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    T(r)
}
binop!(Add, add, AddAssign, add_assign, 1, |a, b| T::lazy(a.0 + b.0));
binop!(Sub, sub, SubAssign, sub_assign, 2, |a, b| T::lazy(a.0 - b.0));
binop!(Mul, mul, MulAssign, mul_assign, 3, tmul);
binop!(Div, div, DivAssign, div_assign, 4, |a, b| tmul(a, tinv(b)));

macro_rules! small {
    ($($t:ty),*) => {$(
        impl Add<$t> for T { type Output = T; fn add(self, k: $t) -> T { self.small_add(k as i32) } }
        impl Sub<$t> for T { type Output = T; fn sub(self, k: $t) -> T { self.small_sub(k as i32) } }
        impl Mul<$t> for T { type Output = T; fn mul(self, k: $t) -> T { self.small_mul(k as i32) } }
        impl AddAssign<$t> for T { fn add_assign(&mut self, k: $t) { self.small_add_assign(k as i32) } }
        impl SubAssign<$t> for T { fn sub_assign(&mut self, k: $t) { self.small_sub_assign(k as i32) } }
        impl MulAssign<$t> for T { fn mul_assign(&mut self, k: $t) { self.small_mul_assign(k as i32) } }
    )*};
}
small!(i8, i16, i32);

impl Neg for T {
    type Output = T;
    fn neg(self) -> T {
        ev(5);
        T::lazy(-self.0)
    }
}
impl Normalize for T {
    fn normalize(&mut self) {
        ev(6);
        self.0 = self.v();
    }
}
impl NormalizeEq for T {
    fn normalize_self_eq(&mut self, o: &T) -> bool {
        ev(7);
        self.0 = self.v();
        self.0 == o.0
    }
    fn normalize_eq(&mut self, o: &mut T) -> bool {
        ev(8);
        self.0 = self.v();
        o.0 = o.v();
        self.0 == o.0
    }
}
impl Rand for T {
    fn rand<R: Rng>(r: &mut R) -> T {
        T(r.gen_range(0, p()))
    }
}
impl Pack for T {
    fn unpack(&mut self, b: &[u8]) {
        self.0 = b[0] as i64 | (b[1] as i64) << 8;
    }
    fn unpacked(b: &[u8]) -> T {
        T(b[0] as i64 | (b[1] as i64) << 8)
    }
    fn pack(&mut self, b: &mut [u8]) {
        ev(9);
        self.0 = self.v();
        self.pack_normalized(b)
    }
    fn pack_normalized(&self, b: &mut [u8]) {
        ev(10);
        b[0] = self.0 as u8;
        b[1] = (self.0 >> 8) as u8;
    }
    fn nbytes() -> i32 {
        2
    }
}
fn nb() -> usize {
    64 - (p() as u64).leading_zeros() as usize
}
impl PrimeField for T {
    fn nbits() -> usize {
        nb()
    }
    fn bit(&mut self, i: usize) -> bool {
        ev(1000 + i as u32);
        self.0 = self.v();
        (self.0 >> i) & 1 == 1
    }
    fn bit_normalized(&self, i: usize) -> bool {
        ev(2000 + i as u32);
        if self.0 < 0 || self.0 >= p() {
            MISREAD.with(|m| m.set(m.get() + 1));
        }
        (self.0 >> i) & 1 == 1
    }
    fn fill(&mut self, b: bool) {
        ev(11);
        self.0 = -(b as i64);
    }
    fn filled(b: bool) -> T {
        ev(12);
        T(-(b as i64))
    }
    fn normalize_bitand(&mut self, o: &mut T) {
        ev(13);
        self.0 = self.v() & o.v();
    }
    fn normalize_self_bitand(&mut self, o: &T) {
        ev(14);
        self.0 = self.v() & o.0;
    }
    fn normalized_bitand(&mut self, o: &T) {
        ev(15);
        self.0 &= o.0;
    }
    fn normalize_bitor(&mut self, o: &mut T) {
        ev(16);
        self.0 = self.v() | o.v();
    }
    fn normalize_self_bitor(&mut self, o: &T) {
        ev(17);
        self.0 = self.v() | o.0;
    }
    fn normalized_bitor(&mut self, o: &T) {
        ev(18);
        self.0 |= o.0;
    }
    fn zero() -> T {
        T(0)
    }
    fn one() -> T {
        T(1)
    }
    fn m_one() -> T {
        T(p() - 1)
    }
    fn modulus() -> T {
        T(p())
    }
    fn square(&mut self) {
        ev(3);
        *self = tmul(*self, *self);
    }
    fn squared(&self) -> T {
        ev(3);
        tmul(*self, *self)
    }
    fn invert(&mut self) {
        ev(19);
        *self = tinv(*self);
    }
    fn inverted(&self) -> T {
        ev(19);
        tinv(*self)
    }
    fn legendre(&self) -> T {
        ev(20);
        let (mut r, q) = (1i64, p());
        for _ in 0..(q - 1) / 2 {
            r = r * self.v() % q;
        }
        T(r)
    }
    fn sqrt(&self) -> T {
        ev(21);
        for x in 0..p() {
            if x * x % p() == self.v() {
                return T(x);
            }
        }
        T(0)
    }
    fn small_add_assign(&mut self, k: i32) {
        ev(22);
        *self = T::lazy(self.0 + (k as i64) % p());
    }
    fn small_add(&self, k: i32) -> T {
        let mut o = *self;
        o.small_add_assign(k);
        o
    }
    fn small_sub_assign(&mut self, k: i32) {
        ev(23);
        *self = T::lazy(self.0 - (k as i64) % p());
    }
    fn small_sub(&self, k: i32) -> T {
        let mut o = *self;
        o.small_sub_assign(k);
        o
    }
    fn small_mul_assign(&mut self, k: i32) {
        ev(24);
        *self = T(self.v() * (k as i64 % p()) % p());
    }
    fn small_mul(&self, k: i32) -> T {
        let mut o = *self;
        o.small_mul_assign(k);
        o
    }
}

#[derive(Clone, Copy)]
pub struct ToyCurve;
impl EdwardsCurve for ToyCurve {
    type Scalar = T;
    fn d_val() -> T {
        T(D.with(|d| d.get()))
    }
}
type E = EdwardsExtended<ToyCurve>;

fn to_raw(e: &E) -> [i64; 4] {
    assert_eq!(std::mem::size_of::<E>(), 32, "a point is expected to be four field elements");
    unsafe { *(e as *const E as *const [i64; 4]) }
}
fn from_raw(r: [i64; 4]) -> E {
    unsafe { *(&r as *const [i64; 4] as *const E) }
}

/// memory slot of x, y, z, t (by calibration, as in curve.rs)
fn order() -> [usize; 4] {
    P.with(|x| x.set(10007));
    let mut cand = [[true; 4]; 4];
    for k in 2..6i64 {
        let (x, y) = (17 * k + 3, 4001 + 5 * k);
        let mut e = E::zero();
        e.init(T(x), T(y));
        let r = to_raw(&e);
        for i in 0..4 {
            let v = r[i].rem_euclid(10007);
            cand[0][i] &= v == x;
            cand[1][i] &= v == y;
            cand[2][i] &= v == 1;
            cand[3][i] &= v == x * y % 10007;
        }
    }
    let mut ord = [usize::MAX; 4];
    for c in 0..4 {
        let w: Vec<usize> = (0..4).filter(|i| cand[c][*i]).collect();
        if w.len() == 1 && !ord.contains(&w[0]) {
            ord[c] = w[0];
        }
    }
    for c in 0..4 {
        if ord[c] == usize::MAX {
            ord[c] = (0..4).find(|i| !ord.contains(i)).unwrap();
        }
    }
    ord
}

struct W {
    inside: watch::In,
    p: i64,
    d: i64,
    ord: [usize; 4],
    inv: Vec<i64>,
    pts: Vec<(i64, i64)>,
}

impl W {
    fn enter(p: i64, d: i64) -> W {
        let ord = order();
        P.with(|x| x.set(p));
        D.with(|x| x.set(d));
        TRACING.with(|t| t.set(false));
        let mut inv = vec![0; p as usize];
        for a in 1..p {
            for b in 1..p {
                if a * b % p == 1 {
                    inv[a as usize] = b;
                }
            }
        }
        let mut pts = vec![];
        for x in 0..p {
            for y in 0..p {
                if (x * x + y * y - 1 - d * (x * x % p) % p * (y * y % p)).rem_euclid(p) == 0 {
                    pts.push((x, y));
                }
            }
        }
        let inside = watch::enter(|| format!("the first operation of the toy instance p={} d={}", p, d));
        W { inside, p, d, ord, inv, pts }
    }
    fn add(&self, a: (i64, i64), b: (i64, i64)) -> (i64, i64) {
        let p = self.p;
        let k = self.d * (a.0 * b.0 % p) % p * (a.1 * b.1 % p) % p;
        let nx = (a.0 * b.1 + b.0 * a.1) % p;
        let ny = (a.1 * b.1 - a.0 * b.0).rem_euclid(p);
        let (d1, d2) = ((1 + k).rem_euclid(p), (1 - k).rem_euclid(p));
        assert!(d1 != 0 && d2 != 0);
        (nx * self.inv[d1 as usize] % p, ny * self.inv[d2 as usize] % p)
    }
    /// projective representation with scale l; `lazy` adds multiples of p to the digits
    fn mk(&self, a: (i64, i64), l: i64, lazy: usize) -> E {
        let p = self.p;
        let v = [l * a.0 % p, l * a.1 % p, l, l * (a.0 * a.1 % p) % p];
        let mut r = [0i64; 4];
        for i in 0..4 {
            let off = match (lazy + i) % 3 {
                _ if lazy == 0 => 0,
                0 => 0,
                1 => p,
                _ => -p,
            };
            r[self.ord[i]] = v[i] + off;
        }
        from_raw(r)
    }
    fn judge(&self, e: &E, a: (i64, i64)) -> Result<(), String> {
        let p = self.p;
        self.inside.again(|| format!("the toy instance p={} d={}, after the result {:?} for the point {:?}", p, self.d, to_raw(e), a));
        let r = to_raw(e);
        let c: Vec<i64> = (0..4).map(|i| r[self.ord[i]].rem_euclid(p)).collect();
        if c[2] == 0 {
            return Err(format!("Z = 0 in {:?}", c));
        }
        if c[0] != a.0 * c[2] % p || c[1] != a.1 * c[2] % p {
            return Err(format!("{:?} is not the point {:?}", c, a));
        }
        if c[3] * c[2] % p != c[0] * c[1] % p {
            return Err(format!("X*Y != Z*T in {:?}", c));
        }
        Ok(())
    }
    fn fail(&self, text: String) -> Violation {
        Violation {
            text: format!("generic point code over F_{} with d={}: {}", self.p, self.d, text),
            replay: format!("kind toy\np {}\nd {}\n# {}\n", self.p, self.d, text),
        }
    }
}

fn primes(from: i64, to: i64) -> Vec<i64> {
    (from..=to).filter(|n| (2..*n).all(|k| n % k != 0)).collect()
}
fn nonsquares(p: i64) -> Vec<i64> {
    let sq: HashSet<i64> = (1..p).map(|x| x * x % p).collect();
    (2..p).filter(|d| !sq.contains(d)).collect()
}

fn st(cx: &mut Cx, w: &W, a: &E, b: &E) {
    let mut h = (w.p as u64) << 20 ^ w.d as u64;
    for x in to_raw(a).iter().chain(to_raw(b).iter()) {
        h = (h ^ *x as u64).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 32;
    }
    cx.fp(h);
}

/// (p, d) pairs for a tier: all nonsquare d for the smallest primes, then the
/// smallest and the largest nonsquare.
fn curves(all_upto: i64, some_upto: i64) -> Vec<(i64, i64)> {
    let mut v = vec![];
    for q in primes(5, some_upto) {
        let ns = nonsquares(q);
        if q <= all_upto {
            v.extend(ns.iter().map(|d| (q, *d)));
        } else {
            v.push((q, ns[0]));
            v.push((q, *ns.last().unwrap()));
        }
    }
    v
}

fn scales(p: i64, all: bool) -> Vec<i64> {
    if all {
        (1..p).collect()
    } else {
        vec![1, p - 1, 2, (p + 1) / 2]
    }
}

pub fn c14<'a>(deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    let full = lv(deep, 13, 23, 41);
    for (q, d) in curves(lv(deep, 17, 31, 61), lv(deep, 61, 127, 251)) {
        out.push(job(format!("toy all additions p={} d={}", q, d), move |cx| {
            let w = W::enter(q, d);
            let ls = scales(q, q <= full);
            let lz: &[usize] = if q <= full { &[0, 1, 2] } else { &[0, 2] };
            for (i, &a) in w.pts.iter().enumerate() {
                for &b in w.pts.iter() {
                    let want = w.add(a, b);
                    for (li, &l) in ls.iter().enumerate() {
                        for (mi, &m) in ls.iter().enumerate() {
                            for &z in lz {
                                let x = w.mk(a, l, z);
                                let y = w.mk(b, m, (z * 2) % 3);
                                let y0 = to_raw(&y);
                                let mut r = x;
                                match (i + li + mi) % 4 {
                                    0 => r += &y,
                                    1 => r += y,
                                    2 => r = &x + &y,
                                    _ => r = x + y,
                                }
                                cx.transitions += 1;
                                cx.traces += 1;
                                st(cx, &w, &x, &y);
                                if let Err(e) = w.judge(&r, want) {
                                    return Err(w.fail(format!("{:?} (scale {}) + {:?} (scale {}), digits {:?} and {:?}: {}", a, l, b, m, to_raw(&x), y0, e)));
                                }
                                if to_raw(&y) != y0 {
                                    return Err(w.fail("the second operand was modified".into()));
                                }
                            }
                        }
                    }
                    // the same point added to itself by reference to a copy
                    if a == b {
                        let x = w.mk(a, 1, 0);
                        let r = x + x;
                        if let Err(e) = w.judge(&r, want) {
                            return Err(w.fail(format!("{:?} + itself: {}", a, e)));
                        }
                    }
                }
            }
            cx.sample(format!("all {} points of x^2+y^2=1+{}x^2y^2 over F_{}, pairwise, {} scales", w.pts.len(), d, q, ls.len()));
            Ok(())
        }));
    }
    out
}

pub fn c15<'a>(deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for (q, d) in curves(lv(deep, 43, 127, 251), lv(deep, 199, 499, 997)) {
        out.push(job(format!("toy all doublings and triplings p={} d={}", q, d), move |cx| {
            let w = W::enter(q, d);
            for &a in w.pts.iter() {
                let two = w.add(a, a);
                let three = w.add(two, a);
                for l in 1..q {
                    for z in 0..3 {
                        let x = w.mk(a, l, z);
                        let (mut r2, mut r3) = (x, x);
                        r2.double();
                        r3.triple();
                        let (s2, s3) = (x.doubled(), x.tripled());
                        cx.transitions += 4;
                        cx.traces += 4;
                        st(cx, &w, &x, &x);
                        for (r, want, n) in [(r2, two, "double"), (s2, two, "doubled"), (r3, three, "triple"), (s3, three, "tripled")] {
                            if let Err(e) = w.judge(&r, want) {
                                return Err(w.fail(format!("{} of {:?} (scale {}, digits {:?}): {}", n, a, l, to_raw(&x), e)));
                            }
                        }
                    }
                }
            }
            cx.sample(format!("all {} points over F_{} d={}, all scales", w.pts.len(), q, d));
            Ok(())
        }));
    }
    out
}

pub fn c16<'a>(deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for (q, d) in curves(lv(deep, 17, 43, 53), lv(deep, 61, 127, 199)) {
        out.push(job(format!("toy all multiples p={} d={}", q, d), move |cx| {
            let w = W::enter(q, d);
            let ls = scales(q, q <= lv(deep, 13, 31, 43));
            for &a in w.pts.iter() {
                let mut want = (0, 1);
                for k in 0..q {
                    for &l in ls.iter() {
                        for z in 0..3 {
                            let x = w.mk(a, l, z);
                            // normalized scalar, and lazily reduced ones
                            for (form, raw) in [(0, k), (1, k), (1, k + q), (1, k - q)] {
                                let mut r = x;
                                let mut s = T(raw);
                                MISREAD.with(|m| m.set(0));
                                if form == 0 {
                                    r.scalar_mult_normalized(&s);
                                } else {
                                    r.scalar_mult(&mut s);
                                }
                                cx.transitions += 1;
                                cx.traces += 1;
                                st(cx, &w, &x, &w.mk((k, raw), 1, 0));
                                if let Err(e) = w.judge(&r, want) {
                                    return Err(w.fail(format!("{} * {:?} (scale {}, scalar digits {}): {}", k, a, l, raw, e)));
                                }
                                if s.v() != k {
                                    return Err(w.fail(format!("scalar {} changed to {}", k, s.v())));
                                }
                                if MISREAD.with(|m| m.get()) > 0 {
                                    return Err(w.fail("a normalized read was made of a scalar that is not normal".into()));
                                }
                            }
                        }
                    }
                    want = w.add(want, a);
                }
            }
            cx.sample(format!("all {} points x all {} scalars over F_{} d={}", w.pts.len(), q, q, d));
            Ok(())
        }));
    }
    out
}

pub fn c17<'a>(deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for (q, d) in curves(lv(deep, 31, 61, 199), lv(deep, 97, 199, 499)) {
        out.push(job(format!("toy constructions p={} d={}", q, d), move |cx| {
            let w = W::enter(q, d);
            let z = E::zero();
            if let Err(e) = w.judge(&z, (0, 1)) {
                return Err(w.fail(format!("zero(): {}", e)));
            }
            for (i, &a) in w.pts.iter().enumerate() {
                for &(ox, oy) in [(0, 0), (q, 0), (-q, q), (q, -q), (0, q)].iter() {
                    let prev = w.pts[(i * 7 + 3) % w.pts.len()];
                    let mut e = w.mk(prev, 1 + (i as i64 % (q - 1)), i % 3);
                    e.init(T(a.0 + ox), T(a.1 + oy));
                    cx.transitions += 3;
                    cx.traces += 3;
                    st(cx, &w, &e, &z);
                    if let Err(er) = w.judge(&e, a) {
                        return Err(w.fail(format!("init{:?} over {:?}: {}", a, prev, er)));
                    }
                    for r in [e + z, z + e] {
                        if let Err(er) = w.judge(&r, a) {
                            return Err(w.fail(format!("{:?} plus the neutral element: {}", a, er)));
                        }
                    }
                    let mut n = z;
                    n.init(T(-a.0 + ox), T(a.1 + oy));
                    for l in 1..q {
                        let s = w.mk(a, l, 1) + n;
                        cx.transitions += 1;
                        cx.traces += 1;
                        if let Err(er) = w.judge(&s, (0, 1)) {
                            return Err(w.fail(format!("{:?} plus its inverse: {}", a, er)));
                        }
                    }
                }
            }
            cx.sample(format!("init of all {} points over F_{} d={}", w.pts.len(), q, d));
            Ok(())
        }));
    }
    out
}

/// C18: the sequence of field operations a scalar multiplication performs is
/// the same for every scalar and every point.
pub fn c18<'a>(deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for (q, d) in curves(lv(deep, 23, 43, 97), lv(deep, 97, 199, 397)) {
        out.push(job(format!("toy operation sequences p={} d={}", q, d), move |cx| {
            let w = W::enter(q, d);
            let run = |f: &mut dyn FnMut()| -> Vec<u32> {
                TRACE.with(|t| t.borrow_mut().clear());
                TRACING.with(|t| t.set(true));
                f();
                w.inside.again(|| format!("the toy instance p={} d={}", w.p, w.d));
                TRACING.with(|t| t.set(false));
                TRACE.with(|t| t.borrow().clone())
            };
            let mut first: HashMap<&'static str, (Vec<u32>, String)> = HashMap::new();
            let mut distinct: HashSet<Vec<u32>> = HashSet::new();
            let mut go = |cx: &mut Cx, what: &'static str, id: String, tr: Vec<u32>| -> Res {
                cx.transitions += tr.len() as u64;
                cx.traces += 1;
                let r = match first.get(what) {
                    None => {
                        if tr.is_empty() {
                            return Err(w.fail(format!("{} performs no field operation at all", what)));
                        }
                        first.insert(what, (tr.clone(), id));
                        Ok(())
                    }
                    Some((t0, id0)) => {
                        if *t0 == tr {
                            Ok(())
                        } else {
                            let at = t0.iter().zip(tr.iter()).position(|(a, b)| a != b).unwrap_or(t0.len().min(tr.len()));
                            Err(w.fail(format!(
                                "{}: the field operations for {} ({} of them) differ from those for {} ({} of them) at position {}",
                                what,
                                id,
                                tr.len(),
                                id0,
                                t0.len(),
                                at
                            )))
                        }
                    }
                };
                distinct.insert(tr);
                r
            };
            for &a in w.pts.iter() {
                for l in scales(q, false) {
                    let x = w.mk(a, l, (l % 3) as usize);
                    for k in 0..q {
                        let tr = run(&mut || {
                            let mut r = x;
                            r.scalar_mult_normalized(&T(k));
                        });
                        st(cx, &w, &x, &w.mk((k, 0), 1, 0));
                        go(cx, "scalar_mult_normalized", format!("{} * {:?}", k, a), tr)?;
                        for raw in [k, k + q, k - q] {
                            let tr = run(&mut || {
                                let mut r = x;
                                r.scalar_mult(&mut T(raw));
                            });
                            go(cx, "scalar_mult", format!("{} * {:?}", raw, a), tr)?;
                        }
                    }
                    let tr = run(&mut || {
                        let mut r = x;
                        r.double();
                    });
                    go(cx, "double", format!("{:?}", a), tr)?;
                    let tr = run(&mut || {
                        let mut r = x;
                        r.triple();
                    });
                    go(cx, "triple", format!("{:?}", a), tr)?;
                    for &b in w.pts.iter() {
                        let y = w.mk(b, 1, 0);
                        let tr = run(&mut || {
                            let mut r = x;
                            r += &y;
                        });
                        go(cx, "add", format!("{:?} + {:?}", a, b), tr)?;
                    }
                }
            }
            cx.note("distinct operation sequences (5 entry points per curve)", distinct.len() as u64);
            cx.sample(format!("F_{} d={}: {} entry points, sequence lengths {:?}", q, d, first.len(), first.iter().map(|x| (x.0, (x.1).0.len())).collect::<Vec<_>>()));
            Ok(())
        }));
    }
    out
}

/// C20: explicit-state closure. Every point representation reachable from the
/// constructors by add / double / triple, to a fixpoint.
pub fn c20<'a>(deep: bool) -> Vec<Job<'a>> {
    let mut out = vec![];
    for (q, d) in curves(lv(deep, 7, 11, 17), lv(deep, 11, 17, 37)) {
        out.push(job(format!("toy reachable states p={} d={}", q, d), move |cx| {
            let w = W::enter(q, d);
            let key = |e: &E| to_raw(e);
            let mut seen: HashMap<[i64; 4], (i64, i64)> = HashMap::new();
            let mut list: Vec<E> = vec![];
            let mut push = |e: E, a: (i64, i64), list: &mut Vec<E>| -> bool {
                if seen.contains_key(&key(&e)) {
                    return false;
                }
                seen.insert(key(&e), a);
                list.push(e);
                true
            };
            let mut vals: Vec<(i64, i64)> = vec![];
            let z = E::zero();
            if push(z, (0, 1), &mut list) {
                vals.push((0, 1));
            }
            for &a in w.pts.iter() {
                let mut e = z;
                e.init(T(a.0), T(a.1));
                if let Err(er) = w.judge(&e, a) {
                    return Err(w.fail(format!("init{:?}: {}", a, er)));
                }
                if push(e, a, &mut list) {
                    vals.push(a);
                }
            }
            let ngen = list.len();
            // operands added: the generators and the first few derived representations
            let cap = lv(deep, 60_000, 400_000, 2_000_000);
            let nop = if deep { 4 * ngen } else { 2 * ngen };
            let mut i = 0;
            let mut closed = true;
            while i < list.len() {
                let (e, a) = (list[i], vals[i]);
                let two = w.add(a, a);
                let mut succ: Vec<(E, (i64, i64), String)> = vec![
                    (e.doubled(), two, "double".into()),
                    (e.tripled(), w.add(two, a), "triple".into()),
                    (e + e, two, "add itself".into()),
                ];
                for j in 0..nop.min(list.len()) {
                    succ.push((e + list[j], w.add(a, vals[j]), format!("add {:?}", to_raw(&list[j]))));
                    if j < ngen {
                        succ.push((list[j] + e, w.add(a, vals[j]), format!("added to {:?}", to_raw(&list[j]))));
                    }
                }
                for (r, want, what) in succ {
                    cx.transitions += 1;
                    if let Err(er) = w.judge(&r, want) {
                        return Err(w.fail(format!("state {:?} ({:?}), {}: {}", to_raw(&e), a, what, er)));
                    }
                    if list.len() < cap {
                        if push(r, want, &mut list) {
                            vals.push(want);
                        }
                    } else {
                        closed = false;
                    }
                }
                st(cx, &w, &e, &z);
                cx.traces += 1;
                i += 1;
            }
            if closed {
                cx.note("toy state spaces explored to their fixpoint", 1);
            } else {
                cx.note("toy state spaces cut by the state cap", 1);
            }
            cx.sample(format!("F_{} d={}: {} reachable representations of {} points", q, d, list.len(), w.pts.len()));
            Ok(())
        }));
        // associativity and commutativity over all triples
        out.push(job(format!("toy group laws p={} d={}", q, d), move |cx| {
            let w = W::enter(q, d);
            for &a in w.pts.iter() {
                for &b in w.pts.iter() {
                    for &c in w.pts.iter() {
                        let (x, y, z) = (w.mk(a, 2 % q, 1), w.mk(b, q - 1, 2), w.mk(c, 1, 0));
                        let want = w.add(w.add(a, b), c);
                        let _ = st(cx, &w, &x, &y);
                        for r in [(x + y) + z, x + (y + z), (z + y) + x] {
                            cx.transitions += 2;
                            cx.traces += 1;
                            if let Err(er) = w.judge(&r, want) {
                                return Err(w.fail(format!("sum of {:?} {:?} {:?}: {}", a, b, c, er)));
                            }
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    out
}
