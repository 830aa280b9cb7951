//! Boring reference arithmetic: unsigned integers of 640 bits and arithmetic
//! modulo p = 2^n - c, by schoolbook multiplication and repeated folding.
//! Independent of the code under test (radix 2^64, no lazy carries).

pub const K: usize = 10;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct U(pub [u64; K]); // compared only through cmp() below

pub const ZERO: U = U([0; K]);

impl U {
    pub fn from(x: u64) -> U {
        let mut r = ZERO;
        r.0[0] = x;
        r
    }
    pub fn pow2(i: usize) -> U {
        let mut r = ZERO;
        r.0[i / 64] = 1 << (i % 64);
        r
    }
    pub fn lt(&self, o: &U) -> bool {
        for i in (0..K).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i] < o.0[i];
            }
        }
        false
    }
    pub fn ge(&self, o: &U) -> bool {
        !self.lt(o)
    }
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
    pub fn bit(&self, i: usize) -> bool {
        (self.0[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn bits(&self) -> usize {
        for i in (0..K).rev() {
            if self.0[i] != 0 {
                return 64 * i + 64 - self.0[i].leading_zeros() as usize;
            }
        }
        0
    }
    /// Plain integer addition; the carry out of 640 bits is an error.
    pub fn plus(&self, o: &U) -> U {
        let mut r = ZERO;
        let mut c = 0u128;
        for i in 0..K {
            let s = self.0[i] as u128 + o.0[i] as u128 + c;
            r.0[i] = s as u64;
            c = s >> 64;
        }
        assert!(c == 0, "reference integer overflow");
        r
    }
    /// Plain integer subtraction, self >= o.
    pub fn minus(&self, o: &U) -> U {
        let mut r = ZERO;
        let mut b = 0u64;
        for i in 0..K {
            let (d, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (d, b2) = d.overflowing_sub(b);
            r.0[i] = d;
            b = (b1 | b2) as u64;
        }
        assert!(b == 0, "reference integer underflow");
        r
    }
    pub fn shr1(&self) -> U {
        let mut r = ZERO;
        for i in 0..K {
            r.0[i] = self.0[i] >> 1;
            if i + 1 < K {
                r.0[i] |= self.0[i + 1] << 63;
            }
        }
        r
    }
    /// Shift left; bits beyond 640 are dropped.
    pub fn shl(&self, k: usize) -> U {
        let (q, b) = (k / 64, k % 64);
        let mut r = ZERO;
        for i in q..K {
            r.0[i] = self.0[i - q] << b;
            if b > 0 && i > q {
                r.0[i] |= self.0[i - q - 1] >> (64 - b);
            }
        }
        r
    }
    pub fn shr(&self, k: usize) -> U {
        let (q, b) = (k / 64, k % 64);
        let mut r = ZERO;
        for i in 0..K.saturating_sub(q) {
            r.0[i] = self.0[i + q] >> b;
            if b > 0 && i + q + 1 < K {
                r.0[i] |= self.0[i + q + 1] << (64 - b);
            }
        }
        r
    }
    /// The low n bits.
    pub fn low(&self, n: usize) -> U {
        let mut r = *self;
        for i in 0..K {
            if 64 * i >= n {
                r.0[i] = 0;
            } else if 64 * (i + 1) > n {
                r.0[i] &= (1u64 << (n - 64 * i)) - 1;
            }
        }
        r
    }
    pub fn and(&self, o: &U) -> U {
        let mut r = ZERO;
        for i in 0..K {
            r.0[i] = self.0[i] & o.0[i];
        }
        r
    }
    pub fn or(&self, o: &U) -> U {
        let mut r = ZERO;
        for i in 0..K {
            r.0[i] = self.0[i] | o.0[i];
        }
        r
    }
    pub fn to_bytes(&self) -> [u8; 80] {
        let mut r = [0u8; 80];
        for i in 0..K {
            r[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_le_bytes());
        }
        r
    }
    pub fn from_bytes(b: &[u8]) -> U {
        let mut r = ZERO;
        for (i, x) in b.iter().enumerate() {
            r.0[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        r
    }
    pub fn hex(&self) -> String {
        let mut s = String::new();
        for i in (0..K).rev() {
            s.push_str(&format!("{:016x}", self.0[i]));
        }
        let t = s.trim_start_matches('0');
        if t.is_empty() {
            "0".into()
        } else {
            t.into()
        }
    }
    pub fn from_hex(s: &str) -> U {
        let mut r = ZERO;
        for ch in s.chars() {
            let d = ch.to_digit(16).expect("hex digit");
            // r = r*16 + d
            let mut c = d as u64;
            for i in 0..K {
                let v = ((r.0[i] as u128) << 4) | c as u128;
                r.0[i] = v as u64;
                c = (v >> 64) as u64;
            }
        }
        r
    }
}

/// The field of integers modulo 2^n - c.
#[derive(Clone, Copy, Debug)]
pub struct Md {
    pub n: usize,
    pub c: u64,
    pub p: U,
    mask: u64, // mask of the top word
    words: usize,
}

impl Md {
    pub fn new(n: usize, c: u64) -> Md {
        let p = U::pow2(n).minus(&U::from(c));
        Md { n, c, p, mask: (1u64 << (n % 64)).wrapping_sub(1), words: n / 64 + 1 }
    }
    /// Any 640-bit integer to its canonical residue.
    pub fn red(&self, x: &U) -> U {
        let mut w = [0u64; 2 * K];
        w[..K].copy_from_slice(&x.0);
        self.red_wide(w)
    }
    fn red_wide(&self, mut w: [u64; 2 * K]) -> U {
        let (q, s) = (self.n / 64, self.n % 64);
        loop {
            // split: lo = low n bits, hi = the rest
            let mut hi = [0u64; 2 * K];
            let mut any = 0;
            for i in q..2 * K {
                let mut v = w[i] >> s;
                if i + 1 < 2 * K && s > 0 {
                    v |= w[i + 1] << (64 - s);
                }
                hi[i - q] = v;
                any |= v;
            }
            if any == 0 {
                break;
            }
            w[q] &= self.mask;
            for i in q + 1..2 * K {
                w[i] = 0;
            }
            // w = lo + c*hi
            let mut c = 0u128;
            for i in 0..2 * K {
                let t = w[i] as u128 + hi[i] as u128 * self.c as u128 + c;
                w[i] = t as u64;
                c = t >> 64;
            }
            assert!(c == 0);
        }
        let mut r = ZERO;
        r.0.copy_from_slice(&w[..K]);
        if r.ge(&self.p) {
            r = r.minus(&self.p);
        }
        r
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let s = a.plus(b);
        if s.ge(&self.p) {
            s.minus(&self.p)
        } else {
            s
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        if a.ge(b) {
            a.minus(b)
        } else {
            a.plus(&self.p).minus(b)
        }
    }
    pub fn neg(&self, a: &U) -> U {
        self.sub(&ZERO, a)
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        let mut w = [0u64; 2 * K];
        for i in 0..self.words {
            let mut c = 0u128;
            for j in 0..self.words {
                let t = w[i + j] as u128 + a.0[i] as u128 * b.0[j] as u128 + c;
                w[i + j] = t as u64;
                c = t >> 64;
            }
            w[i + self.words] = c as u64;
        }
        self.red_wide(w)
    }
    pub fn small(&self, k: i64) -> U {
        if k >= 0 {
            self.red(&U::from(k as u64))
        } else {
            self.neg(&self.red(&U::from(k.unsigned_abs())))
        }
    }
    pub fn pow(&self, a: &U, e: &U) -> U {
        let mut r = self.red(&U::from(1));
        for i in (0..e.bits()).rev() {
            r = self.mul(&r, &r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// Inverse of a non-zero residue by the binary extended Euclid algorithm
    /// (deliberately not Fermat exponentiation, which the code under test uses).
    pub fn inv(&self, a: &U) -> U {
        assert!(!a.is_zero());
        let half = |x: &U| -> U {
            if x.bit(0) {
                x.plus(&self.p).shr1()
            } else {
                x.shr1()
            }
        };
        let one = U::from(1);
        let (mut u, mut v, mut x1, mut x2) = (*a, self.p, one, ZERO);
        while u != one && v != one {
            while !u.bit(0) {
                u = u.shr1();
                x1 = half(&x1);
            }
            while !v.bit(0) {
                v = v.shr1();
                x2 = half(&x2);
            }
            if u.ge(&v) {
                u = u.minus(&v);
                x1 = self.sub(&x1, &x2);
            } else {
                v = v.minus(&u);
                x2 = self.sub(&x2, &x1);
            }
        }
        if u == one {
            x1
        } else {
            x2
        }
    }
    /// Jacobi symbol (a/p): 1, -1 or 0, by quadratic reciprocity (binary).
    pub fn jacobi(&self, a: &U) -> i32 {
        let (mut a, mut n, mut t) = (*a, self.p, 1);
        while !a.is_zero() {
            while !a.bit(0) {
                a = a.shr1();
                let r = n.0[0] & 7;
                if r == 3 || r == 5 {
                    t = -t;
                }
            }
            std::mem::swap(&mut a, &mut n);
            if a.0[0] & 3 == 3 && n.0[0] & 3 == 3 {
                t = -t;
            }
            // a mod n
            while a.ge(&n) {
                let mut m = n;
                let sh = a.bits() - n.bits();
                m = m.shl(sh);
                if a.lt(&m) {
                    m = m.shr1();
                }
                a = a.minus(&m);
            }
        }
        if n == U::from(1) {
            t
        } else {
            0
        }
    }
}
