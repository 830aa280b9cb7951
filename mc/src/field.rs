//! The real field types of the crate behind one object-safe interface.
//! An element is an opaque blob holding the crate's own value; everything that
//! happens to it goes through the crate's public API.

use crate::num::{Md, U};
use crate::watch::enter;
use safecurves_rust::field::prime_field::{PrimeField, PrimeFieldMask};
use std::fmt::{Debug, LowerHex, UpperHex};

#[derive(Clone, Copy)]
#[repr(C, align(16))]
pub struct Elem(pub [i64; 16]);

pub const BLANK: Elem = Elem([0; 16]);

impl PartialEq for Elem {
    fn eq(&self, o: &Elem) -> bool {
        self.0 == o.0
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    // binary, A := A op B; the number is the syntactic form (0..4)
    Add(u8),
    Sub(u8),
    Mul(u8),
    Div(u8),
    // unary
    Neg,
    Sq(u8),
    Inv(u8),
    Leg,
    Sqrt,
    Norm,
    PackMut,
    // small integers; the number is the syntactic form
    SAdd(i32, u8),
    SSub(i32, u8),
    SMul(i32, u8),
    // data movement
    Swap,
    Dup, // B := A
    Set(u8), // A := constant 0,1,-1,p
    // bitwise on A (and B)
    And(u8),
    Or(u8),
    Bit(u16),
    MaskSel(bool), // A := (A and fill(bit)) or (B and fill(!bit)), no normalization
    MaskAnd(bool, u8), // A := A and all-ones/zeros mask; forms: 0 filled+normalized, 1 filled+normalize_self, 2,3 same with fill in place
    MaskOr(u8),        // A := A or the zero mask; same forms
    // observations (handled by the machine)
    EqMut,
    EqSelf,
    Hex(bool),
    PackNorm,
    Packed,
    Reload, // unpack A's own value over A
    NormRead, // read A through the *_normalized functions as it stands
}

pub const BIN_FORMS: u8 = 4;
/// forms 0,1 take an i32; 2.. see `sforms`
pub const SADD_FORMS: u8 = 14;
pub const SSUB_FORMS: u8 = 11;
pub const SMUL_FORMS: u8 = 14;

/// Which i32 values a small-integer form can take: 0 = i32, 1 = i16, 2 = i8.
pub fn form_width(f: u8) -> u8 {
    match f {
        0 | 1 => 0,
        _ => (f - 2) % 3,
    }
}
pub fn form_fits(k: i32, f: u8) -> bool {
    match form_width(f) {
        0 => true,
        1 => k as i16 as i32 == k,
        _ => k as i8 as i32 == k,
    }
}

pub trait Fld: PrimeField + safecurves_rust::pack::Pack + Copy + Debug + LowerHex + UpperHex + Send + Sync + 'static {
    const NAME: &'static str;
    const BITS: usize;
    const C: u64;
    /// Limb width used only to choose interesting inputs.
    const W: usize;
    fn bin(op: u8, f: u8, a: &mut Self, b: &Self);
    fn smalls(op: u8, f: u8, k: i32, a: &mut Self);
    fn consts() -> Vec<(&'static str, Self)>;
    fn packed_vec(&mut self) -> Vec<u8>;
    /// The memory of the field's mask type filled with a bit (over another fill
    /// if `over` is given); empty if it is not as large as an element.
    fn mask_bytes(over: Option<bool>, bit: bool) -> Vec<u8>;
}

macro_rules! four {
    ($a:expr,$b:expr,$f:expr,$asg:tt,$op:tt) => {
        match $f {
            0 => *$a $asg $b,
            1 => *$a $asg *$b,
            2 => *$a = &*$a $op $b,
            _ => *$a = *$a $op *$b,
        }
    };
}

macro_rules! fld {
    ($ty:ident, $mask:ident, $m:ident, $bits:expr, $c:expr, $w:expr, [$($cn:ident),*]) => {
        impl Fld for safecurves_rust::field::$m::$ty {
            const NAME: &'static str = stringify!($m);
            const BITS: usize = $bits;
            const C: u64 = $c;
            const W: usize = $w;
            fn bin(op: u8, f: u8, a: &mut Self, b: &Self) {
                match op {
                    0 => four!(a, b, f, +=, +),
                    1 => four!(a, b, f, -=, -),
                    2 => four!(a, b, f, *=, *),
                    _ => four!(a, b, f, /=, /),
                }
            }
            fn smalls(op: u8, f: u8, k: i32, a: &mut Self) {
                match op {
                    0 => match f {
                        0 => a.small_add_assign(k),
                        1 => *a = a.small_add(k),
                        2 => *a += k,
                        3 => *a += k as i16,
                        4 => *a += k as i8,
                        5 => *a = &*a + k,
                        6 => *a = &*a + k as i16,
                        7 => *a = &*a + k as i8,
                        8 => *a = *a + k,
                        9 => *a = *a + k as i16,
                        10 => *a = *a + k as i8,
                        11 => *a = k + &*a,
                        12 => *a = (k as i16) + &*a,
                        _ => *a = (k as i8) + &*a,
                    },
                    1 => match f {
                        0 => a.small_sub_assign(k),
                        1 => *a = a.small_sub(k),
                        2 => *a -= k,
                        3 => *a -= k as i16,
                        4 => *a -= k as i8,
                        5 => *a = &*a - k,
                        6 => *a = &*a - k as i16,
                        7 => *a = &*a - k as i8,
                        8 => *a = *a - k,
                        9 => *a = *a - k as i16,
                        _ => *a = *a - k as i8,
                    },
                    _ => match f {
                        0 => a.small_mul_assign(k),
                        1 => *a = a.small_mul(k),
                        2 => *a *= k,
                        3 => *a *= k as i16,
                        4 => *a *= k as i8,
                        5 => *a = &*a * k,
                        6 => *a = &*a * k as i16,
                        7 => *a = &*a * k as i8,
                        8 => *a = *a * k,
                        9 => *a = *a * k as i16,
                        10 => *a = *a * k as i8,
                        11 => *a = k * &*a,
                        12 => *a = (k as i16) * &*a,
                        _ => *a = (k as i8) * &*a,
                    },
                }
            }
            fn consts() -> Vec<(&'static str, Self)> {
                vec![
                    $((stringify!($cn), safecurves_rust::field::$m::$cn),)*
                ]
            }
            fn packed_vec(&mut self) -> Vec<u8> {
                self.packed().to_vec()
            }
            fn mask_bytes(over: Option<bool>, bit: bool) -> Vec<u8> {
                type M = safecurves_rust::field::$m::$mask;
                if std::mem::size_of::<M>() != std::mem::size_of::<Self>() {
                    return vec![];
                }
                let m = match over {
                    Some(b) => {
                        let mut m = M::filled(b);
                        m.fill(bit);
                        m
                    }
                    None => M::filled(bit),
                };
                // Safety: a plain array of integers (no padding) is read as bytes
                unsafe { std::slice::from_raw_parts(&m as *const M as *const u8, std::mem::size_of::<M>()) }.to_vec()
            }
        }
    };
}

fld!(Mod_e221_3, Mod_e221_3_Mask, mod_e221_3, 221, 3, 58,
    [ZERO, ONE, M_ONE, MODULUS, M_HALF, M221_BASE_X, M221_BASE_Y, M221_ORDER]);
fld!(Mod_e222_117, Mod_e222_117_Mask, mod_e222_117, 222, 117, 58,
    [ZERO, ONE, M_ONE, MODULUS, E222_D, E222_BASE_X, E222_BASE_Y, E222_ORDER]);
fld!(Mod_e251_9, Mod_e251_9_Mask, mod_e251_9, 251, 9, 56,
    [ZERO, ONE, M_ONE, MODULUS, CURVE1174_D, CURVE1174_BASE_X, CURVE1174_BASE_Y, CURVE1174_ORDER]);
fld!(Mod_e255_19, Mod_e255_19_Mask, mod_e255_19, 255, 19, 56,
    [ZERO, ONE, M_ONE, MODULUS, M_HALF, CURVE25519_BASE_X, CURVE25519_BASE_Y, CURVE25519_ORDER]);
fld!(Mod_e382_105, Mod_e382_105_Mask, mod_e382_105, 382, 105, 56,
    [ZERO, ONE, M_ONE, MODULUS, E382_D, E382_BASE_X, E382_BASE_Y, E382_ORDER]);
fld!(Mod_e383_187, Mod_e383_187_Mask, mod_e383_187, 383, 187, 56,
    [ZERO, ONE, M_ONE, MODULUS, M_HALF, M383_BASE_X, M383_BASE_Y, M383_ORDER,
     CURVE383187_BASE_X, CURVE383187_BASE_Y, CURVE383187_ORDER]);
fld!(Mod_e414_17, Mod_e414_17_Mask, mod_e414_17, 414, 17, 56,
    [ZERO, ONE, M_ONE, MODULUS, CURVE41417_D, CURVE41417_BASE_X, CURVE41417_BASE_Y, CURVE41417_ORDER]);
fld!(Mod_e511_187, Mod_e511_187_Mask, mod_e511_187, 511, 187, 54,
    [ZERO, ONE, M_ONE, MODULUS, M_HALF, M511_BASE_X, M511_BASE_Y, M511_ORDER]);
fld!(Mod_e521_1, Mod_e521_1_Mask, mod_e521_1, 521, 1, 54,
    [ZERO, ONE, M_ONE, MODULUS, E521_D, E521_BASE_X, E521_BASE_Y, E521_ORDER]);

/// Object-safe view of a field.
pub trait Field: Send + Sync {
    fn name(&self) -> &'static str;
    fn md(&self) -> &Md;
    fn w(&self) -> usize;
    fn nbytes(&self) -> usize;
    fn nbits(&self) -> usize;
    fn claimed_nbytes(&self) -> i32;
    fn unpack(&self, b: &[u8]) -> Elem;
    fn unpack_into(&self, e: &mut Elem, b: &[u8]);
    /// pack (a copy), writing nbytes() bytes
    fn pack(&self, e: &Elem, out: &mut [u8]);
    fn pack_normalized(&self, e: &Elem, out: &mut [u8]);
    fn packed(&self, e: &mut Elem) -> Vec<u8>;
    fn apply(&self, op: Op, a: &mut Elem, b: &mut Elem) -> Option<bool>;
    fn eq_mut(&self, a: &mut Elem, b: &mut Elem) -> bool;
    fn eq_self(&self, a: &mut Elem, b: &Elem) -> bool;
    fn bit_normalized(&self, a: &Elem, i: usize) -> bool;
    fn hex(&self, a: &Elem, upper: bool) -> String;
    fn debug(&self, a: &Elem) -> String;
    fn mask_bytes(&self, over: Option<bool>, bit: bool) -> Vec<u8>;
    fn consts(&self) -> Vec<(&'static str, Elem)>;
    fn rand(&self, src: &mut dyn FnMut() -> u64) -> Elem;
    /// value of the element, through the public pack (of a copy)
    fn val(&self, e: &Elem) -> U {
        let mut buf = [0u8; 80];
        let n = self.nbytes();
        self.pack(e, &mut buf[..n]);
        U::from_bytes(&buf)
    }
    fn mk(&self, v: &U) -> Elem {
        self.unpack(&v.to_bytes()[..self.nbytes()])
    }
}

pub struct Fw<F: Fld> {
    md: Md,
    _p: std::marker::PhantomData<F>,
}

impl<F: Fld> Fw<F> {
    pub fn new() -> Self {
        assert!(std::mem::size_of::<F>() <= 128 && std::mem::align_of::<F>() <= 16);
        Fw { md: Md::new(F::BITS, F::C), _p: std::marker::PhantomData }
    }
    #[inline(always)]
    fn r<'a>(e: &'a Elem) -> &'a F {
        unsafe { &*(e as *const Elem as *const F) }
    }
    #[inline(always)]
    fn m<'a>(e: &'a mut Elem) -> &'a mut F {
        unsafe { &mut *(e as *mut Elem as *mut F) }
    }
    #[inline(always)]
    fn w_(f: F) -> Elem {
        let mut e = BLANK;
        *Self::m(&mut e) = f;
        e
    }
}

struct ScriptRng<'a>(&'a mut dyn FnMut() -> u64);
impl<'a> rand::Rng for ScriptRng<'a> {
    fn next_u32(&mut self) -> u32 {
        (self.0)() as u32
    }
    fn next_u64(&mut self) -> u64 {
        (self.0)()
    }
}

fn limbs<F>() -> usize {
    std::mem::size_of::<F>() / 8
}

impl<F: Fld> Field for Fw<F> {
    fn name(&self) -> &'static str {
        F::NAME
    }
    fn md(&self) -> &Md {
        &self.md
    }
    fn w(&self) -> usize {
        F::W
    }
    fn nbytes(&self) -> usize {
        (F::BITS + 7) / 8
    }
    fn nbits(&self) -> usize {
        F::nbits()
    }
    fn claimed_nbytes(&self) -> i32 {
        F::nbytes()
    }
    fn unpack(&self, b: &[u8]) -> Elem {
        let _in = enter(|| format!("{} unpacked {}", F::NAME, U::from_bytes(b).hex()));
        Self::w_(F::unpacked(b))
    }
    fn unpack_into(&self, e: &mut Elem, b: &[u8]) {
        let _in = enter(|| format!("{} unpack {}", F::NAME, U::from_bytes(b).hex()));
        Self::m(e).unpack(b)
    }
    fn pack(&self, e: &Elem, out: &mut [u8]) {
        let mut c = *e;
        let _in = enter(|| format!("{} pack of limbs {:?}", F::NAME, &e.0[..limbs::<F>()]));
        Self::m(&mut c).pack(out)
    }
    fn pack_normalized(&self, e: &Elem, out: &mut [u8]) {
        let _in = enter(|| format!("{} pack_normalized of limbs {:?}", F::NAME, &e.0[..limbs::<F>()]));
        Self::r(e).pack_normalized(out)
    }
    fn packed(&self, e: &mut Elem) -> Vec<u8> {
        let _in = enter(|| format!("{} packed of limbs {:?}", F::NAME, &e.0[..limbs::<F>()]));
        Self::m(e).packed_vec()
    }
    fn apply(&self, op: Op, ea: &mut Elem, eb: &mut Elem) -> Option<bool> {
        let _in = enter(|| format!("{} {:?} on limbs {:?} and {:?}", F::NAME, op, &ea.0[..limbs::<F>()], &eb.0[..limbs::<F>()]));
        let a = Self::m(ea);
        let b = Self::m(eb);
        match op {
            Op::Add(f) => F::bin(0, f, a, b),
            Op::Sub(f) => F::bin(1, f, a, b),
            Op::Mul(f) => F::bin(2, f, a, b),
            Op::Div(f) => F::bin(3, f, a, b),
            Op::Neg => *a = -*a,
            Op::Sq(0) => a.square(),
            Op::Sq(_) => *a = a.squared(),
            Op::Inv(0) => a.invert(),
            Op::Inv(_) => *a = a.inverted(),
            Op::Leg => *a = a.legendre(),
            Op::Sqrt => *a = a.sqrt(),
            Op::Norm => a.normalize(),
            Op::PackMut => {
                let mut buf = [0u8; 80];
                let n = (F::BITS + 7) / 8;
                a.pack(&mut buf[..n]);
            }
            Op::SAdd(k, f) => F::smalls(0, f, k, a),
            Op::SSub(k, f) => F::smalls(1, f, k, a),
            Op::SMul(k, f) => F::smalls(2, f, k, a),
            Op::Swap => std::mem::swap(a, b),
            Op::Dup => *b = *a,
            Op::Set(0) => *a = F::zero(),
            Op::Set(1) => *a = F::one(),
            Op::Set(2) => *a = F::m_one(),
            Op::Set(_) => *a = F::modulus(),
            Op::And(0) => a.normalize_bitand(b),
            Op::And(1) => {
                b.normalize();
                a.normalize_self_bitand(b)
            }
            Op::And(_) => {
                b.normalize();
                a.normalize();
                a.normalized_bitand(b)
            }
            Op::Or(0) => a.normalize_bitor(b),
            Op::Or(1) => {
                b.normalize();
                a.normalize_self_bitor(b)
            }
            Op::Or(_) => {
                b.normalize();
                a.normalize();
                a.normalized_bitor(b)
            }
            Op::Bit(i) => return Some(a.bit(i as usize)),
            Op::MaskSel(bit) => {
                let mut c = *b;
                a.normalized_bitand(&F::filled(bit));
                c.normalized_bitand(&F::filled(!bit));
                a.normalized_bitor(&c);
            }
            Op::MaskAnd(bit, f) => {
                let mut m = F::m_one();
                if f >= 2 {
                    m.fill(bit);
                } else {
                    m = F::filled(bit);
                }
                if f & 1 == 0 {
                    a.normalized_bitand(&m);
                } else {
                    a.normalize_self_bitand(&m);
                }
            }
            Op::MaskOr(f) => {
                let mut m = F::m_one();
                if f >= 2 {
                    m.fill(false);
                } else {
                    m = F::filled(false);
                }
                if f & 1 == 0 {
                    a.normalized_bitor(&m);
                } else {
                    a.normalize_self_bitor(&m);
                }
            }
            Op::EqMut | Op::EqSelf | Op::Hex(_) | Op::PackNorm | Op::Packed | Op::Reload | Op::NormRead => unreachable!(),
        }
        None
    }
    fn eq_mut(&self, a: &mut Elem, b: &mut Elem) -> bool {
        let _in = enter(|| format!("{} normalize_eq on limbs {:?} and {:?}", F::NAME, &a.0[..limbs::<F>()], &b.0[..limbs::<F>()]));
        Self::m(a).normalize_eq(Self::m(b))
    }
    fn eq_self(&self, a: &mut Elem, b: &Elem) -> bool {
        let _in = enter(|| format!("{} normalize_self_eq on limbs {:?} and {:?}", F::NAME, &a.0[..limbs::<F>()], &b.0[..limbs::<F>()]));
        Self::m(a).normalize_self_eq(Self::r(b))
    }
    fn bit_normalized(&self, a: &Elem, i: usize) -> bool {
        let _in = enter(|| format!("{} bit_normalized({}) of limbs {:?}", F::NAME, i, &a.0[..limbs::<F>()]));
        Self::r(a).bit_normalized(i)
    }
    fn hex(&self, a: &Elem, upper: bool) -> String {
        let _in = enter(|| format!("{} formatting of limbs {:?}", F::NAME, &a.0[..limbs::<F>()]));
        if upper {
            format!("{:X}", Self::r(a))
        } else {
            format!("{:x}", Self::r(a))
        }
    }
    fn mask_bytes(&self, over: Option<bool>, bit: bool) -> Vec<u8> {
        F::mask_bytes(over, bit)
    }
    fn debug(&self, a: &Elem) -> String {
        let _in = enter(|| format!("{} Debug of limbs {:?}", F::NAME, &a.0[..limbs::<F>()]));
        format!("{:?}", Self::r(a))
    }
    fn consts(&self) -> Vec<(&'static str, Elem)> {
        F::consts().into_iter().map(|(n, f)| (n, Self::w_(f))).collect()
    }
    fn rand(&self, src: &mut dyn FnMut() -> u64) -> Elem {
        let _in = enter(|| format!("{} rand", F::NAME));
        let mut r = ScriptRng(src);
        Self::w_(<F as rand::Rand>::rand(&mut r))
    }
}

pub fn all() -> Vec<Box<dyn Field>> {
    use safecurves_rust::field::*;
    vec![
        Box::new(Fw::<mod_e221_3::Mod_e221_3>::new()),
        Box::new(Fw::<mod_e222_117::Mod_e222_117>::new()),
        Box::new(Fw::<mod_e251_9::Mod_e251_9>::new()),
        Box::new(Fw::<mod_e255_19::Mod_e255_19>::new()),
        Box::new(Fw::<mod_e382_105::Mod_e382_105>::new()),
        Box::new(Fw::<mod_e383_187::Mod_e383_187>::new()),
        Box::new(Fw::<mod_e414_17::Mod_e414_17>::new()),
        Box::new(Fw::<mod_e511_187::Mod_e511_187>::new()),
        Box::new(Fw::<mod_e521_1::Mod_e521_1>::new()),
    ]
}
