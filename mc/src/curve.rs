//! The five Edwards curves of the crate behind one object-safe interface, and
//! the affine reference model of their group.
//!
//! The crate gives no access to the coordinates of a point.  They are read
//! (and written) in the point's memory: a point is four field elements, and
//! which slot holds which coordinate is found out by calibration (init with
//! known coordinates), not assumed.

use crate::field::{all, Elem, Field, Fld, BLANK};
use crate::num::{Md, U, ZERO};
use crate::watch::enter;
use safecurves_rust::curve::edwards::{EdwardsCurve, EdwardsExtended};
use safecurves_rust::curve::point::Point;
use std::sync::Arc;

#[derive(Clone, Copy)]
#[repr(C, align(16))]
pub struct PElem(pub [i64; 48]);

/// Affine point of the reference model.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Aff {
    pub x: U,
    pub y: U,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum POp {
    /// P := P + Q, four syntactic forms
    Add(u8),
    Dbl(u8),
    Tpl(u8),
    /// P := k P with k the scalar register; 0 = scalar_mult, 1 = scalar_mult_normalized
    Mul(u8),
    Zero,
    /// P := init(x, y) of the affine point held in the model register
    Reinit,
    Swap,
    Dup,
}

pub trait Cv: Send + Sync {
    fn name(&self) -> &'static str;
    fn f(&self) -> &dyn Field;
    fn d(&self) -> U;
    fn params(&self) -> &Params;
    fn zero(&self) -> PElem;
    fn init(&self, p: &mut PElem, x: &Elem, y: &Elem);
    fn apply(&self, op: POp, p: &mut PElem, q: &mut PElem, k: &mut Elem);
    /// the four slots of the point
    fn slots(&self, p: &PElem) -> [Elem; 4];
    fn from_slots(&self, s: &[Elem; 4]) -> PElem;
    /// slot numbers of x, y, z, t
    fn order(&self) -> &[usize; 4];
    fn coords(&self, p: &PElem) -> [U; 4] {
        let s = self.slots(p);
        let o = self.order();
        [self.f().val(&s[o[0]]), self.f().val(&s[o[1]]), self.f().val(&s[o[2]]), self.f().val(&s[o[3]])]
    }
}

/// Published parameters (safecurves.cr.yp.to), independent of the crate.
#[derive(Clone, Copy)]
pub struct Params {
    pub d: i64,
    pub base_x: &'static str,
    pub base_y: &'static str,
    pub order: &'static str,
    pub cofactor: u32,
}

pub struct Cw<C: EdwardsCurve> {
    f: Box<dyn Field>,
    name: &'static str,
    params: Params,
    ord: [usize; 4],
    _p: std::marker::PhantomData<fn() -> C>,
}

impl<C: EdwardsCurve + 'static> Cw<C>
where
    C::Scalar: Fld,
{
    pub fn new(name: &'static str, params: Params) -> Self {
        let f = all().into_iter().find(|f| f.name() == <C::Scalar as Fld>::NAME).unwrap();
        assert_eq!(
            std::mem::size_of::<EdwardsExtended<C>>(),
            4 * std::mem::size_of::<C::Scalar>(),
            "a point is expected to be four field elements"
        );
        assert!(std::mem::size_of::<EdwardsExtended<C>>() <= std::mem::size_of::<PElem>());
        let mut c = Cw { f, name, params, ord: [0, 1, 2, 3], _p: std::marker::PhantomData };
        c.calibrate();
        c
    }
    fn r(p: &PElem) -> &EdwardsExtended<C> {
        unsafe { &*(p as *const PElem as *const EdwardsExtended<C>) }
    }
    fn m(p: &mut PElem) -> &mut EdwardsExtended<C> {
        unsafe { &mut *(p as *mut PElem as *mut EdwardsExtended<C>) }
    }
    fn wrap(v: EdwardsExtended<C>) -> PElem {
        let mut p = PElem([0; 48]);
        *Self::m(&mut p) = v;
        p
    }
    /// Which slot is x, y, z, t?  x and y by the values given to init, z as the
    /// slot that is always one, t as the remaining one.  If the code under test
    /// is broken enough to leave doubt, fall back on memory order.
    fn calibrate(&mut self) {
        let md = *self.f.md();
        let mut cand = [[true; 4]; 4]; // cand[coordinate][slot]
        for k in 2..6u64 {
            let (x, y) = (U::from(k * 1_000_003 + 7), md.neg(&U::from(k * 7_777 + 1)));
            let (ex, ey) = (self.f.mk(&x), self.f.mk(&y));
            let mut p = self.zero();
            self.init(&mut p, &ex, &ey);
            let s = self.slots(&p);
            let xy = md.mul(&x, &y);
            for i in 0..4 {
                let v = self.f.val(&s[i]);
                cand[0][i] &= v == x;
                cand[1][i] &= v == y;
                cand[2][i] &= v == U::from(1);
                cand[3][i] &= v == xy;
            }
        }
        let mut ord = [usize::MAX; 4];
        for c in 0..4 {
            let w: Vec<usize> = (0..4).filter(|i| cand[c][*i]).collect();
            if w.len() == 1 && !ord.contains(&w[0]) {
                ord[c] = w[0];
            }
        }
        // unresolved coordinates take the free slots in memory order
        for c in 0..4 {
            if ord[c] == usize::MAX {
                let s = (0..4).find(|i| !ord.contains(i)).unwrap();
                ord[c] = s;
            }
        }
        self.ord = ord;
    }
}

impl<C: EdwardsCurve + 'static> Cv for Cw<C>
where
    C::Scalar: Fld,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn f(&self) -> &dyn Field {
        self.f.as_ref()
    }
    fn d(&self) -> U {
        let mut e = BLANK;
        unsafe { *(&mut e as *mut Elem as *mut C::Scalar) = C::d_val() };
        self.f.val(&e)
    }
    fn params(&self) -> &Params {
        &self.params
    }
    fn zero(&self) -> PElem {
        let _in = enter(|| format!("{} zero()", self.name));
        Self::wrap(EdwardsExtended::<C>::zero())
    }
    fn init(&self, p: &mut PElem, x: &Elem, y: &Elem) {
        let _in = enter(|| format!("{} init of limbs {:?}, {:?}", self.name, x.0, y.0));
        let (x, y) = unsafe { (*(x as *const Elem as *const C::Scalar), *(y as *const Elem as *const C::Scalar)) };
        Self::m(p).init(x, y)
    }
    fn apply(&self, op: POp, p: &mut PElem, q: &mut PElem, k: &mut Elem) {
        let _in = enter(|| format!("{} {:?} on limbs {:?}, {:?}, {:?}", self.name, op, p.0, q.0, k.0));
        let a = Self::m(p);
        let b = Self::m(q);
        let k = unsafe { &mut *(k as *mut Elem as *mut C::Scalar) };
        match op {
            POp::Add(0) => *a += &*b,
            POp::Add(1) => *a += *b,
            POp::Add(2) => *a = &*a + &*b,
            POp::Add(_) => *a = *a + *b,
            POp::Dbl(0) => a.double(),
            POp::Dbl(_) => *a = a.doubled(),
            POp::Tpl(0) => a.triple(),
            POp::Tpl(_) => *a = a.tripled(),
            POp::Mul(0) => a.scalar_mult(k),
            POp::Mul(_) => a.scalar_mult_normalized(k),
            POp::Zero => *a = EdwardsExtended::<C>::zero(),
            POp::Reinit => {}
            POp::Swap => std::mem::swap(a, b),
            POp::Dup => *b = *a,
        }
    }
    fn slots(&self, p: &PElem) -> [Elem; 4] {
        let w = std::mem::size_of::<C::Scalar>() / 8;
        let mut s = [BLANK; 4];
        let _ = Self::r(p);
        for i in 0..4 {
            s[i].0[..w].copy_from_slice(&p.0[i * w..(i + 1) * w]);
        }
        s
    }
    fn from_slots(&self, s: &[Elem; 4]) -> PElem {
        let w = std::mem::size_of::<C::Scalar>() / 8;
        let mut p = PElem([0; 48]);
        for i in 0..4 {
            p.0[i * w..(i + 1) * w].copy_from_slice(&s[i].0[..w]);
        }
        p
    }
    fn order(&self) -> &[usize; 4] {
        &self.ord
    }
}

pub const E222_P: Params = Params {
    d: 160102,
    base_x: "19b12bb156a389e55c9768c303316d07c23adab3736eb2bc3eb54e51",
    base_y: "1c",
    order: "ffffffffffffffffffffffffffff70cbc95e932f802f31423598cbf",
    cofactor: 4,
};
pub const C1174_P: Params = Params {
    d: -1174,
    base_x: "37fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda",
    base_y: "6b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e",
    order: "1fffffffffffffffffffffffffffffff77965c4dfd307348944d45fd166c971",
    cofactor: 4,
};
pub const E382_P: Params = Params {
    d: -67254,
    base_x: "196f8dd0eab20391e5f05be96e8d20ae68f840032b0b64352923bab85364841193517dbce8105398ebc0cc9470f79603",
    base_y: "11",
    order: "fffffffffffffffffffffffffffffffffffffffffffffffd5fb21f21e95eee17c5e69281b102d2773e27e13fd3c9719",
    cofactor: 4,
};
pub const C41417_P: Params = Params {
    d: 3617,
    base_x: "1a334905141443300218c0631c326e5fcd46369f44c03ec7f57ff35498a4ab4d6d6ba111301a73faa8537c64c4fd3812f3cbc595",
    base_y: "22",
    order: "7ffffffffffffffffffffffffffffffffffffffffffffffffffeb3cc92414cf706022b36f1c0338ad63cf181b0e71a5e106af79",
    cofactor: 8,
};
pub const E521_P: Params = Params {
    d: -376014,
    base_x: "752cb45c48648b189df90cb2296b2878a3bfd9f42fc6c818ec8bf3c9c0c6203913f6ecc5ccc72434b1ae949d568fc99c6059d0fb13364838aa302a940a2f19ba6c",
    base_y: "c",
    order: "7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd15b6c64746fc85f736b8af5e7ec53f04fbd8c4569a8f1f4540ea2435f5180d6b",
    cofactor: 4,
};

pub fn all_curves() -> Vec<Arc<dyn Cv>> {
    use safecurves_rust::curve::*;
    vec![
        Arc::new(Cw::<e_222::E222>::new("E222", E222_P)),
        Arc::new(Cw::<curve1174::Curve1174>::new("Curve1174", C1174_P)),
        Arc::new(Cw::<e_382::E382>::new("E382", E382_P)),
        Arc::new(Cw::<curve41417::Curve41417>::new("Curve41417", C41417_P)),
        Arc::new(Cw::<e_521::E521>::new("E521", E521_P)),
    ]
}

// ---------------------------------------------------------------- reference

/// x^2 + y^2 = 1 + d x^2 y^2 over the integers modulo p, by its definition.
#[derive(Clone)]
pub struct Model {
    pub md: Md,
    pub d: U,
}

pub const NEUTRAL: Aff = Aff { x: ZERO, y: U([1, 0, 0, 0, 0, 0, 0, 0, 0, 0]) };

impl Model {
    pub fn on(&self, p: &Aff) -> bool {
        let md = &self.md;
        let (xx, yy) = (md.mul(&p.x, &p.x), md.mul(&p.y, &p.y));
        md.add(&xx, &yy) == md.add(&U::from(1), &md.mul(&self.d, &md.mul(&xx, &yy)))
    }
    pub fn neg(&self, p: &Aff) -> Aff {
        Aff { x: self.md.neg(&p.x), y: p.y }
    }
    pub fn add(&self, p: &Aff, q: &Aff) -> Aff {
        let md = &self.md;
        let xx = md.mul(&p.x, &q.x);
        let yy = md.mul(&p.y, &q.y);
        let k = md.mul(&self.d, &md.mul(&xx, &yy));
        let one = U::from(1);
        let (d1, d2) = (md.add(&one, &k), md.sub(&one, &k));
        let inv = md.inv(&md.mul(&d1, &d2));
        let nx = md.add(&md.mul(&p.x, &q.y), &md.mul(&q.x, &p.y));
        let ny = md.sub(&yy, &xx);
        Aff { x: md.mul(&nx, &md.mul(&inv, &d2)), y: md.mul(&ny, &md.mul(&inv, &d1)) }
    }
    /// Projective (X:Y:Z) double-and-add with the EFD-free textbook formulas.
    pub fn mul(&self, k: &U, p: &Aff) -> Aff {
        let md = &self.md;
        let one = U::from(1);
        let add = |a: &[U; 3], b: &[U; 3]| -> [U; 3] {
            // (x1y2+x2y1)/(1+k), (y1y2-x1x2)/(1-k) with k = d x1x2y1y2, cleared of denominators
            let zz = md.mul(&a[2], &b[2]);
            let z4 = md.mul(&zz, &zz);
            let xx = md.mul(&a[0], &b[0]);
            let yy = md.mul(&a[1], &b[1]);
            let k = md.mul(&self.d, &md.mul(&xx, &yy));
            let (p1, m1) = (md.add(&z4, &k), md.sub(&z4, &k));
            let nx = md.add(&md.mul(&a[0], &b[1]), &md.mul(&b[0], &a[1]));
            let ny = md.sub(&yy, &xx);
            [md.mul(&md.mul(&nx, &zz), &m1), md.mul(&md.mul(&ny, &zz), &p1), md.mul(&p1, &m1)]
        };
        let mut r = [ZERO, one, one];
        let pp = [p.x, p.y, one];
        for i in (0..k.bits()).rev() {
            r = add(&r, &r);
            if k.bit(i) {
                r = add(&r, &pp);
            }
        }
        let iz = md.inv(&r[2]);
        Aff { x: md.mul(&r[0], &iz), y: md.mul(&r[1], &iz) }
    }
    /// the point with this y and even/odd x, if any
    pub fn lift(&self, f: &dyn Field, y: &U) -> Option<Aff> {
        let md = &self.md;
        let yy = md.mul(y, y);
        let one = U::from(1);
        let den = md.sub(&one, &md.mul(&self.d, &yy));
        let xx = md.mul(&md.sub(&one, &yy), &md.inv(&den));
        crate::p_field::root(f, &xx).map(|x| Aff { x, y: *y })
    }
}
