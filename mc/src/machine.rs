//! The register machine that every field check explores: four registers, each
//! holding a real element of the crate and, beside it, the residue the
//! reference model says it must have.  A trace is a list of steps; the checks
//! differ only in which traces they enumerate.

use crate::field::{Elem, Field, Op, BLANK};
use crate::num::{Md, U, ZERO};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Step {
    /// register := unpacked(value)
    Load(u8, U),
    /// operation with A = first register, B = second register
    Do(Op, u8, u8),
}

impl fmt::Debug for Step {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Step::Load(r, v) => write!(f, "load {} {}", r, v.hex()),
            Step::Do(op, a, b) => write!(f, "op {} {} {}", format!("{:?}", op).replace(' ', ""), a, b),
        }
    }
}

pub fn parse_step(s: &str) -> Option<Step> {
    let w: Vec<&str> = s.split_whitespace().collect();
    match w.as_slice() {
        ["load", r, v] => Some(Step::Load(r.parse().ok()?, U::from_hex(v))),
        ["op", o, a, b] => Some(Step::Do(parse_op(o)?, a.parse().ok()?, b.parse().ok()?)),
        _ => None,
    }
}

fn parse_op(s: &str) -> Option<Op> {
    let (name, args) = match s.find('(') {
        Some(i) => (&s[..i], s[i + 1..s.len() - 1].split(',').map(|x| x.to_string()).collect()),
        None => (s, vec![]),
    };
    let n = |i: usize| -> i64 { args[i].parse::<i64>().expect("number") };
    Some(match name {
        "Add" => Op::Add(n(0) as u8),
        "Sub" => Op::Sub(n(0) as u8),
        "Mul" => Op::Mul(n(0) as u8),
        "Div" => Op::Div(n(0) as u8),
        "Neg" => Op::Neg,
        "Sq" => Op::Sq(n(0) as u8),
        "Inv" => Op::Inv(n(0) as u8),
        "Leg" => Op::Leg,
        "Sqrt" => Op::Sqrt,
        "Norm" => Op::Norm,
        "PackMut" => Op::PackMut,
        "SAdd" => Op::SAdd(n(0) as i32, n(1) as u8),
        "SSub" => Op::SSub(n(0) as i32, n(1) as u8),
        "SMul" => Op::SMul(n(0) as i32, n(1) as u8),
        "Swap" => Op::Swap,
        "Dup" => Op::Dup,
        "Set" => Op::Set(n(0) as u8),
        "And" => Op::And(n(0) as u8),
        "Or" => Op::Or(n(0) as u8),
        "Bit" => Op::Bit(n(0) as u16),
        "MaskSel" => Op::MaskSel(args[0] == "true"),
        "MaskAnd" => Op::MaskAnd(args[0] == "true", n(1) as u8),
        "MaskOr" => Op::MaskOr(n(0) as u8),
        "EqMut" => Op::EqMut,
        "EqSelf" => Op::EqSelf,
        "Hex" => Op::Hex(args[0] == "true"),
        "PackNorm" => Op::PackNorm,
        "Packed" => Op::Packed,
        "Reload" => Op::Reload,
        "NormRead" => Op::NormRead,
        _ => return None,
    })
}

/// What the reference model says the operation does to the two residues.
/// Err: the operation is outside its domain here (division by zero, root of a
/// non-residue), so nothing is claimed.
pub fn model(md: &Md, op: Op, a: &mut U, b: &mut U) -> Result<(), &'static str> {
    match op {
        Op::Add(_) => *a = md.add(a, b),
        Op::Sub(_) => *a = md.sub(a, b),
        Op::Mul(_) => *a = md.mul(a, b),
        Op::Div(_) => {
            if b.is_zero() {
                return Err("division by zero");
            }
            *a = md.mul(a, &md.inv(b))
        }
        Op::Neg => *a = md.neg(a),
        Op::Sq(_) => *a = md.mul(a, a),
        Op::Inv(_) => {
            if a.is_zero() {
                return Err("inverse of zero");
            }
            *a = md.inv(a)
        }
        Op::Leg => *a = md.small(md.jacobi(a) as i64),
        Op::Sqrt => {
            if md.jacobi(a) == -1 {
                return Err("root of a non-residue");
            }
            // either root is right; the caller compares squares
        }
        Op::Norm | Op::PackMut | Op::Bit(_) | Op::EqMut | Op::EqSelf | Op::Hex(_) | Op::PackNorm | Op::Packed
        | Op::Reload | Op::NormRead => {}
        Op::SAdd(k, _) => *a = md.add(a, &md.small(k as i64)),
        Op::SSub(k, _) => *a = md.sub(a, &md.small(k as i64)),
        Op::SMul(k, _) => *a = md.mul(a, &md.small(k as i64)),
        Op::Swap => std::mem::swap(a, b),
        Op::Dup => *b = *a,
        Op::Set(0) | Op::Set(3) => *a = ZERO,
        Op::Set(1) => *a = U::from(1),
        Op::Set(_) => *a = md.neg(&U::from(1)),
        Op::And(_) => *a = md.red(&a.and(b)),
        Op::Or(_) => *a = md.red(&a.or(b)),
        Op::MaskAnd(bit, _) => {
            if !bit {
                *a = ZERO
            }
        }
        Op::MaskOr(_) => {}
        Op::MaskSel(bit) => {
            if !bit {
                *a = *b
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy)]
pub struct Machine {
    pub e: [Elem; 4],
    pub v: [U; 4],
}

impl Machine {
    pub fn new() -> Machine {
        Machine { e: [BLANK; 4], v: [ZERO; 4] }
    }

    /// Execute one step on the real code and on the model, and compare
    /// everything observable.  Ok(false): outside the operation's domain,
    /// nothing done.
    pub fn step(&mut self, f: &dyn Field, s: &Step) -> Result<bool, String> {
        let md = f.md();
        match *s {
            Step::Load(r, v) => {
                let r = r as usize;
                self.v[r] = v;
                self.e[r] = f.mk(&v);
                self.cmp(f, r)?;
            }
            Step::Do(op, ra, rb) => {
                let (ra, rb) = (ra as usize, rb as usize);
                let (a0, b0) = (self.v[ra], self.v[rb]);
                let (mut a, mut b) = (a0, b0);
                if model(md, op, &mut a, &mut b).is_err() {
                    return Ok(false);
                }
                let (mut ea, mut eb) = (self.e[ra], self.e[rb]);
                if ra == rb {
                    b = b0;
                    if let Op::Swap | Op::Dup = op {
                        return Ok(true);
                    }
                }
                match op {
                    Op::EqMut => {
                        let r = f.eq_mut(&mut ea, &mut eb);
                        if r != (a == b) {
                            return Err(format!("normalize_eq returned {} for residues {} and {}", r, a.hex(), b.hex()));
                        }
                    }
                    Op::EqSelf => {
                        let mut t = BLANK;
                        f.apply(Op::Norm, &mut eb, &mut t);
                        let r = f.eq_self(&mut ea, &eb);
                        if r != (a == b) {
                            return Err(format!(
                                "normalize_self_eq returned {} for residues {} and {}",
                                r,
                                a.hex(),
                                b.hex()
                            ));
                        }
                    }
                    Op::Bit(i) => {
                        let r = f.apply(op, &mut ea, &mut eb);
                        if r != Some(a.bit(i as usize)) {
                            return Err(format!("bit {} of {} read as {:?}", i, a.hex(), r));
                        }
                        if f.bit_normalized(&ea, i as usize) != a.bit(i as usize) {
                            return Err(format!("normalized bit {} of {} misread", i, a.hex()));
                        }
                    }
                    Op::Hex(up) => {
                        let got = f.hex(&ea, up);
                        let want = hex_want(f, &a, up);
                        if got != want {
                            return Err(format!("formatted as {} instead of {}", got, want));
                        }
                    }
                    Op::PackNorm => {
                        let mut t = BLANK;
                        f.apply(Op::Norm, &mut ea, &mut t);
                        let mut buf = [0xa5u8; 80];
                        let n = f.nbytes();
                        f.pack_normalized(&ea, &mut buf[..n]);
                        if buf[..n] != a.to_bytes()[..n] {
                            return Err(format!("pack_normalized wrote {:02x?} for {}", &buf[..n], a.hex()));
                        }
                    }
                    Op::NormRead => {
                        let mut buf = [0xa5u8; 80];
                        let n = f.nbytes();
                        f.pack_normalized(&ea, &mut buf[..n]);
                        if buf[..n] != a.to_bytes()[..n] {
                            return Err(format!("not normalized: pack_normalized wrote {:02x?} for {}", &buf[..n], a.hex()));
                        }
                        for i in 0..md.n {
                            if f.bit_normalized(&ea, i) != a.bit(i) {
                                return Err(format!("not normalized: bit_normalized({}) misread {}", i, a.hex()));
                            }
                        }
                    }
                    Op::Packed => {
                        let got = f.packed(&mut ea);
                        if got[..] != a.to_bytes()[..f.nbytes()] {
                            return Err(format!("packed gave {:02x?} for {}", got, a.hex()));
                        }
                    }
                    Op::Reload => {
                        f.unpack_into(&mut ea, &a.to_bytes()[..f.nbytes()]);
                    }
                    _ => {
                        f.apply(op, &mut ea, &mut eb);
                    }
                }
                if let Op::Sqrt = op {
                    let got = f.val(&ea);
                    if !got.lt(&md.p) || md.mul(&got, &got) != a0 {
                        return Err(format!("{} is not a square root of {}", got.hex(), a0.hex()));
                    }
                    a = got;
                }
                self.e[ra] = ea;
                self.v[ra] = a;
                if ra != rb {
                    self.e[rb] = eb;
                    self.v[rb] = b;
                    self.cmp(f, rb)?;
                }
                self.cmp(f, ra)?;
            }
        }
        Ok(true)
    }

    fn cmp(&self, f: &dyn Field, r: usize) -> Result<(), String> {
        let got = f.val(&self.e[r]);
        if got != self.v[r] {
            return Err(format!(
                "register {} packs to {} but must be {} (mod {})",
                r,
                got.hex(),
                self.v[r].hex(),
                f.md().p.hex()
            ));
        }
        Ok(())
    }
}

pub fn hex_want(f: &dyn Field, a: &U, up: bool) -> String {
    let mut s = String::new();
    let by = a.to_bytes();
    for i in (0..f.nbytes()).rev() {
        s.push_str(&if up { format!("{:02X}", by[i]) } else { format!("{:02x}", by[i]) });
    }
    s
}

/// Run a whole trace; Err((index of the failing step, message)).
pub fn run(f: &dyn Field, steps: &[Step]) -> Result<Machine, (usize, String)> {
    let mut m = Machine::new();
    // all registers start as the unpacked zero
    for r in 0..4 {
        m.e[r] = f.mk(&ZERO);
    }
    for (i, s) in steps.iter().enumerate() {
        let mut k = m;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| k.step(f, s)));
        match r {
            Ok(Ok(_)) => m = k,
            Ok(Err(e)) => return Err((i, e)),
            Err(p) => return Err((i, format!("panic: {}", panic_msg(&p)))),
        }
    }
    Ok(m)
}

pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
