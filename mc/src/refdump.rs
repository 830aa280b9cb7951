//! Prints evaluations of the reference arithmetic (num.rs, curve.rs), which
//! tools/crosscheck.py compares with Python's integers.
use crate::curve::{Aff, Model, C1174_P, C41417_P, E222_P, E382_P, E521_P};
use crate::gen::edge;
use crate::num::{Md, U};

pub fn dump() {
    use std::io::Write;
    let o = std::io::stdout();
    let mut o = std::io::BufWriter::new(o.lock());
    for (n, c) in [(221, 3), (222, 117), (251, 9), (255, 19), (382, 105), (383, 187), (414, 17), (511, 187), (521, 1)] {
        let md = Md::new(n, c);
        let mut put = |op: &str, a: &U, b: &U, r: &U| writeln!(o, "{} {} {} {} {} {}", n, c, op, a.hex(), b.hex(), r.hex()).unwrap();
        let mut vs = edge(&md, 58, 40, 23);
        // and values without structure
        let mut x = U::from(3);
        for _ in 0..60 {
            x = md.mul(&x, &md.add(&x, &md.small(-7)));
            vs.push(x);
        }
        let z = U::from(0);
        for a in &vs {
            put("neg", a, &z, &md.neg(a));
            put("red", &a.shl(93), &z, &md.red(&a.shl(93)));
            put("pow", a, &U::from(65537), &md.pow(a, &U::from(65537)));
            if !a.is_zero() {
                put("inv", a, &z, &md.inv(a));
            }
            put("jac", a, &z, &md.small(md.jacobi(a) as i64));
            for k in [0, 1, -1, 127, -128, 32767, -32768, i32::MAX as i64, i32::MIN as i64] {
                put("small", &U::from(k as u64), &z, &md.small(k));
            }
            put("isq", a, &z, &md.mul(a, a));
            for b in &vs {
                put("add", a, b, &md.add(a, b));
                put("sub", a, b, &md.sub(a, b));
                put("mul", a, b, &md.mul(a, b));
            }
        }
    }
    let cs = [("E222", 222, 117, E222_P), ("Curve1174", 251, 9, C1174_P), ("E382", 382, 105, E382_P), ("Curve41417", 414, 17, C41417_P), ("E521", 521, 1, E521_P)];
    for (name, n, c, p) in cs {
        let md = Md::new(n, c);
        let m = Model { md, d: md.small(p.d) };
        let b = Aff { x: U::from_hex(p.base_x), y: U::from_hex(p.base_y) };
        let one = U::from(1);
        let mut pts = vec![
            Aff { x: U::from(0), y: one },
            Aff { x: U::from(0), y: md.neg(&one) },
            Aff { x: one, y: U::from(0) },
            Aff { x: md.neg(&one), y: U::from(0) },
            b,
            m.neg(&b),
        ];
        let mut q = b;
        for _ in 0..20 {
            q = m.add(&q, &pts[pts.len() / 2]);
            q = m.add(&q, &b);
            pts.push(q);
        }
        let mut put = |op: &str, a: &Aff, b: &Aff, r: &Aff| {
            writeln!(o, "{} {} {} {} {} {} {} {}", name, op, a.x.hex(), a.y.hex(), b.x.hex(), b.y.hex(), r.x.hex(), r.y.hex()).unwrap()
        };
        for a in &pts {
            for b in &pts {
                put("padd", a, b, &m.add(a, b));
            }
            for k in [U::from(0), one, U::from(2), U::from(255), U::from_hex(p.order), md.p.minus(&one), U::pow2(n - 1)] {
                put("pmul", a, &Aff { x: k, y: one }, &m.mul(&k, a));
            }
        }
    }
}
