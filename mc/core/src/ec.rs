//! Reference group law of y^2 = x^3 + 7 over any prime field.
use crate::{big::*, json, Value};
pub type Pt = Option<(U, U)>;
/// Textbook affine group law on y^2 = x^3 + 7 over the field of q elements.
pub fn radd(f: &Fp, a: &Pt, b: &Pt) -> Pt {
    let (Some((x1, y1)), Some((x2, y2))) = (a, b) else { return if a.is_none() { *b } else { *a } };
    let l = if x1 == x2 {
        if f.add(y1, y2).is_zero() { return None }
        f.mul(&f.mul(&U::from(3), &f.sq(x1)), &f.inv(&f.add(y1, y1)).unwrap())
    } else { f.mul(&f.sub(y2, y1), &f.inv(&f.sub(x2, x1)).unwrap()) };
    let x3 = f.sub(&f.sub(&f.sq(&l), x1), x2);
    Some((x3, f.sub(&f.mul(&l, &f.sub(x1, &x3)), y1)))
}
pub fn rneg(f: &Fp, a: &Pt) -> Pt { a.map(|(x, y)| (x, f.neg(&y))) }
/// Double-and-add in Jacobian coordinates (one inversion at the end); checked against repeated `radd` in the tests below.
pub fn rmul(f: &Fp, a: &Pt, k: &U) -> Pt {
    let (px, py) = (*a)?;
    let (mut x, mut y, mut z) = (U::ONE, U::ONE, U::ZERO); // infinity: z = 0
    let m2 = |v: &U| f.add(v, v);
    for i in (0..k.bits()).rev() {
        if !z.is_zero() {
            if y.is_zero() { z = U::ZERO } else {
                let yy = f.sq(&y); let s = m2(&m2(&f.mul(&x, &yy))); let xx = f.sq(&x); let m = f.add(&m2(&xx), &xx);
                let x3 = f.sub(&f.sq(&m), &m2(&s)); let y4 = m2(&m2(&m2(&f.sq(&yy))));
                z = m2(&f.mul(&y, &z)); y = f.sub(&f.mul(&m, &f.sub(&s, &x3)), &y4); x = x3;
            }
        }
        if k.bit(i) {
            if z.is_zero() { x = px; y = py; z = U::ONE } else {
                let zz = f.sq(&z); let (u2, s2) = (f.mul(&px, &zz), f.mul(&py, &f.mul(&zz, &z)));
                if u2 == x {
                    if s2 != y { z = U::ZERO; continue }
                    let d = radd(f, a, a); match d { None => z = U::ZERO, Some((dx, dy)) => { x = dx; y = dy; z = U::ONE } }
                } else {
                    let h = f.sub(&u2, &x); let r = f.sub(&s2, &y); let hh = f.sq(&h); let hhh = f.mul(&hh, &h); let v = f.mul(&x, &hh);
                    let x3 = f.sub(&f.sub(&f.sq(&r), &hhh), &m2(&v));
                    y = f.sub(&f.mul(&r, &f.sub(&v, &x3)), &f.mul(&y, &hhh)); x = x3; z = f.mul(&z, &h);
                }
            }
        }
    }
    let i = f.inv(&z)?; if z.is_zero() { return None }
    let ii = f.sq(&i); Some((f.mul(&x, &ii), f.mul(&y, &f.mul(&ii, &i))))
}
pub fn gen() -> Pt { Some((U::from_hex("76c39f5585cb160eb6b06c87a2ce32e23134e45a097781a6a24288e37702eda6"), U::from_hex("3ffc646c7b2918b5dc2d265a8e82a7f7d18983d26e8dc055a4120ddad952677f"))) }
pub fn show(p: &Pt) -> Value { match p { None => json!("infinity"), Some((x, y)) => json!([x.to_string(), y.to_string()]) } }

#[cfg(test)]
mod t { use super::*;
    fn slow(f: &Fp, a: &Pt, k: &U) -> Pt { let mut r = None; for i in (0..k.bits()).rev() { r = radd(f, &r, &r); if k.bit(i) { r = radd(f, &r, a) } } r }
    #[test] fn multiples() { let f = Fp::fast(Q); let mut k = U::from(1); for i in 0..200u64 { assert!(rmul(&f, &gen(), &U::from(i)) == slow(&f, &gen(), &U::from(i))); k = k.add(&k).0.add(&U::from(i)).0; assert!(rmul(&f, &gen(), &k) == slow(&f, &gen(), &k)); } for d in 0..5u64 { let k = P.sub(&U::from(d)).0; assert!(rmul(&f, &gen(), &k) == slow(&f, &gen(), &k)); } let k = P.add(&U::ONE).0; assert!(rmul(&f, &gen(), &k) == gen()); }
}
