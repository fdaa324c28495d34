//! Data described by a formula: few terms plus a geometric progression (see large.qnt).
//!
//! They are written out and results evaluated with the arithmetic of the reference, not with the library's.
use crate::base::*;
use bls12_381::Scalar;

pub fn re(v: &BigUint) -> Scalar {
    Scalar::from_raw(words::<4>(v))
}
pub fn val(x: &Scalar) -> BigUint {
    BigUint::from_bytes_le(&x.to_bytes())
}
pub fn lib(x: &Scalar) -> S {
    fr(&val(x))
}
pub fn sizes(v: &[BigUint]) -> Vec<usize> {
    v.iter().map(|x| words::<1>(x)[0] as usize).collect()
}

pub struct Formula {
    terms: Vec<(Scalar, usize)>,
    a: Scalar,
    g: Scalar,
    m: usize,
}
impl Formula {
    pub fn parse(a: &[Vec<BigUint>]) -> Formula {
        Formula {
            terms: a[0].iter().map(re).zip(sizes(&a[1])).collect(),
            a: re(&a[2][0]),
            g: re(&a[2][1]),
            m: words::<1>(&a[2][2])[0] as usize,
        }
    }
    pub fn coefficients(&self, n: usize) -> Vec<Scalar> {
        let mut out = vec![Scalar::zero(); n];
        let mut x = self.a;
        for o in out.iter_mut().take(self.m) {
            *o = x;
            x *= self.g;
        }
        for (v, e) in &self.terms {
            out[*e] += v;
        }
        out
    }
    /// in the variable X x
    pub fn stretched(&self, x: &Scalar) -> Formula {
        Formula {
            terms: self.terms.iter().map(|(v, e)| (v * x.pow(&[*e as u64, 0, 0, 0]), *e)).collect(),
            a: self.a,
            g: self.g * x,
            m: self.m,
        }
    }
    /// values at the n powers of w
    pub fn values(&self, w: &Scalar, n: usize) -> Vec<Scalar> {
        let one = Scalar::one();
        let steps: Vec<Scalar> = self.terms.iter().map(|(_, e)| w.pow(&[*e as u64, 0, 0, 0])).collect();
        let mut terms: Vec<Scalar> = self.terms.iter().map(|(v, _)| *v).collect();
        let (mut y, mut ym, wm) = (self.g, self.g.pow(&[self.m as u64, 0, 0, 0]), w.pow(&[self.m as u64, 0, 0, 0]));
        (0..n)
            .map(|_| {
                let geo = if y == one { Scalar::from(self.m as u64) } else { (ym - one) * (y - one).invert().unwrap() };
                let out = terms.iter().fold(self.a * geo, |s, t| s + t);
                terms.iter_mut().zip(&steps).for_each(|(t, s)| *t *= s);
                y *= w;
                ym *= wm;
                out
            })
            .collect()
    }
}
/// a root of unity of order 2^k, from 7
pub fn root(k: usize) -> Scalar {
    let e = (order() - 1u8) >> k;
    Scalar::from(7).pow(&words::<4>(&e))
}
pub fn horner(p: &ZPoly, x: &Scalar) -> BigUint {
    val(&p.get_coeffs().iter().rev().fold(Scalar::zero(), |s, c| s * x + re(&frv(c))))
}
pub fn libs(v: &[Scalar]) -> Vec<S> {
    v.iter().map(lib).collect()
}
pub fn as_poly(v: &[Scalar]) -> ZPoly {
    poly(&v.iter().map(val).collect::<Vec<_>>())
}
pub fn pick<T: Clone>(v: &[T], at: &[BigUint]) -> Result<Vec<T>, Fail> {
    sizes(at).iter().map(|i| v.get(*i).cloned()).collect::<Option<_>>().ok_or(Fail::Mismatch(format!("the result has only {} entries", v.len())))
}
