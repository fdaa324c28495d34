//! Calls of the base field and its extensions.
use crate::base::*;
use crate::ways;
use zkcrypto::curve::fp::Fp;
use zkcrypto::curve::fp12::Fp12;
use zkcrypto::curve::fp2::Fp2;
use zkcrypto::curve::fp6::Fp6;

#[derive(Clone, Copy)]
pub enum El {
    A(Fp),
    B(Fp2),
    C(Fp6),
    D(Fp12),
}
use El::*;

#[derive(Default)]
pub struct Regs(Vec<El>);

pub fn fp_make(v: &BigUint) -> Fp {
    Option::from(Fp::from_bytes(&be_bytes::<48>(v))).expect("an encoding below the characteristic was rejected")
}
pub fn fp_val(x: &Fp) -> BigUint {
    BigUint::from_bytes_be(&x.to_bytes())
}
fn fp2_make(v: &[BigUint]) -> Fp2 {
    Fp2 { c0: fp_make(&v[0]), c1: fp_make(&v[1]) }
}
fn fp6_make(v: &[BigUint]) -> Fp6 {
    Fp6 { c0: fp2_make(&v[0..2]), c1: fp2_make(&v[2..4]), c2: fp2_make(&v[4..6]) }
}
fn make(v: &[BigUint]) -> El {
    match v.len() {
        1 => A(fp_make(&v[0])),
        2 => B(fp2_make(v)),
        6 => C(fp6_make(v)),
        _ => D(Fp12 { c0: fp6_make(&v[0..6]), c1: fp6_make(&v[6..12]) }),
    }
}
fn val2(x: &Fp2) -> Vec<BigUint> {
    vec![fp_val(&x.c0), fp_val(&x.c1)]
}
fn val6(x: &Fp6) -> Vec<BigUint> {
    [val2(&x.c0), val2(&x.c1), val2(&x.c2)].concat()
}
fn val(x: &El) -> Vec<BigUint> {
    match x {
        A(x) => vec![fp_val(x)],
        B(x) => val2(x),
        C(x) => val6(x),
        D(x) => [val6(&x.c0), val6(&x.c1)].concat(),
    }
}

impl Regs {
    pub fn compare(&self, want: &[Vec<BigUint>]) -> Result<(), String> {
        if want.len() != self.0.len() {
            return Err(format!("{} registers instead of {}", self.0.len(), want.len()));
        }
        for (i, (x, w)) in self.0.iter().zip(want).enumerate() {
            text_of(same(&format!("field register {i}"), &val(x), w))?;
        }
        Ok(())
    }
}

macro_rules! each {
    ($x:expr, $v:ident => $e:expr) => {
        match $x {
            A($v) => A($e),
            B($v) => B($e),
            C($v) => C($e),
            D($v) => D($e),
        }
    };
}
macro_rules! both {
    ($x:expr, $y:expr, $a:ident, $b:ident => $e:expr) => {
        match ($x, $y) {
            (A($a), A($b)) => A($e),
            (B($a), B($b)) => B($e),
            (C($a), C($b)) => C($e),
            (D($a), D($b)) => D($e),
            _ => panic!("registers of different fields"),
        }
    };
}
fn equal(x: El, y: El) -> bool {
    match (x, y) {
        (A(a), A(b)) => a == b,
        (B(a), B(b)) => a == b,
        (C(a), C(b)) => a == b,
        (D(a), D(b)) => a == b,
        _ => panic!("registers of different fields"),
    }
}
fn is_zero(x: El) -> bool {
    match x {
        A(x) => bool::from(x.is_zero()),
        B(x) => bool::from(x.is_zero()),
        C(x) => bool::from(x.is_zero()),
        D(x) => bool::from(x.is_zero()),
    }
}
fn some<T>(v: Option<T>) -> Result<T, String> {
    v.ok_or_else(|| "none".to_string())
}
fn sqrt(x: El) -> Result<El, String> {
    match x {
        A(x) => some(Option::from(x.sqrt())).map(A),
        B(x) => some(Option::from(x.sqrt())).map(B),
        _ => panic!("no square root"),
    }
}
fn two(x: El) -> Fp2 {
    match x {
        B(x) => x,
        _ => panic!("not a register of degree 2"),
    }
}

pub fn exec(ctx: &mut Ctx, op: &Op) -> Res {
    if op.name == "tower.init" {
        ctx.low.tower = Regs(
            op.n.iter()
                .map(|d| match d {
                    1 => A(Fp::one()),
                    2 => B(Fp2::one()),
                    6 => C(Fp6::one()),
                    _ => D(Fp12::one()),
                })
                .collect(),
        );
        return Ok(());
    }
    let regs = ctx.low.tower.0.clone();
    let reg = |i: usize| regs[op.u(i)];
    // outcome of a call whose result goes to the first register
    let out = match op.name.as_str() {
        "tower.load" => plain(|| make(&op.a[0])),
        "tower.zero" => plain(|| match reg(0) {
            A(_) => A(Fp::zero()),
            B(_) => B(Fp2::zero()),
            C(_) => C(Fp6::zero()),
            D(_) => D(Fp12::zero()),
        }),
        "tower.one" => plain(|| match reg(0) {
            A(_) => A(Fp::one()),
            B(_) => B(Fp2::one()),
            C(_) => C(Fp6::one()),
            D(_) => D(Fp12::one()),
        }),
        "tower.add" => plain(|| both!(reg(1), reg(2), a, b => ways!(a, b, +, +=))),
        "tower.sub" => plain(|| both!(reg(1), reg(2), a, b => ways!(a, b, -, -=))),
        "tower.mul" => plain(|| both!(reg(1), reg(2), a, b => ways!(a, b, *, *=))),
        "tower.addto" => plain(|| both!(reg(1), reg(2), a, b => { let mut a = a; a += b; a })),
        "tower.subto" => plain(|| both!(reg(1), reg(2), a, b => { let mut a = a; a -= b; a })),
        "tower.multo" => plain(|| both!(reg(1), reg(2), a, b => { let mut a = a; a *= b; a })),
        "tower.with" => plain(|| {
            let (x, y) = (reg(1), make(&op.a[0]));
            match op.n[2] {
                0 => both!(x, y, a, b => a + b),
                1 => both!(x, y, a, b => a - b),
                _ => both!(x, y, a, b => a * b),
            }
        }),
        "tower.neg" => plain(|| each!(reg(1), a => if -&a == -a { -a } else { panic!("the ways to write an operator differ") })),
        "tower.square" => plain(|| each!(reg(1), a => a.square())),
        "tower.frobenius" => plain(|| match reg(1) {
            A(x) => A(x),
            B(x) => B(x.frobenius_map()),
            C(x) => C(x.frobenius_map()),
            D(x) => D(x.frobenius_map()),
        }),
        "tower.conjugate" => plain(|| match reg(1) {
            B(x) => B(x.conjugate()),
            D(x) => D(x.conjugate()),
            x => x,
        }),
        "tower.nonresidue" => plain(|| match reg(1) {
            B(x) => B(x.mul_by_nonresidue()),
            C(x) => C(x.mul_by_nonresidue()),
            x => x,
        }),
        "tower.invert" => call(|| match reg(1) {
            A(x) => some(Option::from(x.invert())).map(A),
            B(x) => some(Option::from(x.invert())).map(B),
            C(x) => some(Option::from(x.invert())).map(C),
            D(x) => some(Option::from(x.invert())).map(D),
        }),
        "tower.embed" => plain(|| match (reg(0), reg(1)) {
            (B(_), A(x)) => B(Fp2::from(x)),
            (C(_), A(x)) => C(Fp6::from(x)),
            (C(_), B(x)) => C(Fp6::from(x)),
            (D(_), A(x)) => D(Fp12::from(x)),
            (D(_), B(x)) => D(Fp12::from(x)),
            (D(_), C(x)) => D(Fp12::from(x)),
            _ => panic!("no embedding"),
        }),
        "tower.by1" => plain(|| match reg(1) {
            C(x) => C(x.mul_by_1(&two(reg(2)))),
            x => x,
        }),
        "tower.by01" => plain(|| match reg(1) {
            C(x) => C(x.mul_by_01(&two(reg(2)), &two(reg(3)))),
            x => x,
        }),
        "tower.by014" => plain(|| match reg(1) {
            D(x) => D(x.mul_by_014(&two(reg(2)), &two(reg(3)), &two(reg(4)))),
            x => x,
        }),
        "tower.pow" => plain(|| {
            let e = words::<6>(&op.a[0][0]);
            match reg(1) {
                A(x) => A(x.pow_vartime(&e)),
                B(x) => B(x.pow_vartime(&e)),
                x => x,
            }
        }),
        "tower.decode" => call(|| some(Option::<Fp>::from(Fp::from_bytes(&be_bytes::<48>(&op.a[0][0])))).map(A)),
        "tower.near" => {
            let (x, v) = (reg(1), plain(|| make(&op.a[0])));
            if let Out::Val(v) = &v {
                if let Some(b) = outcome(op, plain(|| equal(x, *v)))? {
                    same_bool("equality", b, &op.r[0][0])?;
                }
            }
            v
        }
        "tower.larger" => {
            let v = plain(|| make(&op.a[0]));
            if let Out::Val(v) = &v {
                let out = plain(|| match v {
                    A(x) => bool::from(x.lexicographically_largest()),
                    B(x) => bool::from(x.lexicographically_largest()),
                    _ => panic!("no order"),
                });
                if let Some(b) = outcome(op, out)? {
                    same_bool("order", b, &op.r[0][0])?;
                }
            }
            v
        }
        "tower.equal" => {
            let (x, y) = (reg(0), reg(1));
            if let Some(b) = outcome(op, plain(|| equal(x, y)))? {
                same_bool("equality", b, &op.r[0][0])?;
            }
            return Ok(());
        }
        "tower.tests" => {
            let x = reg(0);
            if let Some(b) = outcome(op, plain(|| is_zero(x)))? {
                same_bool("zero test", b, &op.r[0][0])?;
            }
            return Ok(());
        }
        "tower.sqrt" => {
            let x = reg(0);
            if let Some(v) = outcome(op, call(|| sqrt(x)))? {
                // squared by the reference
                same("square of the root", &squared(&val(&v)), &op.r[0])?;
            }
            return Ok(());
        }
        "tower.sqrtsq" => {
            if let Some(v) = outcome(op, call(|| sqrt(make(&op.a[0]))))? {
                let v = val(&v);
                if v != op.r[0] && v != op.r[1] {
                    return mismatch(format!("the root of the square of {} is {}", short(&op.r[0]), short(&v)));
                }
            }
            return Ok(());
        }
        _ => return driver(format!("unknown call {}", op.name)),
    };
    if let Some(v) = outcome(op, out)? {
        if op.name != "tower.near" && op.name != "tower.larger" && !op.r.is_empty() {
            same("result", &val(&v), &op.r[0])?;
        }
        let i = op.u(0);
        ctx.low.tower.0[i] = v;
    }
    Ok(())
}

fn characteristic() -> BigUint {
    "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787".parse().unwrap()
}
/// the square of an element of degree 1 or 2, with integers
fn squared(v: &[BigUint]) -> Vec<BigUint> {
    let p = characteristic();
    if v.len() == 1 {
        return vec![&v[0] * &v[0] % &p];
    }
    vec![(&v[0] * &v[0] + (&p - &v[1]) * &v[1]) % &p, (&v[0] * &v[1] * 2u8) % &p]
}
