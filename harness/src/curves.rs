//! Calls of the two groups and of the pairing.
use crate::base::*;
use crate::{ways, written};
use std::ops::Neg;
use zkcrypto::curve::pairings::{multi_miller_loop, pairing, G2Prepared, Gt, MillerLoopResult};
use zkcrypto::kzg_types::pairings_verify;

macro_rules! group {
    ($name:ident, $proj:ty, $affine:ty, $tr:ident, $mul:ident, $make:ident, $same:ident, $bytes:ident, $identity:expr) => {
        fn $name(regs: &mut Vec<$proj>, op: &Op) -> Res {
            let reg = |i: usize| regs[op.u(i)];
            let combine = |a: $proj, b: $proj, k: i64| -> $proj {
                match k {
                    0 => ways!(a, b, +, +=),
                    1 => { let mut a = a; a += b; a }
                    2 => { let mut a = a; a.add_or_dbl(&b) }
                    3 => <$proj>::add(&a, &b),
                    4 => ways!(a, <$affine>::from(&b), +, +=),
                    5 => ways!(<$affine>::from(&a), b, +),
                    6 => a.add_mixed(&<$affine>::from(&b)),
                    7 => { let mut a = a; a += <$affine>::from(b); a }
                    8 => ways!(a, b, -, -=),
                    9 => { let mut a = a; a -= b; a }
                    10 => $tr::sub(&a, &b),
                    11 => ways!(a, <$affine>::from(&b), -, -=),
                    12 => ways!(<$affine>::from(&a), b, -),
                    13 => { let mut a = a; a -= <$affine>::from(b); a }
                    _ => a + (-b),
                }
            };
            let out = match op.name.as_str() {
                "g.load" => plain(|| $make(&op.a[0][0], op.n[1])),
                "g.add" | "g.sub" => plain(|| combine(reg(1), reg(2), op.n[3])),
                "g.meet" => plain(|| combine(reg(1), $make(&op.a[0][0], op.n[3]), op.n[2])),
                "g.una" => plain(|| {
                    let a = reg(1);
                    match op.n[2] {
                        0 => $tr::dbl(&a),
                        1 => a.double(),
                        2 => a.neg(),
                        3 => <$proj>::from(-<$affine>::from(&a)),
                        4 => <$proj>::from(&<$affine>::from(&a)),
                        _ => a.clear_cofactor(),
                    }
                }),
                "g.times" => plain(|| {
                    let (a, s) = (reg(1), fr(&op.a[0][0]));
                    match op.n[2] {
                        0 => $mul::mul(&a, &s),
                        1 => written!(op.u(0) + op.u(1), a, s, *, *=),
                        2 => written!(op.u(0) + op.u(1), <$affine>::from(&a), s, *),
                        _ => { let mut a = a; a *= s; a }
                    }
                }),
                "g.const" => plain(|| match op.n[1] {
                    0 => $identity,
                    1 => <$proj as $tr>::default(),
                    2 => <$proj>::from(<$affine>::identity()),
                    3 => <$proj as $tr>::generator(),
                    4 => <$proj>::generator(),
                    5 => <$proj>::from(<$affine>::generator()),
                    _ => <$proj as $tr>::negative_generator(),
                }),
                "g.sum" => plain(|| regs.iter().cycle().take(op.u(1)).sum::<$proj>()),
                "g.batch" => {
                    let n = op.u(0);
                    let (mut regs, round) = (regs.to_vec(), regs.len());
                    for i in regs.len()..n {
                        regs.push(regs[i - round] + regs[if i % 3 == 0 { 0 } else { 1 }]);
                    }
                    let out = plain(|| {
                        let mut q = vec![<$affine>::generator(); n];
                        <$proj>::batch_normalize(&regs[..n], &mut q);
                        q
                    });
                    if let Some(q) = outcome(op, out)? {
                        for (i, (q, v)) in q.iter().zip(&op.r[0]).enumerate() {
                            $same(&format!("normalised element {i}"), &<$proj>::from(q), v)?;
                            if *q != <$affine>::from(&regs[i]) {
                                return mismatch(format!("normalised element {i} differs from the converted one"));
                            }
                        }
                    }
                    return Ok(());
                }
                "g.tests" => {
                    let a = reg(0);
                    let out = plain(|| {
                        let b = <$affine>::from(&a);
                        (vec![bool::from(a.is_identity()), bool::from(b.is_identity()), a == <$proj>::identity()],
                         vec![bool::from(a.is_on_curve()), bool::from(b.is_on_curve()), bool::from(b.is_torsion_free())])
                    });
                    if let Some((inf, on)) = outcome(op, out)? {
                        for b in inf {
                            same_bool("infinity test", b, &op.r[0][0])?;
                        }
                        if on.contains(&false) {
                            return mismatch("an element of the group is not on the curve or not in the subgroup");
                        }
                    }
                    return Ok(());
                }
                "g.equal" => {
                    let a = reg(0);
                    let out = plain(|| {
                        let b = $make(&op.a[0][0], op.n[1]);
                        vec![$tr::equals(&a, &b), $tr::equals(&b, &a), a == b, !(a != b), <$affine>::from(&a) == <$affine>::from(&b)]
                    });
                    if let Some(v) = outcome(op, out)? {
                        for b in v {
                            same_bool("equality", b, &op.r[0][0])?;
                        }
                    }
                    return Ok(());
                }
                "g.rand" => {
                    let out = plain(|| rand_ok());
                    if let Some(false) = outcome(op, out)? {
                        return mismatch("random elements repeat, are infinite or are outside the group");
                    }
                    return Ok(());
                }
                _ => return driver(format!("unknown call {}", op.name)),
            };
            if let Some(v) = outcome(op, out)? {
                if !op.r.is_empty() {
                    $same("result", &v, &op.r[0][0])?;
                }
                let i = op.u(0);
                regs[i] = v;
            }
            Ok(())
        }
    };
}
/// random elements exist in the first group only
fn rand_ok() -> bool {
    let a = <ZkG1Projective as G1>::rand();
    let b = <ZkG1Projective as G1>::rand();
    let c = ZkG1Affine::from(&a);
    a != b && !a.is_inf() && bool::from(c.is_on_curve()) && bool::from(c.is_torsion_free())
}
group!(first, ZkG1Projective, ZkG1Affine, G1, G1Mul, g1_make, same_g1, g1_bytes, <ZkG1Projective as G1>::identity());
group!(second, ZkG2Projective, ZkG2Affine, G2, G2Mul, g2_make, same_g2, g2_bytes, ZkG2Projective::identity());

/// the coefficients of an element of the target group, from its printed form (nothing else shows them)
fn digits(s: &str) -> Vec<String> {
    s.split("0x").skip(1).map(|t| t.chars().take_while(|c| c.is_ascii_hexdigit()).collect()).collect()
}
fn ref_gt(v: &BigUint) -> Vec<String> {
    use bls12_381 as b;
    thread_local! { static C: std::cell::RefCell<std::collections::HashMap<BigUint, Vec<String>>> = Default::default(); }
    C.with(|c| {
        c.borrow_mut()
            .entry(v.clone())
            .or_insert_with(|| {
                let p = b::G1Affine::from(b::G1Projective::generator() * b::Scalar::from_raw(words::<4>(v)));
                digits(&b::pairing(&p, &b::G2Affine::generator()).to_string())
            })
            .clone()
    })
}
pub fn same_gt(what: &str, x: &Gt, v: &BigUint) -> Res {
    let got = digits(&x.to_string());
    if got.len() != 12 {
        // not printed as expected: compare with the library's own pairing
        let p = ZkG1Affine::from(g1_make(v, 0));
        if *x != pairing(&p, &ZkG2Affine::generator()) {
            return mismatch(format!("{what} is not the element with logarithm {v}"));
        }
        return Ok(());
    }
    if got != ref_gt(v) {
        return mismatch(format!("{what} is not the element with logarithm {v}"));
    }
    Ok(())
}

fn pair(ctx: &mut Ctx, op: &Op) -> Res {
    let a1 = |i: usize| ctx.g1[i];
    let a2 = |i: usize| ctx.g2[i];
    let loop_of = |p: &ZkG1Projective, q: &ZkG2Projective| -> MillerLoopResult {
        multi_miller_loop(&[(&ZkG1Affine::from(p), &G2Prepared::from(ZkG2Affine::from(q)))])
    };
    let out = match op.name.as_str() {
        "pair.init" => {
            ctx.g1 = op.a[0].iter().map(|v| g1_make(v, 0)).collect();
            ctx.g2 = op.a[0].iter().map(|v| g2_make(v, 0)).collect();
            ctx.low.gt = vec![Gt::identity(); op.u(0)];
            return Ok(());
        }
        "pair.load" => {
            let d = op.u(1);
            if op.n[0] == 1 {
                if let Some(v) = outcome(op, plain(|| g1_make(&op.a[0][0], op.n[2])))? {
                    ctx.g1[d] = v;
                }
            } else if let Some(v) = outcome(op, plain(|| g2_make(&op.a[0][0], op.n[2])))? {
                ctx.g2[d] = v;
            }
            return Ok(());
        }
        "pair.pairing" => {
            let (p, q) = (a1(op.u(1)), a2(op.u(2)));
            let out = plain(|| {
                if op.n[3] == 0 {
                    pairing(&ZkG1Affine::from(&p), &ZkG2Affine::from(&q))
                } else {
                    loop_of(&p, &q).final_exponentiation()
                }
            });
            if let Out::Val(v) = &out {
                same_bool("equality with the identity", *v == Gt::identity(), &op.r[0][1])?;
            }
            out
        }
        "pair.multi" => plain(|| {
            let (n, s) = (op.u(1), op.u(2));
            let ps: Vec<ZkG1Affine> = (0..n).map(|i| ZkG1Affine::from(&a1(i % ctx.g1.len()))).collect();
            let qs: Vec<G2Prepared> = (0..n).map(|i| G2Prepared::from(ZkG2Affine::from(&a2((i + s + i / ctx.g1.len()) % ctx.g2.len())))).collect();
            if op.n[3] == 0 {
                let terms: Vec<_> = ps.iter().zip(&qs).collect();
                multi_miller_loop(&terms).final_exponentiation()
            } else {
                let mut acc = MillerLoopResult::default();
                for (p, q) in ps.iter().zip(&qs) {
                    acc = written!(op.u(0) + op.u(1), acc, multi_miller_loop(&[(p, q)]), +, +=);
                }
                acc.final_exponentiation()
            }
        }),
        "pair.gt" => plain(|| {
            let (x, y) = (ctx.low.gt[op.u(1)], ctx.low.gt[op.u(2)]);
            match op.n[3] {
                0 => Gt::identity(),
                1 => ways!(x, y, +, +=),
                2 => ways!(x, y, -, -=),
                3 => if -&x == -x { -x } else { panic!("the ways to write an operator differ") },
                4 => x.double(),
                5 => written!(op.u(0) + op.u(1), x, fr(&op.a[0][0]), *, *=),
                _ => ctx.low.gt.iter().cycle().take(op.u(4)).sum(),
            }
        }),
        "pair.equal" => {
            let (x, y) = (ctx.low.gt[op.u(0)], ctx.low.gt[op.u(1)]);
            if let Some(b) = outcome(op, plain(|| x == y))? {
                same_bool("equality", b, &op.r[0][0])?;
            }
            return Ok(());
        }
        "pair.verify" => {
            let (a, b, c, d) = (a1(op.u(0)), a2(op.u(1)), a1(op.u(2)), a2(op.u(3)));
            if let Some(b) = outcome(op, plain(|| pairings_verify(&a, &b, &c, &d)))? {
                same_bool("pairing check", b, &op.r[0][0])?;
            }
            return Ok(());
        }
        "pair.balanced" => {
            let (a, b) = (a1(op.u(0)), a2(op.u(1)));
            let out = plain(|| {
                let c = g1_make(&op.a[0][0], op.n[2]);
                let d = g2_make(&op.a[1][0], op.n[3]);
                (pairings_verify(&a, &b, &c, &d), pairings_verify(&c, &d, &a, &b))
            });
            if let Some(b) = outcome(op, out)? {
                same_bool("pairing check", b.0, &op.r[0][0])?;
                same_bool("pairing check with the sides exchanged", b.1, &op.r[0][0])?;
            }
            return Ok(());
        }
        _ => return driver(format!("unknown call {}", op.name)),
    };
    if let Some(v) = outcome(op, out)? {
        same_gt("result", &v, &op.r[0][0])?;
        let d = op.u(0);
        ctx.low.gt[d] = v;
    }
    Ok(())
}

pub fn exec(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.as_str() {
        "g1.init" => {
            ctx.g1 = op.a[0].iter().map(|v| g1_make(v, op.n[0])).collect();
            Ok(())
        }
        "g2.init" => {
            ctx.g2 = op.a[0].iter().map(|v| g2_make(v, op.n[0])).collect();
            Ok(())
        }
        n if n.starts_with("pair.") => pair(ctx, op),
        _ if ctx.g2.is_empty() => first(&mut ctx.g1, op),
        _ => second(&mut ctx.g2, op),
    }
}
