//! Polynomial calls (C13 - C16).
use crate::base::*;

fn coeffs(p: &ZPoly) -> Vec<BigUint> {
    frvs(p.get_coeffs())
}
fn write(ctx: &mut Ctx, op: &Op, out: Out<ZPoly>) -> Res {
    if let Some(p) = outcome(op, out)? {
        if p.len() != p.get_coeffs().len() {
            return mismatch("length and number of coefficients differ");
        }
        ctx.polys[op.u(0)] = p;
    }
    Ok(())
}

pub fn exec(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.as_str() {
        "poly.init" => {
            ctx.polys = op.a.iter().map(|v| poly(v)).collect();
            Ok(())
        }
        "poly.load" => {
            ctx.polys[op.u(0)] = poly(&op.a[0]);
            Ok(())
        }
        "poly.eval" => {
            let x = fr(&op.a[0][0]);
            if let Some(y) = outcome(op, plain(|| ctx.polys[op.u(0)].eval(&x)))? {
                same("value", &[frv(&y)], &op.r[0])?;
            }
            Ok(())
        }
        "poly.evalnew" => {
            let x = fr(&op.a[1][0]);
            let p = poly(&op.a[0]);
            if let Some(y) = outcome(op, plain(|| p.eval(&x)))? {
                same("value", &[frv(&y)], &op.r[0])?;
            }
            ctx.polys[op.u(0)] = p;
            Ok(())
        }
        "poly.rescale" => {
            let i = op.u(0);
            let mut p = ctx.polys[i].clone();
            if outcome(op, plain(|| {
                p.scale();
                p.unscale();
            }))?
            .is_some()
            {
                ctx.polys[i] = p.clone();
            }
            if outcome(op, plain(|| {
                p.unscale();
                p.scale();
            }))?
            .is_some()
            {
                ctx.polys[i] = p;
            }
            Ok(())
        }
        "poly.muldirect" => {
            let (mut a, b, n) = (ctx.polys[op.u(1)].clone(), ctx.polys[op.u(2)].clone(), op.u(3));
            let out = call(|| a.mul_direct(&b, n));
            same("first operand after the call", &coeffs(&a), &coeffs(&ctx.polys[op.u(1)]))?;
            write(ctx, op, out)
        }
        "poly.mulfft" => {
            let (a, b, n) = (ctx.polys[op.u(1)].clone(), ctx.polys[op.u(2)].clone(), op.u(3));
            write(ctx, op, call(|| Fs::poly_mul_fft(&a, &b, n, None)))
        }
        "poly.mulboth" => {
            let (mut a, b, n) = (ctx.polys[op.u(1)].clone(), ctx.polys[op.u(2)].clone(), op.u(3));
            let fs = ctx.settings(10)?;
            let x = outcome(op, call(|| a.mul_direct(&b, n)))?;
            let y = outcome(op, call(|| Fs::poly_mul_fft(&a, &b, n, Some(&fs))))?;
            if let (Some(x), Some(y)) = (x, y) {
                same("transform-based product compared to the direct one", &coeffs(&y), &coeffs(&x))?;
                ctx.polys[op.u(0)] = x;
            }
            Ok(())
        }
        "poly.mulempty" => {
            let (mut a, b, n) = (ctx.polys[op.u(0)].clone(), ctx.polys[op.u(1)].clone(), op.u(2));
            if let Some(p) = outcome(op, call(|| a.mul_direct(&b, n)))? {
                if p.get_coeffs().iter().any(|x| !x.is_zero()) {
                    return mismatch("a product with the empty polynomial is not zero");
                }
            }
            Ok(())
        }
        "poly.div" | "poly.longdiv" | "poly.fastdiv" => {
            let (mut a, b) = (ctx.polys[op.u(1)].clone(), ctx.polys[op.u(2)].clone());
            let out = call(|| match op.name.as_str() {
                "poly.div" => a.div(&b),
                "poly.longdiv" => a.long_div(&b),
                _ => a.fast_div(&b),
            });
            same("dividend after the call", &coeffs(&a), &coeffs(&ctx.polys[op.u(1)]))?;
            same("divisor after the call", &coeffs(&b), &coeffs(&ctx.polys[op.u(2)]))?;
            write(ctx, op, out)
        }
        "poly.divall" => {
            let (mut a, b) = (poly(&op.a[0]), poly(&op.a[1]));
            for how in ["long division", "fast division", "division"] {
                let out = call(|| match how {
                    "long division" => a.long_div(&b),
                    "fast division" => a.fast_div(&b),
                    _ => a.div(&b),
                });
                if let Some(q) = outcome(op, out)? {
                    same(how, &coeffs(&q), &op.r[0])?;
                    ctx.polys[op.u(0)] = q;
                }
                same("dividend after the call", &coeffs(&a), &op.a[0])?;
            }
            Ok(())
        }
        "poly.mulnew" => {
            let (mut a, b, n) = (poly(&op.a[0]), poly(&op.a[1]), op.u(1));
            // settings that are wide enough
            let fs = ctx.settings((a.len() + b.len()).next_power_of_two().trailing_zeros() as usize + n % 4)?;
            let out = call(|| match op.n[0] {
                0 => a.mul_direct(&b, n),
                1 => Fs::poly_mul_fft(&a, &b, n, None),
                _ => Fs::poly_mul_fft(&b, &a, n, Some(&fs)),
            });
            if let Some(q) = outcome(op, out)? {
                same("product", &coeffs(&q), &op.r[0])?;
            }
            same("first factor after the call", &coeffs(&a), &op.a[0])?;
            same("second factor after the call", &coeffs(&b), &op.a[1])
        }
        "poly.muleach" => {
            let (mut a, b) = (poly(&op.a[0]), poly(&op.a[1]));
            for n in 1..=op.u(0) {
                for how in ["direct product", "product by transforms", "product by transforms the other way round"] {
                    let out = call(|| match how {
                        "direct product" => a.mul_direct(&b, n),
                        "product by transforms" => Fs::poly_mul_fft(&a, &b, n, None),
                        _ => Fs::poly_mul_fft(&b, &a, n, None),
                    });
                    if let Some(q) = outcome(op, out)? {
                        same(how, &coeffs(&q), &op.r[0][..n])?;
                    }
                }
            }
            same("first factor after the call", &coeffs(&a), &op.a[0])?;
            same("second factor after the call", &coeffs(&b), &op.a[1])
        }
        "poly.inveach" => {
            let mut a = poly(&op.a[0]);
            for n in 1..=op.u(0) {
                let out = call(|| a.inverse(n));
                if let Some(q) = outcome(op, out)? {
                    same("inverse", &coeffs(&q), &op.r[0][..n])?;
                }
            }
            same("operand after the call", &coeffs(&a), &op.a[0])
        }
        "poly.diveach" => {
            let (mut a, b) = (poly(&op.a[0]), poly(&op.a[1]));
            for (i, how) in ["long division", "fast division", "division"].into_iter().enumerate() {
                let out = call(|| match how {
                    "long division" => a.long_div(&b),
                    "fast division" => a.fast_div(&b),
                    _ => a.div(&b),
                });
                if let Some(q) = outcome(op, out)? {
                    same(how, &coeffs(&q), &op.r[i / 2])?;
                }
                same("dividend after the call", &coeffs(&a), &op.a[0])?;
            }
            Ok(())
        }
        "poly.divlarge" => {
            let (mut a, b) = (poly(&op.a[0]), poly(&op.a[1]));
            for how in ["long division", "fast division", "division"] {
                let out = call(|| match how {
                    "long division" => a.long_div(&b),
                    "fast division" => a.fast_div(&b),
                    _ => a.div(&b),
                });
                if let Some(q) = outcome(op, out)? {
                    same(how, &coeffs(&q), &op.r[0])?;
                }
                same("dividend after the call", &coeffs(&a), &op.a[0])?;
            }
            Ok(())
        }
        "poly.divnew" => {
            let (mut a, b) = (poly(&op.a[0]), poly(&op.a[1]));
            let out = call(|| match op.n[0] {
                0 => a.div(&b),
                1 => a.long_div(&b),
                _ => a.fast_div(&b),
            });
            if let Some(q) = outcome(op, out)? {
                same("quotient", &coeffs(&q), &op.r[0])?;
            }
            same("dividend after the call", &coeffs(&a), &op.a[0])
        }
        "poly.invnew" => {
            let mut a = poly(&op.a[0]);
            let out = call(|| a.inverse(op.u(0)));
            if let Some(q) = outcome(op, out)? {
                same("inverse", &coeffs(&q), &op.r[0])?;
            }
            same("operand after the call", &coeffs(&a), &op.a[0])
        }
        "poly.divlinear" => {
            let mut a = ctx.polys[op.u(1)].clone();
            let mut b = poly(&[0u8.into(), 1u8.into()]);
            b.set_coeff_at(0, &Fr::negate(&fr(&op.a[0][0])));
            write(ctx, op, call(|| a.div(&b)))
        }
        "poly.inverse" => {
            let mut a = ctx.polys[op.u(1)].clone();
            let out = call(|| a.inverse(op.u(2)));
            same("operand after the call", &coeffs(&a), &coeffs(&ctx.polys[op.u(1)]))?;
            write(ctx, op, out)
        }
        "poly.inversenew" => {
            let mut a = poly(&op.a[0]);
            let out = call(|| a.inverse(op.u(1)));
            same("operand after the call", &coeffs(&a), &op.a[0])?;
            write(ctx, op, out)
        }
        _ => driver(format!("unknown call {}", op.name)),
    }
}
