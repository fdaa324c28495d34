//! Steps that larger algorithms are made of: Toeplitz products, reversal of bits, helpers on polynomials and sizes (C32, C33).
use crate::base::*;
use crate::formula::*;
use crate::parts::*;

fn coeffs(p: &ZPoly) -> Vec<BigUint> {
    frvs(p.get_coeffs())
}
fn write(ctx: &mut Ctx, op: &Op, out: Out<ZPoly>) -> Res {
    if let Some(p) = outcome(op, out)? {
        ctx.polys[op.u(0)] = p;
    }
    Ok(())
}

pub fn toeplitz(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.as_str() {
        "toe.steps" => {
            let fs = ctx.settings(op.u(0))?;
            let c = poly(&op.a[0]);
            let x: Vec<ZkG1Projective> = op.a[1].iter().enumerate().map(|(i, v)| g1_make(v, i as i64 % 3)).collect();
            let out = plain(|| {
                let a = toeplitz_part_1(&x, &fs);
                let b = toeplitz_part_2(&c, &a, &fs);
                let h = toeplitz_part_3(&b, &fs);
                (a, b, h)
            });
            if let Some((a, b, h)) = outcome(op, out)? {
                same_g1s("transformed element", &a, &op.r[0])?;
                same_g1s("multiplied element", &b, &op.r[1])?;
                same_g1s("element of the product", &h, &op.r[2])?;
            }
            Ok(())
        }
        "toe.opening" => {
            let fs = ctx.settings(op.u(0))?;
            let f = poly(&op.a[0]);
            let x: Vec<ZkG1Projective> = op.a[1].iter().map(|v| g1_make(v, 0)).collect();
            let out = plain(|| {
                let a = toeplitz_part_1(&x, &fs);
                toeplitz_part_3(&toeplitz_part_2(&toeplitz_coeffs_step(&f), &a, &fs), &fs)
            });
            if let Some(h) = outcome(op, out)? {
                same_g1s("coefficient", &h[..op.r[0].len()], &op.r[0])?;
            }
            Ok(())
        }
        "toe.column" => {
            let p = poly(&op.a[0]);
            let out = plain(|| toeplitz_coeffs_stride(op.u(0), op.u(1), &p));
            if let Some(c) = outcome(op, out)? {
                same("column", &coeffs(&c), &op.r[0])?;
                if op.n[1] == 1 {
                    same("column", &coeffs(&toeplitz_coeffs_step(&p)), &op.r[0])?;
                }
            }
            same("polynomial after the call", &coeffs(&p), &op.a[0])
        }
        "toe.reverse" => {
            let mut v = op.frs(0);
            let mut w: Vec<usize> = (0..v.len()).collect();
            if outcome(op, plain(|| {
                reverse_bit_order(&mut v);
                reverse_bit_order(&mut w);
            }))?
            .is_some()
            {
                same("reordered", &frvs(&v), &op.r[0])?;
                same("reordered positions", &w.iter().map(|i| op.a[0][*i].clone()).collect::<Vec<_>>(), &op.r[0])?;
                if outcome(op, plain(|| reverse_bit_order(&mut v)))?.is_some() {
                    same("reordered twice", &frvs(&v), &op.a[0])?;
                }
            }
            Ok(())
        }
        "toe.free" => {
            let fs = ctx.settings(op.u(0))?;
            let data = op.frs(0);
            if let Some(r) = outcome(op, call(|| fft_fr(&data, op.flag(1), &fs)))? {
                same("transform", &frvs(&r), &op.r[0])?;
                same("data after the call", &frvs(&data), &op.a[0])?;
            }
            Ok(())
        }
        "toe.strided" => {
            let fs = ctx.settings(op.u(0))?;
            let (m, stride) = (1 << op.u(1), 1 << op.u(2));
            let data = op.frs(0);
            let out = plain(|| {
                let mut r = vec![<S as Fr>::one(); m];
                fft_fr_fast(&mut r, &data, stride, fs.get_expanded_roots_of_unity(), (1 << op.u(0)) / m);
                r
            });
            if let Some(r) = outcome(op, out)? {
                same("transform of every so many values", &frvs(&r), &op.r[0])?;
            }
            if m * stride <= 64 {
                let points: Vec<ZkG1Projective> = op.a[0].iter().enumerate().map(|(i, v)| g1_make(v, i as i64 % 3)).collect();
                let out = plain(|| {
                    let mut r = vec![<ZkG1Projective as G1>::generator(); m];
                    fft_g1_fast(&mut r, &points, stride, fs.get_expanded_roots_of_unity(), (1 << op.u(0)) / m);
                    r
                });
                if let Some(r) = outcome(op, out)? {
                    same_g1s("transform of every so many elements", &r, &op.r[0])?;
                }
            }
            Ok(())
        }
        _ => driver(format!("unknown call {}", op.name)),
    }
}

pub fn exec(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.as_str() {
        "help.init" => {
            ctx.polys = op.a.iter().map(|v| poly(v)).collect();
            Ok(())
        }
        "help.load" => {
            ctx.polys[op.u(0)] = poly(&op.a[0]);
            Ok(())
        }
        "help.norm" => {
            let p = ctx.polys[op.u(1)].clone();
            write(ctx, op, call(|| if op.n[2] == 0 { poly_norm(&p) } else { poly_flip(&p) }))
        }
        "help.pad" => {
            let (p, n) = (ctx.polys[op.u(1)].clone(), op.u(3));
            write(ctx, op, call(|| {
                Ok(match op.n[2] {
                    0 => poly(&frvs(&pad(&p, n))),
                    1 => pad_(&p, n),
                    _ => poly(&frvs(&pad_poly(&p, n)?)),
                })
            }))
        }
        "help.long" => {
            let (how, n, m) = (op.u(0), op.u(1), op.u(2));
            let mut p = as_poly(&Formula::parse(&op.a).coefficients(if how == 4 { n + m } else { n }));
            let out = call(|| {
                Ok(match how {
                    0 => {
                        scale_poly(&mut p);
                        p
                    }
                    1 => {
                        unscale_poly(&mut p);
                        p
                    }
                    2 => {
                        p.scale();
                        p
                    }
                    3 => {
                        p.unscale();
                        p
                    }
                    4 => poly_norm(&p)?,
                    5 => poly_flip(&p)?,
                    6 => poly(&frvs(&pad(&p, m))),
                    7 => pad_(&p, m),
                    8 => poly(&frvs(&pad_poly(&p, m)?)),
                    9 => ruffini(&p, fr(&op.a[5][0])),
                    _ => poly_mul(&p, &as_poly(&Formula::parse(&op.a[5..]).coefficients(m)), n + m - 1)?,
                })
            });
            if let Some(p) = outcome(op, out)? {
                same("length", &[p.len().into()], &op.r[2])?;
                same("coefficients", &frvs(&pick(p.get_coeffs(), &op.a[3])?), &op.r[0])?;
                let got: Vec<BigUint> = op.a[4].iter().map(|x| horner(&p, &re(x))).collect();
                same("values of the polynomial", &got, &op.r[1])?;
            }
            Ok(())
        }
        "help.length" => {
            let out = call(|| poly_quotient_length(&ctx.polys[op.u(0)], &ctx.polys[op.u(1)]));
            if let Some(n) = outcome(op, out)? {
                same("length", &[n.into()], &op.r[0])?;
            }
            Ok(())
        }
        "help.linear" => {
            let mut c = coeffs(&ctx.polys[op.u(1)]);
            while c.last().map_or(false, |x| *x == BigUint::from(0u8)) {
                c.pop();
            }
            let out = plain(|| ruffini(&poly(&c), fr(&op.a[0][0])));
            write(ctx, op, out)
        }
        "help.scale" => {
            let mut p = ctx.polys[op.u(0)].clone();
            write(ctx, op, plain(|| {
                match op.n[1] {
                    0 => scale_poly(&mut p),
                    1 => unscale_poly(&mut p),
                    2 => p.scale(),
                    _ => p.unscale(),
                }
                p
            }))
        }
        "help.mul" => {
            let (a, b) = (ctx.polys[op.u(1)].clone(), ctx.polys[op.u(2)].clone());
            write(ctx, op, call(|| poly_mul(&a, &b, op.u(3))))
        }
        "help.new" => write(ctx, op, call(|| ZPoly::new(op.u(1)))),
        "help.set" => {
            let mut p = ctx.polys[op.u(0)].clone();
            let out = plain(|| {
                let before = (p.get_coeff_at(op.u(1)), p.len());
                p.set_coeff_at(op.u(1), &fr(&op.a[0][0]));
                (p, before)
            });
            if let Some((p, (x, n))) = outcome(op, out)? {
                same("coefficient and length before", &[frv(&x), n.into()], &op.r[0])?;
                ctx.polys[op.u(0)] = p;
            }
            Ok(())
        }
        "help.sizes" => {
            let (n, low, b) = (op.u(0), op.u(1), op.n[2] as u8);
            let next = op.r[0][1] != BigUint::from(0u8);
            let out = call(|| {
                let v: Vec<usize> = vec![
                    is_power_of_two(n) as usize,
                    if next { next_power_of_two(n) } else { 0 },
                    log2_u64(n),
                    log2_pow2(low),
                    log_2_byte(b),
                    min_u64(n, low)?,
                ];
                Ok(v)
            });
            if let Some(v) = outcome(op, out)? {
                same("sizes", &v.into_iter().map(BigUint::from).collect::<Vec<_>>(), &op.r[0])?;
            }
            Ok(())
        }
        _ => driver(format!("unknown call {}", op.name)),
    }
}
