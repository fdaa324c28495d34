//! Setups, commitments, openings and verification (C08, C09, C17 - C20).
use crate::base::*;

fn verdict(op: &Op, out: Out<bool>) -> Res {
    match outcome(op, out)? {
        Some(b) => same_bool("verdict", b, &op.r[0][0]),
        None => Ok(()),
    }
}
fn points_of_setup(g1: &[ZkG1Projective], g2: &[ZkG2Projective], want: &[BigUint]) -> Res {
    same_g1s("first-group point", g1, want)?;
    if g2.len() != want.len() {
        return mismatch(format!("{} second-group points instead of {}", g2.len(), want.len()));
    }
    for (i, (p, w)) in g2.iter().zip(want).enumerate() {
        same_g2(&format!("second-group point {i}"), p, w)?;
    }
    Ok(())
}
/// a polynomial must not change when it is used
fn unchanged(p: &ZPoly, before: &[BigUint]) -> Res {
    same("polynomial after the call", &frvs(p.get_coeffs()), before)
}

pub fn exec(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.as_str() {
        "kzg.setup" => {
            let (k, n, s) = (op.u(0), op.u(1), op.a[0][0].clone());
            let fs = ctx.settings(k)?;
            if let Some((g1, g2)) = outcome(op, plain(|| generate_trusted_setup(n, le_bytes::<32>(&s))))? {
                points_of_setup(&g1, &g2, &op.r[0])?;
                if let Some(ks) = outcome(op, call(|| Ks::new(&g1, &g2, n, &fs)))? {
                    points_of_setup(&g1, &g2, &op.r[0])?;
                    points_of_setup(&ks.secret_g1, &ks.secret_g2, &op.r[0])?;
                    ctx.ks.insert((k, n, s.clone()), Arc::new(ks));
                }
            }
            ctx.setup = (k, n, s);
            Ok(())
        }
        "kzg.generate" => {
            let s = le_bytes::<32>(&op.a[0][0]);
            if let Some((g1, g2)) = outcome(op, plain(|| generate_trusted_setup(op.u(0), s)))? {
                points_of_setup(&g1, &g2, &op.r[0])?;
            }
            Ok(())
        }
        "kzg.use" => {
            ctx.setup = (op.u(0), op.u(1), op.a[0][0].clone());
            ctx.current()?;
            Ok(())
        }
        "kzg.start" => {
            ctx.setup = (op.u(0), op.u(1), op.a[0][0].clone());
            ctx.current()?;
            ctx.g1 = vec![<ZkG1Projective as G1>::identity(); op.u(2)];
            ctx.polys = op.a[1..].iter().map(|c| poly(c)).collect();
            Ok(())
        }
        "kzg.monomial" => {
            let ks = ctx.current()?;
            let j = op.u(0);
            let mut c = vec![BigUint::from(0u8); if op.flag(1) { ctx.setup.1 } else { j + 1 }];
            c[j] = BigUint::from(1u8);
            let p = poly(&c);
            if let Some(v) = outcome(op, call(|| ks.commit_to_poly(&p)))? {
                same_g1("commitment to a power", &v, &op.r[0][0])?;
            }
            Ok(())
        }
        "kzg.domain" => {
            let ks = ctx.current()?;
            let n = op.a[0].len();
            if let Some(v) = outcome(op, plain(|| (0..n).map(|i| ks.get_expanded_roots_of_unity_at(i)).collect::<Vec<S>>()))? {
                same("domain of the settings", &frvs(&v), &op.r[0])?;
            }
            Ok(())
        }
        "kzg.commit" => {
            let ks = ctx.current()?;
            let p = poly(&op.a[0]);
            let out = call(|| ks.commit_to_poly(&p));
            unchanged(&p, &op.a[0])?;
            if let Some(v) = outcome(op, out)? {
                ctx.g1[op.u(0)] = v;
            }
            Ok(())
        }
        "kzg.linear" => {
            let ks = ctx.current()?;
            let (a, b, k) = (poly(&op.a[0]), poly(&op.a[1]), fr(&op.a[2][0]));
            if let Some((x, y)) = outcome(op, call(|| Ok((ks.commit_to_poly(&a)?, ks.commit_to_poly(&b)?))))? {
                ctx.g1[op.u(0)] = G1Mul::mul(&x, &k).add_or_dbl(&y);
            }
            Ok(())
        }
        "kzg.points" => {
            let fs = ctx.settings(1)?;
            let mut made = std::collections::HashMap::new();
            let g1: Vec<_> = op.a[0].iter().map(|v| *made.entry(v).or_insert_with(|| g1_make(v, op.n[1]))).collect();
            let g2 = vec![<ZkG2Projective as G2>::generator(); g1.len()];
            let p = poly(&op.a[1]);
            if let Some(v) = outcome(op, call(|| Ks::new(&g1, &g2, g1.len(), &fs)?.commit_to_poly(&p)))? {
                ctx.g1[op.u(0)] = v;
            }
            Ok(())
        }
        "kzg.poly" => {
            ctx.polys = vec![poly(&op.a[0])];
            Ok(())
        }
        "kzg.open" | "kzg.whole" => {
            let ks = ctx.current()?;
            let (n, single, x) = (op.u(0), op.flag(1), fr(&op.a[0][0]));
            let values = op.frs(op.a.len() - 1);
            if op.name == "kzg.whole" {
                ctx.polys = vec![poly(&op.a[1])];
            }
            let p = &ctx.polys[0];
            let before = frvs(p.get_coeffs());
            let out = call(|| {
                let c = ks.commit_to_poly(p)?;
                let q = if single { ks.compute_proof_single(p, &x)? } else { ks.compute_proof_multi(p, &x, n)? };
                Ok((c, q))
            });
            unchanged(p, &before)?;
            if let Some((c, q)) = outcome(op, out)? {
                same_g1("commitment", &c, &op.r[0][0])?;
                same_g1("proof", &q, &op.r[0][1])?;
                let ok = call(|| {
                    if single {
                        ks.check_proof_single(&c, &q, &x, &values[0])
                    } else {
                        ks.check_proof_multi(&c, &q, &x, &values, n)
                    }
                });
                if let Some(b) = outcome(op, ok)? {
                    if !b {
                        return mismatch("an honest opening was rejected");
                    }
                }
                if op.name == "kzg.open" {
                    ctx.g1[0] = c;
                    ctx.g1[1] = q;
                }
            }
            Ok(())
        }
        "kzg.prove" | "kzg.provem" => {
            let ks = ctx.current()?;
            let x = fr(&op.a[0][0]);
            let p = &ctx.polys[0];
            let before = frvs(p.get_coeffs());
            let out = call(|| if op.name == "kzg.prove" { ks.compute_proof_single(p, &x) } else { ks.compute_proof_multi(p, &x, op.u(0)) });
            unchanged(p, &before)?;
            if let Some(v) = outcome(op, out)? {
                ctx.g1[2] = v;
            }
            Ok(())
        }
        "kzg.provenew" => {
            let ks = ctx.current()?;
            let (x, p) = (fr(&op.a[0][0]), poly(&op.a[1]));
            let out = call(|| ks.compute_proof_multi(&p, &x, op.u(0)));
            unchanged(&p, &op.a[1])?;
            if let Some(v) = outcome(op, out)? {
                same_g1("proof", &v, &op.r[0][0])?;
            }
            Ok(())
        }
        "kzg.mix" => {
            let (d, i, j, k) = (op.u(0), op.u(1), op.u(2), fr(&op.a[0][0]));
            ctx.g1[d] = G1Mul::mul(&ctx.g1[i], &k).add_or_dbl(&ctx.g1[j]);
            Ok(())
        }
        "kzg.check" => {
            let ks = ctx.current()?;
            let (c, q) = (ctx.g1[op.u(0)], ctx.g1[op.u(1)]);
            let (x, y) = (fr(&op.a[0][0]), fr(&op.a[0][1]));
            verdict(op, call(|| ks.check_proof_single(&c, &q, &x, &y)))
        }
        "kzg.checkx" => {
            let ks = ctx.current()?;
            let (c, q) = (g1_make(&op.a[0][0], op.n[0]), g1_make(&op.a[0][1], op.n[1]));
            let (x, y) = (fr(&op.a[0][2]), fr(&op.a[0][3]));
            verdict(op, call(|| ks.check_proof_single(&c, &q, &x, &y)))
        }
        "kzg.checkm" => {
            let ks = ctx.current()?;
            let (c, q) = (ctx.g1[op.u(0)], ctx.g1[op.u(1)]);
            let (x, v) = (fr(&op.a[0][0]), op.frs(1));
            verdict(op, call(|| ks.check_proof_multi(&c, &q, &x, &v, op.u(2))))
        }
        "kzg.checkmx" => {
            let ks = ctx.current()?;
            let (c, q) = (g1_make(&op.a[0][0], op.n[0]), g1_make(&op.a[0][1], op.n[1]));
            let (x, v) = (fr(&op.a[0][2]), op.frs(1));
            verdict(op, call(|| ks.check_proof_multi(&c, &q, &x, &v, op.u(2))))
        }
        _ => driver(format!("unknown call {}", op.name)),
    }
}
