//! Vanishing polynomials and recovery (C22, C23).
use crate::base::*;

fn sizes(v: &[BigUint]) -> Vec<usize> {
    v.iter().map(|x| words::<1>(x)[0] as usize).collect()
}

pub fn exec(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.as_str() {
        "zero.poly" => {
            let fs = ctx.settings(op.u(0))?;
            let idx = sizes(&op.a[0]);
            if let Some((ev, p)) = outcome(op, call(|| fs.zero_poly_via_multiplication(op.u(1), &idx)))? {
                same("coefficients of the vanishing polynomial", &frvs(p.get_coeffs()), &op.r[1])?;
                same("values of the vanishing polynomial", &frvs(&ev), &op.r[0])?;
            }
            Ok(())
        }
        "zero.partial" => {
            let fs = ctx.settings(op.u(0))?;
            let idx = sizes(&op.a[0]);
            if let Some(p) = outcome(op, call(|| fs.do_zero_poly_mul_partial(&idx, op.u(1))))? {
                same("product of linear factors", &frvs(p.get_coeffs()), &op.r[0])?;
            }
            Ok(())
        }
        "zero.reduce" => {
            let fs = ctx.settings(op.u(0))?;
            let ps: Vec<ZPoly> = op.a.iter().map(|x| poly(x)).collect();
            if let Some(p) = outcome(op, call(|| fs.reduce_partials(op.u(1), &ps)))? {
                // the length of the result may leave room for leading zeros
                let (mut got, mut want) = (frvs(p.get_coeffs()), op.r[0].clone());
                let n = got.len().max(want.len());
                got.resize(n, BigUint::from(0u8));
                want.resize(n, BigUint::from(0u8));
                same("product", &got, &want)?;
            }
            Ok(())
        }
        "rec.encode" => {
            let fs = ctx.settings(op.u(0))?;
            let data = op.frs(0);
            if let Some(v) = outcome(op, call(|| fs.fft_fr(&data, false)))? {
                ctx.fr = v;
            }
            ctx.missing = Vec::new();
            Ok(())
        }
        "rec.lose" => {
            ctx.missing = sizes(&op.a[0]);
            Ok(())
        }
        "rec.recover" | "rec.given" => {
            let fs = ctx.settings(op.u(0))?;
            if op.name == "rec.given" {
                ctx.fr = op.frs(0);
                ctx.missing = sizes(&op.a[1]);
            }
            let mut samples: Vec<Option<S>> = ctx.fr.iter().map(|x| Some(*x)).collect();
            for i in &ctx.missing {
                samples[*i] = None;
            }
            let before = samples.clone();
            let out = call(|| ZPoly::recover_poly_from_samples(&samples, &fs));
            let unchanged = samples.iter().zip(&before).all(|(a, b)| match (a, b) {
                (Some(a), Some(b)) => frv(a) == frv(b),
                (None, None) => true,
                _ => false,
            });
            if !unchanged {
                return mismatch("the samples were changed");
            }
            if let Some(p) = outcome(op, out)? {
                ctx.fr = p.get_coeffs().to_vec();
            }
            Ok(())
        }
        "rec.new" => {
            let fs = ctx.settings(op.u(0))?;
            let mut samples: Vec<Option<S>> = op.frs(0).into_iter().map(Some).collect();
            for i in sizes(&op.a[1]) {
                samples[i] = None;
            }
            if let Some(p) = outcome(op, call(|| ZPoly::recover_poly_from_samples(&samples, &fs)))? {
                same("recovered values", &frvs(p.get_coeffs()), &op.r[0])?;
            }
            Ok(())
        }
        "rec.bad" => {
            let fs = ctx.settings(op.u(0))?;
            let mut samples = vec![Some(<S as Fr>::one()); op.u(1)];
            for i in sizes(&op.a[0]) {
                samples[i] = None;
            }
            outcome(op, call(|| ZPoly::recover_poly_from_samples(&samples, &fs)))?;
            Ok(())
        }
        _ => driver(format!("unknown call {}", op.name)),
    }
}
