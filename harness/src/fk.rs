//! Amortised proofs (C24, C25).
use crate::base::*;

#[derive(Clone)]
pub enum Fk {
    Single(ZkFK20SingleSettings),
    Chunks(ZkFK20MultiSettings),
}

fn build(ctx: &mut Ctx, n: usize, chunk: usize, single: bool) -> Result<Out<Fk>, Fail> {
    let ks = ctx.current()?;
    Ok(if single {
        call(|| Ok(Fk::Single(ZkFK20SingleSettings::new(&ks, n)?)))
    } else {
        call(|| Ok(Fk::Chunks(ZkFK20MultiSettings::new(&ks, n, chunk)?)))
    })
}
pub fn all(fk: &Fk, p: &ZPoly, natural: bool) -> Out<Vec<ZkG1Projective>> {
    call(|| match (fk, natural) {
        (Fk::Single(f), false) => f.data_availability(p),
        (Fk::Single(f), true) => f.data_availability_optimized(p),
        (Fk::Chunks(f), false) => f.data_availability(p),
        (Fk::Chunks(f), true) => f.data_availability_optimized(p),
    })
}

pub fn exec(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.as_str() {
        "fk.start" | "fk.setup" => {
            ctx.setup = (op.u(0), op.u(1), op.a[0][0].clone());
            let chunk = op.n.get(3).copied().unwrap_or(0) as usize;
            let out = build(ctx, op.u(2), chunk, chunk == 0)?;
            ctx.fk = outcome(op, out)?;
            ctx.fk_len = op.u(2) / 2;
            Ok(())
        }
        "fk.new" => {
            let out = build(ctx, op.u(0), op.u(1), op.u(1) == 0)?;
            if let Some(f) = outcome(op, out)? {
                ctx.fk = Some(f);
                ctx.fk_len = op.u(0) / 2;
            }
            Ok(())
        }
        "fk.zerochunk" => {
            let out = build(ctx, op.u(0), 0, false)?;
            outcome(op, out)?;
            Ok(())
        }
        "fk.clone" => {
            ctx.fk = ctx.fk.clone();
            Ok(())
        }
        "fk.once" => {
            let settings = build(ctx, op.u(0), op.u(1), op.u(1) == 0)?;
            let fk = match settings {
                Out::Val(f) => f,
                Out::Err(e) | Out::Panic(e) => return mismatch(format!("settings of size {} with chunks of {} are refused: {e}", op.u(0), op.u(1))),
            };
            let p = poly(&op.a[0]);
            if let Some(v) = outcome(op, all(&fk, &p, op.flag(2)))? {
                same_g1s("proof", &v, &op.r[0])?;
            }
            Ok(())
        }
        "fk.all" => {
            let p = poly(&op.a[0]);
            let fk = match &ctx.fk {
                Some(f) => f,
                None => return driver("no settings"),
            };
            let out = all(fk, &p, op.flag(0));
            same("polynomial after the call", &frvs(p.get_coeffs()), &op.a[0])?;
            if let Some(v) = outcome(op, out)? {
                same_g1s("proof", &v, &op.r[0])?;
            }
            Ok(())
        }
        _ => driver(format!("unknown call {}", op.name)),
    }
}
