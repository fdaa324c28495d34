//! Scalar field calls (C01, C02).
use crate::base::*;

fn canonical(x: &S) -> Res {
    if frv(x) < order() {
        Ok(())
    } else {
        mismatch("the scalar reads back as an integer that is not below the order")
    }
}

fn put(ctx: &mut Ctx, op: &Op, out: Out<S>) -> Res {
    if let Some(v) = outcome(op, out)? {
        canonical(&v)?;
        let d = op.u(0);
        let want = &op.r[0];
        same("result", &[frv(&v)], want)?;
        if !Fr::equals(&v, &fr(&want[0])) {
            return mismatch("the result has the right value but is not equal to a scalar with this value");
        }
        ctx.fr[d] = v;
    }
    Ok(())
}

pub fn exec(ctx: &mut Ctx, op: &Op) -> Res {
    let reg = |i: usize| ctx.fr[op.u(i)];
    match op.name.as_str() {
        "fr.init" => {
            ctx.fr = op.frs(0);
            Ok(())
        }
        "fr.load" => {
            let d = op.u(0);
            ctx.fr[d] = fr(&op.a[0][0]);
            Ok(())
        }
        "fr.add" => {
            let (x, y) = (reg(1), reg(2));
            put(ctx, op, plain(|| Fr::add(&x, &y)))
        }
        "fr.sub" => {
            let (x, y) = (reg(1), reg(2));
            put(ctx, op, plain(|| Fr::sub(&x, &y)))
        }
        "fr.mul" => {
            let (x, y) = (reg(1), reg(2));
            put(ctx, op, plain(|| Fr::mul(&x, &y)))
        }
        "fr.div" => {
            let (x, y) = (reg(1), reg(2));
            put(ctx, op, call(|| Fr::div(&x, &y)))
        }
        "fr.addv" | "fr.subv" | "fr.mulv" => {
            let (x, y) = (reg(1), fr(&op.a[0][0]));
            let k = op.name.clone();
            put(ctx, op, plain(|| match k.as_str() {
                "fr.addv" => x + y,
                "fr.subv" => x - y,
                _ => x * y,
            }))
        }
        "fr.neg" => {
            let x = reg(1);
            put(ctx, op, plain(|| Fr::negate(&x)))
        }
        "fr.dbl" => {
            let x = reg(1);
            put(ctx, op, plain(|| x.double()))
        }
        "fr.sqr" => {
            let x = reg(1);
            put(ctx, op, plain(|| Fr::sqr(&x)))
        }
        "fr.inverse" => {
            let x = reg(1);
            put(ctx, op, plain(|| Fr::inverse(&x)))
        }
        "fr.eucl_inverse" => {
            let x = reg(1);
            put(ctx, op, plain(|| Fr::eucl_inverse(&x)))
        }
        "fr.pow" => {
            let x = reg(1);
            let e = words::<1>(&op.a[0][0])[0] as usize;
            put(ctx, op, plain(|| Fr::pow(&x, e)))
        }
        "fr.pow4" => {
            let x = reg(1);
            let e = words::<4>(&op.a[0][0]);
            put(ctx, op, plain(|| S::pow(&x, &e)))
        }
        "fr.pow4v" => {
            let x = reg(1);
            let e = words::<4>(&op.a[0][0]);
            put(ctx, op, plain(|| S::pow_vartime(&x, &e)))
        }
        "fr.sqrt" => {
            let x = reg(0);
            let out = call(|| Option::<S>::from(x.sqrt()).ok_or_else(|| "none".to_string()));
            if let Some(v) = outcome(op, out)? {
                canonical(&v)?;
                let b = frv(&v);
                same("square of the root", &[(&b * &b) % order()], &op.r[0])?;
            }
            Ok(())
        }
        "fr.sqrtsq" => {
            let x = reg(0);
            let out = call(|| Option::<S>::from(x.square().sqrt()).ok_or_else(|| "none".to_string()));
            if let Some(v) = outcome(op, out)? {
                if !op.r[0].contains(&frv(&v)) {
                    return mismatch("the root of the square is neither the operand nor its negative");
                }
            }
            Ok(())
        }
        "fr.tests" => {
            let x = reg(0);
            if let Some((z, o, n)) = outcome(op, plain(|| (Fr::is_zero(&x), Fr::is_one(&x), Fr::is_null(&x))))? {
                same_bool("zero test", z, &op.r[0][0])?;
                same_bool("one test", o, &op.r[0][1])?;
                same_bool("null test", n, &op.r[0][2])?;
            }
            Ok(())
        }
        "fr.equals" => {
            let (x, y) = (reg(0), reg(1));
            if let Some(b) = outcome(op, plain(|| (Fr::equals(&x, &y), x == y)))? {
                same_bool("equality", b.0, &op.r[0][0])?;
                same_bool("operator equality", b.1, &op.r[0][0])?;
            }
            Ok(())
        }
        "fr.detour" => {
            let (x, y, k) = (reg(1), reg(2), op.n[3]);
            let out = plain(|| match k {
                0 => Fr::sub(&Fr::add(&x, &y), &y),
                1 => Fr::add(&Fr::negate(&y), &Fr::add(&x, &y)),
                _ => Fr::div(&Fr::mul(&x, &y), &y).unwrap(),
            });
            if let Out::Val(v) = &out {
                same_bool("equality with the operand", Fr::equals(v, &x), &op.r[1][0])?;
            }
            put(ctx, op, out)
        }
        // ---- encodings
        "fr.frombytes" => {
            let b = le_bytes::<32>(&op.a[0][0]);
            let out = call(|| Option::<S>::from(S::from_bytes(&b)).ok_or_else(|| "none".to_string()));
            if let Some(v) = outcome(op, out)? {
                same("read scalar", &[frv(&v)], &op.r[0])?;
                if v.to_bytes() != b {
                    return mismatch("writing the scalar does not give the bytes it was read from");
                }
                ctx.fr = vec![v];
            }
            Ok(())
        }
        "fr.fromwords" => {
            let w = words::<4>(&op.a[0][0]);
            if let Some((v, u)) = outcome(op, plain(|| (S::from_u64_arr(&w), S::from_raw(w))))? {
                same("read scalar", &[frv(&v)], &op.r[0])?;
                same("read scalar (raw)", &[frv(&u)], &op.r[0])?;
                if !Fr::equals(&v, &u) {
                    return mismatch("two readings of the same words are not equal");
                }
                let w2 = words::<4>(&op.r[0][0]);
                if !Fr::equals(&v, &S::from_u64_arr(&w2)) {
                    return mismatch("not equal to the scalar read from the reduced words");
                }
                ctx.fr = vec![v];
            }
            Ok(())
        }
        "fr.fromword" => {
            let w = words::<1>(&op.a[0][0])[0];
            if let Some((v, u)) = outcome(op, plain(|| (<S as Fr>::from_u64(w), S::from(w))))? {
                same("read scalar", &[frv(&v), frv(&u)], &[op.r[0][0].clone(), op.r[0][0].clone()])?;
                ctx.fr = vec![v];
            }
            Ok(())
        }
        "fr.fromwide" => {
            let b = le_bytes::<64>(&op.a[0][0]);
            if let Some(v) = outcome(op, plain(|| S::from_bytes_wide(&b)))? {
                canonical(&v)?;
                same("read scalar", &[frv(&v)], &op.r[0])?;
                if !Fr::equals(&v, &fr(&op.r[0][0])) {
                    return mismatch("not equal to the scalar read from the reduced integer");
                }
                ctx.fr = vec![v];
            }
            Ok(())
        }
        "fr.roundtrip" => {
            let x = reg(0);
            let want = &op.r[0][0];
            if let Some((b, w)) = outcome(op, plain(|| (x.to_bytes(), x.to_u64_arr())))? {
                if b != le_bytes::<32>(want) {
                    return mismatch("written bytes are not those of the integer");
                }
                if w != words::<4>(want) {
                    return mismatch("written words are not those of the integer");
                }
                let back = Option::<S>::from(S::from_bytes(&b));
                match back {
                    Some(y) if Fr::equals(&y, &x) => {}
                    _ => return mismatch("reading the written bytes does not give the scalar"),
                }
                if !Fr::equals(&S::from_u64_arr(&w), &x) {
                    return mismatch("reading the written words does not give the scalar");
                }
            }
            Ok(())
        }
        "fr.null" => {
            if let Some((n, z, o, d)) = outcome(op, plain(|| {
                let n = <S as Fr>::null();
                (n.is_null(), <S as Fr>::zero(), <S as Fr>::one(), <S as Fr>::default())
            }))? {
                if !n || z.is_null() || o.is_null() || d.is_null() {
                    return mismatch("null test wrong on null, zero, one or default");
                }
                if frv(&z) != BigUint::from(0u8) || frv(&o) != BigUint::from(1u8) || frv(&d) != BigUint::from(0u8) {
                    return mismatch("the constants zero, one or default have wrong values");
                }
            }
            Ok(())
        }
        "fr.rand" => {
            if let Some((x, y)) = outcome(op, plain(|| (<S as Fr>::rand(), <S as Fr>::rand())))? {
                canonical(&x)?;
                canonical(&y)?;
                if Fr::equals(&x, &y) || x.is_null() || !Fr::equals(&x, &fr(&frv(&x))) {
                    return mismatch("random scalars are equal, null or not canonical");
                }
            }
            Ok(())
        }
        _ => driver(format!("unknown call {}", op.name)),
    }
}
