//! Transform settings, transforms, extension (C10 - C12, C21).
use crate::base::*;
use zkcrypto::consts::{expand_root_of_unity, SCALE2_ROOT_OF_UNITY};
use zkcrypto::fft_fr::fft_fr_slow;
use zkcrypto::fft_g1::fft_g1_slow;

/// a settings object describes itself consistently
pub fn settings_intact(fs: &Fs, scale: usize) -> Res {
    let n = 1usize << scale;
    let (e, r) = (fs.get_expanded_roots_of_unity(), fs.get_reversed_roots_of_unity());
    if fs.get_max_width() != n || e.len() != n + 1 || r.len() != n + 1 {
        return mismatch(format!("width {} and lists of {} and {} roots for scale {scale}", fs.get_max_width(), e.len(), r.len()));
    }
    if (0..=n).any(|i| !Fr::equals(&e[i], &r[n - i])) {
        return mismatch("the reversed roots are not the roots backwards");
    }
    Ok(())
}

fn transform(ctx: &mut Ctx, op: &Op, inverse: bool) -> Res {
    let fs = ctx.settings(op.u(0))?;
    let before = ctx.fr.clone();
    let data = ctx.fr.clone();
    let out = call(|| fs.fft_fr(&data, inverse));
    same("input after the call", &frvs(&data), &frvs(&before))?;
    if let Some(v) = outcome(op, out)? {
        ctx.fr = v;
    }
    Ok(())
}

pub fn exec(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.as_str() {
        "fs.new" => {
            let k = op.u(0);
            if let Some(fs) = outcome(op, call(|| Fs::new(k)))? {
                settings_intact(&fs, k)?;
                same("width", &[BigUint::from(fs.get_max_width())], &op.r[0])?;
                if k > 0 {
                    same("root", &[frv(&fs.get_expanded_roots_of_unity_at(1))], &op.r[1])?;
                }
                let n = fs.get_max_width();
                let ix: Vec<usize> = op.a[0].iter().map(|x| words::<1>(x)[0] as usize).collect();
                let e: Vec<S> = ix.iter().map(|i| fs.get_expanded_roots_of_unity_at(*i)).collect();
                same("powers of the root", &frvs(&e), &op.r[2])?;
                let r: Vec<S> = ix.iter().map(|i| fs.get_reverse_roots_of_unity_at(n - *i)).collect();
                same("reversed powers", &frvs(&r), &op.r[2])?;
                if k <= 12 {
                    ctx.fs.insert(k, fs);
                }
            }
            Ok(())
        }
        "fs.table" => {
            let k = op.u(0);
            if SCALE2_ROOT_OF_UNITY.len() <= k {
                return mismatch("scale not in the table of roots");
            }
            same("root of the table", &[frv(&S::from_u64_arr(&SCALE2_ROOT_OF_UNITY[k]))], &op.r[0])
        }
        "fs.expand" => {
            let w = fr(&op.a[0][0]);
            if let Some(v) = outcome(op, call(|| expand_root_of_unity(&w, op.u(0))))? {
                same("powers", &frvs(&v), &op.r[0])?;
            }
            Ok(())
        }
        "fft.fwd" => transform(ctx, op, false),
        "fft.inv" => transform(ctx, op, true),
        "fft.roundtrip" => {
            let (a, b, first) = (ctx.settings(op.u(0))?, ctx.settings(op.u(1))?, op.n[2] != 0);
            let data = ctx.fr.clone();
            if let Some(v) = outcome(op, call(|| b.fft_fr(&a.fft_fr(&data, first)?, !first)))? {
                ctx.fr = v;
            }
            Ok(())
        }
        "fft.slow" => {
            let fs = ctx.settings(op.u(0))?;
            let n = ctx.fr.len();
            let stride = fs.get_max_width() / n;
            let data = ctx.fr.clone();
            if let Some(v) = outcome(op, plain(|| {
                let mut v = vec![<S as Fr>::zero(); n];
                fft_fr_slow(&mut v, &data, 1, fs.get_expanded_roots_of_unity(), stride);
                v
            }))? {
                ctx.fr = v;
            }
            Ok(())
        }
        "fft.bad" => {
            let fs = ctx.settings(op.u(0))?;
            let data = op.frs(0);
            outcome(op, call(|| fs.fft_fr(&data, op.flag(1))))?;
            Ok(())
        }
        "fft.sparse" | "fft.geo" => {
            let fs = ctx.settings(op.u(0))?;
            let n = op.u(2);
            let mut data = vec![<S as Fr>::zero(); n];
            if op.name == "fft.sparse" {
                for (v, e) in op.a[0].iter().zip(&op.a[1]) {
                    let e = words::<1>(e)[0] as usize;
                    data[e] = Fr::add(&data[e], &fr(v));
                }
            } else {
                let (mut x, g) = (fr(&op.a[0][0]), fr(&op.a[0][1]));
                for d in data.iter_mut().take(op.u(3)) {
                    *d = x;
                    x = Fr::mul(&x, &g);
                }
            }
            if let Some(v) = outcome(op, call(|| fs.fft_fr(&data, op.flag(1))))? {
                same("transform", &frvs(&v), &op.r[0])?;
                if let Some(back) = outcome(op, call(|| fs.fft_fr(&v, !op.flag(1))))? {
                    same("transform and back", &frvs(&back), &frvs(&data))?;
                }
            }
            Ok(())
        }
        "fft.each" => {
            let fs = ctx.settings(op.u(0))?;
            let data = op.frs(0);
            for inverse in [false, true] {
                if let Some(v) = outcome(op, call(|| fs.fft_fr(&data, inverse)))? {
                    same(if inverse { "inverse transform" } else { "transform" }, &frvs(&v), &op.r[inverse as usize])?;
                }
            }
            let stride = fs.get_max_width() / data.len();
            if let Some(v) = outcome(op, plain(|| {
                let mut v = vec![<S as Fr>::zero(); data.len()];
                fft_fr_slow(&mut v, &data, 1, fs.get_expanded_roots_of_unity(), stride);
                v
            }))? {
                same("slow transform", &frvs(&v), &op.r[0])?;
            }
            Ok(())
        }
        "fft.g1each" => {
            let fs = ctx.settings(op.u(0))?;
            let data: Vec<_> = op.a[0].iter().map(|x| g1_make(x, 0)).collect();
            for inverse in [false, true] {
                if let Some(v) = outcome(op, call(|| fs.fft_g1(&data, inverse)))? {
                    same_g1s(if inverse { "inverse transform" } else { "transform" }, &v, &op.r[inverse as usize])?;
                }
            }
            let stride = fs.get_max_width() / data.len();
            if let Some(v) = outcome(op, plain(|| {
                let mut v = vec![<ZkG1Projective as G1>::identity(); data.len()];
                fft_g1_slow(&mut v, &data, 1, fs.get_expanded_roots_of_unity(), stride);
                v
            }))? {
                same_g1s("slow transform", &v, &op.r[0])?;
            }
            Ok(())
        }
        "fft.g1fwd" | "fft.g1inv" => {
            let fs = ctx.settings(op.u(0))?;
            let data = ctx.g1.clone();
            if let Some(v) = outcome(op, call(|| fs.fft_g1(&data, op.name == "fft.g1inv")))? {
                for (x, y) in data.iter().zip(&ctx.g1) {
                    if g1_bytes(x) != g1_bytes(y) {
                        return mismatch("the input was changed");
                    }
                }
                ctx.g1 = v;
            }
            Ok(())
        }
        "fft.g1slow" => {
            let fs = ctx.settings(op.u(0))?;
            let n = ctx.g1.len();
            let stride = fs.get_max_width() / n;
            let data = ctx.g1.clone();
            if let Some(v) = outcome(op, plain(|| {
                let mut v = vec![<ZkG1Projective as G1>::identity(); n];
                fft_g1_slow(&mut v, &data, 1, fs.get_expanded_roots_of_unity(), stride);
                v
            }))? {
                ctx.g1 = v;
            }
            Ok(())
        }
        "fft.g1new" => {
            let fs = ctx.settings(op.u(0))?;
            let data: Vec<_> = op.a[0].iter().map(|x| g1_make(x, 0)).collect();
            if let Some(v) = outcome(op, call(|| fs.fft_g1(&data, op.flag(1))))? {
                same_g1s("transform", &v, &op.r[0])?;
            }
            Ok(())
        }
        "fft.g1bad" => {
            let fs = ctx.settings(op.u(0))?;
            let data: Vec<_> = op.a[0].iter().map(|x| g1_make(x, 0)).collect();
            outcome(op, call(|| fs.fft_g1(&data, op.flag(1))))?;
            Ok(())
        }
        "das.ext" => {
            let fs = ctx.settings(op.u(0))?;
            let data = ctx.fr.clone();
            let out = call(|| fs.das_fft_extension(&data));
            same("input after the call", &frvs(&data), &frvs(&ctx.fr))?;
            if let Some(v) = outcome(op, out)? {
                ctx.fr = v;
            }
            Ok(())
        }
        "das.new" => {
            let fs = ctx.settings(op.u(0))?;
            let data = op.frs(0);
            if let Some(v) = outcome(op, call(|| fs.das_fft_extension(&data)))? {
                same("odd values", &frvs(&v), &op.r[0])?;
            }
            Ok(())
        }
        "das.halves" => {
            let fs = ctx.settings(op.u(0))?;
            let data = ctx.fr.clone();
            if let Some(odds) = outcome(op, call(|| fs.das_fft_extension(&data)))? {
                let all: Vec<S> = data.iter().zip(&odds).flat_map(|(a, b)| [*a, *b]).collect();
                if let Some(c) = outcome(op, call(|| fs.fft_fr(&all, true)))? {
                    let mut want = op.r[0].clone();
                    want.resize(2 * data.len(), BigUint::from(0u8));
                    same("coefficients of the interleaved values", &frvs(&c), &want)?;
                }
            }
            Ok(())
        }
        "das.bad" => {
            let fs = ctx.settings(op.u(0))?;
            let data = op.frs(0);
            outcome(op, call(|| fs.das_fft_extension(&data)))?;
            Ok(())
        }
        _ => driver(format!("unknown call {}", op.name)),
    }
}
