//! Large sizes, compared at chosen places (C08, C09, C11 - C25).
use crate::base::*;
use crate::formula::*;
use bls12_381::{G1Affine, G1Projective};

fn points(v: &[G1Projective]) -> Result<Vec<ZkG1Projective>, Fail> {
    let mut affine = vec![G1Affine::identity(); v.len()];
    G1Projective::batch_normalize(v, &mut affine);
    affine
        .iter()
        .map(|p| Option::<ZkG1Affine>::from(ZkG1Affine::from_uncompressed_unchecked(&p.to_uncompressed())).map(ZkG1Projective::from))
        .collect::<Option<_>>()
        .ok_or(Fail::Driver("a reference point cannot be decoded".into()))
}

pub fn exec(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.as_str() {
        "large.fft" => {
            let fs = ctx.settings(op.u(0))?;
            let data = libs(&Formula::parse(&op.a).coefficients(1 << op.u(2)));
            let inverse = op.flag(1);
            if let Some(v) = outcome(op, call(|| fs.fft_fr(&data, inverse)))? {
                same("values of the transform", &frvs(&pick(&v, &op.a[3])?), &op.r[0])?;
                if v.len() != data.len() {
                    return mismatch("the transform has another length");
                }
                if let Some(back) = outcome(op, call(|| fs.fft_fr(&v, !inverse)))? {
                    same("transform and back", &frvs(&back), &frvs(&data))?;
                }
            }
        }
        "large.g1fft" => {
            let fs = ctx.settings(op.u(0))?;
            let logs = Formula::parse(&op.a).coefficients(1 << op.u(2));
            let data = points(&logs.iter().map(|x| G1Projective::generator() * x).collect::<Vec<_>>())?;
            if let Some(v) = outcome(op, call(|| fs.fft_g1(&data, op.flag(1))))? {
                if v.len() != data.len() {
                    return mismatch("the transform has another length");
                }
                same_g1s("element of the transform", &pick(&v, &op.a[3])?, &op.r[0])?;
            }
        }
        "large.das" => {
            let fs = ctx.settings(op.u(0))?;
            let k = op.u(1);
            let w = root(k + 1);
            let even = Formula::parse(&op.a).values(&w.square(), 1 << k);
            if pick(&even, &op.a[3])?.iter().map(val).collect::<Vec<_>>() != op.r[0] {
                return driver("the data are not those specified");
            }
            let data = libs(&even);
            if let Some(v) = outcome(op, call(|| fs.das_fft_extension(&data)))? {
                if v.len() != data.len() {
                    return mismatch("the extension has another length");
                }
                same("values of the extension", &frvs(&pick(&v, &op.a[3])?), &op.r[1])?;
            }
        }
        "large.mul" => {
            let (la, lb) = (op.u(1), op.u(2));
            let (mut a, b) = (as_poly(&Formula::parse(&op.a).coefficients(la)), as_poly(&Formula::parse(&op.a[3..]).coefficients(lb)));
            let n = la + lb - 1;
            let fs = if lb % 2 == 0 { None } else { Some(ctx.settings(n.next_power_of_two().trailing_zeros() as usize + lb % 3)?) };
            let out = call(|| if op.flag(0) { a.mul_direct(&b, n) } else { Fs::poly_mul_fft(&a, &b, n, fs.as_ref()) });
            if let Some(v) = outcome(op, out)? {
                if v.len() != n {
                    return mismatch(format!("a product of length {} instead of {n}", v.len()));
                }
                let got: Vec<BigUint> = op.a[6].iter().map(|x| horner(&v, &re(x))).collect();
                same("values of the product", &got, &op.r[0])?;
            }
        }
        "large.div" => {
            let (lq, lb) = (op.u(0), op.u(1));
            let (q, b) = (Formula::parse(&op.a).coefficients(lq), Formula::parse(&op.a[3..]).coefficients(lb));
            let mut a = Formula::parse(&op.a[6..]).coefficients(lq + lb - 1);
            for (i, x) in q.iter().enumerate() {
                b.iter().enumerate().for_each(|(j, y)| a[i + j] += x * y);
            }
            let (mut a, b) = (as_poly(&a), as_poly(&b));
            if op.a[9].iter().map(|x| horner(&a, &re(x))).collect::<Vec<_>>() != op.r[0] {
                return driver("the dividend is not the one specified");
            }
            let want: Vec<BigUint> = q.iter().map(val).collect();
            for how in ["long division", "fast division", "division"] {
                let out = call(|| match how {
                    "long division" => a.long_div(&b),
                    "fast division" => a.fast_div(&b),
                    _ => a.div(&b),
                });
                if let Some(v) = outcome(op, out)? {
                    same(how, &frvs(&pick(v.get_coeffs(), &op.a[10])?), &op.r[1])?;
                    same(how, &frvs(v.get_coeffs()), &want)?;
                }
            }
        }
        "large.inv" => {
            let (n, d) = (op.u(1), op.u(2));
            let mut a = as_poly(&Formula::parse(&op.a).coefficients(op.u(0)));
            let terms = Formula::parse(&op.a[3..]).coefficients(1 + (n - 1) / d);
            if let Some(v) = outcome(op, call(|| a.inverse(n)))? {
                same("inverse", &frvs(&pick(v.get_coeffs(), &op.a[6])?), &op.r[0])?;
                let want: Vec<BigUint> = (0..n).map(|i| if i % d == 0 { val(&terms[i / d]) } else { 0u8.into() }).collect();
                same("inverse", &frvs(v.get_coeffs()), &want)?;
            }
        }
        "large.eval" => {
            let p = as_poly(&Formula::parse(&op.a).coefficients(op.u(0)));
            if let Some(v) = outcome(op, plain(|| op.frs(3).iter().map(|x| p.eval(x)).collect::<Vec<_>>()))? {
                same("values of the polynomial", &frvs(&v), &op.r[0])?;
            }
        }
        "large.zero" => {
            let fs = ctx.settings(op.u(0))?;
            let n = 1usize << op.u(1);
            let gone = |i: usize| sizes(&op.a[0]).chunks(2).any(|c| i % c[1] == c[0]);
            let mut idx: Vec<usize> = (0..n).filter(|i| gone(*i)).collect();
            match op.n[2] {
                1 => idx.reverse(),
                2 => idx = (0..idx.len()).map(|i| idx[(i * 7919) % idx.len()]).collect(),
                _ => (),
            }
            if let Some((ev, p)) = outcome(op, call(|| fs.zero_poly_via_multiplication(n, &idx)))? {
                same("values of the vanishing polynomial", &frvs(&pick(&ev, &op.a[1])?), &op.r[0])?;
                if ev.len() != n || (0..n).any(|i| Fr::is_zero(&ev[i]) != gone(i)) {
                    return mismatch("the values vanish at other positions");
                }
                let got: Vec<BigUint> = op.a[2].iter().map(|x| horner(&p, &re(x))).collect();
                same("the vanishing polynomial elsewhere", &got, &op.r[1])?;
            }
        }
        "large.recover" => {
            let fs = ctx.settings(op.u(0))?;
            let n = 1usize << op.u(1);
            let data = libs(&Formula::parse(&op.a).values(&root(op.u(1)), n));
            same("data", &frvs(&pick(&data, &op.a[4])?), &op.r[0]).or(driver("the data are not those specified"))?;
            let samples: Vec<Option<S>> = (0..n).map(|i| if sizes(&op.a[3]).chunks(2).any(|c| i % c[1] == c[0]) { None } else { Some(data[i]) }).collect();
            if let Some(p) = outcome(op, call(|| ZPoly::recover_poly_from_samples(&samples, &fs)))? {
                same("recovered values", &frvs(&pick(p.get_coeffs(), &op.a[4])?), &op.r[0])?;
                same("recovered values", &frvs(p.get_coeffs()), &frvs(&data))?;
            }
        }
        "large.setup" => {
            let s = le_bytes::<32>(&op.a[0][0]);
            if let Some((g1, g2)) = outcome(op, plain(|| generate_trusted_setup(op.u(0), s)))? {
                if g1.len() != op.u(0) || g2.len() != op.u(0) {
                    return mismatch("a setup of another size");
                }
                same_g1s("first-group point", &pick(&g1, &op.a[1])?, &op.r[0])?;
                for (p, v) in pick(&g2, &op.a[1])?.iter().zip(&op.r[0]) {
                    same_g2("second-group point", p, v)?;
                }
            }
        }
        "large.commit" => {
            let n = op.u(0);
            let fs = ctx.settings(1)?;
            let g = G1Projective::generator();
            let (mut p, step) = (g * re(&op.a[3][0]), g * re(&op.a[3][1]));
            let logs: Vec<G1Projective> = (0..n)
                .map(|_| {
                    let q = p;
                    p += step;
                    q
                })
                .collect();
            let g1 = points(&logs)?;
            let g2 = vec![<ZkG2Projective as G2>::generator(); n];
            let p = as_poly(&Formula::parse(&op.a).coefficients(n));
            if let Some(v) = outcome(op, call(|| Ks::new(&g1, &g2, n, &fs)?.commit_to_poly(&p)))? {
                same_g1("combination", &v, &op.r[0][0])?;
            }
        }
        "large.open" => {
            let (k, npts, m, len, single, j) = (op.u(0), op.u(1), op.u(2), op.u(3), op.flag(4), op.u(5));
            let n = 1usize << m;
            let (s, x, x2) = (&op.a[3][0], re(&op.a[3][1]), re(&op.a[3][2]));
            let ks = ctx.kzg(k, npts, s)?;
            let f = Formula::parse(&op.a);
            let p = as_poly(&f.coefficients(len));
            let out = call(|| {
                let q = if single { ks.compute_proof_single(&p, &lib(&x))? } else { ks.compute_proof_multi(&p, &lib(&x), n)? };
                Ok((ks.commit_to_poly(&p)?, q))
            });
            let Some((c, q)) = outcome(op, out)? else { return Ok(()) };
            same_g1("commitment", &c, &op.r[0][0])?;
            same_g1("proof", &q, &op.r[0][1])?;
            let mut values = if n == 1 { vec![re(&op.r[1][0])] } else { f.stretched(&x).values(&root(m), n) };
            if pick(&values, &op.a[4])?.iter().map(val).collect::<Vec<_>>() != op.r[1] {
                return driver("the values are not those specified");
            }
            values[j] += re(&op.a[3][3]);
            let moved = |p: &ZkG1Projective, d: &BigUint| if *d == BigUint::from(0u8) { *p } else { p.clone().add_or_dbl(&g1_make(d, 1)) };
            let (c, q) = (moved(&c, &op.a[3][5]), moved(&q, &op.a[3][4]));
            let values = libs(&values);
            let out = call(|| if single { ks.check_proof_single(&c, &q, &lib(&x2), &values[0]) } else { ks.check_proof_multi(&c, &q, &lib(&x2), &values, n) });
            if let Some(b) = outcome(op, out)? {
                same_bool("verdict", b, &op.r[0][2])?;
            }
        }
        "large.fk" => {
            let (k, l) = (op.u(0), op.u(1));
            let n = 1usize << k;
            let ks = ctx.kzg(op.u(3), n / 2 + 1, &op.a[3][0])?;
            let p = as_poly(&Formula::parse(&op.a).coefficients(n / 2));
            let out = call(|| {
                let fk = if l == 0 { crate::fk::Fk::Single(ZkFK20SingleSettings::new(&ks, n)?) } else { crate::fk::Fk::Chunks(ZkFK20MultiSettings::new(&ks, n, l)?) };
                match crate::fk::all(&fk, &p, op.flag(2)) {
                    Out::Val(v) => Ok(v),
                    Out::Err(e) | Out::Panic(e) => Err(e),
                }
            });
            if let Some(v) = outcome(op, out)? {
                if v.len() != n / l.max(1) {
                    return mismatch(format!("{} proofs instead of {}", v.len(), n / l.max(1)));
                }
                same_g1s("proof", &pick(&v, &op.a[4])?, &op.r[0])?;
            }
        }
        _ => return driver(format!("unknown call {}", op.name)),
    }
    Ok(())
}
