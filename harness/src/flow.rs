//! Sessions of many calls on shared objects and the data-availability flow (C26, C29).
use crate::base::*;
use zkcrypto::kzg_types::pairings_verify;

/// the settings a session works with
#[derive(Clone)]
struct Tools {
    fs: Fs,
    ks: Ks,
    single: ZkFK20SingleSettings,
    chunks: ZkFK20MultiSettings,
}
impl Tools {
    fn build(scale: usize, n: usize, chunk: usize, secret: &BigUint) -> Result<Tools, String> {
        let fs = Fs::new(scale)?;
        let (g1, g2) = generate_trusted_setup(n, le_bytes::<32>(secret));
        let ks = Ks::new(&g1, &g2, n, &fs)?;
        let single = ZkFK20SingleSettings::new(&ks, 1 << scale)?;
        let chunks = ZkFK20MultiSettings::new(&ks, 1 << scale, chunk)?;
        Ok(Tools { fs, ks, single, chunks })
    }
}

/// what a call returned
#[derive(Clone)]
enum Ret {
    Frs(Vec<S>),
    Poly(ZPoly),
    G1s(Vec<ZkG1Projective>),
    Flag(bool),
    Vanishing(Vec<S>, ZPoly),
    Both(ZkG1Projective, ZkG2Projective),
}
fn compare(what: &str, r: &Ret, want: &[Vec<BigUint>]) -> Res {
    match r {
        Ret::Frs(v) => same(what, &frvs(v), &want[0]),
        Ret::Poly(p) => same(what, &frvs(p.get_coeffs()), &want[0]),
        Ret::G1s(v) => same_g1s(what, v, &want[0]),
        Ret::Flag(b) => same_bool(what, *b, &want[0][0]),
        Ret::Vanishing(v, p) => {
            same(what, &frvs(v), &want[0])?;
            same(what, &frvs(p.get_coeffs()), &want[1])
        }
        Ret::Both(p, q) => {
            same_g1s(what, &[*p], &want[0])?;
            same_g2(what, q, &want[1][0])
        }
    }
}

#[derive(Default)]
pub struct Flow {
    tools: Option<Tools>,
    made: (usize, usize, usize, BigUint),
    kept: Vec<(Ret, Vec<Vec<BigUint>>)>,
    pub chunk: usize,
    pub count: usize,
    gone: Vec<usize>,
}

/// the object itself, so that a call cannot change it unnoticed
fn taken(polys: &mut [ZPoly], i: usize) -> ZPoly {
    let empty = ZPoly::new(0).unwrap();
    std::mem::replace(&mut polys[i], empty)
}
fn as_poly(c: &[S]) -> ZPoly {
    let mut p = ZPoly::new(c.len()).unwrap();
    for (i, x) in c.iter().enumerate() {
        p.set_coeff_at(i, x);
    }
    p
}
/// call number n[0] of a session
fn perform(t: &Tools, polys: &mut [ZPoly], n: &[i64], a: &[Vec<BigUint>]) -> Result<Ret, String> {
    let u = |i: usize| n[i] as usize;
    let points = |v: &Vec<BigUint>| -> Vec<ZkG1Projective> { v.iter().map(|x| g1_make(x, 0)).collect() };
    Ok(match n[0] {
        0 => Ret::Frs(vec![polys[u(1)].eval(&fr(&a[0][0]))]),
        1 => {
            let other = if u(1) == u(2) { polys[u(2)].clone() } else { taken(polys, u(2)) };
            let out = polys[u(1)].mul_direct(&other, u(3));
            polys[u(2)] = other;
            Ret::Poly(out?)
        }
        2 => Ret::Poly(Fs::poly_mul_fft(&polys[u(1)], &polys[u(2)], u(3), Some(&t.fs))?),
        3 | 4 | 5 => {
            let other = taken(polys, u(2));
            let out = match n[0] {
                3 => polys[u(1)].div(&other),
                4 => polys[u(1)].long_div(&other),
                _ => polys[u(1)].fast_div(&other),
            };
            polys[u(2)] = other;
            Ret::Poly(out?)
        }
        6 => Ret::Poly(polys[u(1)].inverse(u(2))?),
        7 => Ret::Frs(t.fs.fft_fr(polys[u(1)].get_coeffs(), false)?),
        8 => Ret::Frs(t.fs.fft_fr(polys[u(1)].get_coeffs(), true)?),
        9 => Ret::Frs(t.fs.das_fft_extension(polys[u(1)].get_coeffs())?),
        10 => {
            let v = points(&a[0]);
            let out = t.fs.fft_g1(&v, false)?;
            for (x, y) in v.iter().zip(&points(&a[0])) {
                if g1_bytes(x) != g1_bytes(y) {
                    return Err("the points were changed".into());
                }
            }
            Ret::G1s(out)
        }
        11 => Ret::G1s(vec![t.ks.commit_to_poly(&polys[u(1)])?]),
        12 => Ret::G1s(vec![t.ks.compute_proof_single(&polys[u(1)], &fr(&a[0][0]))?]),
        13 => Ret::G1s(vec![t.ks.compute_proof_multi(&polys[u(1)], &fr(&a[0][0]), u(2))?]),
        14 => {
            let v = points(&a[0][..2].to_vec());
            Ret::Flag(t.ks.check_proof_single(&v[0], &v[1], &fr(&a[0][2]), &fr(&a[0][3]))?)
        }
        15 => {
            let v = points(&a[0][..2].to_vec());
            let values: Vec<S> = a[1].iter().map(fr).collect();
            Ret::Flag(t.ks.check_proof_multi(&v[0], &v[1], &fr(&a[0][2]), &values, u(1))?)
        }
        16 if n[2] == 1 => Ret::G1s(t.single.data_availability_optimized(&polys[u(1)])?),
        16 => Ret::G1s(t.single.data_availability(&polys[u(1)])?),
        17 if n[2] == 1 => Ret::G1s(t.chunks.data_availability_optimized(&polys[u(1)])?),
        17 => Ret::G1s(t.chunks.data_availability(&polys[u(1)])?),
        18 => {
            let idx: Vec<usize> = a[0].iter().map(|x| words::<1>(x)[0] as usize).collect();
            let (v, p) = t.fs.zero_poly_via_multiplication(u(1), &idx)?;
            Ret::Vanishing(v, p)
        }
        19 => {
            let mut samples: Vec<Option<S>> = a[0].iter().map(|x| Some(fr(x))).collect();
            for i in &a[1] {
                samples[words::<1>(i)[0] as usize] = None;
            }
            Ret::Poly(ZPoly::recover_poly_from_samples(&samples, &t.fs)?)
        }
        21 => {
            let (b, x) = (g2_make(&a[0][1], 0), g2_make(&a[0][3], 0));
            Ret::Flag(pairings_verify(&g1_make(&a[0][0], 0), &b, &g1_make(&a[0][2], 0), &x))
        }
        22 => {
            let x = fr(&a[0][1]);
            Ret::Both(G1Mul::mul(&g1_make(&a[0][0], 0), &x), G2Mul::mul(&g2_make(&a[0][0], 0), &x))
        }
        _ => {
            let g1 = points(&a[0]);
            let g2 = vec![<ZkG2Projective as G2>::generator(); g1.len()];
            let ks = Ks::new(&g1, &g2, g1.len(), &t.fs)?;
            Ret::G1s(vec![ks.commit_to_poly(&poly(&a[1]))?])
        }
    })
}

/// how often every call of several at once is made, if time permits
const STORM: usize = 60;

/// calls that must not succeed
fn refuse(t: &Tools, polys: &mut [ZPoly], n: &[i64]) -> Result<(), String> {
    let w = n[1] as usize;
    let zeros = |k: usize| vec![<S as Fr>::zero(); k];
    let zero = <S as Fr>::zero();
    let long = ZPoly::new(w + 2)?;
    match n[0] {
        0 => t.fs.fft_fr(&zeros(2 * w), false).map(|_| ()),
        1 => t.fs.fft_fr(&zeros(3), true).map(|_| ()),
        2 => t.fs.das_fft_extension(&zeros(w)).map(|_| ()),
        3 => t.fs.fft_g1(&vec![<ZkG1Projective as G1>::identity(); 2 * w], false).map(|_| ()),
        4 => t.ks.commit_to_poly(&long).map(|_| ()),
        5 => t.fs.zero_poly_via_multiplication(w, &(0..w).collect::<Vec<_>>()).map(|_| ()),
        6 => ZPoly::recover_poly_from_samples(&vec![None; w], &t.fs).map(|_| ()),
        7 => polys[0].div(&ZPoly::new(0)?).map(|_| ()),
        8 => t.ks.compute_proof_multi(&polys[1], &zero, 3).map(|_| ()),
        _ => t.chunks.data_availability(&long).map(|_| ()),
    }
}

fn chunk_of(ctx: &Ctx, i: usize) -> Vec<S> {
    (0..ctx.flow.chunk).map(|j| ctx.fr[i + j * ctx.flow.count]).collect()
}
fn accepted(ctx: &mut Ctx, i: usize) -> Result<Out<bool>, Fail> {
    let t = tools(ctx)?;
    let values = chunk_of(ctx, i);
    let x = t.fs.get_expanded_roots_of_unity_at(i);
    Ok(call(|| t.ks.check_proof_multi(&ctx.g1[0], &ctx.g1[i + 1], &x, &values, values.len())))
}
fn tools(ctx: &Ctx) -> Result<Tools, Fail> {
    match &ctx.flow.tools {
        Some(t) => Ok(t.clone()),
        None => driver("no session"),
    }
}
/// the commitment to the data and the proofs of all chunks
fn sign(t: &Tools, data: &[S]) -> Result<Vec<ZkG1Projective>, String> {
    let p = as_poly(&t.fs.fft_fr(data, true)?);
    let mut g = vec![t.ks.commit_to_poly(&p)?];
    g.extend(t.chunks.data_availability_optimized(&p)?);
    Ok(g)
}

pub fn exec(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.as_str() {
        "flow.start" => {
            let made = (op.u(0), op.u(1), op.u(2), op.a[0][0].clone());
            ctx.flow = Flow::default();
            ctx.flow.tools = outcome(op, call(|| Tools::build(made.0, made.1, made.2, &made.3)))?;
            ctx.flow.made = made;
            ctx.polys = op.a[1..].iter().map(|c| poly(c)).collect();
            Ok(())
        }
        "flow.edit" => {
            let p = &mut ctx.polys[op.u(0)];
            let mut c = p.get_coeffs().to_vec();
            c[op.u(1)] = op.frs(0)[0];
            *p = ZPoly { coeffs: c };
            Ok(())
        }
        "flow.call" | "flow.again" => {
            let first = op.name == "flow.call";
            let (how, n) = if first { (0, &op.n[..]) } else { (op.n[0], &op.n[1..]) };
            let mut t = match ctx.flow.tools.take() {
                Some(t) => t,
                None => return driver("no session"),
            };
            let out = match how {
                0 => call(|| perform(&t, &mut ctx.polys, n, &op.a)),
                1 => {
                    let copy = t.clone();
                    let mut polys = ctx.polys.clone();
                    call(|| perform(&copy, &mut polys, n, &op.a))
                }
                2 => {
                    let made = ctx.flow.made.clone();
                    let mut polys: Vec<ZPoly> = ctx.polys.iter().map(|p| poly(&frvs(p.get_coeffs()))).collect();
                    call(|| perform(&Tools::build(made.0, made.1, made.2, &made.3)?, &mut polys, n, &op.a))
                }
                3 => {
                    let polys = &mut ctx.polys;
                    let t = &t;
                    std::thread::scope(|s| {
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s, move || call(|| perform(t, polys, n, &op.a)))
                            .unwrap()
                            .join()
                            .unwrap()
                    })
                }
                _ => {
                    t = t.clone();
                    ctx.polys = ctx.polys.clone();
                    call(|| perform(&t, &mut ctx.polys, n, &op.a))
                }
            };
            ctx.flow.tools = Some(t);
            if let Some(r) = outcome(op, out)? {
                compare("result", &r, &op.r)?;
                ctx.flow.kept.push((r, op.r.clone()));
                if ctx.flow.kept.len() > 40 {
                    ctx.flow.kept.remove(0);
                }
            }
            Ok(())
        }
        "flow.storm" => {
            let t = tools(ctx)?;
            let count = op.u(0);
            let (mut n, mut a, mut r) = (&op.n[1 + 3 * count..], &op.a[..], &op.r[..]);
            let mut calls = Vec::new();
            for i in 0..count {
                let (x, y, z) = (op.u(1 + 3 * i), op.u(2 + 3 * i), op.u(3 + 3 * i));
                calls.push((&n[..x], &a[..y], &r[..z]));
                (n, a, r) = (&n[x..], &a[y..], &r[z..]);
            }
            let ready = std::sync::Barrier::new(count);
            let results: Vec<Res> = std::thread::scope(|s| {
                let handles: Vec<_> = calls
                    .iter()
                    .map(|&(n, a, r)| {
                        let (t, ready, mut polys) = (&t, &ready, ctx.polys.clone());
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s, move || -> Res {
                                ready.wait();
                                let start = std::time::Instant::now();
                                for _ in 0..STORM {
                                    if let Some(v) = outcome(op, call(|| perform(t, &mut polys, n, a)))? {
                                        compare("result of one of several calls at once", &v, r)?;
                                    }
                                    if start.elapsed().as_millis() > 150 {
                                        break;
                                    }
                                }
                                Ok(())
                            })
                            .unwrap()
                    })
                    .collect();
                handles.into_iter().map(|h| h.join().unwrap()).collect()
            });
            results.into_iter().collect()
        }
        "flow.refused" => {
            let t = match ctx.flow.tools.take() {
                Some(t) => t,
                None => return driver("no session"),
            };
            let out = call(|| refuse(&t, &mut ctx.polys, &op.n));
            ctx.flow.tools = Some(t);
            outcome(op, out)?;
            Ok(())
        }
        "flow.audit" => {
            let t = tools(ctx)?;
            let up = frvs(t.fs.get_expanded_roots_of_unity());
            same("roots of the settings", &up, &op.r[0])?;
            let mut down = frvs(t.fs.get_reversed_roots_of_unity());
            down.reverse();
            same("reversed roots of the settings", &down, &op.r[0])?;
            let width = t.fs.get_max_width();
            if width != op.r[0].len() - 1 {
                return mismatch("width of the settings");
            }
            let of_kzg: Vec<BigUint> = (0..=width).map(|i| frv(&t.ks.get_expanded_roots_of_unity_at(i))).collect();
            same("roots of the commitment settings", &of_kzg, &op.r[0])?;
            for (i, s) in op.r[1].iter().enumerate() {
                let mut c = vec![BigUint::from(0u8); i + 1];
                c[i] = BigUint::from(1u8);
                let p = poly(&c);
                if let Some(v) = outcome(op, call(|| t.ks.commit_to_poly(&p)))? {
                    same_g1("point of the setup", &v, s)?;
                }
            }
            for (r, want) in &ctx.flow.kept {
                compare("result returned earlier", r, want)?;
            }
            Ok(())
        }
        // the flow: data at the even positions are extended, committed to and proven
        "flow.begin" => {
            let (k, chunk) = (op.u(0), op.u(2));
            ctx.flow = Flow { chunk, count: (1 << k) / chunk, ..Flow::default() };
            ctx.flow.tools = outcome(op, call(|| Tools::build(k, op.u(1), chunk, &op.a[0][0])))?;
            let (t, data) = (tools(ctx)?, op.frs(1));
            let out = call(|| {
                let odd = t.fs.das_fft_extension(&data)?;
                let all: Vec<S> = data.iter().zip(&odd).flat_map(|(a, b)| [*a, *b]).collect();
                Ok((all, sign(&t, &data)?))
            });
            if let Some((all, g)) = outcome(op, out)? {
                ctx.fr = all;
                ctx.g1 = g;
            }
            Ok(())
        }
        "flow.check" => {
            let out = accepted(ctx, op.u(0))?;
            match outcome(op, out)? {
                Some(b) => same_bool("verdict", b, &op.r[0][0]),
                None => Ok(()),
            }
        }
        "flow.checkall" => {
            for (i, want) in op.r[0].iter().enumerate() {
                let out = accepted(ctx, i)?;
                if let Some(b) = outcome(op, out)? {
                    same_bool(&format!("verdict on chunk {i}"), b, want)?;
                }
            }
            Ok(())
        }
        "flow.alter" => {
            ctx.fr[op.u(0)] = fr(&op.a[0][0]);
            Ok(())
        }
        "flow.swap" => {
            let (i, j) = (op.u(1), op.u(2));
            match op.n[0] {
                0 => ctx.fr.swap(i, j),
                1 => (0..ctx.flow.chunk).for_each(|r| ctx.fr.swap(i + r * ctx.flow.count, j + r * ctx.flow.count)),
                _ => ctx.g1.swap(i + 1, j + 1),
            }
            Ok(())
        }
        "flow.forge" => {
            ctx.g1[op.u(0)] = g1_make(&op.a[0][0], 0);
            Ok(())
        }
        "flow.lose" => {
            ctx.flow.gone = op.a[0].iter().map(|x| words::<1>(x)[0] as usize).collect();
            Ok(())
        }
        "flow.resend" => {
            ctx.fr = op.frs(0);
            ctx.g1 = op.a[1].iter().map(|x| g1_make(x, 0)).collect();
            ctx.flow.gone = Vec::new();
            Ok(())
        }
        "flow.recover" => {
            let mut samples: Vec<Option<S>> = vec![None; ctx.fr.len()];
            let mut good = Vec::new();
            for i in 0..ctx.flow.count {
                if ctx.flow.gone.contains(&i) {
                    continue;
                }
                let out = accepted(ctx, i)?;
                if outcome(op, out)? == Some(true) {
                    good.push(BigUint::from(i));
                    for j in 0..ctx.flow.chunk {
                        samples[i + j * ctx.flow.count] = Some(ctx.fr[i + j * ctx.flow.count]);
                    }
                }
            }
            ctx.flow.gone = Vec::new();
            same("accepted chunks", &good, &op.r[0])?;
            let t = tools(ctx)?;
            let out = call(|| {
                let all = ZPoly::recover_poly_from_samples(&samples, &t.fs)?.get_coeffs().to_vec();
                let data: Vec<S> = all.iter().step_by(2).cloned().collect();
                let g = sign(&t, &data)?;
                Ok((all, g))
            });
            if let Some((all, g)) = outcome(op, out)? {
                ctx.fr = all;
                ctx.g1 = g;
            }
            Ok(())
        }
        _ => driver(format!("unknown call {}", op.name)),
    }
}
