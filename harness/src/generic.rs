//! Calls through the interfaces of fields, groups, curves, encodings and pairings (C31): written for any type that has
//! the interface.
use crate::base::*;
use crate::ways;
use crate::curves::same_gt;
use ff::{Field, PrimeField};
use group::prime::{PrimeCurve, PrimeCurveAffine};
use group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use pairing::{Engine, MillerLoopResult as _, PairingCurveAffine};
use rand_core::RngCore;
use subtle::{Choice, ConditionallyNegatable, ConditionallySelectable, ConstantTimeEq};
use zkcrypto::curve::pairings::{multi_miller_loop, Bls12, G2Prepared, Gt};

struct Source(u64);
impl RngCore for Source {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest.iter_mut() {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
fn some<T>(x: subtle::CtOption<T>) -> Result<T, String> {
    Option::<T>::from(x).ok_or("nothing".into())
}
fn choice(b: bool) -> Choice {
    Choice::from(b as u8)
}

fn field<F: PrimeField<Repr = [u8; 32]> + ConditionallyNegatable>(regs: &[F], k: i64, x: F, y: F, e: F, n: &BigUint) -> Result<F, String> {
    let odd = n.bit(0);
    Ok(match k {
        0 => F::zero(),
        1 => F::one(),
        2 => x.square(),
        3 => x.double(),
        4 => return some(x.invert()),
        5 => regs.iter().fold(F::zero(), |a, b| a + b),
        6 => x.cube(),
        7 => x.pow_vartime(words::<4>(n)),
        8 => F::conditional_select(&x, &y, choice(odd)),
        9 => F::default(),
        10 => F::from(words::<4>(n)[0]),
        11 => F::root_of_unity(),
        12 => F::multiplicative_generator(),
        13 => F::from_str_vartime(&n.to_string()).ok_or("nothing")?,
        14 => x * y + -(y - e),
        15 => {
            let mut x = x;
            x.conditional_negate(choice(odd));
            x
        }
        16 => {
            let (mut x, mut y) = (x, y);
            F::conditional_swap(&mut x, &mut y, choice(odd));
            y
        }
        _ => {
            let mut x = x;
            x.conditional_assign(&e, choice(true));
            x.conditional_assign(&y, choice(false));
            x
        }
    })
}

fn point<P>(regs: &[P], k: i64, x: P, y: P, s: P::Scalar, b: Choice) -> Result<P, String>
where
    P: PrimeCurve + GroupEncoding + ConditionallyNegatable + ConditionallySelectable + ConstantTimeEq + Default,
    P::Affine: UncompressedEncoding + ConditionallySelectable + ConstantTimeEq + GroupEncoding,
{
    let (ax, ay) = (x.to_affine(), y.to_affine());
    Ok(match k {
        0 => P::identity(),
        1 => P::generator(),
        2 => x.double(),
        3 => P::conditional_select(&x, &y, b),
        4 => P::Affine::conditional_select(&ax, &ay, b).to_curve(),
        5 => {
            let (mut x, mut y) = (x, y);
            P::conditional_swap(&mut x, &mut y, b);
            y
        }
        6 => {
            let mut x = ax;
            x.conditional_assign(&ay, b);
            x.to_curve()
        }
        7 => {
            let mut x = x;
            x.conditional_negate(b);
            x
        }
        8 => ax.to_curve(),
        9 => some(P::from_bytes(&x.to_bytes()))?,
        10 => some(P::from_bytes_unchecked(&x.to_bytes()))?,
        11 => {
            let q = ax.to_bytes();
            if !bool::from(some(P::Affine::from_bytes(&q))?.ct_eq(&some(P::Affine::from_bytes_unchecked(&q))?)) {
                return Err("decodings differ".into());
            }
            some(P::Affine::from_bytes(&q))?.to_curve()
        }
        12 => some(P::Affine::from_uncompressed(&ax.to_uncompressed()))?.to_curve(),
        13 => some(P::Affine::from_uncompressed_unchecked(&ax.to_uncompressed()))?.to_curve(),
        14 => {
            let z = x * s;
            if z != ax * s {
                return Err("the multiples of a point and of its affine form differ".into());
            }
            z
        }
        15 => {
            let mut q = vec![P::Affine::generator(); regs.len()];
            P::batch_normalize(regs, &mut q);
            let a = q.iter().fold(P::identity(), |a, p| a + p);
            if a != regs.iter().sum() {
                return Err("the sum of normalised elements differs".into());
            }
            a
        }
        16 => x + y - (-x),
        17 => x + ay,
        18 => {
            if !bool::from(P::Affine::identity().is_identity()) || P::Affine::generator().to_curve() != P::generator() {
                return Err("the affine constants differ".into());
            }
            P::default()
        }
        _ => x - ay,
    })
}
/// whether the tests of a result tell what they must
fn tests<P>(op: &Op, v: &P, x: &P, y: &P) -> Res
where
    P: PrimeCurve + ConstantTimeEq,
    P::Affine: ConstantTimeEq,
{
    same_bool("identity", v.is_identity().into(), &op.r[0][1])?;
    same_bool("identity of the affine form", v.to_affine().is_identity().into(), &op.r[0][1])?;
    same_bool("equality", x.ct_eq(y).into(), &op.r[0][2])?;
    same_bool("equality of the affine forms", x.to_affine().ct_eq(&y.to_affine()).into(), &op.r[0][2])?;
    same_bool("equality", x == y, &op.r[0][2])
}
/// encodings with a changed flag
fn flags<P>(x: P, k: i64) -> Result<(), String>
where
    P: PrimeCurve + GroupEncoding,
    P::Affine: UncompressedEncoding + GroupEncoding,
{
    let a = x.to_affine();
    if k <= 1 {
        let mut b = x.to_bytes();
        b.as_mut()[0] ^= if k == 0 { 0x80 } else { 0x40 };
        some(P::from_bytes(&b)).map(|_| ())
    } else {
        let mut b = a.to_uncompressed();
        b.as_mut()[0] ^= if k == 2 { 0x80 } else { 0x20 };
        some(P::Affine::from_uncompressed(&b)).map(|_| ())
    }
}
pub const SAME: &str = "the random element is the identity";
fn random<G: Group>(p: u64) -> Result<(G, G), Fail> {
    let mut rng = Source(p);
    let out = plain(|| (G::random(&mut rng), G::random(&mut rng)));
    match out {
        Out::Val((a, b)) => {
            if bool::from(a.is_identity()) || bool::from(b.is_identity()) {
                return mismatch(SAME);
            }
            if a == b || a == G::generator() {
                return mismatch("random elements are equal");
            }
            // of the order of the group: (q - 1) a = -a
            if a * -G::Scalar::one() != -a {
                return mismatch("a random element is outside the group");
            }
            Ok((a, b))
        }
        Out::Err(e) | Out::Panic(e) => mismatch(format!("{ABORTED}: {e}")),
    }
}

fn scalar(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.as_str() {
        "gen.field" => {
            let (x, y) = (ctx.fr[op.u(1)], ctx.fr[op.u(2)]);
            let e = fr(&op.a[0][0]);
            if let Some(v) = outcome(op, call(|| field(&ctx.fr, op.n[3], x, y, e, &op.a[0][0])))? {
                same("result", &[frv(&v)], &op.r[0])?;
                if op.n[3] == 14 {
                    let out = plain(|| ways!(ways!(x, y, *, *=), -&ways!(y, e, -, -=), +, +=));
                    if let Some(w) = outcome(op, out)? {
                        same("result", &[frv(&w)], &op.r[0])?;
                    }
                }
                if op.n[3] == 5 {
                    same("sum", &[frv(&ctx.fr.iter().sum())], &op.r[0])?;
                }
                ctx.fr[op.u(0)] = v;
            }
            Ok(())
        }
        "gen.sqrt" => {
            let x = fr(&op.a[0][0]);
            if let Some(v) = outcome(op, call(|| some(Field::sqrt(&x))))? {
                same("square of the root", &[frv(&(v * v))], &op.a[0])?;
            }
            Ok(())
        }
        "gen.tell" => {
            let (x, y, n) = (ctx.fr[op.u(0)], ctx.fr[op.u(1)], op.u(2) as u32);
            let out = plain(|| {
                let r = x.reduce();
                let mut d = r;
                d.divn(n);
                let plain: [u8; 32] = x.into();
                (
                    vec![bool::from(Field::is_zero(&x)), x.is_zero_vartime()],
                    vec![bool::from(PrimeField::is_odd(&x)), !bool::from(PrimeField::is_even(&x))],
                    vec![bool::from(x.ct_eq(&y)), x == y, !(x != y)],
                    vec![PrimeField::to_repr(&x), plain, (&x).into()],
                    (r, d),
                )
            });
            if let Some((zero, odd, eq, repr, (r, d))) = outcome(op, out)? {
                for (what, l, w) in [("zero", zero, 0), ("odd", odd, 1), ("equality", eq, 2)] {
                    for b in l {
                        same_bool(what, b, &op.r[0][w])?;
                    }
                }
                for b in repr {
                    same("bytes", &[BigUint::from_bytes_le(&b)], &op.r[1])?;
                }
                same("reduced", &[frv(&r)], &op.r[2])?;
                same("shifted", &[frv(&d)], &op.r[3])?;
                let hex: String = format!("{x:?}").chars().skip_while(|c| *c != 'x').skip(1).collect();
                if BigUint::parse_bytes(hex.as_bytes(), 16).map_or(false, |h| h != op.r[1][0]) {
                    return mismatch(format!("printed as {x:?}"));
                }
            }
            Ok(())
        }
        _ => {
            let b = le_bytes::<32>(&op.a[0][0]);
            let first = outcome(op, call(|| some(S::from_repr(b))))?;
            let second = outcome(op, call(|| S::from_repr_vartime(b).ok_or("nothing".into())))?;
            if let (Some(x), Some(y)) = (first, second) {
                same("scalar of the bytes", &[frv(&x), frv(&y)], &[op.r[0][0].clone(), op.r[0][0].clone()])?;
                ctx.fr[op.u(0)] = x;
            }
            Ok(())
        }
    }
}

pub fn exec(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.as_str() {
        "gen.init" => {
            ctx.fr = op.a[0].iter().map(fr).collect();
            ctx.g1 = op.a[0].iter().map(|v| g1_make(v, 0)).collect();
            ctx.g2 = op.a[0].iter().map(|v| g2_make(v, 0)).collect();
            ctx.low.gt = vec![<Gt as Group>::identity(); op.u(0)];
            Ok(())
        }
        "gen.field" | "gen.sqrt" | "gen.tell" | "gen.bytes" => scalar(ctx, op),
        "gen.load" => {
            if op.n[0] == 1 {
                if let Some(v) = outcome(op, plain(|| g1_make(&op.a[0][0], op.n[2])))? {
                    ctx.g1[op.u(1)] = v;
                }
            } else if let Some(v) = outcome(op, plain(|| g2_make(&op.a[0][0], op.n[2])))? {
                ctx.g2[op.u(1)] = v;
            }
            Ok(())
        }
        "gen.group" => {
            let (d, i, j, k, b, s) = (op.u(0), op.u(2), op.u(3), op.n[4], choice(op.flag(5)), ctx.fr[op.u(6)]);
            if op.n[1] == 1 {
                let (x, y) = (ctx.g1[i], ctx.g1[j]);
                if let Some(v) = outcome(op, call(|| point(&ctx.g1, k, x, y, s, b)))? {
                    same_g1("result", &v, &op.r[0][0])?;
                    tests(op, &v, &x, &y)?;
                    ctx.g1[d] = v;
                }
            } else {
                let (x, y) = (ctx.g2[i], ctx.g2[j]);
                if let Some(v) = outcome(op, call(|| point(&ctx.g2, k, x, y, s, b)))? {
                    same_g2("result", &v, &op.r[0][0])?;
                    tests(op, &v, &x, &y)?;
                    ctx.g2[d] = v;
                }
            }
            Ok(())
        }
        "gen.flags" => {
            let i = op.u(1);
            let out = call(|| if op.n[0] == 1 { flags(ctx.g1[i], op.n[2]) } else { flags(ctx.g2[i], op.n[2]) });
            outcome(op, out).map(|_| ())
        }
        "gen.random" => {
            let p = op.n[1] as u64;
            match op.n[0] {
                0 => {
                    let mut rng = Source(p);
                    let out = plain(|| (S::random(&mut rng), S::random(&mut rng)));
                    if let Some((a, b)) = outcome(op, out)? {
                        if a == b || bool::from(Field::is_zero(&a)) || frv(&a) >= order() {
                            return mismatch("random scalars are zero or equal");
                        }
                    }
                    Ok(())
                }
                1 => {
                    let (a, b) = random::<ZkG1Projective>(p)?;
                    for x in [a, b] {
                        let x = x.to_affine();
                        if !bool::from(x.is_on_curve()) || !bool::from(x.is_torsion_free()) {
                            return mismatch("a random element is outside the group");
                        }
                    }
                    Ok(())
                }
                2 => {
                    let (a, b) = random::<ZkG2Projective>(p)?;
                    for x in [a, b] {
                        let x = x.to_affine();
                        if !bool::from(x.is_on_curve()) || !bool::from(x.is_torsion_free()) {
                            return mismatch("a random element is outside the group");
                        }
                    }
                    Ok(())
                }
                _ => random::<Gt>(p).map(|_| ()),
            }
        }
        "gen.pairing" => {
            let (p, q) = (ctx.g1[op.u(1)].to_affine(), ctx.g2[op.u(2)].to_affine());
            let out = plain(|| match op.n[3] {
                0 => p.pairing_with(&q),
                1 => q.pairing_with(&p),
                2 => <Bls12 as Engine>::pairing(&p, &q),
                _ => pairing::MillerLoopResult::final_exponentiation(&multi_miller_loop(&[(&p, &G2Prepared::from(q))])),
            });
            if let Some(v) = outcome(op, out)? {
                same_gt("result", &v, &op.r[0][0])?;
                ctx.low.gt[op.u(0)] = v;
            }
            Ok(())
        }
        "gen.target" => {
            let (x, y, b, s) = (ctx.low.gt[op.u(1)], ctx.low.gt[op.u(2)], choice(op.flag(4)), ctx.fr[op.u(5)]);
            let out = plain(|| match op.n[3] {
                0 => <Gt as Group>::identity(),
                1 => <Gt as Group>::generator(),
                2 => Group::double(&x),
                3 => Gt::conditional_select(&x, &y, b),
                4 => x * s,
                5 => ctx.low.gt.iter().sum(),
                6 => {
                    let mut x = x;
                    x += y;
                    x
                }
                7 => {
                    let mut x = x;
                    x -= &y;
                    x
                }
                8 => Gt::default(),
                _ => {
                    let (mut x, mut y) = (x, y);
                    Gt::conditional_swap(&mut x, &mut y, b);
                    y
                }
            });
            if let Some(v) = outcome(op, out)? {
                same_gt("result", &v, &op.r[0][0])?;
                same_bool("identity", Group::is_identity(&v).into(), &op.r[0][1])?;
                same_bool("equality", x.ct_eq(&y).into(), &op.r[0][2])?;
                ctx.low.gt[op.u(0)] = v;
            }
            Ok(())
        }
        _ => driver(format!("unknown call {}", op.name)),
    }
}

fn filled<R: Default + AsMut<[u8]>>(n: &BigUint) -> R {
    let mut r = R::default();
    let bytes = n.to_bytes_be();
    let dest = r.as_mut();
    let (l, m) = (dest.len(), bytes.len());
    if n.bits() > 0 {
        dest[l - m..].copy_from_slice(&bytes);
    }
    r
}
/// strings read and points written through the interface of encodings, by both types of points
fn strings<A>(op: &Op, make: impl Fn() -> A::Curve) -> Res
where
    A: PrimeCurveAffine + GroupEncoding + UncompressedEncoding,
    A::Curve: GroupEncoding<Repr = <A as GroupEncoding>::Repr> + Curve<AffineRepr = A>,
    <A as GroupEncoding>::Repr: Default + AsMut<[u8]> + AsRef<[u8]>,
    A::Uncompressed: Default + AsMut<[u8]> + AsRef<[u8]>,
{
    let number = |b: &[u8]| [BigUint::from_bytes_be(b)];
    let written = |p: &A::Curve, a: &A| -> Res {
        same("compressed encoding", &number(GroupEncoding::to_bytes(a).as_ref()), &op.r[0])?;
        same("compressed encoding, projective", &number(GroupEncoding::to_bytes(p).as_ref()), &op.r[0])?;
        same("uncompressed encoding", &number(UncompressedEncoding::to_uncompressed(a).as_ref()), &op.r[1])
    };
    let short = |n: &BigUint| filled::<<A as GroupEncoding>::Repr>(n);
    match op.name.as_str() {
        "enc.decode" if op.flag(1) => {
            let b = short(&op.a[0][0]);
            let (x, y) = (outcome(op, call(|| some(A::from_bytes(&b))))?, outcome(op, call(|| some(<A::Curve as GroupEncoding>::from_bytes(&b))))?);
            if let (Some(a), Some(p)) = (x, y) {
                written(&p, &a)?;
            }
            Ok(())
        }
        "enc.decode" => {
            let b = filled::<A::Uncompressed>(&op.a[0][0]);
            if let Some(a) = outcome(op, call(|| some(<A as UncompressedEncoding>::from_uncompressed(&b))))? {
                written(&a.to_curve(), &a)?;
            }
            Ok(())
        }
        "enc.unchecked" => {
            let b = short(&op.a[0][0]);
            let x = outcome(op, call(|| some(A::from_bytes_unchecked(&b))))?;
            let y = outcome(op, call(|| some(<A::Curve as GroupEncoding>::from_bytes_unchecked(&b))))?;
            if let (Some(a), Some(p)) = (x, y) {
                written(&p, &a)?;
            }
            Ok(())
        }
        "enc.tests" => {
            let b = filled::<A::Uncompressed>(&op.a[0][0]);
            outcome(op, call(|| some(<A as UncompressedEncoding>::from_uncompressed_unchecked(&b))))?;
            Ok(())
        }
        "enc.encode" => {
            if let Some((p, a)) = outcome(op, plain(|| (make(), make().to_affine())))? {
                written(&p, &a)?;
            }
            Ok(())
        }
        _ => driver(format!("unknown call {}", op.name)),
    }
}
pub fn encodings(op: &Op) -> Res {
    if op.n[0] == 1 {
        strings::<ZkG1Affine>(op, || g1_make(&op.a[0][0], op.n[1]))
    } else {
        strings::<ZkG2Affine>(op, || g2_make(&op.a[0][0], op.n[1]))
    }
}
