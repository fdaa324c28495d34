//! Calls that read and write points.
use crate::base::*;

fn some<T>(v: Option<T>) -> Result<T, String> {
    v.ok_or_else(|| "none".to_string())
}
macro_rules! codec {
    ($name:ident, $proj:ty, $affine:ty, $make:ident, $short:literal, $long:literal) => {
        fn $name(op: &Op) -> Res {
            // both encodings of the element, and what they decode to again
            let written = |a: &$affine| -> Res {
                let got = [BigUint::from_bytes_be(&a.to_compressed()), BigUint::from_bytes_be(&a.to_uncompressed())];
                same("compressed encoding", &got[..1], &op.r[0])?;
                same("uncompressed encoding", &got[1..], &op.r[1])
            };
            match op.name.as_str() {
                "enc.decode" => {
                    let out = call(|| {
                        some(if op.flag(1) {
                            Option::<$affine>::from(<$affine>::from_compressed(&be_bytes::<$short>(&op.a[0][0])))
                        } else {
                            Option::<$affine>::from(<$affine>::from_uncompressed(&be_bytes::<$long>(&op.a[0][0])))
                        })
                    });
                    if let Some(a) = outcome(op, out)? {
                        written(&a)?;
                    }
                    Ok(())
                }
                "enc.unchecked" => {
                    let out = call(|| some(Option::<$affine>::from(<$affine>::from_compressed_unchecked(&be_bytes::<$short>(&op.a[0][0])))));
                    if let Some(a) = outcome(op, out)? {
                        written(&a)?;
                    }
                    Ok(())
                }
                "enc.tests" => {
                    let out = call(|| {
                        let a = some(Option::<$affine>::from(<$affine>::from_uncompressed_unchecked(&be_bytes::<$long>(&op.a[0][0]))))?;
                        let on = bool::from(a.is_on_curve());
                        Ok((on, bool::from(<$proj>::from(&a).is_on_curve()), on && bool::from(a.is_torsion_free())))
                    });
                    if let Some((on, on_projective, sub)) = outcome(op, out)? {
                        same_bool("curve test", on, &op.r[0][0])?;
                        same_bool("curve test in projective coordinates", on_projective, &op.r[0][0])?;
                        same_bool("subgroup test", sub, &op.r[0][1])?;
                    }
                    Ok(())
                }
                "enc.encode" => {
                    if let Some(a) = outcome(op, plain(|| <$affine>::from(&$make(&op.a[0][0], op.n[1]))))? {
                        written(&a)?;
                    }
                    Ok(())
                }
                _ => driver(format!("unknown call {}", op.name)),
            }
        }
    };
}
codec!(first, ZkG1Projective, ZkG1Affine, g1_make, 48, 96);
codec!(second, ZkG2Projective, ZkG2Affine, g2_make, 96, 192);

pub fn exec(_ctx: &mut Ctx, op: &Op) -> Res {
    if op.n[0] == 1 {
        first(op)
    } else {
        second(op)
    }
}
