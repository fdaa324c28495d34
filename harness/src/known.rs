//! Known findings: the inputs at which the library is known to break a property, and how it fails there.
//! Anything else that goes wrong, also at these inputs in another way, is a violation.
use crate::base::*;

#[derive(Clone, Copy, PartialEq)]
pub enum How {
    /// the call aborts
    Aborts,
    /// the call aborts or returns an error
    Refuses,
    /// the call returns a value although it must be refused
    Answers,
}

/// Whether the vanishing polynomial of m of n positions is one of those the library cannot compute: the
/// arithmetic of its reduction of partial products, on lengths only.
pub fn tree_fails(n: usize, m: usize) -> bool {
    let (full, per) = (64, 63);
    if m <= per || m >= n {
        return false;
    }
    let mut count = (per + m - 1) / per;
    let area = (count * full).next_power_of_two();
    let end = area.min(n);
    let mut lens = vec![full; count];
    lens[count - 1] = 1 + m - (count - 1) * per;
    while count > 1 {
        let groups = 1 + (count - 1) / 4;
        let size = lens[0].next_power_of_two();
        for i in 0..groups {
            let start = i * 4;
            let out_end = ((start + 4) * size).min(end);
            if out_end < start * size {
                return true;
            }
            let room = (out_end - start * size).min(n);
            let k = 4.min(count - start);
            if k > 1 {
                let degree: usize = (0..k).map(|j| lens[i + j] - 1).sum();
                if !room.is_power_of_two() || degree + 1 > room {
                    return true;
                }
                lens[i] = degree + 1;
            } else {
                lens[i] = lens[start];
            }
        }
        count = groups;
    }
    false
}

const EVAL: &str = "evaluating a polynomial with exactly one coefficient at a non-zero point aborts";
const ZERO: &str = "dividing the zero polynomial (and so opening it) aborts";
const NONE: &str = "recovery aborts when no sample is missing";
const TREE: &str = "the vanishing polynomial of nearly all positions of a large domain (and recovery from the rest) is refused for some counts";
const OUTSIDE: &str = "the position equal to the size of the domain is taken for position zero instead of being refused";
const LONG: &str = "amortised proofs for a polynomial shorter than the settings were made for are returned, and wrong, instead of refused";
const COUNT: &str = "coset verification with another number of values than the count gives a verdict instead of being refused";

fn zero(c: &[S]) -> bool {
    c.iter().all(|x| frv(x) == BigUint::from(0u8))
}
fn zeros(c: &[BigUint]) -> bool {
    c.iter().all(|x| *x == BigUint::from(0u8))
}

/// how many of 2^k positions are in the residue classes
fn population(classes: &[BigUint], k: usize) -> usize {
    classes.chunks(2).map(|c| (1 << k) / words::<1>(&c[1])[0] as usize).sum()
}

/// the known finding this call runs into, if any
pub fn site(ctx: &Ctx, op: &Op) -> Option<(&'static str, How)> {
    let p = |i: usize| ctx.polys.get(op.u(i)).map(|p| p.get_coeffs().to_vec()).unwrap_or_default();
    let hit = |b: bool, s: &'static str, h: How| if b { Some((s, h)) } else { None };
    match op.name.as_str() {
        "poly.eval" => hit(p(0).len() == 1 && !zeros(&op.a[0]), EVAL, How::Aborts),
        "poly.evalnew" => hit(op.a[0].len() == 1 && !zeros(&op.a[1]), EVAL, How::Aborts),
        "poly.longdiv" | "poly.fastdiv" => hit(p(1).is_empty() && op.ok == "ok", ZERO, How::Aborts),
        "poly.div" | "poly.divlinear" => hit(zero(&p(1)) && op.ok == "ok", ZERO, How::Aborts),
        "poly.divall" | "poly.diveach" => hit(zeros(&op.a[0]) && op.ok == "ok", ZERO, How::Aborts),
        "kzg.open" | "kzg.prove" | "kzg.provem" => hit(zero(ctx.polys[0].get_coeffs()) && op.ok == "ok", ZERO, How::Aborts),
        "kzg.whole" => hit(zeros(&op.a[1]) && op.ok == "ok", ZERO, How::Aborts),
        "rec.recover" => {
            let (n, m) = (ctx.fr.len(), ctx.missing.len());
            hit(m == 0, NONE, How::Aborts).or(hit(tree_fails(n, m), TREE, How::Refuses))
        }
        "zero.poly" => hit(op.ok == "ok" && tree_fails(op.u(1), op.a[0].len()), TREE, How::Refuses)
            .or(hit(op.ok == "ref" && op.a[0].iter().max() == Some(&op.u(1).into()), OUTSIDE, How::Answers)),
        "fk.all" => hit(op.ok == "ref" && op.a[0].len() < ctx.fk_len && !op.a[0].is_empty(), LONG, How::Answers),
        "fk.once" => hit(op.ok == "ref" && 2 * op.a[0].len() < op.u(0) && !op.a[0].is_empty(), LONG, How::Answers),
        "flow.recover" => hit(op.r[0].len() == ctx.flow.count, NONE, How::Aborts)
            .or(hit(tree_fails(ctx.fr.len(), ctx.flow.chunk * (ctx.flow.count - op.r[0].len())), TREE, How::Refuses)),
        "large.zero" => hit(tree_fails(1 << op.u(1), population(&op.a[0], op.u(1))), TREE, How::Refuses),
        "large.recover" => hit(tree_fails(1 << op.u(1), population(&op.a[3], op.u(1))), TREE, How::Refuses),
        "kzg.checkmx" => hit(op.ok == "ref" && op.a[1].len() != op.u(2), COUNT, How::Answers),
        _ => None,
    }
}
/// whether the call failed in the way that is known
pub fn is_it(how: How, detail: &str) -> bool {
    match how {
        How::Aborts => detail.starts_with(ABORTED),
        How::Refuses => detail.starts_with(ABORTED) || detail.starts_with(ERRED),
        How::Answers => detail.starts_with(ANSWERED),
    }
}
