//! Conformance driver for the calls below the common interface: base field, extension tower, groups,
//! encodings and pairings.  See main.rs.
#[path = "../base.rs"]
mod base;
#[path = "../engine.rs"]
mod engine;
#[path = "../curves.rs"]
mod curves;
#[path = "../codec.rs"]
mod codec;
#[path = "../tower.rs"]
mod tower;
mod known {
    use crate::base::*;
    #[derive(Clone, Copy)]
    pub enum How {
        /// with overflow checks, as in the tests' build, the call aborts; without them it returns another point
        Aborts,
    }
    const CARRY: &str = "multiplying a point of the first group by one of the scalars whose split rounds up at a word boundary aborts";

    pub fn site(ctx: &Ctx, op: &Op) -> Option<(&'static str, How)> {
        match op.name.as_str() {
            "g.times" if ctx.g2.is_empty() && forgets_to_carry(&op.a[0][0]) => Some((CARRY, How::Aborts)),
            _ => None,
        }
    }
    pub fn is_it(how: How, detail: &str) -> bool {
        match how {
            How::Aborts => detail.starts_with(ABORTED),
        }
    }
}
mod flow {
    #[derive(Default)]
    pub struct Flow;
}
mod fk {
    pub struct Fk;
}
mod low {
    #[derive(Default)]
    pub struct Low {
        pub tower: crate::tower::Regs,
        pub gt: Vec<zkcrypto::curve::pairings::Gt>,
    }
    impl Low {
        pub fn compare(&self, st: &serde_json::Value) -> Result<(), String> {
            if let Some(v) = crate::base::var(st, "fpregs") {
                self.tower.compare(&crate::base::lists(v)?)?;
            }
            if let Some(v) = crate::base::var(st, "gtregs") {
                for (i, (x, v)) in self.gt.iter().zip(&crate::base::ints(v)?).enumerate() {
                    crate::base::text_of(crate::curves::same_gt(&format!("target-group register {i}"), x, v))?;
                }
            }
            Ok(())
        }
    }
}

use base::*;

fn dispatch(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.split('.').next().unwrap_or("") {
        "init" => Ok(()),
        "fp" | "fp2" | "fp6" | "fp12" | "tower" => tower::exec(ctx, op),
        "g" | "g1" | "g2" | "pair" => curves::exec(ctx, op),
        "enc" => codec::exec(ctx, op),
        _ => driver(format!("unknown call {}", op.name)),
    }
}

fn warm_up() {}

fn main() {
    engine::main()
}
