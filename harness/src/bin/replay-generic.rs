//! Conformance driver for calls through the interfaces of fields, groups, curves, encodings and pairings.  See main.rs.
#[path = "../base.rs"]
mod base;
#[path = "../engine.rs"]
mod engine;
#[path = "../curves.rs"]
mod curves;
#[path = "../generic.rs"]
mod generic;
mod known {
    use crate::base::*;
    #[derive(Clone, Copy)]
    pub enum How {
        /// with overflow checks, as in the tests' build, the call aborts; without them it returns another point
        Aborts,
        /// the random element is the identity
        Identity,
    }
    const CARRY: &str = "multiplying a point of the first group by one of the scalars whose split rounds up at a word boundary aborts";
    const RANDOM: &str = "a random element of the target group is always the identity";

    pub fn site(ctx: &Ctx, op: &Op) -> Option<(&'static str, How)> {
        match op.name.as_str() {
            "gen.group" if op.n[1] == 1 && op.n[4] == 14 && forgets_to_carry(&frv(&ctx.fr[op.u(6)])) => Some((CARRY, How::Aborts)),
            "gen.random" if op.n[0] == 3 => Some((RANDOM, How::Identity)),
            _ => None,
        }
    }
    pub fn is_it(how: How, detail: &str) -> bool {
        match how {
            How::Aborts => detail.starts_with(ABORTED),
            How::Identity => detail == crate::generic::SAME,
        }
    }
}
mod flow {
    #[derive(Default)]
    pub struct Flow;
}
mod fk {
    pub struct Fk;
}
mod low {
    #[derive(Default)]
    pub struct Low {
        pub gt: Vec<zkcrypto::curve::pairings::Gt>,
    }
    impl Low {
        pub fn compare(&self, st: &serde_json::Value) -> Result<(), String> {
            if let Some(v) = crate::base::var(st, "gtregs") {
                for (i, (x, v)) in self.gt.iter().zip(&crate::base::ints(v)?).enumerate() {
                    crate::base::text_of(crate::curves::same_gt(&format!("target-group register {i}"), x, v))?;
                }
            }
            Ok(())
        }
    }
}

use base::*;

fn dispatch(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.split('.').next().unwrap_or("") {
        "init" => Ok(()),
        "gen" => generic::exec(ctx, op),
        "enc" => generic::encodings(op),
        _ => driver(format!("unknown call {}", op.name)),
    }
}

fn warm_up() {}

fn main() {
    engine::main()
}
