//! Conformance driver for the steps that larger algorithms are made of.  See main.rs.
#[path = "../base.rs"]
mod base;
#[path = "../engine.rs"]
mod engine;
#[path = "../formula.rs"]
mod formula;
#[path = "../helpers.rs"]
mod helpers;
#[path = "../parts.rs"]
mod parts;
mod known {
    use crate::base::*;
    pub fn site(_ctx: &Ctx, _op: &Op) -> Option<(&'static str, ())> {
        None
    }
    pub fn is_it(_how: (), _detail: &str) -> bool {
        false
    }
}
mod flow {
    #[derive(Default)]
    pub struct Flow;
}
mod fk {
    pub struct Fk;
}
mod low {
    #[derive(Default)]
    pub struct Low;
    impl Low {
        pub fn compare(&self, _st: &serde_json::Value) -> Result<(), String> {
            Ok(())
        }
    }
}

use base::*;

fn dispatch(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.split('.').next().unwrap_or("") {
        "init" => Ok(()),
        "toe" => helpers::toeplitz(ctx, op),
        "help" => helpers::exec(ctx, op),
        _ => driver(format!("unknown call {}", op.name)),
    }
}

fn warm_up() {}

fn main() {
    engine::main()
}
