//! Conformance driver: replays traces of the Quint specifications (ITF files) against the library.
//!
//! Usage: replay [--threads N] [--op-timeout S] [--progress FILE] TRACE...
//!
//! Every state of a trace carries the variable `op`, the call made in the step that leads to this state with
//! its specified outcome, and the abstract state after it.  The driver makes the same call on real objects,
//! compares the outcome and then the real state with the abstract state.  A JSON summary goes to stdout.
//! Exit code 0: all traces conform; 3: a trace does not; 2: the driver cannot interpret a trace.


mod base;
mod engine;
mod erasure;
mod fft;
mod fk;
mod flow;
mod formula;
mod fr;
mod known;
mod kz;
mod large;
mod polys;
/// the calls below the common interface are replayed by the other binary
mod low {
    #[derive(Default)]
    pub struct Low;
    impl Low {
        pub fn compare(&self, _st: &serde_json::Value) -> Result<(), String> {
            Ok(())
        }
    }
}

use base::*;

fn dispatch(ctx: &mut Ctx, op: &Op) -> Res {
    match op.name.split('.').next().unwrap_or("") {
        "init" => Ok(()),
        "g1" if op.name == "g1.init" => {
            ctx.g1 = op.a[0].iter().map(|v| g1_make(v, op.n[0])).collect();
            Ok(())
        }
        "fr" => fr::exec(ctx, op),
        "poly" => polys::exec(ctx, op),
        "fft" | "das" | "fs" => fft::exec(ctx, op),
        "kzg" | "msm" => kz::exec(ctx, op),
        "zero" | "rec" => erasure::exec(ctx, op),
        "fk" => fk::exec(ctx, op),
        "flow" => flow::exec(ctx, op),
        "large" => large::exec(ctx, op),
        _ => driver(format!("unknown call {}", op.name)),
    }
}

/// make the largest recoveries by one caller, so that tables the library may keep are complete before others come
fn warm_up() {
    for scale in [10, 13] {
        let _ = call(|| {
            let fs = Fs::new(scale)?;
            let mut samples = vec![Some(<S as Fr>::one()); 1 << scale];
            samples[3] = None;
            ZPoly::recover_poly_from_samples(&samples, &fs)
        });
    }
}

fn main() {
    engine::main()
}
