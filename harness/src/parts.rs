//! The functions below the common interface that are replayed where they exist (see build.rs).
use crate::base::*;

macro_rules! part {
    ($has:meta, $($path:ident)::+, $name:ident($($arg:ty),*) -> $ret:ty) => {
        #[cfg($has)]
        pub use zkcrypto::$($path)::+::$name;
        #[cfg(not($has))]
        pub fn $name($(_: $arg),*) -> $ret {
            gone(stringify!($name))
        }
    };
}
#[allow(unused)]
fn gone(name: &str) -> ! {
    panic!("{GONE}: {name}")
}
part!(has_toeplitz_part_1, fk20, toeplitz_part_1(&[ZkG1Projective], &Fs) -> Vec<ZkG1Projective>);
part!(has_toeplitz_part_2, fk20, toeplitz_part_2(&ZPoly, &[ZkG1Projective], &Fs) -> Vec<ZkG1Projective>);
part!(has_toeplitz_part_3, fk20, toeplitz_part_3(&[ZkG1Projective], &Fs) -> Vec<ZkG1Projective>);
part!(has_toeplitz_coeffs_stride, fk20, toeplitz_coeffs_stride(usize, usize, &ZPoly) -> ZPoly);
part!(has_toeplitz_coeffs_step, fk20, toeplitz_coeffs_step(&ZPoly) -> ZPoly);
part!(has_poly_norm, poly, poly_norm(&ZPoly) -> Result<ZPoly, String>);
part!(has_poly_flip, poly, poly_flip(&ZPoly) -> Result<ZPoly, String>);
part!(has_poly_quotient_length, poly, poly_quotient_length(&ZPoly, &ZPoly) -> Result<usize, String>);
part!(has_pad, poly, pad(&ZPoly, usize) -> Vec<S>);
part!(has_pad_, poly, pad_(&ZPoly, usize) -> ZPoly);
part!(has_pad_poly, poly, pad_poly(&ZPoly, usize) -> Result<Vec<S>, String>);
part!(has_poly_mul, poly, poly_mul(&ZPoly, &ZPoly, usize) -> Result<ZPoly, String>);
part!(has_scale_poly, recover, scale_poly(&mut ZPoly) -> ());
part!(has_unscale_poly, recover, unscale_poly(&mut ZPoly) -> ());
part!(has_is_power_of_two, utils, is_power_of_two(usize) -> bool);
part!(has_next_power_of_two, utils, next_power_of_two(usize) -> usize);
part!(has_log_2_byte, utils, log_2_byte(u8) -> usize);
part!(has_log2_pow2, utils, log2_pow2(usize) -> usize);
part!(has_log2_u64, utils, log2_u64(usize) -> usize);
part!(has_min_u64, utils, min_u64(usize, usize) -> Result<usize, String>);
part!(has_fft_fr_fast, fft_fr, fft_fr_fast(&mut [S], &[S], usize, &[S], usize) -> ());
part!(has_fft_fr, fft_fr, fft_fr(&[S], bool, &Fs) -> Result<Vec<S>, String>);
part!(has_fft_g1_fast, fft_g1, fft_g1_fast(&mut [ZkG1Projective], &[ZkG1Projective], usize, &[S], usize) -> ());

#[cfg(has_reverse_bit_order)]
pub use zkcrypto::fk20::reverse_bit_order;
#[cfg(not(has_reverse_bit_order))]
pub fn reverse_bit_order<T: Clone>(_: &mut Vec<T>) {
    gone("reverse_bit_order")
}
#[cfg(has_ruffini)]
pub fn ruffini(p: &ZPoly, z: S) -> ZPoly {
    p.ruffini(z)
}
#[cfg(not(has_ruffini))]
pub fn ruffini(_: &ZPoly, _: S) -> ZPoly {
    gone("ruffini")
}
