//! Some calls are of functions that only the library itself uses.  Where one of them is no longer there, or takes other
//! arguments, there is nothing to replay: it is left out, and counted as such.
use std::fs;

const PARTS: &[(&str, &str)] = &[
    ("fk20.rs", "pub fn toeplitz_part_1(x: &[ZkG1Projective], fft_set: &ZkFFTSettings) -> Vec<ZkG1Projective> {"),
    ("fk20.rs", "pub fn toeplitz_part_2(toeplitz: &ZPoly, x_ext_fft: &[ZkG1Projective], fft_set: &ZkFFTSettings) -> Vec<ZkG1Projective> {"),
    ("fk20.rs", "pub fn toeplitz_part_3(h_ext_fft: &[ZkG1Projective], fft_set: &ZkFFTSettings) -> Vec<ZkG1Projective> {"),
    ("fk20.rs", "pub fn toeplitz_coeffs_stride(offset: usize, stride: usize, poly: &ZPoly) -> ZPoly {"),
    ("fk20.rs", "pub fn toeplitz_coeffs_step(poly: &ZPoly) -> ZPoly {"),
    ("fk20.rs", "pub fn reverse_bit_order<T>(values: &mut Vec<T>) where T: Clone {"),
    ("poly.rs", "pub fn poly_norm(p: &ZPoly) -> Result<ZPoly, String> {"),
    ("poly.rs", "pub fn poly_flip(out: &ZPoly) -> Result<ZPoly, String> {"),
    ("poly.rs", "pub fn poly_quotient_length(dividend: &ZPoly, divisor: &ZPoly) -> Result<usize, String> {"),
    ("poly.rs", "pub fn pad(input: &ZPoly, length: usize) -> Vec<blsScalar> {"),
    ("poly.rs", "pub fn pad_(input: &ZPoly, length: usize) -> ZPoly {"),
    ("poly.rs", "pub fn pad_poly(input: &ZPoly, length: usize) -> Result<Vec<blsScalar>, String> {"),
    ("poly.rs", "pub fn ruffini(&self, z: blsScalar) -> KzgPoly {"),
    ("poly.rs", "pub fn poly_mul(a: &ZPoly, b: &ZPoly, output_len: usize) -> Result<ZPoly, String> {"),
    ("recover.rs", "pub fn scale_poly(p: &mut ZPoly) {"),
    ("recover.rs", "pub fn unscale_poly(p: &mut ZPoly) {"),
    ("utils.rs", "pub fn is_power_of_two(x: usize) -> bool {"),
    ("utils.rs", "pub fn next_power_of_two(v: usize) -> usize {"),
    ("utils.rs", "pub fn log_2_byte(b: u8) -> usize {"),
    ("utils.rs", "pub fn log2_pow2(n: usize) -> usize {"),
    ("utils.rs", "pub fn log2_u64(n: usize) -> usize {"),
    ("utils.rs", "pub fn min_u64(a: usize, b: usize) -> Result<usize, String> {"),
    ("fft_fr.rs", "pub fn fft_fr_fast(ret: &mut [blsScalar], data: &[blsScalar], stride: usize, roots: &[blsScalar], roots_stride: usize) {"),
    ("fft_fr.rs", "pub fn fft_fr(data: &[blsScalar], inverse: bool, fft_settings: &ZkFFTSettings) -> Result<Vec<blsScalar>, String> {"),
    ("fft_g1.rs", "pub fn fft_g1_fast(ret: &mut [ZkG1Projective], data: &[ZkG1Projective], stride: usize, roots: &[blsScalar], roots_stride: usize) {"),
];

/// the types a signature names, so that names of arguments, spaces and trailing commas do not matter
fn shape(text: &str) -> Option<(String, String)> {
    let text: String = text.split_whitespace().collect::<Vec<_>>().join(" ");
    let name: String = text.strip_prefix("pub fn ")?.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
    let rest = &text["pub fn ".len() + name.len()..text.find('{')?];
    let (args, tail) = (&rest[rest.find('(')? + 1..rest.rfind(')')?], &rest[rest.rfind(')')? + 1..]);
    let args: Vec<&str> = args.split(',').map(|a| a.rsplit(':').next().unwrap_or("").trim()).filter(|a| !a.is_empty()).collect();
    let kind = format!("{}({}){}", &rest[..rest.find('(')?], args.join(","), tail);
    Some((name, kind.replace(' ', "").replace("KzgPoly", "ZPoly").replace("Self", "ZPoly")))
}

fn main() {
    let src = "../build/tree/zkcrypto/src";
    println!("cargo:rerun-if-changed=build.rs");
    for (file, want) in PARTS {
        let path = format!("{src}/{file}");
        println!("cargo:rerun-if-changed={path}");
        let text = fs::read_to_string(&path).unwrap_or_default();
        let (name, kind) = shape(want).unwrap();
        println!("cargo:rustc-check-cfg=cfg(has_{name})");
        let found = text.match_indices(&format!("pub fn {name}")).any(|(i, _)| shape(&text[i..]) == Some((name.clone(), kind.clone())));
        if found {
            println!("cargo:rustc-cfg=has_{name}");
        }
    }
}
