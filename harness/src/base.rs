//! Conversions between the values of a trace and real objects, and the guarded call.
pub use kzg::{
    FFTFr, FFTSettings, FFTSettingsPoly, FK20MultiSettings, FK20SingleSettings, Fr, G1Mul, G2Mul, KZGSettings as KzgTrait,
    Poly, PolyRecover, ZeroPoly, DAS, FFTG1, G1, G2,
};
pub use num_bigint::BigUint;
use serde_json::{json, Value};
use std::collections::HashMap;
pub use std::sync::Arc;
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use zkcrypto::fftsettings::ZkFFTSettings as Fs;
pub use zkcrypto::fk20::{ZkFK20MultiSettings, ZkFK20SingleSettings};
pub use zkcrypto::kzg_proofs::{generate_trusted_setup, KZGSettings as Ks};
pub use zkcrypto::kzg_types::{ZkG1Affine, ZkG1Projective, ZkG2Affine, ZkG2Projective};
pub use zkcrypto::poly::ZPoly;
pub use zkcrypto::zkfr::blsScalar as S;

pub enum Fail {
    /// the library does not do what the specification says
    Mismatch(String),
    /// the driver cannot interpret the trace
    Driver(String),
}
pub type Res = Result<(), Fail>;
pub fn mismatch<T>(s: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Mismatch(s.into()))
}
pub fn driver<T>(s: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Driver(s.into()))
}

#[derive(Debug, Clone)]
pub struct Op {
    pub name: String,
    pub n: Vec<i64>,
    pub a: Vec<Vec<BigUint>>,
    pub r: Vec<Vec<BigUint>>,
    pub ok: String,
}

pub fn int(v: &Value) -> Result<BigUint, String> {
    let s = match v {
        Value::Object(m) => m.get("#bigint").and_then(|x| x.as_str()).unwrap_or("").to_string(),
        Value::Number(n) => n.to_string(),
        _ => String::new(),
    };
    s.parse::<BigUint>().map_err(|_| format!("not a natural number: {v}"))
}
pub fn ints(v: &Value) -> Result<Vec<BigUint>, String> {
    v.as_array().ok_or("not a list")?.iter().map(int).collect()
}
pub fn lists(v: &Value) -> Result<Vec<Vec<BigUint>>, String> {
    v.as_array().ok_or("not a list")?.iter().map(ints).collect()
}
/// a state variable by its unqualified name
pub fn var<'a>(st: &'a Value, name: &str) -> Option<&'a Value> {
    st.as_object()?.iter().find(|(k, _)| k.rsplit("::").next() == Some(name)).map(|(_, v)| v)
}
pub fn simplify(v: &Value) -> Value {
    match v {
        Value::Object(m) if m.contains_key("#bigint") => m["#bigint"].clone(),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), simplify(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(simplify).collect()),
        _ => json!(v),
    }
}

impl Op {
    pub fn parse(v: &Value) -> Result<Op, String> {
        let small = ints(&v["n"])?;
        Ok(Op {
            name: v["name"].as_str().ok_or("no call name")?.to_string(),
            n: small.iter().map(|x| x.to_string().parse::<i64>().map_err(|e| e.to_string())).collect::<Result<_, _>>()?,
            a: lists(&v["a"])?,
            r: lists(&v["r"])?,
            ok: v["ok"].as_str().ok_or("no outcome")?.to_string(),
        })
    }
    pub fn u(&self, i: usize) -> usize {
        self.n[i] as usize
    }
    /// i-th argument vector as scalars
    pub fn frs(&self, i: usize) -> Vec<S> {
        self.a[i].iter().map(fr).collect()
    }
    pub fn flag(&self, i: usize) -> bool {
        self.n[i] != 0
    }
}

pub enum Out<T> {
    Val(T),
    Err(String),
    Panic(String),
}
fn text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}
/// make a call of the library; an abort is an outcome like any other
pub fn call<T>(f: impl FnOnce() -> Result<T, String>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Out::Val(v),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(text(p)),
    }
}
pub fn plain<T>(f: impl FnOnce() -> T) -> Out<T> {
    call(|| Ok(f()))
}
pub const ERRED: &str = "a value is specified, the call returned the error";
pub const ABORTED: &str = "a value is specified, the call aborted";
/// a function that is replayed only where it exists does not
pub const GONE: &str = "no such function";
pub const ANSWERED: &str = "a refusal is specified, the call returned a value";
/// compare the kind of outcome with the specified one; Some(value) if a value was specified and returned
pub fn outcome<T>(op: &Op, out: Out<T>) -> Result<Option<T>, Fail> {
    match (op.ok.as_str(), out) {
        ("ok", Out::Val(v)) => Ok(Some(v)),
        ("ok", Out::Err(e)) => mismatch(format!("{ERRED} {e:?}")),
        ("ok", Out::Panic(e)) => mismatch(format!("{ABORTED}: {e}")),
        ("err", Out::Err(_)) => Ok(None),
        ("err", Out::Val(_)) => mismatch("an error is specified, the call returned a value"),
        ("err", Out::Panic(e)) => mismatch(format!("an error is specified, the call aborted: {e}")),
        ("ref", Out::Val(_)) => mismatch(ANSWERED),
        ("ref", _) => Ok(None),
        (o, _) => driver(format!("unknown outcome {o}")),
    }
}

pub fn words<const N: usize>(v: &BigUint) -> [u64; N] {
    let d = v.to_u64_digits();
    assert!(d.len() <= N, "integer too large");
    let mut r = [0u64; N];
    r[..d.len()].copy_from_slice(&d);
    r
}
pub fn big(w: &[u64]) -> BigUint {
    w.iter().rev().fold(BigUint::from(0u8), |acc, x| (acc << 64) + BigUint::from(*x))
}
pub fn order() -> BigUint {
    "52435875175126190479447740508185965837690552500527637822603658699938581184513".parse().unwrap()
}
pub fn le_bytes<const N: usize>(v: &BigUint) -> [u8; N] {
    let d = v.to_bytes_le();
    assert!(d.len() <= N, "integer too large");
    let mut r = [0u8; N];
    r[..d.len()].copy_from_slice(&d);
    r
}
pub fn be_bytes<const N: usize>(v: &BigUint) -> [u8; N] {
    let mut r = le_bytes::<N>(v);
    r.reverse();
    r
}
pub fn fr(v: &BigUint) -> S {
    S::from_u64_arr(&words::<4>(v))
}
pub fn frv(x: &S) -> BigUint {
    big(&x.to_u64_arr())
}
pub fn frvs(x: &[S]) -> Vec<BigUint> {
    x.iter().map(frv).collect()
}
pub fn poly(v: &[BigUint]) -> ZPoly {
    let mut p = ZPoly::new(v.len()).unwrap();
    for (i, x) in v.iter().enumerate() {
        p.set_coeff_at(i, &fr(x));
    }
    p
}
pub fn short(v: &[BigUint]) -> String {
    let s: Vec<String> = v.iter().take(6).map(|x| x.to_string()).collect();
    format!("[{}{}] (length {})", s.join(", "), if v.len() > 6 { ", ..." } else { "" }, v.len())
}
/// a scalar vector must equal the specified one
pub fn same(what: &str, got: &[BigUint], want: &[BigUint]) -> Res {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b);
    let extra = match at {
        Some(i) => format!("; first difference at {i}: {} instead of {}", got[i], want[i]),
        None => String::new(),
    };
    mismatch(format!("{what}: {} returned, {} specified{extra}", short(got), short(want)))
}
pub fn same_bool(what: &str, got: bool, want: &BigUint) -> Res {
    if got == (*want != BigUint::from(0u8)) {
        Ok(())
    } else {
        mismatch(format!("{what}: {got} returned, {} specified", !got))
    }
}

/// affine coordinates of a point, canonically encoded
pub fn g1_bytes(p: &ZkG1Projective) -> Vec<u8> {
    ZkG1Affine::from(p).to_uncompressed().to_vec()
}
pub fn g2_bytes(p: &ZkG2Projective) -> Vec<u8> {
    ZkG2Affine::from(p).to_uncompressed().to_vec()
}
fn ref_scalar(v: &BigUint) -> bls12_381::Scalar {
    bls12_381::Scalar::from_raw(words::<4>(v))
}
thread_local! {
    static REF1: std::cell::RefCell<HashMap<BigUint, Vec<u8>>> = Default::default();
    static REF2: std::cell::RefCell<HashMap<BigUint, Vec<u8>>> = Default::default();
}
/// the element with logarithm v according to the reference implementation
pub fn ref1(v: &BigUint) -> Vec<u8> {
    REF1.with(|c| {
        c.borrow_mut()
            .entry(v.clone())
            .or_insert_with(|| bls12_381::G1Affine::from(bls12_381::G1Projective::generator() * ref_scalar(v)).to_uncompressed().to_vec())
            .clone()
    })
}
pub fn ref2(v: &BigUint) -> Vec<u8> {
    REF2.with(|c| {
        c.borrow_mut()
            .entry(v.clone())
            .or_insert_with(|| bls12_381::G2Affine::from(bls12_381::G2Projective::generator() * ref_scalar(v)).to_uncompressed().to_vec())
            .clone()
    })
}
/// a point with logarithm v, in one of several representations
/// multiplication in the first group splits the scalar k into k1 + k2 (X^2 - 1) and forgets to carry when it rounds up a k2
/// whose lowest word is full (a known finding)
pub fn forgets_to_carry(k: &BigUint) -> bool {
    let v = BigUint::parse_bytes(b"17c6becf1e01faadd63f6e522f6cfee2f", 16).unwrap();
    let b = k * v;
    (&b >> 255u32) & BigUint::from(1u8) == BigUint::from(1u8) && (b >> 256u32) & BigUint::from(u64::MAX) == BigUint::from(u64::MAX)
}
fn g1_at(v: &BigUint) -> ZkG1Projective {
    if forgets_to_carry(v) {
        return g1_of_reference(v).unwrap();
    }
    G1Mul::mul(&<ZkG1Projective as G1>::generator(), &fr(v))
}
pub fn g1_make(v: &BigUint, rep: i64) -> ZkG1Projective {
    let p = g1_at(v);
    match rep {
        0 => p,
        1 => {
            let away = g1_at(&BigUint::from(77u8));
            let mut q = G1::sub(&p, &away);
            q.add_or_dbl(&away)
        }
        3 => -g1_at(&((order() - v) % order())),
        4 => G1Mul::mul(&g1_at(&(v + order() * (v % 2u8) >> 1)), &fr(&BigUint::from(2u8))),
        _ => ZkG1Projective::from(ZkG1Affine::from(&p)),
    }
}
/// the point with logarithm v without calling the library's multiplication
fn g1_of_reference(v: &BigUint) -> Result<ZkG1Projective, String> {
    let mut b = [0; 96];
    b.copy_from_slice(&ref1(v));
    Option::<ZkG1Affine>::from(ZkG1Affine::from_uncompressed_unchecked(&b)).map(ZkG1Projective::from).ok_or("a reference point cannot be decoded".into())
}
pub fn g2_make(v: &BigUint, rep: i64) -> ZkG2Projective {
    let g = <ZkG2Projective as G2>::generator();
    let p = G2Mul::mul(&g, &fr(v));
    match rep {
        0 => p,
        1 => {
            let mut q = G2::sub(&p, &G2Mul::mul(&g, &fr(&BigUint::from(77u8))));
            q.add_or_dbl(&G2Mul::mul(&g, &fr(&BigUint::from(77u8))))
        }
        3 => -G2Mul::mul(&g, &fr(&((order() - v) % order()))),
        4 => G2Mul::mul(&G2Mul::mul(&g, &fr(&(v + order() * (v % 2u8) >> 1))), &fr(&BigUint::from(2u8))),
        _ => ZkG2Projective::from(ZkG2Affine::from(&p)),
    }
}
pub fn same_g1(what: &str, p: &ZkG1Projective, v: &BigUint) -> Res {
    if g1_bytes(p) == ref1(v) {
        Ok(())
    } else {
        mismatch(format!("{what} is not the element with logarithm {v}"))
    }
}
pub fn same_g1s(what: &str, p: &[ZkG1Projective], v: &[BigUint]) -> Res {
    if p.len() != v.len() {
        return mismatch(format!("{what}: {} elements instead of {}", p.len(), v.len()));
    }
    for (i, (p, v)) in p.iter().zip(v).enumerate() {
        same_g1(&format!("{what} {i}"), p, v)?;
    }
    Ok(())
}
pub fn same_g2(what: &str, p: &ZkG2Projective, v: &BigUint) -> Res {
    if g2_bytes(p) == ref2(v) {
        Ok(())
    } else {
        mismatch(format!("{what} is not the element with logarithm {v}"))
    }
}
pub fn text_of(r: Res) -> Result<(), String> {
    match r {
        Ok(()) => Ok(()),
        Err(Fail::Mismatch(m)) | Err(Fail::Driver(m)) => Err(m),
    }
}

#[derive(Default)]
pub struct Ctx {
    pub fr: Vec<S>,
    pub missing: Vec<usize>,
    pub polys: Vec<ZPoly>,
    pub g1: Vec<ZkG1Projective>,
    pub g2: Vec<ZkG2Projective>,
    pub low: crate::low::Low,
    pub fs: HashMap<usize, Fs>,
    pub ks: HashMap<(usize, usize, BigUint), Arc<Ks>>,
    /// scale, size and secret of the setup in use
    pub setup: (usize, usize, BigUint),
    pub fk: Option<crate::fk::Fk>,
    /// length of the polynomials the amortising settings are for
    pub fk_len: usize,
    pub flow: crate::flow::Flow,
}

impl Ctx {
    pub fn settings(&mut self, scale: usize) -> Result<Fs, Fail> {
        if !self.fs.contains_key(&scale) {
            match call(|| Fs::new(scale)) {
                Out::Val(v) => {
                    self.fs.insert(scale, v);
                }
                _ => return mismatch(format!("transform settings of scale {scale} cannot be built")),
            }
        }
        Ok(self.fs[&scale].clone())
    }
    /// settings over a setup of n points with secret s
    pub fn kzg(&mut self, scale: usize, n: usize, s: &BigUint) -> Result<Arc<Ks>, Fail> {
        let key = (scale, n, s.clone());
        if !self.ks.contains_key(&key) {
            let fs = self.settings(scale)?;
            match call(|| {
                let (g1, g2) = generate_trusted_setup(n, le_bytes::<32>(s));
                Ks::new(&g1, &g2, n, &fs)
            }) {
                Out::Val(k) => {
                    self.ks.insert(key.clone(), Arc::new(k));
                }
                Out::Err(e) | Out::Panic(e) => return mismatch(format!("no settings for {n} points: {e}")),
            }
        }
        Ok(self.ks[&key].clone())
    }
    pub fn current(&mut self) -> Result<Arc<Ks>, Fail> {
        let (k, n, s) = self.setup.clone();
        self.kzg(k, n, &s)
    }
    /// continue from the abstract state, after a call that ran into a known finding
    pub fn adopt(&mut self, st: &Value) -> Result<(), String> {
        if let Some(v) = var(st, "regs") {
            self.fr = ints(v)?.iter().map(fr).collect();
        }
        if let Some(v) = var(st, "polys") {
            self.polys = lists(v)?.iter().map(|c| poly(c)).collect();
        }
        if let Some(v) = var(st, "g1regs") {
            self.g1 = ints(v)?.iter().map(g1_of_reference).collect::<Result<_, _>>()?;
        }
        Ok(())
    }
    /// the projection of the real registers must be the abstract state
    pub fn compare_state(&self, st: &Value) -> Result<(), String> {
        if let Some(v) = var(st, "regs") {
            let want = ints(v)?;
            let got = frvs(&self.fr);
            if got != want {
                let i = (0..want.len().min(got.len())).find(|i| got[*i] != want[*i]);
                return Err(match i {
                    Some(i) => format!("scalar register {i} holds {} instead of {}", got[i], want[i]),
                    None => format!("{} registers instead of {}", got.len(), want.len()),
                });
            }
        }
        if let Some(v) = var(st, "polys") {
            let want = lists(v)?;
            if want.len() != self.polys.len() {
                return Err(format!("{} polynomial registers instead of {}", self.polys.len(), want.len()));
            }
            for (i, (p, w)) in self.polys.iter().zip(&want).enumerate() {
                text_of(same(&format!("polynomial register {i}"), &frvs(p.get_coeffs()), w))?;
            }
        }
        if let Some(v) = var(st, "g1regs") {
            text_of(same_g1s("first-group register", &self.g1, &ints(v)?))?;
        }
        if let Some(v) = var(st, "g2regs") {
            let want = ints(v)?;
            if want.len() != self.g2.len() {
                return Err(format!("{} second-group registers instead of {}", self.g2.len(), want.len()));
            }
            for (i, (p, w)) in self.g2.iter().zip(&want).enumerate() {
                text_of(same_g2(&format!("second-group register {i}"), p, w))?;
            }
        }
        self.low.compare(st)
    }
}

/// one of the ways to write an operator
#[macro_export]
macro_rules! written {
    ($k:expr, $a:expr, $b:expr, $op:tt, $assign:tt) => {{
        let (a, b) = ($a, $b);
        match $k % 6 {
            0 => &a $op &b,
            1 => a $op &b,
            2 => &a $op b,
            3 => a $op b,
            4 => { let mut a = a; a $assign b; a }
            _ => { let mut a = a; a $assign &b; a }
        }
    }};
    ($k:expr, $a:expr, $b:expr, $op:tt) => {{
        let (a, b) = ($a, $b);
        match $k % 4 {
            0 => &a $op &b,
            1 => a $op &b,
            2 => &a $op b,
            _ => a $op b,
        }
    }};
}
/// all the ways to write an operator, which must agree
#[macro_export]
macro_rules! ways {
    ($a:expr, $b:expr, $op:tt $(, $assign:tt)?) => {{
        let (x, y) = ($a, $b);
        let r = $crate::written!(0, x, y, $op $(, $assign)?);
        for k in 1..6 {
            if $crate::written!(k, x, y, $op $(, $assign)?) != r {
                panic!("the ways to write an operator differ");
            }
        }
        r
    }};
}
