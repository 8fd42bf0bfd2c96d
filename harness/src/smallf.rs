//! Tiny prime fields, on which all assignments of a small gadget can be enumerated.
use ark_ff::fields::{Fp64, MontBackend, MontConfig};
#[derive(MontConfig)]
#[modulus = "7"]
#[generator = "3"]
pub struct C7;
pub type F7 = Fp64<MontBackend<C7, 1>>;
#[derive(MontConfig)]
#[modulus = "13"]
#[generator = "2"]
pub struct C13;
pub type F13 = Fp64<MontBackend<C13, 1>>;
#[derive(MontConfig)]
#[modulus = "97"]
#[generator = "5"]
pub struct C97;
pub type F97 = Fp64<MontBackend<C97, 1>>;

/// A curve of prime order 1069, in which discrete logarithms can be looked up.
#[derive(MontConfig)]
#[modulus = "1021"]
#[generator = "10"]
pub struct C1021;
pub type F1021 = Fp64<MontBackend<C1021, 1>>;
#[derive(MontConfig)]
#[modulus = "1069"]
#[generator = "6"]
pub struct C1069;
pub type F1069 = Fp64<MontBackend<C1069, 1>>;
#[derive(Clone, Copy, Default, PartialEq, Eq)]
pub struct ToyConfig;
impl ark_ec::CurveConfig for ToyConfig {
    type BaseField = F1021;
    type ScalarField = F1069;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: F1069 = ark_ff::MontFp!("1");
}
impl ark_ec::short_weierstrass::SWCurveConfig for ToyConfig {
    const COEFF_A: F1021 = ark_ff::MontFp!("0");
    const COEFF_B: F1021 = ark_ff::MontFp!("10");
    const GENERATOR: ark_ec::short_weierstrass::Affine<Self> =
        ark_ec::short_weierstrass::Affine::new_unchecked(ark_ff::MontFp!("1"), ark_ff::MontFp!("197"));
}
pub type Toy = ark_ec::short_weierstrass::Affine<ToyConfig>;
pub const TOY_ORDER: u64 = 1069;
/// Discrete logarithm with respect to the generator.
pub fn toy_log(p: &Toy) -> F1069 {
    use ark_ec::AffineRepr;
    let mut q = <Toy as AffineRepr>::Group::default();
    for k in 0..TOY_ORDER {
        if q == *p { return F1069::from(k); }
        q += Toy::generator();
    }
    panic!("not on the toy curve")
}
