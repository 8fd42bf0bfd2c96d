//! Generators of field elements and points, shared parameters.
use crate::engine::Src;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, PrimeField};
use std::any::{Any, TypeId};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

pub type Pal = ark_pallas::Affine;
pub type Ves = ark_vesta::Affine;
pub type SecP = ark_secp256k1::Affine;
pub type SecQ = ark_secq256k1::Affine;

/// A field element: simple values, boundary values, or (mostly) uniformly random ones.
pub fn field<F: PrimeField>(s: &mut Src) -> F {
    match s.below(10) {
        0 => F::zero(),
        1 => F::one(),
        2 => F::from(s.below(16)),
        3 => -F::from(s.below(16)),
        4 => {
            let k = s.below(F::MODULUS_BIT_SIZE as u64);
            F::from(2u64).pow([k])
        }
        5 => F::from(s.u64()),
        _ => rand_field(s),
    }
}

/// Uniform (up to 2^-128).
pub fn rand_field<F: PrimeField>(s: &mut Src) -> F {
    let mut b = Vec::with_capacity(48);
    for _ in 0..6 {
        b.extend_from_slice(&s.u64().to_le_bytes());
    }
    F::from_le_bytes_mod_order(&b)
}

pub fn nonzero_field<F: PrimeField>(s: &mut Src) -> F {
    let f: F = field(s);
    if f.is_zero() { F::one() } else { f }
}

pub fn rand_nonzero<F: PrimeField>(s: &mut Src) -> F {
    let f: F = rand_field(s);
    if f.is_zero() { F::one() } else { f }
}

/// A point with unknown-to-the-test relation to the generators (hash-like multiple).
pub fn rand_point<C: AffineRepr>(s: &mut Src) -> C {
    let k: C::ScalarField = rand_nonzero(s);
    (C::generator() * k).into_affine()
}

pub fn show<F: Field>(f: &F) -> String {
    let t = format!("{}", f);
    if t.len() > 24 { format!("{}..({} digits)", &t[..8], t.len()) } else { t }
}

pub fn as_u64<F: PrimeField>(f: &F) -> Option<u64> {
    let b = f.into_bigint();
    let l = b.as_ref().to_vec();
    if l[1..].iter().all(|x| *x == 0) && b.num_bits() <= 64 { Some(l[0]) } else { None }
}

/// Process-wide cache of expensive parameters, keyed by type and a number.
pub fn cached<T: Any + Send + Sync>(key: usize, make: impl FnOnce() -> T) -> &'static T {
    type Cell = OnceLock<&'static (dyn Any + Send + Sync)>;
    static CACHE: OnceLock<Mutex<HashMap<(TypeId, usize), &'static Cell>>> = OnceLock::new();
    let m = CACHE.get_or_init(|| Mutex::new(HashMap::new()));
    let cell: &'static Cell = *m.lock().unwrap_or_else(|e| e.into_inner())
        .entry((TypeId::of::<T>(), key)).or_insert_with(|| Box::leak(Box::new(OnceLock::new())));
    // one thread builds, the others wait; a panic while building leaves the cell empty
    cell.get_or_init(|| Box::leak(Box::new(make()))).downcast_ref::<T>().unwrap()
}
pub fn bp_gens<C: AffineRepr>(cap: usize) -> &'static bulletproofs::BulletproofGens<C> {
    cached(cap, || bulletproofs::BulletproofGens::<C>::new(cap, 1))
}
pub fn pc_gens<C: AffineRepr>() -> &'static bulletproofs::PedersenGens<C> {
    cached(0, || bulletproofs::PedersenGens::<C>::default())
}

/// Plain double-and-add sum, independent of the library's multi-scalar multiplication.
pub fn naive_msm<C: AffineRepr>(pts: &[C], sc: &[C::ScalarField]) -> C {
    assert_eq!(pts.len(), sc.len());
    let mut acc = <C::Group as ark_std::Zero>::zero();
    for (p, k) in pts.iter().zip(sc) {
        acc += *p * *k;
    }
    acc.into_affine()
}
