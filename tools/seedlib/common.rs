// Shared by the demonstrations: statements are made and checked through the public API only.
#![allow(dead_code, unused_imports, non_snake_case)]
pub use ark_crypto_primitives::signature::{
    schnorr::{Parameters, PublicKey, Schnorr, SecretKey, Signature},
    SignatureScheme,
};
pub use ark_ec::{
    short_weierstrass::{Affine, Projective, SWCurveConfig},
    AffineRepr, CurveGroup,
};
pub use ark_ff::{BigInteger, Field, One, PrimeField, UniformRand, Zero};
pub use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
pub use blake2::Blake2s256;
pub use bulletproofs::r1cs::*;
pub use bulletproofs::{affine_from_bytes_tai, BulletproofGens, PedersenGens};
pub use merlin::Transcript;
pub use rand::{thread_rng, Rng};
pub use relations::curve_tree::*;

pub use ark_pallas::{Affine as PA, Fr, PallasConfig as P0, Projective as PP};
pub use ark_vesta::{Affine as VA, VestaConfig as P1};
pub type Fq = <PA as AffineRepr>::BaseField;

/// The value of `f`, or None if it panics.
pub fn calm<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

pub fn points(n: usize) -> Vec<PA> {
    (0..n).map(|_| PA::rand(&mut thread_rng())).collect()
}

pub fn params(n: usize) -> SelRerandParameters<P0, P1> {
    SelRerandParameters::new(n, n)
}

pub type Opened<const L: usize> = (SelectAndRerandomizePath<L, P0, P1>, Fr, R1CSProof<PA>, R1CSProof<VA>);

pub fn prove_leaf<const L: usize, const M: usize>(
    tree: &CurveTree<L, M, P0, P1>,
    index: usize,
    p: &SelRerandParameters<P0, P1>,
) -> Opened<L> {
    let mut pe = Prover::new(&p.even_parameters.pc_gens, Transcript::new(b"demo"));
    let mut po = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(b"demo"));
    let (path, s) = tree.select_and_rerandomize_prover_gadget(index, 0, &mut pe, &mut po, p, &mut thread_rng());
    let e = pe.prove(&p.even_parameters.bp_gens).expect("even proof");
    let o = po.prove(&p.odd_parameters.bp_gens).expect("odd proof");
    (path, s, e, o)
}

pub fn verify_leaf<const L: usize, const M: usize>(
    tree: &CurveTree<L, M, P0, P1>,
    opened: &Opened<L>,
    p: &SelRerandParameters<P0, P1>,
) -> bool {
    let mut ve = Verifier::new(Transcript::new(b"demo"));
    let mut vo = Verifier::new(Transcript::new(b"demo"));
    tree.select_and_rerandomize_verifier_gadget(&mut ve, &mut vo, opened.0.clone(), p);
    ve.verify(&opened.2, &p.even_parameters.pc_gens, &p.even_parameters.bp_gens).is_ok()
        && vo.verify(&opened.3, &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens).is_ok()
}

pub type OpenedMulti<const L: usize, const M: usize> =
    (SelectAndRerandomizeMultiPath<L, M, P0, P1>, [Fr; M], R1CSProof<PA>, R1CSProof<VA>);

pub fn prove_leaves<const L: usize, const M: usize>(
    tree: &CurveTree<L, M, P0, P1>,
    indices: [usize; M],
    p: &SelRerandParameters<P0, P1>,
) -> OpenedMulti<L, M> {
    let mut pe = Prover::new(&p.even_parameters.pc_gens, Transcript::new(b"demo"));
    let mut po = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(b"demo"));
    let (path, s) = tree.batched_select_and_rerandomize_prover_gadget(indices, &mut pe, &mut po, p, &mut thread_rng());
    let e = pe.prove(&p.even_parameters.bp_gens).expect("even proof");
    let o = po.prove(&p.odd_parameters.bp_gens).expect("odd proof");
    (path, s, e, o)
}

pub fn verify_leaves<const L: usize, const M: usize>(
    tree: &CurveTree<L, M, P0, P1>,
    opened: &OpenedMulti<L, M>,
    p: &SelRerandParameters<P0, P1>,
) -> bool {
    let mut ve = Verifier::new(Transcript::new(b"demo"));
    let mut vo = Verifier::new(Transcript::new(b"demo"));
    tree.batched_select_and_rerandomize_verifier_gadget(&mut ve, &mut vo, opened.0.clone(), p);
    ve.verify(&opened.2, &p.even_parameters.pc_gens, &p.even_parameters.bp_gens).is_ok()
        && vo.verify(&opened.3, &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens).is_ok()
}

/// Proves on Vesta the statement made by `f`, which is accepted or not by the verifier with `g`.
pub fn accepted(
    gens: usize,
    f: impl FnOnce(&mut Prover<Transcript, PA>),
    g: impl FnOnce(&mut Verifier<Transcript, PA>),
) -> bool {
    let pc = PedersenGens::<PA>::default();
    let bp = BulletproofGens::<PA>::new(gens, 1);
    let mut p = Prover::new(&pc, Transcript::new(b"demo"));
    f(&mut p);
    let proof = p.prove(&bp).expect("a proof");
    let mut v = Verifier::new(Transcript::new(b"demo"));
    g(&mut v);
    v.verify(&proof, &pc, &bp).is_ok()
}

pub fn enc<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut b = Vec::new();
    t.serialize_compressed(&mut b).unwrap();
    b
}

/// A prover which takes the values of variables from a list where none are given.
pub struct Forge<'a, C: AffineRepr> {
    pub p: &'a mut Prover<'static, Transcript, C>,
    pub values: std::collections::VecDeque<C::ScalarField>,
    pub gates: std::collections::VecDeque<(C::ScalarField, C::ScalarField)>,
}
impl<'a, C: AffineRepr> ConstraintSystem<C::ScalarField> for Forge<'a, C> {
    fn transcript(&mut self) -> &mut Transcript {
        self.p.transcript()
    }
    fn multiply(
        &mut self,
        l: LinearCombination<C::ScalarField>,
        r: LinearCombination<C::ScalarField>,
    ) -> (Variable<C::ScalarField>, Variable<C::ScalarField>, Variable<C::ScalarField>) {
        self.p.multiply(l, r)
    }
    fn allocate(&mut self, a: Option<C::ScalarField>) -> Result<Variable<C::ScalarField>, R1CSError> {
        let a = a.or_else(|| self.values.pop_front()).unwrap_or_default();
        self.p.allocate(Some(a))
    }
    fn allocate_multiplier(
        &mut self,
        a: Option<(C::ScalarField, C::ScalarField)>,
    ) -> Result<(Variable<C::ScalarField>, Variable<C::ScalarField>, Variable<C::ScalarField>), R1CSError> {
        let a = a.or_else(|| self.gates.pop_front()).unwrap_or_default();
        self.p.allocate_multiplier(Some(a))
    }
    fn metrics(&self) -> Metrics {
        self.p.metrics()
    }
    fn constrain(&mut self, lc: LinearCombination<C::ScalarField>) {
        self.p.constrain(lc)
    }
}

/// Whether a proof over C made with the given values is accepted; None if none could be made.
pub fn forged<C: AffineRepr>(
    gens: usize,
    values: Vec<C::ScalarField>,
    gates: Vec<(C::ScalarField, C::ScalarField)>,
    f: impl FnOnce(&mut Forge<C>),
    g: impl FnOnce(&mut Verifier<Transcript, C>),
) -> bool {
    let pc: &'static PedersenGens<C> = Box::leak(Box::new(PedersenGens::default()));
    let bp = BulletproofGens::<C>::new(gens, 1);
    let mut p = Prover::new(pc, Transcript::new(b"demo"));
    let made = calm(|| f(&mut Forge { p: &mut p, values: values.into(), gates: gates.into() })).is_some();
    let proof = match calm(|| p.prove(&bp)) {
        Some(Ok(proof)) if made => proof,
        _ => return false,
    };
    let mut v = Verifier::new(Transcript::new(b"demo"));
    g(&mut v);
    v.verify(&proof, pc, &bp).is_ok()
}

pub use relations::coin::*;
pub type Sp = Parameters<PP, Blake2s256>;
pub type Key = (PublicKey<PP>, SecretKey<PP>);
pub type Wallet = (SelRerandParameters<P0, P1>, Sp, Vec<SpendingInfo<P0, PP>>, CurveTree<4, 1, P0, P1>, Key);

/// Coins of one owner with the given values, in a tree.
pub fn wallet(values: &[u64]) -> Wallet {
    let mut rng = thread_rng();
    let p = params(4096);
    let sp = Schnorr::<PP, Blake2s256>::setup(&mut rng).unwrap();
    let (pk, sk) = Schnorr::keygen(&sp, &mut rng).unwrap();
    let mut set = vec![];
    let infos = values
        .iter()
        .enumerate()
        .map(|(index, v)| {
            let (coin_aux, c) = Coin::<P0, PP>::new(*v, &pk, &sp, &p.even_parameters, &mut rng);
            set.push(c);
            let randomized_pk = Coin::<P0, PP>::rerandomized_pk(&pk, &coin_aux.pk_randomness, &sp);
            SpendingInfo { index, coin_aux, randomized_pk, sk: SecretKey(sk.0) }
        })
        .collect();
    let tree = CurveTree::<4, 1, P0, P1>::from_set(&set, &p, Some(2));
    (p, sp, infos, tree, (pk, sk))
}

pub fn make_pour(w: &Wallet, v0: u64, v1: u64) -> SignedTx<P0, P1, PP> {
    let (p, sp, infos, tree, (pk, _)) = w;
    let pe = Prover::new(&p.even_parameters.pc_gens, Transcript::new(b"demo"));
    let po = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(b"demo"));
    prove_pour(pe, po, p, tree, &infos[0], &infos[1], v0, *pk, v1, *pk, sp, &mut thread_rng())
}

pub fn check_vts(w: &Wallet, vts: (VerificationTuple<PA>, VerificationTuple<VA>)) -> bool {
    let (even, odd) = (&w.0.even_parameters, &w.0.odd_parameters);
    batch_verify(vec![vts.0], &even.pc_gens, &even.bp_gens).is_ok()
        && batch_verify(vec![vts.1], &odd.pc_gens, &odd.bp_gens).is_ok()
}

pub fn tx_accepted(w: &Wallet, tx: SignedTx<P0, P1, PP>) -> bool {
    calm(|| check_vts(w, tx.verification_gadget::<4>(b"demo", &w.0, &w.3, &w.1))).unwrap_or(false)
}

pub fn pour_accepted(w: &Wallet, pour: Pour<4, P0, P1, PP>) -> bool {
    calm(|| check_vts(w, pour.verification_gadget(b"demo", &w.0, &w.3))).unwrap_or(false)
}

pub fn pour_of(tx: &SignedTx<P0, P1, PP>) -> Pour<4, P0, P1, PP> {
    Pour::deserialize_compressed(tx.pour_bytes.as_slice()).unwrap()
}
