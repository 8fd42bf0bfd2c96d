//! Coins, pours and signed transactions: worlds of owners, coins and trees; verdicts; a pour prover of
//! our own (calibrated against the library's verifier) which can deviate.
use crate::common::*;
use crate::engine::{guarded, Src};
use crate::mockcs::*;
use crate::tree::*;
use ark_crypto_primitives::signature::schnorr::{Parameters, PublicKey, Schnorr, SecretKey};
use ark_crypto_primitives::signature::SignatureScheme;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use blake2::Blake2s256;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use rand::rngs::StdRng;
use rand::SeedableRng;
use relations::coin::*;
use relations::curve_tree::*;
use relations::curve_tree_prover::CurveTreeWitnessPath;
use relations::range_proof::range_proof;
use std::collections::HashMap;

pub type Sp<C> = Parameters<C, Blake2s256>;
pub const DOMAIN: &[u8] = b"vh pour";

/// Declares a function generic over a curve cycle, L and the signature group.
#[macro_export]
macro_rules! cfn {
    ($(#[$a:meta])* $v:vis fn $name:ident [L] ($($arg:tt)*) -> $ret:ty $body:block) => {
        $(#[$a])* $v fn $name<const L: usize, F0: PrimeField, F1: PrimeField,
            P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync,
            P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync, C: CurveGroup>($($arg)*) -> $ret
            where C::ScalarField: PrimeField $body
    };
    ($(#[$a:meta])* $v:vis fn $name:ident [] ($($arg:tt)*) -> $ret:ty $body:block) => {
        $(#[$a])* $v fn $name<F0: PrimeField, F1: PrimeField,
            P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync,
            P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync, C: CurveGroup>($($arg)*) -> $ret
            where C::ScalarField: PrimeField $body
    };
}

pub fn bytes<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut b = vec![];
    t.serialize_compressed(&mut b).unwrap();
    b
}

/// The spending tag of a (rerandomized) key, from its definition.
pub fn tag_of<F: PrimeField, C: CurveGroup>(pk: &PublicKey<C>) -> F {
    use sha3::{Digest, Sha3_512};
    let mut h = Sha3_512::new();
    h.update(bytes(pk));
    F::from_le_bytes_mod_order(h.finalize().as_slice())
}

#[derive(Clone)]
pub struct Key<C: CurveGroup> { pub pk: C::Affine, pub sk: C::ScalarField }

/// A coin someone owns.
pub struct Owned<P0: SWCurveConfig, C: CurveGroup> {
    pub value: u64,
    pub tag: P0::ScalarField,
    pub blinding: P0::ScalarField,
    pub pk_randomness: C::ScalarField,
    pub commitment: Affine<P0>,
    pub rpk: C::Affine,
    pub key: Key<C>,
    pub index: usize,
}
impl<P0: SWCurveConfig, C: CurveGroup> Clone for Owned<P0, C> {
    fn clone(&self) -> Self {
        Owned { value: self.value, tag: self.tag, blinding: self.blinding, pk_randomness: self.pk_randomness, commitment: self.commitment, rpk: self.rpk, key: self.key.clone(), index: self.index }
    }
}
impl<P0: SWCurveConfig + Clone, C: CurveGroup> Owned<P0, C> {
    pub fn coin(&self) -> Coin<P0, C> {
        Coin { value: self.value, tag: self.tag, blinding: self.blinding, pk_randomness: self.pk_randomness }
    }
    pub fn info(&self) -> SpendingInfo<P0, C> {
        SpendingInfo { index: self.index, coin_aux: self.coin(), randomized_pk: self.rpk, sk: SecretKey(self.key.sk) }
    }
}

pub fn gen_value(s: &mut Src) -> u64 {
    match s.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => 1u64 << s.below(64),
        3 => u64::MAX - s.below(3),
        4 => 1 + s.below(50),
        _ => s.u64(),
    }
}

pub fn gen_key<C: CurveGroup>(s: &mut Src, sp: &Sp<C>) -> Key<C> where C::ScalarField: PrimeField {
    let sk: C::ScalarField = if s.chance(1, 6) { C::ScalarField::from(1 + s.below(3)) } else { rand_nonzero(s) };
    Key { pk: (sp.generator * sk).into_affine(), sk }
}

pub fn gen_sp<C: CurveGroup>(s: &mut Src) -> Sp<C> {
    Schnorr::<C, Blake2s256>::setup(&mut StdRng::seed_from_u64(s.u64())).unwrap()
}

cfn! { pub fn new_coin[](s: &mut Src, key: &Key<C>, value: u64, sp: &Sp<C>, p: &SelRerandParameters<P0, P1>) -> Owned<P0, C> {
    let mut rng = StdRng::seed_from_u64(s.u64());
    let (c, commitment) = Coin::<P0, C>::new(value, &key.pk, sp, &p.even_parameters, &mut rng);
    let rpk = Coin::<P0, C>::rerandomized_pk(&key.pk, &c.pk_randomness, sp);
    Owned { value: c.value, tag: c.tag, blinding: c.blinding, pk_randomness: c.pk_randomness, commitment, rpk, key: key.clone(), index: 0 }
} }

pub struct World<const L: usize, P0: SWCurveConfig + Copy + Send + Sync, P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy + Send + Sync, C: CurveGroup> {
    pub sp: Sp<C>,
    pub p: &'static SelRerandParameters<P0, P1>,
    pub coins: Vec<Owned<P0, C>>,
    pub set: Vec<Affine<P0>>,
    pub height: usize,
    pub tree: CurveTree<L, 1, P0, P1>,
}

cfn! {
/// A tree holding a few owned coins among other leaves.
pub fn gen_world[L](s: &mut Src, values: &[u64], len: usize, max_height: usize) -> World<L, P0, P1, C> {
    let p = params::<_, _, P0, P1>(len);
    let sp = gen_sp::<C>(s);
    let same_owner = s.chance(1, 3);
    let k0 = gen_key::<C>(s, &sp);
    let mut coins: Vec<Owned<P0, C>> = values.iter().enumerate().map(|(i, v)| {
        let k = if i == 0 || same_owner { k0.clone() } else { gen_key::<C>(s, &sp) };
        new_coin::<_, _, P0, P1, C>(s, &k, *v, &sp, p)
    }).collect();
    let hmax = if s.chance(1, 4) { max_height } else { max_height.min(2) };
    let h = 1 + s.usize(hmax);
    let cap = L.pow(h as u32);
    let n = (values.len() + s.usize((cap + 1).saturating_sub(values.len()).clamp(1, 12))).min(cap);
    let n = if s.chance(1, 4) { cap.min(40).max(values.len()) } else { n };
    let mut set = gen_set::<P0>(s, n, &p.even_parameters.delta);
    let mut used: Vec<usize> = vec![];
    for c in coins.iter_mut() {
        let mut i = if s.chance(1, 4) { n - 1 } else { s.usize(n) };
        while used.contains(&i) { i = (i + 1) % n; }
        used.push(i);
        c.index = i;
        set[i] = c.commitment;
    }
    let height = if s.bool() { Some(h) } else { None };
    let tree = CurveTree::<L, 1, P0, P1>::from_set(&set, p, height);
    World { sp, p, coins, set, height: tree.height(), tree }
} }

cfn! { pub fn pour[L](w: &World<L, P0, P1, C>, i0: &SpendingInfo<P0, C>, i1: &SpendingInfo<P0, C>, v: [u64; 2], pk: [C::Affine; 2], seed: u64) -> Result<SignedTx<P0, P1, C>, String> {
    let pe = Prover::<Transcript, Affine<P0>>::new(&w.p.even_parameters.pc_gens, Transcript::new(DOMAIN));
    let po = Prover::<Transcript, Affine<P1>>::new(&w.p.odd_parameters.pc_gens, Transcript::new(DOMAIN));
    guarded(|| prove_pour(pe, po, w.p, &w.tree, i0, i1, v[0], pk[0], v[1], pk[1], &w.sp, &mut StdRng::seed_from_u64(seed)))
} }

cfn! {
/// The verdict of the library on a transaction. Panics count as rejection.
pub fn verdict[L](tx: &SignedTx<P0, P1, C>, domain: &'static [u8], tree: &CurveTree<L, 1, P0, P1>, p: &SelRerandParameters<P0, P1>, sp: &Sp<C>) -> Result<(), String> {
    let (e, o) = guarded(|| tx.clone().verification_gadget::<L>(domain, p, tree, sp)).map_err(|e| format!("verification panicked: {}", e))?;
    guarded(|| batch_verify(vec![e], &p.even_parameters.pc_gens, &p.even_parameters.bp_gens)).map_err(|e| format!("batch panicked: {}", e))?.map_err(|e| format!("even {:?}", e))?;
    guarded(|| batch_verify(vec![o], &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens)).map_err(|e| format!("batch panicked: {}", e))?.map_err(|e| format!("odd {:?}", e))
} }

/// A transaction as bytes in our own layout: four scalars and the payload.
#[derive(Clone)]
pub struct RawTx<C: CurveGroup> {
    pub sig: [C::ScalarField; 4],
    pub pour: Vec<u8>,
}
cfn! { pub fn raw_of[](tx: &SignedTx<P0, P1, C>) -> RawTx<C> {
    RawTx { sig: [tx.signature_prover_response_0, tx.signature_verifier_challenge_0, tx.signature_prover_response_1, tx.signature_verifier_challenge_1], pour: tx.pour_bytes.clone() }
} }
cfn! { pub fn tx_of[](r: &RawTx<C>, template: &SignedTx<P0, P1, C>) -> SignedTx<P0, P1, C> {
    let mut t = template.clone();
    t.signature_prover_response_0 = r.sig[0];
    t.signature_verifier_challenge_0 = r.sig[1];
    t.signature_prover_response_1 = r.sig[2];
    t.signature_verifier_challenge_1 = r.sig[3];
    t.pour_bytes = r.pour.clone();
    t
} }
cfn! {
/// A transaction with no content, to be filled in.
pub fn empty_tx[]() -> SignedTx<P0, P1, C> {
    let mut b = vec![];
    for _ in 0..4 { C::ScalarField::zero().serialize_compressed(&mut b).unwrap(); }
    Vec::<u8>::new().serialize_compressed(&mut b).unwrap();
    SignedTx::<P0, P1, C>::deserialize_compressed(b.as_slice()).unwrap()
} }

/// Signs for a rerandomized key the way owners do.
pub fn sign<C: CurveGroup>(sp: &Sp<C>, sk: C::ScalarField, pk_randomness: &C::ScalarField, msg: &[u8], seed: u64) -> [C::ScalarField; 2]
where C::ScalarField: PrimeField {
    let mut rng = StdRng::seed_from_u64(seed);
    let g = Schnorr::<C, Blake2s256>::sign(sp, &SecretKey(sk), msg, &mut rng).unwrap();
    let g = Schnorr::<C, Blake2s256>::randomize_signature(sp, &g, &bytes(pk_randomness)).unwrap();
    [g.prover_response, g.verifier_challenge]
}

cfn! { pub fn parse_pour[L](b: &[u8]) -> Option<Pour<L, P0, P1, C>> {
    Pour::<L, P0, P1, C>::deserialize_compressed(b).ok()
} }

/// One spent coin as our own pour prover sees it.
pub struct Spend<const L: usize, P0: SWCurveConfig + Copy, P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy, C: CurveGroup> {
    pub path: CurveTreeWitnessPath<L, P0, P1>,
    /// values put under the leaf's commitment
    pub opening: [P0::ScalarField; 2],
    pub blinding: P0::ScalarField,
    pub rpk: C::Affine,
    pub key_sk: C::ScalarField,
    pub pk_randomness: C::ScalarField,
    /// tag the circuit is told
    pub tag: P0::ScalarField,
}
/// One minted coin: values under the commitment and the value whose bits are allocated.
pub struct Mint<F> { pub opening: [F; 2], pub blinding: F, pub bits: u64 }

/// Parts of the protocol's circuits that a prover leaves out.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Omit { pub range: [bool; 2], pub tag: [bool; 2], pub balance: bool, pub even: [bool; 2], pub odd: [bool; 2] }

cfn! {
/// Our own pour prover: the circuits of the protocol over whatever witnesses it is given.
pub fn own_pour[L](w: &World<L, P0, P1, C>, mints: &[Mint<F0>; 2], spends: &[Spend<L, P0, P1, C>; 2], omit: Omit, seed: u64) -> Result<SignedTx<P0, P1, C>, String> {
    guarded(|| {
        let mut rng = StdRng::seed_from_u64(seed);
        let bp = &w.p.even_parameters.bp_gens;
        let mut pe = Prover::<Transcript, Affine<P0>>::new(&w.p.even_parameters.pc_gens, Transcript::new(DOMAIN));
        let mut po = Prover::<Transcript, Affine<P1>>::new(&w.p.odd_parameters.pc_gens, Transcript::new(DOMAIN));
        let mut mc = vec![];
        let mut mv = vec![];
        for (k, m) in mints.iter().enumerate() {
            let (c, v) = pe.commit_vec(&m.opening, m.blinding, bp);
            if !omit.range[k] { range_proof(&mut pe, v[0].into(), Some(m.bits), 64).unwrap(); }
            mc.push(c);
            mv.push(v[0]);
        }
        let mut paths = vec![];
        let mut sv = vec![];
        for (k, x) in spends.iter().enumerate() {
            let mut de = Prover::<Transcript, Affine<P0>>::new(&w.p.even_parameters.pc_gens, Transcript::new(b"unused"));
            let mut d_o = Prover::<Transcript, Affine<P1>>::new(&w.p.odd_parameters.pc_gens, Transcript::new(b"unused"));
            let (path, r) = x.path.select_and_rerandomize_prover_gadget(
                if omit.even[k] { &mut de } else { &mut pe }, if omit.odd[k] { &mut d_o } else { &mut po }, w.p, &mut rng);
            let (_, v) = pe.commit_vec(&x.opening, x.blinding + r, bp);
            if !omit.tag[k] { pe.constrain(v[1] - x.tag); }
            paths.push(path);
            sv.push(v[0]);
        }
        if !omit.balance { pe.constrain(mv[0] + mv[1] - sv[0] - sv[1]); }
        let even_proof = pe.prove(bp).unwrap();
        let odd_proof = po.prove(&w.p.odd_parameters.bp_gens).unwrap();
        let p1 = paths.pop().unwrap();
        let p0 = paths.pop().unwrap();
        let pour = Pour::<L, P0, P1, C> {
            even_proof, odd_proof, randomized_path_0: p0, randomized_path_1: p1, pk0: spends[0].rpk, pk1: spends[1].rpk,
            minted_coin_commitment_0: mc[0], minted_coin_commitment_1: mc[1],
        };
        let b = bytes(&pour);
        let s0 = sign::<C>(&w.sp, spends[0].key_sk, &spends[0].pk_randomness, &b, seed ^ 1);
        let s1 = sign::<C>(&w.sp, spends[1].key_sk, &spends[1].pk_randomness, &b, seed ^ 2);
        tx_of::<_, _, P0, P1, C>(&RawTx { sig: [s0[0], s0[1], s1[0], s1[1]], pour: b }, &empty_tx::<_, _, P0, P1, C>())
    })
} }

// ------------------------------------------------------------ constraints of a real verifier as data
/// The constraints a verifier has accumulated, with every gate input free.
pub struct Extracted<F: Field> {
    pub sys: Sys<F>,
    pub vec: HashMap<(usize, usize), usize>,
}
pub fn extract<C: AffineRepr>(ve: &Verifier<Transcript, C>) -> Extracted<C::ScalarField> where C::ScalarField: PrimeField {
    let mut sys = Sys { lin: vec![], gates: vec![], nwires: 1, allocs: vec![], inputs: vec![], defined: vec![] };
    let mut vec: HashMap<(usize, usize), usize> = HashMap::new();
    let mut com: HashMap<usize, usize> = HashMap::new();
    let n = ve.metrics().multipliers;
    for g in 0..n {
        let b = 1 + 3 * g;
        sys.gates.push([b, b + 1, b + 2]);
        sys.defined.push(false);
        sys.allocs.extend([b, b + 1]);
        sys.nwires += 3;
    }
    for lc in ve.vh_constraints() {
        let mut r: Row<C::ScalarField> = Row::new();
        for (v, c) in lc.vh_terms() {
            let id = match v {
                Variable::One(_) => 0,
                Variable::MultiplierLeft(i) => 1 + 3 * i,
                Variable::MultiplierRight(i) => 2 + 3 * i,
                Variable::MultiplierOutput(i) => 3 + 3 * i,
                Variable::VectorCommit(i, j) => *vec.entry((*i, *j)).or_insert_with(|| { sys.nwires += 1; sys.inputs.push(sys.nwires - 1); sys.nwires - 1 }),
                Variable::Committed(i) => *com.entry(*i).or_insert_with(|| { sys.nwires += 1; sys.inputs.push(sys.nwires - 1); sys.nwires - 1 }),
            };
            *r.entry(id).or_insert(C::ScalarField::zero()) += *c;
        }
        r.retain(|_, c| !c.is_zero());
        sys.lin.push(r);
    }
    Extracted { sys, vec }
}
