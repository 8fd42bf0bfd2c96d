//! Curve trees: parameters, generation, an independent reference model, and a fast verdict.
use crate::common::*;
use crate::engine::{guarded, Fail, Src};
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{PrimeField, Zero};
use bulletproofs::r1cs::*;
use merlin::Transcript;
use relations::curve_tree::*;
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use relations::curve_tree_prover::CurveTreeWitnessPath;
use relations::batched_curve_tree_prover::CurveTreeWitnessMultiPath;
use rand::SeedableRng;
use std::collections::BTreeMap;

/// Declares a function generic over a curve cycle (and L, M).
#[macro_export]
macro_rules! gfn {
    ($(#[$a:meta])* $v:vis fn $name:ident [L M] ($($arg:tt)*) -> $ret:ty $body:block) => {
        $(#[$a])* $v fn $name<const L: usize, const M: usize, F0: PrimeField, F1: PrimeField,
            P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync,
            P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync>($($arg)*) -> $ret $body
    };
    ($(#[$a:meta])* $v:vis fn $name:ident [L] ($($arg:tt)*) -> $ret:ty $body:block) => {
        $(#[$a])* $v fn $name<const L: usize, F0: PrimeField, F1: PrimeField,
            P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync,
            P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync>($($arg)*) -> $ret $body
    };
    ($(#[$a:meta])* $v:vis fn $name:ident [] ($($arg:tt)*) -> $ret:ty $body:block) => {
        $(#[$a])* $v fn $name<F0: PrimeField, F1: PrimeField,
            P0: SWCurveConfig<BaseField = F1, ScalarField = F0> + Copy + Send + Sync,
            P1: SWCurveConfig<BaseField = F0, ScalarField = F1> + Copy + Send + Sync>($($arg)*) -> $ret $body
    };
}

gfn! { pub fn params[](len: usize) -> &'static SelRerandParameters<P0, P1> {
    cached(len, || SelRerandParameters::<P0, P1>::new(len, len))
} }

/// Leaves: random, small multiples, repeated, the identity; never the (excluded) negated offset.
pub fn gen_leaf<P: SWCurveConfig>(s: &mut Src, so_far: &[Affine<P>], delta: &Affine<P>) -> Affine<P> {
    let l = match s.below(10) {
        0 => Affine::<P>::generator(),
        1 if !so_far.is_empty() => *s.pick(so_far),
        2 => Affine::<P>::zero(),
        3 => (Affine::<P>::generator() * P::ScalarField::from(s.below(20))).into_affine(),
        4 if !so_far.is_empty() => -*s.pick(so_far),
        5 => *delta,
        _ => rand_point(s),
    };
    if l == -*delta { Affine::<P>::generator() } else { l }
}

pub fn gen_set<P: SWCurveConfig>(s: &mut Src, n: usize, delta: &Affine<P>) -> Vec<Affine<P>> {
    let mut v = vec![];
    for _ in 0..n {
        let l = gen_leaf(s, &v, delta);
        v.push(l);
    }
    v
}

/// Offset x-coordinate as stored in a parent.
pub fn off_x<P: SWCurveConfig>(c: &Affine<P>, delta: &Affine<P>) -> P::BaseField {
    (*c + *delta).into_affine().x
}

/// The defining sum of a tree-layer commitment: x_j on the generators of set m, plus blinding.
pub fn layer_commit<P: SWCurveConfig + Copy>(p: &SingleLayerParameters<P>, xs: &[P::ScalarField], bl: P::ScalarField, m: usize) -> Affine<P> {
    let g: Vec<Affine<P>> = p.bp_gens.share(0).G(xs.len() * (m + 1)).copied().collect();
    let mut acc = p.pc_gens.B_blinding * bl;
    if xs.len() >= 128 {
        return (acc + <ark_ec::short_weierstrass::Projective<P> as ark_ec::VariableBaseMSM>::msm_unchecked(&g[xs.len() * m..], xs)).into_affine();
    }
    for (j, x) in xs.iter().enumerate() {
        if !x.is_zero() { acc += g[xs.len() * m + j] * *x; }
    }
    acc.into_affine()
}

/// Reference model: level k (0 = leaves) as node commitments per generator set.
pub struct Model<P0: SWCurveConfig, P1: SWCurveConfig> {
    pub height: usize,
    pub even: Vec<Vec<Vec<Affine<P0>>>>, // even[k/2][node][m] for even k
    pub odd: Vec<Vec<Vec<Affine<P1>>>>,  // odd[k/2][node][m] for odd k
    pub n: usize,
}

pub fn least_height(l: usize, n: usize) -> usize {
    let (mut h, mut cap) = (0, 1usize);
    while cap < n { cap *= l; h += 1; }
    h
}

fn parents<PC: SWCurveConfig, PP: SWCurveConfig<ScalarField = PC::BaseField> + Copy>(
    l: usize, m: usize, kids: &[Vec<Affine<PC>>], delta: &Affine<PC>, par: &SingleLayerParameters<PP>,
) -> Vec<Vec<Affine<PP>>> {
    kids.chunks(l).map(|c| (0..m).map(|i| {
        let mut xs: Vec<PC::BaseField> = c.iter().map(|k| off_x(&k[i], delta)).collect();
        xs.resize(l, PC::BaseField::zero());
        layer_commit(par, &xs, PP::ScalarField::zero(), i)
    }).collect()).collect()
}

gfn! { pub fn model[](l: usize, m: usize, set: &[Affine<P0>], height: Option<usize>, p: &SelRerandParameters<P0, P1>) -> Model<P0, P1> {
    let h = least_height(l, set.len()).max(height.unwrap_or(0));
    let mut even = vec![set.iter().map(|x| vec![*x; m]).collect::<Vec<_>>()];
    let mut odd: Vec<Vec<Vec<Affine<P1>>>> = vec![];
    for k in 1..=h {
        if k % 2 == 1 {
            odd.push(parents(l, m, &even[k / 2], &p.even_parameters.delta, &p.odd_parameters));
        } else {
            even.push(parents(l, m, &odd[k / 2 - 1], &p.odd_parameters.delta, &p.even_parameters));
        }
    }
    Model { height: h, even, odd, n: set.len() }
} }

impl<P0: SWCurveConfig, P1: SWCurveConfig> Model<P0, P1> {
    pub fn count(&self, l: usize, k: usize) -> usize {
        let c = l.pow(k as u32);
        (self.n + c - 1) / c
    }
}

/// Key of a variable, for normalising linear combinations.
fn vkey<F: ark_ff::Field>(v: &Variable<F>) -> (u8, usize, usize) {
    match v {
        Variable::One(_) => (0, 0, 0),
        Variable::Committed(i) => (1, *i, 0),
        Variable::VectorCommit(i, j) => (2, *i, *j),
        Variable::MultiplierLeft(i) => (3, *i, 0),
        Variable::MultiplierRight(i) => (4, *i, 0),
        Variable::MultiplierOutput(i) => (5, *i, 0),
    }
}
pub fn norm<F: ark_ff::Field>(l: &LinearCombination<F>) -> BTreeMap<(u8, usize, usize), F> {
    let mut m = BTreeMap::new();
    for (v, c) in l.vh_terms() { *m.entry(vkey(v)).or_insert(F::zero()) += *c; }
    m.retain(|_, c| !c.is_zero());
    m
}

pub fn tr_state(t: &Transcript) -> [u8; 32] {
    let mut c = [0u8; 32];
    t.clone().challenge_bytes(b"state", &mut c);
    c
}

/// Whether a proof from this prover would be accepted by this verifier: same messages so far, same
/// constraints, and a satisfying witness. (None: the two sides disagree or the witness fails.)
pub fn fast<C: AffineRepr>(pr: &mut Prover<Transcript, C>, ve: &mut Verifier<Transcript, C>) -> Result<(), String>
where C::ScalarField: PrimeField {
    if tr_state(pr.transcript()) != tr_state(ve.transcript()) { return Err("commitments or transcripts differ".into()); }
    if pr.metrics().multipliers != ve.metrics().multipliers { return Err("numbers of gates differ".into()); }
    let (a, b) = (pr.vh_constraints(), ve.vh_constraints());
    if a.len() != b.len() { return Err("numbers of constraints differ".into()); }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if norm(x) != norm(y) { return Err(format!("constraint {} differs", i)); }
        if !pr.eval(x).is_zero() { return Err(format!("constraint {} of {} not satisfied", i, a.len())); }
    }
    Ok(())
}

// ---------------------------------------------------------------- running membership proofs
/// What one attempt to prove membership came to.
pub enum Out<T> {
    /// accepted: what verification returned, and what the prover got back
    Accepted(T),
    Rejected(String),
}
impl<T> Out<T> {
    pub fn accepted(&self) -> bool { matches!(self, Out::Accepted(_)) }
    pub fn why(&self) -> &str { match self { Out::Accepted(_) => "accepted", Out::Rejected(r) => r } }
}

/// Proves and verifies for real what the two provers and verifiers hold.
pub fn settle<C0: AffineRepr, C1: AffineRepr>(
    mut pe: Prover<Transcript, C0>, mut po: Prover<Transcript, C1>, mut ve: Verifier<Transcript, C0>, mut vo: Verifier<Transcript, C1>,
    e: (&bulletproofs::PedersenGens<C0>, &bulletproofs::BulletproofGens<C0>), o: (&bulletproofs::PedersenGens<C1>, &bulletproofs::BulletproofGens<C1>), real: bool,
) -> Result<Result<(), String>, Fail>
where C0::ScalarField: PrimeField, C1::ScalarField: PrimeField {
    let f = fast(&mut pe, &mut ve).and_then(|_| fast(&mut po, &mut vo));
    if !real { return Ok(f); }
    let mut verdict: Result<(), String> = Ok(());
    match (pe.prove(e.1), po.prove(o.1)) {
        (Ok(p0), Ok(p1)) => {
            if let Err(x) = ve.verify(&p0, e.0, e.1) { verdict = Err(format!("even proof: {:?}", x)); }
            if let Err(x) = vo.verify(&p1, o.0, o.1) { verdict = Err(format!("odd proof: {:?}", x)); }
        }
        (a, b) => verdict = Err(format!("prover: {:?} {:?}", a.err(), b.err())),
    }
    if verdict.is_ok() != f.is_ok() {
        return Err(Fail { sig: String::new(), msg: format!("real verdict {:?} although the constraints say {:?}", verdict, f) });
    }
    Ok(verdict)
}

gfn! { pub fn attempt[L M](w: &CurveTreeWitnessPath<L, P0, P1>, tree: &CurveTree<L, M, P0, P1>, p: &SelRerandParameters<P0, P1>,
    alter: &mut dyn FnMut(&mut SelectAndRerandomizePath<L, P0, P1>), real: bool, seed: u64) -> Result<Out<(Affine<P0>, F0)>, Fail>
{
    let mut pe = Prover::<Transcript, Affine<P0>>::new(&p.even_parameters.pc_gens, Transcript::new(b"member even"));
    let mut po = Prover::<Transcript, Affine<P1>>::new(&p.odd_parameters.pc_gens, Transcript::new(b"member odd"));
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    let r = guarded(|| w.select_and_rerandomize_prover_gadget(&mut pe, &mut po, p, &mut rng));
    let (mut path, scalar) = match r { Ok(x) => x, Err(e) => return Ok(Out::Rejected(format!("prover panicked: {}", e))) };
    alter(&mut path);
    let mut ve = Verifier::<Transcript, Affine<P0>>::new(Transcript::new(b"member even"));
    let mut vo = Verifier::<Transcript, Affine<P1>>::new(Transcript::new(b"member odd"));
    let leaf = match guarded(|| tree.select_and_rerandomize_verifier_gadget(&mut ve, &mut vo, path, p)) {
        Ok(l) => l,
        Err(e) => return Ok(Out::Rejected(format!("verifier gadget panicked: {}", e))),
    };
    let v = settle(pe, po, ve, vo, (&p.even_parameters.pc_gens, &p.even_parameters.bp_gens), (&p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens), real)?;
    Ok(match v { Ok(()) => Out::Accepted((leaf, scalar)), Err(e) => Out::Rejected(e) })
} }

gfn! { pub fn attempt_multi[L M](w: &CurveTreeWitnessMultiPath<L, M, P0, P1>, tree: &CurveTree<L, M, P0, P1>, p: &SelRerandParameters<P0, P1>,
    alter: &mut dyn FnMut(&mut SelectAndRerandomizeMultiPath<L, M, P0, P1>), real: bool, seed: u64) -> Result<Out<([Affine<P0>; M], [F0; M])>, Fail>
{
    let mut pe = Prover::<Transcript, Affine<P0>>::new(&p.even_parameters.pc_gens, Transcript::new(b"member even"));
    let mut po = Prover::<Transcript, Affine<P1>>::new(&p.odd_parameters.pc_gens, Transcript::new(b"member odd"));
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    let r = guarded(|| w.batched_select_and_rerandomize_prover_gadget(&mut pe, &mut po, p, &mut rng));
    let (mut path, scalars) = match r { Ok(x) => x, Err(e) => return Ok(Out::Rejected(format!("prover panicked: {}", e))) };
    alter(&mut path);
    let mut ve = Verifier::<Transcript, Affine<P0>>::new(Transcript::new(b"member even"));
    let mut vo = Verifier::<Transcript, Affine<P1>>::new(Transcript::new(b"member odd"));
    let leaves = match guarded(|| tree.batched_select_and_rerandomize_verifier_gadget(&mut ve, &mut vo, path, p)) {
        Ok(l) => l,
        Err(e) => return Ok(Out::Rejected(format!("verifier gadget panicked: {}", e))),
    };
    let v = settle(pe, po, ve, vo, (&p.even_parameters.pc_gens, &p.even_parameters.bp_gens), (&p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens), real)?;
    Ok(match v { Ok(()) => Out::Accepted((leaves, scalars)), Err(e) => Out::Rejected(e) })
} }

/// Is `out` a rerandomization by `s` of one of the leaves (up to the sign lost in x-coordinates)?
pub fn legit<P: SWCurveConfig>(out: &Affine<P>, s: P::ScalarField, set: &[Affine<P>], h: &Affine<P>, delta: &Affine<P>) -> bool {
    let c = (out.into_group() - *h * s + *delta).into_affine();
    set.iter().any(|l| { let d = (*l + *delta).into_affine(); d == c || d == -c })
}

fn slot_of<F: PrimeField, const L: usize>(sib: &[F; L], x: F) -> usize {
    sib.iter().position(|y| *y == x).unwrap_or(0)
}

gfn! {
/// Makes the witness path claim `foreign` as the leaf. The `up` lowest nodes' sibling lists are made
/// consistent with it (and their commitments recomputed), the ones above stay those of the real tree.
pub fn tamper[L](w: &mut CurveTreeWitnessPath<L, P0, P1>, m: usize, up: usize, slot: Option<usize>, foreign: Affine<P0>, p: &SelRerandParameters<P0, P1>) -> () {
    let (de, dd) = (p.even_parameters.delta, p.odd_parameters.delta);
    let (mut io, mut ie) = (w.odd_internal_nodes.len(), w.even_internal_nodes.len());
    let mut even_child = foreign;
    let mut odd_child = Affine::<P1>::zero();
    let mut k = 0;
    loop {
        if k % 2 == 0 {
            if io == 0 { return; }
            io -= 1;
            let n = &mut w.odd_internal_nodes[io];
            let old = off_x(&n.child_witness, &de);
            n.child_witness = even_child;
            if k >= up { return; }
            let j = match slot { Some(j) if k == 0 => j % L, _ => slot_of(&n.siblings, old) };
            n.siblings[j] = off_x(&even_child, &de);
            odd_child = layer_commit(&p.odd_parameters, &n.siblings, F1::zero(), m);
        } else {
            if ie == 0 { return; }
            ie -= 1;
            let n = &mut w.even_internal_nodes[ie];
            let old = off_x(&n.child_witness, &dd);
            n.child_witness = odd_child;
            if k >= up { return; }
            let j = slot_of(&n.siblings, old);
            n.siblings[j] = off_x(&odd_child, &dd);
            even_child = layer_commit(&p.even_parameters, &n.siblings, F0::zero(), m);
        }
        k += 1;
    }
} }

gfn! { pub fn position[L M](w: &CurveTreeWitnessMultiPath<L, M, P0, P1>, m: usize) -> CurveTreeWitnessPath<L, P0, P1> {
    CurveTreeWitnessPath { even_internal_nodes: w.even_internal_nodes.iter().map(|a| a[m]).collect(), odd_internal_nodes: w.odd_internal_nodes.iter().map(|a| a[m]).collect() }
} }
gfn! { pub fn set_position[L M](w: &mut CurveTreeWitnessMultiPath<L, M, P0, P1>, m: usize, q: &CurveTreeWitnessPath<L, P0, P1>) -> () {
    for (a, n) in w.even_internal_nodes.iter_mut().zip(&q.even_internal_nodes) { a[m] = *n; }
    for (a, n) in w.odd_internal_nodes.iter_mut().zip(&q.odd_internal_nodes) { a[m] = *n; }
} }
