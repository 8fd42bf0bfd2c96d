//! Gadgets as values: run on the recording constraint system, on the real prover and verifier.
use crate::common::*;
use crate::mockcs::*;
use ark_ec::AffineRepr;
use ark_ff::{Field, PrimeField};
use bulletproofs::r1cs::*;
use merlin::Transcript;

pub trait Gadget<F: Field> {
    /// values of the external inputs
    fn inputs(&self) -> Vec<F>;
    /// emits the gadget; `witness`: whether the caller is a prover
    fn run<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[LinearCombination<F>], witness: bool) -> Vec<LinearCombination<F>>;
}

pub struct Recorded<F: Field> {
    pub m: Mock<F>,
    pub ins: Vec<usize>,
    pub outs: Vec<Row<F>>,
}
pub fn record<F: Field, G: Gadget<F>>(g: &G) -> Recorded<F> {
    let mut m = Mock::new();
    let vars: Vec<Variable<F>> = g.inputs().into_iter().map(|v| m.input(Some(v))).collect();
    let ins = vars.iter().map(|v| m.id(v)).collect();
    let lcs: Vec<LinearCombination<F>> = vars.into_iter().map(|v| v.into()).collect();
    let outs = g.run(&mut m, &lcs, true);
    let outs = outs.iter().map(|o| m.row(o)).collect();
    Recorded { m, ins, outs }
}
impl<F: Field> Recorded<F> {
    pub fn honest(&self) -> Vec<F> { self.m.honest().expect("honest run leaves no wire unassigned") }
    pub fn out_values(&self, vals: &[F]) -> Vec<F> {
        self.outs.iter().map(|r| {
            let mut t = F::zero();
            for (k, c) in r { t += vals[*k] * c; }
            t
        }).collect()
    }
    pub fn sys(&self) -> &Sys<F> { &self.m.sys }
}

/// Same gadget and inputs on the verifier side must emit the same constraints.
pub fn record_verifier<F: Field, G: Gadget<F>>(g: &G) -> Recorded<F> {
    let mut m = Mock::new();
    let vars: Vec<Variable<F>> = g.inputs().into_iter().map(|_| m.input(None)).collect();
    let ins = vars.iter().map(|v| m.id(v)).collect();
    let lcs: Vec<LinearCombination<F>> = vars.into_iter().map(|v| v.into()).collect();
    let outs = g.run(&mut m, &lcs, false);
    let outs = outs.iter().map(|o| m.row(o)).collect();
    Recorded { m, ins, outs }
}

/// How the inputs reach the real proof system.
#[derive(Clone, Copy, Debug)]
pub enum How { Scalars, Vector, Constants }

/// Runs a real proof of the gadget and returns whether the verifier accepts it. `script`
/// overrides the values the prover's witness code hands to allocations.
pub fn e2e<C: AffineRepr, G: Gadget<C::ScalarField>>(g: &G, how: How, script: Option<Vec<C::ScalarField>>, cap: usize) -> bool
where C::ScalarField: PrimeField {
    let vin = g.inputs();
    let how = if vin.is_empty() { How::Constants } else { how };
    let bp = bp_gens::<C>(cap);
    let pc = pc_gens::<C>();
    let mut pr = Prover::<Transcript, C>::new(pc, Transcript::new(b"gadget"));
    let mut comms = vec![];
    let bl = C::ScalarField::from(7919u64);
    let lcs: Vec<LinearCombination<C::ScalarField>> = match how {
        How::Scalars => vin.iter().map(|v| { let (c, x) = pr.commit(*v, bl); comms.push(c); x.into() }).collect(),
        How::Vector => { let (c, xs) = pr.commit_vec(&vin, bl, bp); comms.push(c); xs.into_iter().map(|x| x.into()).collect() }
        How::Constants => vin.iter().map(|v| LinearCombination::from(*v)).collect(),
    };
    match script {
        None => { g.run(&mut pr, &lcs, true); }
        Some(sc) => { g.run(&mut Over::new(&mut pr, sc), &lcs, true); }
    }
    let proof = match pr.prove(bp) { Ok(p) => p, Err(e) => panic!("prove: {:?}", e) };
    let mut ve = Verifier::<Transcript, C>::new(Transcript::new(b"gadget"));
    let lcs: Vec<LinearCombination<C::ScalarField>> = match how {
        How::Scalars => comms.iter().map(|c| ve.commit(*c).into()).collect(),
        How::Vector => ve.commit_vec(vin.len(), comms[0]).into_iter().map(|x| x.into()).collect(),
        How::Constants => vin.iter().map(|v| LinearCombination::from(*v)).collect(),
    };
    g.run(&mut ve, &lcs, false);
    ve.verify(&proof, pc, bp).is_ok()
}
