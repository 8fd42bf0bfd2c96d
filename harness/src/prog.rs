//! Random R1CS programs with a reference interpreter.
//!
//! A `Prog` is plain data. It is executed on a real prover, on a real verifier, and by the
//! reference interpreter here, which knows every variable's value and hence which constraints hold.
use crate::common::*;
use crate::engine::{fail, Res, Src};
use ark_ec::AffineRepr;
use ark_ff::{Field, PrimeField};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;
use std::cell::RefCell;
use std::rc::Rc;

/// coefficient c * challenge^ch of a variable (or of the constant 1 if var is None)
#[derive(Clone, Debug, PartialEq)]
pub struct Term<F> {
    pub var: Option<usize>,
    pub c: F,
    pub ch: u64,
}
pub type Lc<F> = Vec<Term<F>>;

#[derive(Clone, Debug, PartialEq)]
pub enum Op<F> {
    Commit { v: F, bl: F },
    CommitVec { vs: Vec<F>, bl: F },
    Alloc { v: F },
    AllocMul { l: F, r: F },
    Mul { l: Lc<F>, r: Lc<F> },
    Constrain(Lc<F>),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Prog<F> {
    pub label_data: Vec<u8>,
    pub ops: Vec<Op<F>>,
    /// second-phase blocks; each draws one challenge
    pub blocks: Vec<Vec<Op<F>>>,
}

/// What the generator may produce.
#[derive(Clone, Copy, Debug)]
pub struct Limits {
    pub max_ops: usize,
    pub max_vec: usize,
    pub max_dim: usize,
    pub blocks: usize,
    pub gates2: bool,
}
pub const SMALL: Limits = Limits { max_ops: 14, max_vec: 4, max_dim: 12, blocks: 2, gates2: true };

pub struct Interp<F: Field> {
    pub vals: Vec<F>,
    pub pending: bool,
    pub gates: usize,
    pub gates1: usize,
    pub maxdim: usize,
    pub nvec: usize,
    pub ncommit: usize,
    pub constraints: usize,
    /// index of first constraint that does not hold
    pub bad: Option<String>,
    pub nontrivial_constraints: usize,
}

pub fn challenge_standin<F: PrimeField>(block: usize) -> F {
    // a fixed full-size value per block standing in for the verifier's challenge
    let mut b = [0x5au8; 48];
    b[0] = block as u8 + 1;
    for (i, x) in b.iter_mut().enumerate() {
        *x = x.wrapping_mul(31).wrapping_add((i * i + 7 * block) as u8);
    }
    F::from_le_bytes_mod_order(&b)
}

impl<F: PrimeField> Interp<F> {
    pub fn new() -> Self {
        Interp { vals: vec![], pending: false, gates: 0, gates1: 0, maxdim: 0, nvec: 0, ncommit: 0, constraints: 0, bad: None, nontrivial_constraints: 0 }
    }
    pub fn eval(&self, lc: &Lc<F>, ch: F) -> F {
        lc.iter().map(|t| {
            t.c * ch.pow([t.ch]) * t.var.map(|v| self.vals[v]).unwrap_or(F::one())
        }).sum()
    }
    pub fn step(&mut self, op: &Op<F>, ch: F) {
        match op {
            Op::Commit { v, .. } => { self.vals.push(*v); self.ncommit += 1; }
            Op::CommitVec { vs, .. } => {
                self.vals.extend(vs.iter().copied());
                self.maxdim = self.maxdim.max(vs.len());
                self.nvec += 1;
            }
            Op::Alloc { v } => {
                self.vals.push(*v);
                if self.pending { self.pending = false; } else { self.pending = true; self.gates += 1; }
            }
            Op::AllocMul { l, r } => { self.vals.extend([*l, *r, *l * r]); self.gates += 1; }
            Op::Mul { l, r } => {
                let (l, r) = (self.eval(l, ch), self.eval(r, ch));
                self.vals.extend([l, r, l * r]);
                self.gates += 1;
                self.constraints += 2;
            }
            Op::Constrain(lc) => {
                if !self.eval(lc, ch).is_zero() && self.bad.is_none() {
                    self.bad = Some(format!("constraint #{}", self.constraints));
                }
                if lc.iter().any(|t| t.var.is_some()) { self.nontrivial_constraints += 1; }
                self.constraints += 1;
            }
        }
    }
    pub fn run(p: &Prog<F>) -> Self {
        let mut i = Self::new();
        for o in &p.ops { i.step(o, F::one()); }
        i.gates = i.gates.max(i.maxdim);
        i.gates1 = i.gates;
        i.pending = false;
        for (b, ops) in p.blocks.iter().enumerate() {
            let ch = challenge_standin(b);
            for o in ops { i.step(o, ch); }
        }
        i
    }
    pub fn padded(&self) -> usize { self.gates.next_power_of_two() }
}

/// Does the witness of `p` (values of its variables) violate some constraint of `q`, a statement
/// with the same variables?
pub fn violates<F: PrimeField>(p: &Prog<F>, q: &Prog<F>) -> bool {
    let mut ip = Interp::run(p);
    let vals = std::mem::take(&mut ip.vals);
    let iq = Interp { vals: vals.clone(), ..Interp::new() };
    let mut next = 0usize;
    let mut check = |op: &Op<F>, ch: F| -> bool {
        match op {
            Op::Commit { .. } | Op::Alloc { .. } => { next += 1; false }
            Op::CommitVec { vs, .. } => { next += vs.len(); false }
            Op::AllocMul { .. } => { next += 3; false }
            Op::Mul { l, r } => {
                let b = iq.eval(l, ch) != vals[next] || iq.eval(r, ch) != vals[next + 1];
                next += 3;
                b
            }
            Op::Constrain(lc) => !iq.eval(lc, ch).is_zero(),
        }
    };
    let mut bad = false;
    for o in &q.ops { bad |= check(o, F::one()); }
    for (b, ops) in q.blocks.iter().enumerate() {
        for o in ops { bad |= check(o, challenge_standin(b)); }
    }
    bad
}

fn gen_lc<F: PrimeField>(s: &mut Src, it: &Interp<F>, ch: bool) -> Lc<F> {
    let n = s.range(0, 4);
    let mut lc = vec![];
    for _ in 0..n {
        let var = if it.vals.is_empty() || s.chance(1, 6) { None } else {
            // favour recent variables half of the time
            let k = it.vals.len();
            Some(if s.bool() { k - 1 - s.usize(k.min(6)) } else { s.usize(k) })
        };
        lc.push(Term { var, c: field(s), ch: if ch { s.below(3) } else { 0 } });
    }
    lc
}

/// lc - value(lc): satisfied
fn gen_true_lc<F: PrimeField>(s: &mut Src, it: &Interp<F>) -> Lc<F> {
    let mut lc = gen_lc(s, it, false);
    let v = it.eval(&lc, F::one());
    lc.push(Term { var: None, c: -v, ch: 0 });
    lc
}

pub fn scale_ch<F: PrimeField>(lc: &Lc<F>, c: F, ch: u64) -> Lc<F> {
    lc.iter().map(|t| Term { var: t.var, c: t.c * c, ch: t.ch + ch }).collect()
}

/// A satisfied program.
pub fn gen_prog<F: PrimeField>(s: &mut Src, lim: Limits) -> Prog<F> {
    let mut p = Prog { label_data: vec![], ops: vec![], blocks: vec![] };
    for _ in 0..s.below(3) {
        p.label_data.push(s.below(256) as u8);
    }
    let mut it = Interp::<F>::new();
    let nvec = if s.chance(3, 5) { s.range(0, lim.max_vec) } else { 0 };
    let nops = s.range(0, lim.max_ops);
    // positions of vector commitments among the operations
    let mut left_vec = nvec;
    let mut left_ops = nops;
    while left_vec + left_ops > 0 {
        let op = if left_vec > 0 && s.usize(left_vec + left_ops) < left_vec {
            left_vec -= 1;
            let dim = if s.chance(1, 8) { lim.max_dim } else { s.range(1, lim.max_dim) };
            let vs = (0..dim).map(|_| field(s)).collect();
            Op::CommitVec { vs, bl: field(s) }
        } else {
            left_ops -= 1;
            match s.below(12) {
                0 | 1 => Op::Commit { v: field(s), bl: field(s) },
                2 | 3 => Op::Alloc { v: field(s) },
                4 | 5 => Op::AllocMul { l: field(s), r: field(s) },
                6 | 7 | 8 => Op::Mul { l: gen_lc(s, &it, false), r: gen_lc(s, &it, false) },
                _ => Op::Constrain(gen_true_lc(s, &it)),
            }
        };
        it.step(&op, F::one());
        p.ops.push(op);
    }
    it.pending = false;
    // constraints generated to hold refer to first-phase variables: later ones depend on challenges
    let mut it1 = Interp::<F>::new();
    it1.vals = it.vals.clone();
    let nblocks = if lim.blocks > 0 && s.chance(2, 5) { s.range(1, lim.blocks) } else { 0 };
    // second-phase gates are not supported together with vector commitments
    let gates2 = lim.gates2 && nvec == 0;
    for b in 0..nblocks {
        let ch = challenge_standin(b);
        let mut ops = vec![];
        let n = s.range(0, 4);
        for _ in 0..n {
            let start = ops.len();
            match s.below(if gates2 { 5 } else { 2 }) {
                0 | 1 => {
                    let lc = gen_true_lc(s, &it1);
                    let k = s.below(3);
                    let c = field(s);
                    ops.push(Op::Constrain(scale_ch(&lc, c, k)));
                }
                2 => {
                    // (A ch + B)(C - ch) = AC ch - A ch^2 + BC - B ch
                    let a = gen_lc(s, &it, false);
                    let bb = gen_lc(s, &it, false);
                    let c = gen_lc(s, &it, false);
                    let mut l = scale_ch(&a, F::one(), 1);
                    l.extend(bb.clone());
                    let mut r = c.clone();
                    r.push(Term { var: None, c: -F::one(), ch: 1 });
                    let base = it.vals.len();
                    ops.push(Op::Mul { l, r });
                    ops.push(Op::Mul { l: a.clone(), r: c.clone() });
                    ops.push(Op::Mul { l: bb.clone(), r: c });
                    let mut k = vec![
                        Term { var: Some(base + 2), c: F::one(), ch: 0 },
                        Term { var: Some(base + 5), c: -F::one(), ch: 1 },
                        Term { var: Some(base + 8), c: -F::one(), ch: 0 },
                    ];
                    k.extend(scale_ch(&a, F::one(), 2));
                    k.extend(scale_ch(&bb, F::one(), 1));
                    ops.push(Op::Constrain(k));
                }
                3 => {
                    let v = field(s);
                    let base = it.vals.len();
                    ops.push(Op::Alloc { v });
                    ops.push(Op::Constrain(vec![Term { var: Some(base), c: F::one(), ch: 1 }, Term { var: None, c: -v, ch: 1 }]));
                }
                _ => {
                    let (l, r): (F, F) = (field(s), field(s));
                    let base = it.vals.len();
                    ops.push(Op::AllocMul { l, r });
                    ops.push(Op::Constrain(vec![
                        Term { var: Some(base), c: F::one(), ch: 0 },
                        Term { var: Some(base + 1), c: F::one(), ch: 1 },
                        Term { var: Some(base + 2), c: F::one(), ch: 2 },
                        Term { var: None, c: -l, ch: 0 },
                        Term { var: None, c: -r, ch: 1 },
                        Term { var: None, c: -(l * r), ch: 2 },
                    ]));
                }
            }
            for o in &ops[start..] { it.step(o, ch); }
        }
        p.blocks.push(ops);
        // a half-allocated gate stays open across second-phase blocks
    }
    p
}

/// A satisfied statement of up to thousands of gates, constraints and commitments; all but its
/// dimensions comes from one seed.
pub fn gen_large<F: PrimeField>(s: &mut Src, max: usize) -> Prog<F> {
    use rand::{Rng, SeedableRng};
    let size = |s: &mut Src, max: usize| -> usize {
        let bits = 64 - (max as u64).leading_zeros() as u64;
        let m = 1usize << s.below(bits);
        match s.below(4) { 0 => m, 1 => m + 1, 2 => m.saturating_sub(1), _ => m + s.usize(m) }.min(max)
    };
    let gates = if s.chance(2, 3) { max / 2 + s.usize(max - max / 2) } else { size(s, max) };
    let constraints = size(s, max);
    let commits = size(s, 300);
    let dims: Vec<usize> = (0..if s.bool() { s.range(1, 3) } else { 0 }).map(|_| size(s, max)).collect();
    let blocks = if s.chance(1, 3) { 1 } else { 0 };
    let mut rng = rand::rngs::StdRng::seed_from_u64(s.u64());
    let mut p = Prog { label_data: vec![7], ops: vec![], blocks: vec![] };
    let mut it = Interp::<F>::new();
    let val = |rng: &mut rand::rngs::StdRng| -> F { if rng.gen_range(0..8) == 0 { F::zero() } else { F::from(rng.gen::<u64>()) } };
    let lc = |rng: &mut rand::rngs::StdRng, it: &Interp<F>| -> Lc<F> {
        (0..rng.gen_range(1..4)).map(|_| Term { var: if it.vals.is_empty() { None } else { Some(rng.gen_range(0..it.vals.len())) }, c: F::from(rng.gen::<u64>()) - F::from(5u64), ch: 0 }).collect()
    };
    // what is still to be made: commitments, vectors, gates, constraints
    let mut left = [commits, dims.len(), gates, constraints];
    while left.iter().sum::<usize>() > 0 {
        let mut at = rng.gen_range(0..left.iter().sum::<usize>());
        let k = left.iter().position(|n| if at < *n { true } else { at -= n; false }).unwrap();
        left[k] -= 1;
        let op = match k {
            0 => Op::Commit { v: val(&mut rng), bl: val(&mut rng) },
            1 => Op::CommitVec { vs: (0..dims[left[1]]).map(|_| val(&mut rng)).collect(), bl: val(&mut rng) },
            2 => match rng.gen_range(0..4) {
                0 => Op::Mul { l: lc(&mut rng, &it), r: lc(&mut rng, &it) },
                1 => Op::Alloc { v: val(&mut rng) },
                _ => Op::AllocMul { l: val(&mut rng), r: val(&mut rng) },
            },
            _ => {
                let mut l = lc(&mut rng, &it);
                let v = it.eval(&l, F::one());
                l.push(Term { var: None, c: -v, ch: 0 });
                Op::Constrain(l)
            }
        };
        it.step(&op, F::one());
        p.ops.push(op);
    }
    if blocks > 0 {
        let mut ops = vec![];
        for _ in 0..s.below(3) {
            let mut l = lc(&mut rng, &it);
            let v = it.eval(&l, F::one());
            l.push(Term { var: None, c: -v, ch: 0 });
            ops.push(Op::Constrain(scale_ch(&l, F::from(3u64), 1)));
        }
        if dims.is_empty() && s.bool() {
            for _ in 0..size(s, max / 4) { ops.push(Op::AllocMul { l: val(&mut rng), r: val(&mut rng) }); }
        }
        p.blocks.push(ops);
    }
    p
}
pub fn describe_large<F: PrimeField>(p: &Prog<F>) -> String {
    let it = Interp::run(p);
    format!("{} gates ({} in the first phase, {} padded), {} constraints, {} commitments, {} vectors of up to {}", it.gates, it.gates1, it.padded(), it.constraints, it.ncommit, it.nvec, it.maxdim)
}

pub fn lc_of<F: Field>(vars: &[Variable<F>], lc: &Lc<F>, ch: F, style: usize) -> LinearCombination<F> {
    // assemble through different operators, by position, so that all of them are exercised
    let mut out = LinearCombination::<F>::default();
    for (i, t) in lc.iter().enumerate() {
        let c = t.c * ch.pow([t.ch]);
        match (t.var, (i + style) % 4) {
            (None, 0) => out = out + c,
            (None, 1) => out = out - constant::<F, F>(-c),
            (None, _) => out = out + LinearCombination::from(c),
            (Some(v), 0) => out = out + vars[v] * c,
            (Some(v), 1) => out = out - vars[v] * (-c),
            (Some(v), 2) => out = out + LinearCombination::from(vars[v]).scalar_mul(c),
            (Some(v), _) => out = -((-out) - vars[v] * c),
        }
    }
    out
}

pub fn exec_op<F: PrimeField, CS: ConstraintSystem<F>>(cs: &mut CS, op: &Op<F>, vars: &mut Vec<Variable<F>>, ch: F, prover: bool, style: usize) -> Result<(), R1CSError> {
    match op {
        Op::Alloc { v } => {
            let x = cs.allocate(if prover { Some(*v) } else { None })?;
            vars.push(x);
        }
        Op::AllocMul { l, r } => {
            let (a, b, c) = cs.allocate_multiplier(if prover { Some((*l, *r)) } else { None })?;
            vars.extend([a, b, c]);
        }
        Op::Mul { l, r } => {
            let l = lc_of(vars, l, ch, style);
            let r = lc_of(vars, r, ch, style + 1);
            let (a, b, c) = cs.multiply(l, r);
            vars.extend([a, b, c]);
        }
        Op::Constrain(lc) => {
            let lc = lc_of(vars, lc, ch, style);
            cs.constrain(lc);
        }
        _ => unreachable!("commitments are first-phase only"),
    }
    Ok(())
}

pub struct Built<F: Field> {
    pub vars: Vec<Variable<F>>,
    pub metrics: Metrics,
    pub size: usize,
    pub vars2: Rc<RefCell<Vec<Variable<F>>>>,
}

fn defer<F: PrimeField, CS: RandomizableConstraintSystem<F>>(cs: &mut CS, p: &Prog<F>, vars: &[Variable<F>], prover: bool) -> Rc<RefCell<Vec<Variable<F>>>> {
    let shared = Rc::new(RefCell::new(vars.to_vec()));
    for (bi, ops) in p.blocks.iter().enumerate() {
        let ops = ops.clone();
        let sh = shared.clone();
        cs.specify_randomized_constraints(move |rcs| {
            let ch = rcs.challenge_scalar(b"vh challenge");
            let mut v = sh.borrow_mut();
            for (i, o) in ops.iter().enumerate() {
                exec_op(rcs, o, &mut v, ch, prover, i + bi)?;
            }
            Ok(())
        }).unwrap();
    }
    shared
}

pub fn build_prover<'g, C: AffineRepr, T: std::borrow::BorrowMut<Transcript>>(pr: &mut Prover<'g, T, C>, p: &Prog<C::ScalarField>, gens: &BulletproofGens<C>) -> (Vec<C>, Built<C::ScalarField>) {
    let mut vars = vec![];
    let mut comms = vec![];
    if !p.label_data.is_empty() {
        pr.transcript().append_message(b"data", &p.label_data);
    }
    for (i, o) in p.ops.iter().enumerate() {
        match o {
            Op::Commit { v, bl } => {
                let (c, x) = pr.commit(*v, *bl);
                comms.push(c);
                vars.push(x);
            }
            Op::CommitVec { vs, bl } => {
                let (c, x) = pr.commit_vec(vs, *bl, gens);
                comms.push(c);
                vars.extend(x);
            }
            o => exec_op(pr, o, &mut vars, C::ScalarField::from(1u64), true, i).unwrap(),
        }
    }
    let metrics = pr.metrics();
    let size = pr.size();
    let vars2 = defer(pr, p, &vars, true);
    (comms, Built { vars, metrics, size, vars2 })
}

pub fn build_verifier<C: AffineRepr, T: std::borrow::BorrowMut<Transcript>>(ve: &mut Verifier<T, C>, p: &Prog<C::ScalarField>, comms: &[C]) -> Built<C::ScalarField> {
    let mut vars = vec![];
    let mut next = 0;
    if !p.label_data.is_empty() {
        ve.transcript().append_message(b"data", &p.label_data);
    }
    for (i, o) in p.ops.iter().enumerate() {
        match o {
            Op::Commit { .. } => {
                vars.push(ve.commit(comms[next]));
                next += 1;
            }
            Op::CommitVec { vs, .. } => {
                vars.extend(ve.commit_vec(vs.len(), comms[next]));
                next += 1;
            }
            o => exec_op(ve, o, &mut vars, C::ScalarField::from(1u64), false, i + 2).unwrap(),
        }
    }
    let metrics = ve.metrics();
    let size = ve.size();
    let vars2 = defer(ve, p, &vars, false);
    Built { vars, metrics, size, vars2 }
}

pub fn prove<C: AffineRepr>(p: &Prog<C::ScalarField>, label: &'static [u8], pc: &PedersenGens<C>, bp: &BulletproofGens<C>) -> Result<(Vec<C>, R1CSProof<C>), R1CSError> {
    let mut pr = Prover::<Transcript, C>::new(pc, Transcript::new(label));
    let (comms, _b) = build_prover(&mut pr, p, bp);
    Ok((comms, pr.prove(bp)?))
}

pub fn verify<C: AffineRepr>(p: &Prog<C::ScalarField>, label: &'static [u8], comms: &[C], proof: &R1CSProof<C>, pc: &PedersenGens<C>, bp: &BulletproofGens<C>) -> Result<(), R1CSError> {
    let mut ve = Verifier::<Transcript, C>::new(Transcript::new(label));
    let _b = build_verifier(&mut ve, p, comms);
    ve.verify(proof, pc, bp)
}

pub fn tuple<C: AffineRepr>(p: &Prog<C::ScalarField>, label: &'static [u8], comms: &[C], proof: &R1CSProof<C>) -> Result<VerificationTuple<C>, R1CSError> {
    let mut ve = Verifier::<Transcript, C>::new(Transcript::new(label));
    let _b = build_verifier(&mut ve, p, comms);
    ve.verification_scalars_and_points(proof)
}

/// Honest proof of a satisfied program, or a failure of completeness.
pub fn honest<C: AffineRepr>(p: &Prog<C::ScalarField>, label: &'static [u8], bp: &BulletproofGens<C>) -> Result<(Vec<C>, R1CSProof<C>), crate::engine::Fail> {
    let pc = pc_gens::<C>();
    let (comms, proof) = prove(p, label, pc, bp).map_err(|e| crate::engine::Fail { sig: String::new(), msg: format!("prove failed: {:?}", e) })?;
    Ok((comms, proof))
}

pub fn describe<F: PrimeField>(p: &Prog<F>) -> String {
    let i = Interp::run(p);
    let f = |ops: &Vec<Op<F>>| ops.iter().map(|o| match o {
        Op::Commit { .. } => "C".to_string(),
        Op::CommitVec { vs, .. } => format!("V{}", vs.len()),
        Op::Alloc { .. } => "a".into(),
        Op::AllocMul { .. } => "m".into(),
        Op::Mul { l, r } => format!("M({},{})", l.len(), r.len()),
        Op::Constrain(l) => format!("K{}", l.len()),
    }).collect::<Vec<_>>().join(" ");
    format!("[{}] phase2 {:?}; {} gates ({} padded), {} vec, {} constraints", f(&p.ops), p.blocks.iter().map(f).collect::<Vec<_>>(), i.gates, i.padded(), i.nvec, i.constraints)
}

pub fn expect_reject(r: Result<Result<(), R1CSError>, String>, what: &str) -> Res {
    match r {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => fail(format!("accepted: {}", what)),
        Err(p) => fail(format!("panicked ({}): {}", p, what)),
    }
}
