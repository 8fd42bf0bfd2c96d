//! Checks of the proof system itself: C01 C02 C03 C04 C05 C08 C09(a) C24 C25.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, PrimeField, Zero};
use bulletproofs::r1cs::*;
use merlin::Transcript;
use vh::common::*;
use vh::engine::*;
use vh::ensure;
use vh::evil::*;
use vh::mirror::PM;
use vh::prog::*;

const CAP: usize = 256;
/// sizes of the large statements, and generators for them with two phases
const LARGE: usize = 6000;
const LARGECAP: usize = 8192;
const MED: Limits = Limits { max_ops: 60, max_vec: 17, max_dim: 90, blocks: 3, gates2: true };

macro_rules! on_curve {
    ($s:expr, $f:ident) => {
        match $s.below(4) {
            0 => $f::<Pal>($s),
            1 => $f::<Ves>($s),
            2 => $f::<SecP>($s),
            _ => $f::<SecQ>($s),
        }
    };
}

fn limits(s: &mut Src) -> Limits {
    if s.chance(1, 8) { MED } else { SMALL }
}

fn classes<F: PrimeField>(s: &mut Src, p: &Prog<F>) -> Interp<F> {
    let it = Interp::run(p);
    s.label(format!("vec={}", if it.nvec > 4 { "5+".into() } else { it.nvec.to_string() }));
    if !p.blocks.is_empty() { s.label(if it.gates > it.gates1 { "two-phase with gates" } else { "two-phase, constraints only" }); }
    s.label(format!("padded={}", it.padded()));
    if it.gates == 0 { s.label("no gates"); }
    if it.maxdim > 0 && it.gates1 == it.maxdim { s.label("size set by vector commitment"); }
    s.note(describe(p));
    it
}

// ---------------------------------------------------------------- C01
fn c01(s: &mut Src) -> Res { on_curve!(s, c01_) }
fn c01_<C: AffineRepr>(s: &mut Src) -> Res {
    let lim = limits(s);
    let p = gen_prog::<C::ScalarField>(s, lim);
    let it = classes(s, &p);
    if it.nontrivial_constraints > 0 || it.gates > 0 { s.nontrivial_by_choices(); }
    c01_run::<C>(&p)
}
/// Statements of thousands of gates, constraints, commitments.
fn c01_large(s: &mut Src) -> Res { on_curve!(s, c01_large_) }
fn c01_large_<C: AffineRepr>(s: &mut Src) -> Res {
    let p = gen_large::<C::ScalarField>(s, LARGE);
    s.note(describe_large(&p));
    s.nontrivial_by_choices();
    c01_with::<C>(&p, bp_gens::<C>(LARGECAP))
}
fn c01_run<C: AffineRepr>(p: &Prog<C::ScalarField>) -> Res { c01_with::<C>(p, bp_gens::<C>(CAP)) }
fn c01_with<C: AffineRepr>(p: &Prog<C::ScalarField>, bp: &'static bulletproofs::BulletproofGens<C>) -> Res {
    let pc = pc_gens::<C>();
    let mut pr = Prover::<Transcript, C>::new(pc, Transcript::new(b"c01"));
    let (comms, b1) = build_prover(&mut pr, p, bp);
    let (proof, mut t1) = match pr.prove_and_return_transcript(bp) {
        Ok(x) => x,
        Err(e) => return fail(format!("prover refused a satisfied statement: {:?}", e)),
    };
    let mut t2 = Transcript::new(b"c01");
    {
        let mut ve = Verifier::<&mut Transcript, C>::new(unsafe_static(&mut t2));
        let b2 = build_verifier(&mut ve, p, &comms);
        ensure!(b1.vars == b2.vars, "prover and verifier variables differ");
        ensure!(metrics_eq(&b1.metrics, &b2.metrics), "metrics differ: {:?} vs {:?}", b1.metrics, b2.metrics);
        ensure!(b1.size == b2.size, "sizes differ: {} vs {}", b1.size, b2.size);
        let r = ve.verify(&proof, pc, bp);
        ensure!(r.is_ok(), "honest proof rejected: {:?}", r);
        let (v1, v2) = (b1.vars2.borrow(), b2.vars2.borrow());
        ensure!(*v1 == *v2, "second-phase variables differ");
    }
    let (mut c1, mut c2) = ([0u8; 32], [0u8; 32]);
    t1.challenge_bytes(b"end", &mut c1);
    t2.challenge_bytes(b"end", &mut c2);
    ensure!(c1 == c2, "prover and verifier transcripts diverged");
    Ok(())
}
fn unsafe_static(t: &mut Transcript) -> &'static mut Transcript {
    // the verifier is dropped before `t`; deferred closures are 'static and do not hold it
    unsafe { &mut *(t as *mut Transcript) }
}
fn metrics_eq(a: &Metrics, b: &Metrics) -> bool {
    a.multipliers == b.multipliers && a.constraints == b.constraints && a.phase_one_constraints == b.phase_one_constraints && a.phase_two_constraints == b.phase_two_constraints
}

// ---------------------------------------------------------------- C02
/// changes one witness cell of the program
fn falsify_witness<F: PrimeField>(s: &mut Src, p: &Prog<F>) -> Prog<F> {
    let mut q = p.clone();
    let cells: Vec<usize> = q.ops.iter().enumerate().filter(|(_, o)| !matches!(o, Op::Mul { .. } | Op::Constrain(_))).map(|(i, _)| i).collect();
    if cells.is_empty() { return q; }
    let i = *s.pick(&cells);
    let d: F = nonzero_field(s);
    match &mut q.ops[i] {
        Op::Commit { v, .. } | Op::Alloc { v } => *v += d,
        Op::CommitVec { vs, .. } => { let k = s.usize(vs.len()); vs[k] += d; }
        Op::AllocMul { l, r } => if s.bool() { *l += d } else { *r += d },
        _ => {}
    }
    q
}

/// Large statements of which one constraint, anywhere, is off on either side or on both; large
/// accepted proofs with one element altered.
fn c02_large(s: &mut Src) -> Res { on_curve!(s, c02_large_) }
fn c02_large_<C: AffineRepr>(s: &mut Src) -> Res {
    let (pc, bp) = (pc_gens::<C>(), bp_gens::<C>(LARGECAP));
    let p = gen_large::<C::ScalarField>(s, LARGE / 2);
    s.note(describe_large(&p));
    let mut q = p.clone();
    let all = Interp::run(&q).constraints;
    if all == 0 { return Ok(()); }
    let at = match s.below(4) { 0 => all - 1, 1 => 0, _ => s.usize(all) };
    let d: C::ScalarField = nonzero_field(s);
    let both = s.bool();
    {
        let lc = nth_constraint(&mut q, at).unwrap();
        // another constant, or another coefficient of a variable
        let terms: Vec<usize> = (0..lc.len()).filter(|i| lc[*i].var.is_some()).collect();
        if !terms.is_empty() && s.bool() { let i = *s.pick(&terms); lc[i].c += d; } else { lc.push(Term { var: None, c: d, ch: 0 }); }
    }
    // inputs of gates follow their expressions, so only the verifier's may differ
    if !violates(&p, &q) { s.label("still satisfied"); return Ok(()); }
    s.nontrivial_by_choices();
    s.label(if both { "on both sides" } else { "verifier's statement" });
    let prover = if both && violates(&q, &q) { &q } else { &p };
    let (comms, proof) = match prove::<C>(prover, b"c02", pc, bp) { Ok(x) => x, Err(_) => return Ok(()) };
    expect_reject(guarded(|| verify::<C>(&q, b"c02", &comms, &proof, pc, bp)), &format!("constraint {} of {} is off", at, all))
}

fn nth_constraint<F: PrimeField>(p: &mut Prog<F>, k: usize) -> Option<&mut Lc<F>> {
    let mut v: Vec<&mut Lc<F>> = vec![];
    for o in p.ops.iter_mut().chain(p.blocks.iter_mut().flatten()) {
        match o {
            Op::Mul { l, r } => { v.push(l); v.push(r); }
            Op::Constrain(l) => v.push(l),
            _ => {}
        }
    }
    let n = v.len();
    if n == 0 { None } else { Some(v.remove(k % n)) }
}
fn count_constraints<F: PrimeField>(p: &Prog<F>) -> usize {
    p.ops.iter().chain(p.blocks.iter().flatten()).map(|o| match o { Op::Mul { .. } => 2, Op::Constrain(_) => 1, _ => 0 }).sum()
}

/// a statement that differs in one constraint
fn mutate_statement<F: PrimeField>(s: &mut Src, p: &Prog<F>) -> (Prog<F>, String) {
    let mut q = p.clone();
    let it = Interp::run(p);
    let nc = count_constraints(p);
    if nc == 0 || s.chance(1, 5) {
        // an extra constraint, at the end of phase one or of a block
        let n1: usize = { let mut i = Interp::new(); for o in &p.ops { i.step(o, F::one()); } i.vals.len() };
        let mut lc = vec![];
        if n1 > 0 {
            for _ in 0..s.range(1, 3) { lc.push(Term { var: Some(s.usize(n1)), c: nonzero_field(s), ch: 0 }); }
        }
        let v = it.eval(&lc, F::one());
        lc.push(Term { var: None, c: nonzero_field::<F>(s) - v, ch: 0 });
        if !q.blocks.is_empty() && s.bool() {
            let b = s.usize(q.blocks.len());
            q.blocks[b].push(Op::Constrain(lc));
            return (q, "extra second-phase constraint".into());
        }
        q.ops.push(Op::Constrain(lc));
        return (q, "extra constraint".into());
    }
    let k = s.usize(nc);
    let kind = s.below(4);
    let d: F = nonzero_field(s);
    let w = s.u64() as usize;
    let nv = it.vals.len();
    let lc = nth_constraint(&mut q, k).unwrap();
    let what = match kind {
        0 => { lc.push(Term { var: None, c: d, ch: 0 }); "constant" }
        1 if !lc.is_empty() => { let l = lc.len(); lc[w % l].c += d; "coefficient" }
        2 if !lc.is_empty() => { let l = lc.len(); lc.remove(w % l); "dropped term" }
        _ => {
            // exchange a variable with an earlier one, which exists at that point
            let l = lc.len();
            let mut done = false;
            if l > 0 {
                if let Some(v) = lc[w % l].var { if v > 0 && nv > 0 { lc[w % l].var = Some((v + 1 + w / 7) % (v + 1)); done = true; } }
            }
            if !done { lc.push(Term { var: None, c: d, ch: 0 }); }
            "variable"
        }
    };
    (q, format!("{} of constraint {}/{}", what, k, nc))
}

fn c02_false(s: &mut Src) -> Res { on_curve!(s, c02_false_) }
fn c02_false_<C: AffineRepr>(s: &mut Src) -> Res {
    let lim = limits(s);
    let p = gen_prog::<C::ScalarField>(s, lim);
    // prover proves the falsified program: its own assignment violates it
    let mut q = if s.bool() {
        s.label("falsified witness");
        falsify_witness(s, &p)
    } else {
        s.label("falsified constraint");
        mutate_statement(s, &p).0
    };
    if Interp::run(&q).bad.is_none() {
        // pin some variable to a wrong value
        let it = Interp::run(&p);
        let mut i1 = Interp::new();
        for o in &p.ops { i1.step(o, C::ScalarField::ONE); }
        let n = i1.vals.len();
        let d: C::ScalarField = nonzero_field(s);
        let lc = if n > 0 {
            let v = s.usize(n);
            let _ = it;
            vec![Term { var: Some(v), c: C::ScalarField::ONE, ch: 0 }, Term { var: None, c: -i1.vals[v] - d, ch: 0 }]
        } else { vec![Term { var: None, c: d, ch: 0 }] };
        q = p.clone();
        q.ops.push(Op::Constrain(lc));
        s.label("pinned variable");
    }
    let it = classes(s, &q);
    if it.bad.is_none() { return Ok(()); }
    s.nontrivial_by_choices();
    s.note(it.bad.clone().unwrap());
    c02_check::<C>(&q, &q)
}
fn c02_check<C: AffineRepr>(p: &Prog<C::ScalarField>, q: &Prog<C::ScalarField>) -> Res {
    let bp = bp_gens::<C>(CAP);
    let pc = pc_gens::<C>();
    // a panic of the prover on an unsatisfied statement produces no proof; fine
    match guarded(|| prove::<C>(p, b"c02", pc, bp)) {
        Ok(Ok((comms, proof))) => {
            let r = guarded(|| verify::<C>(q, b"c02", &comms, &proof, pc, bp));
            expect_reject(r, "proof for an unsatisfied statement")
        }
        _ => Ok(()),
    }
}
fn c02_verifier(s: &mut Src) -> Res { on_curve!(s, c02_verifier_) }
fn c02_verifier_<C: AffineRepr>(s: &mut Src) -> Res {
    let lim = limits(s);
    let p = gen_prog::<C::ScalarField>(s, lim);
    let (q, what) = mutate_statement(s, &p);
    classes(s, &q);
    if !violates(&p, &q) { s.label("mutation without effect"); return Ok(()); }
    s.nontrivial_by_choices();
    s.note(&what);
    s.label(what.split(" of ").next().unwrap().to_string());
    c02_check::<C>(&p, &q)
}

/// Provers that put unintended components into their commitments.
fn c02_deviate(s: &mut Src) -> Res { on_curve!(s, c02_deviate_) }
fn c02_deviate_<C: AffineRepr>(s: &mut Src) -> Res {
    let lim = Limits { max_ops: 10, max_vec: if s.chance(1, 6) { 9 } else { 4 }, max_dim: 6, blocks: 0, gates2: false };
    let mut p = gen_prog::<C::ScalarField>(s, lim);
    if s.chance(1, 2) && Interp::run(&p).nvec == 0 {
        let vs = (0..s.range(1, 4)).map(|_| nonzero_field(s)).collect();
        p.ops.insert(0, Op::CommitVec { vs, bl: field(s) });
        // shift variable numbers
        let k = match &p.ops[0] { Op::CommitVec { vs, .. } => vs.len(), _ => 0 };
        for o in p.ops.iter_mut().skip(1) {
            let f = |l: &mut Lc<C::ScalarField>| for t in l { if let Some(v) = &mut t.var { *v += k; } };
            match o { Op::Mul { l, r } => { f(l); f(r); } Op::Constrain(l) => f(l), _ => {} }
        }
    }
    let mut w = witness(&p);
    let bp = bp_gens::<C>(64);
    let pc = pc_gens::<C>();
    let lays = layouts(w.vecs.len());
    let cal = calibrated::<C>(w.vecs.len());
    let lay = if s.bool() { &cal } else { let li = s.usize(lays.len()); &lays[li] };
    let mut dev = Dev::<C::ScalarField>::default();
    let n = w.al.len();
    let mode = s.below(7);
    let mut legit = false;
    let what = match mode {
        0 => { legit = true; "calibration: no deviation" }
        1 | 2 => {
            // foreign components in A_O and/or the vector commitments, gate outputs chosen to fit
            if s.bool() || w.vecs.is_empty() { dev.ao_h = (0..n).map(|_| rand_nonzero(s)).collect(); }
            if s.bool() { dev.vec_h = w.vecs.iter().map(|_| (0..n).map(|_| rand_nonzero(s)).collect()).collect(); }
            let d = interference(&w, lay, &dev);
            for i in 0..n { w.ao[i] += d[i]; }
            if w.gates_hold() && n > 0 {
                let i = s.usize(n);
                let e: C::ScalarField = nonzero_field(s);
                w.ao[i] += e;
                s.label("deviation cannot interfere under this layout");
            }
            // keep the linear constraints satisfied by re-fitting their constants, in the statement
            "foreign components with fitted gate outputs"
        }
        3 => { dev.t_op = true; "surplus T at the operation degree" }
        4 => { dev.fudge_t = Some(s.usize(2 * (lay.0 + 1) + 1)); "discrepancy moved into another T" }
        5 => { dev.split_a2 = true; "second-phase commitments in a one-phase proof" }
        _ => "false gate or constraint, no cover-up",
    };
    if mode >= 3 && mode != 5 && n > 0 && s.bool() {
        let i = s.usize(n);
        let d: C::ScalarField = nonzero_field(s);
        w.ao[i] += d;
    }
    // the statement: same program, but with constants such that linear constraints hold for the
    // (possibly false) gate values, so that gates are the only thing wrong; or one constraint wrong
    let mut q = p.clone();
    for k in 0..w.cons.len() {
        let v = w.cons[k].0.iter().map(|(v, c)| w.val(w.kinds[*v]) * c).sum::<C::ScalarField>() + w.cons[k].1;
        if !v.is_zero() {
            w.cons[k].1 -= v;
            nth_constraint(&mut q, k).unwrap().push(Term { var: None, c: -v, ch: 0 });
        }
    }
    if mode >= 3 && mode != 5 && w.holds() && !w.cons.is_empty() {
        let k = s.usize(w.cons.len());
        let d: C::ScalarField = nonzero_field(s);
        w.cons[k].1 += d;
        nth_constraint(&mut q, k).unwrap().push(Term { var: None, c: d, ch: 0 });
    }
    let holds = w.holds();
    s.note(format!("{}; {}; layout {:?}", what, describe(&q), lay.0));
    s.label(what);
    let mut rnd = evil_rnd::<C::ScalarField>(s);
    let (comms, pm) = evil_prove::<C>(&q, &w, lay, &dev, b"c02", pc, bp, &mut rnd);
    let proof = match pm.proof() { Ok(p) => p, Err(_) => return Ok(()) };
    let r = guarded(|| verify::<C>(&q, b"c02", &comms, &proof, pc, bp));
    if legit || holds {
        if legit && matches!(r, Ok(Ok(()))) { s.label("calibration accepted"); }
        return Ok(());
    }
    s.nontrivial_by_choices();
    match r {
        Ok(Ok(())) => fail(format!("accepted a false statement: {} ({} vector commitments)", what, w.vecs.len())),
        _ => Ok(()),
    }
}

/// Errors that cancel each other if two conditions are combined with the same weight.
fn c02_cancel(s: &mut Src) -> Res { on_curve!(s, c02_cancel_) }
fn c02_cancel_<C: AffineRepr>(s: &mut Src) -> Res {
    let lim = limits(s);
    let p = gen_prog::<C::ScalarField>(s, lim);
    let nc = count_constraints(&p);
    let mut q = p.clone();
    let d: C::ScalarField = nonzero_field(s);
    if nc < 2 { return Ok(()); }
    let a = s.usize(nc);
    let what = match s.below(9) {
        6..=8 => {
            // a constraint of few terms without a constant, false, and a neighbour off by the opposite
            let at: Vec<usize> = q.ops.iter().enumerate().filter(|(_, o)| matches!(o, Op::Constrain(_))).map(|(i, _)| i).collect();
            if at.is_empty() { return Ok(()); }
            let k = *s.pick(&at);
            let mut it = Interp::new();
            for o in &q.ops[..k] { it.step(o, C::ScalarField::ONE); }
            if it.vals.is_empty() { return Ok(()); }
            let lc: Lc<C::ScalarField> = (0..s.range(1, 3)).map(|_| Term { var: Some(s.usize(it.vals.len())), c: nonzero_field(s), ch: 0 }).collect();
            let e = it.eval(&lc, C::ScalarField::ONE);
            if let Op::Constrain(l) = &mut q.ops[k] {
                // a single term more if it has none to change
                l.push(Term { var: None, c: -e, ch: 0 });
            }
            q.ops.insert(k + s.usize(2), Op::Constrain(lc));
            "a false constraint without constant, its neighbour off by the opposite"
        }
        0..=2 => {
            // neighbours, or any two; the same weight or one and its negative
            let b = if s.bool() { (a + 1) % nc } else { (a + 1 + s.usize(nc - 1)) % nc };
            let e = if s.chance(1, 5) { d } else { -d };
            nth_constraint(&mut q, a).unwrap().push(Term { var: None, c: d, ch: 0 });
            nth_constraint(&mut q, b).unwrap().push(Term { var: None, c: e, ch: 0 });
            "two constraints off by opposite amounts"
        }
        3 => {
            // three
            let (b, c) = (s.usize(nc), s.usize(nc));
            if a == b || b == c || a == c { return Ok(()); }
            let e: C::ScalarField = nonzero_field(s);
            for (k, v) in [(a, d), (b, e), (c, -d - e)] { nth_constraint(&mut q, k).unwrap().push(Term { var: None, c: v, ch: 0 }); }
            "three constraints off by amounts that sum to zero"
        }
        k => {
            // a constraint stated before, with another constant, possibly scaled, negated, its terms
            // in another order
            let mut lc: Lc<C::ScalarField> = nth_constraint(&mut q, a).unwrap().clone();
            if !q.ops.iter().any(|o| matches!(o, Op::Constrain(l) if *l == lc)) {
                // of the stated ones only: the linear combinations of gates are not zero
                let all: Vec<Lc<C::ScalarField>> = q.ops.iter().filter_map(|o| if let Op::Constrain(l) = o { Some(l.clone()) } else { None }).collect();
                if all.is_empty() { return Ok(()); }
                lc = all[a % all.len()].clone();
            }
            lc.push(Term { var: None, c: d, ch: 0 });
            if s.bool() {
                let f: C::ScalarField = if s.bool() { -C::ScalarField::ONE } else { nonzero_field(s) };
                for t in lc.iter_mut() { t.c *= f; }
            }
            if s.bool() { lc.reverse(); }
            if k == 4 { q.ops.push(Op::Constrain(lc)); } else {
                q.ops.push(Op::Constrain(lc.clone()));
                for t in lc.iter_mut() { t.c = -t.c; }
                q.ops.push(Op::Constrain(lc));
            }
            "a constraint repeated with another constant"
        }
    };
    let it = classes(s, &q);
    if it.bad.is_none() { return Ok(()); }
    s.nontrivial_by_choices();
    s.label(what);
    s.note(what);
    c02_check::<C>(&q, &q)
}

/// A linear combination of an unusual shape, over the first `nv` variables.
fn odd_lc<F: PrimeField>(s: &mut Src, nv: usize) -> (Lc<F>, &'static str) {
    let c: F = nonzero_field(s);
    let one = F::one();
    let k = if nv == 0 { s.below(3) } else { s.below(12) };
    let v = if nv == 0 { 0 } else { s.usize(nv) };
    let u = if nv == 0 { 0 } else { s.usize(nv) };
    let t = |v: usize, c: F| Term { var: Some(v), c, ch: 0 };
    let k0 = |c: F| Term { var: None, c, ch: 0 };
    match k {
        0 => (vec![], "empty"),
        1 => (vec![k0(c)], "a constant"),
        2 => (vec![k0(c), k0(one - c)], "two constants"),
        3 => (vec![t(v, one)], "one variable"),
        4 => (vec![t(v, c)], "one variable, scaled"),
        5 => (vec![t(v, c), k0(-c)], "a variable and a constant"),
        6 => (vec![t(v, c), t(v, one)], "a variable twice"),
        7 => (vec![t(v, c), t(v, -c), t(u, one)], "terms that cancel"),
        8 => (vec![t(v, F::zero()), t(u, c)], "a zero coefficient"),
        9 => (vec![t(v, -one), t(u, one)], "a difference"),
        10 => (vec![k0(c), t(v, -one)], "a constant first"),
        _ => ((0..s.range(2, 9)).map(|_| t(s.usize(nv), nonzero_field(s))).collect(), "several"),
    }
}

/// The prover leaves out a condition that the verifier states: accepted only if the verifier ignores it.
fn c02_omit(s: &mut Src) -> Res { on_curve!(s, c02_omit_) }
fn c02_omit_<C: AffineRepr>(s: &mut Src) -> Res {
    let mut lim = limits(s);
    lim.blocks = 0;
    let p = gen_prog::<C::ScalarField>(s, lim);
    let (mut a, mut b) = (p.clone(), p.clone());
    let mut it = Interp::new();
    for o in &p.ops { it.step(o, C::ScalarField::ONE); }
    let nv = it.vals.len();
    let d: C::ScalarField = nonzero_field(s);
    let what = if s.chance(2, 3) {
        // a gate: one or both of its inputs are not what the linear combinations say
        let ((l, wl), (r, wr)) = (odd_lc::<C::ScalarField>(s, nv), odd_lc::<C::ScalarField>(s, nv));
        let (lv, rv) = (it.eval(&l, C::ScalarField::ONE), it.eval(&r, C::ScalarField::ONE));
        b.ops.push(Op::Mul { l: l.clone(), r: r.clone() });
        let which = 1 + s.below(3);
        a.ops.push(Op::AllocMul { l: if which & 1 != 0 { lv + d } else { lv }, r: if which & 2 != 0 { rv + d } else { rv } });
        for (bit, lc, k) in [(1, l, 0), (2, r, 1)] {
            if which & bit == 0 {
                let mut c = lc;
                c.push(Term { var: Some(nv + k), c: -C::ScalarField::ONE, ch: 0 });
                a.ops.push(Op::Constrain(c));
            }
        }
        match which { 1 => format!("left input: {}", wl), 2 => format!("right input: {}", wr), _ => "both inputs".into() }
    } else {
        let (mut l, wl) = odd_lc::<C::ScalarField>(s, nv);
        let v = it.eval(&l, C::ScalarField::ONE);
        if v.is_zero() { l.push(Term { var: None, c: d, ch: 0 }); }
        b.ops.push(Op::Constrain(l));
        format!("constraint: {}", wl)
    };
    // something may follow, stated by both
    for _ in 0..s.usize(3) {
        let o = if nv > 0 && s.bool() {
            let lc: Lc<C::ScalarField> = odd_lc(s, nv).0;
            let v = it.eval(&lc, C::ScalarField::ONE);
            let mut lc = lc;
            lc.push(Term { var: None, c: -v, ch: 0 });
            Op::Constrain(lc)
        } else { Op::AllocMul { l: field(s), r: field(s) } };
        a.ops.push(o.clone());
        b.ops.push(o);
    }
    if Interp::run(&a).bad.is_some() { return fail("the reduced statement is true by construction"); }
    if !violates(&a, &b) { return fail("the full statement is false by construction"); }
    s.nontrivial_by_choices();
    s.label(what.clone());
    s.note(what);
    c02_check::<C>(&a, &b)
}

/// A prover that believes two conditions share a weight, and makes their errors cancel.
fn c02_weights(s: &mut Src) -> Res { on_curve!(s, c02_weights_) }
fn c02_weights_<C: AffineRepr>(s: &mut Src) -> Res {
    let lim = Limits { max_ops: if s.chance(1, 3) { 24 } else { 10 }, max_vec: 3, max_dim: 6, blocks: 0, gates2: false };
    let mut p = gen_prog::<C::ScalarField>(s, lim);
    for _ in 0..s.usize(4) {
        let (l, r): (C::ScalarField, C::ScalarField) = (field(s), field(s));
        p.ops.push(Op::AllocMul { l, r });
    }
    let mut w = witness(&p);
    let (n, nc) = (w.al.len() as u64, w.cons.len() as u64);
    let m = s.range(1, 17) as u64;
    let weights = match s.below(12) {
        0 => Weights::ZIsY,
        1 => Weights::NoZ,
        2 => Weights::YIsZ,
        3 | 4 => Weights::ZeroBased,
        5 => Weights::OneBasedY,
        6 => Weights::PeriodY(m),
        7 => Weights::StepY(m.max(2)),
        8 => Weights::PeriodZ(m),
        9 => Weights::StepZ(m.max(2)),
        10 => Weights::CapY(m - 1),
        _ => Weights::CapZ(m - 1),
    };
    // conditions: gates, then constraints
    let mono = |i: u64| if i < n { weights.gate(i) } else { weights.constraint(i - n) };
    let mut pairs = vec![];
    for i in 0..n + nc { for j in i + 1..n + nc { if Weights::same(mono(i), mono(j)) { pairs.push((i, j)); } } }
    if pairs.is_empty() { s.label("no two conditions share a weight"); return Ok(()); }
    let (i, j) = *s.pick(&pairs);
    let d: C::ScalarField = nonzero_field(s);
    let mut res = vec![C::ScalarField::zero(); nc as usize];
    for (k, e) in [(i, d), (j, -d)] {
        if k < n { w.ao[k as usize] -= e; } else { res[(k - n) as usize] = e; }
    }
    let mut q = p.clone();
    for k in 0..w.cons.len() {
        let v = w.cons[k].0.iter().map(|(v, c)| w.val(w.kinds[*v]) * c).sum::<C::ScalarField>() + w.cons[k].1;
        let fix = res[k] - v;
        if !fix.is_zero() {
            w.cons[k].1 += fix;
            nth_constraint(&mut q, k).unwrap().push(Term { var: None, c: fix, ch: 0 });
        }
    }
    if w.holds() { return fail("the planned errors are none"); }
    s.label(format!("{:?}", weights).split('(').next().unwrap().to_string());
    s.label(format!("{} and {}", if i < n { "gate" } else { "constraint" }, if j < n { "gate" } else { "constraint" }));
    s.note(format!("{:?}; conditions {} and {} of {} gates, {} constraints; {}", weights, i, j, n, nc, describe(&q)));
    let lay = &calibrated::<C>(w.vecs.len());
    let dev = Dev { weights, ..Dev::default() };
    let mut rnd = evil_rnd::<C::ScalarField>(s);
    let (comms, pm) = evil_prove::<C>(&q, &w, lay, &dev, b"c02", pc_gens::<C>(), bp_gens::<C>(64), &mut rnd);
    let proof = match pm.proof() { Ok(p) => p, Err(_) => return Ok(()) };
    s.nontrivial_by_choices();
    match guarded(|| verify::<C>(&q, b"c02", &comms, &proof, pc_gens::<C>(), bp_gens::<C>(64))) {
        Ok(Ok(())) => fail(format!("accepted errors of opposite sign in conditions {} and {} ({} gates, {} constraints)", i, j, n, nc)),
        _ => Ok(()),
    }
}
/// The layout under which the own prover's undeviating proofs are accepted, if any.
fn calibrated<C: AffineRepr>(ncomm: usize) -> (usize, Vec<(usize, usize)>) {
    use std::sync::Mutex;
    static CACHE: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
    let lays = layouts(ncomm);
    let known = CACHE.lock().unwrap().iter().find(|(n, _)| *n == ncomm).map(|(_, k)| *k);
    let k = known.unwrap_or_else(|| {
        let one = C::ScalarField::ONE;
        let mut p = Prog::<C::ScalarField> { label_data: vec![], ops: vec![], blocks: vec![] };
        for i in 0..ncomm { p.ops.push(Op::CommitVec { vs: vec![C::ScalarField::from(i as u64 + 5)], bl: C::ScalarField::from(i as u64 + 9) }); }
        p.ops.push(Op::AllocMul { l: one + one, r: one });
        for i in 0..ncomm {
            p.ops.push(Op::Constrain(vec![Term { var: Some(i), c: one, ch: 0 }, Term { var: None, c: -C::ScalarField::from(i as u64 + 5), ch: 0 }]));
        }
        let w = witness(&p);
        let mut ctr = 3u64;
        let k = lays.iter().position(|lay| {
            let mut rnd = || { ctr += 1; C::ScalarField::from(ctr * ctr + 1) };
            let (comms, pm) = evil_prove::<C>(&p, &w, lay, &Dev::default(), b"c02", pc_gens::<C>(), bp_gens::<C>(64), &mut rnd);
            pm.proof().map_or(false, |proof| matches!(guarded(|| verify::<C>(&p, b"c02", &comms, &proof, pc_gens::<C>(), bp_gens::<C>(64))), Ok(Ok(()))))
        }).unwrap_or(0);
        CACHE.lock().unwrap().push((ncomm, k));
        k
    });
    lays[k].clone()
}
fn evil_rnd<F: PrimeField>(s: &mut Src) -> impl FnMut() -> F {
    let rs: Vec<F> = (0..8).map(|_| rand_nonzero(s)).collect();
    let mut ctr = 0usize;
    move || {
        ctr += 1;
        rs[ctr % 8] * F::from((ctr * ctr + 1) as u64) + rs[(ctr * 3 + 1) % 8].square() * F::from(ctr as u64)
    }
}

// ---------------------------------------------------------------- C03
struct Honest<C: AffineRepr> {
    p: Prog<C::ScalarField>,
    comms: Vec<C>,
    pm: PM<C>,
}
fn honest_case<C: AffineRepr>(s: &mut Src, lim: Limits, label: &'static [u8]) -> Result<Honest<C>, Fail> {
    let p = gen_prog::<C::ScalarField>(s, lim);
    let (comms, proof) = honest::<C>(&p, label, bp_gens::<C>(CAP))?;
    s.note(describe(&p));
    Ok(Honest { p, comms, pm: PM::of(&proof) })
}
/// verification of a mirrored proof: Ok(true) accepted, Ok(false) rejected or undecodable, Err panic
fn try_verify<C: AffineRepr>(p: &Prog<C::ScalarField>, label: &'static [u8], comms: &[C], pm: &PM<C>) -> Result<bool, String> {
    guarded(|| match pm.proof() {
        Ok(pr) => verify::<C>(p, label, comms, &pr, pc_gens::<C>(), bp_gens::<C>(CAP)).is_ok(),
        Err(_) => false,
    })
}

/// another point than `old`, related to it or to the rest of the statement
fn other_point<C: AffineRepr>(s: &mut Src, old: C, pool: &[C]) -> C {
    use ark_ec::CurveGroup;
    let g = old.into_group();
    let c = match s.below(8) {
        0 => -g,
        1 => g + g,
        2 => g + pc_gens::<C>().B,
        3 => g + pc_gens::<C>().B_blinding,
        4 => C::zero().into_group(),
        5 => pool[s.usize(pool.len())].into_group(),
        6 => g + pc_gens::<C>().B_blinding * rand_nonzero::<C::ScalarField>(s),
        _ => rand_point::<C>(s).into_group(),
    }.into_affine();
    if c == old { (g + C::generator()).into_affine() } else { c }
}
fn other_scalar<F: PrimeField>(s: &mut Src, old: F, pool: &[F]) -> F {
    let c = match s.below(7) {
        0 => -old,
        1 => old + F::ONE,
        2 => old.double(),
        3 => F::ZERO,
        4 => pool[s.usize(pool.len())],
        5 => old - F::ONE,
        _ => rand_field(s),
    };
    if c == old { old + F::ONE } else { c }
}

fn c03_element(s: &mut Src) -> Res { on_curve!(s, c03_element_) }
fn c03_element_<C: AffineRepr>(s: &mut Src) -> Res {
    let h = honest_case::<C>(s, SMALL, b"c03")?;
    ensure!(try_verify(&h.p, b"c03", &h.comms, &h.pm) == Ok(true), "honest proof not accepted");
    // every position of this proof is altered once, plus some simultaneous alterations
    let pts: Vec<C> = h.pm.points().into_iter().map(|x| x.1).chain(h.comms.iter().copied()).collect();
    let names: Vec<String> = h.pm.points().into_iter().map(|x| x.0).collect();
    let scs: Vec<C::ScalarField> = (0..5).map(|i| *h.pm.clone().scalar_mut(i)).collect();
    let npos = names.len() + 5;
    let start = s.usize(npos);
    for k in 0..npos.min(6) {
        let mut m = h.pm.clone();
        let pos = (start + k * 5) % npos;
        let what;
        if pos < names.len() {
            let v = other_point(s, *m.point_mut(pos), &pts);
            *m.point_mut(pos) = v;
            what = names[pos].clone();
        } else {
            let i = pos - names.len();
            let v = other_scalar(s, *m.scalar_mut(i), &scs);
            *m.scalar_mut(i) = v;
            what = PM::<C>::SCALARS[i].to_string();
        }
        if h.pm.flag == 1 { m.flag = 1 } else { m.fix_flag(); }
        if m.bytes() == h.pm.bytes() { continue; }
        s.label(what.split('[').next().unwrap().to_string());
        s.nontrivial_by_choices();
        ensure!(try_verify(&h.p, b"c03", &h.comms, &m) != Ok(true), "accepted with {} replaced ({})", what, describe(&h.p));
    }
    Ok(())
}

fn c03_pair(s: &mut Src) -> Res { on_curve!(s, c03_pair_) }
fn c03_pair_<C: AffineRepr>(s: &mut Src) -> Res {
    use ark_ec::CurveGroup;
    let h = honest_case::<C>(s, SMALL, b"c03")?;
    let bl = pc_gens::<C>().B_blinding;
    let b = pc_gens::<C>().B;
    let mut m = h.pm.clone();
    let mut comms = h.comms.clone();
    let k: C::ScalarField = { let x: C::ScalarField = rand_nonzero(s); if x == C::ScalarField::ONE { x.double() } else { x } };
    // the multipliers the verification equation gives to each element, found by the element itself
    let vt = match tuple::<C>(&h.p, b"c03", &comms, &h.pm.proof().unwrap()) { Ok(t) => t, Err(e) => return fail(format!("tuple: {:?}", e)) };
    let mult = |p: &C| vt.proof_dependent_points.iter().position(|q| q == p).map(|i| vt.proof_dependent_scalars[i]);
    let shift = |p: &C, g: C, d: C::ScalarField| (p.into_group() + g * d).into_affine();
    let what = match s.below(10) {
        0 => { m.a *= k; m.b *= k.inverse().unwrap(); "a, b rescaled" }
        1 => { std::mem::swap(&mut m.a, &mut m.b); if m.a == m.b { m.a += k; } "a, b exchanged" }
        2 => {
            if m.l.is_empty() { m.a = -m.a; m.b = -m.b; } else {
                let i = s.usize(m.l.len());
                let t = m.l[i]; m.l[i] = m.r[i]; m.r[i] = t;
            }
            "L, R exchanged"
        }
        3 => {
            // same verification sum if the element were not hashed: compensate in e_blinding
            let i = s.usize(3);
            let f = mult(&m.p1[i]).unwrap();
            m.p1[i] = shift(&m.p1[i], bl, k);
            m.s[2] += k * f;
            "first-phase commitment with e_blinding"
        }
        4 if !m.l.is_empty() => {
            let i = s.usize(m.l.len());
            let f = mult(&m.l[i]).unwrap();
            m.l[i] = shift(&m.l[i], bl, k);
            m.s[2] += k * f;
            "L with e_blinding"
        }
        5 => {
            // two T's moved against each other
            let cand: Vec<usize> = (0..m.t.len()).filter(|i| !m.t[*i].is_zero()).collect();
            let (i, j) = (*s.pick(&cand), *s.pick(&cand));
            if i == j { m.t[i] = shift(&m.t[i], bl, k); } else {
                let (fi, fj) = (mult(&m.t[i]).unwrap(), mult(&m.t[j]).unwrap());
                m.t[i] = shift(&m.t[i], if s.bool() { bl } else { b }, k);
                m.t[j] = shift(&m.t[j], bl, -k * fi * fj.inverse().unwrap());
            }
            "two T shifted against each other"
        }
        6 => {
            let cand: Vec<usize> = (0..m.t.len()).filter(|i| !m.t[*i].is_zero()).collect();
            let i = *s.pick(&cand);
            let f = mult(&m.t[i]).unwrap() * mult(&m.t[0]).unwrap().inverse().unwrap();
            m.t[i] = shift(&m.t[i], bl, k);
            m.s[1] += k * f;
            "T with t_x_blinding"
        }
        7 if !comms.is_empty() => {
            let i = s.usize(comms.len());
            let f = mult(&comms[i]).unwrap();
            comms[i] = shift(&comms[i], bl, k);
            m.s[2] += k * f;
            "commitment with e_blinding"
        }
        8 if comms.len() >= 2 => {
            let i = s.usize(comms.len());
            let j = (i + 1 + s.usize(comms.len() - 1)) % comms.len();
            let (fi, fj) = (mult(&comms[i]).unwrap(), mult(&comms[j]).unwrap());
            comms[i] = shift(&comms[i], bl, k);
            comms[j] = if fj.is_zero() { comms[j] } else { shift(&comms[j], bl, -k * fi * fj.inverse().unwrap()) };
            "two commitments shifted against each other"
        }
        _ => {
            // prove-time scaling: all points negated and both sides
            m.s[1] += k; m.s[2] -= k;
            "t_x_blinding, e_blinding shifted against each other"
        }
    };
    m.fix_flag();
    if m.bytes() == h.pm.bytes() && comms == h.comms { return Ok(()); }
    s.label(what);
    s.note(what);
    s.nontrivial_by_choices();
    ensure!(try_verify(&h.p, b"c03", &comms, &m) != Ok(true), "accepted with {}", what);
    Ok(())
}

/// The two checks of a proof are combined by a scalar which the verification tuple shows; a combiner that a
/// prover can know lets the openings of both checks be shifted against each other.
fn c03_combiner(s: &mut Src) -> Res { on_curve!(s, c03_combiner_) }
fn c03_combiner_<C: AffineRepr>(s: &mut Src) -> Res {
    let h = honest_case::<C>(s, Limits { max_ops: 4, max_vec: 2, max_dim: 1, blocks: 1, gates2: true }, b"c03")?;
    if !h.pm.l.is_empty() || h.pm.t[0].is_zero() { return Ok(()); }
    let combiner = |m: &PM<C>| -> Option<C::ScalarField> {
        let vt = tuple::<C>(&h.p, b"c03", &h.comms, &m.proof().ok()?).ok()?;
        let i = vt.proof_dependent_points.iter().position(|q| *q == m.t[0])?;
        Some(vt.proof_dependent_scalars[i])
    };
    // the weight between the two checks must not be guessable: s(T[0]) = r x^0 against s(A_I1) = x^k
    let weights = |m: &PM<C>| -> Option<Vec<C::ScalarField>> {
        let vt = tuple::<C>(&h.p, b"c03", &h.comms, &m.proof().ok()?).ok()?;
        let at = |q: &C| vt.proof_dependent_points.iter().position(|o| o == q).map(|i| vt.proof_dependent_scalars[i]);
        let x = at(&m.t[1])? * at(&m.t[0])?.inverse()?;
        let mut w = at(&m.t[0])? * at(&m.p1[0])?.inverse()?;
        Some((0..m.t.len()).map(|_| { let v = w; w *= x; v }).collect())
    };
    let short = |f: &C::ScalarField| [*f, -*f, f.inverse().unwrap_or_default(), -f.inverse().unwrap_or_default()].iter().any(|f| as_u64(f).is_some());
    if let (Some(a), Some(b)) = (weights(&h.pm), weights(&h.pm)) {
        if let Some(k) = (0..a.len()).find(|k| short(&a[*k]) && short(&b[*k])) { return fail(format!("the weights between the two checks of a proof are short: {} and {}", show(&a[k]), show(&b[k]))); }
        s.label("weight seen");
    }
    let d: C::ScalarField = rand_nonzero(s);
    let mut m = h.pm.clone();
    let order = s.bool();
    // one opening is shifted, then the other by what the combiner asks for, seen before or after the shift
    for pass in 0..3 {
        let r = match combiner(&m) { Some(r) => r, None => return Ok(()) };
        if r.is_zero() { return Ok(()); }
        if order { m.s[1] = h.pm.s[1] + d; m.s[2] = h.pm.s[2] - r * d; } else { m.s[2] = h.pm.s[2] + d; m.s[1] = h.pm.s[1] - d * r.inverse().unwrap(); }
        s.label(format!("pass {}", pass));
        s.nontrivial_by_choices();
        ensure!(try_verify(&h.p, b"c03", &h.comms, &m) != Ok(true), "accepted with t_x_blinding and e_blinding shifted against each other by a combiner seen in the tuple (pass {})", pass);
    }
    Ok(())
}

fn c03_context(s: &mut Src) -> Res { on_curve!(s, c03_context_) }
fn c03_context_<C: AffineRepr>(s: &mut Src) -> Res {
    let h = honest_case::<C>(s, SMALL, b"c03")?;
    let pts: Vec<C> = h.pm.points().into_iter().map(|x| x.1).chain(h.comms.iter().copied()).collect();
    let mut comms = h.comms.clone();
    let mut q = h.p.clone();
    let mut label: &'static [u8] = b"c03";
    let what = match s.below(6) {
        0 | 1 if !comms.is_empty() => {
            let i = s.usize(comms.len());
            comms[i] = other_point(s, comms[i], &pts);
            "commitment replaced"
        }
        2 if comms.len() >= 2 => {
            let i = s.usize(comms.len());
            let j = (i + 1 + s.usize(comms.len() - 1)) % comms.len();
            comms.swap(i, j);
            "commitments exchanged"
        }
        3 => {
            if s.bool() { q.label_data.push(s.below(256) as u8); } else if q.label_data.is_empty() { q.label_data.push(0); } else { q.label_data[0] ^= 1; }
            "absorbed data"
        }
        4 => {
            // an additional, otherwise unused scalar commitment
            q.ops.push(Op::Commit { v: C::ScalarField::ZERO, bl: C::ScalarField::ZERO });
            let n1 = { let mut i = Interp::<C::ScalarField>::new(); for o in &q.ops { i.step(o, C::ScalarField::ONE); } i.vals.len() };
            // second-phase variable numbers move up by one
            for o in q.blocks.iter_mut().flatten() {
                let f = |l: &mut Lc<C::ScalarField>| for t in l { if let Some(v) = &mut t.var { if *v >= n1 - 1 { *v += 1; } } };
                match o { Op::Mul { l, r } => { f(l); f(r); } Op::Constrain(l) => f(l), _ => {} }
            }
            comms.push(if s.bool() { C::zero() } else { rand_point(s) });
            "additional commitment"
        }
        _ => { label = b"c03x"; "transcript label" }
    };
    if comms == h.comms && q == h.p && label == b"c03" { return Ok(()); }
    s.label(what);
    s.note(what);
    s.nontrivial_by_choices();
    ensure!(try_verify(&q, label, &comms, &h.pm) != Ok(true), "accepted with {}", what);
    Ok(())
}

/// The prover changes a message after it has seen the challenge that should depend on it.
fn c03_adaptive(s: &mut Src) -> Res { on_curve!(s, c03_adaptive_) }
fn c03_adaptive_<C: AffineRepr>(s: &mut Src) -> Res {
    let lim = Limits { max_ops: if s.chance(1, 3) { 16 } else { 6 }, max_vec: 3, max_dim: 6, blocks: 0, gates2: false };
    let p = gen_prog::<C::ScalarField>(s, lim);
    let w = witness(&p);
    if !w.holds() { return fail("generated programs are true"); }
    let lay = calibrated::<C>(w.vecs.len());
    let ncomm = w.v.len() + w.vecs.len();
    let rounds = w.al.len().next_power_of_two().trailing_zeros() as usize;
    let dmax = 2 * (lay.0 + 1);
    let what = match s.below(8) {
        0 if ncomm > 0 => LateMsg::V(s.usize(ncomm)),
        1 => LateMsg::AI1,
        2 => LateMsg::AO1,
        3 => LateMsg::S1,
        4 | 5 => {
            let ds: Vec<usize> = (0..=dmax).filter(|d| *d != lay.0).collect();
            let i = s.usize(ds.len());
            let j = (i + 1 + s.usize(ds.len() - 1)) % ds.len();
            LateMsg::T(ds[i.min(j)], ds[i.max(j)])
        }
        _ if rounds > 0 => LateMsg::LR(if s.bool() { rounds - 1 } else { s.usize(rounds) }),
        _ => LateMsg::S1,
    };
    let late = Late { what, after: s.bool() };
    s.label(format!("{:?}", what).split('(').next().unwrap().to_string() + if late.after { " after its challenge" } else { " not at all" });
    s.note(format!("{:?}; {}", late, describe(&p)));
    s.nontrivial_by_choices();
    let dev = Dev { late: Some(late), ..Dev::default() };
    let mut rnd = evil_rnd::<C::ScalarField>(s);
    let (comms, pm) = evil_prove::<C>(&p, &w, &lay, &dev, b"c03", pc_gens::<C>(), bp_gens::<C>(64), &mut rnd);
    let proof = match pm.proof() { Ok(p) => p, Err(_) => return Ok(()) };
    match guarded(|| verify::<C>(&p, b"c03", &comms, &proof, pc_gens::<C>(), bp_gens::<C>(64))) {
        Ok(Ok(())) => fail(format!("accepted a proof in which {:?} was changed once the following challenge was known", what)),
        _ => Ok(()),
    }
}
/// The same prover without a change: its proofs are accepted.
fn c03_calibration(s: &mut Src) -> Res { on_curve!(s, c03_calibration_) }
fn c03_calibration_<C: AffineRepr>(s: &mut Src) -> Res {
    let lim = Limits { max_ops: 16, max_vec: 3, max_dim: 6, blocks: 0, gates2: false };
    let p = gen_prog::<C::ScalarField>(s, lim);
    let w = witness(&p);
    let lay = calibrated::<C>(w.vecs.len());
    let mut rnd = evil_rnd::<C::ScalarField>(s);
    let (comms, pm) = evil_prove::<C>(&p, &w, &lay, &Dev::default(), b"c03", pc_gens::<C>(), bp_gens::<C>(64), &mut rnd);
    let r = pm.proof().map(|proof| guarded(|| verify::<C>(&p, b"c03", &comms, &proof, pc_gens::<C>(), bp_gens::<C>(64))));
    s.label(if matches!(r, Ok(Ok(Ok(())))) { "accepted" } else { "rejected: the attacks of this family do not apply to this protocol" });
    Ok(())
}

// ---------------------------------------------------------------- C04
/// verify, prepare and batch must all return
fn must_return<C: AffineRepr>(p: &Prog<C::ScalarField>, comms: &[C], bytes: &[u8], compressed: bool) -> Result<(bool, Option<PM<C>>), Fail> {
    use ark_serialize::CanonicalDeserialize;
    let e = |w: &str, m: String| Fail { sig: String::new(), msg: format!("{} panicked: {}", w, m) };
    let pr = guarded(|| if compressed { R1CSProof::<C>::from_bytes(bytes).ok() } else { R1CSProof::<C>::deserialize_uncompressed(bytes).ok() }).map_err(|m| e("decoding", m))?;
    let Some(pr) = pr else { return Ok((false, None)) };
    let pm = guarded(|| PM::of(&pr)).ok();
    let bp = bp_gens::<C>(CAP);
    let pc = pc_gens::<C>();
    let v = guarded(|| verify::<C>(p, b"c04", comms, &pr, pc, bp).is_ok()).map_err(|m| e("verify", m))?;
    let t = guarded(|| tuple::<C>(p, b"c04", comms, &pr)).map_err(|m| e("verification_scalars_and_points", m))?;
    if let Ok(t) = t {
        let b = guarded(|| batch_verify(vec![t], pc, bp).is_ok()).map_err(|m| e("batch_verify", m))?;
        if b != v { return Err(Fail { sig: String::new(), msg: format!("verify {} but batch verification {}", v, b) }); }
    } else if v { return Err(Fail { sig: String::new(), msg: "verify accepted, batch preparation refused".into() }); }
    Ok((v, pm))
}
fn c04_bytes(s: &mut Src) -> Res { on_curve!(s, c04_bytes_) }
fn c04_bytes_<C: AffineRepr>(s: &mut Src) -> Res {
    use ark_serialize::CanonicalSerialize;
    let h = honest_case::<C>(s, SMALL, b"c04")?;
    let compressed = s.chance(3, 4);
    let good = if compressed { h.pm.bytes() } else {
        let mut v = vec![];
        h.pm.proof().unwrap().serialize_uncompressed(&mut v).unwrap();
        v
    };
    for _ in 0..12 {
        let mut b = good.clone();
        let n = b.len();
        match s.below(10) {
            9 => { // the announced numbers of T, L, R
                let pt = if compressed { C::generator().compressed_size() } else { C::generator().uncompressed_size() };
                let t = pt * if h.pm.flag == 1 { 6 } else { 3 } + 1;
                let l = n - 2 * 32 - 16 - pt * (h.pm.l.len() + h.pm.r.len());
                let i = *s.pick(&[t, l, l + 8 + pt * h.pm.l.len()]);
                let v = match s.below(6) { 0 => u64::MAX, 1 => u64::MAX - s.below(5), 2 => 1u64 << s.below(64), 3 => (1u64 << s.below(64)).wrapping_sub(1), 4 => (isize::MAX as u64) / (1 + s.below(80)), _ => s.u64() };
                for (k, x) in v.to_le_bytes().iter().enumerate() { b[i + k] = *x; }
                s.label("announced length");
            }
            0 => { let i = s.usize(n); b[i] ^= 1 << s.below(8); }
            1 => { let i = s.usize(n); b[i] = s.below(256) as u8; }
            2 => b.truncate(s.usize(n)),
            3 => { let i = s.usize(n); let k = s.range(1, 40); for _ in 0..k { b.insert(i, s.below(256) as u8); } }
            4 => { let i = s.usize(n); let k = s.range(1, 40).min(n - i); b.drain(i..i + k); }
            5 => { // length prefixes and flag are at positions that depend on the shape: hit 8 byte windows
                let i = s.usize(n.saturating_sub(8).max(1));
                let v = match s.below(4) { 0 => 0u64, 1 => 1, 2 => u64::MAX, _ => s.u64() };
                for (k, x) in v.to_le_bytes().iter().enumerate() { if i + k < n { b[i + k] = *x; } }
            }
            6 => { let i = s.usize(n); for x in b[i..].iter_mut().take(33) { *x = 0; } }
            7 => { let i = s.usize(n); for x in b[i..].iter_mut().take(33) { *x = 0xff; } }
            _ => { let k = s.range(0, 600); b = (0..k).map(|_| s.below(256) as u8).collect(); }
        }
        let (acc, pm) = must_return::<C>(&h.p, &h.comms, &b, compressed)?;
        if pm.is_some() { s.label("decodes"); s.nontrivial_by_choices(); }
        if acc { ensure!(pm == Some(h.pm.clone()), "altered encoding accepted as a different proof"); }
    }
    Ok(())
}
fn c04_shape(s: &mut Src) -> Res { on_curve!(s, c04_shape_) }
fn c04_shape_<C: AffineRepr>(s: &mut Src) -> Res {
    let h = honest_case::<C>(s, SMALL, b"c04")?;
    for _ in 0..6 {
        let mut m = h.pm.clone();
        let mut what = vec![];
        for _ in 0..s.range(1, 2) {
            let rp = match s.below(3) { 0 => C::zero(), 1 => C::generator(), _ => rand_point(s) };
            what.push(match s.below(15) {
                0 => { m.t.pop(); "T too short" }
                1 => { m.t.push(rp); "T too long" }
                2 => { m.t.clear(); "T empty" }
                3 => { let k = s.range(1, 90); m.t.resize(k, rp); "T resized" }
                4 => { let i = s.usize(m.t.len().max(1)); if i < m.t.len() { m.t[i] = rp; } "T entry" }
                5 => { m.l.pop(); "L too short" }
                6 => { m.r.pop(); "R too short" }
                7 => { m.l.push(rp); "L too long" }
                8 => { m.r.push(rp); "R too long" }
                9 => { m.l.push(rp); m.r.push(rp); "L, R too long" }
                10 => { m.l.pop(); m.r.pop(); "L, R too short" }
                11 => { let k = s.range(0, 70); m.l.resize(k, rp); if s.bool() { m.r.resize(k, rp); } "L resized" }
                14 => { // numbers of rounds around word sizes, of which powers of two do not fit
                    let k = *s.pick(&[15usize, 16, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129]);
                    m.l.resize(k, rp); m.r.resize(k, rp);
                    "many rounds"
                }
                12 => { let i = s.usize(3); m.p2[i] = rp; m.flag = 1; "second-phase commitment" }
                _ => { let i = s.usize(6); *m.point_mut(i) = C::zero(); "identity commitment" }
            });
        }
        if s.bool() { m.fix_flag(); }
        let b = m.bytes();
        let (acc, pm) = must_return::<C>(&h.p, &h.comms, &b, true)?;
        if pm.is_some() { s.nontrivial_by_choices(); }
        for w in &what { s.label(*w); }
        if acc {
            ensure!(pm.as_ref() == Some(&h.pm), "accepted although altered in shape: {:?}", what);
        }
    }
    Ok(())
}
/// a proof made for one statement offered to an unrelated one
fn c04_foreign(s: &mut Src) -> Res { on_curve!(s, c04_foreign_) }
fn c04_foreign_<C: AffineRepr>(s: &mut Src) -> Res {
    let h = honest_case::<C>(s, SMALL, b"c04")?;
    let lim = limits(s);
    let q = gen_prog::<C::ScalarField>(s, lim);
    let nc = q.ops.iter().filter(|o| matches!(o, Op::Commit { .. } | Op::CommitVec { .. })).count();
    let comms: Vec<C> = (0..nc).map(|i| h.comms.get(i).copied().unwrap_or_else(|| if i % 2 == 0 { C::zero() } else { C::generator() })).collect();
    let (acc, _) = must_return::<C>(&q, &comms, &h.pm.bytes(), true)?;
    s.nontrivial_by_choices();
    // (two statements can legitimately share a proof, e.g. if they differ by an empty constraint)
    if acc { ensure!(Interp::run(&q).padded() == Interp::run(&h.p).padded(), "proof of another size accepted: {}", describe(&q)); }
    Ok(())
}
/// a prover whose second-phase commitments are pure blinding, in a statement with vector commitments
fn c04_surplus(s: &mut Src) -> Res { on_curve!(s, c04_surplus_) }
fn c04_surplus_<C: AffineRepr>(s: &mut Src) -> Res {
    let p = gen_prog::<C::ScalarField>(s, Limits { max_ops: 8, max_vec: 3, max_dim: 4, blocks: 0, gates2: false });
    let w = witness(&p);
    if w.vecs.is_empty() { return Ok(()); }
    let mut r = 0u64;
    let base: C::ScalarField = rand_nonzero(s);
    let mut rnd = || { r += 1; base * C::ScalarField::from(r) + base.square() };
    for lay in layouts(w.vecs.len()) {
        let dev = Dev { split_a2: true, ..Default::default() };
        let (comms, pm) = evil_prove::<C>(&p, &w, &lay, &dev, b"c04", pc_gens::<C>(), bp_gens::<C>(CAP), &mut rnd);
        let (acc, _) = must_return::<C>(&p, &comms, &pm.bytes(), true)?;
        s.nontrivial_by_choices();
        ensure!(!acc, "accepted with surplus second-phase commitments");
    }
    Ok(())
}

/// Proofs of large statements, with one element altered each time.
fn c03_large(s: &mut Src) -> Res { on_curve!(s, c03_large_) }
fn c03_large_<C: AffineRepr>(s: &mut Src) -> Res {
    let (pc, bp) = (pc_gens::<C>(), bp_gens::<C>(LARGECAP));
    let p = gen_large::<C::ScalarField>(s, LARGE / 2);
    s.note(describe_large(&p));
    s.nontrivial_by_choices();
    let (comms, proof) = honest::<C>(&p, b"c03", bp)?;
    let pm = PM::of(&proof);
    for _ in 0..8 {
        let (mut m, mut c) = (pm.clone(), comms.clone());
        let what = match s.below(8) {
            0 | 1 if !m.l.is_empty() => { let k = s.usize(m.l.len()); m.l[k] = another(s, &m.l[k]); format!("L[{}]", k) }
            2 | 3 if !m.r.is_empty() => { let k = s.usize(m.r.len()); m.r[k] = another(s, &m.r[k]); format!("R[{}]", k) }
            4 => { let d: C::ScalarField = rand_nonzero(s); if s.bool() { m.a += d } else { m.b += d }; "a or b".into() }
            5 => { let d: C::ScalarField = rand_nonzero(s); let k = s.usize(3); m.s[k] += d; format!("opened scalar {}", k) }
            6 => { let k = s.usize(3); m.p1[k] = another(s, &m.p1[k]); format!("first-phase commitment {}", k) }
            _ if !c.is_empty() => { let k = if s.bool() { c.len() - 1 } else { s.usize(c.len()) }; c[k] = another(s, &c[k]); format!("commitment {}", k) }
            _ => continue,
        };
        let Ok(pr) = m.proof() else { continue };
        s.label(what.split(|c: char| c == '[' || c.is_numeric()).next().unwrap().to_string());
        expect_reject(guarded(|| verify::<C>(&p, b"c03", &c, &pr, pc, bp)), &format!("{} replaced", what))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C05
/// Large members, among smaller ones.
fn c05_large(s: &mut Src) -> Res { on_curve!(s, c05_large_) }
fn c05_large_<C: AffineRepr>(s: &mut Src) -> Res {
    let (pc, bp) = (pc_gens::<C>(), bp_gens::<C>(LARGECAP));
    let k = s.range(2, 5);
    let big = 1 + s.usize(k);
    let mut ts: Vec<(VerificationTuple<C>, bool, usize)> = vec![];
    for i in 0..k {
        let p = if i < big { gen_large::<C::ScalarField>(s, LARGE / 2) } else { gen_prog::<C::ScalarField>(s, SMALL) };
        let (comms, proof) = honest::<C>(&p, b"c05", bp)?;
        let mut pm = PM::of(&proof);
        let bad = s.chance(1, 2 * k as u64);
        if bad { let d: C::ScalarField = rand_nonzero(s); if s.bool() { pm.a += d; } else { pm.s[0] += d; } }
        let pr = pm.proof().unwrap();
        let single = verify::<C>(&p, b"c05", &comms, &pr, pc, bp).is_ok();
        ensure!(single != bad, "member of {} {}", describe_large(&p), if bad { "accepted though altered" } else { "rejected" });
        let n = Interp::run(&p).padded();
        ts.push((match tuple::<C>(&p, b"c05", &comms, &pr) { Ok(t) => t, Err(e) => return fail(format!("preparation refused: {:?}", e)) }, single, n));
    }
    for i in (1..k).rev() { let j = s.usize(i + 1); ts.swap(i, j); }
    // one element of a tuple, at any generator, off
    if s.chance(1, 3) {
        let i = s.usize(k);
        let x = s.usize(ts[i].0.proof_independent_scalars.len());
        ts[i].0.proof_independent_scalars[x] += rand_nonzero::<C::ScalarField>(s);
        ts[i].1 = false;
        s.label("one scalar of a generator off");
    }
    let verdicts: Vec<bool> = ts.iter().map(|t| t.1).collect();
    let sizes: Vec<usize> = ts.iter().map(|t| t.2).collect();
    let want = verdicts.iter().all(|x| *x);
    s.label(if want { "all valid" } else { "some invalid" });
    s.note(format!("padded sizes {:?}, verdicts {:?}", sizes, verdicts));
    s.nontrivial_by_choices();
    let got = match guarded(|| batch_verify(ts.into_iter().map(|t| t.0).collect(), pc, bp)) { Ok(r) => r.is_ok(), Err(p) => return fail(format!("batch verification panicked: {}", p)) };
    ensure!(got == want, "batch verdict {} but members say {:?} (padded sizes {:?})", got, verdicts, sizes);
    Ok(())
}
fn c05(s: &mut Src) -> Res { on_curve!(s, c05_) }
fn c05_<C: AffineRepr>(s: &mut Src) -> Res {
    use ark_ec::CurveGroup;
    let k = match s.below(6) { 0 => 1, 1 | 2 => 2, 3 => 3, 4 => s.range(4, 6), _ => 2 };
    let (pc, bp) = (pc_gens::<C>(), bp_gens::<C>(CAP));
    let mut tuples = vec![];
    let mut verdicts = vec![];
    let mut sizes = vec![];
    let same = s.chance(1, 3);
    let mut shared: Option<Prog<C::ScalarField>> = None;
    let badrate = if s.bool() { 0 } else { 1 };
    for i in 0..k {
        let p = if same && shared.is_some() { shared.clone().unwrap() } else {
            let lim = if s.chance(1, 10) { MED } else if s.bool() { SMALL } else { Limits { max_ops: 4, max_vec: 2, max_dim: 40, blocks: 1, gates2: true } };
            gen_prog::<C::ScalarField>(s, lim)
        };
        shared = Some(p.clone());
        let (comms, proof) = honest::<C>(&p, b"c05", bp)?;
        let mut pm = PM::of(&proof);
        if s.below(3) < badrate {
            // invalid, but still preparable
            match s.below(4) {
                0 => { let d: C::ScalarField = rand_nonzero(s); pm.a += d; }
                1 => { let d: C::ScalarField = rand_nonzero(s); pm.s[s.usize(3)] += d; }
                2 => { pm.p1[0] = rand_point(s); }
                _ => { pm.t[0] = rand_point(s); }
            }
            s.label(format!("bad at {}", i));
        }
        let pr = pm.proof().unwrap();
        let single = verify::<C>(&p, b"c05", &comms, &pr, pc, bp).is_ok();
        let t = match tuple::<C>(&p, b"c05", &comms, &pr) { Ok(t) => t, Err(e) => return fail(format!("preparation refused: {:?}", e)) };
        sizes.push(Interp::run(&p).padded());
        tuples.push(t);
        verdicts.push(single);
    }
    // errors that cancel in a plain sum: multiples of one E that add up to zero over some of the members
    if k >= 2 && s.chance(1, 3) {
        let m = if s.bool() { 2 } else { s.range(2, k) };
        let first = if k > m && s.bool() { 1 + s.usize(k - m) } else { s.usize(k) };
        let at: Vec<usize> = (0..m).map(|i| (first + i) % k).collect();
        let mut co: Vec<C::ScalarField> = (0..m - 1).map(|_| if s.bool() { C::ScalarField::ONE } else { C::ScalarField::from(1 + s.below(9)) * if s.bool() { C::ScalarField::ONE } else { -C::ScalarField::ONE } }).collect();
        let sum: C::ScalarField = co.iter().sum();
        co.push(-sum);
        let e: C = rand_point(s);
        let how = s.below(3);
        let d: C::ScalarField = rand_nonzero(s);
        let len = at.iter().map(|i| tuples[*i].proof_independent_scalars.len()).min().unwrap().min(6);
        let x = s.usize(len);
        for (i, c) in at.iter().zip(&co) {
            if c.is_zero() { continue; }
            let t = &mut tuples[*i];
            match how {
                0 => { t.proof_dependent_points.push(e); t.proof_dependent_scalars.push(*c); }
                1 => { t.proof_dependent_points.push((e * *c).into_affine()); t.proof_dependent_scalars.push(C::ScalarField::ONE); }
                _ => t.proof_independent_scalars[x] += d * c,
            }
            verdicts[*i] = false;
        }
        s.label("cancelling errors");
        if !at.contains(&0) { s.label("cancelling errors beyond the first member"); }
    }
    let want = verdicts.iter().all(|x| *x);
    sizes.sort(); let mixed = sizes.first() != sizes.last();
    if mixed { s.label("mixed sizes"); }
    s.label(if want { "all valid" } else { "some invalid" });
    if k >= 2 { s.nontrivial_by_choices(); }
    s.note(format!("{} members, padded sizes {:?}, verdicts {:?}", k, sizes, verdicts));
    let got = match guarded(|| batch_verify(tuples, pc, bp)) { Ok(r) => r.is_ok(), Err(p) => return fail(format!("batch verification panicked: {}", p)) };
    ensure!(got == want, "batch verdict {} but members say {:?} (padded sizes {:?})", got, verdicts, sizes);
    Ok(())
}

/// Errors of two members whose ratio short weights can meet, and a bad member that would have to
/// meet the weight zero, many times over.
fn c05_short(s: &mut Src) -> Res { on_curve!(s, c05_short_) }
fn c05_short_<C: AffineRepr>(s: &mut Src) -> Res {
    let (pc, bp) = (pc_gens::<C>(), bp_gens::<C>(1));
    let reps = 2500u64;
    let k = s.range(2, 3);
    let (i, j) = if k == 2 { (0, 1) } else { *s.pick(&[(0usize, 1usize), (0, 2), (1, 2)]) };
    let d: C::ScalarField = rand_nonzero(s);
    let class = s.below(4);
    let base = s.below(1 << 16);
    s.nontrivial_by_choices();
    s.note(format!("{} batches of {} members, errors in members {} and {} in class {}", reps, k, i, j, class));
    s.label(["one bad member", "ratio below 256", "ratio below 65536", "ratio of a power of two"][class as usize]);
    for n in 0..reps {
        let ratio = match class {
            0 => C::ScalarField::ZERO,
            1 => C::ScalarField::from((base + n) % 256),
            2 => C::ScalarField::from((base + n * 7919) % 65536),
            _ => C::ScalarField::from(2u64).pow([(base + n) % 128]),
        };
        let ratio = if n % 2 == 0 { ratio } else { -ratio };
        let batch: Vec<VerificationTuple<C>> = (0..k).map(|m| {
            let e = if m == i { -ratio * d } else if m == j { d } else { C::ScalarField::ZERO };
            VerificationTuple { proof_dependent_points: vec![], proof_dependent_scalars: vec![], proof_independent_scalars: vec![e, C::ScalarField::ZERO, C::ScalarField::ZERO, C::ScalarField::ZERO] }
        }).collect();
        ensure!(batch_verify(batch, pc, bp).is_err(), "batch of {} members accepted although member {} is bad (errors {}·d and d in members {} and {})", k, j, show(&-ratio), i, j);
    }
    Ok(())
}
/// Weights that do not depend on (all of) the members' contents let a prover choose errors to match.
/// On a curve with known discrete logarithms, a pair of errors that passes is found by trying all;
/// if it keeps passing when it is rescaled, or written in other scalars or points, then the
/// weights cannot depend on them (random or fully hashed weights: probability 1/1069 each).
fn c05_fixed(s: &mut Src) -> Res {
    use vh::smallf::*;
    type F = F1069;
    let n = *s.pick(&[1usize, 2, 4]);
    let (pc, bp) = (pc_gens::<Toy>(), bp_gens::<Toy>(4));
    let g: Vec<Toy> = bp.share(0).G(n).copied().collect();
    let h: Vec<Toy> = bp.vh_h_generators(0)[..n].to_vec();
    let k = s.range(2, 4);
    let i = s.usize(k - 1);
    let j = s.range(i + 1, k - 1);
    let mut kinds = vec![0usize, 1, 2, 5];
    if n > 1 { kinds.extend([3, 4]); }
    let kind = *s.pick(&kinds);
    let names = ["scalars of B, B_blinding", "scalars of proof points", "proof points", "scalars of G", "scalars of H", "scalars of G and H"];
    s.nontrivial_by_choices();
    s.label(names[kind]);
    s.note(format!("{} members, errors in members {} and {} written in {}", k, i, j, names[kind]));
    // proof points and discrete logarithms of the two places an error is written in
    let nz = |s: &mut Src| F::from(1 + s.below(TOY_ORDER - 1));
    let pts: Vec<[F; 2]> = (0..k).map(|_| [nz(s), nz(s)]).collect();
    let (a, b) = if n > 1 { (0, s.range(1, n - 1)) } else { (0, 0) };
    let logs: Vec<[F; 2]> = (0..k).map(|m| match kind {
        0 => [toy_log(&pc.B), toy_log(&pc.B_blinding)],
        1 => pts[m],
        2 => [F::ONE, F::ONE],
        3 => [toy_log(&g[a]), toy_log(&g[b])],
        4 => [toy_log(&h[a]), toy_log(&h[b])],
        _ => [toy_log(&g[a]), toy_log(&h[b])],
    }).collect();
    if logs.iter().flatten().any(|x| x.is_zero()) { return Ok(()); }
    // error e of member m with the share v in the second place
    let member = |m: usize, e: Option<(F, F)>| -> VerificationTuple<Toy> {
        let mut t = VerificationTuple::<Toy> {
            proof_dependent_points: pts[m].iter().map(|x| (Toy::generator() * x).into_affine()).collect(),
            proof_dependent_scalars: vec![F::ZERO; 2],
            proof_independent_scalars: vec![F::ZERO; 2 + 2 * n],
        };
        if let Some((e, v)) = e {
            let u = (e - v * logs[m][1]) * logs[m][0].inverse().unwrap();
            match kind {
                0 => { t.proof_independent_scalars[0] = u; t.proof_independent_scalars[1] = v; }
                1 => t.proof_dependent_scalars = vec![u, v],
                2 => { t.proof_dependent_scalars = vec![F::ONE; 2]; t.proof_dependent_points = [u, v].iter().map(|x| (Toy::generator() * x).into_affine()).collect(); }
                3 => { t.proof_independent_scalars[2 + a] = u; t.proof_independent_scalars[2 + b] = v; }
                4 => { t.proof_independent_scalars[2 + n + a] = u; t.proof_independent_scalars[2 + n + b] = v; }
                _ => { t.proof_independent_scalars[2 + a] = u; t.proof_independent_scalars[2 + n + b] = v; }
            }
        }
        t
    };
    let accepted = |ei: (F, F), ej: (F, F)| batch_verify((0..k).map(|m| member(m, if m == i { Some(ei) } else if m == j { Some(ej) } else { None })).collect(), pc, bp).is_ok();
    let one = (F::ONE, nz(s));
    let share = nz(s);
    for e in 1..TOY_ORDER {
        let e = F::from(e);
        if !accepted(one, (e, share)) { continue; }
        s.label("a passing pair of errors");
        let cs = (2..8u64).map(F::from);
        ensure!(!cs.clone().all(|c| accepted((one.0 * c, one.1 * c), (e * c, share * c))), "errors of members {} and {} that cancel keep cancelling when both are rescaled: the weights do not depend on them ({})", i, j, names[kind]);
        ensure!(!cs.clone().all(|c| accepted(one, (e, share + c))), "an error of member {} that cancels that of member {} can be written in other {}: the weights do not depend on them", j, i, names[kind]);
        ensure!(!cs.clone().all(|c| accepted((one.0, one.1 + c), (e, share))), "an error of member {} that cancels that of member {} can be written in other {}: the weights do not depend on them", i, j, names[kind]);
        if s.bool() { break; }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08
/// Values of the verifier's challenges, recovered from the verification tuple of a statement with
/// a known beginning (see `probe`), each by a fixed formula of the protocol.
#[derive(Clone, Debug, PartialEq)]
struct Challenges<F> {
    phase2: Vec<F>,
    y: F,
    z: F,
    u: F,
    x: F,
    w: F,
    fold: Vec<F>,
}
/// Commit V0; constraint V0 = 0 first; four unconstrained gates; then the rest. The circuit is kept
/// off powers of two so that a padding position exists.
fn probe<F: PrimeField>(s: &mut Src, two_phase: bool) -> Prog<F> {
    let nvec = if two_phase { 0 } else { s.range(0, 3) };
    let mut ops = vec![Op::Commit { v: F::ZERO, bl: rand_nonzero(s) }, Op::Constrain(vec![Term { var: Some(0), c: F::ONE, ch: 0 }])];
    for _ in 0..4 { ops.push(Op::AllocMul { l: rand_nonzero(s), r: rand_nonzero(s) }); }
    for _ in 0..s.range(0, 2) { ops.push(Op::Commit { v: field(s), bl: rand_nonzero(s) }); }
    for _ in 0..nvec { ops.push(Op::CommitVec { vs: (0..s.range(1, 3)).map(|_| field(s)).collect(), bl: rand_nonzero(s) }); }
    // constraints on the later variables, so that everything has weight
    let mut it = Interp::<F>::new();
    for o in &ops { it.step(o, F::ONE); }
    let first = 13;
    for v in first..it.vals.len() {
        let c: F = rand_nonzero(s);
        ops.push(Op::Constrain(vec![Term { var: Some(v), c, ch: 0 }, Term { var: None, c: -c * it.vals[v], ch: 0 }]));
    }
    ops.push(Op::AllocMul { l: rand_nonzero(s), r: rand_nonzero(s) });
    let mut blocks = vec![];
    if two_phase {
        for _ in 0..s.range(1, 2) {
            blocks.push(if s.bool() { vec![Op::AllocMul { l: rand_nonzero(s), r: rand_nonzero(s) }] } else { vec![] });
        }
    }
    Prog { label_data: vec![1, 2, 3], ops, blocks }
}
struct Probe<'a, C: AffineRepr> {
    p: &'a Prog<C::ScalarField>,
    label: &'static [u8],
    comms: Vec<C>,
    pm: PM<C>,
}
fn probe_tuple<C: AffineRepr>(q: &Probe<C>) -> Option<(VerificationTuple<C>, Vec<C::ScalarField>)> {
    let mut ve = Verifier::<Transcript, C>::new(Transcript::new(q.label));
    let seen = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    // programs without blocks: build_verifier; blocks are declared here to observe their challenge
    let mut flat = q.p.clone();
    let blocks = std::mem::take(&mut flat.blocks);
    let b = build_verifier(&mut ve, &flat, &q.comms);
    let vars = b.vars.clone();
    for ops in blocks {
        let (sh, mut v) = (seen.clone(), vars.clone());
        ve.specify_randomized_constraints(move |rcs| {
            let ch = rcs.challenge_scalar(b"vh challenge");
            sh.borrow_mut().push(ch);
            for o in &ops { exec_op(rcs, o, &mut v, ch, false, 0)?; }
            Ok(())
        }).unwrap();
    }
    let t = ve.verification_scalars_and_points(&q.pm.proof().ok()?).ok()?;
    let seen = seen.borrow().clone();
    Some((t, seen))
}
fn challenges<C: AffineRepr>(q: &Probe<C>) -> Option<Challenges<C::ScalarField>> {
    let (mut t, phase2) = probe_tuple(q)?;
    let (mut t2, _) = probe_tuple(q)?;
    fn at<C: AffineRepr>(t: &VerificationTuple<C>, p: &C) -> Option<C::ScalarField> {
        t.proof_dependent_points.iter().position(|x| x == p).map(|i| t.proof_dependent_scalars[i])
    }
    let pm = &q.pm;
    // the equation may be weighted as a whole: the inner product part has weight 1 here
    for t in [&mut t, &mut t2] {
        let r = at(t, &pm.t[0])?;
        let weight = -(*t.proof_independent_scalars.get(1)? + r * pm.s[1]) * pm.s[2].inverse()?;
        let k = weight.inverse()?;
        t.proof_independent_scalars.iter_mut().chain(t.proof_dependent_scalars.iter_mut()).for_each(|x| *x *= k);
    }
    let n = (t.proof_independent_scalars.len() - 2) / 2;
    let g = &t.proof_independent_scalars[2..2 + n];
    let h = &t.proof_independent_scalars[2 + n..];
    let one = C::ScalarField::ONE;
    let r = at(&t, &pm.t[0])?;
    let r2 = at(&t2, &pm.t[0])?;
    let x = at(&t, &pm.t[1])? * r.inverse()?;
    let xop = at(&t, &pm.p1[1])?;
    let z = -(at(&t, &q.comms[0])? * (r * xop).inverse()?);
    let inva = -pm.a.inverse()?;
    // gates 0..4 are unconstrained: g_i = -a s_i, h_i + 1 = -y^-i b s_{n-1-i}; s_i s_{n-1-i} = 1
    let s1 = g[1] * inva;
    let s_opp = s1.inverse()?;
    let y = (h[1] + one).inverse()? * (-pm.b * s_opp);
    // the last position is padding: factor u
    let slast = (g[0] * inva).inverse()?;
    let u = if n > 5 { g[n - 1] * (-pm.a * slast).inverse()? } else { one };
    let (b1, b2) = (t.proof_independent_scalars[0], t2.proof_independent_scalars[0]);
    let kk = (b1 - b2) * (r - r2).inverse()?;
    let ta = pm.s[0] - pm.a * pm.b;
    if ta.is_zero() { return None; }
    let w = (b1 - r * kk) * ta.inverse()?;
    let mut fold = vec![];
    for l in &pm.l { fold.push(at(&t, l)?); }
    Some(Challenges { phase2, y, z, u, x, w, fold })
}
fn c08(s: &mut Src) -> Res { on_curve!(s, c08_) }
/// Another point: unrelated, or close in some way.
fn another<C: AffineRepr>(s: &mut Src, p: &C) -> C {
    let q = match s.below(4) {
        0 => (-p.into_group()).into_affine(),
        1 => (p.into_group() + C::generator()).into_affine(),
        _ => rand_point(s),
    };
    if q == *p { rand_point(s) } else { q }
}
fn c08_<C: AffineRepr>(s: &mut Src) -> Res {
    let two = s.chance(1, 2);
    let p = probe::<C::ScalarField>(s, two);
    let (comms, proof) = honest::<C>(&p, b"c08", bp_gens::<C>(CAP))?;
    let pm = PM::of(&proof);
    let base = Probe { p: &p, label: b"c08", comms: comms.clone(), pm: pm.clone() };
    // the equation is not the one expected here: nothing can be said about its challenges
    let Some(c0) = challenges(&base) else { s.label("challenges not recoverable"); return Ok(()) };
    let again = challenges(&base);
    ensure!(again.as_ref() == Some(&c0), "challenges are not a function of the proof");
    s.note(describe(&p));
    let n2 = Interp::run(&p).gates > Interp::run(&p).gates1;
    // (stage, change): stage 0 context/commitments, 1 first-phase, 2 second-phase, 3 T, 4 scalars, 5+k folding round k
    let mut changes: Vec<(usize, String, Probe<C>)> = vec![];
    let mk = |comms: &Vec<C>, pm: PM<C>, label: &'static [u8]| Probe { p: &p, label, comms: comms.clone(), pm };
    changes.push((0, "label".into(), mk(&comms, pm.clone(), b"c08x")));
    for i in 0..comms.len() {
        let mut c = comms.clone();
        c[i] = another(s, &c[i]);
        changes.push((0, format!("commitment {}", i), mk(&c, pm.clone(), b"c08")));
    }
    for i in 0..3 {
        let mut m = pm.clone();
        m.p1[i] = another(s, &m.p1[i]);
        changes.push((1, ["A_I1", "A_O1", "S1"][i].into(), mk(&comms, m, b"c08")));
    }
    // second-phase commitments may be absent (identity); changing them then is rejected or absorbed
    if n2 {
        for i in 0..3 {
            let mut m = pm.clone();
            m.p2[i] = another(s, &m.p2[i]);
            changes.push((2, ["A_I2", "A_O2", "S2"][i].into(), mk(&comms, m, b"c08")));
        }
    }
    for i in 0..pm.t.len() {
        if pm.t[i].is_zero() { continue; }
        let mut m = pm.clone();
        m.t[i] = another(s, &m.t[i]);
        changes.push((3, format!("T[{}]", i), mk(&comms, m, b"c08")));
    }
    for i in 0..3 {
        let mut m = pm.clone();
        let d: C::ScalarField = rand_nonzero(s);
        m.s[i] += d;
        changes.push((4, PM::<C>::SCALARS[i].into(), mk(&comms, m, b"c08")));
    }
    for k in 0..pm.l.len() {
        let mut m = pm.clone();
        m.l[k] = another(s, &m.l[k]);
        changes.push((5 + k, format!("L[{}]", k), mk(&comms, m, b"c08")));
        let mut m = pm.clone();
        m.r[k] = another(s, &m.r[k]);
        changes.push((5 + k, format!("R[{}]", k), mk(&comms, m, b"c08")));
    }
    let mut counted = 0;
    for (stage, what, pr) in changes {
        let Some(c) = challenges(&pr) else { s.label("change not preparable"); continue };
        counted += 1;
        let mut bad = vec![];
        if stage <= 1 { for (i, (a, b)) in c0.phase2.iter().zip(&c.phase2).enumerate() { if a == b { bad.push(format!("phase-2 challenge {}", i)); } } }
        if stage <= 2 {
            if c.y == c0.y { bad.push("y".into()); }
            if c.z == c0.z { bad.push("z".into()); }
        }
        if stage <= 3 {
            if c.u == c0.u && c0.u != C::ScalarField::ONE { bad.push("u".into()); }
            if c.x == c0.x { bad.push("x".into()); }
        }
        if stage <= 4 && c.w == c0.w { bad.push("w".into()); }
        for k in 0..c.fold.len() {
            if stage <= 5 + k && c.fold[k] == c0.fold[k] { bad.push(format!("folding challenge {}", k)); }
        }
        ensure!(bad.is_empty(), "after changing {} these challenges stayed the same: {:?}", what, bad);
        s.label(what.split(|c: char| c == '[' || c == ' ').next().unwrap().to_string());
    }
    // distinct challenges are distinct
    let mut all = vec![c0.y, c0.z, c0.x, c0.w];
    all.extend(c0.phase2.iter().copied());
    all.extend(c0.fold.iter().copied());
    let n = all.len();
    all.sort(); all.dedup();
    ensure!(all.len() == n, "two challenges coincide");
    if counted > 10 { s.nontrivial_by_choices(); }
    Ok(())
}
/// data absorbed between building steps is bound too: same statement, data at another moment
fn c08_data(s: &mut Src) -> Res { on_curve!(s, c08_data_) }
fn c08_data_<C: AffineRepr>(s: &mut Src) -> Res {
    let two = s.bool();
    let mut p = probe::<C::ScalarField>(s, two);
    p.label_data = (0..s.range(1, 40)).map(|_| s.below(256) as u8).collect();
    let (comms, proof) = honest::<C>(&p, b"c08", bp_gens::<C>(CAP))?;
    let pm = PM::of(&proof);
    let c0 = challenges(&Probe { p: &p, label: b"c08", comms: comms.clone(), pm: pm.clone() });
    let mut q = p.clone();
    let i = s.usize(q.label_data.len());
    q.label_data[i] ^= 1 << s.below(8);
    let c1 = challenges(&Probe { p: &q, label: b"c08", comms, pm });
    let (Some(a), Some(b)) = (c0, c1) else { return Ok(()) };
    s.nontrivial_by_choices();
    ensure!(a.y != b.y && a.z != b.z && a.x != b.x && a.w != b.w && a.phase2.iter().zip(&b.phase2).all(|(x, y)| x != y) && a.fold.iter().zip(&b.fold).all(|(x, y)| x != y), "a challenge does not depend on absorbed data");
    Ok(())
}

// ---------------------------------------------------------------- C24
#[derive(Clone, Debug)]
enum Ex<F> {
    Var(usize),
    Const(F),
    Lift(usize),
    Add(Box<Ex<F>>, Box<Ex<F>>),
    Sub(Box<Ex<F>>, Box<Ex<F>>),
    AddC(Box<Ex<F>>, F),
    SubC(Box<Ex<F>>, F),
    AddV(Box<Ex<F>>, usize),
    SubV(Box<Ex<F>>, usize),
    VAdd(usize, Box<Ex<F>>),
    VSub(usize, Box<Ex<F>>),
    VMul(usize, F),
    Neg(Box<Ex<F>>),
    NegV(usize),
    Mul(Box<Ex<F>>, F),
    SMul(Box<Ex<F>>, F),
    MulU(Box<Ex<F>>, u64),
    Collect(Vec<(usize, F)>, bool),
    Zero,
}
fn gen_ex<F: PrimeField>(s: &mut Src, nv: usize, depth: usize) -> Ex<F> {
    let leaf = depth == 0 || s.chance(1, 5);
    if leaf {
        return match s.below(7) {
            0 => Ex::Zero,
            1 => Ex::Const(field(s)),
            2 => Ex::Lift(s.usize(nv)),
            3 => Ex::VMul(s.usize(nv), field(s)),
            4 => Ex::NegV(s.usize(nv)),
            5 => Ex::Collect((0..s.range(0, 4)).map(|_| (s.usize(nv), field(s))).collect(), s.bool()),
            _ => Ex::Var(s.usize(nv)),
        };
    }
    let mut sub = |s: &mut Src| Box::new(gen_ex(s, nv, depth - 1));
    match s.below(12) {
        0 => Ex::Add(sub(s), sub(s)),
        1 => Ex::Sub(sub(s), sub(s)),
        2 => Ex::AddC(sub(s), field(s)),
        3 => Ex::SubC(sub(s), field(s)),
        4 => Ex::AddV(sub(s), s.usize(nv)),
        5 => Ex::SubV(sub(s), s.usize(nv)),
        6 => Ex::VAdd(s.usize(nv), sub(s)),
        7 => Ex::VSub(s.usize(nv), sub(s)),
        8 => Ex::Neg(sub(s)),
        9 => Ex::Mul(sub(s), field(s)),
        10 => Ex::SMul(sub(s), field(s)),
        _ => Ex::MulU(sub(s), s.below(1000)),
    }
}
fn ex_lc<F: PrimeField>(e: &Ex<F>, v: &[Variable<F>]) -> LinearCombination<F> {
    match e {
        Ex::Zero => LinearCombination::default(),
        Ex::Var(i) => v[*i].into(),
        Ex::Lift(i) => LinearCombination::from(v[*i]),
        Ex::Const(c) => constant::<F, F>(*c),
        Ex::Add(a, b) => ex_lc(a, v) + ex_lc(b, v),
        Ex::Sub(a, b) => ex_lc(a, v) - ex_lc(b, v),
        Ex::AddC(a, c) => ex_lc(a, v) + *c,
        Ex::SubC(a, c) => ex_lc(a, v) - *c,
        Ex::AddV(a, i) => ex_lc(a, v) + v[*i],
        Ex::SubV(a, i) => ex_lc(a, v) - v[*i],
        Ex::VAdd(i, a) => v[*i] + ex_lc(a, v),
        Ex::VSub(i, a) => v[*i] - ex_lc(a, v),
        Ex::VMul(i, c) => v[*i] * *c,
        Ex::Neg(a) => -ex_lc(a, v),
        Ex::NegV(i) => -v[*i],
        Ex::Mul(a, c) => ex_lc(a, v) * *c,
        Ex::SMul(a, c) => ex_lc(a, v).scalar_mul(*c),
        Ex::MulU(a, c) => ex_lc(a, v) * *c,
        Ex::Collect(t, by_ref) => {
            let t: Vec<(Variable<F>, F)> = t.iter().map(|(i, c)| (v[*i], *c)).collect();
            if *by_ref { t.iter().collect() } else { t.into_iter().collect() }
        }
    }
}
fn ex_val<F: PrimeField>(e: &Ex<F>, v: &[F]) -> F {
    match e {
        Ex::Zero => F::ZERO,
        Ex::Var(i) | Ex::Lift(i) => v[*i],
        Ex::Const(c) => *c,
        Ex::Add(a, b) => ex_val(a, v) + ex_val(b, v),
        Ex::Sub(a, b) => ex_val(a, v) - ex_val(b, v),
        Ex::AddC(a, c) => ex_val(a, v) + c,
        Ex::SubC(a, c) => ex_val(a, v) - c,
        Ex::AddV(a, i) => ex_val(a, v) + v[*i],
        Ex::SubV(a, i) => ex_val(a, v) - v[*i],
        Ex::VAdd(i, a) => v[*i] + ex_val(a, v),
        Ex::VSub(i, a) => v[*i] - ex_val(a, v),
        Ex::VMul(i, c) => v[*i] * c,
        Ex::Neg(a) => -ex_val(a, v),
        Ex::NegV(i) => -v[*i],
        Ex::Mul(a, c) | Ex::SMul(a, c) => ex_val(a, v) * c,
        Ex::MulU(a, c) => ex_val(a, v) * F::from(*c),
        Ex::Collect(t, _) => t.iter().map(|(i, c)| v[*i] * c).sum(),
    }
}
/// Long sums, built term by term or collected.
fn c24_long(s: &mut Src) -> Res { on_curve!(s, c24_long_) }
fn c24_long_<C: AffineRepr>(s: &mut Src) -> Res {
    use rand::{Rng, SeedableRng};
    let (pc, bp) = (pc_gens::<C>(), bp_gens::<C>(CAP));
    let mut pr = Prover::<Transcript, C>::new(pc, Transcript::new(b"c24"));
    let mut vars: Vec<Variable<C::ScalarField>> = vec![Variable::One(Default::default())];
    let mut vals = vec![C::ScalarField::ONE];
    let mut rng = rand::rngs::StdRng::seed_from_u64(s.u64());
    for _ in 0..s.range(0, 20) { let a = C::ScalarField::from(rng.gen::<u64>()); vars.push(pr.commit(a, a).1); vals.push(a); }
    let vs: Vec<C::ScalarField> = (0..s.range(1, 200)).map(|_| C::ScalarField::from(rng.gen::<u64>())).collect();
    vars.extend(pr.commit_vec(&vs, C::ScalarField::ONE, bp).1);
    vals.extend(vs);
    let n = 1usize << s.below(11);
    let n = n + s.usize(n);
    // one kind of step throughout, or all kinds
    let only = if s.chance(2, 3) { Some(s.below(9)) } else { None };
    let mut e = Ex::Zero;
    for _ in 0..n {
        let i = rng.gen_range(0..vars.len());
        let c = C::ScalarField::from(rng.gen::<u64>());
        let b = Box::new(e);
        e = match only.unwrap_or_else(|| rng.gen_range(0..9)) {
            0 => Ex::AddV(b, i),
            1 => Ex::SubV(b, i),
            2 => Ex::VAdd(i, b),
            3 => Ex::VSub(i, b),
            4 => Ex::AddC(b, c),
            5 => Ex::SubC(b, c),
            6 => Ex::Add(b, Box::new(Ex::VMul(i, c))),
            7 => Ex::Sub(b, Box::new(Ex::Collect((0..3).map(|_| (rng.gen_range(0..vars.len()), c)).collect(), true))),
            _ => Ex::Collect((0..n).map(|_| (rng.gen_range(0..vars.len()), C::ScalarField::from(rng.gen::<u64>()))).collect(), rng.gen()),
        };
    }
    e = match s.below(4) { 0 => Ex::Neg(Box::new(e)), 1 => Ex::Mul(Box::new(e), nonzero_field(s)), 2 => Ex::Sub(Box::new(Ex::Const(field(s))), Box::new(e)), _ => e };
    s.note(format!("{} steps of kind {:?} over {} variables", n, only, vars.len()));
    s.nontrivial_by_choices();
    let want = ex_val(&e, &vals);
    let lc = ex_lc(&e, &vars);
    let got = pr.eval(&lc);
    ensure!(got == want, "a sum of {} terms evaluates to {} instead of {}", n, got, want);
    let mut sum = C::ScalarField::ZERO;
    for (v, c) in lc.vh_terms() { match vars.iter().position(|x| x == v) { Some(i) => sum += vals[i] * c, None => return fail("expression mentions a variable that was not put in") } }
    ensure!(sum == want, "terms of a sum of {} terms mean {} instead of {}", n, sum, want);
    let (l, _, o) = pr.multiply(lc.clone(), lc);
    ensure!(pr.eval(&l.into()) == want && pr.eval(&o.into()) == want * want, "a gate on a sum of {} terms", n);
    Ok(())
}
fn c24(s: &mut Src) -> Res { on_curve!(s, c24_) }
fn c24_<C: AffineRepr>(s: &mut Src) -> Res {
    let (pc, bp) = (pc_gens::<C>(), bp_gens::<C>(CAP));
    let mut pr = Prover::<Transcript, C>::new(pc, Transcript::new(b"c24"));
    // an assignment with all kinds of variables, and the constant
    let mut vars: Vec<Variable<C::ScalarField>> = vec![Variable::One(Default::default())];
    let mut vals = vec![C::ScalarField::ONE];
    for _ in 0..s.range(1, 6) {
        let (a, b): (C::ScalarField, C::ScalarField) = (field(s), field(s));
        match s.below(4) {
            0 => { let (_, v) = pr.commit(a, b); vars.push(v); vals.push(a); }
            1 => {
                let vs: Vec<C::ScalarField> = (0..s.range(1, 5)).map(|_| field(s)).collect();
                vars.extend(pr.commit_vec(&vs, b, bp).1);
                vals.extend(vs);
            }
            2 => { vars.push(pr.allocate(Some(a)).unwrap()); vals.push(a); }
            _ => { let (x, y, z) = pr.allocate_multiplier(Some((a, b))).unwrap(); vars.extend([x, y, z]); vals.extend([a, b, a * b]); }
        }
    }
    let depth = s.range(0, 6);
    for _ in 0..4 {
        let e = gen_ex::<C::ScalarField>(s, vars.len(), depth);
        let want = ex_val(&e, &vals);
        let lc = ex_lc(&e, &vars);
        let got = pr.eval(&lc);
        ensure!(got == want, "expression {:?} evaluates to {} instead of {}", e, got, want);
        // the meaning term by term, independent of the prover's evaluation
        let mut sum = C::ScalarField::ZERO;
        for (v, c) in lc.vh_terms() {
            let i = vars.iter().position(|x| x == v);
            ensure!(i.is_some(), "expression mentions a variable that was not put in");
            sum += vals[i.unwrap()] * c;
        }
        ensure!(sum == want, "terms of expression {:?} mean {} instead of {}", e, sum, want);
        // a gate on two expressions
        let e2 = gen_ex::<C::ScalarField>(s, vars.len(), depth);
        let want2 = ex_val(&e2, &vals);
        let (l, r, o) = pr.multiply(lc, ex_lc(&e2, &vars));
        for (v, w, n) in [(l, want, "left"), (r, want2, "right"), (o, want * want2, "output")] {
            let g = pr.eval(&v.into());
            ensure!(g == w, "gate {} is {} instead of {}", n, g, w);
            vars.push(v);
            vals.push(w);
        }
        if depth > 0 { s.nontrivial_by_choices(); }
        if s.desc.len() < 300 { s.note(format!("{:?}", e).chars().take(200).collect::<String>()); }
    }
    // all gates built are consistent with their expressions: the whole assignment proves
    let size = pr.size().next_power_of_two();
    if size <= CAP {
        ensure!(pr.prove(bp).is_ok(), "prover failed");
    }
    Ok(())
}

// ---------------------------------------------------------------- C25
fn c25(s: &mut Src) -> Res { on_curve!(s, c25_) }
fn c25_<C: AffineRepr>(s: &mut Src) -> Res {
    let lim = if s.chance(1, 8) { Limits { max_ops: 40, max_vec: 3, max_dim: 40, blocks: 2, gates2: true } } else { SMALL };
    let p = gen_prog::<C::ScalarField>(s, lim);
    c25_with::<C>(s, p, CAP)
}
fn c25_large(s: &mut Src) -> Res { on_curve!(s, c25_large_) }
fn c25_large_<C: AffineRepr>(s: &mut Src) -> Res {
    let p = gen_large::<C::ScalarField>(s, 1200);
    c25_with::<C>(s, p, 2048)
}
fn c25_with<C: AffineRepr>(s: &mut Src, p: Prog<C::ScalarField>, most: usize) -> Res {
    let it = if most == CAP { classes(s, &p) } else { s.note(describe_large(&p)); Interp::run(&p) };
    let need = it.padded();
    // capacities around the boundary; vector commitments need generators to be made at all
    let cap = match s.below(6) {
        0 => need,
        1 => need.saturating_sub(1),
        2 => need + 1 + s.usize(need + 3),
        3 => s.usize(need + 1),
        4 => it.gates,
        _ => it.gates.saturating_sub(1),
    }.max(it.maxdim);
    let pc = pc_gens::<C>();
    let bp = bp_gens::<C>(cap);
    let big = bp_gens::<C>(most);
    s.note(format!("needs {}, has {}", need, cap));
    s.label(if cap >= need { "sufficient" } else { "short" });
    if cap != need { s.nontrivial_by_choices(); }
    let r = match guarded(|| prove::<C>(&p, b"c25", pc, bp)) { Ok(r) => r, Err(m) => return fail(format!("proving with capacity {} (needs {}) panicked: {}", cap, need, m)) };
    match r {
        Ok((comms, proof)) => {
            ensure!(cap >= need, "proof produced with {} generators where {} are needed", cap, need);
            ensure!(verify::<C>(&p, b"c25", &comms, &proof, pc, bp).is_ok(), "rejected with sufficient capacity");
            ensure!(verify::<C>(&p, b"c25", &comms, &proof, pc, big).is_ok(), "surplus capacity changed the verdict");
        }
        Err(e) => {
            ensure!(cap < need, "prover failed with {:?} although capacity {} covers {}", e, cap, need);
            ensure!(e == R1CSError::InvalidGeneratorsLength, "prover reported {:?}", e);
        }
    }
    // verification of a proof (valid or not) with that capacity
    let (comms, proof) = honest::<C>(&p, b"c25", big)?;
    let mut pm = PM::of(&proof);
    let bad = s.chance(1, 3);
    if bad { let d: C::ScalarField = rand_nonzero(s); pm.b += d; }
    let proof = pm.proof().unwrap();
    let want = if cap < need { Err(R1CSError::InvalidGeneratorsLength) } else if bad { Err(R1CSError::VerificationError) } else { Ok(()) };
    let v = match guarded(|| verify::<C>(&p, b"c25", &comms, &proof, pc, bp)) { Ok(r) => r, Err(m) => return fail(format!("verifying with capacity {} (needs {}) panicked: {}", cap, need, m)) };
    ensure!(v == want, "verify with capacity {} (needs {}) gave {:?}, expected {:?}", cap, need, v, want);
    // batch, alone and together with a smaller or larger member
    let t = tuple::<C>(&p, b"c25", &comms, &proof).map_err(|e| Fail { sig: String::new(), msg: format!("{:?}", e) })?;
    let v = match guarded(|| batch_verify(vec![t], pc, bp)) { Ok(r) => r, Err(m) => return fail(format!("batch verifying panicked: {}", m)) };
    ensure!(v == want, "batch of one with capacity {} (needs {}) gave {:?}, expected {:?}", cap, need, v, want);
    let q = gen_prog::<C::ScalarField>(s, SMALL);
    let need2 = Interp::run(&q).padded();
    let (c2, p2) = honest::<C>(&q, b"c25", big)?;
    let mut ts = vec![tuple::<C>(&p, b"c25", &comms, &proof).unwrap(), tuple::<C>(&q, b"c25", &c2, &p2).unwrap()];
    if s.bool() { ts.swap(0, 1); }
    let want = if cap < need.max(need2) { Err(R1CSError::InvalidGeneratorsLength) } else if bad { Err(R1CSError::VerificationError) } else { Ok(()) };
    let v = match guarded(|| batch_verify(ts, pc, bp)) { Ok(r) => r, Err(m) => return fail(format!("batch verifying panicked: {}", m)) };
    ensure!(v == want, "batch with capacity {} (members need {} and {}) gave {:?}, expected {:?}", cap, need, need2, v, want);
    Ok(())
}
/// a prover asked for values it is not given: error, and everything else still works
fn c25_missing(s: &mut Src) -> Res { on_curve!(s, c25_missing_) }
fn c25_missing_<C: AffineRepr>(s: &mut Src) -> Res {
    let (pc, bp) = (pc_gens::<C>(), bp_gens::<C>(CAP));
    let p = gen_prog::<C::ScalarField>(s, SMALL);
    s.note(describe(&p));
    let mut pr = Prover::<Transcript, C>::new(pc, Transcript::new(b"c25"));
    let mut vars = vec![];
    let mut comms = vec![];
    let mut asked = 0;
    if !p.label_data.is_empty() { pr.transcript().append_message(b"data", &p.label_data); }
    for (i, o) in p.ops.iter().enumerate() {
        while s.chance(1, 3) {
            asked += 1;
            let e = if s.bool() { pr.allocate(None).map(|_| ()) } else { pr.allocate_multiplier(None).map(|_| ()) };
            ensure!(e == Err(R1CSError::MissingAssignment), "allocation without assignment gave {:?}", e);
        }
        match o {
            Op::Commit { v, bl } => { let (c, x) = pr.commit(*v, *bl); comms.push(c); vars.push(x); }
            Op::CommitVec { vs, bl } => { let (c, x) = pr.commit_vec(vs, *bl, bp); comms.push(c); vars.extend(x); }
            o => exec_op(&mut pr, o, &mut vars, C::ScalarField::ONE, true, i).unwrap(),
        }
    }
    let blocks = p.blocks.clone();
    for ops in blocks {
        let mut v = vars.clone();
        let ask = s.bool();
        pr.specify_randomized_constraints(move |rcs| {
            let ch = rcs.challenge_scalar(b"vh challenge");
            if ask {
                assert!(rcs.allocate(None).err() == Some(R1CSError::MissingAssignment));
                assert!(rcs.allocate_multiplier(None).err() == Some(R1CSError::MissingAssignment));
            }
            for (i, o) in ops.iter().enumerate() { exec_op(rcs, o, &mut v, ch, true, i)?; }
            Ok(())
        }).unwrap();
    }
    if p.blocks.len() > 1 { return Ok(()); }
    if asked > 0 { s.nontrivial_by_choices(); }
    let proof = match pr.prove(bp) { Ok(p) => p, Err(e) => return fail(format!("prover unusable after a missing assignment: {:?}", e)) };
    let r = verify::<C>(&p, b"c25", &comms, &proof, pc, bp);
    ensure!(r.is_ok(), "proof made after a missing assignment rejected: {:?}", r);
    Ok(())
}

// ---------------------------------------------------------------- C08: relations of the curve trees
fn c08_relations(s: &mut Src) -> Res {
    if s.bool() { c08_rel::<ark_pallas::PallasConfig, ark_vesta::VestaConfig>(s) } else { c08_rel::<ark_secq256k1::Config, ark_secp256k1::Config>(s) }
}
/// P1: curve of the proof, P0: curve of the public child.
fn c08_rel<P0: SWCurveConfig + Copy, P1: SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy>(s: &mut Src) -> Res
where P0::BaseField: PrimeField, P0::ScalarField: PrimeField {
    use relations::single_level_select_and_rerandomize::*;
    let par = cached(64, || SingleLayerParameters::<P0>::new::<P1>(64));
    let m = s.below(4) as usize;
    let per = s.range(1, 3);
    let a: Affine<P0> = rand_point(s);
    let b: Affine<P0> = match s.below(3) { 0 => -a, 1 => (a + par.pc_gens.B_blinding).into_affine(), _ => rand_point(s) };
    let com: Affine<P1> = rand_point(s);
    let label: &'static [u8] = b"rel";
    s.note(format!("{} relation, {} children each", if m == 0 { "single".to_string() } else { format!("batched ({})", m) }, per));
    s.label(if m == 0 { "single" } else { "batched" });
    s.nontrivial_by_choices();
    let run = |child: &Affine<P0>, prover: bool| -> [u8; 32] {
        let wit: Vec<Affine<P0>> = (0..m.max(1)).map(|k| (Affine::<P0>::generator() * P0::ScalarField::from(k as u64 + 5)).into_affine()).collect();
        let r = P0::ScalarField::from(77u64);
        macro_rules! go { ($cs:expr, $vars:expr, $w:expr) => { {
            let v: Vec<LinearCombination<P1::ScalarField>> = $vars.into_iter().map(|x| x.into()).collect();
            let rr = if $w { Some(r) } else { None };
            match m {
                0 => single_level_select_and_rerandomize(&mut $cs, par, child, v, if $w { Some(wit[0]) } else { None }, rr),
                1 => { let w: [Affine<P0>; 1] = wit.clone().try_into().unwrap(); single_level_batched_select_and_rerandomize::<_, _, _, _, 1>(&mut $cs, par, child, v, if $w { Some(&w) } else { None }, rr) }
                2 => { let w: [Affine<P0>; 2] = wit.clone().try_into().unwrap(); single_level_batched_select_and_rerandomize::<_, _, _, _, 2>(&mut $cs, par, child, v, if $w { Some(&w) } else { None }, rr) }
                _ => { let w: [Affine<P0>; 3] = wit.clone().try_into().unwrap(); single_level_batched_select_and_rerandomize::<_, _, _, _, 3>(&mut $cs, par, child, v, if $w { Some(&w) } else { None }, rr) }
            }
            vh::tree::tr_state($cs.transcript())
        } } }
        if prover {
            let bp = bp_gens::<Affine<P1>>(CAP);
            let mut pr = Prover::<Transcript, Affine<P1>>::new(pc_gens::<Affine<P1>>(), Transcript::new(label));
            let (_, vars) = pr.commit_vec(&vec![P1::ScalarField::from(3u64); per * m.max(1)], P1::ScalarField::from(9u64), bp);
            go!(pr, vars, true)
        } else {
            let mut ve = Verifier::<Transcript, Affine<P1>>::new(Transcript::new(label));
            let vars = ve.commit_vec(per * m.max(1), com);
            go!(ve, vars, false)
        }
    };
    for prover in [false, true] {
        ensure!(run(&a, prover) == run(&a, prover), "transcript is not a function of the inputs");
        ensure!(a == b || run(&a, prover) != run(&b, prover), "the {} transcript is the same for two different public children: challenges do not depend on the child", if prover { "prover's" } else { "verifier's" });
    }
    Ok(())
}

fn main() {
    main_with(&[
        ("C01", vec![
            Sub { name: "complete", rule: "satisfied program with at least one gate or constraint on variables", quick: 1200, thorough: 40000, f: c01 },
            Sub { name: "large", rule: "up to thousands of gates and constraints, hundreds of commitments, long vectors", quick: 48, thorough: 1500, f: c01_large },
        ], &["hash functions and the arkworks curve arithmetic are correct"]),
        ("C02", vec![
            Sub { name: "falsified", rule: "prover's assignment violates its own statement per the reference interpreter", quick: 900, thorough: 30000, f: c02_false },
            Sub { name: "verifier_statement", rule: "verifier's statement is violated by the prover's assignment", quick: 900, thorough: 30000, f: c02_verifier },
            Sub { name: "deviating_prover", rule: "statement false, proof made by a prover that deviates from the protocol", quick: 1200, thorough: 30000, f: c02_deviate },
            Sub { name: "cancelling", rule: "statement false: two or three constraints off by amounts that sum to zero, or one stated twice with different constants", quick: 900, thorough: 30000, f: c02_cancel },
            Sub { name: "omitted", rule: "the prover leaves out a constraint, which its assignment violates", quick: 1200, thorough: 40000, f: c02_omit },
            Sub { name: "weights", rule: "two conditions (gates or constraints) false, with errors that cancel if they are combined with the same weight, and a prover that assumes so", quick: 1500, thorough: 40000, f: c02_weights },
            Sub { name: "large", rule: "up to thousands of gates and constraints, one of which is off", quick: 40, thorough: 1500, f: c02_large },
        ], &["hash functions and the arkworks curve arithmetic are correct", "the deviating prover covers the listed deviations only"]),
        ("C03", vec![
            Sub { name: "element", rule: "one element of an accepted proof replaced by a different one", quick: 700, thorough: 25000, f: c03_element },
            Sub { name: "related", rule: "elements changed together by algebraic relations", quick: 1500, thorough: 40000, f: c03_pair },
            Sub { name: "combiner", rule: "proof without folding rounds, two openings shifted by a combiner seen in the tuple", quick: 400, thorough: 10000, f: c03_combiner },
            Sub { name: "adaptive", rule: "own prover that changes a message (V, A_I1, A_O1, S1, two T, L and R of a round) after the challenge that should depend on it", quick: 800, thorough: 25000, f: c03_adaptive },
            Sub { name: "calibration", rule: "the same prover unchanged (not counted)", quick: 60, thorough: 500, f: c03_calibration },
            Sub { name: "large", rule: "elements of proofs of statements of up to thousands of gates", quick: 24, thorough: 1000, f: c03_large },
            Sub { name: "context", rule: "commitments, their order or number, absorbed data or label changed", quick: 1200, thorough: 40000, f: c03_context },
        ], &["hash functions and the arkworks curve arithmetic are correct"]),
        ("C04", vec![
            Sub { name: "bytes", rule: "mutated encoding that still decodes", quick: 1000, thorough: 40000, f: c04_bytes },
            Sub { name: "shape", rule: "proof with missing, surplus or identity parts that decodes", quick: 900, thorough: 30000, f: c04_shape },
            Sub { name: "foreign", rule: "proof offered to an unrelated statement", quick: 500, thorough: 20000, f: c04_foreign },
            Sub { name: "surplus_phase2", rule: "statement with vector commitments, proof with blinding-only second-phase commitments", quick: 150, thorough: 4000, f: c04_surplus },
        ], &["hash functions and the arkworks curve arithmetic are correct"]),
        ("C05", vec![
            Sub { name: "batch", rule: "batch of at least two members", quick: 900, thorough: 30000, f: c05 },
            Sub { name: "large", rule: "members of up to thousands of gates, valid or with one alteration", quick: 28, thorough: 1000, f: c05_large },
            Sub { name: "short", rule: "many small batches whose errors short weights would cancel", quick: 32, thorough: 400, f: c05_short },
            Sub { name: "fixed", rule: "all ratios of two members' errors on a toy curve, passing ones rescaled and rewritten", quick: 400, thorough: 8000, f: c05_fixed },
        ], &["hash functions and the arkworks curve arithmetic are correct"]),
        ("C08", vec![
            Sub { name: "messages", rule: "more than ten elements changed and their later challenges recovered", quick: 300, thorough: 8000, f: c08 },
            Sub { name: "data", rule: "one bit of absorbed data changed", quick: 300, thorough: 8000, f: c08_data },
            Sub { name: "relations", rule: "public child of the single and batched level relations replaced, on both sides", quick: 600, thorough: 20000, f: c08_relations },
        ], &["challenges are recovered from the public verification tuple by the protocol's formulas"]),
        ("C24", vec![
            Sub { name: "expressions", rule: "expression trees of depth at least one", quick: 4000, thorough: 150000, f: c24 },
            Sub { name: "long", rule: "sums of up to two thousand steps", quick: 400, thorough: 10000, f: c24_long },
        ], &[]),
        ("C25", vec![
            Sub { name: "capacity", rule: "capacity different from the padded size", quick: 900, thorough: 30000, f: c25 },
            Sub { name: "large", rule: "capacity different from the padded size, up to 2048", quick: 40, thorough: 1000, f: c25_large },
            Sub { name: "missing", rule: "at least one request without an assignment", quick: 700, thorough: 20000, f: c25_missing },
        ], &["hash functions and the arkworks curve arithmetic are correct"]),
    ]);
}
