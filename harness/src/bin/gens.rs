//! Checks of generators and commitments (C07) and of blinding (C09).
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use ark_std::One;
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;
use rand::rngs::StdRng;
use rand::SeedableRng;
use relations::coin::*;
use relations::curve_tree::*;
use relations::single_level_select_and_rerandomize::*;
use std::collections::{HashMap, HashSet};
use vh::coin::*;
use vh::common::*;
use vh::engine::*;
use vh::evil::{challenge, ser, witness, layouts, Wit};
use vh::mirror::PM;
use vh::prog::{gen_prog, Limits, Op, Prog, Term};
use vh::tree::*;
use vh::{cfn, ensure, gfn};

type Pc = ark_pallas::PallasConfig;
type Vc = ark_vesta::VestaConfig;
type S0 = ark_secp256k1::Config;
type S1 = ark_secq256k1::Config;

macro_rules! on_config {
    ($s:expr, $f:ident) => {
        match $s.below(4) {
            0 => $f::<Pc>($s),
            1 => $f::<Vc>($s),
            2 => $f::<S0>($s),
            _ => $f::<S1>($s),
        }
    };
}

/// x-coordinate as a hash key (identifies a point up to sign); None for the identity
fn xkey<C: AffineRepr>(p: &C) -> Option<Vec<u64>> {
    let (x, _) = p.xy()?;
    Some(x.to_base_prime_field_elements().flat_map(|e| e.into_bigint().as_ref().to_vec()).collect())
}
fn affine<C: AffineRepr>(v: &[C::Group]) -> Vec<C> { C::Group::normalize_batch(v) }

/// Small multiples of a base point by x-coordinate: k -> |k| for 1 <= k <= 2^bits.
fn small_multiples<C: AffineRepr>(base: &C, bits: usize) -> HashMap<Vec<u64>, u64> {
    let mut acc = base.into_group();
    let mut v = vec![];
    for _ in 0..1u64 << bits { v.push(acc); acc += *base; }
    affine::<C>(&v).iter().enumerate().filter_map(|(i, p)| Some((xkey(p)?, i as u64 + 1))).collect()
}
fn blinding_multiples<C: AffineRepr + 'static>() -> &'static HashMap<Vec<u64>, u64> {
    struct Holder<C>(HashMap<Vec<u64>, u64>, std::marker::PhantomData<fn() -> C>);
    let h: &'static Holder<C> = cached(16, || Holder::<C>(small_multiples(&pc_gens::<C>().B_blinding, 16), std::marker::PhantomData));
    &h.0
}
/// |k| < 2^33 with p = k * base, by baby steps (the table) and giant steps
fn small_log<C: AffineRepr + 'static>(p: &C, base: &C) -> bool {
    let t = blinding_multiples::<C>();
    let giant = (*base * C::ScalarField::from(1u64 << 17)).into_affine();
    let mut acc = p.into_group();
    let mut v = vec![];
    for _ in 0..1u64 << 15 { v.push(acc); acc -= giant; }
    let mut acc = p.into_group() + giant;
    for _ in 0..1u64 << 15 { v.push(acc); acc += giant; }
    affine::<C>(&v).iter().any(|q| match xkey(q) { None => true, Some(k) => t.contains_key(&k) })
}

/// Points that should be unrelated multiples of the blinding base: none is the identity or a small
/// multiple, and there are no coincidences among them, their doubles, sums and differences.
fn unrelated_blinds<C: AffineRepr + 'static>(names: &[String], pts: &[C]) -> Res {
    let small = blinding_multiples::<C>();
    let mut seen: HashMap<Vec<u64>, usize> = HashMap::new();
    for (i, p) in pts.iter().enumerate() {
        let Some(k) = xkey(p) else { return fail(format!("{} is not blinded", names[i])) };
        if let Some(m) = small.get(&k) { return fail(format!("the blinding of {} is {} (up to sign)", names[i], m)); }
        if let Some(j) = seen.insert(k, i) { return fail(format!("{} and {} have the same blinding (up to sign)", names[j], names[i])); }
    }
    let mut v = vec![];
    let mut what = vec![];
    for i in 0..pts.len() {
        v.push(pts[i].into_group() + pts[i]);
        what.push(format!("twice the blinding of {}", names[i]));
        for j in 0..i.min(12) {
            v.push(pts[i].into_group() + pts[j]);
            what.push(format!("the sum of the blindings of {} and {}", names[j], names[i]));
            v.push(pts[i].into_group() - pts[j]);
            what.push(format!("the difference of the blindings of {} and {}", names[i], names[j]));
        }
    }
    let mut derived: HashMap<Vec<u64>, usize> = HashMap::new();
    for (i, p) in affine::<C>(&v).iter().enumerate() {
        let Some(k) = xkey(p) else { return fail(format!("{} is zero", what[i])) };
        if let Some(j) = seen.get(&k) { return fail(format!("{} is the blinding of {} (up to sign)", what[i], names[*j])); }
        if let Some(m) = small.get(&k) { return fail(format!("{} is {} (up to sign)", what[i], m)); }
        if let Some(j) = derived.insert(k, i) { return fail(format!("{} equals {} (up to sign)", what[i], what[j])); }
    }
    Ok(())
}

/// Scalars that should be independent uniform: full size, distinct (also up to sign), no progression.
fn unrelated_scalars<F: PrimeField>(names: &[String], v: &[F]) -> Res {
    for i in 0..v.len() {
        for x in [v[i], -v[i]] {
            ensure!(x.into_bigint().num_bits() > 100, "{} is {}, not a full-size random scalar", names[i], show(&v[i]));
        }
        for j in 0..i {
            ensure!(v[i] != v[j] && v[i] != -v[j], "{} and {} are equal up to sign", names[i], names[j]);
            for x in [v[i] - v[j], v[j] - v[i]] {
                ensure!(x.into_bigint().num_bits() > 64, "{} and {} differ by little", names[i], names[j]);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
/// What the generators of (party, family, index) should be: read off one large fresh object.
fn reference<C: AffineRepr>(parties: usize, cap: usize) -> &'static BulletproofGens<C> {
    cached(parties * 1_000_000 + cap, || BulletproofGens::<C>::new(cap, parties))
}
fn g_of<C: AffineRepr>(b: &BulletproofGens<C>, party: usize, n: usize) -> Vec<C> { b.share(party).G(n).copied().collect() }

fn gen_capacity(s: &mut Src, max: usize) -> usize {
    match s.below(6) {
        0 => s.usize(4).min(max),
        1 => (1usize << s.below(12)).min(max),
        2 => ((1usize << s.below(12)) + 1).min(max),
        3 => max - s.usize(max.min(3) + 1),
        _ => s.usize(max + 1),
    }
}

fn c07_history(s: &mut Src) -> Res { on_config!(s, c07_history_) }
fn c07_history_<P: SWCurveConfig + Copy + Send + Sync>(s: &mut Src) -> Res {
    type A<P> = Affine<P>;
    let (parties, max, shape) = match s.below(12) {
        0 => (300, 5, "many parties"),
        1 => (1, 5000, "large capacity"),
        2 => (2, 600, "medium capacity"),
        3 => (s.range(3, 20), 40, "several parties"),
        _ => (s.range(1, 4), 90, "small"),
    };
    s.label(shape);
    let want = reference::<A<P>>(if parties > 20 { 300 } else { 20.min(if max > 90 { 2 } else { 20 }) }, max);
    let mut cap = gen_capacity(s, max);
    let mut g = BulletproofGens::<A<P>>::new(cap, parties);
    let mut hist = vec![cap];
    let steps = s.range(0, 5);
    for step in 0..=steps {
        ensure!(g.gens_capacity == cap, "after capacities {:?}: capacity {} instead of {}", hist, g.gens_capacity, cap);
        ensure!(g.party_capacity == parties, "after capacities {:?}: {} parties", hist, g.party_capacity);
        for p in 0..parties {
            let (a, b) = (g_of(&g, p, cap), g_of(want, p, cap));
            ensure!(a.len() == cap, "after capacities {:?}: party {} has {} G generators", hist, p, a.len());
            if let Some(i) = (0..cap).find(|i| a[*i] != b[*i]) { return fail(format!("after capacities {:?}: G[{}] of party {} of {} depends on the history", hist, i, p, parties)); }
            let (a, b) = (g.vh_h_generators(p), &want.vh_h_generators(p)[..cap]);
            ensure!(a.len() == cap, "after capacities {:?}: party {} has {} H generators", hist, p, a.len());
            if let Some(i) = (0..cap).find(|i| a[*i] != b[*i]) { return fail(format!("after capacities {:?}: H[{}] of party {} of {} depends on the history", hist, i, p, parties)); }
            // a share asked for less gives the prefix
            let k = if cap == 0 { 0 } else { (step * 7 + p * 3) % (cap + 1) };
            ensure!(g_of(&g, p, k) == g_of(want, p, k), "share {} asked for {} of {} generators", p, k, cap);
        }
        if step == steps { break; }
        let c = match s.below(6) {
            0 => cap,
            1 => s.usize(cap + 1),
            2 => (cap + 1).min(max),
            _ => { let c = gen_capacity(s, max); c.max(cap.min(c + 7)) }
        };
        if s.chance(1, 4) {
            let c2 = g.clone();
            g.increase_capacity(c);
            // the clone is not affected and can grow on its own
            ensure!(c2.gens_capacity == cap && g_of(&c2, 0, cap).len() == cap, "a clone changed with the original");
            if s.bool() { let mut c3 = c2; c3.increase_capacity(c); g = c3; }
        } else {
            g.increase_capacity(c);
        }
        cap = cap.max(c);
        hist.push(c);
    }
    // parameters use the same generators
    if s.chance(1, 6) {
        let n = gen_capacity(s, max.min(90));
        let sp = SingleLayerParameters::<P>::new::<P>(n);
        s.label("parameters");
        ensure!(sp.bp_gens.gens_capacity == n && g_of(&sp.bp_gens, 0, n) == g_of(want, 0, n) && sp.bp_gens.vh_h_generators(0) == &want.vh_h_generators(0)[..n], "parameters of length {} use other generators", n);
        let pc = PedersenGens::<A<P>>::default();
        ensure!(sp.pc_gens.B == pc.B && sp.pc_gens.B_blinding == pc.B_blinding, "parameters use other commitment bases");
        let sp2 = SingleLayerParameters::<P>::new::<P>(n / 2);
        ensure!(sp.delta == sp2.delta, "the offset depends on the length");
    }
    s.note(format!("{} parties, capacities {:?}", parties, hist));
    if hist.len() > 1 && cap > hist[0] { s.nontrivial(hash64(&(std::any::type_name::<P>(), parties, &hist))); }
    Ok(())
}

fn c07_unrelated(s: &mut Src) -> Res { on_config!(s, c07_unrelated_) }
fn c07_unrelated_<P: SWCurveConfig + Copy + Send + Sync>(s: &mut Src) -> Res {
    let (parties, cap) = match s.below(6) {
        0 => (300, 2),
        1 => (270, 4),
        2 => (1, s.range(300, 1500)),
        3 => (s.range(5, 40), s.range(4, 20)),
        _ => (s.range(1, 4), s.range(30, 150)),
    };
    let g = BulletproofGens::<Affine<P>>::new(cap, parties);
    let sp = SingleLayerParameters::<P>::new::<P>(1);
    s.note(format!("{} parties x {} generators", parties, cap));
    s.nontrivial(hash64(&(std::any::type_name::<P>(), parties, cap)));
    s.label(format!("{} parties", if parties == 1 { "1" } else if parties < 256 { "several" } else { "over 256" }));
    let mut names = vec!["B".to_string(), "B_blinding".into(), "offset".into()];
    let mut pts = vec![sp.pc_gens.B, sp.pc_gens.B_blinding, sp.delta];
    let at = |p: usize, h: bool, i: usize| 3 + (p * 2 + h as usize) * cap + i;
    for p in 0..parties {
        for (i, x) in g_of(&g, p, cap).into_iter().enumerate() { names.push(format!("G[{}] of party {}", i, p)); pts.push(x); }
        for (i, x) in g.vh_h_generators(p).iter().enumerate() { names.push(format!("H[{}] of party {}", i, p)); pts.push(*x); }
    }
    ensure!(pts.len() == 3 + 2 * cap * parties, "{} generators instead of {}", pts.len() - 3, 2 * cap * parties);
    let mut seen: HashMap<Vec<u64>, usize> = HashMap::new();
    for (i, p) in pts.iter().enumerate() {
        ensure!(p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve(), "{} is not a curve point", names[i]);
        let Some(k) = xkey(p) else { return fail(format!("{} is the identity", names[i])) };
        if let Some(j) = seen.insert(k, i) { return fail(format!("{} equals {} (up to sign)", names[i], names[j])); }
    }
    // derived points must not coincide with generators or one another
    let mut v = vec![];
    let mut what = vec![];
    let s_offset = cap as u64 % 3;
    let mut add = |x: <Affine<P> as AffineRepr>::Group, w: String| { v.push(x); what.push(w); };
    for k in 2..=64u64 {
        for b in 0..3 { add(pts[b] * P::ScalarField::from(k), format!("{} times {}", k, names[b])); }
    }
    // the three bases among themselves: no small combination vanishes
    for a in -8i64..=8 { for b in -8i64..=8 { for c in 0..=8u64 {
        if (a, b, c) == (0, 0, 0) { continue; }
        let f = |k: i64| if k < 0 { -P::ScalarField::from(-k as u64) } else { P::ScalarField::from(k as u64) };
        if c % 3 != s_offset && parties != 1 { continue; }
        let q = pts[0] * f(a) + pts[1] * f(b) + pts[2] * P::ScalarField::from(c);
        ensure!(!q.is_zero(), "{} B + {} B_blinding + {} offset vanishes", a, b, c);
    } } }
    for i in 3..pts.len() {
        add(pts[i].into_group() + pts[i], format!("twice {}", names[i]));
        for b in 0..3 {
            add(pts[i].into_group() + pts[b], format!("{} plus {}", names[i], names[b]));
            add(pts[i].into_group() - pts[b], format!("{} minus {}", names[i], names[b]));
        }
    }
    for p in 0..parties {
        for i in 0..cap {
            for h in [false, true] {
                if i + 1 < cap {
                    add(pts[at(p, h, i + 1)].into_group() - pts[at(p, h, i)], format!("{} minus {}", names[at(p, h, i + 1)], names[at(p, h, i)]));
                    add(pts[at(p, h, i + 1)].into_group() + pts[at(p, h, i)], format!("{} plus {}", names[at(p, h, i + 1)], names[at(p, h, i)]));
                }
                if p + 1 < parties {
                    add(pts[at(p + 1, h, i)].into_group() - pts[at(p, h, i)], format!("{} minus {}", names[at(p + 1, h, i)], names[at(p, h, i)]));
                }
            }
            add(pts[at(p, true, i)].into_group() - pts[at(p, false, i)], format!("{} minus {}", names[at(p, true, i)], names[at(p, false, i)]));
            add(pts[at(p, true, i)].into_group() + pts[at(p, false, i)], format!("{} plus {}", names[at(p, true, i)], names[at(p, false, i)]));
        }
    }
    let mut derived: HashMap<Vec<u64>, usize> = HashMap::new();
    for (i, p) in affine::<Affine<P>>(&v).iter().enumerate() {
        let Some(k) = xkey(p) else { return fail(format!("{} is the identity", what[i])) };
        if let Some(j) = seen.get(&k) { return fail(format!("{} is {} (up to sign)", what[i], names[*j])); }
        if let Some(j) = derived.insert(k, i) { return fail(format!("{} is {} (up to sign)", what[i], what[j])); }
    }
    Ok(())
}

fn gen_len(s: &mut Src, max: usize) -> usize {
    match s.below(5) { 0 => 0, 1 => 1, 2 => (1usize << s.below(7)).min(max), 3 if s.chance(1, 4) => max, _ => s.usize(max.min(40) + 1) }
}
fn values<F: PrimeField>(s: &mut Src, n: usize) -> Vec<F> {
    match s.below(5) {
        0 => vec![F::zero(); n],
        1 => vec![F::one(); n],
        2 => (0..n).map(|_| F::from(s.below(4))).collect(),
        _ => (0..n).map(|_| field(s)).collect(),
    }
}
fn c07_commit(s: &mut Src) -> Res { on_config!(s, c07_commit_) }
fn c07_commit_<P: SWCurveConfig + Copy + Send + Sync>(s: &mut Src) -> Res {
    const CAP: usize = 200;
    let sp: &SingleLayerParameters<P> = cached(CAP, || SingleLayerParameters::<P>::new::<P>(CAP));
    // commitment bases are pluggable
    let own;
    let pc = if s.chance(1, 3) {
        own = PedersenGens { B: rand_point::<Affine<P>>(s), B_blinding: rand_point::<Affine<P>>(s) };
        s.label("other bases");
        &own
    } else { &sp.pc_gens };
    let bl: P::ScalarField = field(s);
    match s.below(4) {
        0 => {
            let v: P::ScalarField = field(s);
            let want = naive_msm(&[pc.B, pc.B_blinding], &[v, bl]);
            s.label("scalar");
            s.note(format!("scalar commitment to {} with blinding {}", show(&v), show(&bl)));
            ensure!(pc.commit(v, bl) == want, "PedersenGens::commit is not v B + r B_blinding");
            let mut pr = Prover::<Transcript, Affine<P>>::new(pc, Transcript::new(b"c07"));
            let before = s.usize(3);
            for i in 0..before { pr.commit(P::ScalarField::from(i as u64), bl); }
            ensure!(pr.commit(v, bl).0 == want, "Prover::commit is not v B + r B_blinding");
        }
        1 => {
            let parties = s.range(1, 3);
            let bp = reference::<Affine<P>>(parties, CAP);
            let n = gen_len(s, CAP);
            let v: Vec<P::ScalarField> = values(s, n);
            let g = g_of(bp, 0, n);
            let want = (naive_msm(&g, &v).into_group() + pc.B_blinding * bl).into_affine();
            s.label("prover vector");
            s.note(format!("vector commitment of length {} with blinding {}", n, show(&bl)));
            let mut pr = Prover::<Transcript, Affine<P>>::new(pc, Transcript::new(b"c07"));
            let before = s.usize(3);
            for i in 0..before { pr.commit_vec(&vec![bl; i * 3], bl, bp); }
            let (c, vars) = pr.commit_vec(&v, bl, bp);
            ensure!(c == want, "Prover::commit_vec of {} values is not the sum over G plus r B_blinding", n);
            ensure!(vars.len() == n, "{} variables for {} values", vars.len(), n);
        }
        2 => {
            let m = s.usize(5);
            let n = gen_len(s, CAP / (m + 1));
            let v: Vec<P::ScalarField> = values(s, n);
            let g = g_of(&sp.bp_gens, 0, CAP);
            let want = (naive_msm(&g[n * m..n * (m + 1)], &v).into_group() + sp.pc_gens.B_blinding * bl).into_affine();
            s.label(format!("layer set {}", m));
            s.note(format!("layer commitment of length {} with set {} and blinding {}", n, m, show(&bl)));
            let got = sp.commit(&v, bl, m);
            ensure!(got == want, "layer commitment to {} values with generator set {} is not its defining sum", n, m);
            // additively homomorphic, within one set
            let w: Vec<P::ScalarField> = values(s, n);
            let br: P::ScalarField = field(s);
            let sum: Vec<P::ScalarField> = v.iter().zip(&w).map(|(a, b)| *a + b).collect();
            ensure!((got + sp.commit(&w, br, m)).into_affine() == sp.commit(&sum, bl + br, m), "layer commitments do not add up");
        }
        _ => {
            // more values than there are generators: refused, not silently something else
            let m = s.usize(4);
            let n = CAP / (m + 1) + s.range(1, 5);
            let v: Vec<P::ScalarField> = (0..n).map(|_| rand_nonzero(s)).collect();
            s.label("beyond capacity");
            s.note(format!("{} values, set {}, {} generators", n, m, CAP));
            ensure!(guarded(|| sp.commit(&v, bl, m)).is_err(), "layer commitment to {} values with set {} of {} generators returned a value", n, m, CAP);
            if m == 0 {
                let mut pr = Prover::<Transcript, Affine<P>>::new(pc, Transcript::new(b"c07"));
                ensure!(guarded(|| pr.commit_vec(&v, bl, &sp.bp_gens).0).is_err(), "commitment to {} values with {} generators returned a value", n, CAP);
            }
        }
    }
    s.nontrivial_by_choices();
    Ok(())
}

// ---------------------------------------------------------------- C09: proofs
const CAP: usize = 128;

/// A true statement whose witness is known: first-phase gates and commitments, second-phase gates.
fn gen_stmt<F: PrimeField>(s: &mut Src) -> (Prog<F>, usize, usize) {
    let n1 = match s.below(8) { 0 => 0, 1 | 2 | 3 => 1, 4 | 5 => 2, _ => s.range(3, 9) };
    let n2 = if s.chance(1, 3) { if n1 == 0 || s.bool() { 1 } else { s.range(1, 3) } } else { 0 };
    let flavour = s.below(4);
    let shared: F = field(s);
    let val = |s: &mut Src| -> F { match flavour { 0 => F::zero(), 1 => shared, _ => field(s) } };
    let mut ops: Vec<Op<F>> = vec![];
    let mut vals: Vec<F> = vec![];
    for _ in 0..s.below(3) {
        let (v, bl) = (val(s), val(s));
        ops.push(Op::Commit { v, bl });
        vals.push(v);
    }
    let nvec = if n2 == 0 && n1 > 0 { s.usize(4) } else { 0 };
    let mut reached = false;
    for _ in 0..nvec {
        let d = if s.bool() { n1 } else { s.usize(n1 + 1) };
        reached |= d == n1;
        let vs: Vec<F> = (0..d).map(|_| val(s)).collect();
        vals.extend(&vs);
        ops.push(Op::CommitVec { vs, bl: val(s) });
    }
    let gates = if reached { s.usize(n1 + 1) } else { n1 };
    for _ in 0..gates {
        let (l, r) = (val(s), val(s));
        ops.push(Op::AllocMul { l, r });
        vals.extend([l, r, l * r]);
    }
    if !vals.is_empty() {
        for _ in 0..s.below(5) {
            let mut lc = vec![];
            let mut sum = F::zero();
            for _ in 0..s.range(1, 3) {
                let i = s.usize(vals.len());
                let c: F = nonzero_field(s);
                sum += c * vals[i];
                lc.push(Term { var: Some(i), c, ch: 0 });
            }
            lc.push(Term { var: None, c: -sum, ch: 0 });
            ops.push(Op::Constrain(lc));
        }
    }
    let mut blocks = vec![];
    if n2 > 0 {
        let split = s.usize(n2 + 1);
        let mut mk = |k: usize, s: &mut Src| (0..k).map(|_| Op::AllocMul { l: val(s), r: val(s) }).collect::<Vec<_>>();
        blocks.push(mk(split, s));
        blocks.push(mk(n2 - split, s));
    } else if s.chance(1, 6) {
        blocks.push(vec![]);
    }
    (Prog { label_data: vec![], ops, blocks }, n1, n2)
}

/// One proof of the statement, optionally made in a thread of its own.
fn run_proof<C: AffineRepr>(p: &Prog<C::ScalarField>, thread: bool) -> Result<(Vec<C>, PM<C>), Fail> {
    let go = || vh::prog::honest::<C>(p, b"c09", bp_gens::<C>(CAP)).map(|(c, x)| (c, PM::of(&x)));
    if thread { std::thread::scope(|sc| sc.spawn(|| go()).join().unwrap()) } else { go() }
}

struct Chal<F> { y: F, z: F, u: F, x: F, w: F, fold: Vec<F> }
/// The challenges of a proof, following the protocol's transcript.
fn replay<C: AffineRepr>(p: &Prog<C::ScalarField>, comms: &[C], pm: &PM<C>, nv: usize, padded: usize) -> Chal<C::ScalarField> {
    let mut t = Transcript::new(b"c09");
    t.append_message(b"dom-sep", b"r1cs v1");
    if !p.label_data.is_empty() { t.append_message(b"data", &p.label_data); }
    for c in comms { t.append_message(b"V", &ser(c)); }
    t.append_u64(b"m", nv as u64);
    for (l, q) in [&b"A_I1"[..], b"A_O1"].iter().zip(&pm.p1) { let l: &'static [u8] = if l[2] == b'I' { b"A_I1" } else { b"A_O1" }; t.append_message(l, &ser(q)); }
    t.append_message(b"S1", &ser(&pm.p1[2]));
    if p.blocks.is_empty() { t.append_message(b"dom-sep", b"r1cs-1phase"); } else {
        t.append_message(b"dom-sep", b"r1cs-2phase");
        for _ in &p.blocks { let _: C::ScalarField = challenge(&mut t, b"vh challenge"); }
    }
    t.append_message(b"A_I2", &ser(&pm.p2[0]));
    t.append_message(b"A_O2", &ser(&pm.p2[1]));
    t.append_message(b"S2", &ser(&pm.p2[2]));
    let y = challenge(&mut t, b"y");
    let z = challenge(&mut t, b"z");
    let op = (pm.t.len() - 1) / 2 - 1;
    for (d, q) in pm.t.iter().enumerate() { if d != op { t.append_message(t_label(d), &ser(q)); } }
    let u = challenge(&mut t, b"u");
    let x = challenge(&mut t, b"x");
    t.append_message(b"t_x", &ser(&pm.s[0]));
    t.append_message(b"t_x_blinding", &ser(&pm.s[1]));
    t.append_message(b"e_blinding", &ser(&pm.s[2]));
    let w = challenge(&mut t, b"w");
    t.append_message(b"dom-sep", b"ipp v1");
    t.append_u64(b"n", padded as u64);
    let mut fold = vec![];
    for (l, r) in pm.l.iter().zip(&pm.r) {
        t.append_message(b"L", &ser(l));
        t.append_message(b"R", &ser(r));
        fold.push(challenge(&mut t, b"u"));
    }
    Chal { y, z, u, x, w, fold }
}
fn t_label(d: usize) -> &'static [u8] {
    use std::sync::OnceLock;
    static L: OnceLock<Vec<&'static [u8]>> = OnceLock::new();
    L.get_or_init(|| (0..256).map(|d| &*Box::leak(format!("T_{}", d).into_bytes().into_boxed_slice())).collect())[d]
}

/// Everything about one proof that follows from the witness and the challenges.
struct Known<F> {
    op: usize,
    n: usize,
    /// coefficients of l and r without the masks, by degree, for coordinates 0..n (r also beyond)
    lp: Vec<Vec<F>>,
    rp: Vec<Vec<F>>,
    /// consistency of the challenges with the proof
    ok: bool,
}
fn known<C: AffineRepr>(w: &Wit<C::ScalarField>, comms: &[C], kinds_v: &[usize], pm: &PM<C>, ch: &Chal<C::ScalarField>, padded: usize, layout: usize) -> Option<Known<C::ScalarField>> {
    let (zero, one) = (C::ScalarField::zero(), C::ScalarField::one());
    let n = w.al.len();
    let (op, degs) = layouts(w.vecs.len()).into_iter().nth(layout)?;
    if pm.t.len() != 2 * (op + 1) + 1 { return None; }
    let (mut wl, mut wr, mut wo) = (vec![zero; n], vec![zero; n], vec![zero; n]);
    let mut wv = vec![zero; w.v.len()];
    let mut wvec: Vec<Vec<C::ScalarField>> = w.vecs.iter().map(|_| vec![zero; n]).collect();
    let mut wc = zero;
    let mut ez = ch.z;
    use vh::evil::Kind;
    for (terms, k) in &w.cons {
        for (v, c) in terms {
            let x = ez * c;
            match w.kinds[*v] {
                Kind::L(i) => wl[i] += x,
                Kind::R(i) => wr[i] += x,
                Kind::O(i) => wo[i] += x,
                Kind::V(i) => wv[i] -= x,
                Kind::Vec(j, i) => wvec[j][i] += x,
            }
        }
        wc -= ez * k;
        ez *= ch.z;
    }
    let yi = ch.y.inverse()?;
    let (mut ey, mut eyi) = (vec![one], vec![one]);
    for i in 1..padded { ey.push(ey[i - 1] * ch.y); eyi.push(eyi[i - 1] * yi); }
    let mid = op / 2;
    let mut lp = vec![vec![zero; padded]; op + 2];
    let mut rp = vec![vec![zero; padded]; op + 2];
    for i in 0..n {
        lp[mid][i] += w.al[i] + eyi[i] * wr[i];
        rp[mid][i] += ey[i] * w.ar[i] + wl[i];
        lp[op][i] += w.ao[i];
        rp[0][i] += wo[i];
        for (j, (ld, rd)) in degs.iter().enumerate() {
            if let Some(x) = w.vecs[j].0.get(i) { lp[*ld][i] += x; }
            rp[*rd][i] += wvec[j][i];
        }
    }
    for i in 0..padded { rp[0][i] -= ey[i]; }
    let delta: C::ScalarField = (0..n).map(|i| eyi[i] * wr[i] * wl[i]).sum();
    // T(x) opens to t_x
    let mut acc = (pc_gens::<C>().B * ((wc + delta) * ch.x.pow([op as u64]))).into_affine().into_group();
    for (i, c) in kinds_v.iter().enumerate() { acc += comms[*c] * (wv[i] * ch.x.pow([op as u64])); }
    for (d, q) in pm.t.iter().enumerate() { acc += *q * ch.x.pow([d as u64]); }
    let ok = acc.into_affine() == naive_msm(&[pc_gens::<C>().B, pc_gens::<C>().B_blinding], &[pm.s[0], pm.s[1]]);
    Some(Known { op, n, lp, rp, ok })
}

/// t's coefficients from l and r
fn t_coeffs<F: PrimeField>(k: &Known<F>, lp: &[Vec<F>], rp: &[Vec<F>]) -> Vec<F> {
    let mut t = vec![F::zero(); 2 * (k.op + 1) + 1];
    for a in 0..lp.len() {
        for b in 0..rp.len() {
            for i in 0..k.n { t[a + b] += lp[a][i] * rp[b][i]; }
        }
    }
    t
}

fn c09_proof(s: &mut Src) -> Res {
    match s.below(4) { 0 => c09_proof_::<Pal>(s), 1 => c09_proof_::<Ves>(s), 2 => c09_proof_::<SecP>(s), _ => c09_proof_::<SecQ>(s) }
}
fn c09_proof_<C: AffineRepr + 'static>(s: &mut Src) -> Res {
    type F<C> = <C as AffineRepr>::ScalarField;
    let (p, n1, n2): (Prog<F<C>>, usize, usize) = if s.chance(1, 5) {
        let mut p = gen_prog::<F<C>>(s, Limits { max_ops: 12, max_vec: 3, max_dim: 6, blocks: 0, gates2: false });
        p.blocks.clear();
        let w = witness(&p);
        let n = w.al.len();
        (p, n, 0)
    } else { gen_stmt(s) };
    let mut w = witness(&p);
    if w.al.len() != n1 { return fail(format!("generator: {} gates, meant {}", w.al.len(), n1)); }
    for b in &p.blocks { for o in b { if let Op::AllocMul { l, r } = o { w.al.push(*l); w.ar.push(*r); w.ao.push(*l * r); } } }
    let n = n1 + n2;
    let padded = n.next_power_of_two();
    s.label(format!("gates {}+{}", if n1 > 2 { "many".into() } else { n1.to_string() }, n2));
    s.note(format!("{} (n={}+{})", vh::prog::describe(&p), n1, n2));
    s.nontrivial_by_choices();
    let pc = pc_gens::<C>();
    let bp = bp_gens::<C>(CAP);
    let g = g_of(bp, 0, padded);
    let h = bp.vh_h_generators(0);
    let mut kinds_v = vec![];
    let mut idx = 0;
    for o in &p.ops { match o { Op::Commit { .. } => { kinds_v.push(idx); idx += 1; } Op::CommitVec { .. } => idx += 1, _ => {} } }
    let runs = 2 + s.usize(2);
    let mut all: HashMap<Vec<u64>, String> = HashMap::new();
    let mut scalars: Vec<(String, F<C>)> = vec![];
    let mut blinds: Vec<C> = vec![];
    let mut bnames: Vec<String> = vec![];
    let mut masks_by: [Vec<F<C>>; 3] = Default::default();
    let mut mnames_by: [Vec<String>; 3] = Default::default();
    let mut blinds_by: [Vec<C>; 3] = Default::default();
    let mut bnames_by: [Vec<String>; 3] = Default::default();
    for run in 0..runs {
        let own_thread = s.bool();
        let (comms, pm) = run_proof::<C>(&p, own_thread)?;
        let op = (pm.t.len() - 1) / 2 - 1;
        // published elements
        for (name, q) in pm.points() {
            let absent = (n2 == 0 && ["A_I2", "A_O2", "S2"].contains(&name.as_str())) || name == format!("T[{}]", op);
            if absent { continue; }
            let Some(k) = xkey(&q) else { return fail(format!("{} is the identity", name)) };
            let name = format!("{} of run {}", name, run + 1);
            if let Some(o) = all.insert(k, name.clone()) { return fail(format!("{} equals {} (up to sign)", name, o)); }
        }
        for (i, v) in [pm.s[0], pm.s[1], pm.s[2], pm.a, pm.b].into_iter().enumerate() {
            if n == 0 && [0, 3, 4].contains(&i) { continue; }
            scalars.push((format!("{} of run {}", PM::<C>::SCALARS[i], run + 1), v));
        }
        // blinding factors times the blinding base, as far as the witness reveals them
        let unblind = |q: &C, gs: &[F<C>], hs: &[F<C>], from: usize| -> C {
            let mut acc = q.into_group();
            for (i, x) in gs.iter().enumerate() { acc -= g[from + i] * *x; }
            for (i, x) in hs.iter().enumerate() { acc -= h[from + i] * *x; }
            acc.into_affine()
        };
        let mut put = |name: &str, q: C| { bnames.push(format!("{} of run {}", name, run + 1)); blinds.push(q); };
        put("A_I1", unblind(&pm.p1[0], &w.al[..n1], &w.ar[..n1], 0));
        put("A_O1", unblind(&pm.p1[1], &w.ao[..n1], &[], 0));
        if n2 > 0 {
            put("A_I2", unblind(&pm.p2[0], &w.al[n1..], &w.ar[n1..], n1));
            put("A_O2", unblind(&pm.p2[1], &w.ao[n1..], &[], n1));
        }
        let ch = replay(&p, &comms, &pm, w.v.len(), padded);
        let ks: Vec<_> = (0..3).map(|l| known(&w, &comms, &kinds_v, &pm, &ch, padded, l).filter(|k| k.ok)).collect();
        s.label(if ks.iter().any(|k| k.is_some()) { "challenges understood" } else { "challenges not understood" });
        // several degree layouts are conceivable with vector commitments: each is examined by itself
        for (lay, k) in ks.into_iter().enumerate() {
        let Some(k) = k else { continue };
        let masks = &mut masks_by[lay];
        let mut put = |name: &str, q: C| { bnames_by[lay].push(format!("{} of run {}", name, run + 1)); blinds_by[lay].push(q); };
        let (lp, rp) = (k.lp.clone(), k.rp.clone());
        let big = ch.x.pow([(op + 1) as u64]);
        let at = |m: &Vec<Vec<F<C>>>, i: usize| (0..=op).map(|d| m[d][i] * ch.x.pow([d as u64])).sum::<F<C>>();
        let lk: Vec<F<C>> = (0..padded).map(|i| at(&lp, i)).collect();
        let rk: Vec<F<C>> = (0..padded).map(|i| at(&rp, i)).collect();
        let binv = big.inverse().unwrap();
        let b_of = |t: &Vec<F<C>>, d: usize| (pm.t[d].into_group() - pc.B * t[d]).into_affine();
        if n == 1 {
            // the masks follow from the opened scalars
            s.label("masks recovered");
            let sl = (pm.a - lk[0]) * binv;
            let sr = (pm.b - rk[0]) * binv;
            masks.push(sl);
            masks.push(sr);
            mnames_by[lay].push(format!("s_L of run {}", run + 1));
            mnames_by[lay].push(format!("s_R of run {}", run + 1));
            if n1 == 1 { put("S1", unblind(&pm.p1[2], &[sl], &[sr], 0)); } else { put("S1", pm.p1[2]); put("S2", unblind(&pm.p2[2], &[sl], &[sr], 0)); }
            let (mut lf, mut rf) = (lp.clone(), rp.clone());
            lf[op + 1][0] = sl;
            rf[op + 1][0] = sr;
            let t = t_coeffs(&k, &lf, &rf);
            for d in 0..t.len() { if d != op { put(&format!("T[{}]", d), b_of(&t, d)); } }
        } else {
            // below the masks' degree the coefficients of t are known
            let t = t_coeffs(&k, &lp, &rp);
            for d in 0..=op { if d != op { put(&format!("T[{}]", d), b_of(&t, d)); } }
            if n == 0 {
                put("S1", pm.p1[2]);
                for d in op + 1..t.len() { put(&format!("T[{}]", d), b_of(&t, d)); }
            } else {
                masks_of(&k, &pm, &ch, &lk, &rk, big, padded, n1, pc, &g, h)?;
            }
        }
        }
    }
    for i in 0..scalars.len() {
        ensure!(!scalars[i].1.is_zero(), "{} is zero", scalars[i].0);
        for j in 0..i { ensure!(scalars[i].1 != scalars[j].1, "{} equals {}", scalars[i].0, scalars[j].0); }
    }
    unrelated_blinds::<C>(&bnames, &blinds)?;
    for lay in 0..3 {
        unrelated_scalars(&mnames_by[lay], &masks_by[lay])?;
        let mut n = bnames.clone();
        n.extend(bnames_by[lay].iter().cloned());
        let mut b = blinds.clone();
        b.extend(&blinds_by[lay]);
        unrelated_blinds::<C>(&n, &b)?;
    }
    for lay in 0..3 { let (b, n) = (blinds_by[lay].clone(), std::mem::take(&mut bnames_by[lay])); blinds.extend(b); bnames.extend(n); }
    if s.chance(1, 8) {
        let i = s.usize(blinds.len());
        s.label("searched small blinding");
        ensure!(!small_log(&blinds[i], &pc.B_blinding), "the blinding of {} is below 2^32", bnames[i]);
    }
    Ok(())
}

/// Hypotheses about the masks of a proof with several gates: all-zero, constant, or one coordinate
/// only. Each is solved from the opened scalars and believed only if the proof confirms it.
#[allow(clippy::too_many_arguments)]
fn masks_of<C: AffineRepr>(k: &Known<C::ScalarField>, pm: &PM<C>, ch: &Chal<C::ScalarField>, lk: &[C::ScalarField], rk: &[C::ScalarField], big: C::ScalarField,
    padded: usize, n1: usize, pc: &PedersenGens<C>, g: &[C], h: &[C]) -> Res {
    type F<C> = <C as AffineRepr>::ScalarField;
    let (zero, one) = (F::<C>::zero(), F::<C>::one());
    let n = k.n;
    // a = sum alpha_i l_i, b = sum beta_i r_i
    let rounds = ch.fold.len();
    let mut alpha = vec![one; padded];
    let mut beta = vec![one; padded];
    for i in 0..padded {
        for (j, c) in ch.fold.iter().enumerate() {
            let upper = (i >> (rounds - 1 - j)) & 1 == 1;
            let ci = c.inverse().unwrap();
            alpha[i] *= if upper { ci } else { *c };
            beta[i] *= if upper { *c } else { ci };
        }
    }
    let dot = |a: &[F<C>], b: &[F<C>]| a.iter().zip(b).map(|(x, y)| *x * y).sum::<F<C>>();
    let mut ey = vec![one];
    for i in 1..padded { ey.push(ey[i - 1] * ch.y); }
    let mut patterns: Vec<(String, Vec<F<C>>)> = vec![("all zero".into(), vec![zero; n]), ("all equal".into(), vec![one; n])];
    for i in 0..n { let mut v = vec![zero; n]; v[i] = one; patterns.push((format!("zero except at {}", i), v)); }
    // one side under a pattern: its full vector, or None if it contradicts the opened scalar
    let side = |base: &[F<C>], wts: &[F<C>], opened: F<C>, pat: &[F<C>], scale: &dyn Fn(usize) -> F<C>| -> Option<Vec<F<C>>> {
        let rest = opened - dot(wts, base);
        let den: F<C> = (0..n).map(|i| wts[i] * big * scale(i) * pat[i]).sum();
        let c = if den.is_zero() { if !rest.is_zero() { return None; } zero } else { rest * den.inverse().unwrap() };
        let mut v = base.to_vec();
        for i in 0..n { v[i] += c * big * scale(i) * pat[i]; }
        Some(v)
    };
    let ls: Vec<(String, Option<Vec<F<C>>>)> = patterns.iter().map(|(q, p)| (q.clone(), side(lk, &alpha, pm.a, p, &|_| one))).collect();
    let rs: Vec<(String, Option<Vec<F<C>>>)> = patterns.iter().map(|(q, p)| (q.clone(), side(rk, &beta, pm.b, p, &|i| ey[i]))).collect();
    if let (_, Some(_)) = &ls[0] { return fail("the mask of l is zero"); }
    if let (_, Some(_)) = &rs[0] { return fail("the mask of r is zero"); }
    for (a, l) in &ls { for (b, r) in &rs {
        if let (Some(l), Some(r)) = (l, r) {
            ensure!(dot(l, r) != pm.s[0], "masks are degenerate: s_L {}, s_R {}", a, b);
        }
    } }
    if n == 2 {
        // one side degenerate, the other arbitrary: solve for it and confirm with the first folding message
        let u0 = |i: usize| if i < n1 { one } else { ch.u };
        let confirm = |l: &[F<C>], r: &[F<C>]| -> bool {
            let yi = ch.y.inverse().unwrap();
            let want = naive_msm(&[g[1], h[0], pc.B], &[l[0] * u0(1), r[1] * u0(0), l[0] * r[1] * ch.w]);
            let _ = yi;
            want == pm.l[0]
        };
        let solve = |wts: &[F<C>], opened: F<C>, other: &[F<C>]| -> Option<Vec<F<C>>> {
            // wts . v = opened, other . v = t_x
            let det = wts[0] * other[1] - wts[1] * other[0];
            let i = det.inverse()?;
            Some(vec![(opened * other[1] - wts[1] * pm.s[0]) * i, (wts[0] * pm.s[0] - opened * other[0]) * i])
        };
        for (a, l) in &ls { if let Some(l) = l { if let Some(r) = solve(&beta, pm.b, l) {
            ensure!(!confirm(l, &r), "mask of l is degenerate: {}", a);
        } } }
        for (a, r) in &rs { if let Some(r) = r { if let Some(l) = solve(&alpha, pm.a, r) {
            ensure!(!confirm(&l, r), "mask of r is degenerate: {}", a);
        } } }
        // s_L = s_R
        let det = alpha[0] * beta[1] * ey[1] - alpha[1] * beta[0];
        if let Some(i) = det.inverse() {
            let (p, q) = ((pm.a - dot(&alpha, lk)) * big.inverse().unwrap(), (pm.b - dot(&beta, rk)) * big.inverse().unwrap());
            let s0 = (p * beta[1] * ey[1] - alpha[1] * q) * i;
            let s1 = (alpha[0] * q - beta[0] * p) * i;
            let l = [lk[0] + big * s0, lk[1] + big * s1];
            let r = [rk[0] + big * s0, rk[1] + big * ey[1] * s1];
            ensure!(dot(&l, &r) != pm.s[0], "the masks of l and r are the same");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09: paths
macro_rules! tree_cfg {
    ($s:expr, $f:ident) => {
        match $s.below(8) {
            0 => $f::<2, 1, _, _, Pc, Vc>($s),
            1 => $f::<2, 2, _, _, Vc, Pc>($s),
            2 => $f::<3, 3, _, _, Pc, Vc>($s),
            3 => $f::<4, 2, _, _, Pc, Vc>($s),
            4 => $f::<2, 4, _, _, S0, S1>($s),
            5 => $f::<3, 2, _, _, S1, S0>($s),
            6 => $f::<2, 6, _, _, Pc, Vc>($s),
            _ => $f::<5, 1, _, _, Pc, Vc>($s),
        }
    };
}
fn c09_path(s: &mut Src) -> Res { tree_cfg!(s, c09_path_) }
gfn! { fn c09_path_[L M](s: &mut Src) -> Res {
    let p = params::<F0, F1, P0, P1>(64);
    let h = s.range(1, if L > 3 { 4 } else { 8 });
    let n = 1 + s.usize(L.pow(h as u32).min(40));
    let set = match s.below(4) {
        0 => vec![Affine::<P0>::generator(); n],
        1 => vec![Affine::<P0>::zero(); n],
        _ => gen_set::<P0>(s, n, &p.even_parameters.delta),
    };
    let tree = CurveTree::<L, M, P0, P1>::from_set(&set, p, Some(h));
    let h = tree.height();
    let multi = M > 1 && s.chance(2, 3);
    s.label(format!("{} height {}", if multi { "batched" } else { "single" }, h));
    s.note(format!("L={} M={} {} leaves height {} {}", L, M, n, h, if multi { "batched" } else { "single" }));
    s.nontrivial_by_choices();
    let same = s.bool();
    let idx: [usize; M] = std::array::from_fn(|_| if same { 0 } else { s.usize(n) });
    let (mut eb, mut en): (Vec<Affine<P0>>, Vec<String>) = (vec![], vec![]);
    let (mut ob, mut on): (Vec<Affine<P1>>, Vec<String>) = (vec![], vec![]);
    let (mut scal, mut sn): (Vec<F0>, Vec<String>) = (vec![], vec![]);
    let mut rng = StdRng::seed_from_u64(s.u64());
    for run in 0..s.range(2, 3) {
        if s.bool() { rng = StdRng::seed_from_u64(s.u64()); }
        let mut pe = Prover::<Transcript, Affine<P0>>::new(&p.even_parameters.pc_gens, Transcript::new(b"c09"));
        let mut po = Prover::<Transcript, Affine<P1>>::new(&p.odd_parameters.pc_gens, Transcript::new(b"c09"));
        let tag = |k: &str, i: usize| format!("{} {} of run {}", k, i, run + 1);
        if multi {
            let w = tree.select_and_rerandomize_prover_multi_witness(idx, p);
            let (path, sc) = w.batched_select_and_rerandomize_prover_gadget(&mut pe, &mut po, p, &mut rng);
            for (i, a) in w.even_internal_nodes.iter().enumerate() {
                let sum = a.iter().fold(<Affine<P1> as AffineRepr>::Group::zero(), |t, x| t + x.child_witness);
                ob.push((path.odd_commitments[i].into_group() - sum).into_affine());
                on.push(tag("odd commitment", i));
            }
            for (i, a) in w.odd_internal_nodes.iter().enumerate() {
                if i + 1 < w.odd_internal_nodes.len() {
                    let sum = a.iter().fold(<Affine<P0> as AffineRepr>::Group::zero(), |t, x| t + x.child_witness);
                    eb.push((path.even_commitments[i].into_group() - sum).into_affine());
                    en.push(tag("even commitment", i));
                } else {
                    for (m, x) in a.iter().enumerate() {
                        eb.push((path.selected_commitments[m].into_group() - x.child_witness).into_affine());
                        en.push(tag("selected commitment", m));
                    }
                }
            }
            for m in 0..M { scal.push(sc[m]); sn.push(tag("scalar", m)); }
        } else {
            let w = tree.select_and_rerandomize_prover_witness(idx[0], 0, p);
            let (path, sc) = if s.bool() { w.select_and_rerandomize_prover_gadget(&mut pe, &mut po, p, &mut rng) }
                else { tree.select_and_rerandomize_prover_gadget(idx[0], 0, &mut pe, &mut po, p, &mut rng) };
            for (i, a) in w.even_internal_nodes.iter().enumerate() {
                ob.push((path.odd_commitments[i].into_group() - a.child_witness).into_affine());
                on.push(tag("odd commitment", i));
            }
            for (i, a) in w.odd_internal_nodes.iter().enumerate() {
                let c = if i + 1 < w.odd_internal_nodes.len() { path.even_commitments[i] } else { path.selected_commitment };
                eb.push((c.into_group() - a.child_witness).into_affine());
                en.push(tag("even commitment", i));
            }
            scal.push(sc);
            sn.push(tag("scalar", 0));
        }
    }
    unrelated_scalars(&sn, &scal)?;
    unrelated_blinds::<Affine<P0>>(&en, &eb)?;
    unrelated_blinds::<Affine<P1>>(&on, &ob)?;
    if s.chance(1, 8) {
        s.label("searched small blinding");
        let i = s.usize(eb.len());
        ensure!(!small_log(&eb[i], &p.even_parameters.pc_gens.B_blinding), "the blinding of {} is below 2^32", en[i]);
        if !ob.is_empty() {
            let i = s.usize(ob.len());
            ensure!(!small_log(&ob[i], &p.odd_parameters.pc_gens.B_blinding), "the blinding of {} is below 2^32", on[i]);
        }
    }
    Ok(())
} }

// ---------------------------------------------------------------- C09: coins
fn c09_mint(s: &mut Src) -> Res {
    match s.below(4) {
        0 => c09_mint_::<_, _, Pc, Vc, ark_pallas::Projective>(s),
        1 => c09_mint_::<_, _, Vc, Pc, ark_vesta::Projective>(s),
        2 => c09_mint_::<_, _, S0, S1, ark_secp256k1::Projective>(s),
        _ => c09_mint_::<_, _, Pc, Vc, ark_secp256k1::Projective>(s),
    }
}
cfn! { fn c09_mint_[](s: &mut Src) -> Res {
    let p = params::<_, _, P0, P1>(256);
    let sp = gen_sp::<C>(s);
    let key = gen_key::<C>(s, &sp);
    let value = gen_value(s);
    s.note(format!("coin of value {} minted repeatedly", value));
    s.nontrivial_by_choices();
    let mut rng = StdRng::seed_from_u64(s.u64());
    let (mut bl, mut pr, mut names) = (vec![], vec![], vec![]);
    let (mut blinds, mut tags, mut comms) = (vec![], vec![], HashSet::new());
    let g = g_of(&p.even_parameters.bp_gens, 0, 2);
    for run in 0..s.range(2, 4) {
        if s.bool() { rng = StdRng::seed_from_u64(s.u64()); }
        let (coin, com) = if s.bool() {
            s.label("new");
            Coin::<P0, C>::new(value, &key.pk, &sp, &p.even_parameters, &mut rng)
        } else {
            s.label("mint");
            let mut pe = Prover::<Transcript, Affine<P0>>::new(&p.even_parameters.pc_gens, Transcript::new(b"c09"));
            let (c, com, _) = Coin::<P0, C>::mint(value, &key.pk, &sp, &p.even_parameters, &mut rng, &mut pe);
            (c, com)
        };
        names.push(format!("coin {}", run + 1));
        blinds.push((com.into_group() - g[0] * F0::from(value) - g[1] * coin.tag).into_affine());
        bl.push(coin.blinding);
        pr.push(coin.pk_randomness);
        tags.push(coin.tag);
        let a: Vec<u8> = coin.blinding.into_bigint().to_bytes_le();
        let b: Vec<u8> = coin.pk_randomness.into_bigint().to_bytes_le();
        ensure!(a[..16] != b[..16], "commitment blinding and key randomness are the same number");
        ensure!(comms.insert(bytes(&com)), "two mints give the same commitment");
    }
    unrelated_scalars(&names, &bl)?;
    unrelated_scalars(&names, &pr)?;
    unrelated_scalars(&names, &tags)?;
    unrelated_blinds::<Affine<P0>>(&names, &blinds)?;
    // the commitment has randomness of its own: some part of the randomness changes it and not the tag
    if s.chance(1, 4) {
        s.label("perturbed randomness");
        let (seed, salt) = (s.u64(), s.u64() | 1);
        let coin = |from: usize, len: usize, salt: u64| {
            let (c, com) = Coin::<P0, C>::new(value, &key.pk, &sp, &p.even_parameters, &mut Window { pos: 0, from, to: from + len, seed, salt });
            (c.tag, com)
        };
        let base = coin(0, 0, 0);
        let own = (0..48usize).any(|from| [1usize, 4, 16].iter().any(|len| (1..3u64).any(|k| {
            let (tag, com) = coin(from, *len, salt.wrapping_mul(k));
            tag == base.0 && com != base.1
        })));
        ensure!(own, "whatever part of the randomness is changed, the commitment changes only when the tag does: it is a function of tag and value");
    }
    Ok(())
} }
/// Randomness that is a function of the position, changed within a window.
struct Window { pos: usize, from: usize, to: usize, seed: u64, salt: u64 }
impl rand::RngCore for Window {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        let mut x = (self.pos as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ self.seed ^ if (self.from..self.to).contains(&self.pos) { self.salt } else { 0 };
        self.pos += 1;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
        x ^ (x >> 31)
    }
    fn fill_bytes(&mut self, b: &mut [u8]) { for c in b.chunks_mut(8) { let v = self.next_u64().to_le_bytes(); c.copy_from_slice(&v[..c.len()]); } }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(b); Ok(()) }
}
impl rand::CryptoRng for Window {}

fn c09_pour(s: &mut Src) -> Res {
    match s.below(4) {
        0 => c09_pour_::<2, _, _, Pc, Vc, ark_pallas::Projective>(s),
        1 => c09_pour_::<3, _, _, Vc, Pc, ark_vesta::Projective>(s),
        2 => c09_pour_::<4, _, _, S0, S1, ark_secp256k1::Projective>(s),
        _ => c09_pour_::<5, _, _, Pc, Vc, ark_secp256k1::Projective>(s),
    }
}
cfn! { fn c09_pour_[L](s: &mut Src) -> Res {
    let v = [s.below(1000), s.below(1000)];
    let w = gen_world::<L, _, _, P0, P1, C>(s, &v, 4096, 3);
    let recv = gen_key::<C>(s, &w.sp).pk;
    let out = if s.bool() { v } else { [v[0] + v[1] - (v[0] + v[1]) / 2, (v[0] + v[1]) / 2] };
    s.note(format!("L={} height {} pour {:?} -> {:?} repeated", L, w.height, v, out));
    s.label(format!("height {}", w.height));
    s.nontrivial_by_choices();
    let (mut eb, mut en): (Vec<Affine<P0>>, Vec<String>) = (vec![], vec![]);
    let (mut ob, mut on): (Vec<Affine<P1>>, Vec<String>) = (vec![], vec![]);
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    let mut nonces: HashMap<Vec<u64>, String> = HashMap::new();
    for run in 0..2 {
        let seed = s.u64();
        let tx = pour::<L, _, _, P0, P1, C>(&w, &w.coins[0].info(), &w.coins[1].info(), out, [recv, recv], seed).map_err(|e| Fail { sig: String::new(), msg: e })?;
        let Some(q) = parse_pour::<L, _, _, P0, P1, C>(&tx.pour_bytes) else { return fail("pour does not decode") };
        let mut see = |name: String, b: Vec<u8>| -> Res {
            if let Some(o) = seen.insert(b, name.clone()) { return fail(format!("{} equals {}", name, o)); }
            Ok(())
        };
        for (i, c) in [q.minted_coin_commitment_0, q.minted_coin_commitment_1].iter().enumerate() { see(format!("minted commitment {} of run {}", i, run + 1), bytes(c))?; }
        for (i, path) in [&q.randomized_path_0, &q.randomized_path_1].iter().enumerate() {
            let wit = w.tree.select_and_rerandomize_prover_witness(w.coins[i].index, 0, w.p);
            for (j, a) in wit.even_internal_nodes.iter().enumerate() {
                ob.push((path.odd_commitments[j].into_group() - a.child_witness).into_affine());
                on.push(format!("odd commitment {} of path {} of run {}", j, i, run + 1));
            }
            for (j, a) in wit.odd_internal_nodes.iter().enumerate() {
                let c = if j + 1 < wit.odd_internal_nodes.len() { path.even_commitments[j] } else { path.selected_commitment };
                eb.push((c.into_group() - a.child_witness).into_affine());
                en.push(format!("even commitment {} of path {} of run {}", j, i, run + 1));
            }
        }
        fn elems<D: AffineRepr>(pm: &PM<D>, side: &str, run: usize, see: &mut dyn FnMut(String, Vec<u8>) -> Res) -> Res {
            for (name, c) in pm.points() { if !c.is_zero() { see(format!("{} of {} proof {}", name, side, run + 1), ser(&c))?; } }
            for (i, x) in [pm.s[0], pm.s[1], pm.s[2], pm.a, pm.b].iter().enumerate() { see(format!("{} of {} proof {}", PM::<D>::SCALARS[i], side, run + 1), ser(x))?; }
            Ok(())
        }
        elems(&PM::of(&q.even_proof), "even", run, &mut see)?;
        elems(&PM::of(&q.odd_proof), "odd", run, &mut see)?;
        // signature nonces: g^s pk^e
        let r = raw_of::<_, _, P0, P1, C>(&tx);
        for i in 0..2 {
            let pk = [q.pk0, q.pk1][i];
            let nonce: C::Affine = (w.sp.generator * r.sig[2 * i] + pk * r.sig[2 * i + 1]).into_affine();
            let name = format!("signature {} of run {}", i, run + 1);
            let Some(k) = xkey(&nonce) else { return fail(format!("{} has no nonce", name)) };
            if let Some(o) = nonces.insert(k, name.clone()) { return fail(format!("{} and {} use the same nonce", name, o)); }
        }
    }
    unrelated_blinds::<Affine<P0>>(&en, &eb)?;
    unrelated_blinds::<Affine<P1>>(&on, &ob)
} }

fn main() {
    let sub = |name, rule, quick, thorough, f| Sub { name, rule, quick, thorough, f };
    main_with(&[
        ("C07", vec![
            sub("history", "curve, number of parties and a history of capacity requests (repeats, decreases, clones) generated; non-trivial when the capacity grew after creation", 400, 20000, c07_history as CaseFn),
            sub("unrelated", "curve, parties and capacity generated; all generators in use together compared with one another and with small combinations", 60, 2000, c07_unrelated),
            sub("commit", "values, blindings, lengths, generator sets and bases generated; compared with the defining sums", 1500, 60000, c07_commit),
        ], &["small combinations means: multiples of the bases up to 64, doubles, sums and differences with the bases, with neighbours, between families and parties"]),
        ("C09", vec![
            sub("proof", "true statements with known witness (also all-zero and repeated values); 2-3 proofs of the same statement", 900, 40000, c09_proof as CaseFn),
            sub("path", "trees, indices and shapes; 2-3 paths to the same leaves, single and batched", 300, 20000, c09_path),
            sub("mint", "the same coin minted 2-4 times", 300, 20000, c09_mint),
            sub("pour", "the same pour made twice", 8, 200, c09_pour),
        ], &["the caller's randomness source behaves differently in different runs"]),
    ]);
}
