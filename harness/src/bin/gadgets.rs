//! Checks of the circuit gadgets: C15 C16 C17 C18 C19.
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use bulletproofs::r1cs::*;
use relations::curve::*;
use relations::lookup::*;
use relations::range_proof::range_proof;
use relations::rerandomize::*;
use relations::select::select;
use std::collections::HashSet;
use vh::common::*;
use vh::engine::*;
use vh::ensure;
use vh::gadget::*;
use vh::mockcs::*;
use vh::smallf::*;

const CAP: usize = 1024;

macro_rules! on_curve {
    ($s:expr, $f:ident) => {
        match $s.below(4) {
            0 => $f::<Pal>($s),
            1 => $f::<Ves>($s),
            2 => $f::<SecP>($s),
            _ => $f::<SecQ>($s),
        }
    };
}
fn how(s: &mut Src) -> How {
    *s.pick(&[How::Scalars, How::Vector, How::Constants])
}

/// affine form over the inputs: constant + sum of coefficients
#[derive(Clone, Debug)]
struct Form<F> { c: F, t: Vec<(usize, F)> }
impl<F: Field> Form<F> {
    fn lc(&self, ins: &[LinearCombination<F>]) -> LinearCombination<F> {
        let mut l: LinearCombination<F> = if self.t.is_empty() || !self.c.is_zero() { self.c.into() } else { LinearCombination::default() };
        for (i, c) in &self.t { l = l + ins[*i].clone() * *c; }
        l
    }
    fn eval(&self, v: &[F]) -> F { self.c + self.t.iter().map(|(i, c)| v[*i] * c).sum::<F>() }
}
/// a form over new inputs with the given value
fn form_for<F: PrimeField>(s: &mut Src, v: F, ins: &mut Vec<F>) -> Form<F> {
    match s.below(4) {
        0 => Form { c: v, t: vec![] },
        1 => { ins.push(v); Form { c: F::zero(), t: vec![(ins.len() - 1, F::one())] } }
        2 => {
            let w: F = field(s);
            ins.push(w);
            Form { c: v - w, t: vec![(ins.len() - 1, F::one())] }
        }
        _ => {
            let (a, w, c): (F, F, F) = (rand_nonzero(s), field(s), field(s));
            ins.push(w);
            let rest = v - c - a * w;
            let b: F = rand_nonzero(s);
            ins.push(rest * b.inverse().unwrap());
            Form { c, t: vec![(ins.len() - 2, a), (ins.len() - 1, b)] }
        }
    }
}

// ---------------------------------------------------------------- C15
struct Select<F> { ins: Vec<F>, x: Form<F>, xs: Vec<Form<F>> }
impl<F: Field> Gadget<F> for Select<F> {
    fn inputs(&self) -> Vec<F> { self.ins.clone() }
    fn run<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[LinearCombination<F>], _w: bool) -> Vec<LinearCombination<F>> {
        let v: Vec<_> = self.xs.iter().map(|f| f.lc(ins)).collect();
        select(cs, self.x.lc(ins), v.into_iter());
        vec![]
    }
}
fn gen_entries<F: PrimeField>(s: &mut Src, n: usize) -> Vec<F> {
    let mut v: Vec<F> = vec![];
    for _ in 0..n {
        let e = match s.below(6) {
            0 => F::zero(),
            1 if !v.is_empty() => { let k = s.usize(v.len()); v[k] }
            2 if !v.is_empty() => { let k = s.usize(v.len()); -v[k] }
            _ => field(s),
        };
        v.push(e);
    }
    v
}
fn gen_select<F: PrimeField>(s: &mut Src, max: usize) -> (Select<F>, bool) {
    let n = if s.chance(1, 6) { s.range(1, max) } else { s.range(1, 6) };
    let vals = gen_entries::<F>(s, n);
    let x = match s.below(6) {
        0 | 1 => { let k = s.usize(n); vals[k] }
        2 => { let k = if s.bool() { 0 } else { n - 1 }; vals[k] }
        3 => { let k = s.usize(n); vals[k] + F::one() }
        4 => match s.below(4) { 0 => F::zero(), 1 => vals.iter().sum(), 2 => vals.iter().product(), _ => { let k = s.usize(n); -vals[k] } },
        _ => field(s),
    };
    let member = vals.contains(&x);
    let mut ins = vec![];
    let xs: Vec<_> = vals.iter().map(|v| form_for(s, *v, &mut ins)).collect();
    let xf = form_for(s, x, &mut ins);
    s.label(format!("len {}", match n { 1 => "1", 2..=3 => "2-3", 4..=6 => "4-6", _ => "7+" }));
    s.label(if member { "member" } else { "non-member" });
    s.note(format!("select over {} entries, {}", n, if member { "member" } else { "non-member" }));
    s.nontrivial_by_choices();
    (Select { ins, x: xf, xs }, member)
}
fn c15_relation(s: &mut Src) -> Res { on_curve!(s, c15_relation_) }
fn c15_relation_<C: AffineRepr>(s: &mut Src) -> Res {
    let (g, member) = gen_select::<C::ScalarField>(s, 300);
    let vals: Vec<_> = g.xs.iter().map(|f| f.eval(&g.ins)).collect();
    let r = record(&g);
    let bad = r.sys().violated(&r.honest());
    ensure!(bad.is_none() == member, "value {} in {:?}: member={} but the constraints are {:?}", g.x.eval(&g.ins), vals.len(), member, bad.map(|b| format!("violated at {}", b)));
    let rv = record_verifier(&g);
    ensure!(rv.sys() == r.sys(), "prover and verifier emit different constraints");
    if !member {
        for _ in 0..4 {
            let a = r.sys().attack(s, Some(&r.honest()), &r.ins, &vals, &[]);
            ensure!(r.sys().violated(&a).is_some(), "a witness satisfies the selection of a non-member");
        }
    } else {
        // the constraints do not depend on which entry it is
        let mut ins2 = g.ins.clone();
        let other = vals[s.usize(vals.len())];
        if let Some((i, c)) = g.x.t.first() {
            // move the value of x by changing one input only x uses
            ins2[*i] += (other - g.x.eval(&g.ins)) * c.inverse().unwrap();
            let g2 = Select { ins: ins2, x: g.x.clone(), xs: g.xs.clone() };
            let r2 = record(&g2);
            ensure!(r2.sys() == r.sys(), "the emitted constraints depend on which entry was selected");
            ensure!(r2.sys().violated(&r2.honest()).is_none(), "selection of another entry of the same list fails");
        }
    }
    Ok(())
}
fn c15_proof(s: &mut Src) -> Res { on_curve!(s, c15_proof_) }
fn c15_proof_<C: AffineRepr>(s: &mut Src) -> Res {
    let (g, member) = gen_select::<C::ScalarField>(s, 60);
    let h = how(s);
    let acc = e2e::<C, _>(&g, h, None, CAP);
    ensure!(acc == member, "selection proof accepted={} for member={} (inputs as {:?})", acc, member, h);
    Ok(())
}
fn c15_small(s: &mut Src) -> Res {
    // all values x over a tiny field
    let n = s.range(1, 6);
    let vals: Vec<F13> = (0..n).map(|_| F13::from(s.below(13))).collect();
    s.nontrivial(hash64(&vals.iter().map(|v| as_u64(v)).collect::<Vec<_>>()));
    s.note(format!("F13 list {:?}, all x", vals.iter().map(|v| as_u64(v).unwrap()).collect::<Vec<_>>()));
    for x in 0..13u64 {
        let x = F13::from(x);
        let mut ins = vals.clone();
        ins.push(x);
        let one = F13::from(1u64);
        let g = Select { ins, x: Form { c: F13::zero(), t: vec![(n, one)] }, xs: (0..n).map(|i| Form { c: F13::zero(), t: vec![(i, one)] }).collect() };
        let r = record(&g);
        ensure!(r.sys().violated(&r.honest()).is_none() == vals.contains(&x), "F13: x={} list {:?}", x, vals.len());
    }
    Ok(())
}

// ---------------------------------------------------------------- C16
struct Range<F> { ins: Vec<F>, v: Form<F>, wit: Option<u64>, n: usize }
impl<F: Field> Gadget<F> for Range<F> {
    fn inputs(&self) -> Vec<F> { self.ins.clone() }
    fn run<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[LinearCombination<F>], w: bool) -> Vec<LinearCombination<F>> {
        range_proof(cs, self.v.lc(ins), if w { self.wit } else { None }, self.n).expect("range_proof");
        vec![]
    }
}
fn low64<F: PrimeField>(v: &F) -> u64 { v.into_bigint().as_ref()[0] }
fn in_range<F: PrimeField>(v: &F, n: usize) -> bool {
    let b = v.into_bigint();
    (n..F::MODULUS_BIT_SIZE as usize).all(|i| !b.get_bit(i))
}
fn gen_range<F: PrimeField>(s: &mut Src) -> (Range<F>, bool) {
    let n = match s.below(6) { 0 => 64, 1 => 0, 2 => s.range(1, 63), _ => s.range(1, 8) };
    let two_n = F::from(2u64).pow([n as u64]);
    let v: F = match s.below(12) {
        0 => F::zero(),
        1 => two_n - F::one(),
        2 => two_n,
        3 => two_n + F::from(s.below(5)),
        4 => -F::from(1 + s.below(5)),
        5 => -two_n + F::from(s.below(3)),
        6 => { let k = s.range(n, F::MODULUS_BIT_SIZE as usize - 2); F::from(2u64).pow([k as u64]) + F::from(s.below(1 << n.min(16))) }
        7 => F::from(1 + s.below(40)).inverse().unwrap(),
        8 => rand_field(s),
        _ => { let r = s.u64(); F::from(if n == 64 { r } else { r & ((1u64 << n) - 1) }) }
    };
    let ok = in_range(&v, n);
    // the assignment an honest prover (or, out of range, a careless one) supplies
    let wit = if ok { low64(&v) } else {
        match s.below(4) { 0 => s.u64(), 1 => 0, 2 => u64::MAX, _ => low64(&v) }
    };
    let mut ins = vec![];
    let f = form_for(s, v, &mut ins);
    s.label(format!("n {}", match n { 0 => "0", 1..=8 => "1-8", 64 => "64", _ => "9-63" }));
    s.label(if ok { "in range" } else { "out of range" });
    s.note(format!("n={} v={} {}", n, show(&v), if ok { "in" } else { "out" }));
    s.nontrivial(hash64(&(n, v.to_string())));
    (Range { ins, v: f, wit: Some(wit), n }, ok)
}
fn c16_relation(s: &mut Src) -> Res { on_curve!(s, c16_relation_) }
fn c16_relation_<C: AffineRepr>(s: &mut Src) -> Res {
    let (g, ok) = gen_range::<C::ScalarField>(s);
    let v = g.v.eval(&g.ins);
    let r = record(&g);
    let h = r.honest();
    ensure!(r.sys().violated(&h).is_none() == ok, "n={} v={}: in range={} but constraints satisfied={}", g.n, v, ok, !ok);
    ensure!(record_verifier(&g).sys() == r.sys(), "prover and verifier emit different constraints");
    if ok {
        ensure!(r.sys().undetermined(&h, &r.ins, &r.sys().allocs) == 0, "the bits are not determined by the value (n={})", g.n);
        // a prover whose claimed bits belong to another number fails
        let w2 = match s.below(3) { 0 => low64(&v) ^ (1u64.checked_shl(s.below(64) as u32).unwrap()), 1 => s.u64(), _ => low64(&v).wrapping_add(1) };
        let mask = if g.n == 64 { u64::MAX } else { (1u64 << g.n) - 1 };
        if w2 & mask != low64(&v) {
            let g2 = Range { wit: Some(w2), ins: g.ins.clone(), v: g.v.clone(), n: g.n };
            let r2 = record(&g2);
            ensure!(r2.sys().violated(&r2.honest()).is_some(), "bits of {} pass for {}", w2, v);
        }
    } else {
        let cand = [v, C::ScalarField::from(2u64), -C::ScalarField::from(1u64)];
        for _ in 0..6 {
            let base = if s.bool() { Some(&h[..]) } else { None };
            let mut fixed: Vec<Option<C::ScalarField>> = vec![None; r.sys().nwires];
            for i in &r.ins { fixed[*i] = Some(h[*i]); }
            // force some wires, derive the others
            for _ in 0..s.range(0, 2) {
                if r.sys().allocs.is_empty() { break; }
                let k = *s.pick(&r.sys().allocs);
                let c = *s.pick(&cand);
                fixed[k] = Some(c);
            }
            let last = s.bool();
            let a = r.sys().complete(fixed, |unk| {
                let k = if s.chance(1, 4) { *s.pick(unk) } else if last { unk[unk.len() - 1] } else { unk[0] };
                let x = match base { Some(h) if !s.chance(1, 8) => h[k], _ => match s.below(5) { 0 | 1 => C::ScalarField::zero(), 2 | 3 => C::ScalarField::from(1u64), _ => *s.pick(&cand) } };
                (k, x)
            });
            if let None = r.sys().violated(&a) {
                return fail(format!("a witness satisfies the {}-bit range relation for {}", g.n, v));
            }
        }
    }
    Ok(())
}
fn c16_proof(s: &mut Src) -> Res { on_curve!(s, c16_proof_) }
fn c16_proof_<C: AffineRepr>(s: &mut Src) -> Res {
    let (g, ok) = gen_range::<C::ScalarField>(s);
    let h = how(s);
    let acc = e2e::<C, _>(&g, h, None, CAP);
    ensure!(acc == ok, "{}-bit range proof accepted={} although in range={} (inputs as {:?})", g.n, acc, ok, h);
    Ok(())
}
fn c16_small(s: &mut Src) -> Res {
    // every witness over a tiny field
    let n = s.range(1, 2);
    let v = s.below(13);
    s.nontrivial(hash64(&(n, v)));
    s.note(format!("F13 n={} v={}, all witnesses", n, v));
    let g = Range { ins: vec![F13::from(v)], v: Form { c: F13::zero(), t: vec![(0, F13::from(1u64))] }, wit: Some(v), n };
    let r = record(&g);
    if r.sys().allocs.len() > 4 { return Ok(()); }
    let sols = enumerate(r.sys(), &r.ins, &[F13::from(v)], 13);
    let sat = sols.iter().any(|a| r.sys().violated(a).is_none());
    ensure!(sat == (v < (1 << n)), "F13 n={} v={}: satisfiable={}", n, v, sat);
    Ok(())
}
/// all completions over a small field
fn enumerate<F: PrimeField>(sys: &Sys<F>, ins: &[usize], inv: &[F], p: u64) -> Vec<Vec<F>> {
    let k = sys.allocs.len();
    let mut out = vec![];
    let mut idx = vec![0u64; k];
    loop {
        let mut st = vec![None; sys.nwires];
        for (i, v) in ins.iter().zip(inv) { st[*i] = Some(*v); }
        for (a, v) in sys.allocs.iter().zip(&idx) { st[*a] = Some(F::from(*v)); }
        out.push(sys.complete(st, |unk| (unk[0], F::zero())));
        let mut j = 0;
        while j < k {
            idx[j] += 1;
            if idx[j] < p { break; }
            idx[j] = 0;
            j += 1;
        }
        if j == k { return out; }
    }
}

// ---------------------------------------------------------------- C17
struct Look<F: Field, const N: usize> { t: Lookup3Bit<N, F>, index: usize }
impl<F: Field, const N: usize> Gadget<F> for Look<F, N> {
    fn inputs(&self) -> Vec<F> { vec![] }
    fn run<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, _ins: &[LinearCombination<F>], w: bool) -> Vec<LinearCombination<F>> {
        lookup(cs, &self.t, if w { Some(self.index) } else { None }).expect("lookup").to_vec()
    }
}
fn gen_table<F: PrimeField, const N: usize>(s: &mut Src) -> Lookup3Bit<N, F> {
    let mut elems = [[F::zero(); WINDOW_ELEMS]; N];
    for e in elems.iter_mut() {
        let v = gen_entries::<F>(s, WINDOW_ELEMS);
        e.copy_from_slice(&v);
    }
    Lookup3Bit { elems }
}
fn rows<F: Field, const N: usize>(t: &Lookup3Bit<N, F>) -> Vec<Vec<F>> {
    (0..WINDOW_ELEMS).map(|j| (0..N).map(|i| t.elems[i][j]).collect()).collect()
}
fn c17_relation(s: &mut Src) -> Res {
    match s.below(4) { 0 => c17_curve::<1>(s), 1 | 2 => c17_curve::<2>(s), _ => c17_curve::<3>(s) }
}
fn c17_curve<const N: usize>(s: &mut Src) -> Res {
    match s.below(4) { 0 => c17_f::<ark_pallas::Fq, N>(s), 1 => c17_f::<ark_pallas::Fr, N>(s), 2 => c17_f::<ark_secp256k1::Fq, N>(s), _ => c17_f::<ark_secp256k1::Fr, N>(s) }
}
fn c17_f<F: PrimeField, const N: usize>(s: &mut Src) -> Res {
    let t = gen_table::<F, N>(s);
    let index = s.usize(8);
    s.nontrivial_by_choices();
    s.label(format!("N={}", N));
    s.note(format!("table of {} coordinates, index {}", N, index));
    let g = Look { t, index };
    let r = record(&g);
    let h = r.honest();
    let rows = rows(&t);
    ensure!(r.sys().violated(&h).is_none(), "honest lookup of index {} violates {:?}", index, r.sys().violated(&h));
    ensure!(r.out_values(&h) == rows[index], "lookup of index {} gives another row", index);
    ensure!(record_verifier(&g).sys() == r.sys(), "prover and verifier emit different constraints");
    ensure!(r.sys().undetermined(&h, &[], &r.sys().allocs) == 0, "the index bits are not locally determined");
    let two = F::from(2u64);
    let cand = [two, -F::one(), F::one(), F::zero(), two.inverse().unwrap()];
    for _ in 0..8 {
        let base = if s.chance(2, 3) { Some(&h[..]) } else { None };
        let a = r.sys().attack(s, base, &[], &cand, &[]);
        if r.sys().violated(&a).is_none() {
            let o = r.out_values(&a);
            ensure!(rows.contains(&o), "a witness makes the lookup return {:?}, which is no row of the table", o.len());
            s.label("attack satisfied with a row");
        }
    }
    Ok(())
}
fn c17_small(s: &mut Src) -> Res {
    let mut elems = [[F7::zero(); WINDOW_ELEMS]; 2];
    for e in elems.iter_mut() { for x in e.iter_mut() { *x = F7::from(s.below(7)); } }
    s.nontrivial_by_choices();
    s.note("F7 table of 2 coordinates, all witnesses");
    let t = Lookup3Bit { elems };
    let g = Look { t, index: 0 };
    let r = record(&g);
    if r.sys().allocs.len() > 4 { return Ok(()); }
    let rows = rows(&t);
    let mut seen = HashSet::new();
    for a in enumerate(r.sys(), &[], &[], 7) {
        if r.sys().violated(&a).is_none() {
            let o = r.out_values(&a);
            ensure!(rows.contains(&o), "F7: some witness returns no row of the table");
            seen.insert(o.iter().map(|x| as_u64(x)).collect::<Vec<_>>());
        }
    }
    let want: HashSet<_> = rows.iter().map(|o| o.iter().map(|x| as_u64(x)).collect::<Vec<_>>()).collect();
    ensure!(seen == want, "F7: reachable rows are not all rows");
    Ok(())
}
struct IsBit<F> { ins: Vec<F>, x: Form<F> }
impl<F: Field> Gadget<F> for IsBit<F> {
    fn inputs(&self) -> Vec<F> { self.ins.clone() }
    fn run<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[LinearCombination<F>], _w: bool) -> Vec<LinearCombination<F>> {
        is_bit(cs, self.x.lc(ins));
        vec![]
    }
}
fn c17_bit(s: &mut Src) -> Res { on_curve!(s, c17_bit_) }
fn c17_bit_<C: AffineRepr>(s: &mut Src) -> Res {
    let x: C::ScalarField = field(s);
    let mut ins = vec![];
    let f = form_for(s, x, &mut ins);
    let g = IsBit { ins, x: f };
    let want = x.is_zero() || x == C::ScalarField::from(1u64);
    s.label(if want { "bit" } else { "not a bit" });
    s.nontrivial_by_choices();
    s.note(format!("is_bit({})", show(&x)));
    let r = record(&g);
    ensure!(r.sys().violated(&r.honest()).is_none() == want, "is_bit({})", x);
    if !want {
        let a = r.sys().attack(s, Some(&r.honest()), &r.ins, &[], &[]);
        ensure!(r.sys().violated(&a).is_some(), "a witness makes {} a bit", x);
    }
    if s.chance(1, 3) {
        let h = how(s);
        ensure!(e2e::<C, _>(&g, h, None, CAP) == want, "is_bit proof for {} (inputs as {:?})", x, h);
    }
    Ok(())
}
fn c17_proof(s: &mut Src) -> Res { on_curve!(s, c17_proof_) }
/// Lookup against public expected outputs through real proofs.
struct LookOut<F: Field> { t: Lookup3Bit<2, F>, index: usize, out: [F; 2] }
impl<F: Field> Gadget<F> for LookOut<F> {
    fn inputs(&self) -> Vec<F> { self.out.to_vec() }
    fn run<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[LinearCombination<F>], w: bool) -> Vec<LinearCombination<F>> {
        let o = lookup(cs, &self.t, if w { Some(self.index) } else { None }).expect("lookup");
        for (a, b) in o.into_iter().zip(ins) { cs.constrain(a - b.clone()); }
        vec![]
    }
}
fn c17_proof_<C: AffineRepr>(s: &mut Src) -> Res {
    let t = gen_table::<C::ScalarField, 2>(s);
    let index = s.usize(8);
    let other = s.usize(8);
    let rows = rows(&t);
    let mut out = [rows[index][0], rows[index][1]];
    match s.below(4) {
        0 => out = [rows[index][0], rows[other][1]],
        1 => out = [rows[other][0], rows[other][1]],
        2 => out[s.usize(2)] += C::ScalarField::from(1u64),
        _ => {}
    }
    let want = out.to_vec() == rows[index];
    s.label(if want { "true" } else { "false" });
    s.nontrivial_by_choices();
    s.note(format!("lookup proof index {} {}", index, want));
    let g = LookOut { t, index, out };
    let h = how(s);
    ensure!(e2e::<C, _>(&g, h, None, CAP) == want, "lookup proof accepted={} for claimed outputs that are{} the row", !want, if want { "" } else { " not" });
    if !want {
        // the prover may use any bits
        let r = record(&g);
        let a = r.sys().attack(s, Some(&r.honest()), &r.ins, &[], &[]);
        let sat = r.sys().violated(&a).is_none();
        ensure!(!sat || rows.contains(&out.to_vec()), "a witness makes the lookup return no row");
        if sat {
            ensure!(e2e::<C, _>(&g, h, Some(r.sys().script(&a)), CAP), "satisfying witness rejected");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18
struct Check<F> { x: F, y: F, a: F, b: F }
impl<F: Field> Gadget<F> for Check<F> {
    fn inputs(&self) -> Vec<F> { vec![self.x, self.y] }
    fn run<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, ins: &[LinearCombination<F>], _w: bool) -> Vec<LinearCombination<F>> {
        curve_check(cs, ins[0].clone(), ins[1].clone(), self.a, self.b);
        vec![]
    }
}
fn c18_check(s: &mut Src) -> Res { on_curve!(s, c18_check_) }
fn c18_check_<C: AffineRepr>(s: &mut Src) -> Res {
    type S<C> = <C as AffineRepr>::ScalarField;
    let (x, y): (S<C>, S<C>) = (field(s), field(s));
    let a: S<C> = match s.below(4) { 0 => S::<C>::zero(), 1 => -S::<C>::from(3u64), _ => field(s) };
    let b_true = y.square() - x * x.square() - a * x;
    let b = match s.below(5) {
        0 => b_true + S::<C>::from(1u64),
        1 => y.square() - x * x.square() - a * x.square(),
        2 => b_true + a,
        3 => field(s),
        _ => b_true,
    };
    let want = b == b_true;
    s.label(if a.is_zero() { "a=0" } else { "a!=0" });
    s.label(if want { "on curve" } else { "off curve" });
    s.nontrivial_by_choices();
    s.note(format!("curve_check x={} y={} a={} {}", show(&x), show(&y), show(&a), want));
    let g = Check { x, y, a, b };
    let r = record(&g);
    ensure!(r.sys().violated(&r.honest()).is_none() == want, "curve_check satisfied={} for a point that is{} on the curve (a={})", !want, if want { "" } else { " not" }, a);
    if !want {
        let at = r.sys().attack(s, Some(&r.honest()), &r.ins, &[], &[]);
        ensure!(r.sys().violated(&at).is_some(), "a witness passes curve_check for a point off the curve");
    }
    if s.chance(1, 4) {
        let h = how(s);
        ensure!(e2e::<C, _>(&g, h, None, CAP) == want, "curve_check proof wrong verdict (inputs as {:?})", h);
    }
    Ok(())
}
struct Add<F: Field> { v: [F; 6], delta: Option<F>, inv: Option<F>, checked: bool }
impl<F: Field> Gadget<F> for Add<F> {
    fn inputs(&self) -> Vec<F> { self.v.to_vec() }
    fn run<Cs: ConstraintSystem<F>>(&self, cs: &mut Cs, i: &[LinearCombination<F>], w: bool) -> Vec<LinearCombination<F>> {
        let p = CurveAddition {
            x_l: i[0].clone(), y_l: i[1].clone(), x_r: i[2].clone(), y_r: i[3].clone(), x_o: i[4].clone(), y_o: i[5].clone(),
            delta: if w { self.delta } else { None },
        };
        if self.checked { checked_curve_addition(cs, &p, if w { self.inv } else { None }) } else { incomplete_curve_addition(cs, &p) }
        vec![]
    }
}
fn chord<F: Field>(l: (F, F), r: (F, F)) -> Option<(F, F, F)> {
    let d = (r.1 - l.1) * (r.0 - l.0).inverse()?;
    let x = d.square() - l.0 - r.0;
    Some((x, d * (l.0 - x) - l.1, d))
}
fn c18_add(s: &mut Src) -> Res { on_curve!(s, c18_add_) }
fn c18_add_<C: AffineRepr>(s: &mut Src) -> Res {
    // any two pairs with different x lie on one curve y^2 = x^3 + a x + b
    let l: (C::ScalarField, C::ScalarField) = (field(s), field(s));
    let mut r: (C::ScalarField, C::ScalarField) = (field(s), field(s));
    match s.below(6) { 0 => r.0 = l.0, 1 => r = l, 2 => r = (l.0, -l.1), 3 => r.1 = l.1, _ => {} }
    add_case::<C::ScalarField>(s, l, r, |g, h, sc| e2e::<C, _>(g, h, sc, CAP))
}
fn add_case<F: PrimeField>(s: &mut Src, l: (F, F), r: (F, F), real: impl Fn(&Add<F>, How, Option<Vec<F>>) -> bool) -> Res {
    let checked = s.bool();
    let t = chord(l, r);
    let (mut xo, mut yo) = match t { Some((x, y, _)) => (x, y), None => (field(s), field(s)) };
    let one = F::one();
    let kind = s.below(9);
    match kind {
        0 => yo = -yo,
        1 => xo += one,
        2 => yo += one,
        3 => { xo = l.0; yo = l.1; }
        4 => { xo = l.0; yo = -l.1; }
        5 => { xo = field(s); yo = field(s); }
        6 => { xo = r.0; yo = r.1; }
        _ => {}
    }
    let want = match t { Some((x, y, _)) => x == xo && y == yo, None => false };
    s.label(if checked { "checked" } else { "incomplete" });
    s.label(if t.is_none() { "equal x" } else if want { "true sum" } else { "false sum" });
    s.nontrivial_by_choices();
    s.note(format!("{} addition, {}", if checked { "checked" } else { "incomplete" }, if want { "true" } else { "false" }));
    let inv = (l.0 - r.0).inverse();
    let g = Add { v: [l.0, l.1, r.0, r.1, xo, yo], delta: Some(t.map(|t| t.2).unwrap_or(one)), inv: Some(inv.unwrap_or(one)), checked };
    if t.is_none() && !checked { return Ok(()); }
    let rec = record(&g);
    let h = rec.honest();
    ensure!(rec.sys().violated(&h).is_none() == want, "addition satisfied={} although it should be {}", !want, want);
    ensure!(record_verifier(&g).sys() == rec.sys(), "prover and verifier emit different constraints");
    let cand = [l.0, l.1, xo, yo, one];
    for _ in 0..4 {
        let base = if s.bool() { Some(&h[..]) } else { None };
        let mut st: Vec<Option<F>> = vec![None; rec.sys().nwires];
        for k in &rec.ins { st[*k] = Some(h[*k]); }
        for _ in 0..s.range(0, 2) { let k = *s.pick(&rec.sys().allocs); let c = *s.pick(&cand); st[k] = Some(c); }
        let a = rec.sys().complete(st, |u| (u[0], match base { Some(h) => h[u[0]], None => rand_field(s) }));
        ensure!(want || rec.sys().violated(&a).is_some(), "a witness passes a false addition");
    }
    if want {
        let n = rec.sys().undetermined(&h, &rec.ins[..4], &rec.ins[4..]);
        ensure!(n == 0, "the sum is not determined by the summands");
    }
    if s.chance(1, 4) {
        let hw = how(s);
        ensure!(real(&g, hw, None) == want, "addition proof accepted={} (inputs as {:?})", !want, hw);
    }
    Ok(())
}
struct Helper<P: SWCurveConfig> { l: Affine<P>, r: Affine<P>, checked: bool, expect: Affine<P> }
impl<P: SWCurveConfig> Gadget<P::BaseField> for Helper<P> where P::BaseField: PrimeField {
    fn inputs(&self) -> Vec<P::BaseField> { vec![self.l.x, self.l.y, self.r.x, self.r.y, self.expect.x, self.expect.y] }
    fn run<Cs: ConstraintSystem<P::BaseField>>(&self, cs: &mut Cs, i: &[LinearCombination<P::BaseField>], w: bool) -> Vec<LinearCombination<P::BaseField>> {
        let l = PointRepresentation { x: i[0].clone(), y: i[1].clone(), witness: if w { Some(self.l) } else { None } };
        let r = PointRepresentation { x: i[2].clone(), y: i[3].clone(), witness: if w { Some(self.r) } else { None } };
        let o = if self.checked { checked_curve_addition_helper(cs, l, r) } else { incomplete_curve_addition_helper(cs, l, r) };
        if w {
            assert_eq!(o.witness, Some((self.l + self.r).into_affine()), "helper's witness is not the sum");
        } else {
            assert!(o.witness.is_none());
        }
        cs.constrain(o.x.clone() - i[4].clone());
        cs.constrain(o.y.clone() - i[5].clone());
        vec![o.x, o.y]
    }
}
fn c18_helper(s: &mut Src) -> Res {
    match s.below(4) {
        0 => helper::<ark_pallas::PallasConfig, Ves>(s),
        1 => helper::<ark_vesta::VestaConfig, Pal>(s),
        2 => helper::<ark_secp256k1::Config, SecQ>(s),
        _ => helper::<ark_secq256k1::Config, SecP>(s),
    }
}
fn sub_point<P: SWCurveConfig>(s: &mut Src) -> Affine<P> {
    match s.below(4) {
        0 => Affine::<P>::generator(),
        1 => (Affine::<P>::generator() * P::ScalarField::from(2 + s.below(5))).into_affine(),
        _ => rand_point(s),
    }
}
fn helper<P: SWCurveConfig, C: AffineRepr<ScalarField = P::BaseField>>(s: &mut Src) -> Res where P::BaseField: PrimeField {
    let l = sub_point::<P>(s);
    let r = sub_point::<P>(s);
    if l.x == r.x { s.label("skipped: equal x"); return Ok(()); }
    let sum = (l + r).into_affine();
    let expect = match s.below(6) { 0 => -sum, 1 => l, 2 => (sum + l).into_affine(), 3 => (l - r).into_affine(), _ => sum };
    let want = expect == sum;
    let g = Helper { l, r, checked: s.bool(), expect };
    s.label(if want { "true sum" } else { "false sum" });
    s.nontrivial_by_choices();
    s.note(format!("helper checked={} {}", g.checked, want));
    let rec = record(&g);
    let h = rec.honest();
    ensure!(rec.sys().violated(&h).is_none() == want, "helper's constraints satisfied={}", !want);
    ensure!(record_verifier(&g).sys() == rec.sys(), "prover and verifier emit different constraints");
    for _ in 0..3 {
        let a = rec.sys().attack(s, Some(&h), &rec.ins, &[expect.x, expect.y], &[]);
        ensure!(want || rec.sys().violated(&a).is_some(), "a witness makes the helper's sum another point");
    }
    if s.chance(1, 4) {
        let hw = how(s);
        ensure!(e2e::<C, _>(&g, hw, None, CAP) == want, "helper proof accepted={}", !want);
    }
    Ok(())
}
fn c18_small(s: &mut Src) -> Res {
    // checked addition over F13: all witnesses (2 allocated values)
    let v: Vec<F13> = (0..4).map(|_| F13::from(s.below(13))).collect();
    let checked = s.bool();
    let t = chord((v[0], v[1]), (v[2], v[3]));
    if t.is_none() && !checked { return Ok(()); }
    let o = match (t, s.below(2)) { (Some(t), 0) => (t.0, t.1), _ => (F13::from(s.below(13)), F13::from(s.below(13))) };
    let want = t.map(|t| (t.0, t.1) == o).unwrap_or(false);
    s.label(if want { "true" } else { "false" });
    s.nontrivial_by_choices();
    s.note(format!("F13 addition checked={} {}", checked, want));
    let g = Add { v: [v[0], v[1], v[2], v[3], o.0, o.1], delta: Some(v[0]), inv: Some(v[0]), checked };
    let r = record(&g);
    if r.sys().allocs.len() > 3 { return Ok(()); }
    let sat = enumerate(r.sys(), &r.ins, &g.inputs(), 13).iter().any(|a| r.sys().violated(a).is_none());
    ensure!(sat == want, "F13: addition satisfiable={} expected {}", sat, want);
    Ok(())
}

// ---------------------------------------------------------------- C19
struct Rerand<'a, P: SWCurveConfig> { tables: &'a [Lookup3Bit<2, P::BaseField>], c: Affine<P>, out: Affine<P>, r: P::ScalarField }
impl<'a, P: SWCurveConfig> Gadget<P::BaseField> for Rerand<'a, P> where P::BaseField: PrimeField {
    fn inputs(&self) -> Vec<P::BaseField> { vec![self.c.x, self.c.y, self.out.x, self.out.y] }
    fn run<Cs: ConstraintSystem<P::BaseField>>(&self, cs: &mut Cs, i: &[LinearCombination<P::BaseField>], w: bool) -> Vec<LinearCombination<P::BaseField>> {
        re_randomize::<_, _, P, _>(
            cs, self.tables,
            PointRepresentation { x: i[0].clone(), y: i[1].clone(), witness: if w { Some(self.c) } else { None } },
            i[2].clone(), i[3].clone(), if w { Some(self.r) } else { None },
        );
        vec![i[2].clone(), i[3].clone()]
    }
}
type Tab<P> = Vec<Lookup3Bit<2, <P as ark_ec::CurveConfig>::ScalarField>>;
struct Base<P: SWCurveConfig> { h: Affine<P>, tables: Vec<Lookup3Bit<2, P::BaseField>> }
/// one of a few blinding bases (index 0: the library's own)
fn base<P: SWCurveConfig>(k: usize) -> &'static Base<P> {
    let _ = std::marker::PhantomData::<Tab<P>>;
    cached(k, || {
        let h = if k == 0 { pc_gens::<Affine<P>>().B_blinding } else { (Affine::<P>::generator() * P::ScalarField::from(k as u64)).into_affine() };
        Base { h, tables: build_tables(h) }
    })
}
/// scalars with boundary digit patterns; never one of the degenerate ones
fn scalar<F: PrimeField>(s: &mut Src) -> F {
    let lam = F::MODULUS_BIT_SIZE as u64;
    let r = match s.below(9) {
        0 => F::one(),
        1 => -F::one(),
        2 => F::from(s.below(64)),
        3 => F::from(2u64).pow([s.below(lam)]),
        4 => F::from(2u64).pow([s.below(lam - 1)]) - F::one(),
        5 => -F::from(s.below(1000)),
        6 => { // sparse digits
            let mut t = F::zero();
            for _ in 0..s.range(1, 4) { t += F::from(s.below(8)) * F::from(8u64).pow([s.below(lam / 3 + 1)]); }
            t
        }
        _ => rand_field(s),
    };
    if r.is_zero() { F::one() } else { r }
}
fn degenerate<P: SWCurveConfig>(c: &Affine<P>, h: &Affine<P>, r: &P::ScalarField) -> bool {
    // sums that the incomplete formulas exclude by design: zero blinding, c = +- r h, and the one
    // scalar for which the two halves of the digit sum coincide
    let rh = (*h * *r).into_affine();
    let m = P::ScalarField::MODULUS_BIT_SIZE as u64 / 3 + 1;
    let s: P::ScalarField = (1..m).map(|k| P::ScalarField::from(8u64).pow([k])).sum();
    r.is_zero() || c.is_zero() || c.x == rh.x || { let d = *r + s + s; let top = P::ScalarField::from(8u64).pow([m - 1]); (0..8u64).any(|j| d == (top + top) * P::ScalarField::from(j)) }
}
macro_rules! on_p {
    ($s:expr, $f:ident) => {
        match $s.below(4) {
            0 => $f::<ark_pallas::PallasConfig, Ves>($s),
            1 => $f::<ark_vesta::VestaConfig, Pal>($s),
            2 => $f::<ark_secp256k1::Config, SecQ>($s),
            _ => $f::<ark_secq256k1::Config, SecP>($s),
        }
    };
}
fn c19_tables(s: &mut Src) -> Res { on_p!(s, tables) }
fn tables<P: SWCurveConfig, C>(s: &mut Src) -> Res where P::BaseField: PrimeField {
    let b = base::<P>(s.usize(4));
    let r: P::ScalarField = scalar(s);
    s.nontrivial_by_choices();
    s.note(format!("tables recombine for r={}", show(&r)));
    let bits = r.into_bigint();
    let mut acc = Projective::<P>::zero();
    ensure!(b.tables.len() * 3 >= P::ScalarField::MODULUS_BIT_SIZE as usize, "too few tables");
    for (i, t) in b.tables.iter().enumerate() {
        let j = (0..3).map(|k| (bits.get_bit(3 * i + k) as usize) << k).sum::<usize>();
        let p = Affine::<P>::new_unchecked(t.elems[0][j], t.elems[1][j]);
        ensure!(p.is_on_curve(), "table {} entry {} is not on the curve", i, j);
        acc += p;
    }
    ensure!(acc.into_affine() == (b.h * r).into_affine(), "the tables do not recombine to r*h");
    Ok(())
}
fn gen_rr<P: SWCurveConfig>(s: &mut Src) -> Option<(&'static Base<P>, Affine<P>, P::ScalarField, Affine<P>)> {
    let b = base::<P>(if s.chance(1, 3) { s.usize(4) } else { 0 });
    let c = sub_point::<P>(s);
    let r: P::ScalarField = scalar(s);
    if degenerate(&c, &b.h, &r) { s.label("skipped: degenerate"); return None; }
    let out = (c + b.h * r).into_affine();
    s.nontrivial_by_choices();
    s.note(format!("rerandomize with r={}", show(&r)));
    Some((b, c, r, out))
}
fn c19_honest(s: &mut Src) -> Res { on_p!(s, honest) }
fn honest<P: SWCurveConfig, C>(s: &mut Src) -> Res where P::BaseField: PrimeField {
    let Some((b, c, r, out)) = gen_rr::<P>(s) else { return Ok(()) };
    let g = Rerand { tables: &b.tables, c, out, r };
    let rec = record(&g);
    let h = rec.honest();
    ensure!(rec.sys().violated(&h).is_none(), "honest rerandomization violates {:?}", rec.sys().violated(&h));
    ensure!(record_verifier(&g).sys() == rec.sys(), "prover and verifier emit different constraints");
    let n = rec.sys().undetermined(&h, &rec.ins[..2], &rec.ins[2..]);
    ensure!(n == 0, "given the commitment, {} coordinate(s) of the public point are free", n);
    // a false public point with the honest or a modified witness
    let wrong = match s.below(7) {
        0 => -out,
        1 => c,
        2 => (out + b.h).into_affine(),
        3 => (c + b.h * (-r)).into_affine(),
        4 => (b.h * r).into_affine(),
        5 => Affine::<P>::new_unchecked(out.x, out.y + P::BaseField::from(1u64)),
        _ => rand_point(s),
    };
    if wrong == out { return Ok(()); }
    s.label("false public point tried");
    let g = Rerand { tables: &b.tables, c, out: wrong, r };
    let rec = record(&g);
    let h = rec.honest();
    ensure!(rec.sys().violated(&h).is_some(), "the relation holds for a public point that is not the rerandomization");
    for _ in 0..2 {
        let a = rec.sys().attack(s, Some(&h), &rec.ins, &[wrong.x, wrong.y], &[]);
        ensure!(rec.sys().violated(&a).is_some(), "a witness satisfies the relation for an unrelated public point");
    }
    Ok(())
}
fn c19_attack(s: &mut Src) -> Res { on_p!(s, attack) }
fn attack<P: SWCurveConfig, C: AffineRepr<ScalarField = P::BaseField>>(s: &mut Src) -> Res where P::BaseField: PrimeField {
    let Some((b, c, r, out)) = gen_rr::<P>(s) else { return Ok(()) };
    let g = Rerand { tables: &b.tables, c, out, r };
    let rec = record(&g);
    let h = rec.honest();
    // allowed public points: the honest one, up to two flipped digit bits
    let bits = r.into_bigint();
    let mut flips: Vec<Projective<P>> = vec![];
    for (i, t) in b.tables.iter().enumerate() {
        let j = (0..3).map(|k| (bits.get_bit(3 * i + k) as usize) << k).sum::<usize>();
        let p = Affine::<P>::new_unchecked(t.elems[0][j], t.elems[1][j]);
        for k in 1..8 {
            let q = Affine::<P>::new_unchecked(t.elems[0][j ^ k], t.elems[1][j ^ k]);
            flips.push(q - p);
        }
    }
    let flips = Projective::<P>::normalize_batch(&flips);
    let fset: HashSet<Vec<u64>> = flips.iter().map(key).collect();
    for _ in 0..3 {
        let mut st: Vec<Option<P::BaseField>> = vec![None; rec.sys().nwires];
        for k in &rec.ins[..2] { st[*k] = Some(h[*k]); }
        let forced = s.range(1, 2);
        let near = s.chance(1, 3);
        for q in 0..forced {
            let k = if near && q == 0 { rec.sys().allocs[s.usize(8.min(rec.sys().allocs.len()))] } else { *s.pick(&rec.sys().allocs) };
            let other = rand_point::<Affine<P>>(s);
            let x = match s.below(7) {
                0 => P::BaseField::from(1u64) - h[k],
                1 => P::BaseField::from(s.below(4)),
                2 => -h[k],
                3 => other.x,
                4 => other.y,
                5 => h[k] + P::BaseField::from(1u64),
                _ => rand_field(s),
            };
            st[k] = Some(x);
        }
        let a = rec.sys().complete(st, |u| (u[0], h[u[0]]));
        if rec.sys().violated(&a).is_some() { continue; }
        let o = rec.out_values(&a);
        let p = Affine::<P>::new_unchecked(o[0], o[1]);
        if p == out { s.label("attack: honest output"); continue; }
        if p.is_on_curve() {
            let d = (p - out).into_affine();
            if fset.contains(&key(&d)) { s.label("attack: another digit"); continue; }
            let pairs: Vec<Projective<P>> = flips.iter().map(|f| d - *f).collect();
            if Projective::<P>::normalize_batch(&pairs).iter().any(|x| fset.contains(&key(x))) { s.label("attack: two other digits"); continue; }
        }
        // confirm with a real proof
        let g2 = Rerand { tables: &b.tables, c, out: p, r };
        let acc = e2e::<C, _>(&g2, How::Scalars, Some(rec.sys().script(&a)), CAP);
        return fail(format!("a witness satisfies the relation for a public point that is no digit-weighted sum (on curve: {}; real proof of it accepted: {})", p.is_on_curve(), acc));
    }
    Ok(())
}
fn key<P: SWCurveConfig>(p: &Affine<P>) -> Vec<u64> where P::BaseField: PrimeField {
    let mut v = p.x.into_bigint().as_ref().to_vec();
    v.extend_from_slice(p.y.into_bigint().as_ref());
    v
}
/// Two equal points to be added: the slope is not determined by them. Digits (and commitments) for
/// which this happens are computed, and a prover picks the slope.
fn c19_collide(s: &mut Src) -> Res { on_p!(s, collide) }
fn collide<P: SWCurveConfig, C: AffineRepr<ScalarField = P::BaseField>>(s: &mut Src) -> Res where P::BaseField: PrimeField {
    let k = if s.chance(1, 3) { s.usize(4) } else { 0 };
    let b = base::<P>(k);
    let m = b.tables.len();
    let eight = |i: usize| P::ScalarField::from(8u64).pow([i as u64]);
    // the multiples of the base in the tables, as the protocol has them
    let sum: P::ScalarField = (1..m).map(eight).sum();
    let mult = |i: usize, j: u64| P::ScalarField::from(j) * eight(i) + if i + 1 < m { eight(i + 1) } else { -sum };
    let known = cached(k, || Known::<P>((0..m).all(|i| (0..8).all(|j| {
        let q = (b.h * mult(i, j)).into_affine();
        q.x == b.tables[i].elems[0][j as usize] && q.y == b.tables[i].elems[1][j as usize]
    })), std::marker::PhantomData)).0;
    if !known { s.label("tables are of another kind"); return Ok(()); }
    // scalars whose first i digits sum to the multiple selected by the next one
    let mut cands: Vec<(usize, P::ScalarField)> = vec![];
    for i in 1..m {
        let si: P::ScalarField = (1..=i).map(eight).sum();
        for j in 0..8u64 {
            let lo = mult(i, j) - si;
            let v = lo.into_bigint();
            if (3 * i..P::ScalarField::MODULUS_BIT_SIZE as usize + 2).any(|k| v.get_bit(k)) { continue; }
            let r = lo + P::ScalarField::from(j) * eight(i);
            // as an integer: not wrapped, and its next digit is j
            let w = r.into_bigint();
            if (0..3).map(|k| (w.get_bit(3 * i + k) as u64) << k).sum::<u64>() != j || (0..3 * i).any(|k| w.get_bit(k) != v.get_bit(k)) { continue; }
            cands.push((i, r));
        }
    }
    let (at, r, c): (usize, P::ScalarField, Affine<P>) = if cands.is_empty() || s.chance(1, 2) {
        // the commitment is the digit-weighted sum itself
        let r: P::ScalarField = scalar(s);
        let c = (b.h * r).into_affine();
        if degenerate(&sub_point::<P>(s), &b.h, &r) { return Ok(()); }
        (m, r, c)
    } else {
        let (i, r) = *s.pick(&cands);
        // higher digits may be anything that is not wrapped
        (i, r, sub_point::<P>(s))
    };
    s.label(if at == m { "commitment equals the blinding".to_string() } else { format!("digit {} of {} meets the sum of those before", at + 1, m) });
    s.nontrivial_by_choices();
    s.note(format!("r={}, equal operands at {} of {}", show(&r), at, m));
    let want = (c + b.h * r).into_affine();
    // which allocated wires carry the digits: those that have the same value under unrelated tables
    let fake = |k: u64| -> Tab2<P> {
        (0..m as u64).map(|i| {
            let mut t = Lookup3Bit::<2, P::BaseField> { elems: [[P::BaseField::from(0u64); 8]; 2] };
            for j in 0..8u64 {
                let q = (Affine::<P>::generator() * P::ScalarField::from(1000003 * k + 7919 * i * i + 104729 * j * (i + 1) + i + j)).into_affine();
                t.elems[0][j as usize] = q.x;
                t.elems[1][j as usize] = q.y;
            }
            t
        }).collect()
    };
    let (fa, fb) = cached(0, || (fake(1), fake(2)));
    let far = (Affine::<P>::generator() * P::ScalarField::from(998244353u64)).into_affine();
    let ra = record(&Rerand { tables: fa, c: far, out: far, r });
    let rb = record(&Rerand { tables: fb, c: far, out: far, r });
    let (ha, hb) = (ra.honest(), rb.honest());
    let rec = record_verifier(&Rerand { tables: &b.tables, c, out: want, r });
    if rec.sys().allocs != ra.sys().allocs || rec.sys().allocs != rb.sys().allocs { return fail("constraints depend on the tables in their structure"); }
    let mut st: Vec<Option<P::BaseField>> = vec![None; rec.sys().nwires];
    st[rec.ins[0]] = Some(c.x);
    st[rec.ins[1]] = Some(c.y);
    for k in &rec.sys().allocs { if ha[*k] == hb[*k] { st[*k] = Some(ha[*k]); } }
    let mut ok_stuck = false;
    for q in 0..6 {
        let x: P::BaseField = if s.bool() { rand_field(s) } else { P::BaseField::from(s.below(5)) };
        let mut first = true;
        let a = rec.sys().complete(st.clone(), |unk| {
            if first { ok_stuck = true; }
            let k = unk[if first { q.min(unk.len() - 1) } else { 0 }];
            first = false;
            (k, x)
        });
        if rec.sys().violated(&a).is_some() { continue; }
        let p = Affine::<P>::new_unchecked(a[rec.ins[2]], a[rec.ins[3]]);
        if p == want { s.label("the true point"); continue; }
        // confirm with a real proof
        let g = Forced { tables: &b.tables, ins: vec![c.x, c.y, p.x, p.y], ph: std::marker::PhantomData::<P> };
        let acc = e2e::<C, _>(&g, How::Scalars, Some(rec.sys().script(&a)), CAP);
        return fail(format!("equal points are added at {} of {}: a witness with a slope of its choice satisfies the relation for another public point (real proof of it accepted: {})", at, m, acc));
    }
    s.label(if ok_stuck { "slope free, no witness" } else { "nothing free" });
    Ok(())
}
type Tab2<P> = Vec<Lookup3Bit<2, <P as ark_ec::CurveConfig>::BaseField>>;
struct Known<P>(bool, std::marker::PhantomData<P>);
/// the gadget without a witness of its own
struct Forced<'a, P: SWCurveConfig> { tables: &'a [Lookup3Bit<2, P::BaseField>], ins: Vec<P::BaseField>, ph: std::marker::PhantomData<P> }
impl<'a, P: SWCurveConfig> Gadget<P::BaseField> for Forced<'a, P> where P::BaseField: PrimeField {
    fn inputs(&self) -> Vec<P::BaseField> { self.ins.clone() }
    fn run<Cs: ConstraintSystem<P::BaseField>>(&self, cs: &mut Cs, i: &[LinearCombination<P::BaseField>], _w: bool) -> Vec<LinearCombination<P::BaseField>> {
        let _ = self.ph;
        re_randomize::<_, _, P, _>(cs, self.tables, PointRepresentation { x: i[0].clone(), y: i[1].clone(), witness: None }, i[2].clone(), i[3].clone(), None);
        vec![]
    }
}
fn c19_proof(s: &mut Src) -> Res { on_p!(s, rr_proof) }
fn rr_proof<P: SWCurveConfig, C: AffineRepr<ScalarField = P::BaseField>>(s: &mut Src) -> Res where P::BaseField: PrimeField {
    let Some((b, c, r, out)) = gen_rr::<P>(s) else { return Ok(()) };
    let wrong = match s.below(6) { 0 => -out, 1 => (out + b.h).into_affine(), 2 => rand_point(s), _ => out };
    let g = Rerand { tables: &b.tables, c, out: wrong, r };
    let h = how(s);
    s.label(if wrong == out { "true" } else { "false" });
    let acc = e2e::<C, _>(&g, h, None, CAP);
    ensure!(acc == (wrong == out), "rerandomization proof accepted={} for a {} public point (inputs as {:?})", acc, if wrong == out { "true" } else { "false" }, h);
    Ok(())
}

fn main() {
    let sub = |name, rule, quick, thorough, f| Sub { name, rule, quick, thorough, f };
    main_with(&[
        ("C15", vec![
            sub("relation", "entries (constants, inputs, affine forms; repeated, zero) and value generated; members and non-members, adversarial witnesses", 16000, 400000, c15_relation as CaseFn),
            sub("proof", "real proofs over the same generated lists", 800, 20000, c15_proof),
            sub("small", "lists over F13 with every value", 3000, 40000, c15_small),
        ], &["satisfaction is judged on the recorded linear constraints and gates, whose meaning is checked by C01/C02"]),
        ("C16", vec![
            sub("relation", "width, value (boundaries, negatives, wraps) and witness generated; adversarial witnesses when out of range", 12000, 300000, c16_relation as CaseFn),
            sub("proof", "real proofs over the same generated values", 700, 20000, c16_proof),
            sub("small", "every witness over F13 for a generated width and value", 60, 400, c16_small),
        ], &["widths above 64 are outside the API (u64 witness)"]),
        ("C17", vec![
            sub("relation", "table (repeated, zero, random entries), coordinates 1-3 and index generated; adversarial witnesses", 10000, 300000, c17_relation as CaseFn),
            sub("small", "tables over F7 with every witness", 60, 600, c17_small),
            sub("bit", "value generated, bits and non-bits", 6000, 100000, c17_bit),
            sub("proof", "real proofs of claimed lookups, true and false", 700, 20000, c17_proof),
        ], &[]),
        ("C18", vec![
            sub("curve_check", "point and coefficients generated, on and off the curve", 8000, 200000, c18_check as CaseFn),
            sub("addition", "two points (also equal x, equal y, opposite) and claimed sum generated; adversarial witnesses", 8000, 200000, c18_add),
            sub("helper", "two curve points and a claimed sum generated", 4000, 100000, c18_helper),
            sub("small", "additions over F13 with every witness", 1500, 20000, c18_small),
        ], &["the incomplete addition with equal x-coordinates is outside the property"]),
        ("C19", vec![
            sub("tables", "base and scalar (boundary digit patterns) generated", 400, 16000, c19_tables as CaseFn),
            sub("relation", "commitment, scalar, base generated; linearised determinacy of the public point; false public points", 100, 6000, c19_honest),
            sub("attack", "one or two internal values forced, the rest re-derived from the constraints", 240, 20000, c19_attack),
            sub("collide", "digits or commitment for which two equal points are added, the slope chosen by the prover", 200, 8000, c19_collide),
            sub("proof", "real proofs with true and false public points", 64, 4000, c19_proof),
        ], &["scalars for which the incomplete addition degenerates (zero, c = +-r h, one exceptional scalar per field) are outside the property"]),
    ]);
}
