//! A prover that deviates from the protocol: own implementation of the R1CS prover for one-phase
//! programs in which commitments may contain components they are not meant to have, the degree-`op`
//! coefficient may be "repaired", and gates need not hold. Whatever it produces for a statement the
//! reference interpreter calls false must be rejected. It is calibrated on true statements (its
//! undeviating proofs are accepted), so rejections mean something.
use crate::mirror::PM;
use crate::prog::*;
use ark_ec::{AffineRepr, CurveGroup, VariableBaseMSM};
use ark_ff::{Field, PrimeField};
use ark_serialize::CanonicalSerialize;
use ark_std::{One, Zero};
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;

pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut b = vec![];
    t.serialize_compressed(&mut b).unwrap();
    b
}

/// challenge as the protocol derives it
pub fn challenge<F: PrimeField>(t: &mut Transcript, label: &'static [u8]) -> F {
    use sha3::{Digest, Sha3_256};
    let mut bytes = [0u8; 64];
    t.challenge_bytes(label, &mut bytes);
    for i in 0..=u8::MAX {
        let mut sha = Sha3_256::new();
        sha.update(bytes);
        sha.update([i]);
        if let Some(x) = F::from_random_bytes(sha.finalize().as_slice()) {
            return x;
        }
    }
    panic!()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    V(usize),
    Vec(usize, usize),
    L(usize),
    R(usize),
    O(usize),
}

/// Witness of a one-phase program, every cell free to be falsified.
pub struct Wit<F> {
    pub kinds: Vec<Kind>,
    pub v: Vec<(F, F)>,
    pub vecs: Vec<(Vec<F>, F)>,
    pub al: Vec<F>,
    pub ar: Vec<F>,
    pub ao: Vec<F>,
    /// flattened constraints: terms (variable, coefficient) and constant
    pub cons: Vec<(Vec<(usize, F)>, F)>,
    pub n_explicit: usize,
}

pub fn witness<F: PrimeField>(p: &Prog<F>) -> Wit<F> {
    let mut w = Wit { kinds: vec![], v: vec![], vecs: vec![], al: vec![], ar: vec![], ao: vec![], cons: vec![], n_explicit: 0 };
    let mut it = Interp::<F>::new();
    let mut pending: Option<usize> = None;
    for o in &p.ops {
        match o {
            Op::Commit { v, bl } => { w.kinds.push(Kind::V(w.v.len())); w.v.push((*v, *bl)); }
            Op::CommitVec { vs, bl } => {
                let j = w.vecs.len();
                for i in 0..vs.len() { w.kinds.push(Kind::Vec(j, i)); }
                w.vecs.push((vs.clone(), *bl));
            }
            Op::Alloc { v } => match pending.take() {
                Some(i) => {
                    w.kinds.push(Kind::R(i));
                    w.ar[i] = *v;
                    w.ao[i] = w.al[i] * v;
                }
                None => {
                    let i = w.al.len();
                    pending = Some(i);
                    w.kinds.push(Kind::L(i));
                    w.al.push(*v); w.ar.push(F::zero()); w.ao.push(F::zero());
                }
            },
            Op::AllocMul { .. } | Op::Mul { .. } => {
                let (l, r) = match o {
                    Op::AllocMul { l, r } => (*l, *r),
                    Op::Mul { l, r } => (it.eval(l, F::one()), it.eval(r, F::one())),
                    _ => unreachable!(),
                };
                let i = w.al.len();
                let base = w.kinds.len();
                w.kinds.extend([Kind::L(i), Kind::R(i), Kind::O(i)]);
                w.al.push(l); w.ar.push(r); w.ao.push(l * r);
                if let Op::Mul { l, r } = o {
                    for (k, lc) in [l, r].iter().enumerate() {
                        let mut c = flat(lc);
                        c.0.push((base + k, -F::one()));
                        w.cons.push(c);
                    }
                }
            }
            Op::Constrain(lc) => w.cons.push(flat(lc)),
        }
        it.step(o, F::one());
    }
    w.n_explicit = w.al.len();
    let n = w.vecs.iter().map(|v| v.0.len()).max().unwrap_or(0).max(w.al.len());
    w.al.resize(n, F::zero());
    w.ar.resize(n, F::zero());
    w.ao.resize(n, F::zero());
    w
}

fn flat<F: PrimeField>(lc: &Lc<F>) -> (Vec<(usize, F)>, F) {
    let mut k = F::zero();
    let mut t = vec![];
    for x in lc {
        match x.var { Some(v) => t.push((v, x.c)), None => k += x.c }
    }
    (t, k)
}

impl<F: PrimeField> Wit<F> {
    pub fn val(&self, k: Kind) -> F {
        match k {
            Kind::V(i) => self.v[i].0,
            Kind::Vec(j, i) => self.vecs[j].0[i],
            Kind::L(i) => self.al[i],
            Kind::R(i) => self.ar[i],
            Kind::O(i) => self.ao[i],
        }
    }
    /// all constraints and all gates hold
    pub fn holds(&self) -> bool {
        self.gates_hold() && self.cons.iter().all(|(t, k)| (t.iter().map(|(v, c)| self.val(self.kinds[*v]) * c).sum::<F>() + k).is_zero())
    }
    pub fn gates_hold(&self) -> bool {
        (0..self.al.len()).all(|i| self.al[i] * self.ar[i] == self.ao[i])
    }
}

/// Deviations. Components not meant to be in a commitment, per coordinate.
#[derive(Default)]
pub struct Dev<F> {
    /// H-components of vector commitment j
    pub vec_h: Vec<Vec<F>>,
    /// H-components of A_O
    pub ao_h: Vec<F>,
    /// announce a T at the operation degree that makes the evaluation consistent
    pub t_op: bool,
    /// shift blame into A_I2 etc.: use A_I2 for a share of the gate values
    pub split_a2: bool,
    /// commit T after the fact: put the discrepancy into T_d of this degree
    pub fudge_t: Option<usize>,
    /// how gates and constraints are believed to be weighted
    pub weights: Weights,
    /// a message of the proof believed not to be bound by the challenge that follows it
    pub late: Option<Late>,
}

/// A message the prover changes after it has seen the challenge that should depend on it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Late {
    pub what: LateMsg,
    /// absorbed after the challenge, rather than never
    pub after: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LateMsg {
    /// the i-th commitment of the statement
    V(usize),
    AI1,
    AO1,
    S1,
    /// two coefficients of t
    T(usize, usize),
    /// L, R of round k (of those there are)
    LR(usize),
}

/// A power of a challenge: (0: y, 1: z; exponent).
pub type Mono = (u8, u64);

/// A belief about the weights with which the verifier combines gates and constraints. The protocol
/// uses independent weights (`Weights::default()`), under any other belief two conditions share a
/// weight, so that errors in them can be made to cancel.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub enum Weights {
    #[default]
    Protocol,
    /// z is y, or y is z
    ZIsY,
    /// z is y, and no challenge is drawn for it
    NoZ,
    YIsZ,
    /// constraint powers start at z^0
    ZeroBased,
    /// gate powers start at y^1, with z = y
    OneBasedY,
    /// powers of y repeat after m gates
    PeriodY(u64),
    /// every m gates share a power
    StepY(u64),
    /// powers of z repeat after m constraints
    PeriodZ(u64),
    /// every m constraints share a power
    StepZ(u64),
    /// powers of y end at m
    CapY(u64),
    /// powers of z end at m
    CapZ(u64),
}

impl Weights {
    pub fn gate(&self, i: u64) -> Mono {
        use Weights::*;
        match self {
            YIsZ => (1, i),
            OneBasedY => (0, i + 1),
            PeriodY(m) => (0, i % m),
            StepY(m) => (0, i / m),
            CapY(m) => (0, i.min(*m)),
            _ => (0, i),
        }
    }
    pub fn constraint(&self, q: u64) -> Mono {
        use Weights::*;
        match self {
            ZIsY | NoZ | OneBasedY => (0, q + 1),
            ZeroBased => (1, q),
            PeriodZ(m) => (1, q % m + 1),
            StepZ(m) => (1, q / m + 1),
            CapZ(m) => (1, q.min(*m) + 1),
            _ => (1, q + 1),
        }
    }
    pub fn same(a: Mono, b: Mono) -> bool { a == b || (a.1 == 0 && b.1 == 0) }
}

/// Degree layouts known to the attacker: (op_degree, [(l_deg, r_deg)] per vector commitment)
pub fn layouts(ncomm: usize) -> Vec<(usize, Vec<(usize, usize)>)> {
    let mut out = vec![];
    {
        let op = 2 + 2 * (ncomm / 2);
        let mid = op / 2;
        let v: Vec<_> = (1..=op).filter(|r| *r != mid).map(|r| (op - r, r)).take(ncomm).collect();
        if v.len() == ncomm { out.push((op, v)); }
    }
    {
        let op = 2 * (ncomm + 1);
        out.push((op, (1..=ncomm).map(|l| (l, op - l)).collect()));
        out.push((op, (1..=ncomm).map(|l| (op - l, l)).collect()));
    }
    if ncomm == 0 { out.truncate(1); }
    out
}

fn msm<C: AffineRepr>(p: &[C], s: &[C::ScalarField]) -> C {
    C::Group::msm_unchecked(p, s).into_affine()
}

fn t_label(d: usize) -> &'static [u8] {
    use std::sync::OnceLock;
    static L: OnceLock<Vec<&'static [u8]>> = OnceLock::new();
    L.get_or_init(|| (0..256).map(|d| &*Box::leak(format!("T_{}", d).into_bytes().into_boxed_slice())).collect())[d]
}

fn dot<F: Field>(a: &[F], b: &[F]) -> F {
    a.iter().zip(b).map(|(x, y)| *x * y).sum()
}

/// If commitment components at these degrees can interfere with gate i under the layout, the value
/// by which the gate's output may be off: used by the attack to choose a_O.
pub fn interference<F: PrimeField>(w: &Wit<F>, lay: &(usize, Vec<(usize, usize)>), dev: &Dev<F>) -> Vec<F> {
    let n = w.al.len();
    let (op, degs) = lay;
    let g = |v: &Vec<F>, i: usize| v.get(i).copied().unwrap_or(F::zero());
    let mut out = vec![F::zero(); n];
    for i in 0..n {
        for (j, (lj, _)) in degs.iter().enumerate() {
            for (k, (lk, _)) in degs.iter().enumerate() {
                if lj + lk == *op && k < dev.vec_h.len() {
                    out[i] += g(&w.vecs[j].0, i) * g(&dev.vec_h[k], i);
                }
            }
            if *lj == 0 { out[i] += g(&w.vecs[j].0, i) * g(&dev.ao_h, i); }
        }
    }
    out
}

/// Builds commitments and a proof; the gates' outputs are `w.ao` whatever they are.
pub fn evil_prove<C: AffineRepr>(
    p: &Prog<C::ScalarField>, w: &Wit<C::ScalarField>, lay: &(usize, Vec<(usize, usize)>), dev: &Dev<C::ScalarField>,
    label: &'static [u8], pc: &PedersenGens<C>, bp: &BulletproofGens<C>, rnd: &mut dyn FnMut() -> C::ScalarField,
) -> (Vec<C>, PM<C>) {
    let (zero, one) = (C::ScalarField::zero(), C::ScalarField::one());
    let n = w.al.len();
    let pn = n.next_power_of_two();
    let g: Vec<C> = bp.share(0).G(pn).copied().collect();
    let h: Vec<C> = bp.vh_h_generators(0)[..pn].to_vec();
    let late = |m: LateMsg| dev.late.filter(|l| l.what == m);
    let shift = pc.B_blinding * C::ScalarField::from(77u64);
    let shift_by = C::ScalarField::from(77u64);
    let mut t = Transcript::new(label);
    t.append_message(b"dom-sep", b"r1cs v1");
    let mut held: Vec<(&'static [u8], Vec<u8>)> = vec![];
    let mut vshift: Option<usize> = None;
    let mut cshift: Option<usize> = None;
    if !p.label_data.is_empty() { t.append_message(b"data", &p.label_data); }
    let mut comms = vec![];
    let (mut iv, mut ij) = (0, 0);
    for o in &p.ops {
        match o {
            Op::Commit { .. } => {
                let (v, bl) = w.v[iv];
                iv += 1;
                let mut c = msm::<C>(&[pc.B, pc.B_blinding], &[v, bl]);
                if let Some(l) = late(LateMsg::V(comms.len())) {
                    vshift = Some(iv - 1);
                    c = (shift + c).into_affine();
                    if l.after { held.push((b"V", ser(&c))); }
                } else { t.append_message(b"V", &ser(&c)); }
                comms.push(c);
            }
            Op::CommitVec { .. } => {
                let (v, bl) = &w.vecs[ij];
                let mut c = msm::<C>(&g[..v.len()], v).into_group() + pc.B_blinding * *bl;
                if let Some(d) = dev.vec_h.get(ij) { c += msm::<C>(&h[..d.len()], d); }
                ij += 1;
                let mut c = c.into_affine();
                if let Some(l) = late(LateMsg::V(comms.len())) {
                    cshift = Some(ij - 1);
                    c = (shift + c).into_affine();
                    if l.after { held.push((b"V", ser(&c))); }
                } else { t.append_message(b"V", &ser(&c)); }
                comms.push(c);
            }
            _ => {}
        }
    }
    t.append_u64(b"m", w.v.len() as u64);
    let (mut bi, mut bo, mut bs) = (rnd(), rnd(), rnd());
    let sl: Vec<_> = (0..n).map(|_| rnd()).collect();
    let sr: Vec<_> = (0..n).map(|_| rnd()).collect();
    let mut ai1 = (msm::<C>(&g[..n], &w.al).into_group() + msm::<C>(&h[..n], &w.ar) + pc.B_blinding * bi).into_affine();
    let mut ao1 = msm::<C>(&g[..n], &w.ao).into_group() + pc.B_blinding * bo;
    if !dev.ao_h.is_empty() { ao1 += msm::<C>(&h[..dev.ao_h.len()], &dev.ao_h); }
    let mut ao1 = ao1.into_affine();
    let mut s1 = (msm::<C>(&g[..n], &sl).into_group() + msm::<C>(&h[..n], &sr) + pc.B_blinding * bs).into_affine();
    let mut a2 = [C::zero(); 3];
    let mut a2s = zero;
    if dev.split_a2 {
        a2s = rnd();
        a2[0] = (pc.B_blinding * a2s).into_affine();
        let _ = &mut ai1;
    }
    for (m, l, x, b) in [
        (LateMsg::AI1, &b"A_I1"[..], &mut ai1, &mut bi), (LateMsg::AO1, b"A_O1", &mut ao1, &mut bo), (LateMsg::S1, b"S1", &mut s1, &mut bs),
    ] {
        if let Some(h) = late(m) {
            *x = (shift + *x).into_affine();
            *b += shift_by;
            if h.after { held.push((l, ser(x))); }
        } else { t.append_message(l, &ser(x)); }
    }
    t.append_message(b"dom-sep", b"r1cs-1phase");
    for (l, x) in [(&b"A_I2"[..], &a2[0]), (b"A_O2", &a2[1]), (b"S2", &a2[2])] {
        // labels are 'static
        let l: &'static [u8] = match l { b"A_I2" => b"A_I2", b"A_O2" => b"A_O2", _ => b"S2" };
        t.append_message(l, &ser(x));
    }
    let y: C::ScalarField = challenge(&mut t, b"y");
    let z: C::ScalarField = if dev.weights == Weights::NoZ { y } else { challenge(&mut t, b"z") };
    for (l, m) in held.drain(..) { t.append_message(l, &m); }
    // weights
    let (mut wl, mut wr, mut wo) = (vec![zero; n], vec![zero; n], vec![zero; n]);
    let mut wv = vec![zero; w.v.len()];
    let mut wvec: Vec<Vec<C::ScalarField>> = w.vecs.iter().map(|_| vec![zero; n]).collect();
    let mut wc = zero;
    let at = |(b, e): Mono| if b == 0 { y.pow([e]) } else { z.pow([e]) };
    for (q, (terms, k)) in w.cons.iter().enumerate() {
        let ez = at(dev.weights.constraint(q as u64));
        for (v, c) in terms {
            let x = ez * c;
            match w.kinds[*v] {
                Kind::L(i) => wl[i] += x,
                Kind::R(i) => wr[i] += x,
                Kind::O(i) => wo[i] += x,
                Kind::V(i) => wv[i] -= x,
                Kind::Vec(j, i) => wvec[j][i] += x,
            }
        }
        wc -= ez * k;
    }
    let ey: Vec<_> = (0..pn as u64).map(|i| at(dev.weights.gate(i))).collect();
    let eyi: Vec<_> = ey.iter().map(|e| e.inverse().unwrap()).collect();
    let (op, degs) = lay;
    let op = *op;
    let mid = op / 2;
    let nd = op + 2;
    let mut lp = vec![vec![zero; pn]; nd];
    let mut rp = vec![vec![zero; pn]; nd];
    for i in 0..n {
        lp[mid][i] += w.al[i] + eyi[i] * wr[i];
        rp[mid][i] += ey[i] * w.ar[i] + wl[i];
        lp[op][i] += w.ao[i];
        rp[0][i] += wo[i];
        lp[op + 1][i] += sl[i];
        rp[op + 1][i] += ey[i] * sr[i];
        if let Some(c) = dev.ao_h.get(i) { rp[op][i] += ey[i] * c; }
        for (j, (ld, rd)) in degs.iter().enumerate() {
            if let Some(x) = w.vecs[j].0.get(i) { lp[*ld][i] += x; }
            rp[*rd][i] += wvec[j][i];
            if let Some(x) = dev.vec_h.get(j).and_then(|d| d.get(i)) { rp[*ld][i] += ey[i] * x; }
        }
    }
    for i in 0..pn { rp[0][i] -= ey[i]; }
    let deg = 2 * (op + 1);
    let mut tc = vec![zero; deg + 1];
    for a in 0..nd { for b in 0..nd { tc[a + b] += dot(&lp[a], &rp[b]); } }
    let mut tb: Vec<_> = (0..=deg).map(|d| if d == op { zero } else { rnd() }).collect();
    // what the verifier will expect at the operation degree
    let delta = (0..n).map(|i| eyi[i] * wr[i] * wl[i]).sum::<C::ScalarField>();
    let expected = dot(&wv, &w.v.iter().map(|v| v.0).collect::<Vec<_>>()) + wc + delta;
    let gap = tc[op] - expected;
    let mut tpts: Vec<C> = (0..=deg).map(|d| {
        if d == op { C::zero() } else {
            let extra = if dev.fudge_t == Some(d) { gap } else { zero };
            msm::<C>(&[pc.B, pc.B_blinding], &[tc[d] + extra, tb[d]])
        }
    }).collect();
    if dev.t_op { tpts[op] = (pc.B * gap).into_affine(); }
    for d in 0..=deg {
        if d != op && !matches!(dev.late, Some(Late { what: LateMsg::T(a, b), .. }) if a == d || b == d) { t.append_message(t_label(d), &ser(&tpts[d])); }
    }
    let u: C::ScalarField = challenge(&mut t, b"u");
    let x: C::ScalarField = challenge(&mut t, b"x");
    if let Some(Late { what: LateMsg::T(d, e), after }) = dev.late {
        // the sum of T_i x^i stays
        tpts[d] = (shift + tpts[d]).into_affine();
        tpts[e] = (tpts[e].into_group() - shift * (x.pow([d as u64]) * x.pow([e as u64]).inverse().unwrap())).into_affine();
        if after { for k in [d, e] { t.append_message(t_label(k), &ser(&tpts[k])); } }
    }
    tb[op] = dot(&wv, &w.v.iter().map(|v| v.1).collect::<Vec<_>>());
    if let Some(i) = vshift { tb[op] += wv[i] * shift_by; }
    let mut xs = vec![one];
    for i in 1..=deg { xs.push(xs[i - 1] * x); }
    let comb = |m: &Vec<Vec<C::ScalarField>>, i: usize| (0..nd).map(|d| m[d][i] * xs[d]).sum::<C::ScalarField>();
    let l: Vec<_> = (0..pn).map(|i| comb(&lp, i)).collect();
    let r: Vec<_> = (0..pn).map(|i| comb(&rp, i)).collect();
    let tx = dot(&l, &r);
    let txb = (0..=deg).map(|d| tb[d] * xs[d]).sum::<C::ScalarField>();
    let mut eb = bi * xs[mid] + bo * xs[op] + bs * xs[op + 1] + u * a2s * xs[mid];
    if let Some(j) = cshift { eb += shift_by * xs[degs[j].0]; }
    for (j, (ld, _)) in degs.iter().enumerate() { eb += w.vecs[j].1 * xs[*ld]; }
    t.append_message(b"t_x", &ser(&tx));
    t.append_message(b"t_x_blinding", &ser(&txb));
    t.append_message(b"e_blinding", &ser(&eb));
    let wch: C::ScalarField = challenge(&mut t, b"w");
    let q = pc.B * wch;
    // inner product argument, plainly
    t.append_message(b"dom-sep", b"ipp v1");
    t.append_u64(b"n", pn as u64);
    let mut gg: Vec<C::Group> = (0..pn).map(|i| g[i] * if i < n { one } else { u }).collect();
    let mut hh: Vec<C::Group> = (0..pn).map(|i| h[i] * (eyi[i] * if i < n { one } else { u })).collect();
    let (mut a, mut b) = (l, r);
    let (mut lv, mut rv) = (vec![], vec![]);
    while a.len() > 1 {
        let m = a.len() / 2;
        let ga = C::Group::normalize_batch(&gg);
        let ha = C::Group::normalize_batch(&hh);
        let lpt = (msm::<C>(&ga[m..], &a[..m]).into_group() + msm::<C>(&ha[..m], &b[m..]) + q * dot(&a[..m], &b[m..])).into_affine();
        let rpt = (msm::<C>(&ga[..m], &a[m..]).into_group() + msm::<C>(&ha[m..], &b[..m]) + q * dot(&a[m..], &b[..m])).into_affine();
        let (mut lpt, mut rpt) = (lpt, rpt);
        let h = late(LateMsg::LR(lv.len()));
        if h.is_none() {
            t.append_message(b"L", &ser(&lpt));
            t.append_message(b"R", &ser(&rpt));
        }
        let c: C::ScalarField = challenge(&mut t, b"u");
        if let Some(h) = h {
            lpt = (shift + lpt).into_affine();
            rpt = (rpt.into_group() - shift * c.square().square()).into_affine();
            if h.after {
                t.append_message(b"L", &ser(&lpt));
                t.append_message(b"R", &ser(&rpt));
            }
        }
        lv.push(lpt);
        rv.push(rpt);
        let ci = c.inverse().unwrap();
        for i in 0..m {
            a[i] = a[i] * c + ci * a[m + i];
            b[i] = b[i] * ci + c * b[m + i];
            gg[i] = gg[i] * ci + gg[m + i] * c;
            hh[i] = hh[i] * c + hh[m + i] * ci;
        }
        a.truncate(m); b.truncate(m); gg.truncate(m); hh.truncate(m);
    }
    let mut pm = PM { p1: [ai1, ao1, s1], flag: 0, p2: a2, t: tpts, s: [tx, txb, eb], l: lv, r: rv, a: a[0], b: b[0] };
    pm.fix_flag();
    (comms, pm)
}
