//! A recording constraint system: the emitted constraints become data (`Sys`) on which witnesses
//! other than the honest one can be tried.
use crate::common::*;
use crate::engine::Src;
use ark_ff::{Field, PrimeField};
use bulletproofs::r1cs::*;
use merlin::Transcript;
use std::collections::{BTreeMap, HashMap};
use std::marker::PhantomData;

pub type Row<F> = BTreeMap<usize, F>; // wire id -> coefficient; id 0 is the constant 1

/// Constraints as data. Wire 0 is the constant one.
#[derive(Clone, Debug, PartialEq)]
pub struct Sys<F: Field> {
    pub lin: Vec<Row<F>>,
    pub gates: Vec<[usize; 3]>,
    pub nwires: usize,
    /// wires whose value the witness chooses, in order of allocation
    pub allocs: Vec<usize>,
    pub inputs: Vec<usize>,
    /// for each gate, whether its inputs were given as linear combinations
    pub defined: Vec<bool>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Key { In(usize), L(usize), R(usize), O(usize) }

pub struct Mock<F: Field> {
    pub sys: Sys<F>,
    pub vals: Vec<Option<F>>,
    ids: HashMap<Key, usize>,
    pending: Option<usize>,
    transcript: Transcript,
    /// replaces the values handed to allocate / allocate_multiplier (by position)
    pub script: Option<Vec<F>>,
}

impl<F: Field> Mock<F> {
    pub fn new() -> Self {
        Mock {
            sys: Sys { lin: vec![], gates: vec![], nwires: 1, allocs: vec![], inputs: vec![], defined: vec![] },
            vals: vec![Some(F::one())],
            ids: HashMap::new(),
            pending: None,
            transcript: Transcript::new(b"mock"),
            script: None,
        }
    }
    fn wire(&mut self, k: Key, v: Option<F>) -> usize {
        let id = self.sys.nwires;
        self.sys.nwires += 1;
        self.vals.push(v);
        self.ids.insert(k, id);
        id
    }
    /// A variable fixed from outside (a commitment).
    pub fn input(&mut self, v: Option<F>) -> Variable<F> {
        let i = self.sys.inputs.len();
        let id = self.wire(Key::In(i), v);
        self.sys.inputs.push(id);
        Variable::Committed(i)
    }
    fn gate(&mut self, l: Option<F>, r: Option<F>) -> (usize, [usize; 3]) {
        let g = self.sys.gates.len();
        let a = self.wire(Key::L(g), l);
        let b = self.wire(Key::R(g), r);
        let o = match (l, r) { (Some(x), Some(y)) => Some(x * y), _ => None };
        let c = self.wire(Key::O(g), o);
        self.sys.gates.push([a, b, c]);
        self.sys.defined.push(false);
        (g, [a, b, c])
    }
    pub fn row(&self, lc: &LinearCombination<F>) -> Row<F> {
        let mut r: Row<F> = BTreeMap::new();
        for (v, c) in lc.vh_terms() {
            let id = match v {
                Variable::One(_) => 0,
                Variable::Committed(i) => self.ids[&Key::In(*i)],
                Variable::MultiplierLeft(i) => self.ids[&Key::L(*i)],
                Variable::MultiplierRight(i) => self.ids[&Key::R(*i)],
                Variable::MultiplierOutput(i) => self.ids[&Key::O(*i)],
                Variable::VectorCommit(..) => panic!("mock has no vector commitments"),
            };
            *r.entry(id).or_insert(F::zero()) += *c;
        }
        r.retain(|_, c| !c.is_zero());
        r
    }
    pub fn id(&self, v: &Variable<F>) -> usize {
        *self.row(&LinearCombination::from(*v)).keys().next().unwrap()
    }
    pub fn value(&self, lc: &LinearCombination<F>) -> Option<F> {
        eval_row(&self.row(lc), &self.vals)
    }
    fn next(&mut self, v: Option<F>) -> Option<F> {
        let k = self.sys.allocs.len();
        match &self.script { Some(s) => s.get(k).copied().or(v), None => v }
    }
    /// All values, if the run was given a full witness.
    pub fn honest(&self) -> Option<Vec<F>> {
        self.vals.iter().copied().collect()
    }
}

pub fn eval_row<F: Field>(r: &Row<F>, vals: &[Option<F>]) -> Option<F> {
    let mut t = F::zero();
    for (i, c) in r {
        t += vals[*i]? * c;
    }
    Some(t)
}

impl<F: Field> ConstraintSystem<F> for Mock<F> {
    fn transcript(&mut self) -> &mut Transcript { &mut self.transcript }
    fn multiply(&mut self, left: LinearCombination<F>, right: LinearCombination<F>) -> (Variable<F>, Variable<F>, Variable<F>) {
        let (mut lr, mut rr) = (self.row(&left), self.row(&right));
        let (lv, rv) = (eval_row(&lr, &self.vals), eval_row(&rr, &self.vals));
        let (g, [a, b, _]) = self.gate(lv, rv);
        lr.insert(a, -F::one());
        rr.insert(b, -F::one());
        self.sys.lin.push(lr);
        self.sys.lin.push(rr);
        self.sys.defined[g] = true;
        (Variable::MultiplierLeft(g), Variable::MultiplierRight(g), Variable::MultiplierOutput(g))
    }
    fn allocate(&mut self, assignment: Option<F>) -> Result<Variable<F>, R1CSError> {
        let v = self.next(assignment);
        match self.pending.take() {
            None => {
                let (g, [a, _, _]) = self.gate(v, Some(F::zero()));
                self.sys.allocs.push(a);
                self.pending = Some(g);
                Ok(Variable::MultiplierLeft(g))
            }
            Some(g) => {
                let [a, b, c] = self.sys.gates[g];
                self.sys.allocs.push(b);
                self.vals[b] = v;
                self.vals[c] = match (self.vals[a], v) { (Some(x), Some(y)) => Some(x * y), _ => None };
                Ok(Variable::MultiplierRight(g))
            }
        }
    }
    fn allocate_multiplier(&mut self, v: Option<(F, F)>) -> Result<(Variable<F>, Variable<F>, Variable<F>), R1CSError> {
        let g = self.sys.gates.len();
        let l = self.next(v.map(|x| x.0));
        let (_, [a, b, c]) = self.gate(l, None);
        self.sys.allocs.push(a);
        let r = self.next(v.map(|x| x.1));
        self.sys.allocs.push(b);
        self.vals[b] = r;
        self.vals[c] = match (l, r) { (Some(x), Some(y)) => Some(x * y), _ => None };
        Ok((Variable::MultiplierLeft(g), Variable::MultiplierRight(g), Variable::MultiplierOutput(g)))
    }
    fn metrics(&self) -> Metrics {
        Metrics { multipliers: self.sys.gates.len(), constraints: self.sys.lin.len(), phase_one_constraints: self.sys.lin.len(), phase_two_constraints: 0 }
    }
    fn constrain(&mut self, lc: LinearCombination<F>) {
        let r = self.row(&lc);
        self.sys.lin.push(r);
    }
}

impl<F: Field> Sys<F> {
    pub fn violated(&self, vals: &[F]) -> Option<String> {
        for (i, r) in self.lin.iter().enumerate() {
            let mut t = F::zero();
            for (k, c) in r { t += vals[*k] * c; }
            if !t.is_zero() { return Some(format!("linear constraint {} of {}", i, self.lin.len())); }
        }
        for (i, [a, b, c]) in self.gates.iter().enumerate() {
            if vals[*a] * vals[*b] != vals[*c] { return Some(format!("gate {} of {}", i, self.gates.len())); }
        }
        None
    }

    /// Which of `targets` are not locally determined by `fixed` at the satisfying assignment
    /// `vals`: the rank of the linearised constraints on the free wires. Returns the number of
    /// undetermined degrees of freedom among the targets.
    pub fn undetermined(&self, vals: &[F], fixed: &[usize], targets: &[usize]) -> usize {
        let mut fx = vec![false; self.nwires];
        fx[0] = true;
        for i in fixed { fx[*i] = true; }
        // order: targets lowest
        let mut order: Vec<usize> = (0..self.nwires).map(|i| i + targets.len() + 1).collect();
        for (k, t) in targets.iter().enumerate() { order[*t] = k; }
        let mut pivots: HashMap<usize, Row<F>> = HashMap::new();
        let mut add = |mut r: Row<F>| {
            loop {
                let Some((&top, &c)) = r.iter().next_back() else { return };
                match pivots.get(&top) {
                    None => {
                        let inv = c.inverse().unwrap();
                        for v in r.values_mut() { *v *= inv; }
                        pivots.insert(top, r);
                        return;
                    }
                    Some(p) => {
                        for (k, v) in p {
                            let e = r.entry(*k).or_insert(F::zero());
                            *e -= c * v;
                            if e.is_zero() { r.remove(k); }
                        }
                    }
                }
            }
        };
        // interleave by the largest wire involved, so that elimination stays local
        let mut rows: Vec<(usize, Row<F>)> = vec![];
        for r in &self.lin {
            let q: Row<F> = r.iter().filter(|(k, _)| !fx[**k]).map(|(k, v)| (order[*k], *v)).collect();
            rows.push((r.keys().next_back().copied().unwrap_or(0), q));
        }
        for [a, b, c] in &self.gates {
            let mut q: Row<F> = BTreeMap::new();
            for (w, co) in [(*c, F::one()), (*a, -vals[*b]), (*b, -vals[*a])] {
                if !fx[w] { *q.entry(order[w]).or_insert(F::zero()) += co; }
            }
            q.retain(|_, v| !v.is_zero());
            rows.push((*c, q));
        }
        rows.sort_by_key(|r| r.0);
        for (_, r) in rows { add(r); }
        let free_targets = targets.iter().filter(|t| !fx[**t]).count();
        let determined = pivots.keys().filter(|k| **k < targets.len()).count();
        free_targets - determined
    }

    /// Completes a partial assignment: propagates every linear constraint with one unknown and
    /// every gate with one unknown; when stuck asks `choose` for the value of some unknown
    /// allocated wire. Returns all values (which need not satisfy everything).
    pub fn complete(&self, start: Vec<Option<F>>, mut choose: impl FnMut(&[usize]) -> (usize, F)) -> Vec<F> {
        let mut v = start;
        v[0] = Some(F::one());
        let n = self.nwires;
        // constraint index by wire
        let nl = self.lin.len();
        let mut uses: Vec<Vec<usize>> = vec![vec![]; n];
        for (i, r) in self.lin.iter().enumerate() {
            for k in r.keys() { if *k != 0 { uses[*k].push(i); } }
        }
        for (i, g) in self.gates.iter().enumerate() {
            for k in g { uses[*k].push(nl + i); }
        }
        let mut queue: Vec<usize> = (0..nl + self.gates.len()).rev().collect();
        let mut inq = vec![true; nl + self.gates.len()];
        loop {
            while let Some(ci) = queue.pop() {
                inq[ci] = false;
                let mut set: Option<(usize, F)> = None;
                if ci < nl {
                    let r = &self.lin[ci];
                    let mut unk = None;
                    let mut cnt = 0;
                    let mut t = F::zero();
                    for (k, c) in r {
                        match v[*k] {
                            Some(x) => t += x * c,
                            None => { cnt += 1; unk = Some((*k, *c)); if cnt > 1 { break; } }
                        }
                    }
                    if cnt == 1 {
                        let (k, c) = unk.unwrap();
                        let x = if c.is_one() { -t } else if (-c).is_one() { t } else { -t * c.inverse().unwrap() };
                        set = Some((k, x));
                    }
                } else {
                    let [a, b, c] = self.gates[ci - nl];
                    match (v[a], v[b], v[c]) {
                        (Some(x), Some(y), None) => set = Some((c, x * y)),
                        (Some(x), None, Some(z)) if !x.is_zero() => set = Some((b, z * x.inverse().unwrap())),
                        (None, Some(y), Some(z)) if !y.is_zero() => set = Some((a, z * y.inverse().unwrap())),
                        (Some(x), None, None) if x.is_zero() => set = Some((c, F::zero())),
                        (None, Some(y), None) if y.is_zero() => set = Some((c, F::zero())),
                        _ => {}
                    }
                }
                if let Some((k, x)) = set {
                    v[k] = Some(x);
                    for u in &uses[k] {
                        if !inq[*u] { inq[*u] = true; queue.push(*u); }
                    }
                }
            }
            let unknown: Vec<usize> = self.allocs.iter().copied().filter(|k| v[*k].is_none()).collect();
            let (k, x) = if unknown.is_empty() {
                match v.iter().position(|x| x.is_none()) {
                    None => break,
                    Some(k) => (k, F::zero()),
                }
            } else {
                choose(&unknown)
            };
            v[k] = Some(x);
            for u in &uses[k] {
                if !inq[*u] { inq[*u] = true; queue.push(*u); }
            }
        }
        v.into_iter().map(|x| x.unwrap()).collect()
    }

    /// An adversary: some allocated wires are forced to candidate values, the rest is either kept
    /// from the honest witness or re-derived from the constraints.
    pub fn attack(&self, s: &mut Src, honest: Option<&[F]>, fixed: &[usize], cand: &[F], keep_free: &[usize]) -> Vec<F>
    where F: PrimeField {
        let mut st: Vec<Option<F>> = vec![None; self.nwires];
        for k in fixed { st[*k] = honest.map(|h| h[*k]); }
        let forced = if self.allocs.is_empty() { 0 } else { s.range(0, 3.min(self.allocs.len())) };
        for _ in 0..forced {
            let k = *s.pick(&self.allocs);
            if fixed.contains(&k) || keep_free.contains(&k) { continue; }
            st[k] = Some(candidate(s, cand, honest.map(|h| h[k])));
        }
        self.complete(st, |unk| {
            // earliest unknown first mostly, so that later ones are derived from it
            let k = if s.chance(1, 6) { *s.pick(unk) } else { unk[0] };
            let x = match honest {
                Some(h) if !s.chance(1, 8) => h[k],
                _ => candidate(s, cand, honest.map(|h| h[k])),
            };
            (k, x)
        })
    }
    /// Values of the allocated wires in order, to be replayed through `Over` on a real prover.
    pub fn script(&self, vals: &[F]) -> Vec<F> {
        self.allocs.iter().map(|k| vals[*k]).collect()
    }
}

fn candidate<F: PrimeField>(s: &mut Src, cand: &[F], h: Option<F>) -> F {
    match s.below(6) {
        0 => F::from(s.below(4)),
        1 => -F::from(s.below(3)),
        2 if h.is_some() => h.unwrap() + F::one(),
        3 if !cand.is_empty() => *s.pick(cand),
        4 if h.is_some() => F::one() - h.unwrap(),
        _ => rand_field(s),
    }
}

/// Wraps a real constraint system and replaces the values handed to allocations by a script.
pub struct Over<'a, F: Field, Cs: ConstraintSystem<F>> {
    pub inner: &'a mut Cs,
    pub script: Vec<F>,
    pub pos: usize,
    ph: PhantomData<F>,
}
impl<'a, F: Field, Cs: ConstraintSystem<F>> Over<'a, F, Cs> {
    pub fn new(inner: &'a mut Cs, script: Vec<F>) -> Self {
        Over { inner, script, pos: 0, ph: PhantomData }
    }
    fn next(&mut self, d: Option<F>) -> Option<F> {
        let r = self.script.get(self.pos).copied().or(d);
        self.pos += 1;
        r
    }
}
impl<'a, F: Field, Cs: ConstraintSystem<F>> ConstraintSystem<F> for Over<'a, F, Cs> {
    fn transcript(&mut self) -> &mut Transcript { self.inner.transcript() }
    fn multiply(&mut self, l: LinearCombination<F>, r: LinearCombination<F>) -> (Variable<F>, Variable<F>, Variable<F>) {
        self.inner.multiply(l, r)
    }
    fn allocate(&mut self, a: Option<F>) -> Result<Variable<F>, R1CSError> {
        let v = self.next(a);
        self.inner.allocate(v)
    }
    fn allocate_multiplier(&mut self, a: Option<(F, F)>) -> Result<(Variable<F>, Variable<F>, Variable<F>), R1CSError> {
        let l = self.next(a.map(|x| x.0));
        let r = self.next(a.map(|x| x.1));
        self.inner.allocate_multiplier(match (l, r) { (Some(x), Some(y)) => Some((x, y)), _ => None })
    }
    fn metrics(&self) -> Metrics { self.inner.metrics() }
    fn constrain(&mut self, lc: LinearCombination<F>) { self.inner.constrain(lc) }
}
