//! Checks of curve trees: C06 C07 C09 C10 C11 C12 C13 C14.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, PrimeField, Zero};
use bulletproofs::r1cs::*;
use relations::batched_curve_tree_prover::CurveTreeWitnessMultiPath;
use relations::curve_tree::*;
use relations::curve_tree_prover::CurveTreeWitnessPath;
use relations::single_level_select_and_rerandomize::*;
use vh::common::*;
use vh::engine::*;
use vh::ensure;
use vh::gadget::*;
use vh::gfn;
use vh::tree::*;

type Pc = ark_pallas::PallasConfig;
type Vc = ark_vesta::VestaConfig;
type S0 = ark_secp256k1::Config;
type S1 = ark_secq256k1::Config;

/// generators for checks that need no proofs
const SMALL: usize = 64;
/// generators for checks with proofs
const LARGE: usize = 4096;

macro_rules! single_cfg {
    ($s:expr, $f:ident) => {
        match $s.below(10) {
            0 => $f::<2, 1, _, _, Pc, Vc>($s),
            1 => $f::<2, 1, _, _, Vc, Pc>($s),
            2 => $f::<3, 1, _, _, Pc, Vc>($s),
            3 => $f::<4, 1, _, _, Pc, Vc>($s),
            4 => $f::<8, 1, _, _, Vc, Pc>($s),
            5 => $f::<2, 2, _, _, Pc, Vc>($s),
            6 => $f::<3, 3, _, _, Pc, Vc>($s),
            7 => $f::<2, 1, _, _, S0, S1>($s),
            8 => $f::<3, 1, _, _, S1, S0>($s),
            _ => $f::<5, 1, _, _, Pc, Vc>($s),
        }
    };
}
macro_rules! multi_cfg {
    ($s:expr, $f:ident) => {
        match $s.below(8) {
            0 => $f::<2, 2, _, _, Pc, Vc>($s),
            1 => $f::<2, 1, _, _, Pc, Vc>($s),
            2 => $f::<3, 2, _, _, Vc, Pc>($s),
            3 => $f::<3, 3, _, _, Pc, Vc>($s),
            4 => $f::<4, 2, _, _, Pc, Vc>($s),
            5 => $f::<2, 4, _, _, Pc, Vc>($s),
            6 => $f::<2, 2, _, _, S0, S1>($s),
            _ => $f::<2, 3, _, _, S1, S0>($s),
        }
    };
}

/// A number of leaves around powers of L, bounded.
fn gen_count(s: &mut Src, l: usize, max: usize) -> usize {
    let n = match s.below(6) {
        0 => s.range(1, 2),
        1 | 2 => {
            let mut c = vec![1usize];
            while c[c.len() - 1] * l <= max { let k = c[c.len() - 1] * l; c.push(k); }
            let k = *s.pick(&c);
            (k + s.usize(3)).saturating_sub(1)
        }
        3 => l * s.range(1, max / l) + s.usize(2),
        _ => s.range(1, max),
    };
    n.clamp(1, max)
}
fn gen_height(s: &mut Src, least: usize) -> Option<usize> {
    match s.below(4) {
        0 => Some(least + s.range(0, 2)),
        1 => Some(s.usize(least + 1)),
        _ => None,
    }
}

// ---------------------------------------------------------------- C10
fn check_node<const L: usize, const M: usize, PA: SWCurveConfig + Copy, PB: SWCurveConfig<BaseField = PA::ScalarField, ScalarField = PA::BaseField> + Copy>(
    node: &CurveTreeNode<L, M, PA, PB>, level: usize, idx: usize, mine: &dyn Fn(usize, usize) -> Vec<(Vec<u64>, Vec<u64>)>, n: usize,
) -> Result<usize, String> {
    // the commitments, per generator set
    let want = mine(level, idx);
    for i in 0..M {
        if xy(&node.commitment(i)) != want[i] {
            return Err(format!("node {} of level {}: commitment for generator set {} is not the commitment to its children", idx, level, i));
        }
    }
    let cap = L.pow(level as u32);
    let held = n.saturating_sub(idx * cap).min(cap);
    if node.elements() != held { return Err(format!("node {} of level {} reports {} elements, holds {}", idx, level, node.elements(), held)); }
    if node.height() != level { return Err(format!("node of level {} reports height {}", level, node.height())); }
    match node {
        CurveTreeNode::Leaf(_) => {
            if level != 0 { return Err(format!("leaf at level {}", level)); }
            Ok(1)
        }
        CurveTreeNode::Branch { children, .. } => {
            if level == 0 { return Err("branch at leaf level".into()); }
            let sub = L.pow(level as u32 - 1);
            let mut sum = 0;
            for (j, c) in children.iter().enumerate() {
                let k = idx * L + j;
                match c {
                    Some(c) => {
                        if k * sub >= n { return Err(format!("slot {} of node {} of level {} should be empty", j, idx, level)); }
                        sum += check_node(c, level - 1, k, mine, n)?;
                    }
                    None => if k * sub < n { return Err(format!("slot {} of node {} of level {} is empty", j, idx, level)); }
                }
            }
            Ok(sum)
        }
    }
}
fn xy<P: SWCurveConfig>(p: &Affine<P>) -> (Vec<u64>, Vec<u64>) {
    if p.is_zero() { return (vec![], vec![]); }
    let f = |x: &P::BaseField| x.to_base_prime_field_elements().flat_map(|e| e.into_bigint().as_ref().to_vec()).collect();
    (f(&p.x), f(&p.y))
}
fn c10_model(s: &mut Src) -> Res { single_cfg!(s, c10_model_) }
gfn! { fn c10_model_[L M](s: &mut Src) -> Res {
    let p = params::<F0, F1, P0, P1>(SMALL);
    let n = gen_count(s, L, 40);
    let least = least_height(L, n);
    let height = gen_height(s, least);
    let set = gen_set(s, n, &p.even_parameters.delta);
    let idx: Vec<usize> = (0..4).map(|_| if s.bool() { s.usize(n) } else { *s.pick(&[0, n - 1]) }).collect();
    s.nontrivial_by_choices();
    c10_compare::<L, M, F0, F1, P0, P1>(s, &set, height, &idx, p)
} }
/// Big trees: more leaves than fit in 8 or 16 bits, wide nodes, many levels.
fn c10_big(s: &mut Src) -> Res {
    match s.below(14) {
        0 | 1 | 13 => c10_big_::<256, 1, _, _, Pc, Vc>(s, 65_530, 65_600, 0),
        12 => c10_big_::<300, 1, _, _, Vc, Pc>(s, 250, 700, 1),
        2 => c10_big_::<16, 2, _, _, Pc, Vc>(s, 200, 4200, 1),
        3 | 4 => c10_big_::<2, 1, _, _, Pc, Vc>(s, 250, 1100, 1),
        5 => c10_big_::<32, 1, _, _, Vc, Pc>(s, 1000, 1100, 2),
        6 => c10_big_::<40, 8, _, _, Pc, Vc>(s, 30, 100, 1),
        7 => c10_big_::<3, 2, _, _, S0, S1>(s, 100, 300, 1),
        8 => c10_big_::<2, 1, _, _, Vc, Pc>(s, 1, 9, 40),
        9 => c10_big_::<32, 1, _, _, Pc, Vc>(s, 1, 40, 10),
        10 => c10_big_::<3, 3, _, _, S1, S0>(s, 1, 9, 20),
        _ => c10_big_::<2, 2, _, _, Pc, Vc>(s, 1, 40, 30),
    }
}
/// Pairwise distinct leaves, cheaply.
fn many_leaves<P: SWCurveConfig>(s: &mut Src, n: usize) -> Vec<Affine<P>> {
    let mut at = rand_point::<Affine<P>>(s).into_group();
    let step = rand_point::<Affine<P>>(s);
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(at); at += step; }
    <Affine<P> as AffineRepr>::Group::normalize_batch(&v)
}
/// Indices at which a truncated or miscounted index would show.
fn telling(s: &mut Src, l: usize, n: usize) -> Vec<usize> {
    let mut v = vec![0, n - 1, s.usize(n), s.usize(n)];
    for c in [l, l * l, 128, 256, 512, 32768, 65536] { for d in [c.wrapping_sub(1), c, c + 1] { if d < n { v.push(d); } } }
    // the largest first: those are the ones a small tree does not have
    v.sort_unstable_by(|a, b| b.cmp(a));
    v.dedup();
    v
}
gfn! { fn c10_big_[L M](s: &mut Src, lo: usize, hi: usize, up: usize) -> Res {
    let p = params::<F0, F1, P0, P1>((L * M).max(SMALL).next_power_of_two());
    let n = s.range(lo, hi);
    let least = least_height(L, n);
    let height = if up > 0 && s.bool() { Some(least + s.range(0, up)) } else { None };
    let set = many_leaves::<P0>(s, n);
    let idx = telling(s, L, n);
    s.nontrivial_by_choices();
    s.label(if n > 65536 { "over 65536 leaves" } else if n > 256 { "over 256 leaves" } else { "fewer leaves" });
    c10_compare::<L, M, F0, F1, P0, P1>(s, &set, height, &idx, p)?;
    // exchanging leaves at a telling distance shows in every root
    if n > 1 {
        let t1 = CurveTree::<L, M, P0, P1>::from_set(&set, p, height);
        let ds: Vec<usize> = [1, L, L * L, 128, 256, 65536].into_iter().filter(|d| *d < n).collect();
        let d = *s.pick(&ds);
        let i = s.usize(n - d);
        let mut other = set.clone();
        other.swap(i, i + d);
        let t2 = CurveTree::<L, M, P0, P1>::from_set(&other, p, height);
        s.note(format!("leaves {} and {} exchanged", i, i + d));
        let (r1, r2) = (roots(&t1), roots(&t2));
        for k in 0..M { ensure!(r1[k] != r2[k], "exchanging leaves {} and {} leaves root {} the same", i, i + d, k); }
    }
    Ok(())
} }
gfn! { fn c10_compare[L M](s: &mut Src, set: &[Affine<P0>], height: Option<usize>, idx: &[usize], p: &SelRerandParameters<P0, P1>) -> Res {
    let n = set.len();
    let least = least_height(L, n);
    s.label(format!("L={} M={}", L, M));
    s.label(format!("height {}", least.max(height.unwrap_or(0))));
    s.label(if n == L.pow(least as u32) { "full" } else { "partly filled" });
    s.note(format!("L={} M={} n={} requested height {:?}", L, M, n, height));
    let m = model::<F0, F1, P0, P1>(L, M, set, height, p);
    let t = CurveTree::<L, M, P0, P1>::from_set(set, p, height);
    ensure!(t.height() == m.height, "height {} instead of {}", t.height(), m.height);
    let want = |level: usize, i: usize| -> Vec<(Vec<u64>, Vec<u64>)> {
        if level % 2 == 0 { m.even[level / 2][i].iter().map(xy).collect() } else { m.odd[level / 2][i].iter().map(xy).collect() }
    };
    let r = match &t {
        CurveTree::Even(r) => { ensure!(m.height % 2 == 0, "even root at height {}", m.height); check_node(r, m.height, 0, &want, n) }
        CurveTree::Odd(r) => { ensure!(m.height % 2 == 1, "odd root at height {}", m.height); check_node(r, m.height, 0, &want, n) }
    };
    match r { Err(e) => return fail(e), Ok(k) => ensure!(k == n, "{} leaves found instead of {}", k, n) }
    // witness paths, for some indices and every generator set
    let (de, dd) = (p.even_parameters.delta, p.odd_parameters.delta);
    for &index in idx {
        let mi = s.usize(M);
        let w = t.select_and_rerandomize_prover_witness(index, mi, p);
        ensure!(w.even_internal_nodes.len() == m.height / 2 && w.odd_internal_nodes.len() == (m.height + 1) / 2, "witness path has the wrong shape");
        for lev in 1..=m.height {
            // the node at this level on the path, its child and its siblings
            let ni = index / L.pow(lev as u32);
            let ci = index / L.pow(lev as u32 - 1);
            if lev % 2 == 1 {
                let k = (m.height + 1) / 2 - 1 - lev / 2;
                let node = &w.odd_internal_nodes[k];
                let kids = &m.even[lev / 2];
                ensure!(node.child_witness == kids[ci][mi], "witness child at level {} is another node", lev);
                for j in 0..L {
                    let x = kids.get(ni * L + j).map(|c| off_x(&c[mi], &de)).unwrap_or(F1::zero());
                    ensure!(node.siblings[j] == x, "witness sibling {} at level {} differs", j, lev);
                }
            } else {
                let k = m.height / 2 - lev / 2;
                let node = &w.even_internal_nodes[k];
                let kids = &m.odd[lev / 2 - 1];
                ensure!(node.child_witness == kids[ci][mi], "witness child at level {} is another node", lev);
                for j in 0..L {
                    let x = kids.get(ni * L + j).map(|c| off_x(&c[mi], &dd)).unwrap_or(F0::zero());
                    ensure!(node.siblings[j] == x, "witness sibling {} at level {} differs", j, lev);
                }
            }
        }
    }
    Ok(())
} }
gfn! { fn roots[L M](t: &CurveTree<L, M, P0, P1>) -> Vec<(Vec<u64>, Vec<u64>)> {
    match t {
        CurveTree::Even(r) => (0..M).map(|i| xy(&r.commitment(i))).collect(),
        CurveTree::Odd(r) => (0..M).map(|i| xy(&r.commitment(i))).collect(),
    }
} }
fn c10_binding(s: &mut Src) -> Res { single_cfg!(s, c10_binding_) }
gfn! { fn c10_binding_[L M](s: &mut Src) -> Res {
    let p = params::<F0, F1, P0, P1>(SMALL);
    let delta = p.even_parameters.delta;
    let n = gen_count(s, L, 30);
    let set = gen_set(s, n, &delta);
    let h = least_height(L, n) + if s.chance(1, 3) { 1 } else { 0 };
    let mut other = set.clone();
    let kind = s.below(6);
    let name = match kind {
        0 => { let i = s.usize(n); other[i] = gen_leaf(s, &set, &delta); "one leaf replaced" }
        1 => { let (i, j) = (s.usize(n), s.usize(n)); other.swap(i, j); "two leaves exchanged" }
        2 => { other.push(gen_leaf(s, &set, &delta)); "one leaf more" }
        3 => { if n > 1 { other.pop(); } "one leaf less" }
        4 => { let i = s.usize(n); let l = gen_leaf(s, &set, &delta); other.insert(i, l); "one leaf inserted" }
        _ => { let k = s.usize(n); other.rotate_left(k); "rotated" }
    };
    if least_height(L, other.len()) > h { return Ok(()); }
    s.label(name);
    s.note(format!("L={} M={} n={} height {}: {}", L, M, n, h, name));
    let t1 = CurveTree::<L, M, P0, P1>::from_set(&set, p, Some(h));
    let again = CurveTree::<L, M, P0, P1>::from_set(&set, p, Some(h));
    ensure!(roots(&t1) == roots(&again), "the same list gives different roots");
    let raised = CurveTree::<L, M, P0, P1>::from_set(&set, p, None).increase_height(Some(h), p);
    ensure!(raised.height() == h && roots(&raised) == roots(&t1), "increasing the height afterwards gives another tree");
    let same = set.len() == other.len() && set.iter().zip(&other).all(|(a, b)| off_x(a, &delta) == off_x(b, &delta));
    if !same && h > 0 { s.nontrivial_by_choices(); }
    let t2 = CurveTree::<L, M, P0, P1>::from_set(&other, p, Some(h));
    let (r1, r2) = (roots(&t1), roots(&t2));
    for i in 0..M {
        ensure!(same || h == 0 || r1[i] != r2[i], "different lists have the same root for generator set {}", i);
        for j in 0..i { ensure!(h == 0 || r1[i] != r1[j], "generator sets {} and {} give the same root", j, i); }
    }
    Ok(())
} }

// ---------------------------------------------------------------- C11
struct Case<const L: usize, const M: usize, P0: SWCurveConfig, P1: SWCurveConfig> { set: Vec<Affine<P0>>, tree: CurveTree<L, M, P0, P1> }
gfn! { fn gen_tree[L M](s: &mut Src, max: usize, maxh: usize, p: &SelRerandParameters<P0, P1>) -> Case<L, M, P0, P1> {
    let n = gen_count(s, L, max);
    let least = least_height(L, n);
    let h = gen_height(s, least).unwrap_or(0).max(least).clamp(1, maxh.max(least));
    let mut set = gen_set(s, n, &p.even_parameters.delta);
    if s.chance(1, 4) { for l in set.iter_mut() { if l.is_zero() { *l = rand_point(s); } } }
    s.label(format!("L={} M={} height {}", L, M, h));
    s.note(format!("L={} M={} n={} height {}", L, M, n, h));
    let tree = CurveTree::<L, M, P0, P1>::from_set(&set, p, Some(h));
    Case { set, tree }
} }
fn seed(s: &mut Src) -> u64 { s.u64() }
fn c11_fast(s: &mut Src) -> Res { single_cfg!(s, c11_fast_) }
gfn! { fn c11_fast_[L M](s: &mut Src) -> Res { c11_run::<L, M, F0, F1, P0, P1>(s, 40, 6, false, SMALL) } }
fn c11_real(s: &mut Src) -> Res {
    match s.below(6) {
        0 => c11_run::<2, 1, _, _, Pc, Vc>(s, 12, 4, true, LARGE),
        1 => c11_run::<3, 1, _, _, Vc, Pc>(s, 12, 3, true, LARGE),
        2 => c11_run::<4, 2, _, _, Pc, Vc>(s, 17, 3, true, LARGE),
        3 => c11_run::<32, 1, _, _, Pc, Vc>(s, 40, 2, true, LARGE),
        4 => c11_run::<2, 1, _, _, S0, S1>(s, 5, 3, true, LARGE),
        _ => c11_run::<8, 1, _, _, Pc, Vc>(s, 20, 2, true, LARGE),
    }
}
fn c11_big(s: &mut Src) -> Res {
    match s.below(10) {
        0 | 1 | 9 => c11_big_::<256, 1, _, _, Pc, Vc>(s, 65_530, 65_600, 0, true),
        8 => c11_big_::<300, 1, _, _, Vc, Pc>(s, 250, 700, 0, true),
        2 => c11_big_::<16, 2, _, _, Pc, Vc>(s, 200, 4200, 0, false),
        3 => c11_big_::<2, 1, _, _, Pc, Vc>(s, 250, 1100, 0, false),
        4 => c11_big_::<32, 1, _, _, Pc, Vc>(s, 1000, 1100, 0, true),
        5 => c11_big_::<2, 1, _, _, Vc, Pc>(s, 1, 9, 30, false),
        6 => c11_big_::<3, 1, _, _, S0, S1>(s, 1, 9, 20, false),
        _ => c11_big_::<64, 1, _, _, Pc, Vc>(s, 1, 40, 6, false),
    }
}
gfn! { fn c11_big_[L M](s: &mut Src, lo: usize, hi: usize, up: usize, real: bool) -> Res {
    let p = params::<F0, F1, P0, P1>(if real { LARGE } else { (L * M).max(SMALL).next_power_of_two() });
    let n = s.range(lo, hi);
    let least = least_height(L, n);
    let height = if up > 0 { Some(least + s.range(0, up)) } else { Some(1) };
    let set = many_leaves::<P0>(s, n);
    let tree = CurveTree::<L, M, P0, P1>::from_set(&set, p, height);
    s.label(format!("L={} M={} height {}", L, M, tree.height()));
    s.note(format!("L={} M={} n={} height {}", L, M, n, tree.height()));
    s.nontrivial_by_choices();
    let idx = telling(s, L, n);
    let (h, sd) = (p.even_parameters.pc_gens.B_blinding, seed(s));
    for (k, &index) in idx.iter().enumerate().take(if real { 9 } else { 12 }) {
        let w = tree.select_and_rerandomize_prover_witness(index, 0, p);
        match attempt(&w, &tree, p, &mut |_| {}, real && k < 1, sd)? {
            Out::Rejected(e) => return fail(format!("membership proof of leaf {} of {} rejected: {}", index, n, e)),
            Out::Accepted((leaf, sc)) => ensure!(leaf == (set[index].into_group() + h * sc).into_affine(), "index {} of {}: the verified leaf is not the original leaf plus the returned scalar times the blinding base", index, n),
        }
    }
    Ok(())
} }
gfn! { fn c11_run[L M](s: &mut Src, max: usize, maxh: usize, real: bool, gens: usize) -> Res {
    let p = params::<F0, F1, P0, P1>(gens);
    let c = gen_tree::<L, M, F0, F1, P0, P1>(s, max, maxh, p);
    let n = c.set.len();
    let index = match s.below(3) { 0 => n - 1, 1 => 0, _ => s.usize(n) };
    s.note(format!("index {}", index));
    s.label(if index == 0 { "index 0" } else if index == n - 1 { "last index" } else { "inner index" });
    s.nontrivial_by_choices();
    let w = c.tree.select_and_rerandomize_prover_witness(index, 0, p);
    let sd = seed(s);
    match attempt(&w, &c.tree, p, &mut |_| {}, real, sd)? {
        Out::Rejected(e) => return fail(format!("membership proof of leaf {} of {} rejected: {}", index, n, e)),
        Out::Accepted((leaf, sc)) => {
            let want = (c.set[index].into_group() + p.even_parameters.pc_gens.B_blinding * sc).into_affine();
            ensure!(leaf == want, "the verified leaf is not the original leaf plus the returned scalar times the blinding base");
        }
    }
    // the same through the one-step interface of the tree
    let mut pe = Prover::<merlin::Transcript, Affine<P0>>::new(&p.even_parameters.pc_gens, merlin::Transcript::new(b"x"));
    let mut po = Prover::<merlin::Transcript, Affine<P1>>::new(&p.odd_parameters.pc_gens, merlin::Transcript::new(b"x"));
    let mut rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(sd);
    let (path, sc) = c.tree.select_and_rerandomize_prover_gadget(index, 0, &mut pe, &mut po, p, &mut rng);
    let mut ve = Verifier::<merlin::Transcript, Affine<P0>>::new(merlin::Transcript::new(b"x"));
    let mut vo = Verifier::<merlin::Transcript, Affine<P1>>::new(merlin::Transcript::new(b"x"));
    ensure!(path.get_rerandomized_leaf() == path.selected_commitment, "get_rerandomized_leaf differs from the selected commitment");
    let leaf = c.tree.select_and_rerandomize_verifier_gadget(&mut ve, &mut vo, path, p);
    ensure!(leaf == (c.set[index].into_group() + p.even_parameters.pc_gens.B_blinding * sc).into_affine(), "leaf differs from the original plus blinding");
    if let Err(e) = fast(&mut pe, &mut ve).and_then(|_| fast(&mut po, &mut vo)) { return fail(format!("tree prover gadget: {}", e)); }
    Ok(())
} }

// ---------------------------------------------------------------- C12
/// What the dishonest prover does.
fn c12_fast(s: &mut Src) -> Res { single_cfg!(s, c12_fast_) }
gfn! { fn c12_fast_[L M](s: &mut Src) -> Res { c12_run::<L, M, F0, F1, P0, P1>(s, 30, 5, false, SMALL) } }
fn c12_real(s: &mut Src) -> Res {
    match s.below(4) {
        0 => c12_run::<2, 1, _, _, Pc, Vc>(s, 8, 4, true, LARGE),
        1 => c12_run::<3, 1, _, _, Vc, Pc>(s, 9, 3, true, LARGE),
        2 => c12_run::<4, 2, _, _, Pc, Vc>(s, 9, 3, true, LARGE),
        _ => c12_run::<2, 1, _, _, S0, S1>(s, 4, 2, true, LARGE),
    }
}
gfn! { fn foreign[](s: &mut Src, set: &[Affine<P0>], p: &SelRerandParameters<P0, P1>) -> Affine<P0> {
    let d = p.even_parameters.delta;
    let f = match s.below(6) {
        0 => (set[s.usize(set.len())] + p.even_parameters.bp_gens.share(0).G(1).next().unwrap()).into_affine(),
        1 => (set[s.usize(set.len())].into_group() + set[s.usize(set.len())]).into_affine(),
        2 => -set[s.usize(set.len())],
        3 => Affine::<P0>::zero(),
        _ => rand_point(s),
    };
    // not a leaf, also not up to sign of the offset point
    let hit = set.iter().any(|l| off_x(l, &d) == off_x(&f, &d));
    if hit || f == -d { rand_point(s) } else { f }
} }
gfn! { fn c12_run[L M](s: &mut Src, max: usize, maxh: usize, real: bool, gens: usize) -> Res {
    let p = params::<F0, F1, P0, P1>(gens);
    let c = gen_tree::<L, M, F0, F1, P0, P1>(s, max, maxh, p);
    let n = c.set.len();
    let h = c.tree.height();
    let index = s.usize(n);
    let mut w = c.tree.select_and_rerandomize_prover_witness(index, 0, p);
    let (de, hb) = (p.even_parameters.delta, p.even_parameters.pc_gens.B_blinding);
    let sd = seed(s);
    s.nontrivial_by_choices();
    let mut target: Option<CurveTree<L, M, P0, P1>> = None;
    let mut nothing = |_: &mut SelectAndRerandomizePath<L, P0, P1>| {};
    let what;
    let res = match s.below(8) {
        0 | 1 => {
            let f = foreign(s, &c.set, p);
            let up = s.usize(h + 1);
            let slot = if s.bool() { Some(s.usize(L)) } else { None };
            what = format!("foreign leaf, consistent up to level {} of {}", up, h);
            s.label("foreign leaf");
            tamper(&mut w, 0, up, slot, f, p);
            attempt(&w, &c.tree, p, &mut nothing, real, sd)?
        }
        2 => {
            // a node that exists elsewhere: the path of one leaf with the child of another spliced in
            let j = s.usize(n);
            let w2 = c.tree.select_and_rerandomize_prover_witness(j, 0, p);
            let lev = s.usize(h);
            what = format!("paths of leaves {} and {} mixed at level {}", index, j, lev);
            s.label("mixed paths");
            if lev % 2 == 0 {
                let k = w.odd_internal_nodes.len() - 1 - lev / 2;
                if s.bool() { w.odd_internal_nodes[k].child_witness = w2.odd_internal_nodes[k].child_witness; } else { w.odd_internal_nodes[k].siblings = w2.odd_internal_nodes[k].siblings; }
            } else {
                let k = w.even_internal_nodes.len() - 1 - lev / 2;
                if s.bool() { w.even_internal_nodes[k].child_witness = w2.even_internal_nodes[k].child_witness; } else { w.even_internal_nodes[k].siblings = w2.even_internal_nodes[k].siblings; }
            }
            attempt(&w, &c.tree, p, &mut nothing, real, sd)?
        }
        3 => {
            // an internal node offered as a leaf
            if h < 3 { return Ok(()); }
            what = "internal node as leaf, path two levels short".to_string();
            s.label("internal node as leaf");
            w.odd_internal_nodes.pop();
            w.even_internal_nodes.pop();
            attempt(&w, &c.tree, p, &mut nothing, real, sd)?
        }
        4 => {
            // a leaf that is itself the commitment of a node: the path goes on below it
            let secret = rand_point::<Affine<P0>>(s);
            let mut sib_o = [F1::zero(); L];
            sib_o[s.usize(L)] = off_x(&secret, &de);
            let odd = layer_commit(&p.odd_parameters, &sib_o, F1::zero(), 0);
            let mut sib_e = [F0::zero(); L];
            sib_e[s.usize(L)] = off_x(&odd, &p.odd_parameters.delta);
            let leaf = layer_commit(&p.even_parameters, &sib_e, F0::zero(), 0);
            let mut set = c.set.clone();
            set[index] = leaf;
            let t = CurveTree::<L, M, P0, P1>::from_set(&set, p, Some(h));
            w = t.select_and_rerandomize_prover_witness(index, 0, p);
            w.even_internal_nodes.push(relations::curve_tree_prover::CurveTreeWitness { siblings: sib_e, child_witness: odd });
            w.odd_internal_nodes.push(relations::curve_tree_prover::CurveTreeWitness { siblings: sib_o, child_witness: secret });
            what = "path continued below a leaf".to_string();
            s.label("path continued below a leaf");
            let r = attempt(&w, &t, p, &mut nothing, real, sd)?;
            target = Some(t);
            r
        }
        5 => {
            // proof for this tree, verified against one without the leaf
            let mut set = c.set.clone();
            let x = off_x(&c.set[index], &de);
            for l in set.iter_mut() { if off_x(l, &de) == x { *l = rand_point(s); } }
            let t = CurveTree::<L, M, P0, P1>::from_set(&set, p, Some(h));
            what = "tree without the leaf".to_string();
            s.label("wrong tree");
            let r = attempt(&w, &t, p, &mut nothing, real, sd)?;
            target = Some(t);
            r
        }
        6 => {
            // a tree of another height over the same leaves
            let dh = s.range(1, 2);
            let t = CurveTree::<L, M, P0, P1>::from_set(&c.set, p, Some(h + dh));
            what = format!("tree of height {} instead of {}", h + dh, h);
            s.label("tree of another height");
            let r = if s.bool() { attempt(&w, &t, p, &mut nothing, real, sd)? } else {
                let w2 = t.select_and_rerandomize_prover_witness(index, 0, p);
                attempt(&w2, &c.tree, p, &mut nothing, real, sd)?
            };
            if let Out::Accepted(_) = &r { return fail(format!("{}: accepted", what)); }
            r
        }
        _ => {
            // honest proof, path altered afterwards
            let k = s.below(9);
            let q = rand_point::<Affine<P0>>(s);
            let (i, j) = (s.usize(8), s.usize(8));
            let mut changed = false;
            let mut name = "";
            let r = attempt(&w, &c.tree, p, &mut |path| {
                let before = (path.selected_commitment, path.odd_commitments.clone(), path.even_commitments.clone());
                let (no, ne) = (path.odd_commitments.len(), path.even_commitments.len());
                match k {
                    0 => { name = "selected commitment replaced"; path.selected_commitment = q; }
                    1 => { name = "selected commitment negated"; path.selected_commitment = -path.selected_commitment; }
                    2 => { name = "selected commitment shifted by the blinding base"; path.selected_commitment = (path.selected_commitment + hb).into_affine(); }
                    3 => { name = "odd commitments exchanged"; if no > 0 { path.odd_commitments.swap(i % no, j % no); } }
                    4 => { name = "even commitments exchanged"; if ne > 0 { path.even_commitments.swap(i % ne, j % ne); } }
                    5 => { name = "odd commitment replaced"; if no > 0 { path.odd_commitments[i % no] = Affine::<P1>::generator(); } }
                    6 => { name = "even commitment replaced"; if ne > 0 { path.even_commitments[i % ne] = path.selected_commitment; } }
                    7 => { name = "commitments dropped"; path.odd_commitments.pop(); if i % 2 == 0 { path.even_commitments.pop(); } }
                    _ => { name = "commitments appended"; path.odd_commitments.push(Affine::<P1>::generator()); if i % 2 == 0 { path.even_commitments.push(q); } }
                }
                changed = before != (path.selected_commitment, path.odd_commitments.clone(), path.even_commitments.clone());
            }, real, sd)?;
            s.label(name);
            s.note(name);
            ensure!(r.accepted() != changed, "{}: {}", name, r.why());
            return Ok(());
        }
    };
    s.note(&what);
    let set: Vec<Affine<P0>> = match &target { None => c.set.clone(), Some(t) => leaves(t) };
    s.label(if res.accepted() { "accepted (a leaf after all)" } else { "rejected" });
    if let Out::Accepted((out, sc)) = res {
        ensure!(legit(&out, sc, &set, &hb, &de), "{}: accepted although the commitment rerandomizes no leaf of the tree", what);
    }
    Ok(())
} }
gfn! { fn leaves[L M](t: &CurveTree<L, M, P0, P1>) -> Vec<Affine<P0>> {
    fn even<const L: usize, const M: usize, A: SWCurveConfig, B: SWCurveConfig>(n: &CurveTreeNode<L, M, A, B>, out: &mut Vec<Affine<A>>) {
        match n {
            CurveTreeNode::Leaf(c) => out.push(*c),
            CurveTreeNode::Branch { children, .. } => for c in children.iter().flatten() {
                if let CurveTreeNode::Branch { children, .. } = c { for d in children.iter().flatten() { even(d, out); } }
            }
        }
    }
    let mut v = vec![];
    match t {
        CurveTree::Even(n) => even(n, &mut v),
        CurveTree::Odd(CurveTreeNode::Branch { children, .. }) => for d in children.iter().flatten() { even(d, &mut v); },
        _ => {}
    }
    v
} }

/// The single-level relations on the recording constraint system.
struct Level<'a, P: SWCurveConfig + Copy> {
    par: &'a SingleLayerParameters<P>,
    xs: Vec<P::BaseField>,
    public: Affine<P>,
    wit: Vec<Affine<P>>,
    r: P::ScalarField,
    /// 0: the single relation; otherwise the batched one for this many parents
    m: usize,
}
impl<'a, P: SWCurveConfig + Copy> Gadget<P::BaseField> for Level<'a, P> where P::BaseField: PrimeField {
    fn inputs(&self) -> Vec<P::BaseField> { self.xs.clone() }
    fn run<Cs: ConstraintSystem<P::BaseField>>(&self, cs: &mut Cs, i: &[LinearCombination<P::BaseField>], w: bool) -> Vec<LinearCombination<P::BaseField>> {
        let r = if w { Some(self.r) } else { None };
        fn arr<P: SWCurveConfig + Copy, const M: usize>(v: &[Affine<P>]) -> [Affine<P>; M] { v.to_vec().try_into().unwrap() }
        macro_rules! go { ($m:literal) => {{
            let a: [Affine<P>; $m] = arr(&self.wit);
            single_level_batched_select_and_rerandomize::<_, _, _, _, $m>(cs, self.par, &self.public, i.to_vec(), if w { Some(&a) } else { None }, r)
        }} }
        match self.m {
            0 => single_level_select_and_rerandomize(cs, self.par, &self.public, i.to_vec(), if w { Some(self.wit[0]) } else { None }, r),
            1 => go!(1),
            2 => go!(2),
            3 => go!(3),
            _ => go!(4),
        }
        vec![]
    }
}
/// chord through two points of the plane, on whatever curve they are
fn chord<P: SWCurveConfig>(a: &Affine<P>, b: &Affine<P>) -> Option<Affine<P>> {
    let l = (b.y - a.y) * (b.x - a.x).inverse()?;
    let x = l * l - a.x - b.x;
    Some(Affine::<P>::new_unchecked(x, l * (a.x - x) - a.y))
}
fn level_single(s: &mut Src) -> Res {
    match s.below(4) { 0 => level_run::<_, _, Pc, Vc>(s, false), 1 => level_run::<_, _, Vc, Pc>(s, false), 2 => level_run::<_, _, S0, S1>(s, false), _ => level_run::<_, _, S1, S0>(s, false) }
}
fn level_batched(s: &mut Src) -> Res {
    match s.below(4) { 0 => level_run::<_, _, Pc, Vc>(s, true), 1 => level_run::<_, _, Vc, Pc>(s, true), 2 => level_run::<_, _, S0, S1>(s, true), _ => level_run::<_, _, S1, S0>(s, true) }
}
gfn! { fn level_run[](s: &mut Src, batched: bool) -> Res {
    let p = &params::<F0, F1, P0, P1>(SMALL).even_parameters;
    let h = p.pc_gens.B_blinding;
    let m = if batched { s.range(1, 4) } else { 1 };
    let l = s.range(1, 5);
    // M parents with L slots each, some of them empty
    let mut kids: Vec<Vec<Option<Affine<P0>>>> = (0..m).map(|_| (0..l).map(|_| if s.chance(1, 4) { None } else { Some(rand_point::<Affine<P0>>(s)) }).collect()).collect();
    let sel: Vec<usize> = (0..m).map(|_| s.usize(l)).collect();
    for i in 0..m { if kids[i][sel[i]].is_none() { kids[i][sel[i]] = Some(rand_point(s)); } }
    let r: F0 = rand_field(s);
    let mut wit: Vec<Affine<P0>> = (0..m).map(|i| (kids[i][sel[i]].unwrap() + p.delta).into_affine()).collect();
    let mut xs: Vec<F1> = kids.iter().flatten().map(|k| k.map(|k| off_x(&k, &p.delta)).unwrap_or(F1::zero())).collect();
    let sum = |wit: &[Affine<P0>]| wit.iter().fold(<Affine<P0> as AffineRepr>::Group::zero(), |a, b| a + b);
    let public = |wit: &[Affine<P0>]| (sum(wit) + h * r - p.delta * F0::from(m as u64)).into_affine();
    let mut pb = public(&wit);
    let mut off_curve = false;
    let kind = s.below(10);
    if kind == 9 && m > 1 { return equal_selections::<_, _, P0, P1>(s, m, l); }
    let name = match kind {
        0 => "honest",
        1 => { let k = s.usize(m); wit[k] = rand_point(s); pb = public(&wit); "non-member" }
        2 if m > 1 => {
            let (a, b) = (s.usize(m), s.usize(m - 1));
            let b = if b >= a { b + 1 } else { b };
            let d = rand_point::<Affine<P0>>(s);
            wit[a] = (wit[a] + d).into_affine();
            wit[b] = (wit[b].into_group() - d).into_affine();
            pb = public(&wit);
            "sum-preserving change"
        }
        3 if m > 1 => {
            let (a, b) = (s.usize(m), s.usize(m - 1));
            let b = if b >= a { b + 1 } else { b };
            if s.bool() { wit.swap(a, b); } else {
                // a child of the other parent (another one, so that the sum stays well defined)
                let c = rand_point::<Affine<P0>>(s);
                let j = s.usize(l);
                if j != sel[b] { xs[b * l + j] = off_x(&c, &p.delta); wit[a] = (c + p.delta).into_affine(); } else { wit.swap(a, b); }
            }
            pb = public(&wit);
            "child of another parent"
        }
        4 => { pb = (pb + p.delta).into_affine(); "public point off by delta" }
        5 => { pb = (pb + h).into_affine(); "public point off by the blinding base" }
        6 => { pb = rand_point(s); "random public point" }
        7 | 8 => {
            // a point off the curve with a listed x-coordinate (or that of an empty slot)
            let k = s.usize(m);
            let x = if kind == 8 {
                let j = s.usize(l);
                xs[k * l + j] = F1::zero();
                F1::zero()
            } else { wit[k].x };
            let y: F1 = if kind == 8 && s.chance(1, 3) { F1::zero() } else { field(s) };
            if kind == 7 && (y == wit[k].y || y == -wit[k].y) { return Ok(()); }
            // nobody knows a point with x = 0 on the curves in use; if there is one the tree is broken
            let terms = blinding_terms(p, r);
            let blind = (h * r).into_affine();
            // the addition is associative for points of one curve only: try several orders
            let order = s.below(3);
            let mut y = y;
            if s.bool() {
                // the y-coordinate for which the next addition comes back to the curve
                let others = |a: &[Affine<P0>]| a.iter().fold(<Affine<P0> as AffineRepr>::Group::zero(), |a, b| a + b).into_affine();
                let op = if m == 1 { if order == 1 { terms[0] } else { blind } } else if k == 0 { wit[1] } else { others(&wit[..k]) };
                match (x + op.x.double()).sqrt() {
                    Some(l) => y = op.y - if s.bool() { l } else { -l } * (op.x - x),
                    None => return Ok(()),
                }
                if kind == 7 && (y == wit[k].y || y == -wit[k].y) { return Ok(()); }
                s.label("back to the curve");
            }
            wit[k] = Affine::<P0>::new_unchecked(x, y);
            let mut acc = Some(wit[0]);
            for q in &wit[1..] { acc = acc.and_then(|a| chord(&a, q)); }
            match order {
                0 => acc = acc.and_then(|a| chord(&a, &blind)),
                1 => for t in terms { acc = acc.and_then(|a| chord(&a, &t)); },
                _ => {
                    // the blinding first
                    acc = chord(&blind, &wit[0]);
                    for q in &wit[1..] { acc = acc.and_then(|a| chord(&a, q)); }
                }
            }
            match acc {
                // (the library's addition, for points on the curve)
                Some(a) if a.is_on_curve() => { pb = (a.into_group() - p.delta * F0::from(m as u64)).into_affine(); s.label("public point on the curve"); }
                Some(a) => pb = match chord(&a, &-(p.delta * F0::from(m as u64)).into_affine()) { Some(x) => x, None => return Ok(()) },
                None => return Ok(()),
            }
            off_curve = !pb.is_on_curve();
            if kind == 8 { "empty slot" } else { "wrong y-coordinate" }
        }
        _ => "honest",
    };
    s.label(name);
    s.label(format!("parents {}", m));
    s.note(format!("{} parents with {} slots: {}", m, l, name));
    s.nontrivial_by_choices();
    let g = Level { par: p, xs, public: pb, wit, r, m: if batched { m } else { 0 } };
    let rec = record(&g);
    let hon = rec.honest();
    let bad = rec.sys().violated(&hon);
    ensure!(record_verifier(&g).sys() == rec.sys(), "prover and verifier emit different constraints");
    if name == "honest" {
        ensure!(bad.is_none(), "honest witness violates {:?}", bad);
        // the choice of the child does not show in the constraints
        return Ok(());
    }
    ensure!(bad.is_some(), "{}: the relation is satisfied", name);
    if off_curve && s.chance(1, 4) {
        // no points on the curve sum to a point off it
        for _ in 0..2 {
            let a = rec.sys().attack(s, Some(&hon), &rec.ins, &g.xs, &[]);
            ensure!(rec.sys().violated(&a).is_some(), "{}: a witness satisfies the relation for a public point off the curve", name);
        }
    }
    Ok(())
} }
gfn! {
/// Parents with a common child: a point "plus" itself is anything on a line with a free slope, if the
/// addition does not exclude it. The values of an honest run are replaced by those of the false one.
fn equal_selections[](s: &mut Src, m: usize, l: usize) -> Res {
    let p = &params::<F0, F1, P0, P1>(SMALL).even_parameters;
    let h = p.pc_gens.B_blinding;
    let delta_m = p.delta * F0::from(m as u64);
    let mut kids: Vec<Vec<Affine<P0>>> = (0..m).map(|_| (0..l).map(|_| rand_point::<Affine<P0>>(s)).collect()).collect();
    let sel: Vec<usize> = (0..m).map(|_| s.usize(l)).collect();
    let honest: Vec<Affine<P0>> = (0..m).map(|i| (kids[i][sel[i]] + p.delta).into_affine()).collect();
    let r: F0 = rand_field(s);
    // which selection repeats (or negates) the sum of those before it
    let k = s.range(1, m - 1);
    let before = honest[..k].iter().fold(<Affine<P0> as AffineRepr>::Group::zero(), |a, b| a + b);
    let a = before.into_affine();
    kids[k][sel[k]] = (before - p.delta).into_affine();
    let Some(sl) = (a.x + a.x.double()).sqrt() else { return Ok(()) };
    let sl = if s.bool() { sl } else { -sl };
    // a "plus" a = -a
    let mut fake = honest.clone();
    fake[k] = a;
    let (mut acc, mut old) = (-a.into_group(), before + honest[k]);
    let mut subst: Vec<(F1, F1)> = vec![(honest[k].x, a.x), (honest[k].y, a.y)];
    fn line<P: SWCurveConfig>(u: &Affine<P>, v: &Affine<P>) -> (P::BaseField, P::BaseField) { ((v.y - u.y) / (v.x - u.x), (v.x - u.x).inverse().unwrap()) }
    let mut pair = |o: (F1, F1), n: (F1, F1)| { for (o, n) in [(o.0, n.0), (o.1, n.1)] { subst.push((o, n)); subst.push((-o, -n)); } };
    let pt = |q: &<Affine<P0> as AffineRepr>::Group| { let q = q.into_affine(); (q.x, q.y) };
    // the excluded inverse is arbitrary
    pair(line(&a, &honest[k]), (sl, F1::zero()));
    pair(pt(&old), pt(&acc));
    for q in &honest[k + 1..] {
        let (u, v) = (old.into_affine(), acc.into_affine());
        if v.x == q.x { return Ok(()); }
        pair(line(&u, q), line(&v, q));
        old += q;
        acc += q;
        pair(pt(&old), pt(&acc));
    }
    let blind = (h * r).into_affine();
    pair(line(&old.into_affine(), &blind), line(&acc.into_affine(), &blind));
    let public = (acc + h * r - delta_m).into_affine();
    if (acc - before - before - honest[k + 1..].iter().fold(<Affine<P0> as AffineRepr>::Group::zero(), |a, b| a + b)).is_zero() { return Ok(()); }
    let xs: Vec<F1> = kids.iter().flatten().map(|k| off_x(k, &p.delta)).collect();
    s.label("equal selections");
    s.label(format!("parents {}", m));
    s.note(format!("{} parents with {} slots: selection {} repeats the sum before it", m, l, k));
    s.nontrivial_by_choices();
    let g = Level { par: p, xs: xs.clone(), public, wit: honest, r, m };
    let rec = record(&g);
    let hon = rec.honest();
    let sys = rec.sys();
    for whole in [true, false] {
        let mut st: Vec<Option<F1>> = vec![None; sys.nwires];
        for (w, x) in rec.ins.iter().zip(&xs) { st[*w] = Some(*x); }
        for w in &sys.allocs { if let Some((_, n)) = subst.iter().find(|q| q.0 == hon[*w]) { st[*w] = Some(*n); } }
        // the selection itself may be witnessed otherwise: derive it, or keep the rest of the honest run
        if whole { for w in &sys.allocs { if st[*w].is_none() { st[*w] = Some(hon[*w]); } } }
        let v = sys.complete(st, |unk| (unk[0], hon[unk[0]]));
        ensure!(sys.violated(&v).is_some(), "a sum of selections that is not the sum of the children is accepted");
    }
    Ok(())
} }
/// the table entries the blinding scalar selects, in order
fn blinding_terms<P: SWCurveConfig + Copy>(p: &SingleLayerParameters<P>, r: P::ScalarField) -> Vec<Affine<P>> where P::ScalarField: PrimeField {
    use ark_ff::BigInteger;
    let b = r.into_bigint();
    p.tables.iter().enumerate().map(|(i, t)| {
        let d = (0..3).map(|k| if b.get_bit(3 * i + k) { 1 << k } else { 0 }).sum::<usize>();
        Affine::<P>::new_unchecked(t.elems[0][d], t.elems[1][d])
    }).collect()
}

// ---------------------------------------------------------------- C13
fn gen_indices<const M: usize>(s: &mut Src, n: usize) -> Option<[usize; M]> {
    let mut v: Vec<usize> = vec![];
    for _ in 0..M {
        let mut k = s.usize(n);
        let mut tries = 0;
        while v.contains(&k) { k = (k + 1) % n; tries += 1; if tries > n { return None; } }
        v.push(k);
    }
    if s.chance(1, 4) { v.reverse(); }
    v.try_into().ok()
}
fn c13_fast(s: &mut Src) -> Res { multi_cfg!(s, c13_fast_) }
gfn! { fn c13_fast_[L M](s: &mut Src) -> Res { c13_run::<L, M, F0, F1, P0, P1>(s, 24, 5, false, SMALL) } }
/// Wider nodes, larger batches, more leaves.
fn c13_big(s: &mut Src) -> Res {
    match s.below(7) {
        0 => c13_run::<16, 2, _, _, Pc, Vc>(s, 300, 3, false, SMALL),
        1 => c13_run::<32, 3, _, _, Vc, Pc>(s, 300, 3, false, 128),
        2 => c13_run::<8, 5, _, _, Pc, Vc>(s, 80, 3, false, SMALL),
        3 => c13_run::<2, 8, _, _, Pc, Vc>(s, 40, 7, false, SMALL),
        4 => c13_run::<270, 1, _, _, Pc, Vc>(s, 300, 2, false, 512),
        5 => c13_run::<5, 16, _, _, Pc, Vc>(s, 30, 3, false, 128),
        _ => c13_run::<10, 7, _, _, S0, S1>(s, 30, 2, false, 128),
    }
}
fn c14_big(s: &mut Src) -> Res {
    match s.below(5) {
        0 => c14_run::<16, 2, _, _, Pc, Vc>(s, 60, 3, false, SMALL),
        1 => c14_run::<8, 5, _, _, Pc, Vc>(s, 30, 3, false, SMALL),
        2 => c14_run::<2, 8, _, _, Pc, Vc>(s, 20, 6, false, SMALL),
        3 => c14_run::<32, 3, _, _, Vc, Pc>(s, 60, 3, false, 128),
        _ => c14_run::<5, 7, _, _, S0, S1>(s, 20, 3, false, SMALL),
    }
}
fn c13_real(s: &mut Src) -> Res {
    match s.below(5) {
        0 => c13_run::<2, 2, _, _, Pc, Vc>(s, 8, 3, true, LARGE),
        1 => c13_run::<3, 3, _, _, Vc, Pc>(s, 10, 2, true, LARGE),
        2 => c13_run::<4, 4, _, _, Pc, Vc>(s, 4, 1, true, LARGE),
        3 => c13_run::<2, 1, _, _, Pc, Vc>(s, 8, 3, true, LARGE),
        _ => c13_run::<2, 2, _, _, S0, S1>(s, 4, 2, true, LARGE),
    }
}
gfn! { fn c13_run[L M](s: &mut Src, max: usize, maxh: usize, real: bool, gens: usize) -> Res {
    let p = params::<F0, F1, P0, P1>(gens);
    let c = gen_tree::<L, M, F0, F1, P0, P1>(s, max, maxh, p);
    let n = c.set.len();
    let Some(idx) = gen_indices::<M>(s, n) else { return Ok(()) };
    s.note(format!("indices {:?}", idx));
    s.nontrivial_by_choices();
    let hb = p.even_parameters.pc_gens.B_blinding;
    let w = c.tree.select_and_rerandomize_prover_multi_witness(idx, p);
    let sd = seed(s);
    match attempt_multi(&w, &c.tree, p, &mut |_| {}, real, sd)? {
        Out::Rejected(e) => return fail(format!("batched membership proof of leaves {:?} of {} rejected: {}", idx, n, e)),
        Out::Accepted((out, sc)) => for k in 0..M {
            ensure!(out[k] == (c.set[idx[k]].into_group() + hb * sc[k]).into_affine(), "verified leaf {} is not the original leaf plus its scalar times the blinding base", k);
        }
    }
    let mut pe = Prover::<merlin::Transcript, Affine<P0>>::new(&p.even_parameters.pc_gens, merlin::Transcript::new(b"x"));
    let mut po = Prover::<merlin::Transcript, Affine<P1>>::new(&p.odd_parameters.pc_gens, merlin::Transcript::new(b"x"));
    let mut rng = <rand::rngs::StdRng as rand::SeedableRng>::seed_from_u64(sd);
    let (path, sc) = c.tree.batched_select_and_rerandomize_prover_gadget(idx, &mut pe, &mut po, p, &mut rng);
    let mut ve = Verifier::<merlin::Transcript, Affine<P0>>::new(merlin::Transcript::new(b"x"));
    let mut vo = Verifier::<merlin::Transcript, Affine<P1>>::new(merlin::Transcript::new(b"x"));
    let out = c.tree.batched_select_and_rerandomize_verifier_gadget(&mut ve, &mut vo, path, p);
    for k in 0..M { ensure!(out[k] == (c.set[idx[k]].into_group() + hb * sc[k]).into_affine(), "leaf {} differs from the original plus blinding", k); }
    if let Err(e) = fast(&mut pe, &mut ve).and_then(|_| fast(&mut po, &mut vo)) { return fail(format!("tree prover gadget: {}", e)); }
    Ok(())
} }

// ---------------------------------------------------------------- C14
fn c14_fast(s: &mut Src) -> Res { multi_cfg!(s, c14_fast_) }
gfn! { fn c14_fast_[L M](s: &mut Src) -> Res { c14_run::<L, M, F0, F1, P0, P1>(s, 24, 5, false, SMALL) } }
fn c14_real(s: &mut Src) -> Res {
    match s.below(4) {
        0 => c14_run::<2, 2, _, _, Pc, Vc>(s, 8, 3, true, LARGE),
        1 => c14_run::<3, 3, _, _, Vc, Pc>(s, 10, 2, true, LARGE),
        2 => c14_run::<2, 2, _, _, Pc, Vc>(s, 8, 4, true, LARGE),
        _ => c14_run::<2, 2, _, _, S0, S1>(s, 4, 2, true, LARGE),
    }
}
gfn! { fn c14_run[L M](s: &mut Src, max: usize, maxh: usize, real: bool, gens: usize) -> Res {
    let p = params::<F0, F1, P0, P1>(gens);
    let c = gen_tree::<L, M, F0, F1, P0, P1>(s, max, maxh, p);
    let n = c.set.len();
    let h = c.tree.height();
    let Some(idx) = gen_indices::<M>(s, n) else { return Ok(()) };
    let (de, hb) = (p.even_parameters.delta, p.even_parameters.pc_gens.B_blinding);
    let mut w = c.tree.select_and_rerandomize_prover_multi_witness(idx, p);
    let sd = seed(s);
    s.nontrivial_by_choices();
    let k = s.usize(M);
    let k2 = if M > 1 { let j = s.usize(M - 1); if j >= k { j + 1 } else { j } } else { k };
    let mut nothing = |_: &mut SelectAndRerandomizeMultiPath<L, M, P0, P1>| {};
    let mut target: Option<CurveTree<L, M, P0, P1>> = None;
    let what;
    let res = match s.below(10) {
        0 | 1 => {
            let f = foreign(s, &c.set, p);
            let up = s.usize(h + 1);
            let slot = if s.bool() { Some(s.usize(L)) } else { None };
            what = format!("foreign leaf at position {}, consistent up to level {} of {}", k, up, h);
            s.label("foreign leaf");
            let mut q = position(&w, k);
            tamper(&mut q, k, up, slot, f, p);
            set_position(&mut w, k, &q);
            attempt_multi(&w, &c.tree, p, &mut nothing, real, sd)?
        }
        2 => {
            // nodes at some level replaced by others with the same sum
            if M < 2 { return Ok(()); }
            let lev = s.usize(h);
            what = format!("nodes {} and {} of level {} changed by opposite amounts", k, k2, lev);
            s.label("sum-preserving change");
            if lev % 2 == 0 {
                let d = rand_point::<Affine<P0>>(s);
                let i = w.odd_internal_nodes.len() - 1 - lev / 2;
                let a = &mut w.odd_internal_nodes[i];
                a[k].child_witness = (a[k].child_witness + d).into_affine();
                a[k2].child_witness = (a[k2].child_witness.into_group() - d).into_affine();
            } else {
                let d = rand_point::<Affine<P1>>(s);
                let i = w.even_internal_nodes.len() - 1 - lev / 2;
                let a = &mut w.even_internal_nodes[i];
                a[k].child_witness = (a[k].child_witness + d).into_affine();
                a[k2].child_witness = (a[k2].child_witness.into_group() - d).into_affine();
            }
            attempt_multi(&w, &c.tree, p, &mut nothing, real, sd)?
        }
        3 => {
            // positions exchanged at one level only
            if M < 2 { return Ok(()); }
            let lev = s.usize(h);
            what = format!("nodes {} and {} of level {} exchanged", k, k2, lev);
            s.label("positions exchanged at one level");
            let both = s.bool();
            if lev % 2 == 0 {
                let i = w.odd_internal_nodes.len() - 1 - lev / 2;
                if both { w.odd_internal_nodes[i].swap(k, k2); } else { let a = &mut w.odd_internal_nodes[i]; let t = a[k].child_witness; a[k].child_witness = a[k2].child_witness; a[k2].child_witness = t; }
            } else {
                let i = w.even_internal_nodes.len() - 1 - lev / 2;
                if both { w.even_internal_nodes[i].swap(k, k2); } else { let a = &mut w.even_internal_nodes[i]; let t = a[k].child_witness; a[k].child_witness = a[k2].child_witness; a[k2].child_witness = t; }
            }
            attempt_multi(&w, &c.tree, p, &mut nothing, real, sd)?
        }
        4 => {
            if h < 3 { return Ok(()); }
            what = "internal nodes as leaves, path two levels short".to_string();
            s.label("internal node as leaf");
            w.odd_internal_nodes.pop();
            w.even_internal_nodes.pop();
            attempt_multi(&w, &c.tree, p, &mut nothing, real, sd)?
        }
        5 => {
            let mut set = c.set.clone();
            let x = off_x(&c.set[idx[k]], &de);
            for l in set.iter_mut() { if off_x(l, &de) == x { *l = rand_point(s); } }
            let t = CurveTree::<L, M, P0, P1>::from_set(&set, p, Some(h));
            what = format!("tree without leaf {}", k);
            s.label("wrong tree");
            let r = attempt_multi(&w, &t, p, &mut nothing, real, sd)?;
            target = Some(t);
            r
        }
        6 => {
            let dh = s.range(1, 2);
            let t = CurveTree::<L, M, P0, P1>::from_set(&c.set, p, Some(h + dh));
            what = format!("tree of height {} instead of {}", h + dh, h);
            s.label("tree of another height");
            let r = if s.bool() { attempt_multi(&w, &t, p, &mut nothing, real, sd)? } else {
                let w2 = t.select_and_rerandomize_prover_multi_witness(idx, p);
                attempt_multi(&w2, &c.tree, p, &mut nothing, real, sd)?
            };
            if let Out::Accepted(_) = &r { return fail(format!("{}: accepted", what)); }
            r
        }
        7 => {
            // leaves that are themselves commitments of nodes: the paths go on below them
            let mut set = c.set.clone();
            let mut below = vec![];
            for (j, i) in idx.iter().enumerate() {
                let secret = rand_point::<Affine<P0>>(s);
                let mut sib_o = [F1::zero(); L];
                sib_o[s.usize(L)] = off_x(&secret, &de);
                let odd = layer_commit(&p.odd_parameters, &sib_o, F1::zero(), j);
                let mut sib_e = [F0::zero(); L];
                sib_e[s.usize(L)] = off_x(&odd, &p.odd_parameters.delta);
                set[*i] = layer_commit(&p.even_parameters, &sib_e, F0::zero(), j);
                below.push((sib_e, odd, sib_o, secret));
            }
            let t = CurveTree::<L, M, P0, P1>::from_set(&set, p, Some(h));
            w = t.select_and_rerandomize_prover_multi_witness(idx, p);
            use relations::curve_tree_prover::CurveTreeWitness;
            w.even_internal_nodes.push(std::array::from_fn(|j| CurveTreeWitness { siblings: below[j].0, child_witness: below[j].1 }));
            w.odd_internal_nodes.push(std::array::from_fn(|j| CurveTreeWitness { siblings: below[j].2, child_witness: below[j].3 }));
            what = "paths continued below leaves".to_string();
            s.label("paths continued below leaves");
            let r = attempt_multi(&w, &t, p, &mut nothing, real, sd)?;
            target = Some(t);
            r
        }
        _ => {
            let q = rand_point::<Affine<P0>>(s);
            let (i, j) = (s.usize(8), s.usize(8));
            let op = s.below(10);
            let mut changed = false;
            let mut name = "";
            let r = attempt_multi(&w, &c.tree, p, &mut |path| {
                let before = (path.selected_commitments, path.odd_commitments.clone(), path.even_commitments.clone());
                let (no, ne) = (path.odd_commitments.len(), path.even_commitments.len());
                match op {
                    0 => { name = "selected commitment replaced"; path.selected_commitments[k] = q; }
                    1 => { name = "selected commitments exchanged"; path.selected_commitments.swap(k, k2); }
                    2 => { name = "selected commitment shifted by the blinding base"; path.selected_commitments[k] = (path.selected_commitments[k] + hb).into_affine(); }
                    3 => { name = "odd commitments exchanged"; if no > 0 { path.odd_commitments.swap(i % no, j % no); } }
                    4 => { name = "even commitments exchanged"; if ne > 0 { path.even_commitments.swap(i % ne, j % ne); } }
                    5 => { name = "odd commitment replaced"; if no > 0 { path.odd_commitments[i % no] = Affine::<P1>::generator(); } }
                    6 => { name = "even commitment replaced"; if ne > 0 { path.even_commitments[i % ne] = q; } }
                    7 => { name = "commitments dropped"; path.odd_commitments.pop(); if i % 2 == 0 { path.even_commitments.pop(); } }
                    8 => { name = "commitments appended"; path.odd_commitments.push(Affine::<P1>::generator()); if i % 2 == 0 { path.even_commitments.push(q); } }
                    _ => {
                        name = "selected commitments changed by opposite amounts";
                        if k != k2 {
                            path.selected_commitments[k] = (path.selected_commitments[k] + q).into_affine();
                            path.selected_commitments[k2] = (path.selected_commitments[k2].into_group() - q).into_affine();
                        }
                    }
                }
                changed = before != (path.selected_commitments, path.odd_commitments.clone(), path.even_commitments.clone());
            }, real, sd)?;
            s.label(name);
            s.note(name);
            ensure!(r.accepted() != changed, "{}: {}", name, r.why());
            return Ok(());
        }
    };
    s.note(&what);
    let set: Vec<Affine<P0>> = match &target { None => c.set.clone(), Some(t) => leaves(t) };
    s.label(if res.accepted() { "accepted (leaves after all)" } else { "rejected" });
    if let Out::Accepted((out, sc)) = res {
        for j in 0..M {
            ensure!(legit(&out[j], sc[j], &set, &hb, &de), "{}: accepted although commitment {} rerandomizes no leaf of the tree", what, j);
        }
    }
    Ok(())
} }

fn main() {
    let sub = |name, rule, quick, thorough, f| Sub { name, rule, quick, thorough, f };
    main_with(&[
        ("C10", vec![
            sub("model", "leaf list (sizes around powers of L; repeated, opposite, identity leaves), L, M, height and curve cycle generated; every node compared with the reference tree", 2400, 60000, c10_model as CaseFn),
            sub("big", "over 256 and over 65536 leaves, nodes of 300 children, eight generator sets, up to 40 levels; every node compared with the reference tree, witness paths at telling indices, two leaves at a telling distance exchanged", 36, 2000, c10_big),
            sub("binding", "two related leaf lists (replaced, exchanged, inserted, removed leaves) generated", 2000, 40000, c10_binding),
        ], &["no leaf equals minus the tree offset (its offset x-coordinate is undefined)"]),
        ("C11", vec![
            sub("relation", "tree, shape, cycle and index generated; verdict from transcripts, constraints and witness", 500, 20000, c11_fast as CaseFn),
            sub("big", "over 256 and over 65536 leaves, nodes of 300 children, many levels; indices around powers of two and of L", 16, 1200, c11_big),
            sub("proof", "the same with real proofs", 16, 600, c11_real),
        ], &[]),
        ("C12", vec![
            sub("relation", "tree and one deviation of the prover or alteration of the path generated", 1200, 40000, c12_fast as CaseFn),
            sub("level", "one level: children, witness and public point generated, honest and not", 1500, 60000, level_single),
            sub("proof", "deviations with real proofs", 20, 1000, c12_real),
        ], &[]),
        ("C13", vec![
            sub("relation", "tree, M, cycle and indices generated; verdict from transcripts, constraints and witness", 300, 15000, c13_fast as CaseFn),
            sub("big", "nodes of up to 270 children, batches of up to 16, up to 300 leaves", 60, 4000, c13_big),
            sub("proof", "the same with real proofs", 14, 500, c13_real),
        ], &[]),
        ("C14", vec![
            sub("relation", "tree, M and one deviation of the prover or alteration of the path generated", 900, 30000, c14_fast as CaseFn),
            sub("level", "one batched level: parents, children, witness and public point generated, honest and not", 1000, 40000, level_batched),
            sub("big", "the deviations of sub relation in trees with wider nodes and batches of up to 8", 160, 8000, c14_big),
            sub("proof", "deviations with real proofs", 18, 800, c14_real),
        ], &[]),
    ]);
}
