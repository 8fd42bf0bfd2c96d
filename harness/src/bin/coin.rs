//! Checks of encodings, coins, pours and transactions: C06 C20 C21 C22.
use ark_crypto_primitives::signature::schnorr::SecretKey;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use vh::prog::gen_prog;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use rand::rngs::StdRng;
use rand::SeedableRng;
use relations::coin::*;
use relations::curve_tree::*;
use vh::cfn;
use vh::coin::*;
use vh::common::*;
use vh::engine::*;
use vh::ensure;
use vh::tree::*;

type Pc = ark_pallas::PallasConfig;
type Vc = ark_vesta::VestaConfig;
type S0 = ark_secp256k1::Config;
type S1 = ark_secq256k1::Config;
type Gp = ark_pallas::Projective;
type Gv = ark_vesta::Projective;
type Gs = ark_secp256k1::Projective;

const SMALL: usize = 256;
const LARGE: usize = 4096;

macro_rules! coin_cfg {
    ($s:expr, $f:ident) => {
        match $s.below(10) {
            0 => $f::<2, _, _, Pc, Vc, Gp>($s),
            1 => $f::<4, _, _, Pc, Vc, Gp>($s),
            2 => $f::<8, _, _, Pc, Vc, Gv>($s),
            3 => $f::<3, _, _, Vc, Pc, Gv>($s),
            4 => $f::<2, _, _, S0, S1, Gs>($s),
            5 => $f::<256, _, _, Pc, Vc, Gp>($s),
            6 => $f::<5, _, _, Vc, Pc, Gs>($s),
            7 => $f::<3, _, _, Pc, Vc, Gp>($s),
            8 => $f::<33, _, _, Pc, Vc, Gp>($s),
            _ => $f::<16, _, _, S1, S0, Gp>($s),
        }
    };
}

fn height_limit(l: usize) -> usize { if l > 64 { 2 } else if l > 5 { 3 } else { 4 } }

/// Two input values and two outputs with the same sum.
fn gen_balanced(s: &mut Src) -> ([u64; 2], [u64; 2]) {
    let i = [gen_value(s), gen_value(s)];
    let t = i[0] as u128 + i[1] as u128;
    let m = u64::MAX as u128;
    let (lo, hi) = (t.saturating_sub(m), t.min(m));
    let v0 = match s.below(5) {
        0 => lo,
        1 => hi,
        2 => (i[0] as u128).clamp(lo, hi),
        3 => (i[1] as u128).clamp(lo, hi),
        _ => lo + (s.u64() as u128) % (hi - lo + 1),
    };
    (i, [v0 as u64, (t - v0) as u64])
}

fn neighbour(s: &mut Src, v: u64) -> u64 {
    let w = match s.below(5) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 => v ^ (1 << s.below(64)),
        3 => gen_value(s),
        _ => v.wrapping_add(1 << 63),
    };
    if w == v { v ^ 1 } else { w }
}

// ---------------------------------------------------------------- C20
cfn! { fn c20_mint[](s: &mut Src) -> Res {
    let p = params::<_, _, P0, P1>(SMALL);
    let sp = gen_sp::<C>(s);
    let key = gen_key::<C>(s, &sp);
    let v = gen_value(s);
    s.note(format!("mint {} for {}", v, key.sk));
    s.nontrivial_by_choices();
    let seed = s.u64();
    let label: &'static [u8] = b"mint";
    let mut rng = StdRng::seed_from_u64(seed);
    let mut pr = Prover::<Transcript, Affine<P0>>::new(&p.even_parameters.pc_gens, Transcript::new(label));
    // an earlier, unrelated commitment must not disturb it
    let before = s.below(3);
    let mut early = vec![];
    for k in 0..before {
        let (c, _) = Coin::<P0, C>::mint::<_>(k, &key.pk, &sp, &p.even_parameters, &mut rng, &mut pr).into_pair();
        early.push(c);
    }
    let (coin, comm, var) = Coin::<P0, C>::mint(v, &key.pk, &sp, &p.even_parameters, &mut rng, &mut pr);
    ensure!(coin.value == v, "minted coin records value {} instead of {}", coin.value, v);
    let rpk = Coin::<P0, C>::rerandomized_pk(&key.pk, &coin.pk_randomness, &sp);
    ensure!(coin.tag == tag_of::<F0, C>(&rpk), "tag is not the hash of the rerandomized key");
    ensure!(rpk != key.pk, "the rerandomized key is the key itself");
    let g: Vec<Affine<P0>> = p.even_parameters.bp_gens.share(0).G(2).copied().collect();
    let bb = p.even_parameters.pc_gens.B_blinding;
    let want = (g[0] * F0::from(v) + g[1] * coin.tag + bb * coin.blinding).into_affine();
    ensure!(comm == want, "published commitment does not open to value and tag of the minted coin");
    ensure!(!coin.blinding.is_zero() && !coin.pk_randomness.is_zero(), "zero randomness");
    let lc: LinearCombination<F0> = var.into();
    ensure!(pr.eval(&lc) == F0::from(v), "returned variable is not the value");
    // verification
    let mut ve = Verifier::<Transcript, Affine<P0>>::new(Transcript::new(label));
    for c in &early { verify_mint(&mut ve, *c); }
    let vv = verify_mint(&mut ve, comm);
    ensure!(format!("{:?}", vv) == format!("{:?}", var), "prover and verifier return different variables");
    let f = fast(&mut pr, &mut ve);
    ensure!(f.is_ok(), "mint of {} not provable: {:?}", v, f);
    let real = s.chance(1, 4);
    if real {
        s.label("real proof");
        let proof = pr.prove(&p.even_parameters.bp_gens).map_err(|e| Fail { sig: String::new(), msg: format!("prove: {:?}", e) })?;
        let ok = ve.verify(&proof, &p.even_parameters.pc_gens, &p.even_parameters.bp_gens);
        ensure!(ok.is_ok(), "honest mint of {} rejected: {:?}", v, ok);
        // the same proof with another commitment
        let mut ve = Verifier::<Transcript, Affine<P0>>::new(Transcript::new(label));
        for c in &early { verify_mint(&mut ve, *c); }
        let other = match s.below(4) {
            0 => (comm + g[0]).into_affine(),
            1 => (comm + g[1]).into_affine(),
            2 => (comm + bb).into_affine(),
            _ => -comm,
        };
        let _ = guarded(|| verify_mint(&mut ve, other));
        let r = guarded(|| ve.verify(&proof, &p.even_parameters.pc_gens, &p.even_parameters.bp_gens).is_ok());
        ensure!(r != Ok(true), "mint proof accepted for another commitment");
    } else { s.label("constraints"); }
    // Coin::new makes the same kind of coin
    let o = new_coin::<_, _, P0, P1, C>(s, &key, v, &sp, p);
    let want = (g[0] * F0::from(v) + g[1] * tag_of::<F0, C>(&o.rpk) + bb * o.blinding).into_affine();
    ensure!(o.commitment == want && o.value == v && o.tag == tag_of::<F0, C>(&o.rpk), "Coin::new: commitment does not open to value and tag");
    ensure!(o.commitment != comm && o.tag != coin.tag, "two coins with different randomness agree");
    Ok(())
} }

trait IntoPair<A> { fn into_pair(self) -> (A, ()); }
impl<T, A, B> IntoPair<A> for (T, A, B) { fn into_pair(self) -> (A, ()) { (self.1, ()) } }

cfn! {
/// Can the constraints a verifier emits for a mint be met with a value out of range?
fn c20_range[](s: &mut Src) -> Res {
    let _ = std::marker::PhantomData::<C>;
    let x: F0 = match s.below(8) {
        0 => F0::from(2u64).pow([64]),
        1 => -F0::from(1 + s.below(4)),
        2 => F0::from(2u64).pow([64 + s.below(190)]),
        3 => F0::from(s.u64()) + F0::from(2u64).pow([64 + s.below(60)]),
        4 => -F0::from(s.u64() | 1),
        5 => F0::from(2u64).inverse().unwrap(),
        6 => F0::from(gen_value(s)),
        _ => rand_field(s),
    };
    let inside = as_u64(&x).is_some();
    let second = s.bool();
    let mut ve = Verifier::<Transcript, Affine<P0>>::new(Transcript::new(b"mint"));
    if second { verify_mint(&mut ve, Affine::<P0>::generator()); }
    let var = verify_mint(&mut ve, Affine::<P0>::generator());
    let (ci, vi) = match var { Variable::VectorCommit(i, j) => (i, j), v => return fail(format!("value variable is {:?}", v)) };
    let e = extract(&ve);
    s.note(format!("value {}", show(&x)));
    s.nontrivial(hash64(&(format!("{}", x), second)));
    s.label(if inside { "in range" } else { "out of range" });
    let id = match e.vec.get(&(ci, vi)) { Some(i) => *i, None => return fail("no constraint mentions the minted value") };
    let bit = |i: usize| -> F0 {
        use ark_ff::BigInteger;
        F0::from(x.into_bigint().get_bit(i) as u64)
    };
    // witnesses: everything derived from the value, with gates holding its bits in either form
    let gates = e.sys.gates.len();
    let half = if second { gates / 2 } else { 0 };
    let mut found = false;
    for form in 0..5 {
        let mut st: Vec<Option<F0>> = vec![None; e.sys.nwires];
        for i in &e.sys.inputs { st[*i] = Some(F0::zero()); }
        st[id] = Some(x);
        let mut i = 0;
        for (g, w) in e.sys.gates.iter().enumerate() {
            let b = if g < half { F0::zero() } else { i += 1; bit(i - 1) };
            let (l, r) = match form { 0 => (F0::from(1u64) - b, b), 1 => (b, F0::from(1u64) - b), 2 => (b, b), 3 if g == gates - 1 => { break; } 3 => (F0::from(1u64) - b, b), _ => { break; } };
            st[w[0]] = Some(l);
            st[w[1]] = Some(r);
        }
        let vals = e.sys.complete(st, |u| (u[0], F0::zero()));
        if vals[id] == x && e.sys.violated(&vals).is_none() { found = true; }
    }
    if !inside {
        for _ in 0..3 {
            let mut st: Vec<Option<F0>> = vec![None; e.sys.nwires];
            for i in &e.sys.inputs { st[*i] = Some(F0::zero()); }
            st[id] = Some(x);
            let cand = [x, -x, F0::from(2u64), F0::from(2u64).inverse().unwrap()];
            let honest = e.sys.complete(st, |u| (u[0], F0::zero()));
            let vals = e.sys.attack(s, Some(&honest), &e.sys.inputs, &cand, &[]);
            if vals[id] == x && e.sys.violated(&vals).is_none() { found = true; }
        }
    }
    ensure!(!found || inside, "a mint of the out-of-range value {} meets the verifier's constraints", x);
    Ok(())
} }

/// A world with two owned coins, and an honest pour of them.
fn shape(s: &mut Src, l: usize, h: usize, n: usize, i: [usize; 2], vin: [u64; 2], v: [u64; 2]) {
    s.note(format!("L={} height={} leaves={} indices {:?} values {:?} -> {:?}", l, h, n, i, vin, v));
}

cfn! {
/// Coins are spendable from wherever they are, under their key, and not otherwise.
fn c20_spend[L](s: &mut Src) -> Res {
    let (vin, v) = gen_balanced(s);
    let w = gen_world::<L, _, _, P0, P1, C>(s, &vin, LARGE, height_limit(L));
    shape(s, L, w.height, w.set.len(), [w.coins[0].index, w.coins[1].index], vin, v);
    s.nontrivial_by_choices();
    let recv = [gen_key::<C>(s, &w.sp).pk, gen_key::<C>(s, &w.sp).pk];
    let seed = s.u64();
    let which = s.usize(2);
    let kind = s.below(8);
    let mut infos = [w.coins[0].info(), w.coins[1].info()];
    let t = &mut infos[which];
    let c = &w.coins[which];
    let what = match kind {
        0 | 1 => { "honest" }
        2 => { let k = gen_key::<C>(s, &w.sp); if k.pk == c.key.pk { return Ok(()); } t.sk = SecretKey(k.sk); "another secret key" }
        3 => {
            // an attacker's own key, consistently rerandomized
            let k = gen_key::<C>(s, &w.sp);
            if k.pk == c.key.pk { return Ok(()); }
            t.randomized_pk = Coin::<P0, C>::rerandomized_pk(&k.pk, &c.pk_randomness, &w.sp);
            t.sk = SecretKey(k.sk);
            "another owner"
        }
        4 => { t.coin_aux.pk_randomness = rand_field(s); t.randomized_pk = Coin::<P0, C>::rerandomized_pk(&c.key.pk, &t.coin_aux.pk_randomness, &w.sp); "the owner's key under another rerandomization" }
        5 => { t.coin_aux.value = neighbour(s, c.value); "another value" }
        6 => { t.coin_aux.tag += F0::from(1u64); "another tag" }
        _ => { t.index = (c.index + 1 + s.usize(w.set.len())) % w.set.len(); if w.set[t.index] == c.commitment { return Ok(()); } "another position" }
    };
    s.label(what);
    let tx = pour::<L, _, _, P0, P1, C>(&w, &infos[0], &infos[1], v, recv, seed);
    let r = match &tx { Ok(t) => verdict::<L, _, _, P0, P1, C>(t, DOMAIN.as_static(), &w.tree, w.p, &w.sp), Err(e) => Err(format!("prover: {}", e)) };
    if what == "honest" { ensure!(r.is_ok(), "owner cannot spend: {:?}", r); }
    else { ensure!(r.is_err(), "coin spent with {}", what); }
    Ok(())
} }

trait AsStatic { fn as_static(&self) -> &'static [u8]; }
impl AsStatic for &'static [u8] { fn as_static(&self) -> &'static [u8] { self } }

// ---------------------------------------------------------------- C21
cfn! { fn c21_honest[L](s: &mut Src) -> Res {
    let (vin, v) = gen_balanced(s);
    let w = gen_world::<L, _, _, P0, P1, C>(s, &vin, LARGE, height_limit(L));
    shape(s, L, w.height, w.set.len(), [w.coins[0].index, w.coins[1].index], vin, v);
    s.label(format!("height {}", w.height));
    s.label(format!("L {}", L));
    s.nontrivial_by_choices();
    let recv = [gen_key::<C>(s, &w.sp).pk, gen_key::<C>(s, &w.sp).pk];
    let swap = s.bool();
    let (a, b) = if swap { (1, 0) } else { (0, 1) };
    let seed = s.u64();
    let tx = pour::<L, _, _, P0, P1, C>(&w, &w.coins[a].info(), &w.coins[b].info(), v, recv, seed).map_err(|e| Fail { sig: String::new(), msg: format!("honest pour not provable: {}", e) })?;
    let r = verdict::<L, _, _, P0, P1, C>(&tx, DOMAIN, &w.tree, w.p, &w.sp);
    ensure!(r.is_ok(), "honest balanced pour rejected: {:?}", r);
    // the minted commitments are spendable coins of the stated kind; the published keys are the owners'
    let pour = match parse_pour::<L, _, _, P0, P1, C>(&tx.pour_bytes) { Some(p) => p, None => return fail("pour bytes do not decode") };
    ensure!(pour.pk0 == w.coins[a].rpk && pour.pk1 == w.coins[b].rpk, "published keys are not the rerandomized owner keys");
    Ok(())
} }

cfn! {
/// An honest pour, presented where it does not belong or with contents altered.
fn c21_altered[L](s: &mut Src) -> Res {
    let (vin, v) = gen_balanced(s);
    let w = gen_world::<L, _, _, P0, P1, C>(s, &vin, LARGE, height_limit(L).min(2));
    let recv = [gen_key::<C>(s, &w.sp).pk, gen_key::<C>(s, &w.sp).pk];
    let seed = s.u64();
    let i = [w.coins[0].info(), w.coins[1].info()];
    let lib = |v: [u64; 2]| pour::<L, _, _, P0, P1, C>(&w, &i[0], &i[1], v, recv, seed);
    let ver = |t: &SignedTx<P0, P1, C>| verdict::<L, _, _, P0, P1, C>(t, DOMAIN, &w.tree, w.p, &w.sp);
    let hp = |r: Result<SignedTx<P0, P1, C>, String>| r.map_err(|e| Fail { sig: String::new(), msg: format!("honest pour not provable: {}", e) });
    let t = hp(lib(v))?;
    let h = ver(&t);
    ensure!(h.is_ok(), "honest balanced pour rejected: {:?}", h);
    s.note(format!("L={} height={} leaves={} values {:?} -> {:?}", L, w.height, w.set.len(), vin, v));
    s.nontrivial_by_choices();
    for _ in 0..8 {
        let what: String;
        let r: Result<(), String> = match s.below(6) {
            0 => {
            // another tree
                        let mut set = w.set.clone();
            let delta = w.p.even_parameters.delta;
            let (tree, d) = match s.below(4) {
                0 => { let j = s.usize(set.len()); set[j] = gen_leaf::<P0>(s, &set, &delta); if set == w.set { continue; } (CurveTree::<L, 1, P0, P1>::from_set(&set, w.p, Some(w.height)), "one leaf replaced") }
                1 => { (CurveTree::<L, 1, P0, P1>::from_set(&set, w.p, Some(w.height + 1)), "a level added") }
                2 => { (CurveTree::<L, 1, P0, P1>::from_set(&set, w.p, Some(w.height + 2)), "two levels added") }
                _ => { let a = s.usize(set.len()); let b = s.usize(set.len()); set.swap(a, b); if set == w.set { continue; } (CurveTree::<L, 1, P0, P1>::from_set(&set, w.p, Some(w.height)), "leaves swapped") }
            };
            what = format!("other tree: {}", d);
            verdict::<L, _, _, P0, P1, C>(&t, DOMAIN, &tree, w.p, &w.sp)
        }
            1 => {
            // other parameters
                        match s.below(3) {
                0 => { what = "other domain".into(); verdict::<L, _, _, P0, P1, C>(&t, b"vh other domain", &w.tree, w.p, &w.sp) }
                1 => { what = "other signature parameters".into(); let sp = gen_sp::<C>(s); verdict::<L, _, _, P0, P1, C>(&t, DOMAIN, &w.tree, w.p, &sp) }
                _ => {
                    what = "other commitment bases".into();
                    let mut pc = bulletproofs::PedersenGens { B: w.p.even_parameters.pc_gens.B, B_blinding: w.p.even_parameters.pc_gens.B_blinding };
                    if s.bool() { pc.B_blinding = rand_point(s); } else { pc.B = rand_point(s); }
                    match guarded(|| t.clone().verification_gadget::<L>(DOMAIN, w.p, &w.tree, &w.sp)) {
                        Ok((e, _)) => batch_verify(vec![e], &pc, &w.p.even_parameters.bp_gens).map_err(|e| format!("{:?}", e)),
                        Err(e) => Err(e),
                    }
                }
            }
        }
            _ => {
            // contents exchanged after the fact; both owners sign the result
                        let mut q = parse_pour::<L, _, _, P0, P1, C>(&t.pour_bytes).unwrap();
            let p = q.clone();
            let mut swapped = false;
            let d = match s.below(12) {
                0 => { q.minted_coin_commitment_0 = p.minted_coin_commitment_1; q.minted_coin_commitment_1 = p.minted_coin_commitment_0; "outputs exchanged" }
                1 => { q.minted_coin_commitment_0 = (p.minted_coin_commitment_0.into_group() + Affine::<P0>::generator()).into_affine(); "output 0 altered" }
                2 => { q.minted_coin_commitment_1 = (p.minted_coin_commitment_1 + w.p.even_parameters.bp_gens.share(0).G(1).next().copied().unwrap()).into_affine(); "output 1 increased" }
                3 => { q.randomized_path_0 = p.randomized_path_1.clone(); q.randomized_path_1 = p.randomized_path_0.clone(); "paths exchanged" }
                4 => { q.randomized_path_1 = p.randomized_path_0.clone(); "path 1 is path 0" }
                5 => { q.pk0 = p.pk1; q.pk1 = p.pk0; swapped = true; if p.pk0 == p.pk1 { continue; } "keys exchanged" }
                6 => { q.randomized_path_0 = p.randomized_path_1.clone(); q.randomized_path_1 = p.randomized_path_0.clone(); q.pk0 = p.pk1; q.pk1 = p.pk0; swapped = true; "inputs exchanged" }
                7 => { let l = q.randomized_path_0.selected_commitment; q.randomized_path_0.selected_commitment = (l + w.p.even_parameters.pc_gens.B_blinding).into_affine(); "leaf of path 0 rerandomized" }
                8 => { q.randomized_path_1.selected_commitment = -p.randomized_path_1.selected_commitment; "leaf of path 1 negated" }
                9 => { let k = q.randomized_path_0.odd_commitments.len(); if k == 0 { continue; } let j = s.usize(k); let x = q.randomized_path_0.odd_commitments[j]; q.randomized_path_0.odd_commitments[j] = if s.bool() { -x } else { Affine::<P1>::generator() }; "node of path 0 altered" }
                10 => { let k = q.randomized_path_1.even_commitments.len(); if k == 0 { continue; } let j = s.usize(k); let x = q.randomized_path_1.even_commitments[j]; q.randomized_path_1.even_commitments[j] = if s.bool() { -x } else { Affine::<P0>::generator() }; "node of path 1 altered" }
                _ => {
                    // proofs of another run
                    let t2 = hp(lib(v ))?;
                    let p2 = parse_pour::<L, _, _, P0, P1, C>(&t2.pour_bytes).unwrap();
                    if s.bool() { q.even_proof = p2.even_proof; } else { q.odd_proof = p2.odd_proof; }
                    "proof of another run"
                }
            };
            // what is the root cannot be altered: the verifier overwrites it
            if bytes(&q) == bytes(&p) { continue; }
            let touches_root = {
                let strip = |x: &Pour<L, P0, P1, C>| -> Vec<u8> {
                    let mut y = x.clone();
                    w.tree.select_and_rerandomize_verification_commitments(&mut y.randomized_path_0);
                    w.tree.select_and_rerandomize_verification_commitments(&mut y.randomized_path_1);
                    bytes(&y)
                };
                matches!(guarded(|| strip(&q) == strip(&p)), Ok(true))
            };
            if touches_root { continue; }
            what = d.into();
            let b = bytes(&q);
            let (x, y) = if swapped { (&w.coins[1], &w.coins[0]) } else { (&w.coins[0], &w.coins[1]) };
            let s0 = sign::<C>(&w.sp, x.key.sk, &x.pk_randomness, &b, seed);
            let s1 = sign::<C>(&w.sp, y.key.sk, &y.pk_randomness, &b, seed ^ 5);
            ver(&tx_of::<_, _, P0, P1, C>(&RawTx { sig: [s0[0], s0[1], s1[0], s1[1]], pour: b }, &t))
        }
        };
        s.label(what.clone());
        ensure!(r.is_err(), "accepted although: {}", what);
    }
    Ok(())
} }

cfn! { fn c21_false[L](s: &mut Src) -> Res { c21_falsify::<L, _, _, P0, P1, C>(s, false) } }
cfn! { fn c21_omitted[L](s: &mut Src) -> Res { c21_falsify::<L, _, _, P0, P1, C>(s, true) } }
cfn! {
/// `omitting`: our own prover, leaving a part of the circuits out.
fn c21_falsify[L](s: &mut Src, omitting: bool) -> Res {
    let (vin, mut v) = gen_balanced(s);
    let w = gen_world::<L, _, _, P0, P1, C>(s, &vin, LARGE, height_limit(L));
    let recv = [gen_key::<C>(s, &w.sp).pk, gen_key::<C>(s, &w.sp).pk];
    let seed = s.u64();
    let kind = if omitting { 4 } else { s.below(8) };
    let total = vin[0] as u128 + vin[1] as u128;
    let i = [w.coins[0].info(), w.coins[1].info()];
    let lib = |v: [u64; 2]| pour::<L, _, _, P0, P1, C>(&w, &i[0], &i[1], v, recv, seed);
    let ver = |t: &SignedTx<P0, P1, C>| verdict::<L, _, _, P0, P1, C>(t, DOMAIN, &w.tree, w.p, &w.sp);
    let mut what = String::new();
    let r: Result<(), String> = match kind {
        0..=3 => {
            let k = s.usize(2);
            let nv = match s.below(4) {
                // the same sum modulo 2^64
                0 if total > u64::MAX as u128 => { let t = (total - (1u128 << 64)) as u64; v[1 - k] = if t == 0 { 0 } else { s.u64() % (t + 1).max(1) }; t - v[1 - k] }
                1 => neighbour(s, v[k]),
                2 => v[k].wrapping_add(1),
                _ => { // double one input / drop one
                    let d = if s.bool() { vin[0] } else { vin[1] };
                    v[k].wrapping_add(d.max(1))
                }
            };
            v[k] = nv;
            if v[0] as u128 + v[1] as u128 == total { return Ok(()); }
            what = format!("imbalance {:?} -> {:?}", vin, v);
            s.label("imbalance");
            match lib(v) { Ok(t) => ver(&t), Err(e) => Err(e) }
        }
        _ => {
            // our own prover, deviating in one place
            s.label("own prover");
            let mk = |c: &Owned<P0, C>| -> Spend<L, P0, P1, C> {
                Spend { path: w.tree.select_and_rerandomize_prover_witness(c.index, 0, w.p), opening: [F0::from(c.value), c.tag], blinding: c.blinding, rpk: c.rpk, key_sk: c.key.sk, pk_randomness: c.pk_randomness, tag: c.tag }
            };
            let mut sp = [mk(&w.coins[0]), mk(&w.coins[1])];
            let tags = [tag_of::<F0, C>(&recv[0]), tag_of::<F0, C>(&recv[1])];
            let bls = [rand_field::<F0>(s), rand_field::<F0>(s)];
            let mut mi = [Mint { opening: [F0::from(v[0]), tags[0]], blinding: bls[0], bits: v[0] }, Mint { opening: [F0::from(v[1]), tags[1]], blinding: bls[1], bits: v[1] }];
            let k = s.usize(2);
            let mut omit = vh::coin::Omit::default();
            // calibration: undeviating, this prover must be believed
            if s.chance(1, if omitting { 8 } else { 4 }) {
                let t = own_pour::<L, _, _, P0, P1, C>(&w, &mi, &sp, omit, seed);
                match t { Ok(t) if ver(&t).is_ok() => s.label("own prover calibrated"), _ => { s.label("own prover not understood"); return Ok(()); } }
            }
            let big = F0::from(2u64).pow([64]);
            match if omitting { 8 + s.below(8) } else { s.below(8) } {
                8..=10 => {
                    // no bits for one output or both: a value out of range, balanced in the field
                    omit.range[k] = true;
                    if s.chance(1, 4) { omit.range[1 - k] = true; }
                    let tot = F0::from(vin[0]) + F0::from(vin[1]);
                    let d = F0::from(1 + s.below(1000));
                    mi[k].opening[0] = match s.below(3) { 0 => -d, 1 => tot - F0::from(u64::MAX), _ => big + d };
                    if as_u64(&mi[k].opening[0]).is_some() { mi[k].opening[0] = -d; }
                    mi[1 - k].opening[0] = tot - mi[k].opening[0];
                    mi[1 - k].bits = as_u64(&mi[1 - k].opening[0]).unwrap_or(0);
                    if as_u64(&mi[1 - k].opening[0]).is_none() && s.chance(3, 4) { omit.range[1 - k] = true; }
                    what = format!("an output out of range, {:?} left out", omit);
                }
                11 => {
                    omit.balance = true;
                    let nv = v[k].wrapping_add(1 + s.u64() % 1000);
                    mi[k].opening[0] = F0::from(nv);
                    mi[k].bits = nv;
                    what = "no balance, constraint left out".into();
                }
                12 => {
                    // someone else's coin, the constraint on the tag left out
                    let key = gen_key::<C>(s, &w.sp);
                    if key.pk == w.coins[k].key.pk { return Ok(()); }
                    let r = rand_field::<C::ScalarField>(s);
                    sp[k].rpk = Coin::<P0, C>::rerandomized_pk(&key.pk, &r, &w.sp);
                    sp[k].key_sk = key.sk;
                    sp[k].pk_randomness = r;
                    omit.tag[k] = true;
                    what = "someone else's coin under one's own key, constraint left out".into();
                }
                13..=15 => {
                    // a coin nobody put into the tree, the membership relation left out in one or both circuits
                    let key = w.coins[k].key.clone();
                    let nv = if s.bool() { w.coins[k].value } else { gen_value(s) };
                    let c = new_coin::<_, _, P0, P1, C>(s, &key, nv, &w.sp, w.p);
                    let mut path = sp[k].path.clone();
                    let up = s.usize(w.height);
                    tamper::<L, _, _, P0, P1>(&mut path, 0, up, None, c.commitment, w.p);
                    sp[k] = Spend { path, opening: [F0::from(c.value), c.tag], blinding: c.blinding, rpk: c.rpk, key_sk: c.key.sk, pk_randomness: c.pk_randomness, tag: c.tag };
                    let t = c.value as u128 + w.coins[1 - k].value as u128;
                    let a = t.min(u64::MAX as u128);
                    for (j, x) in [a, t - a].iter().enumerate() { mi[j].opening[0] = F0::from(*x); mi[j].bits = *x as u64; }
                    match s.below(3) { 0 => omit.even[k] = true, 1 => omit.odd[k] = true, _ => { omit.even[k] = true; omit.odd[k] = true; } }
                    what = format!("a coin outside the tree (witness consistent for {} levels), {:?} left out", up, omit);
                }
                0 => {
                    // value wrapping around the field: one output negative, the other larger
                    let d = F0::from(vin[0]) + F0::from(vin[1]) + F0::from(1u64);
                    mi[k].opening[0] = -F0::from(1u64);
                    mi[1 - k].opening[0] = d;
                    mi[k].bits = u64::MAX;
                    mi[1 - k].bits = as_u64(&d).unwrap_or(0);
                    what = "an output of -1".into();
                }
                1 => {
                    mi[k].opening[0] += big;
                    what = "an output increased by 2^64, balance broken".into();
                }
                2 => {
                    mi[k].opening[0] += big;
                    mi[1 - k].opening[0] -= big;
                    what = "outputs moved by 2^64 each".into();
                }
                3 => {
                    // claim more than the coin holds under the leaf's commitment
                    sp[k].opening[0] += F0::from(1u64 + s.below(1000));
                    mi[0].opening[0] = sp[0].opening[0] + sp[1].opening[0] - mi[1].opening[0];
                    mi[0].bits = as_u64(&mi[0].opening[0]).unwrap_or(0);
                    what = "a larger input value under the leaf".into();
                }
                4 => {
                    // a coin nobody put into the tree
                    let nv = gen_value(s);
                    let key = w.coins[k].key.clone();
                    let c = new_coin::<_, _, P0, P1, C>(s, &key, nv, &w.sp, w.p);
                    let mut path = sp[k].path.clone();
                    let up = s.usize(w.height);
                    tamper::<L, _, _, P0, P1>(&mut path, 0, up, None, c.commitment, w.p);
                    sp[k] = Spend { path, opening: [F0::from(c.value), c.tag], blinding: c.blinding, rpk: c.rpk, key_sk: c.key.sk, pk_randomness: c.pk_randomness, tag: c.tag };
                    let t = c.value as u128 + w.coins[1 - k].value as u128;
                    let a = t.min(u64::MAX as u128);
                    for (j, x) in [a, t - a].iter().enumerate() { mi[j].opening[0] = F0::from(*x); mi[j].bits = *x as u64; }
                    what = format!("a coin outside the tree (witness consistent for {} levels)", up);
                }
                5 => {
                    // someone else's coin under one's own key: the prover omits/changes the tag
                    let key = gen_key::<C>(s, &w.sp);
                    if key.pk == w.coins[k].key.pk { return Ok(()); }
                    let r = rand_field::<C::ScalarField>(s);
                    sp[k].rpk = Coin::<P0, C>::rerandomized_pk(&key.pk, &r, &w.sp);
                    sp[k].key_sk = key.sk;
                    sp[k].pk_randomness = r;
                    if s.bool() { sp[k].tag = tag_of::<F0, C>(&sp[k].rpk); }
                    if s.bool() { sp[k].opening[1] = tag_of::<F0, C>(&sp[k].rpk); }
                    what = "someone else's coin under one's own key".into();
                }
                6 => {
                    mi[k].opening[0] += F0::from(1u64);
                    mi[k].bits = mi[k].bits.wrapping_add(1);
                    what = "one more minted than spent".into();
                }
                _ => {
                    // value bits of another number
                    mi[k].opening[0] += F0::from(1u64);
                    what = "one more minted than its bits".into();
                }
            }
            match own_pour::<L, _, _, P0, P1, C>(&w, &mi, &sp, omit, seed) { Ok(t) => ver(&t), Err(e) => Err(e) }
        }
    };
    s.note(format!("L={} height={} leaves={} values {:?} -> {:?}: {}", L, w.height, w.set.len(), vin, v, what));
    s.nontrivial_by_choices();
    ensure!(r.is_err(), "accepted although: {}", what);
    Ok(())
} }

// ---------------------------------------------------------------- C22
cfn! {
/// Signatures over arbitrary payloads.
fn c22_sigs[](s: &mut Src) -> Res {
    let sp = gen_sp::<C>(s);
    let same = s.chance(1, 4);
    let k0 = gen_key::<C>(s, &sp);
    let k1 = if same { k0.clone() } else { gen_key::<C>(s, &sp) };
    let r = [rand_field::<C::ScalarField>(s), if s.chance(1, 6) { C::ScalarField::zero() } else { rand_field(s) }];
    let pk = [Coin::<P0, C>::rerandomized_pk(&k0.pk, &r[0], &sp), Coin::<P0, C>::rerandomized_pk(&k1.pk, &r[1], &sp)];
    let pk = if same && s.bool() { [pk[0]; 2] } else { pk };
    let r = if pk[0] == pk[1] { [r[0]; 2] } else { r };
    let n = match s.below(8) { 0 | 1 => s.usize(3), 2 => 64, 3 => 1 << s.range(4, 13), 4 => s.usize(9000), _ => s.usize(200) };
    let msg: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
    let seed = s.u64();
    let g0 = sign::<C>(&sp, k0.sk, &r[0], &msg, seed);
    let g1 = sign::<C>(&sp, k1.sk, &r[1], &msg, seed ^ 77);
    let t0 = empty_tx::<_, _, P0, P1, C>();
    let raw = RawTx { sig: [g0[0], g0[1], g1[0], g1[1]], pour: msg.clone() };
    let check = |raw: &RawTx<C>, sp: &Sp<C>, a: &C::Affine, b: &C::Affine| -> bool {
        guarded(|| tx_of::<_, _, P0, P1, C>(raw, &t0).verify_signatures(sp, a, b)).is_ok()
    };
    s.nontrivial_by_choices();
    ensure!(check(&raw, &sp, &pk[0], &pk[1]), "honest signatures rejected");
    let mut a = raw.clone();
    let mut apk = pk;
    let mut asp = sp.clone();
    let what = match s.below(19) {
        16..=18 => {
            // one of the two owners signs other data, the other's signature is the old one
            let k = s.usize(2);
            let at = match s.below(4) { 0 => 0, 1 | 2 => n.saturating_sub(1), _ => s.usize(n.max(1)) };
            match s.below(4) {
                0 if n > 0 => { a.pour.truncate(at); }
                1 => a.pour.extend((0..=s.below(200)).map(|_| 7u8)),
                _ if n > 0 => a.pour[at] ^= 1 << s.below(8),
                _ => a.pour.push(0),
            }
            let g = sign::<C>(&sp, [&k0, &k1][k].sk, &r[k], &a.pour, seed ^ 5);
            a.sig[2 * k] = g[0]; a.sig[2 * k + 1] = g[1];
            format!("other data signed by owner {} only", k)
        }
        0 => { let k = s.usize(4); a.sig[k] += C::ScalarField::from(1u64); format!("scalar {} plus 1", k) }
        1 => { let k = s.usize(4); a.sig[k] = rand_field(s); format!("scalar {} random", k) }
        2 => { let k = s.usize(4); if a.sig[k].is_zero() { return Ok(()); } a.sig[k] = -a.sig[k]; format!("scalar {} negated", k) }
        3 => { let k = s.usize(4); a.sig[k] = C::ScalarField::zero(); format!("scalar {} zero", k) }
        4 => { let k = s.usize(2); a.sig[2 * k] = C::ScalarField::zero(); a.sig[2 * k + 1] = C::ScalarField::zero(); format!("signature {} zero", k) }
        5 => { if pk[0] == pk[1] { return Ok(()); } a.sig.swap(0, 2); a.sig.swap(1, 3); "signatures exchanged".into() }
        6 => { if pk[0] == pk[1] { return Ok(()); } let k = s.usize(2); let (f, t) = (2 * k, 2 - 2 * k); a.sig[t] = raw.sig[f]; a.sig[t + 1] = raw.sig[f + 1]; format!("signature {} used twice", k) }
        7 => { if n == 0 { return Ok(()); } let j = s.usize(n); a.pour[j] ^= 1 << s.below(8); "payload bit flipped".into() }
        8 => { a.pour.push(s.below(2) as u8); "payload extended".into() }
        9 => { if n == 0 { return Ok(()); } a.pour.pop(); "payload shortened".into() }
        10 => { let k = s.usize(2); apk[k] = gen_key::<C>(s, &sp).pk; if apk[k] == pk[k] { return Ok(()); } format!("key {} replaced", k) }
        11 => { if pk[0] == pk[1] { return Ok(()); } apk.swap(0, 1); "keys exchanged".into() }
        12 => {
            // valid signature by someone else
            let k = s.usize(2);
            let o = gen_key::<C>(s, &sp);
            if o.pk == [&k0, &k1][k].pk { return Ok(()); }
            let g = sign::<C>(&sp, o.sk, &r[k], &msg, seed ^ 3);
            a.sig[2 * k] = g[0]; a.sig[2 * k + 1] = g[1];
            format!("signature {} by another key", k)
        }
        13 => {
            // the owner's signature, not adapted to the rerandomized key / adapted to another one
            let k = s.usize(2);
            let o = C::ScalarField::from(s.below(2));
            if Coin::<P0, C>::rerandomized_pk(&[&k0, &k1][k].pk, &o, &sp) == pk[k] { return Ok(()); }
            let g = sign::<C>(&sp, [&k0, &k1][k].sk, &o, &msg, seed ^ 4);
            a.sig[2 * k] = g[0]; a.sig[2 * k + 1] = g[1];
            format!("signature {} for another rerandomization", k)
        }
        14 => {
            // the owner's signature on another payload
            let k = s.usize(2);
            let mut m = msg.clone();
            m.push(0);
            let g = sign::<C>(&sp, [&k0, &k1][k].sk, &r[k], &m, seed ^ 4);
            a.sig[2 * k] = g[0]; a.sig[2 * k + 1] = g[1];
            format!("signature {} on another payload", k)
        }
        _ => { asp = gen_sp::<C>(s); if s.bool() { asp.generator = sp.generator; "other salt".into() } else { asp.salt = sp.salt; "other generator".into() } }
    };
    s.label(what.trim_matches(|c: char| c.is_numeric()).to_string());
    s.note(format!("payload of {} bytes: {}", n, what));
    ensure!(!check(&a, &asp, &apk[0], &apk[1]), "verify_signatures passed although: {}", what);
    Ok(())
} }

cfn! {
/// Whole transactions altered after signing.
fn c22_tx[L](s: &mut Src) -> Res {
    let (vin, v) = gen_balanced(s);
    let w = gen_world::<L, _, _, P0, P1, C>(s, &vin, LARGE, height_limit(L).min(2));
    let recv = [gen_key::<C>(s, &w.sp).pk, gen_key::<C>(s, &w.sp).pk];
    let seed = s.u64();
    let hp = |r: Result<SignedTx<P0, P1, C>, String>| r.map_err(|e| Fail { sig: String::new(), msg: format!("honest pour not provable: {}", e) });
    let t = hp(pour::<L, _, _, P0, P1, C>(&w, &w.coins[0].info(), &w.coins[1].info(), v, recv, seed))?;
    let ver = |t: &SignedTx<P0, P1, C>| verdict::<L, _, _, P0, P1, C>(t, DOMAIN, &w.tree, w.p, &w.sp);
    let h = ver(&t);
    ensure!(h.is_ok(), "honestly signed transaction rejected: {:?}", h);
    let raw = raw_of::<_, _, P0, P1, C>(&t);
    let second = hp(pour::<L, _, _, P0, P1, C>(&w, &w.coins[0].info(), &w.coins[1].info(), v, recv, seed ^ 0xabc))?;
    let raw2 = raw_of::<_, _, P0, P1, C>(&second);
    s.note(format!("L={} height={} leaves={}", L, w.height, w.set.len()));
    s.nontrivial_by_choices();
    for _ in 0..10 {
        let mut a = raw.clone();
        let n = a.pour.len();
        let what = match s.below(14) {
            11 | 12 => {
                // one owner agrees to another transaction of the same coins
                let k = s.usize(2);
                a.pour = raw2.pour.clone();
                let g = sign::<C>(&w.sp, w.coins[k].key.sk, &w.coins[k].pk_randomness, &a.pour, seed ^ 9);
                a.sig[2 * k] = g[0]; a.sig[2 * k + 1] = g[1];
                format!("another transaction signed by owner {} only", k)
            }
            0 => { let k = s.usize(4); a.sig[k] += C::ScalarField::from(1u64); format!("scalar {} plus 1", k) }
            1 => { a.sig.swap(0, 2); a.sig.swap(1, 3); "signatures exchanged".into() }
            2 => { let k = s.usize(2); a.sig[2 * k] = raw2.sig[2 * k]; a.sig[2 * k + 1] = raw2.sig[2 * k + 1]; format!("signature {} of another transaction", k) }
            3 => { a.sig = raw2.sig; "both signatures of another transaction".into() }
            4 => { a.pour = raw2.pour.clone(); "payload of another transaction".into() }
            5 => { let j = s.usize(n); a.pour[j] ^= 1 << s.below(8); "payload bit flipped".into() }
            6 => { a.pour.push(0); "payload extended".into() }
            7 => { a.pour.truncate(n - 1); "payload shortened".into() }
            8 => {
                // parts exchanged with another valid transaction, signatures kept
                let mut q = parse_pour::<L, _, _, P0, P1, C>(&raw.pour).unwrap();
                let p2 = parse_pour::<L, _, _, P0, P1, C>(&raw2.pour).unwrap();
                match s.below(6) {
                    0 => q.even_proof = p2.even_proof,
                    1 => q.odd_proof = p2.odd_proof,
                    2 => q.minted_coin_commitment_0 = p2.minted_coin_commitment_0,
                    3 => q.minted_coin_commitment_1 = p2.minted_coin_commitment_1,
                    4 => q.randomized_path_0 = p2.randomized_path_0,
                    _ => q.randomized_path_1 = p2.randomized_path_1,
                }
                a.pour = bytes(&q);
                "part of another transaction".into()
            }
            9 => {
                // redirect the outputs: a fresh valid pour under the old signatures, keys replaced by the thief's
                let thief = gen_key::<C>(s, &w.sp);
                let k = s.usize(2);
                let r = rand_field::<C::ScalarField>(s);
                let g = sign::<C>(&w.sp, thief.sk, &r, &a.pour, seed);
                a.sig[2 * k] = g[0]; a.sig[2 * k + 1] = g[1];
                format!("signature {} by a thief", k)
            }
            10 => {
                // key in the payload replaced by the thief's, who signs
                let thief = gen_key::<C>(s, &w.sp);
                let k = s.usize(2);
                let r = rand_field::<C::ScalarField>(s);
                let mut q = parse_pour::<L, _, _, P0, P1, C>(&raw.pour).unwrap();
                let tpk = Coin::<P0, C>::rerandomized_pk(&thief.pk, &r, &w.sp);
                if k == 0 { q.pk0 = tpk } else { q.pk1 = tpk }
                let b = bytes(&q);
                let g = [sign::<C>(&w.sp, thief.sk, &r, &b, seed), sign::<C>(&w.sp, w.coins[1 - k].key.sk, &w.coins[1 - k].pk_randomness, &b, seed)];
                a.sig[2 * k] = g[0][0]; a.sig[2 * k + 1] = g[0][1];
                a.sig[2 - 2 * k] = g[1][0]; a.sig[3 - 2 * k] = g[1][1];
                a.pour = b;
                format!("key {} replaced by a thief's, who signs", k)
            }
            _ => { let k = s.usize(2); a.sig[2 * k] = rand_field(s); a.sig[2 * k + 1] = rand_field(s); format!("signature {} random", k) }
        };
        if a.pour == raw.pour && a.sig == raw.sig { continue; }
        s.label(what.replace(|c: char| c.is_numeric(), "k"));
        let r = ver(&tx_of::<_, _, P0, P1, C>(&a, &t));
        ensure!(r.is_err(), "transaction accepted although: {}", what);
    }
    Ok(())
} }


// ---------------------------------------------------------------- C06
/// Reads an encoding primitive by primitive, independently of the library's own decoders.
struct Walk<'a> { rd: &'a [u8], mode: Compress, canonical: bool }
impl<'a> Walk<'a> {
    fn new(b: &'a [u8], mode: Compress) -> Self { Walk { rd: b, mode, canonical: true } }
    fn prim<T: CanonicalSerialize + CanonicalDeserialize>(&mut self) -> Option<T> {
        let before = self.rd;
        let v = T::deserialize_with_mode(&mut self.rd, self.mode, Validate::Yes).ok()?;
        let used = before.len() - self.rd.len();
        let mut b = vec![];
        v.serialize_with_mode(&mut b, self.mode).unwrap();
        if b != before[..used] { self.canonical = false; }
        Some(v)
    }
    fn many<T: CanonicalSerialize + CanonicalDeserialize>(&mut self) -> Option<Vec<T>> {
        let n: u64 = self.prim()?;
        if n > 10000 { return None; }
        (0..n).map(|_| self.prim()).collect()
    }
    fn proof<C: AffineRepr>(&mut self) -> Option<vh::mirror::PM<C>> {
        let p1 = [self.prim()?, self.prim()?, self.prim()?];
        let flag: u8 = self.prim()?;
        let p2 = if flag != 0 { [self.prim()?, self.prim()?, self.prim()?] } else { [C::zero(); 3] };
        let t = self.many()?;
        let s = [self.prim()?, self.prim()?, self.prim()?];
        Some(vh::mirror::PM { p1, flag, p2, t, s, l: self.many()?, r: self.many()?, a: self.prim()?, b: self.prim()? })
    }
    fn path<A: AffineRepr, B: AffineRepr>(&mut self) -> Option<(A, Vec<B>, Vec<A>)> { Some((self.prim()?, self.many()?, self.many()?)) }
    fn pour<A: AffineRepr, B: AffineRepr, G: AffineRepr>(&mut self) -> Option<()> {
        self.proof::<A>()?; self.proof::<B>()?; self.path::<A, B>()?; self.path::<A, B>()?;
        self.prim::<G>()?; self.prim::<G>()?; self.prim::<A>()?; self.prim::<A>()?;
        Some(())
    }
    fn tx<S: PrimeField>(&mut self) -> Option<Vec<u8>> {
        for _ in 0..4 { self.prim::<S>()?; }
        self.many()
    }
}

fn enc<T: CanonicalSerialize>(t: &T, mode: Compress) -> Vec<u8> {
    let mut b = vec![];
    t.serialize_with_mode(&mut b, mode).unwrap();
    b
}
fn mode_of(s: &mut Src) -> Compress { if s.bool() { Compress::No } else { Compress::Yes } }

/// Round trip of one object in one mode; returns the encoding and the decoded object.
fn round_trip<T: CanonicalSerialize + CanonicalDeserialize>(s: &mut Src, what: &str, x: &T, mode: Compress) -> Result<(Vec<u8>, T), Fail> {
    let f = |msg: String| Err(Fail { sig: String::new(), msg: format!("{}: {}", what, msg) });
    let b = match guarded(|| enc(x, mode)) { Ok(b) => b, Err(e) => return f(format!("encoding panicked: {}", e)) };
    if x.serialized_size(mode) != b.len() { return f(format!("announced size {} but {} bytes are written", x.serialized_size(mode), b.len())); }
    if enc(x, mode) != b { return f("encoding is not deterministic".into()); }
    for val in [Validate::Yes, Validate::No] {
        let mut rd = b.as_slice();
        let y = match guarded(|| T::deserialize_with_mode(&mut rd, mode, val)) { Ok(Ok(y)) => y, e => return f(format!("own encoding does not decode: {:?}", e.map(|r| r.err()))) };
        if !rd.is_empty() { return f(format!("decoding leaves {} bytes", rd.len())); }
        for m in [Compress::Yes, Compress::No] {
            if enc(&y, m) != enc(x, m) { return f("decoded object differs from the encoded one".into()); }
        }
    }
    // within a stream
    let mut two = b.clone();
    let tail: Vec<u8> = (0..s.below(40)).map(|_| s.below(256) as u8).collect();
    two.extend(&tail);
    let mut rd = two.as_slice();
    let y = match T::deserialize_with_mode(&mut rd, mode, Validate::Yes) { Ok(y) => y, Err(_) => return f("does not decode when followed by other data".into()) };
    if rd != tail.as_slice() { return f("decoding consumes a different number of bytes than were written".into()); }
    // prefixes
    let step = 1 + b.len() / 60;
    let off = s.usize(step);
    for n in (off..b.len()).step_by(step).chain([b.len() - 1]) {
        match guarded(|| T::deserialize_with_mode(&b[..n], mode, Validate::Yes).is_ok()) {
            Ok(false) => {}
            Ok(true) => return f(format!("a proper prefix ({} of {} bytes) decodes", n, b.len())),
            Err(e) => return f(format!("decoding a prefix panicked: {}", e)),
        }
    }
    Ok((b, y))
}

/// Altered encodings: whatever decodes re-encodes to what was consumed.
fn mutated<T: CanonicalSerialize + CanonicalDeserialize>(s: &mut Src, what: &str, b: &[u8], mode: Compress, n: usize, walk: &dyn Fn(&[u8]) -> Option<(usize, bool)>) -> Res {
    for _ in 0..n {
        let mut m = b.to_vec();
        for _ in 0..(1 + s.below(2)) {
            if m.is_empty() { break; }
            let j = s.usize(m.len());
            // small bytes are flags and lengths
            let small: Vec<usize> = (0..m.len()).filter(|i| m[*i] < 8).collect();
            match s.below(10) {
                0 => m[j] ^= 1 << s.below(8),
                1 => m[j] = s.below(256) as u8,
                2 | 3 if !small.is_empty() => { let k = *s.pick(&small); m[k] = s.below(4) as u8; }
                4 => { m.insert(j, s.below(2) as u8); }
                5 => { m.remove(j); }
                6 => { let k = s.usize(m.len()); let l = (1 + s.usize(33)).min(m.len() - j.max(k)); for q in 0..l { m[j + q] = b.get(k + q).copied().unwrap_or(0); } }
                7 => { let l = 1 + s.usize(m.len()); m.truncate(l); }
                8 => { m.extend((0..s.below(40)).map(|_| 0u8)); }
                _ => { let l = 33.min(m.len() - j); for q in 0..l { m[j + q] = if q + 1 == l { 0x40 } else { 0 }; } }
            }
        }
        let mut rd = m.as_slice();
        match guarded(|| T::deserialize_with_mode(&mut rd, mode, Validate::Yes)) {
            Err(e) => return fail(format!("{}: decoding altered bytes panicked: {}", what, e)),
            Ok(Err(_)) => s.label("refused"),
            Ok(Ok(y)) => {
                let used = m.len() - rd.len();
                let e = match guarded(|| enc(&y, mode)) { Ok(e) => e, Err(e) => return fail(format!("{}: re-encoding panicked: {}", what, e)) };
                s.label("decoded");
                if e != m[..used] {
                    match walk(&m[..used]) {
                        // a primitive of the curve library has several encodings
                        Some((n, false)) if n == used => s.label("library alternative"),
                        _ => return fail(format!("{}: {} altered bytes decode to an object with another encoding", what, used)),
                    }
                }
            }
        }
    }
    Ok(())
}

fn c06_proof_<C: AffineRepr>(s: &mut Src) -> Res where C::ScalarField: PrimeField {
    let p = gen_prog::<C::ScalarField>(s, vh::prog::SMALL);
    let bp = bp_gens::<C>(128);
    s.note(vh::prog::describe(&p));
    s.nontrivial_by_choices();
    let (comms, proof) = vh::prog::honest::<C>(&p, b"c06", bp)?;
    s.label(if p.blocks.is_empty() { "one phase" } else { "two phases" });
    for mode in [Compress::Yes, Compress::No] {
        let (b, y) = round_trip(s, "proof", &proof, mode)?;
        ensure!(format!("{:?}", y) == format!("{:?}", proof), "decoded proof has other contents");
        let v = vh::prog::verify::<C>(&p, b"c06", &comms, &y, pc_gens::<C>(), bp);
        ensure!(v.is_ok(), "decoded proof is rejected: {:?}", v);
        // other values of the phase flag, with and without points after it
        let at = 3 * C::generator().serialized_size(mode);
        let three: Vec<u8> = (0..3).flat_map(|_| enc(&any_point::<C>(s), mode)).collect();
        let mut flags = vec![0, 1, 2, 3, 0x7f, 0x80, 0xff];
        for _ in 0..4 { flags.push(s.below(256) as u8); }
        for flag in flags.into_iter().filter(|f| *f != b[at]) {
            for with in [0, 1, 2] {
                let mut m = b.clone();
                m[at] = flag;
                match with { 0 => {} 1 => { m.splice(at + 1..at + 1, three.clone()); } _ => { m.splice(at + 1..at + 1, [0; 3].iter().flat_map(|_| enc(&C::zero(), mode)).collect::<Vec<u8>>()); } }
                if let Ok(Ok(y)) = guarded(|| R1CSProof::<C>::deserialize_with_mode(m.as_slice(), mode, Validate::Yes)) {
                    ensure!(m.starts_with(&enc(&y, mode)), "a proof with the phase flag {} decodes to one with another encoding", flag);
                }
            }
        }
        mutated::<R1CSProof<C>>(s, "proof", &b, mode, 12, &|b| { let mut w = Walk::new(b, mode); w.proof::<C>().map(|_| (b.len() - w.rd.len(), w.canonical)) })?;
    }
    // other decodable contents: some elements are zero, the vectors have other lengths
    for _ in 0..4 {
        let mut m = vh::mirror::PM::of(&proof);
        m.flag = s.below(2) as u8;
        if s.chance(1, 3) { let n = s.usize(6); m.t.resize(n, C::zero()); }
        if s.chance(1, 3) { let n = s.usize(4); m.l.resize(n, C::generator()); }
        if s.chance(1, 3) { let n = s.usize(4); m.r.resize(n, C::generator()); }
        for i in 0..m.points().len() {
            if s.bool() { *m.point_mut(i) = any_point(s); }
        }
        for i in 0..5 { if s.chance(1, 4) { *m.scalar_mut(i) = field(s); } }
        if s.chance(1, 2) { for i in 3..6 { *m.point_mut(i) = if s.bool() { C::zero() } else { any_point(s) }; } }
        let b = m.bytes();
        if let Ok(y) = R1CSProof::<C>::from_bytes(&b) {
            s.label("other contents");
            ensure!(y.to_bytes() == b, "a proof with other contents (flag {}, {:?}) is encoded as something else", m.flag, m.p2);
            // (the announced size is that of a proof with as many L as R)
            if m.l.len() == m.r.len() { for mode in [Compress::Yes, Compress::No] { round_trip(s, "proof with other contents", &y, mode)?; } }
        } else { s.label("other contents refused"); }
    }
    let b = proof.to_bytes();
    ensure!(b == enc(&proof, Compress::Yes), "to_bytes differs from the compressed encoding");
    match R1CSProof::<C>::from_bytes(&b) { Ok(y) => ensure!(format!("{:?}", y) == format!("{:?}", proof), "from_bytes(to_bytes) has other contents"), Err(e) => return fail(format!("from_bytes: {:?}", e)) }
    let n = s.usize(b.len());
    ensure!(R1CSProof::<C>::from_bytes(&b[..n]).is_err(), "from_bytes of a proper prefix succeeds");
    Ok(())
}
fn c06_proof(s: &mut Src) -> Res {
    match s.below(4) { 0 => c06_proof_::<Pal>(s), 1 => c06_proof_::<Ves>(s), 2 => c06_proof_::<SecP>(s), _ => c06_proof_::<SecQ>(s) }
}

fn any_point<C: AffineRepr>(s: &mut Src) -> C {
    match s.below(8) { 0 => C::zero(), 1 => C::generator(), 2 => (-C::generator().into_group()).into_affine(), _ => rand_point(s) }
}
fn any_points<C: AffineRepr>(s: &mut Src) -> Vec<C> { (0..s.below(5)).map(|_| any_point(s)).collect() }

cfn! { fn any_path[L](s: &mut Src) -> SelectAndRerandomizePath<L, P0, P1> {
    let _ = std::marker::PhantomData::<C>;
    SelectAndRerandomizePath { selected_commitment: any_point(s), odd_commitments: any_points(s), even_commitments: any_points(s) }
} }
fn any_proof<C: AffineRepr>(s: &mut Src) -> Result<R1CSProof<C>, Fail> where C::ScalarField: PrimeField {
    let p = gen_prog::<C::ScalarField>(s, vh::prog::Limits { max_ops: 4, max_vec: 2, max_dim: 4, blocks: 1, gates2: true });
    Ok(vh::prog::honest::<C>(&p, b"c06", bp_gens::<C>(128))?.1)
}

cfn! { fn c06_path_[L](s: &mut Src) -> Res {
    let x = any_path::<L, _, _, P0, P1, C>(s);
    s.note(format!("path of {} odd and {} even nodes", x.odd_commitments.len(), x.even_commitments.len()));
    s.nontrivial_by_choices();
    for mode in [Compress::Yes, Compress::No] {
        let (b, y) = round_trip(s, "path", &x, mode)?;
        ensure!(y.selected_commitment == x.selected_commitment && y.odd_commitments == x.odd_commitments && y.even_commitments == x.even_commitments, "decoded path has other contents");
        mutated::<SelectAndRerandomizePath<L, P0, P1>>(s, "path", &b, mode, 12, &|b| { let mut w = Walk::new(b, mode); w.path::<Affine<P0>, Affine<P1>>().map(|_| (b.len() - w.rd.len(), w.canonical)) })?;
        // another path encodes differently
        let mut z = x.clone();
        match s.below(4) {
            0 => z.selected_commitment = (x.selected_commitment + Affine::<P0>::generator()).into_affine(),
            1 => z.odd_commitments.push(Affine::<P1>::zero()),
            2 => z.even_commitments.push(Affine::<P0>::zero()),
            _ => if let Some(l) = z.odd_commitments.last_mut() { *l = (*l + Affine::<P1>::generator()).into_affine() } else { z.odd_commitments.push(any_point(s)) },
        }
        ensure!(enc(&z, mode) != b, "two different paths have the same encoding");
    }
    // multi paths can only be written
    let m = SelectAndRerandomizeMultiPath::<L, 2, P0, P1> { selected_commitments: [x.selected_commitment, any_point(s)], odd_commitments: x.odd_commitments.clone(), even_commitments: x.even_commitments.clone() };
    for mode in [Compress::Yes, Compress::No] {
        let b = enc(&m, mode);
        ensure!(m.serialized_size(mode) == b.len(), "multi path: announced size {} but {} bytes are written", m.serialized_size(mode), b.len());
        let mut z = m.clone();
        match s.below(4) {
            0 => z.selected_commitments[1] = (m.selected_commitments[1] + Affine::<P0>::generator()).into_affine(),
            1 => z.odd_commitments.push(Affine::<P1>::zero()),
            2 => z.even_commitments.push(Affine::<P0>::zero()),
            _ => z.selected_commitments[0] = (m.selected_commitments[0] + Affine::<P0>::generator()).into_affine(),
        }
        ensure!(enc(&z, mode) != b, "two different multi paths have the same encoding");
    }
    Ok(())
} }

cfn! { fn c06_pour_[L](s: &mut Src) -> Res {
    let x = Pour::<L, P0, P1, C> {
        even_proof: any_proof::<Affine<P0>>(s)?, odd_proof: any_proof::<Affine<P1>>(s)?,
        randomized_path_0: any_path::<L, _, _, P0, P1, C>(s), randomized_path_1: any_path::<L, _, _, P0, P1, C>(s),
        pk0: any_point(s), pk1: any_point(s), minted_coin_commitment_0: any_point(s), minted_coin_commitment_1: any_point(s),
    };
    s.note(format!("pour of {} bytes", enc(&x, Compress::Yes).len()));
    s.nontrivial_by_choices();
    let mode = mode_of(s);
    let (b, y) = round_trip(s, "pour", &x, mode)?;
    let same = format!("{:?}{:?}", y.even_proof, y.odd_proof) == format!("{:?}{:?}", x.even_proof, x.odd_proof)
        && y.pk0 == x.pk0 && y.pk1 == x.pk1 && y.minted_coin_commitment_0 == x.minted_coin_commitment_0 && y.minted_coin_commitment_1 == x.minted_coin_commitment_1
        && [(&y.randomized_path_0, &x.randomized_path_0), (&y.randomized_path_1, &x.randomized_path_1)].iter().all(|(a, b)| a.selected_commitment == b.selected_commitment && a.odd_commitments == b.odd_commitments && a.even_commitments == b.even_commitments);
    ensure!(same, "decoded pour has other contents");
    mutated::<Pour<L, P0, P1, C>>(s, "pour", &b, mode, 10, &|b| { let mut w = Walk::new(b, mode); w.pour::<Affine<P0>, Affine<P1>, C::Affine>().map(|_| (b.len() - w.rd.len(), w.canonical)) })?;
    // a transaction around it
    let pb = if s.chance(1, 4) { (0..s.usize(70)).map(|_| s.below(256) as u8).collect() } else { enc(&x, Compress::Yes) };
    let raw = RawTx::<C> { sig: [field(s), field(s), field(s), field(s)], pour: pb };
    let tx = tx_of::<_, _, P0, P1, C>(&raw, &empty_tx::<_, _, P0, P1, C>());
    let (b, y) = round_trip(s, "transaction", &tx, mode)?;
    let r = raw_of::<_, _, P0, P1, C>(&y);
    ensure!(r.sig == raw.sig && r.pour == raw.pour, "decoded transaction has other contents");
    mutated::<SignedTx<P0, P1, C>>(s, "transaction", &b, mode, 10, &|b| { let mut w = Walk::new(b, mode); w.tx::<C::ScalarField>().map(|_| (b.len() - w.rd.len(), w.canonical)) })?;
    Ok(())
} }

cfn! {
/// Real transactions keep their verdict through both encodings.
fn c06_real_[L](s: &mut Src) -> Res {
    let (vin, v) = gen_balanced(s);
    let w = gen_world::<L, _, _, P0, P1, C>(s, &vin, LARGE, height_limit(L).min(2));
    let recv = [gen_key::<C>(s, &w.sp).pk, gen_key::<C>(s, &w.sp).pk];
    let t = pour::<L, _, _, P0, P1, C>(&w, &w.coins[0].info(), &w.coins[1].info(), v, recv, s.u64()).map_err(|e| Fail { sig: String::new(), msg: format!("honest pour not provable: {}", e) })?;
    s.note(format!("L={} height={} leaves={}", L, w.height, w.set.len()));
    s.nontrivial_by_choices();
    let a = verdict::<L, _, _, P0, P1, C>(&t, DOMAIN, &w.tree, w.p, &w.sp);
    for mode in [Compress::Yes, Compress::No] {
        let (_, y) = round_trip(s, "transaction", &t, mode)?;
        let b = verdict::<L, _, _, P0, P1, C>(&y, DOMAIN, &w.tree, w.p, &w.sp);
        ensure!(a.is_ok() == b.is_ok(), "verdict {:?} becomes {:?} through the encoding", a, b);
        ensure!(b.is_ok(), "honest transaction rejected: {:?}", b);
    }
    let q = parse_pour::<L, _, _, P0, P1, C>(&t.pour_bytes);
    ensure!(q.map(|q| enc(&q, Compress::Yes)) == Some(t.pour_bytes.clone()), "the payload is not the canonical encoding of its pour");
    Ok(())
} }

macro_rules! nol_cfg {
    ($s:expr, $f:ident) => {
        match $s.below(5) {
            0 | 1 => $f::<_, _, Pc, Vc, Gp>($s),
            2 => $f::<_, _, Vc, Pc, Gv>($s),
            3 => $f::<_, _, S0, S1, Gs>($s),
            _ => $f::<_, _, Pc, Vc, Gs>($s),
        }
    };
}
fn m_mint(s: &mut Src) -> Res { nol_cfg!(s, c20_mint) }
fn m_range(s: &mut Src) -> Res { nol_cfg!(s, c20_range) }
fn m_sigs(s: &mut Src) -> Res { nol_cfg!(s, c22_sigs) }
fn m_spend(s: &mut Src) -> Res { coin_cfg!(s, c20_spend) }
fn m_honest(s: &mut Src) -> Res { coin_cfg!(s, c21_honest) }
fn m_altered(s: &mut Src) -> Res { coin_cfg!(s, c21_altered) }
fn m_path(s: &mut Src) -> Res { coin_cfg!(s, c06_path_) }
fn m_pour(s: &mut Src) -> Res { coin_cfg!(s, c06_pour_) }
fn m_real(s: &mut Src) -> Res { coin_cfg!(s, c06_real_) }
fn m_false(s: &mut Src) -> Res { coin_cfg!(s, c21_false) }
fn m_omitted(s: &mut Src) -> Res { coin_cfg!(s, c21_omitted) }
fn m_tx(s: &mut Src) -> Res { coin_cfg!(s, c22_tx) }

fn main() {
    let sub = |name, rule, quick, thorough, f: CaseFn| Sub { name, rule, quick, thorough, f };
    let base: &'static [&'static str] = &["discrete logarithms between generators are unknown to provers", "arkworks Schnorr signatures are unforgeable"];
    main_with(&[
        ("C06", vec![
            sub("proof", "proofs of generated one- and two-phase programs, both modes, every prefix class, altered encodings", 400, 15000, c06_proof as CaseFn),
            sub("path", "paths with generated points (incl. identity) and lengths", 1000, 40000, m_path),
            sub("pour", "pours and transactions composed of generated parts", 200, 8000, m_pour),
            sub("real", "honest transactions", 8, 300, m_real),
        ], base),
        ("C20", vec![
            sub("mint", "value, key, randomness, curve cycle and signature group generated", 300, 8000, m_mint as CaseFn),
            sub("range", "values in and out of the 64-bit range against the verifier's constraints", 2000, 60000, m_range),
            sub("spend", "trees, indices, owners and values generated; honest or with one wrong ingredient", 48, 1500, m_spend),
        ], base),
        ("C21", vec![
            sub("honest", "balanced values (incl. 0 and 2^64-1), trees of several arities and heights, indices generated", 48, 1500, m_honest),
            sub("altered", "honest pours, each in eight false contexts or with altered contents signed again by the owners", 24, 900, m_altered),
            sub("false", "one falsification per case: imbalance, deviating prover", 72, 2500, m_false),
            sub("omitted", "a prover leaving out the range, balance, tag or membership constraints of a false pour", 72, 2500, m_omitted),
        ], base),
        ("C22", vec![
            sub("signatures", "owners, payloads and one alteration of signature, key, payload or parameters generated", 3000, 80000, m_sigs),
            sub("transaction", "honest transactions, ten alterations each", 24, 800, m_tx),
        ], base),
    ]);
}
