//! C23: builds with different feature sets and thread counts are interchangeable.
//!
//! The driver runs generated cases; each is replayed by worker processes, one per (build, number of
//! threads), which report deterministic outputs, produce proofs, paths and transactions (valid and
//! invalid), and judge the ones the other workers (and the driver) produced.
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bulletproofs::r1cs::*;
use bulletproofs::BulletproofGens;
use merlin::Transcript;
use rand::rngs::StdRng;
use rand::{RngCore, SeedableRng};
use relations::coin::*;
use relations::curve_tree::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::{mpsc, Mutex};
use std::time::Duration;
use vh::coin::*;
use vh::common::*;
use vh::engine::*;
use vh::evil::ser;
use vh::prog::*;
use vh::tree::*;
use vh::{cfn, ensure, gfn};

type Pc = ark_pallas::PallasConfig;
type Vc = ark_vesta::VestaConfig;
type S0 = ark_secp256k1::Config;
type S1 = ark_secq256k1::Config;
type Gp = ark_pallas::Projective;
type Gv = ark_vesta::Projective;
type Gs = ark_secp256k1::Projective;

/// Something to be judged, and whether it is valid.
struct Item { what: String, valid: bool, data: Vec<u8> }
/// How an item gone over the wire is expected to be judged (a damaged one: by all alike).
#[derive(PartialEq, Clone, Copy)]
enum Want { Accept, Reject, Agree }
fn want(valid: bool) -> Want { if valid { Want::Accept } else { Want::Reject } }

/// One case as each build sees it: what must be identical, what is produced, how it is judged.
struct Case {
    note: String,
    det: Vec<(String, Vec<u8>)>,
    produce: Box<dyn Fn() -> Vec<Item>>,
    judge: Box<dyn Fn(&[u8]) -> String>,
}

fn item(what: &str, valid: bool, data: Vec<u8>) -> Item { Item { what: what.into(), valid, data } }
fn judged(r: Result<Result<String, String>, String>) -> String {
    match r { Ok(Ok(d)) => format!("accepted {}", d), Ok(Err(_)) | Err(_) => "rejected".into() }
}
fn small(b: &[u8]) -> String { format!("{:016x}", hash64(b)) }

// ---------------------------------------------------------------- constraint systems
fn case_prog<C: AffineRepr>(s: &mut Src) -> Case where C::ScalarField: PrimeField {
    let lim = Limits { max_ops: if s.chance(1, 4) { 60 } else { 14 }, max_vec: 4, max_dim: if s.chance(1, 5) { 40 } else { 6 }, blocks: 2, gates2: true };
    let p = gen_prog::<C::ScalarField>(s, lim);
    let mut q = p.clone();
    q.ops.push(Op::Constrain(vec![Term { var: None, c: nonzero_field(s), ch: 0 }]));
    let cap = 512;
    let bp = bp_gens::<C>(cap);
    let pc = pc_gens::<C>();
    let mut det = vec![];
    {
        let mut pr = Prover::<Transcript, C>::new(pc, Transcript::new(b"c23"));
        let (c, b) = build_prover(&mut pr, &p, bp);
        det.push(("commitments".to_string(), ser(&c)));
        det.push(("prover transcript".to_string(), tr_state(pr.transcript()).to_vec()));
        det.push(("metrics".to_string(), format!("{:?} {}", b.metrics.multipliers, b.size).into_bytes()));
        let mut ve = Verifier::<Transcript, C>::new(Transcript::new(b"c23"));
        let b = build_verifier(&mut ve, &p, &c);
        det.push(("verifier transcript".to_string(), tr_state(ve.transcript()).to_vec()));
        det.push(("verifier metrics".to_string(), format!("{:?} {}", b.metrics.multipliers, b.size).into_bytes()));
    }
    let (p1, q1) = (p.clone(), q.clone());
    let pack = |k: u8, c: &Vec<C>, pf: &R1CSProof<C>| { let mut v = vec![k]; v.extend(ser(c)); v.extend(ser(pf)); v };
    Case {
        note: describe(&p),
        det,
        produce: Box::new(move || {
            let mut out = vec![];
            match guarded(|| prove::<C>(&p1, b"c23", pc, bp)) {
                Ok(Ok((c, pf))) => out.push(item("proof", true, pack(0, &c, &pf))),
                r => out.push(item(&format!("proof that could not be made ({:?})", r.map(|x| x.map(|_| ()))), true, vec![])),
            }
            if let Ok(Ok((c, pf))) = guarded(|| prove::<C>(&q1, b"c23", pc, bp)) {
                out.push(item("proof of a false statement", false, pack(1, &c, &pf)));
            }
            out
        }),
        judge: Box::new(move |b: &[u8]| judged(guarded(|| {
            if b.is_empty() { return Err("empty".into()); }
            let mut r = &b[1..];
            let c = Vec::<C>::deserialize_compressed(&mut r).map_err(|e| e.to_string())?;
            let pf = R1CSProof::<C>::deserialize_compressed(&mut r).map_err(|e| e.to_string())?;
            if !r.is_empty() { return Err("trailing".into()); }
            let st = if b[0] == 0 { &p } else { &q };
            verify::<C>(st, b"c23", &c, &pf, pc, bp).map_err(|e| format!("{:?}", e))?;
            // and the same as a batch of two
            let t = || tuple::<C>(st, b"c23", &c, &pf).unwrap();
            batch_verify(vec![t(), t()], pc, bp).map_err(|e| format!("{:?}", e)).map(|_| "proof".to_string())
        }))),
    }
}

// ---------------------------------------------------------------- generators and parameters
fn share<C: AffineRepr>(g: &BulletproofGens<C>, i: usize) -> Vec<u8> {
    let n = g.gens_capacity;
    let mut v: Vec<C> = g.share(i).G(n).copied().collect();
    v.extend_from_slice(&g.vh_h_generators(i)[..n]);
    ser(&v)
}
fn bases<C: AffineRepr>(g: &bulletproofs::PedersenGens<C>) -> Vec<u8> { ser(&vec![g.B, g.B_blinding]) }
gfn! { fn case_gens[](s: &mut Src) -> Case {
    let parties = s.range(1, 3);
    let c0 = s.usize(40);
    let hist: Vec<usize> = (0..s.below(4)).map(|_| s.usize(300)).collect();
    let mut g = BulletproofGens::<Affine<P0>>::new(c0, parties);
    for h in &hist { g.increase_capacity(*h); }
    let mut det = vec![("bases".to_string(), bases(pc_gens::<Affine<P0>>()))];
    for i in 0..parties { det.push((format!("share {}", i), share(&g, i))); }
    let p = SelRerandParameters::<P0, P1>::new(1 + s.usize(20), 1 + s.usize(20));
    for (n, d) in [("even offset", ser(&p.even_parameters.delta)), ("odd offset", ser(&p.odd_parameters.delta)),
        ("even generators", share(&p.even_parameters.bp_gens, 0)), ("odd generators", share(&p.odd_parameters.bp_gens, 0)),
        ("even bases", bases(&p.even_parameters.pc_gens)), ("odd bases", bases(&p.odd_parameters.pc_gens))] { det.push((n.to_string(), d)); }
    let tab = |t: &Vec<relations::lookup::Lookup3Bit<2, F1>>| { let mut v = vec![]; for l in t { for c in &l.elems { v.extend(ser(&c.to_vec())); } } v };
    det.push(("even tables".into(), tab(&p.even_parameters.tables)));
    let tab = |t: &Vec<relations::lookup::Lookup3Bit<2, F0>>| { let mut v = vec![]; for l in t { for c in &l.elems { v.extend(ser(&c.to_vec())); } } v };
    det.push(("odd tables".into(), tab(&p.odd_parameters.tables)));
    let n = s.range(1, 6);
    let xs: Vec<F0> = (0..n).map(|_| field(s)).collect();
    let bl: F0 = field(s);
    let big = SelRerandParameters::<P0, P1>::new(32, 32);
    for m in 0..3 { det.push((format!("layer commitment {}", m), ser(&big.even_parameters.commit(&xs, bl, m)))); }
    det.push(("scalar commitment".into(), ser(&pc_gens::<Affine<P0>>().commit(xs[0], bl))));
    Case { note: format!("{} parties, capacity {} then {:?}", parties, c0, hist), det, produce: Box::new(Vec::new), judge: Box::new(|_| "rejected".into()) }
} }

// ---------------------------------------------------------------- trees and membership
gfn! { fn case_tree[L M](s: &mut Src) -> Case {
    let p = params::<_, _, P0, P1>(4096);
    let hmax = if L > 10 { 1 } else if L > 3 || M > 1 { 2 } else { 3 };
    let cap = L.pow(1 + s.below(hmax) as u32);
    let n = 1 + s.usize(cap.min(24));
    let mut set = gen_set::<P0>(s, n, &p.even_parameters.delta);
    for l in set.iter_mut() { if l.is_zero() { *l = Affine::<P0>::generator(); } }
    let mut height = if s.bool() { Some(s.range(1, hmax as usize)) } else { None };
    if n == 1 && height.is_none() { height = Some(1); }
    let tree = CurveTree::<L, M, P0, P1>::from_set(&set, p, height);
    let idx: [usize; M] = std::array::from_fn(|_| s.usize(n));
    let seed = s.u64();
    let multi = M > 1 || s.bool();
    let foreign: Affine<P0> = rand_point(s);
    let mut det = vec![("height".to_string(), vec![tree.height() as u8])];
    let w1 = tree.select_and_rerandomize_prover_witness(idx[0], 0, p);
    for a in &w1.even_internal_nodes { det.push(("even witness".into(), [ser(&a.siblings.to_vec()), ser(&a.child_witness)].concat())); }
    for a in &w1.odd_internal_nodes { det.push(("odd witness".into(), [ser(&a.siblings.to_vec()), ser(&a.child_witness)].concat())); }
    let wm = tree.select_and_rerandomize_prover_multi_witness(idx, p);
    for a in &wm.even_internal_nodes { for a in a { det.push(("even witnesses".into(), [ser(&a.siblings.to_vec()), ser(&a.child_witness)].concat())); } }
    for a in &wm.odd_internal_nodes { for a in a { det.push(("odd witnesses".into(), [ser(&a.siblings.to_vec()), ser(&a.child_witness)].concat())); } }
    let new = move || (
        Prover::<Transcript, Affine<P0>>::new(&p.even_parameters.pc_gens, Transcript::new(b"member even")),
        Prover::<Transcript, Affine<P1>>::new(&p.odd_parameters.pc_gens, Transcript::new(b"member odd")));
    let note = format!("L={} M={} {} leaves, height {}, {} path to {:?}", L, M, n, tree.height(), if multi { "batched" } else { "single" }, idx);
    let n_leaves = set.clone();
    let delta = p.even_parameters.delta;
    let produce = move || {
        let mut out = vec![];
        for bad in [false, true] {
            if bad && n_leaves.iter().any(|l| *l == foreign || *l == -foreign) { continue; }
            let _ = delta;
            let mut rng = StdRng::seed_from_u64(seed ^ rand::thread_rng().next_u64());
            let r = guarded(|| {
                let (mut pe, mut po) = new();
                let mut b = vec![];
                if multi {
                    let mut w = wm.clone();
                    if bad {
                        let mut q = position(&w, M - 1);
                        tamper(&mut q, M - 1, 99, None, foreign, p);
                        set_position(&mut w, M - 1, &q);
                    }
                    let (path, _) = w.batched_select_and_rerandomize_prover_gadget(&mut pe, &mut po, p, &mut rng);
                    b.extend(ser(&path.even_commitments.iter().copied().collect::<Vec<_>>()));
                    b.extend(ser(&path.odd_commitments.iter().copied().collect::<Vec<_>>()));
                    b.extend(ser(&path.selected_commitments.to_vec()));
                } else {
                    let mut w = w1.clone();
                    if bad { tamper(&mut w, 0, 99, None, foreign, p); }
                    let (path, _) = w.select_and_rerandomize_prover_gadget(&mut pe, &mut po, p, &mut rng);
                    b.extend(ser(&path));
                }
                b.extend(ser(&pe.prove(&p.even_parameters.bp_gens).unwrap()));
                b.extend(ser(&po.prove(&p.odd_parameters.bp_gens).unwrap()));
                b
            });
            match r {
                Ok(b) => out.push(item(if bad { "membership proof of a foreign leaf" } else { "membership proof" }, !bad, b)),
                Err(e) => if !bad { out.push(item(&format!("membership proof that could not be made ({})", e), true, vec![])) }
            }
        }
        out
    };
    let judge = move |b: &[u8]| judged(guarded(|| -> Result<String, String> {
        let st = |e: ark_serialize::SerializationError| e.to_string();
        let mut r = b;
        let mut ve = Verifier::<Transcript, Affine<P0>>::new(Transcript::new(b"member even"));
        let mut vo = Verifier::<Transcript, Affine<P1>>::new(Transcript::new(b"member odd"));
        let leaf = if multi {
            let even_commitments = Vec::<Affine<P0>>::deserialize_compressed(&mut r).map_err(st)?;
            let odd_commitments = Vec::<Affine<P1>>::deserialize_compressed(&mut r).map_err(st)?;
            let sel = Vec::<Affine<P0>>::deserialize_compressed(&mut r).map_err(st)?;
            let selected_commitments: [Affine<P0>; M] = sel.try_into().map_err(|_| "count".to_string())?;
            let path = SelectAndRerandomizeMultiPath::<L, M, P0, P1> { even_commitments, odd_commitments, selected_commitments };
            ser(&tree.batched_select_and_rerandomize_verifier_gadget(&mut ve, &mut vo, path, p).to_vec())
        } else {
            let path = SelectAndRerandomizePath::<L, P0, P1>::deserialize_compressed(&mut r).map_err(st)?;
            ser(&tree.select_and_rerandomize_verifier_gadget(&mut ve, &mut vo, path, p))
        };
        let p0 = R1CSProof::<Affine<P0>>::deserialize_compressed(&mut r).map_err(st)?;
        let p1 = R1CSProof::<Affine<P1>>::deserialize_compressed(&mut r).map_err(st)?;
        if !r.is_empty() { return Err("trailing".into()); }
        ve.verify(&p0, &p.even_parameters.pc_gens, &p.even_parameters.bp_gens).map_err(|e| format!("{:?}", e))?;
        vo.verify(&p1, &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens).map_err(|e| format!("{:?}", e))?;
        Ok(small(&leaf))
    }));
    Case { note, det, produce: Box::new(produce), judge: Box::new(judge) }
} }

// ---------------------------------------------------------------- transactions
cfn! { fn case_tx[L](s: &mut Src) -> Case {
    let vin = [s.below(1000), gen_value(s) / 4];
    let t = vin[0] + vin[1];
    let v0 = s.below(t + 1);
    let v = [v0, t - v0];
    let w = gen_world::<L, _, _, P0, P1, C>(s, &vin, 4096, 2);
    let recv = [gen_key::<C>(s, &w.sp).pk, gen_key::<C>(s, &w.sp).pk];
    let mut det = vec![];
    for c in &w.coins {
        det.push(("coin".to_string(), [ser(&c.commitment), ser(&c.tag), ser(&c.rpk)].concat()));
    }
    det.push(("height".to_string(), vec![w.height as u8]));
    let note = format!("L={} height {} pour {:?} -> {:?}", L, w.height, vin, v);
    let w: &'static World<L, P0, P1, C> = Box::leak(Box::new(w));
    let seed = s.u64();
    let produce = move || {
        let mut out = vec![];
        let mut go = |what: &str, valid: bool, v: [u64; 2]| {
            let seed = seed ^ rand::thread_rng().next_u64();
            match pour::<L, _, _, P0, P1, C>(w, &w.coins[0].info(), &w.coins[1].info(), v, recv, seed) {
                Ok(tx) => {
                    if valid {
                        let mut raw = raw_of::<_, _, P0, P1, C>(&tx);
                        raw.sig[(seed % 4) as usize] += C::ScalarField::one();
                        out.push(item("transaction with an altered signature", false, ser(&tx_of::<_, _, P0, P1, C>(&raw, &tx))));
                    }
                    out.push(item(what, valid, ser(&tx)));
                }
                Err(e) => if valid { out.push(item(&format!("{} that could not be made ({})", what, e), true, vec![])) }
            }
        };
        go("transaction", true, v);
        go("imbalanced transaction", false, [v[0] ^ 1, v[1]]);
        out
    };
    let judge = move |b: &[u8]| judged(guarded(|| -> Result<String, String> {
        let mut r = b;
        let tx = SignedTx::<P0, P1, C>::deserialize_compressed(&mut r).map_err(|e| e.to_string())?;
        if !r.is_empty() { return Err("trailing".into()); }
        verdict::<L, _, _, P0, P1, C>(&tx, DOMAIN, &w.tree, w.p, &w.sp)?;
        let q = parse_pour::<L, _, _, P0, P1, C>(&tx.pour_bytes).ok_or("no pour")?;
        Ok(small(&ser(&vec![q.minted_coin_commitment_0, q.minted_coin_commitment_1])))
    }));
    Case { note, det, produce: Box::new(produce), judge: Box::new(judge) }
} }

fn make(kind: &str, s: &mut Src) -> Case {
    match kind {
        "statement" => match s.below(4) {
            0 => case_prog::<Pal>(s),
            1 => case_prog::<Ves>(s),
            2 => case_prog::<SecP>(s),
            _ => case_prog::<SecQ>(s),
        },
        "constants" => match s.below(4) {
            0 => case_gens::<_, _, Pc, Vc>(s),
            1 => case_gens::<_, _, Vc, Pc>(s),
            2 => case_gens::<_, _, S0, S1>(s),
            _ => case_gens::<_, _, S1, S0>(s),
        },
        "membership" => match s.below(8) {
            0 => case_tree::<2, 1, _, _, Pc, Vc>(s),
            1 => case_tree::<3, 1, _, _, Vc, Pc>(s),
            2 => case_tree::<4, 1, _, _, S0, S1>(s),
            3 => case_tree::<2, 2, _, _, Pc, Vc>(s),
            4 => case_tree::<3, 2, _, _, S1, S0>(s),
            5 => case_tree::<2, 3, _, _, Vc, Pc>(s),
            6 => case_tree::<16, 1, _, _, Pc, Vc>(s),
            _ => case_tree::<2, 4, _, _, Pc, Vc>(s),
        },
        _ => match s.below(4) {
            0 => case_tx::<2, _, _, Pc, Vc, Gp>(s),
            1 => case_tx::<4, _, _, Vc, Pc, Gv>(s),
            2 => case_tx::<3, _, _, S0, S1, Gs>(s),
            _ => case_tx::<8, _, _, Pc, Vc, Gs>(s),
        },
    }
}

// ---------------------------------------------------------------- workers
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

fn det_of(c: &Case) -> Vec<String> { c.det.iter().map(|(n, b)| format!("{}: {}", n, small(b))).collect() }

fn worker() {
    // ends with its driver, whatever it is doing
    let parent = std::os::unix::process::parent_id();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if std::os::unix::process::parent_id() != parent { std::process::exit(0); }
    });
    std::panic::set_hook(Box::new(|_| {}));
    let mut cur: Option<(String, Case)> = None;
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let q: Value = serde_json::from_str(&line).unwrap();
        let kind = q["kind"].as_str().unwrap();
        let key = format!("{} {}", kind, q["choices"]);
        let ans = guarded(|| {
            if cur.as_ref().map(|c| c.0 != key).unwrap_or(true) {
                cur = None;
                let ch: Vec<u64> = q["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                cur = Some((key.clone(), make(kind, &mut Src::replay(ch))));
            }
            let c = &cur.as_ref().unwrap().1;
            match q["op"].as_str().unwrap() {
                "produce" => json!({"det": det_of(c), "items": (if q["items"] == json!(true) { (c.produce)() } else { vec![] }).into_iter().map(|i| json!([i.what, i.valid, hex(&i.data)])).collect::<Vec<_>>()}),
                _ => json!({"verdicts": q["data"].as_array().unwrap().iter().map(|d| (c.judge)(&unhex(d.as_str().unwrap()))).collect::<Vec<_>>()}),
            }
        });
        let ans = ans.unwrap_or_else(|e| json!({"panic": e}));
        let mut o = out.lock();
        if writeln!(o, "{}", ans).and_then(|_| o.flush()).is_err() { break; }
    }
}

struct Worker { name: String, child: Child, to: ChildStdin, from: mpsc::Receiver<String> }
impl Drop for Worker {
    fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); }
}
/// (build, threads): each build at several numbers of threads where it has any
fn lineup() -> Vec<(String, usize)> {
    let names = std::env::var("VH_BUILDS").unwrap_or_default();
    let mut v = vec![];
    for b in names.split_whitespace() {
        match b {
            "default" => v.extend([(b.to_string(), 1), (b.to_string(), 2), (b.to_string(), 8)]),
            "none" | "asm" => v.push((b.to_string(), 1)),
            _ => v.push((b.to_string(), 3)),
        }
    }
    v
}
fn spawn(b: &str, t: usize) -> Worker {
    let exe = std::env::current_exe().unwrap().with_file_name(format!("builds-{}", b));
    let mut child = Command::new(&exe).arg("worker").env("RAYON_NUM_THREADS", t.to_string())
        .stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap_or_else(|e| panic!("{:?}: {}", exe, e));
    let to = child.stdin.take().unwrap();
    let so = child.stdout.take().unwrap();
    let (tx, from) = mpsc::channel();
    std::thread::spawn(move || for l in std::io::BufReader::new(so).lines() {
        let Ok(l) = l else { break };
        if tx.send(l).is_err() { break; }
    });
    Worker { name: format!("build {} with {} thread{}", b, t, if t == 1 { "" } else { "s" }), child, to, from }
}
static POOL: Mutex<Vec<Vec<Worker>>> = Mutex::new(vec![]);

impl Worker {
    fn send(&mut self, q: &Value) -> Res {
        if writeln!(self.to, "{}", q).and_then(|_| self.to.flush()).is_err() { return fail(format!("{} ended", self.name)); }
        Ok(())
    }
    fn receive(&mut self) -> Result<Value, Fail> {
        let l = match self.from.recv_timeout(Duration::from_secs(100)) {
            Ok(l) => l,
            Err(mpsc::RecvTimeoutError::Timeout) => return Err(Fail { sig: String::new(), msg: format!("{}: no answer within 100 s", self.name) }),
            Err(_) => return Err(Fail { sig: String::new(), msg: format!("{} ended without answering", self.name) }),
        };
        let v: Value = serde_json::from_str(&l).map_err(|e| Fail { sig: String::new(), msg: format!("{}: {}", self.name, e) })?;
        if let Some(p) = v["panic"].as_str() { return Err(Fail { sig: String::new(), msg: format!("{} panicked: {}", self.name, p) }); }
        Ok(v)
    }
}

fn run(kind: &str, s: &mut Src) -> Res {
    let case = make(kind, s);
    let det = det_of(&case);
    s.note(&case.note);
    let choices = s.rec.clone();
    s.nontrivial_by_choices();
    let flips = [s.u64(), s.u64()];
    let pick = s.u64() as usize;
    let mut ws = match POOL.lock().unwrap().pop() { Some(w) => w, None => lineup().iter().map(|(b, t)| spawn(b, *t)).collect() };
    ensure!(!ws.is_empty(), "no builds to compare (VH_BUILDS)");
    let n = ws.len();
    // every build (for slow kinds: every third) produces; the driver is one more
    let few = matches!(kind, "membership" | "transaction");
    let busy = |k: usize| !few || (k + pick) % 3 == 0;
    for (k, w) in ws.iter_mut().enumerate() { w.send(&json!({"op": "produce", "kind": kind, "choices": choices, "items": busy(k)}))?; }
    let own = if busy(n) { (case.produce)() } else { vec![] };
    let mut items: Vec<(usize, String, Want, Vec<u8>)> = own.into_iter().map(|i| (n, i.what, want(i.valid), i.data)).collect();
    for (k, w) in ws.iter_mut().enumerate() {
        let v = w.receive()?;
        let d: Vec<String> = v["det"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        ensure!(d.len() == det.len(), "{}: {} deterministic outputs instead of {}", w.name, d.len(), det.len());
        for (a, b) in d.iter().zip(&det) { ensure!(a == b, "{}: {} differs from the driver's {}", w.name, a, b); }
        for i in v["items"].as_array().unwrap() {
            items.push((k, i[0].as_str().unwrap().into(), want(i[1].as_bool().unwrap()), unhex(i[2].as_str().unwrap())));
        }
    }
    // damage some of the valid ones
    let valid: Vec<(usize, Vec<u8>)> = items.iter().filter(|i| i.2 == Want::Accept && !i.3.is_empty()).map(|i| (i.0, i.3.clone())).collect();
    for f in flips {
        if valid.is_empty() { break; }
        let (k, b) = &valid[(f >> 40) as usize % valid.len()];
        let mut b = b.clone();
        let at = (f as usize & 0xffffffff) % (8 * b.len());
        b[at / 8] ^= 1 << (at % 8);
        items.push((*k, format!("item with bit {} altered", at), Want::Agree, b));
    }
    for i in &items { s.label(i.1.split(" (").next().unwrap().split(" bit").next().unwrap()); }
    // everybody judges; an item of a slow kind goes to every third
    for (k, w) in ws.iter_mut().enumerate() {
        let mine: Vec<usize> = (0..items.len()).filter(|i| !few || (items[*i].0 + pick + *i + k) % 3 == 0).collect();
        w.send(&json!({"op": "judge", "kind": kind, "choices": choices, "data": mine.iter().map(|i| hex(&items[*i].3)).collect::<Vec<_>>()}))?;
    }
    let name = |k: usize, ws: &[Worker]| if k == ws.len() { "the driver".to_string() } else { ws[k].name.clone() };
    let own: Vec<String> = items.iter().map(|i| (case.judge)(&i.3)).collect();
    let mut verdicts: Vec<(usize, usize, String)> = own.iter().enumerate().map(|(i, v)| (i, n, v.clone())).collect();
    for k in 0..n {
        let v = ws[k].receive()?;
        let mine: Vec<usize> = (0..items.len()).filter(|i| !few || (items[*i].0 + pick + *i + k) % 3 == 0).collect();
        for (i, x) in mine.iter().zip(v["verdicts"].as_array().unwrap()) { verdicts.push((*i, k, x.as_str().unwrap().to_string())); }
    }
    for (i, k, v) in &verdicts {
        let it = &items[*i];
        ensure!(it.2 == Want::Agree || v.starts_with("accepted") == (it.2 == Want::Accept), "{} by {} is {} by {}", it.1, name(it.0, &ws), v, name(*k, &ws));
        ensure!(*v == own[*i], "{} by {}: {} by {} but {} by the driver", it.1, name(it.0, &ws), v, name(*k, &ws), own[*i]);
    }
    POOL.lock().unwrap().push(ws);
    Ok(())
}
fn k_statement(s: &mut Src) -> Res { run("statement", s) }
fn k_constants(s: &mut Src) -> Res { run("constants", s) }
fn k_membership(s: &mut Src) -> Res { run("membership", s) }
fn k_transaction(s: &mut Src) -> Res { run("transaction", s) }

fn main() {
    if std::env::args().nth(1).as_deref() == Some("worker") { worker(); return; }
    if std::env::var("VH_THREADS").is_err() { std::env::set_var("VH_THREADS", "4"); }
    let sub = |name, rule, quick, thorough, f| Sub { name, rule, quick, thorough, f };
    main_with(&[("C23", vec![
        sub("constants", "capacity histories, parameters and commitments generated; their bytes compared between all builds and thread counts", 120, 5000, k_constants as CaseFn),
        sub("statement", "random two-phase programs; each build and thread count proves them and a false variant, every other one judges all of these and damaged ones", 150, 20000, k_statement),
        sub("membership", "random trees and positions, single and batched; a third of the builds prove membership and claim a foreign leaf, a third judges", 48, 4000, k_membership),
        sub("transaction", "random pours; a third of the builds make a balanced, an imbalanced and a wrongly signed transaction, a third judges each", 10, 400, k_transaction),
    ], &["builds compared: the ones listed in VH_BUILDS by run.sh (default at 1, 2 and 8 threads)"])]);
    POOL.lock().unwrap().clear();
}
