//! Gadgets (module Gadgets of the specification): honest and naive proofs through the public wrappers,
//! extraction of the circuit a verifier builds, and proofs forged from an arbitrary assignment of it.
use crate::hash::{params, sbox};
use crate::util::*;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::hamming_distance::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::bit::bit_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::{PoseidonParams, Poseidon_permutation_gadget, SboxType};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::positive_no::positive_no_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::{DBVal_4_ary, VanillaSparseMerkleTree_4};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::vector_sum::vector_sum_constraints;
use bulletproofs_amcl::r1cs::gadgets::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::gadgets::randomizer::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::{
    gen_proof_of_set_membership_alt, prove_set_membership_alt, verify_proof_of_set_membership_alt, verify_set_membership_alt,
};
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::{ConstraintSystem, Prover, R1CSProof, Variable, Verifier};
use bulletproofs_amcl::utils::hash_db::InMemoryHashDb;
use merlin::Transcript;
use rand::rngs::ThreadRng;
use serde_json::{json, Value};
use std::sync::OnceLock;

pub const LABEL: &[u8] = b"verif gadget";
type Res<T> = Result<T, R1CSError>;

/// g, h, G, H; generated by a chain without obvious relations (nothing here depends on their independence)
pub fn gens(n: usize) -> (G1, G1, G1Vector, G1Vector) {
    static ALL: OnceLock<Vec<G1>> = OnceLock::new();
    const MAX: usize = 4096;
    let v = ALL.get_or_init(|| {
        let d = G1::from_msg_hash(b"verif chain");
        let mut p = G1::from_msg_hash(b"verif start");
        let mut out = vec![];
        for _ in 0..2 * MAX + 2 {
            p = &(&p + &p) + &d;
            out.push(p.clone());
        }
        out
    });
    let (n, m) = SIZES.with(|s| s.get()).unwrap_or((n, n));
    let (n, m) = (n.min(MAX), m.min(MAX));
    (v[0].clone(), v[1].clone(), v[2..2 + n].to_vec().into(), v[2 + MAX..2 + MAX + m].to_vec().into())
}
thread_local! {
    /// lengths of G and H, whatever the callers ask for
    pub static SIZES: std::cell::Cell<Option<(usize, usize)>> = std::cell::Cell::new(None);
    /// hand no random number generator to the provers
    pub static NORNG: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
/// MiMC rounds: as many as constants unless the statement says otherwise
fn rounds(s: &Value, cs: &[FE]) -> usize {
    s["rounds"].as_u64().map(|x| x as usize).unwrap_or(cs.len())
}
fn norng() -> bool {
    NORNG.with(|c| c.get())
}
pub fn u64h(v: &Value) -> u64 {
    u64::from_str_radix(v.as_str().expect("u64 hex"), 16).expect("u64")
}
/// a field element as u64, None if it does not fit (an API taking u64 cannot be asked then)
pub fn asu(f: &Value) -> Res<u64> {
    let s = f.as_str().unwrap();
    u64::from_str_radix(s, 16).map_err(|_| R1CSError::GadgetError { description: "HARNESS: not a u64".into() })
}
struct Hp {
    p: PoseidonParams,
    s: SboxType,
}
fn hp(s: &Value) -> Hp {
    Hp { p: params(&s["P"], s["std"].as_bool().unwrap_or(false)), s: sbox(st(s, "sbox")) }
}
fn path<const N: usize>(v: &Value) -> Vec<[FE; N]> {
    arr(v)
        .iter()
        .map(|l| {
            let x = vfes(l);
            let mut it = x.into_iter();
            [(); N].map(|_| it.next().unwrap())
        })
        .collect()
}
fn tree<'a>(p: &'a PoseidonParams, depth: usize, map: &Value, db: &mut InMemoryHashDb<DBVal_4_ary>) -> Res<VanillaSparseMerkleTree_4<'a>> {
    let mut t = VanillaSparseMerkleTree_4::new(p, depth, db);
    for e in arr(map) {
        t.update(&vfe(&e[0]), vfe(&e[1]), db)?;
    }
    Ok(t)
}
fn raw(prover: &mut Prover, vals: &[FE]) -> (Vec<G1>, Vec<AllocatedQuantity>) {
    vals.iter()
        .map(|v| {
            let (c, var) = prover.commit(v.clone(), FE::random());
            (c, AllocatedQuantity { variable: var, assignment: Some(v.clone()) })
        })
        .unzip()
}
fn rawv(verifier: &mut Verifier, comms: &[G1]) -> Vec<AllocatedQuantity> {
    comms.iter().map(|c| AllocatedQuantity { variable: verifier.commit(c.clone()), assignment: None }).collect()
}
/// helper gadgets that have no wrappers of their own
fn helper<CS: ConstraintSystem>(s: &Value, cs: &mut CS, q: Vec<AllocatedQuantity>) -> Option<Res<()>> {
    Some(match st(s, "g") {
        "posno" => positive_no_gadget(cs, q[0].clone(), num(s, "bits")),
        "bit" => bit_gadget(cs, &q[0]),
        "two" => two(cs, num(s, "n1"), num(s, "n2"), num(s, "cbs")),
        "vecsum" => vector_sum_constraints(cs, q.iter().map(|x| x.variable).collect(), u64h(&s["sum"])),
        "perm" => {
            let h = hp(s);
            Poseidon_permutation_gadget(cs, q, &h.p, &h.s, &vfes(&s["out"]))
        }
        _ => return None,
    })
}
pub fn two_one<C: ConstraintSystem>(cs: &mut C) -> Res<()> {
    let a = cs.evaluate_lc(&Variable::One().into()).map(|x| (&x + &x, x));
    let (l, r, o) = cs.allocate_multiplier(a)?;
    cs.constrain(o - l);
    cs.constrain(r - FE::one());
    Ok(())
}
/// n1 multipliers, then cbs callbacks that allocate n2 multipliers each
fn two<CS: ConstraintSystem>(cs: &mut CS, n1: usize, n2: usize, cbs: usize) -> Res<()> {
    for _ in 0..n1 {
        two_one(cs)?;
    }
    for _ in 0..cbs {
        cs.specify_randomized_constraints(move |cs| {
            for _ in 0..n2 {
                two_one(cs)?;
            }
            Ok(())
        })?;
    }
    Ok(())
}
fn is_helper(s: &Value) -> bool {
    ["posno", "bit", "vecsum", "perm", "two"].contains(&st(s, "g"))
}

/// prove_X on a given prover
pub fn prove_on(s: &Value, w: &Value, rands: Option<Vec<FE>>, p: &mut Prover) -> Res<Vec<G1>> {
    let mut rng = rand::thread_rng();
    let v = vfes(&w["vals"]);
    let r1 = rands.clone().and_then(|mut r| if r.is_empty() { None } else { Some(r.remove(0)) });
    let rg = if rands.is_some() || norng() { None } else { Some(&mut rng) };
    if is_helper(s) {
        let (c, q) = raw(p, &v);
        helper(s, p, q).unwrap()?;
        return Ok(c);
    }
    match st(s, "g") {
        "bound" => prove_bounded_num(asu(&w["vals"][0])?, r1, u64h(&s["lower"]), u64h(&s["upper"]), num(s, "bits"), rg, p),
        "nonzero" => prove_non_zero_val(v[0].clone(), r1, rg, p),
        "setmem" => prove_set_membership(v[0].clone(), r1, &vfes(&s["set"]), rg, p),
        "setalt" => prove_set_membership_alt(asu(&w["vals"][0])?, r1, &arr(&s["set"]).iter().map(u64h).collect::<Vec<_>>(), rg, p),
        "nonmem" => prove_set_non_membership(v[0].clone(), r1, &vfes(&s["set"]), rg, p),
        "hamming" => prove_hamming_distance(&v, &vfes(&s["new"]), u64h(&s["count"]), p),
        "mimc" => {
            let cs = vfes(&s["consts"]);
            prove_mimc_preimage(v, rands, &vfe(&s["image"]), &cs, rounds(s, &cs), rg, p)
        }
        "pos2" => prove_knowledge_of_preimage_of_Poseidon_2(v, rands, &vfe(&s["image"]), &hp(s).p, &hp(s).s, rg, p),
        "pos4" => prove_knowledge_of_preimage_of_Poseidon_4(v, rands, &vfe(&s["image"]), &hp(s).p, &hp(s).s, rg, p),
        "pos8" => prove_knowledge_of_preimage_of_Poseidon_8(v, rands, &vfe(&s["image"]), &hp(s).p, &hp(s).s, rg, p),
        "smt4" => {
            let h = hp(s);
            prove_leaf_inclusion_4_ary_merkle_tree(
                v[0].clone(), v[1].clone(), rands, path::<3>(&w["path"]), &vfe(&s["image"]), num(s, "depth"), &h.p, &h.s, rg, p,
            )
        }
        "smt8" => {
            let h = hp(s);
            prove_leaf_inclusion_8_ary_merkle_tree(
                v[0].clone(), v[1].clone(), rands, path::<7>(&w["path"]), &vfe(&s["image"]), num(s, "depth"), &h.p, &h.s, rg, p,
            )
        }
        g => panic!("no prove_on for {}", g),
    }
}
/// verify_X on a given verifier (the randomizer has no such function: its body is mirrored)
pub fn verify_on(s: &Value, comms: Vec<G1>, g: &G1, h: &G1, v: &mut Verifier) -> Res<()> {
    if is_helper(s) {
        let q = rawv(v, &comms);
        return helper(s, v, q).unwrap();
    }
    match st(s, "g") {
        "bound" => verify_bounded_num(u64h(&s["lower"]), u64h(&s["upper"]), num(s, "bits"), comms, v),
        "nonzero" => verify_non_zero_val(comms, v),
        "setmem" => verify_set_membership(&vfes(&s["set"]), comms, v),
        "setalt" => verify_set_membership_alt(&arr(&s["set"]).iter().map(u64h).collect::<Vec<_>>(), comms, v),
        "nonmem" => verify_set_non_membership(&vfes(&s["set"]), comms, v),
        "hamming" => verify_hamming_distance(&vfes(&s["new"]), u64h(&s["count"]), comms, v),
        "mimc" => {
            let cs = vfes(&s["consts"]);
            verify_mimc_preimage(&vfe(&s["image"]), &cs, rounds(s, &cs), comms, v)
        }
        "pos2" => verify_knowledge_of_preimage_of_Poseidon_2(&vfe(&s["image"]), &hp(s).p, &hp(s).s, comms, g, h, v),
        "pos4" => verify_knowledge_of_preimage_of_Poseidon_4(&vfe(&s["image"]), &hp(s).p, &hp(s).s, comms, g, h, v),
        "pos8" => verify_knowledge_of_preimage_of_Poseidon_8(&vfe(&s["image"]), &hp(s).p, &hp(s).s, comms, g, h, v),
        "smt4" => verify_leaf_inclusion_4_ary_merkle_tree(&vfe(&s["image"]), num(s, "depth"), &hp(s).p, &hp(s).s, comms, g, h, v),
        "smt8" => verify_leaf_inclusion_8_ary_merkle_tree(&vfe(&s["image"]), num(s, "depth"), &hp(s).p, &hp(s).s, comms, g, h, v),
        "rand" => {
            let hh = hp(s);
            let (d, idx) = (num(s, "depth"), vfes(&s["indices"]));
            let mut db = InMemoryHashDb::new();
            let mut t = tree(&hh.p, d, &s["map"], &mut db)?;
            let mut it = comms.into_iter();
            let root = v.commit(it.next().unwrap());
            let (mut vals, mut ps) = (vec![], vec![]);
            for _ in 0..idx.len() {
                vals.push(v.commit(it.next().unwrap()));
                ps.push((0..3 * d).map(|_| v.commit(it.next().unwrap())).collect::<Vec<_>>());
            }
            let statics = allocate_statics_for_verifier(v, 1, g, h);
            randomizer_gadget(v, d, root, &mut t, &mut db, idx, vals, ps, statics, &hh.p, &hh.s)
        }
        g => panic!("no verify_on for {}", g),
    }
}
pub fn gen(s: &Value, w: &Value, rands: Option<Vec<FE>>, n: usize) -> Res<(R1CSProof, Vec<G1>)> {
    let (g, h, G, H) = gens(n);
    let (g, h, G, H) = (&g, &h, &G, &H);
    let mut rng = rand::thread_rng();
    let v = vfes(&w["vals"]);
    let r1 = rands.clone().and_then(|mut r| if r.is_empty() { None } else { Some(r.remove(0)) });
    let rg: Option<&mut ThreadRng> = if rands.is_some() || norng() { None } else { Some(&mut rng) };
    match st(s, "g") {
        "bound" => gen_proof_of_bounded_num(asu(&w["vals"][0])?, r1, u64h(&s["lower"]), u64h(&s["upper"]), num(s, "bits"), rg, LABEL, g, h, G, H),
        "nonzero" => gen_proof_of_non_zero_val(v[0].clone(), r1, rg, LABEL, g, h, G, H),
        "setmem" => gen_proof_of_set_membership(v[0].clone(), r1, &vfes(&s["set"]), rg, LABEL, g, h, G, H),
        "setalt" => gen_proof_of_set_membership_alt(
            asu(&w["vals"][0])?, r1, &arr(&s["set"]).iter().map(u64h).collect::<Vec<_>>(), rg, LABEL, g, h, G, H,
        ),
        "nonmem" => gen_proof_of_set_non_membership(v[0].clone(), r1, &vfes(&s["set"]), rg, LABEL, g, h, G, H),
        "hamming" => gen_proof_for_hamming_distance(&v, &vfes(&s["new"]), u64h(&s["count"]), LABEL, g, h, G, H),
        "mimc" => {
            let cs = vfes(&s["consts"]);
            gen_proof_of_knowledge_of_preimage_of_mimc(v, rands, &vfe(&s["image"]), &cs, rounds(s, &cs), rg, LABEL, g, h, G, H)
        }
        "pos2" => gen_proof_of_knowledge_of_preimage_of_Poseidon_2(v, rands, &vfe(&s["image"]), &hp(s).p, &hp(s).s, rg, LABEL, g, h, G, H),
        "pos4" => gen_proof_of_knowledge_of_preimage_of_Poseidon_4(v, rands, &vfe(&s["image"]), &hp(s).p, &hp(s).s, rg, LABEL, g, h, G, H),
        "pos8" => gen_proof_of_knowledge_of_preimage_of_Poseidon_8(v, rands, &vfe(&s["image"]), &hp(s).p, &hp(s).s, rg, LABEL, g, h, G, H),
        "smt4" => {
            let q = hp(s);
            gen_proof_of_leaf_inclusion_4_ary_merkle_tree(
                v[0].clone(), v[1].clone(), rands, path::<3>(&w["path"]), &vfe(&s["image"]), num(s, "depth"), &q.p, &q.s, rg, LABEL, g, h, G, H,
            )
        }
        "smt8" => {
            let q = hp(s);
            gen_proof_of_leaf_inclusion_8_ary_merkle_tree(
                v[0].clone(), v[1].clone(), rands, path::<7>(&w["path"]), &vfe(&s["image"]), num(s, "depth"), &q.p, &q.s, rg, LABEL, g, h, G, H,
            )
        }
        "rand" => {
            let q = hp(s);
            let d = num(s, "depth");
            let (mut odb, mut ndb) = (InMemoryHashDb::new(), InMemoryHashDb::new());
            let ot = tree(&q.p, d, &w["map"], &mut odb)?;
            let mut nt = tree(&q.p, d, &s["map"], &mut ndb)?;
            gen_proof_for_randomizer(&ot, &odb, &mut nt, &mut ndb, &vfes(&s["indices"]), &vfes(&w["orig"]), d, &q.p, &q.s, LABEL, g, h, G, H)
        }
        _ => {
            let mut t = Transcript::new(LABEL);
            let mut p = Prover::new(g, h, &mut t);
            let c = prove_on(s, w, rands, &mut p)?;
            Ok((p.prove(G, H)?, c))
        }
    }
}
pub fn ver(s: &Value, proof: R1CSProof, c: Vec<G1>, n: usize) -> Res<()> {
    let (g, h, G, H) = gens(n);
    let (g, h, G, H) = (&g, &h, &G, &H);
    match st(s, "g") {
        "bound" => verify_proof_of_bounded_num(u64h(&s["lower"]), u64h(&s["upper"]), num(s, "bits"), proof, c, LABEL, g, h, G, H),
        "nonzero" => verify_proof_of_non_zero_val(proof, c, LABEL, g, h, G, H),
        "setmem" => verify_proof_of_set_membership(&vfes(&s["set"]), proof, c, LABEL, g, h, G, H),
        "setalt" => verify_proof_of_set_membership_alt(&arr(&s["set"]).iter().map(u64h).collect::<Vec<_>>(), proof, c, LABEL, g, h, G, H),
        "nonmem" => verify_proof_of_set_non_membership(&vfes(&s["set"]), proof, c, LABEL, g, h, G, H),
        "hamming" => verify_proof_for_hamming_distance(&vfes(&s["new"]), u64h(&s["count"]), proof, c, LABEL, g, h, G, H),
        "mimc" => {
            let cs = vfes(&s["consts"]);
            verify_knowledge_of_preimage_of_mimc(&vfe(&s["image"]), &cs, rounds(s, &cs), proof, c, LABEL, g, h, G, H)
        }
        "pos2" => verify_proof_of_knowledge_of_preimage_of_Poseidon_2(&vfe(&s["image"]), &hp(s).p, &hp(s).s, proof, c, LABEL, g, h, G, H),
        "pos4" => verify_proof_of_knowledge_of_preimage_of_Poseidon_4(&vfe(&s["image"]), &hp(s).p, &hp(s).s, proof, c, LABEL, g, h, G, H),
        "pos8" => verify_proof_of_knowledge_of_preimage_of_Poseidon_8(&vfe(&s["image"]), &hp(s).p, &hp(s).s, proof, c, LABEL, g, h, G, H),
        "smt4" => verify_proof_of_leaf_inclusion_4_ary_merkle_tree(&vfe(&s["image"]), num(s, "depth"), &hp(s).p, &hp(s).s, proof, c, LABEL, g, h, G, H),
        "smt8" => verify_proof_of_leaf_inclusion_8_ary_merkle_tree(&vfe(&s["image"]), num(s, "depth"), &hp(s).p, &hp(s).s, proof, c, LABEL, g, h, G, H),
        "rand" => {
            let q = hp(s);
            let mut db = InMemoryHashDb::new();
            let mut t = tree(&q.p, num(s, "depth"), &s["map"], &mut db)?;
            verify_proof_for_randomizer(&mut t, &mut db, &vfes(&s["indices"]), num(s, "depth"), &q.p, &q.s, proof, c, LABEL, g, h, G, H)
        }
        _ => {
            let mut t = Transcript::new(LABEL);
            let mut v = Verifier::new(&mut t);
            verify_on(s, c, g, h, &mut v)?;
            v.verify(&proof, g, h, G, H)
        }
    }
}
/// A database without one of its nodes
#[derive(Clone)]
pub struct Holey {
    pub db: InMemoryHashDb<DBVal_4_ary>,
    pub hole: Vec<u8>,
}
impl bulletproofs_amcl::utils::hash_db::HashDb<DBVal_4_ary> for Holey {
    fn insert(&mut self, hash: Vec<u8>, value: DBVal_4_ary) {
        self.db.insert(hash, value)
    }
    fn get(&self, hash: &[u8]) -> Res<DBVal_4_ary> {
        if hash == &self.hole[..] {
            return Err(R1CSError::HashNotFoundInDB { hash: hash.to_vec() });
        }
        self.db.get(hash)
    }
}
fn malformed_ipp(c: &Value) -> Value {
    use amcl_wrapper::field_elem::FieldElementVector;
    use bulletproofs_amcl::ipp::IPP;
    let n = 1usize << num(c, "lg");
    let (_, q, G, H) = gens(n);
    let f = |k: usize, t: u64| -> Vec<FE> { (0..k).map(|i| FE::from_msg_hash(&(i as u64 + 1000 * t).to_be_bytes())).collect() };
    let v = |x: Vec<FE>| -> FieldElementVector { x.into() };
    let (a, b, gf, hf) = (f(n, 1), f(n, 2), f(n, 3), f(n, 4));
    let mut t = Transcript::new(LABEL);
    let p = IPP::create_ipp(&mut t, &q, &v(gf.clone()), &v(hf.clone()), &G, &H, &v(a.clone()), &v(b.clone()));
    let mut P = G1::identity();
    for i in 0..n {
        P = &P + &(&G.as_slice()[i] * &(&a[i] * &gf[i]));
        P = &P + &(&H.as_slice()[i] * &(&b[i] * &hf[i]));
        P = &P + &(&q * &(&a[i] * &b[i]));
    }
    let mut runs = vec![];
    for d in arr(&c["variants"]) {
        let sz = |k: usize, base: usize| size(base, &d[k]);
        let g = |x: &G1Vector, k: usize| -> G1Vector {
            let mut y = x.as_slice().to_vec();
            let m = sz(k, y.len());
            resize(&mut y, m);
            y.into()
        };
        let (L, R, G2, H2) = (g(&p.L, 0), g(&p.R, 1), g(&G, 2), g(&H, 3));
        let (gf2, hf2) = (v(gf[..sz(4, n)].to_vec()), v(hf[..sz(5, n)].to_vec()));
        let (res, _) = outcome(|| {
            let mut t = Transcript::new(LABEL);
            IPP::verify_ipp(sz(6, n), &mut t, &gf2, &hf2, &P, &q, &G2, &H2, &p.a, &p.b, &L, &R)
        });
        // sizes that cannot shrink below zero leave the input well formed
        let eff: Vec<i64> = [p.L.as_slice().len(), p.R.as_slice().len(), n, n, n, n, n].iter().enumerate().map(|(k, x)| sz(k, *x) as i64 - *x as i64).collect();
        runs.push(json!({"d": eff, "res": res}));
    }
    json!({ "runs": runs })
}
fn size(base: usize, d: &Value) -> usize {
    (base as i64 + d.as_i64().unwrap_or(0)).max(0) as usize
}
fn resize(v: &mut Vec<G1>, n: usize) {
    let pad = v.last().cloned().unwrap_or_else(G1::generator);
    v.resize(n, pad);
}
/// Module Malformed of the specification: a well-formed run with some component of another size
pub fn malformed(c: &Value) -> Value {
    if st(c, "kind") == "ipp" {
        return malformed_ipp(c);
    }
    let (s, w) = (&c["s"], &c["w"]);
    let rands = if arr(&c["rands"]).is_empty() { None } else { Some(vfes(&c["rands"])) };
    let with = |sz: Option<(usize, usize)>, f: &mut dyn FnMut() -> String| -> String {
        SIZES.with(|x| x.set(sz));
        let r = f();
        SIZES.with(|x| x.set(None));
        r
    };
    match st(c, "kind") {
        "input" => {
            NORNG.with(|x| x.set(c["norng"].as_bool().unwrap()));
            let (k, r) = outcome(|| gen(s, w, rands.clone(), 256));
            NORNG.with(|x| x.set(false));
            let v = r.map(|(p, cm)| outcome(|| ver(s, p.clone(), cm.clone(), 256)).0).unwrap_or_else(|| "none".into());
            json!({"res": k, "ver": v})
        }
        "noassign" => {
            let (g, h, G, H) = gens(256);
            let (k, _) = outcome(|| {
                let mut t = Transcript::new(LABEL);
                let mut p = Prover::new(&g, &h, &mut t);
                let (_, mut q) = raw(&mut p, &vfes(&w["vals"]));
                q[0].assignment = None;
                helper(s, &mut p, q).unwrap()?;
                p.prove(&G, &H)
            });
            json!({"res": k, "ver": "none"})
        }
        "rdepth" => {
            // stated depths that are not those of the trees, with as many commitments as the stated depth needs or as given
            let q = hp(s);
            let d = num(s, "depth");
            let (mut odb, mut ndb) = (InMemoryHashDb::new(), InMemoryHashDb::new());
            let ot = tree(&q.p, d, &w["map"], &mut odb).unwrap();
            let nt = tree(&q.p, d, &s["map"], &mut ndb).unwrap();
            let (idx, vals) = (vfes(&s["indices"]), vfes(&w["orig"]));
            let (g, h, G, H) = gens(4096);
            let made = outcome(|| gen_proof_for_randomizer(&ot, &odb, &mut nt.clone(), &mut ndb.clone(), &idx, &vals, d, &q.p, &q.s, LABEL, &g, &h, &G, &H)).1;
            let (mut res, mut ver) = (vec![], vec![]);
            for t in arr(&c["depths"]) {
                let t = t.as_u64().unwrap() as usize;
                res.push(outcome(|| gen_proof_for_randomizer(&ot, &odb, &mut nt.clone(), &mut ndb.clone(), &idx, &vals, t, &q.p, &q.s, LABEL, &g, &h, &G, &H)).0);
                // a distorted tree of the stated depth next to an original one of another, and the reverse
                let mut db2 = InMemoryHashDb::new();
                if let Ok(other) = tree(&q.p, t, &json!([]), &mut db2) {
                    res.push(outcome(|| gen_proof_for_randomizer(&ot, &odb, &mut other.clone(), &mut db2.clone(), &idx, &vals, d, &q.p, &q.s, LABEL, &g, &h, &G, &H)).0);
                    if let Some((p, cm)) = made.clone() {
                        ver.push(outcome(|| verify_proof_for_randomizer(&mut other.clone(), &mut db2.clone(), &idx, d, &q.p, &q.s, p, cm, LABEL, &g, &h, &G, &H)).0);
                    }
                }
                if let Some((p, cm)) = made.clone() {
                    let mut fit = cm.clone();
                    resize(&mut fit, 1 + idx.len() * (1 + 3 * t));
                    for cm in vec![cm, fit] {
                        ver.push(outcome(|| verify_proof_for_randomizer(&mut nt.clone(), &mut ndb.clone(), &idx, t, &q.p, &q.s, p.clone(), cm, LABEL, &g, &h, &G, &H)).0);
                    }
                }
            }
            json!({"made": made.is_some(), "res": res, "ver": ver})
        }
        "rval" => {
            // the values claimed to be the original ones, one of them another
            let q = hp(s);
            let d = num(s, "depth");
            let (mut odb, mut ndb) = (InMemoryHashDb::new(), InMemoryHashDb::new());
            let ot = tree(&q.p, d, &w["map"], &mut odb).unwrap();
            let nt = tree(&q.p, d, &s["map"], &mut ndb).unwrap();
            let idx = vfes(&s["indices"]);
            let (g, h, G, H) = gens(4096);
            let (mut res, mut ver) = (vec![], vec![]);
            for vals in std::iter::once(&w["orig"]).chain(arr(&c["origs"])).map(vfes) {
                let (k, r) = outcome(|| gen_proof_for_randomizer(&ot, &odb, &mut nt.clone(), &mut ndb.clone(), &idx, &vals, d, &q.p, &q.s, LABEL, &g, &h, &G, &H));
                res.push(k);
                ver.push(match r {
                    Some((p, cm)) => outcome(|| verify_proof_for_randomizer(&mut nt.clone(), &mut ndb.clone(), &idx, d, &q.p, &q.s, p, cm, LABEL, &g, &h, &G, &H)).0,
                    None => "none".to_string(),
                });
            }
            json!({"res": res, "ver": ver})
        }
        "node" => {
            let q = hp(s);
            let d = num(s, "depth");
            let (mut odb, mut ndb) = (InMemoryHashDb::new(), InMemoryHashDb::new());
            let ot = tree(&q.p, d, &w["map"], &mut odb).unwrap();
            let mut nt = tree(&q.p, d, &s["map"], &mut ndb).unwrap();
            let (idx, vals) = (vfes(&s["indices"]), vfes(&w["orig"]));
            let (g, h, G, H) = gens(4096);
            let made = outcome(|| gen_proof_for_randomizer(&ot, &odb, &mut nt.clone(), &mut ndb.clone(), &idx, &vals, d, &q.p, &q.s, LABEL, &g, &h, &G, &H)).1;
            // the nodes on the paths of the modified indices, in either tree
            let (mut res, mut ver) = (vec![], vec![]);
            for orig in [true, false] {
                let (t, db) = if orig { (&ot, &odb) } else { (&nt, &ndb) };
                let mut keys: Vec<Vec<u8>> = vec![];
                for i in &idx {
                    let mut cur = t.root.clone();
                    for x in VanillaSparseMerkleTree_4::leaf_index_to_path(i, d) {
                        let k = cur.to_bytes();
                        cur = bulletproofs_amcl::utils::hash_db::HashDb::get(db, &k).unwrap()[x as usize].clone();
                        if !keys.contains(&k) {
                            keys.push(k);
                        }
                    }
                }
                for k in keys {
                    let mut o = Holey { db: odb.clone(), hole: if orig { k.clone() } else { vec![] } };
                    let mut n = Holey { db: ndb.clone(), hole: if orig { vec![] } else { k.clone() } };
                    let _ = &mut o;
                    res.push(outcome(|| gen_proof_for_randomizer(&ot, &o, &mut nt.clone(), &mut n, &idx, &vals, d, &q.p, &q.s, LABEL, &g, &h, &G, &H)).0);
                    if let (false, Some((p, cm))) = (orig, made.clone()) {
                        ver.push(outcome(|| verify_proof_for_randomizer(&mut nt.clone(), &mut n, &idx, d, &q.p, &q.s, p.clone(), cm.clone(), LABEL, &g, &h, &G, &H)).0);
                    }
                }
            }
            json!({"made": made.is_some(), "res": res, "ver": ver})
        }
        _ => {
            // an honest proof first: it tells the padded size
            let (k, r) = outcome(|| gen(s, w, rands.clone(), 4096));
            let (proof, comms) = match r {
                Some(x) => x,
                None => return json!({"base": k}),
            };
            let mut pv = serde_json::to_value(&proof).unwrap();
            let L: G1Vector = serde_json::from_value(pv["ipp_proof"]["L"].clone()).unwrap();
            let R: G1Vector = serde_json::from_value(pv["ipp_proof"]["R"].clone()).unwrap();
            let lg = L.as_slice().len();
            let pad = 1usize << lg;
            let sz = (size(pad, &c["dG"]), size(pad, &c["dH"]));
            if st(c, "kind") == "prove" {
                let res = with(Some(sz), &mut || outcome(|| gen(s, w, rands.clone(), 0)).0);
                return json!({"base": "ok", "lg": lg, "pad": pad, "G": sz.0, "H": sz.1, "nc": comms.len(), "res": res});
            }
            let (mut l, mut r, mut cm) = (L.as_slice().to_vec(), R.as_slice().to_vec(), comms.clone());
            resize(&mut l, size(lg, &c["dL"]));
            resize(&mut r, size(lg, &c["dR"]));
            resize(&mut cm, size(comms.len(), &c["dC"]));
            let o = json!({"base": "ok", "lg": lg, "pad": pad, "G": sz.0, "H": sz.1, "L": l.len(), "R": r.len(), "nc": comms.len(), "C": cm.len()});
            let (l, r): (G1Vector, G1Vector) = (l.into(), r.into());
            pv["ipp_proof"]["L"] = serde_json::to_value(&l).unwrap();
            pv["ipp_proof"]["R"] = serde_json::to_value(&r).unwrap();
            let bad: R1CSProof = serde_json::from_value(pv).unwrap();
            let mut o = o;
            o["res"] = json!(with(Some(sz), &mut || outcome(|| ver(s, bad.clone(), cm.clone(), 0)).0));
            o
        }
    }
}
fn ngens(c: &Value) -> usize {
    c["gens"].as_u64().unwrap_or(4096) as usize
}

/// {s, w, rands, alts}: proof of s from witness w, its verdict, and its verdict as a proof of every statement in alts
pub fn honest(c: &Value) -> Value {
    let s = &c["s"];
    let n = ngens(c);
    let rands = if arr(&c["rands"]).is_empty() { None } else { Some(vfes(&c["rands"])) };
    let (gk, r) = outcome(|| gen(s, &c["w"], rands.clone(), n));
    let mut o = json!({"gen": gk, "ver": "none", "alts": [], "nc": 0, "given": true});
    if gk == "panic" {
        o["msg"] = json!(last_panic());
    }
    if let Some((proof, comms)) = r {
        let (vk, _) = outcome(|| ver(s, proof.clone(), comms.clone(), n));
        o["ver"] = json!(vk);
        o["nc"] = json!(comms.len());
        if let Some(r) = rands {
            // the caller's blinding is used for the caller's values
            let (g, h, _, _) = gens(0);
            let vals = vfes(&c["w"]["vals"]);
            let first = num(c, "rpos");
            o["given"] = json!(r.iter().enumerate().all(|(i, x)| comms[first + i] == &(&g * &vals[i]) + &(&h * x)));
        }
        let alts: Vec<String> =
            arr(&c["alts"]).iter().map(|a| outcome(|| ver(a, proof.clone(), comms.clone(), n)).0).collect();
        o["alts"] = json!(alts);
    }
    o
}

/// {s, w, rands}: what every random scalar does to the commitments handed over with a proof
pub fn grand(c: &Value) -> Value {
    use amcl_wrapper::trace;
    use std::collections::HashMap;
    let s = &c["s"];
    let n = ngens(c);
    let rands = if arr(&c["rands"]).is_empty() { None } else { Some(vfes(&c["rands"])) };
    let delta = FE::from(1000003u64);
    let run = |over: HashMap<usize, Vec<u8>>, seed: Option<u64>, full: bool| {
        trace::start(over, seed);
        let (k, r) = outcome(|| {
            if full || st(s, "g") == "rand" {
                return gen(s, &c["w"], rands.clone(), n).map(|x| x.1);
            }
            // the commitments are made before the proof
            let (g, h, _, _) = gens(0);
            let mut t = Transcript::new(LABEL);
            let mut p = Prover::new(&g, &h, &mut t);
            prove_on(s, &c["w"], rands.clone(), &mut p)
        });
        (k, r.unwrap_or_default(), trace::stop())
    };
    let (k0, c0, d0) = run(HashMap::new(), Some(1), false);
    if k0 != "ok" {
        return json!({"status": k0});
    }
    let (_, h, _, _) = gens(0);
    let dh = &h * &delta;
    let fixed: Vec<usize> = (0..rands.as_ref().map(|r| r.len()).unwrap_or(0)).map(|i| i + num(c, "rpos")).collect();
    let mut open: Vec<usize> = (0..c0.len()).filter(|i| !fixed.contains(i)).collect();
    let mut roles = vec![];
    for k in 0..d0.len().min(2 * c0.len() + 64) {
        if open.is_empty() {
            break;
        }
        let mut o = HashMap::new();
        o.insert(k, (&FE::from_bytes(&d0[k].value).unwrap() + &delta).to_bytes());
        let (k1, c1, _) = run(o, Some(1), false);
        if k1 != "ok" || c1.len() != c0.len() {
            return json!({"status": format!("{} with another random scalar", k1)});
        }
        let eff: Vec<Value> = (0..c0.len())
            .filter(|i| c0[*i] != c1[*i])
            .map(|i| json!([i, if &c1[i] - &c0[i] == dh { "h" } else { "?" }]))
            .collect();
        if eff.len() == 1 && eff[0][1] == "h" {
            open.retain(|i| json!(i) != eff[0][0]);
        }
        roles.push(json!({ "eff": eff }));
    }
    let free: Vec<Value> = (0..2)
        .map(|_| {
            let (k, cm, d) = run(HashMap::new(), None, true);
            json!({"status": k, "comms": cm.iter().map(ghex).collect::<Vec<_>>(), "draws": d.iter().map(|x| bhex(&x.value)).collect::<Vec<_>>()})
        })
        .collect();
    json!({"status": "ok", "roles": roles, "nc": c0.len(), "fixed": fixed, "free": free})
}

/// {nonce, other, size, count, data}: the indices derived from a nonce and the data distorted there (module Distortion)
pub fn distort(c: &Value) -> Value {
    use amcl_wrapper::amcl::sha3::{SHA3, SHAKE256};
    use amcl_wrapper::field_elem::FieldElementVector;
    let (size, count) = (num(c, "size"), num(c, "count"));
    let stream = |n: &FE| -> Vec<String> {
        let mut h = SHA3::new(SHAKE256);
        for b in n.to_bytes() {
            h.process(b);
        }
        let mut out = vec![0u8; 2 * count * 48];
        let l = out.len();
        if l > 0 {
            h.shake(&mut out, l);
        }
        out.chunks(48).map(bhex).collect()
    };
    let (n, m) = (vfe(&c["nonce"]), vfe(&c["other"]));
    let idx = |x: &FE| outcome(|| Ok(get_indices_to_modify(x, size, count))).1;
    let show = |x: &Option<std::collections::HashSet<FE>>| -> Vec<String> {
        x.as_ref().map(|s| s.iter().map(fhex).collect()).unwrap_or_else(|| vec!["panic".into()])
    };
    let a = idx(&n);
    let mut o = json!({"idx": show(&a), "again": show(&idx(&n)), "idx2": show(&idx(&m)), "stream": stream(&n), "stream2": stream(&m)});
    let data = vfes(&c["data"]);
    if let (Some(a), false) = (a, data.is_empty()) {
        let dv: FieldElementVector = data.clone().into();
        let r = outcome(|| Ok(get_randomized_data(&dv, &a))).1;
        o["hashes"] = json!(data.iter().map(|x| fhex(&FE::from_msg_hash(&x.to_bytes()))).collect::<Vec<_>>());
        o["rnd"] = json!(data.iter().map(|x| fhex(&randomize(x))).collect::<Vec<_>>());
        match r {
            Some((kept, new)) => {
                o["new"] = json!(fhexs(new.iter()));
                o["kept"] = json!(kept.iter().map(|(i, v)| json!([fhex(i), fhex(v)])).collect::<Vec<_>>());
            }
            None => {
                o["new"] = json!(["panic"]);
                o["kept"] = json!([]);
            }
        }
    }
    o
}

// ---------------------------------------------------------------- circuits
#[cfg(verif_hooks)]
pub struct Circuit {
    pub n: usize,
    pub pos: Vec<usize>,
    pub statics: Vec<(usize, FE)>,
    pub m: usize,
    pub cons: Vec<Vec<(Variable, FE)>>,
}
#[cfg(verif_hooks)]
pub fn extract(s: &Value, nc: usize) -> Result<Circuit, String> {
    let (g, h, _, _) = gens(0);
    let dummies: Vec<G1> = (0..nc).map(|i| &G1::generator() * &FE::from(1000003 + i as u64)).collect();
    let mut t = Transcript::new(LABEL);
    let mut v = Verifier::new(&mut t);
    match guard(|| verify_on(s, dummies.clone(), &g, &h, &mut v)) {
        Ok(Ok(())) => (),
        Ok(Err(e)) => return Err(err_kind(&e)),
        Err(_) => return Err("panic".into()),
    }
    let vs = v.verif_commitments();
    let mut pos = vec![];
    for d in &dummies {
        pos.push(vs.iter().position(|x| x == d).map(|x| x + 1).unwrap_or(0));
    }
    let mut statics = vec![];
    for (i, x) in vs.iter().enumerate() {
        if pos.contains(&(i + 1)) {
            continue;
        }
        match [0u64, 101, 1].iter().find(|k| *x == &g * &FE::from(**k)) {
            Some(k) => statics.push((i + 1, FE::from(*k))),
            None => return Err("unknown static".into()),
        }
    }
    Ok(Circuit {
        n: v.verif_num_multipliers(),
        pos,
        statics,
        m: vs.len(),
        cons: v.verif_constraints().iter().map(|l| l.terms.clone()).collect(),
    })
}
#[cfg(verif_hooks)]
fn rows(c: &Circuit) -> Vec<(Vec<(usize, FE)>, FE)> {
    c.cons
        .iter()
        .map(|l| {
            let mut t: std::collections::BTreeMap<usize, FE> = Default::default();
            let mut k = FE::zero();
            for (v, f) in l {
                let i = match v {
                    Variable::Committed(i) => i + 1,
                    Variable::MultiplierLeft(i) => c.m + 3 * i + 1,
                    Variable::MultiplierRight(i) => c.m + 3 * i + 2,
                    Variable::MultiplierOutput(i) => c.m + 3 * i + 3,
                    Variable::One() => {
                        k = &k + f;
                        continue;
                    }
                };
                let e = t.entry(i).or_insert_with(FE::zero);
                *e = &*e + f;
            }
            (t.into_iter().filter(|x| !x.1.is_zero()).collect(), k)
        })
        .collect()
}
/// {id, pubs: [statements that differ in their public outputs: all zero, then unit vectors], nc, hs, hw} -> the circuit
#[cfg(verif_hooks)]
pub fn circuit(c: &Value) -> Value {
    let nc = num(c, "nc");
    let pubs = arr(&c["pubs"]);
    let base = match extract(&pubs[0], nc) {
        Ok(b) => b,
        Err(e) => return json!({ "err": e }),
    };
    let r0 = rows(&base);
    let mut dep: Vec<Vec<(usize, FE)>> = vec![vec![]; r0.len()];
    for (k, p) in pubs.iter().enumerate().skip(1) {
        let x = match extract(p, nc) {
            Ok(b) => b,
            Err(e) => return json!({ "err": e }),
        };
        let r = rows(&x);
        if r.len() != r0.len() || x.n != base.n || x.m != base.m || r.iter().zip(&r0).any(|(a, b)| a.0 != b.0) {
            return json!({"err": "structure depends on the public output"});
        }
        for i in 0..r.len() {
            let d = &r[i].1 - &r0[i].1;
            if !d.is_zero() {
                dep[i].push((k, d));
            }
        }
    }
    // public outputs become further variables after the multipliers
    let top = base.m + 3 * base.n;
    let cons: Vec<Value> = r0
        .iter()
        .zip(&dep)
        .map(|((t, k), d)| {
            let mut tt: Vec<Value> = t.iter().map(|(i, f)| json!([i, fhex(f)])).collect();
            tt.extend(d.iter().map(|(i, f)| json!([top + i, fhex(f)])));
            json!([tt, fhex(k)])
        })
        .collect();
    let mut hints: Vec<Vec<String>> = vec![];
    if c["hw"].is_object() {
        let (g, h, _, _) = gens(0);
        let _ = guard(|| {
            let mut t = Transcript::new(LABEL);
            let mut p = Prover::new(&g, &h, &mut t);
            if prove_on(&c["hs"], &c["hw"], None, &mut p).is_ok() {
                let (l, r, o) = p.verif_wires();
                if l.len() == base.n {
                    hints = (0..l.len()).map(|i| vec![fhex(&l[i]), fhex(&r[i]), fhex(&o[i])]).collect();
                }
            }
        });
    }
    json!({"err": "", "m": base.m, "n": base.n, "np": pubs.len() - 1, "pos": base.pos,
           "statics": base.statics.iter().map(|(i, f)| json!([i, fhex(f)])).collect::<Vec<_>>(),
           "cons": cons, "hints": hints})
}
/// {s, nc, vals: all committed values, wires: [[l, r]...]}: a proof from exactly that assignment, and the verdict of the real verifier
#[cfg(verif_hooks)]
pub fn forge(c: &Value) -> Value {
    let s = &c["s"];
    let x = match extract(s, num(c, "nc")) {
        Ok(x) => x,
        Err(e) => return json!({"ver": "none", "err": e}),
    };
    let n = ngens(c).max(x.n.next_power_of_two());
    let (g, h, G, H) = gens(n);
    let vals = vfes(&c["vals"]);
    let mut comms = vec![G1::identity(); x.m];
    let r = guard(|| -> Res<R1CSProof> {
        let mut t = Transcript::new(LABEL);
        let mut p = Prover::new(&g, &h, &mut t);
        for i in 0..x.m {
            let b = if x.statics.iter().any(|q| q.0 == i + 1) { FE::zero() } else { FE::random() };
            comms[i] = p.commit(vals[i].clone(), b).0;
        }
        for w in arr(&c["wires"]) {
            p.allocate_multiplier(Some((vfe(&w[0]), vfe(&w[1]))))?;
        }
        for l in &x.cons {
            p.constrain(l.iter().collect());
        }
        p.prove(&G, &H)
    });
    match r {
        Ok(Ok(proof)) => {
            let given: Vec<G1> = x.pos.iter().map(|i| if *i == 0 { G1::identity() } else { comms[*i - 1].clone() }).collect();
            json!({"ver": outcome(|| ver(s, proof, given, n)).0, "err": ""})
        }
        Ok(Err(e)) => json!({"ver": "none", "err": err_kind(&e)}),
        Err(m) => json!({"ver": "none", "err": m}),
    }
}
#[cfg(not(verif_hooks))]
pub fn circuit(_: &Value) -> Value {
    json!({"err": "no hooks"})
}
#[cfg(not(verif_hooks))]
pub fn forge(_: &Value) -> Value {
    json!({"ver": "none", "err": "no hooks"})
}
