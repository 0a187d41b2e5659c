//! Several gadgets on one constraint system (module Compose of the specification).
use crate::gadget::{gens, prove_on, two_one, u64h, verify_on, LABEL};
use crate::hash::{params, sbox};
use crate::util::*;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::bound_check::bound_check_gadget;
use bulletproofs_amcl::r1cs::gadgets::hamming_distance::hamming_distance_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::bit::bit_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::non_zero::is_nonzero_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::positive_no::positive_no_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::vanilla_merkle_merkle_tree_4_verif_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::vanilla_merkle_merkle_tree_8_verif_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::vector_sum::vector_sum_constraints;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::{allocate_statics_for_prover, allocate_statics_for_verifier};
use bulletproofs_amcl::r1cs::gadgets::set_membership::set_membership_gadget;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::vector_product_gadget;
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::set_non_membership_gadget;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, Prover, RandomizedConstraintSystem, Variable, Verifier};
use merlin::Transcript;
use serde_json::{json, Value};
use std::collections::HashMap;

type Res<T> = Result<T, R1CSError>;
type Q = AllocatedQuantity;

fn needs_zero(s: &Value) -> bool {
    ["pos2", "pos4", "pos8", "smt4", "smt8"].contains(&st(s, "g"))
}
/// gadget s on the variables q (in the order of the statement's commitments)
fn gadget_on<CS: ConstraintSystem>(cs: &mut CS, s: &Value, mut q: Vec<Q>, zero: Option<Variable>) -> Res<()> {
    let vars: Vec<Variable> = q.iter().map(|x| x.variable).collect();
    match st(s, "g") {
        "bound" => bound_check_gadget(cs, q[0].clone(), q[1].clone(), q[2].clone(), u64h(&s["upper"]), u64h(&s["lower"]), num(s, "bits")),
        "nonzero" => is_nonzero_gadget(cs, vars[0], vars[1]),
        "setmem" => {
            let v = q.remove(0);
            set_membership_gadget(cs, v, q, &vfes(&s["set"]))
        }
        "nonmem" => {
            let v = q.remove(0);
            let d = q.iter().step_by(2).cloned().collect();
            let i = q.iter().skip(1).step_by(2).cloned().collect();
            set_non_membership_gadget(cs, v, d, i, &vfes(&s["set"]))
        }
        "setalt" => {
            let v = q.pop().unwrap();
            for b in &q {
                bit_gadget(cs, b)?;
            }
            vector_sum_constraints(cs, q.iter().map(|x| x.variable).collect(), 1)?;
            let set: Vec<u64> = arr(&s["set"]).iter().map(u64h).collect();
            vector_product_gadget(cs, &set, &q, &v)
        }
        "hamming" => hamming_distance_gadget(cs, q, &vfes(&s["new"]), u64h(&s["count"])),
        "mimc" => {
            let c = vfes(&s["consts"]);
            mimc_gadget(cs, q[0].clone(), q[1].clone(), c.len(), &c, &vfe(&s["image"]))
        }
        "posno" => positive_no_gadget(cs, q[0].clone(), num(s, "bits")),
        "bit" => bit_gadget(cs, &q[0]),
        "vecsum" => vector_sum_constraints(cs, vars, u64h(&s["sum"])),
        g => {
            let p = params(&s["P"], false);
            let b = sbox(st(s, "sbox"));
            match g {
                "perm" => Poseidon_permutation_gadget(cs, q, &p, &b, &vfes(&s["out"])),
                "pos2" => Poseidon_hash_2_gadget(cs, vars[0], vars[1], vec![zero.unwrap()], &p, &b, &vfe(&s["image"])),
                "pos4" => Poseidon_hash_4_gadget(cs, vars, vec![zero.unwrap()], &p, &b, &vfe(&s["image"])),
                "pos8" => Poseidon_hash_8_gadget(cs, vars, zero.unwrap(), &p, &b, &vfe(&s["image"])),
                "smt4" => vanilla_merkle_merkle_tree_4_verif_gadget(
                    cs, num(s, "depth"), &vfe(&s["image"]), vars[0], q[1].clone(), vars[2..].to_vec(), vec![zero.unwrap()], &p, &b,
                ),
                "smt8" => vanilla_merkle_merkle_tree_8_verif_gadget(
                    cs, num(s, "depth"), &vfe(&s["image"]), vars[0], q[1].clone(), vars[2..].to_vec(), zero.unwrap(), &p, &b,
                ),
                _ => panic!("HARNESS: no gadget {}", g),
            }
        }
    }
}
fn k(n: u64) -> LinearCombination {
    LinearCombination::from(FE::from(n))
}
fn op<CS: ConstraintSystem>(cs: &mut CS, name: &str) -> Res<()> {
    match name {
        "half" => {
            let a = cs.evaluate_lc(&k(3));
            let v = cs.allocate(a)?;
            cs.constrain(v - FE::from(3u64));
            Ok(())
        }
        "mul" => {
            let l: LinearCombination = k(4);
            let (_, _, o) = cs.multiply(l, k(5));
            cs.constrain(o - FE::from(20u64));
            Ok(())
        }
        _ => two_one(cs),
    }
}
/// the documented constants behind statics, each off by the given difference
fn statics_on<CS: ConstraintSystem>(cs: &mut CS, e: &Value, vars: Vec<Variable>) -> Res<()> {
    for (i, v) in vars.into_iter().enumerate() {
        let c = if i == 1 { PADDING_CONST } else { ZERO_CONST };
        let d = arr(&e["d"]).get(i).map(vfe).unwrap_or(FE::one());
        cs.constrain(v - (FE::from(c) + d));
    }
    Ok(())
}
/// Commitments of the caller: (value, or the point) -> variable
struct Pool<F: FnMut(&FE, FE) -> (G1, Variable)> {
    commit: F,
    known: HashMap<String, (G1, Variable)>,
    made: Vec<G1>,
}
impl<F: FnMut(&FE, FE) -> (G1, Variable)> Pool<F> {
    fn vars(&mut self, e: &Value) -> Vec<Q> {
        let share = e["share"].as_bool().unwrap();
        let bl = vfe(&e["bl"]);
        arr(&e["C"])
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let key = v.as_str().unwrap().to_string();
                let x = vfe(v);
                let hit = if share { self.known.get(&key).cloned() } else { None };
                let (_, var) = hit.unwrap_or_else(|| {
                    let r = (self.commit)(&x, &bl + &FE::from(i as u64 + 1));
                    self.made.push(r.0.clone());
                    self.known.insert(key, r.clone());
                    r
                });
                Q { variable: var, assignment: Some(x) }
            })
            .collect()
    }
}
/// a step inside a callback: statement, variables, static zero
type Inner = (Value, Value, Vec<Q>, Option<Variable>);
fn run_body<CS: RandomizedConstraintSystem>(cs: &mut CS, body: &[Inner], chal: bool) -> Res<()> {
    if chal {
        let c = cs.challenge_scalar(b"compose");
        cs.constrain(LinearCombination::from(c.clone()) - LinearCombination::from(c));
    }
    for (e, s, q, z) in body {
        if st(e, "k") == "op" {
            op(cs, st(e, "op"))?;
        } else {
            gadget_on(cs, s, q.clone(), *z)?;
        }
    }
    Ok(())
}

/// {steps, vs}: one proof of all steps, and what verifiers with the given steps say
pub fn run(c: &Value) -> Value {
    let steps = arr(&c["steps"]);
    let (g, h, G, H) = gens(2048);
    let mut comms: Vec<Vec<G1>> = vec![];
    let (gk, proof) = outcome(|| {
        let mut t = Transcript::new(LABEL);
        let mut p = Prover::new(&g, &h, &mut t);
        let mut known: HashMap<String, (G1, Variable)> = HashMap::new();
        for e in steps {
            let mut out = vec![];
            match st(e, "k") {
                "op" => op(&mut p, st(e, "op"))?,
                "statics" => {
                    let v = allocate_statics_for_prover(&mut p, arr(&e["d"]).len());
                    statics_on(&mut p, e, v)?
                }
                "wrap" => {
                    let r = vfes(&e["rands"]);
                    out = prove_on(&e["s"], &e["w"], if r.is_empty() { None } else { Some(r) }, &mut p)?;
                }
                k => {
                    let list: Vec<Value> = if k == "cb" { arr(&e["body"]).to_vec() } else { vec![e.clone()] };
                    let mut inner: Vec<Inner> = vec![];
                    for b in &list {
                        if st(b, "k") == "op" {
                            inner.push((b.clone(), json!(null), vec![], None));
                            continue;
                        }
                        let mut pool = Pool { commit: |v: &FE, r: FE| p.commit(v.clone(), r), known: std::mem::take(&mut known), made: vec![] };
                        let q = pool.vars(b);
                        out.append(&mut pool.made);
                        known = std::mem::take(&mut pool.known);
                        let z = if needs_zero(&b["s"]) { Some(allocate_statics_for_prover(&mut p, 1)[0]) } else { None };
                        inner.push((b.clone(), b["s"].clone(), q, z));
                    }
                    if k == "cb" {
                        let chal = num(e, "chal") == 1;
                        p.specify_randomized_constraints(move |cs| run_body(cs, &inner, chal))?;
                    } else {
                        let (_, s, q, z) = inner.remove(0);
                        gadget_on(&mut p, &s, q, z)?;
                    }
                }
            }
            comms.push(out);
        }
        p.prove(&G, &H)
    });
    let mut vs: Vec<String> = vec![];
    if let Some(proof) = proof {
        for v in arr(&c["vs"]) {
            vs.push(
                outcome(|| {
                    let mut t = Transcript::new(LABEL);
                    let mut ver = Verifier::new(&mut t);
                    let mut known: HashMap<String, (G1, Variable)> = HashMap::new();
                    for x in arr(v) {
                        let e = &steps[num(x, "i") - 1];
                        let given = comms[num(x, "cm") - 1].clone();
                        let other = if x["s"].is_object() && !x["b"].is_number() { Some(&x["s"]) } else { None };
                        match st(e, "k") {
                            "op" => op(&mut ver, st(e, "op"))?,
                            "statics" => {
                                let v = allocate_statics_for_verifier(&mut ver, arr(&e["d"]).len(), &g, &h);
                                statics_on(&mut ver, e, v)?
                            }
                            "wrap" => verify_on(other.unwrap_or(&e["s"]), given, &g, &h, &mut ver)?,
                            k => {
                                let list: Vec<Value> = if k == "cb" { arr(&e["body"]).to_vec() } else { vec![e.clone()] };
                                let mut inner: Vec<Inner> = vec![];
                                let mut it = given.into_iter();
                                for (n, b) in list.iter().enumerate() {
                                    if st(b, "k") == "op" {
                                        inner.push((b.clone(), json!(null), vec![], None));
                                        continue;
                                    }
                                    let mut pool = Pool {
                                        commit: |_: &FE, _: FE| {
                                            let c = it.next().expect("HARNESS: a commitment for every pool value");
                                            (c.clone(), ver.commit(c))
                                        },
                                        known: std::mem::take(&mut known),
                                        made: vec![],
                                    };
                                    let q = pool.vars(b).into_iter().map(|x| Q { variable: x.variable, assignment: None }).collect();
                                    known = std::mem::take(&mut pool.known);
                                    let z = if needs_zero(&b["s"]) { Some(allocate_statics_for_verifier(&mut ver, 1, &g, &h)[0]) } else { None };
                                    let s = if x["b"].as_u64() == Some(n as u64 + 1) { x["s"].clone() } else { other.unwrap_or(&b["s"]).clone() };
                                    inner.push((b.clone(), s, q, z));
                                }
                                if k == "cb" {
                                    let chal = num(e, "chal") == 1;
                                    ver.specify_randomized_constraints(move |cs| run_body(cs, &inner, chal))?;
                                } else {
                                    let (_, s, q, z) = inner.remove(0);
                                    gadget_on(&mut ver, &s, q, z)?;
                                }
                            }
                        }
                    }
                    ver.verify(&proof, &g, &h, &G, &H)
                })
                .0,
            );
        }
    }
    let msg = if gk == "panic" || vs.iter().any(|x| x == "panic") { last_panic() } else { String::new() };
    json!({"gen": gk, "vs": vs, "msg": msg})
}
