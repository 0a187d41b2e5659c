//! Native hash functions (modules Poseidon and Mimc of the specification).
use crate::util::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::{
    PoseidonParams, Poseidon_hash_2, Poseidon_hash_4, Poseidon_hash_8, Poseidon_permutation, SboxType,
};
use serde_json::{json, Value};

/// parameter record of the specification; `std` asks the library for its own constants
pub fn params(p: &Value, std: bool) -> PoseidonParams {
    let (w, fb, fe, pr) = (num(p, "w"), num(p, "fb"), num(p, "fe"), num(p, "p"));
    if std {
        return PoseidonParams::new(w, fb, fe, pr);
    }
    PoseidonParams {
        width: w,
        full_rounds_beginning: fb,
        full_rounds_end: fe,
        partial_rounds: pr,
        round_keys: vfes(&p["keys"]),
        MDS_matrix: arr(&p["mds"]).iter().map(vfes).collect(),
    }
}
pub fn sbox(s: &str) -> SboxType {
    match s {
        "Cube" => SboxType::Cube,
        "Inverse" => SboxType::Inverse,
        "Quint" => SboxType::Quint,
        _ => panic!("sbox"),
    }
}
pub fn hash_w(xs: Vec<FE>, p: &PoseidonParams, s: &SboxType) -> FE {
    match xs.len() {
        2 => Poseidon_hash_2(xs[0].clone(), xs[1].clone(), p, s),
        4 => Poseidon_hash_4(xs, p, s),
        _ => Poseidon_hash_8(xs, p, s),
    }
}

pub fn run(c: &Value) -> Value {
    let ins: Vec<Vec<FE>> = arr(&c["ins"]).iter().map(vfes).collect();
    if st(c, "kind") == "mimc" {
        let cs = vfes(&c["consts"]);
        let h: Vec<String> = ins.iter().map(|i| fhex(&mimc(&i[0], &i[1], &cs, cs.len()))).collect();
        return json!({ "h": h });
    }
    let p = params(&c["P"], st(c, "kind") == "std");
    let sb: Vec<SboxType> = arr(&c["sboxes"]).iter().map(|s| sbox(s.as_str().unwrap())).collect();
    let perm: Vec<Vec<Vec<String>>> =
        sb.iter().map(|s| ins.iter().map(|i| fhexs(&Poseidon_permutation(i, &p, s))).collect()).collect();
    let hash: Vec<Vec<String>> =
        sb.iter().map(|s| ins.iter().map(|i| fhex(&hash_w(i[1..].to_vec(), &p, s))).collect()).collect();
    json!({"keys": fhexs(&p.round_keys), "mds": p.MDS_matrix.iter().map(|r| fhexs(r)).collect::<Vec<_>>(), "perm": perm, "hash": hash})
}
