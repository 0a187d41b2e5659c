//! Histories of the sparse Merkle trees (module SmtHist of the specification).
use crate::hash::params;
use crate::util::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::VanillaSparseMerkleTree_4;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::VanillaSparseMerkleTree_8;
use bulletproofs_amcl::utils::hash_db::InMemoryHashDb;
use serde_json::{json, Value};

macro_rules! history {
    ($name:ident, $tree:ident, $n:expr) => {
        fn $name(c: &Value) -> Value {
            let p = params(&c["P"], c["std"].as_bool().unwrap());
            let mut db = InMemoryHashDb::new();
            let mut vs: Vec<$tree> = vec![];
            let mut out = vec![];
            for op in arr(&c["ops"]) {
                let kind = op[0].as_str().unwrap();
                if kind == "new" {
                    let d = op[1].as_u64().unwrap() as usize;
                    out.push(match guard(|| $tree::new(&p, d, &mut db)) {
                        Ok(t) => {
                            let r = fhex(&t.root);
                            vs.push(t);
                            json!({"err": "ok", "root": r, "ret": r})
                        }
                        Err(m) => {
                            // keep the numbering of versions
                            return json!({ "harness_panic": m });
                        }
                    });
                    continue;
                }
                let h = op[1].as_u64().unwrap() as usize;
                let idx = vfe(&op[2]);
                let mut t = vs[h].clone();
                let root0 = fhex(&t.root);
                let lost = FE::from_msg_hash(b"no such root");
                let mut o = match kind {
                    "upd" => {
                        let (err, r) = outcome(|| t.update(&idx, vfe(&op[3]), &mut db));
                        let o = json!({"err": err, "ret": r.map(|f| fhex(&f)).unwrap_or_default(), "root": fhex(&t.root)});
                        vs.push(t);
                        out.push(o);
                        continue;
                    }
                    "get" => {
                        let mut proof = Some(vec![]);
                        let (err, r) = outcome(|| t.get(&idx, &mut proof, &db));
                        let path: Vec<Vec<String>> = proof.unwrap_or_default().iter().map(|l| fhexs(l.iter())).collect();
                        json!({"err": err, "val": r.map(|f| fhex(&f)).unwrap_or_default(), "path": path})
                    }
                    "val" => {
                        let mut none = None;
                        let (err, r) = outcome(|| t.get(&idx, &mut none, &db));
                        json!({"err": err, "val": r.map(|f| fhex(&f)).unwrap_or_default(), "none": none.is_none()})
                    }
                    "lost" => {
                        let mut u = t.clone();
                        u.root = lost;
                        let (e1, _) = outcome(|| u.get(&idx, &mut None, &db));
                        let (e2, _) = outcome(|| u.get(&idx, &mut Some(vec![]), &db));
                        json!({"err": if e1 == e2 { e1 } else { format!("{} / {}", e1, e2) }})
                    }
                    "lostupd" => {
                        let mut u = t.clone();
                        u.root = lost.clone();
                        let (err, _) = outcome(|| u.update(&idx, vfe(&op[3]), &mut db));
                        json!({"err": if u.root == lost { err } else { "moved root".into() }})
                    }
                    "ver" => {
                        let path: Vec<[FE; $n]> = arr(&op[4])
                            .iter()
                            .map(|l| {
                                let mut it = vfes(l).into_iter();
                                [(); $n].map(|_| it.next().unwrap())
                            })
                            .collect();
                        let root = op[5].as_str().filter(|s| *s != "none").map(fe);
                        match guard(|| t.verify_proof(&idx, &vfe(&op[3]), &path, root.as_ref())) {
                            Ok(b) => json!({"err": "ok", "ok": b}),
                            Err(_) => json!({"err": "panic", "ok": false}),
                        }
                    }
                    k => panic!("op {}", k),
                };
                o["same"] = json!(fhex(&t.root) == root0);
                out.push(o);
            }
            json!({ "out": out })
        }
    };
}
history!(h4, VanillaSparseMerkleTree_4, 3);
history!(h8, VanillaSparseMerkleTree_8, 7);

pub fn run(c: &Value) -> Value {
    if num(c, "a") == 4 {
        h4(c)
    } else {
        h8(c)
    }
}
