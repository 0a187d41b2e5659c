//! Supporting functions of src/utils (module Support of the specification).
use crate::util::*;
use amcl_wrapper::field_elem::FieldElementVector;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::utils::hash_db::{HashDb, InMemoryHashDb};
use bulletproofs_amcl::utils::vector_poly::{Poly2, Poly6, VecPoly1, VecPoly3};
use bulletproofs_amcl::utils::{gen_challenges, get_generators};
use serde_json::{json, Value};

fn fv(v: &Value) -> FieldElementVector {
    vfes(v).into()
}
fn hv(v: &FieldElementVector) -> Vec<String> {
    fhexs(v.iter())
}

pub fn run(c: &Value) -> Value {
    match st(c, "kind") {
        "poly" => {
            let p1 = |k: &str| VecPoly1(fv(&c[k][0]), fv(&c[k][1]));
            let p3 = |k: &str| VecPoly3(fv(&c[k][0]), fv(&c[k][1]), fv(&c[k][2]), fv(&c[k][3]));
            let xs = vfes(&c["xs"]);
            let sc = vfes(&c["sc"]);
            let n = num(c, "n");
            let ip1 = p1("l1").inner_product(&p1("r1"));
            let ip3 = VecPoly3::special_inner_product(&p3("l3"), &p3("r3"));
            let p2 = Poly2(sc[0].clone(), sc[1].clone(), sc[2].clone());
            let p6 = Poly6 {
                t1: sc[0].clone(),
                t2: sc[1].clone(),
                t3: sc[2].clone(),
                t4: sc[3].clone(),
                t5: sc[4].clone(),
                t6: sc[5].clone(),
            };
            let z1 = VecPoly1::zero(n);
            let z3 = VecPoly3::zero(n);
            let zero = [&z1.0, &z1.1, &z3.0, &z3.1, &z3.2, &z3.3].iter().all(|v| v.len() == n && v.iter().all(|x| x.is_zero()));
            json!({
                "ip1": fhexs(&[ip1.0, ip1.1, ip1.2]),
                "ip3": fhexs(&[ip3.t1, ip3.t2, ip3.t3, ip3.t4, ip3.t5, ip3.t6]),
                "ev1": xs.iter().map(|x| hv(&p1("l1").eval(x))).collect::<Vec<_>>(),
                "ev3": xs.iter().map(|x| hv(&p3("g3").eval(x))).collect::<Vec<_>>(),
                "p2": xs.iter().map(|x| fhex(&p2.eval(x))).collect::<Vec<_>>(),
                "p6": xs.iter().map(|x| fhex(&p6.eval(x))).collect::<Vec<_>>(),
                "zero": zero,
            })
        }
        "gens" => {
            let n = num(c, "n");
            let f = |n| get_generators(st(c, "prefix"), n).iter().map(ghex).collect::<Vec<_>>();
            json!({"g": f(n), "again": f(n), "more": f(n + 3), "ident": ghex(&G1::identity())})
        }
        "chal" => {
            let n = num(c, "n");
            let pts: Vec<G1> = arr(&c["pts"]).iter().map(vpt).collect();
            let state: Vec<u8> = arr(&c["state"]).iter().map(|b| b.as_u64().unwrap() as u8).collect();
            let d = vpt(&c["d"]);
            let f = |pts: &[G1], s: &mut Vec<u8>, n: usize| {
                let r: Vec<&G1> = pts.iter().collect();
                fhexs(&gen_challenges(&r, s, n))
            };
            let mut s0 = state.clone();
            let r = f(&pts, &mut s0, n);
            let next = f(&pts, &mut s0, n);
            let again = f(&pts, &mut state.clone(), n);
            let more = f(&pts, &mut state.clone(), n + 2);
            let mut alts = vec![];
            for i in 0..pts.len() {
                let mut p = pts.clone();
                p[i] = &p[i] + &d;
                alts.push(f(&p, &mut state.clone(), n));
                p[i] = pts[i].negation();
                alts.push(f(&p, &mut state.clone(), n));
                if i > 0 {
                    let mut p = pts.clone();
                    p.swap(i - 1, i);
                    alts.push(f(&p, &mut state.clone(), n));
                }
            }
            for i in 0..state.len() {
                let mut s = state.clone();
                s[i] ^= 1 << (i % 8);
                alts.push(f(&pts, &mut s, n));
            }
            let mut s = state.clone();
            s.push(0);
            alts.push(f(&pts, &mut s, n));
            s.pop();
            s.insert(0, 0);
            alts.push(f(&pts, &mut s, n));
            if !state.is_empty() {
                alts.push(f(&pts, &mut state[..state.len() - 1].to_vec(), n));
            }
            json!({"r": r, "again": again, "more": more, "alts": alts, "next": next})
        }
        _ => {
            let mut db: InMemoryHashDb<String> = InMemoryHashDb::new();
            let mut out = vec![];
            for op in arr(&c["hist"]) {
                let k = op[1].as_str().unwrap();
                let key = if k.is_empty() { vec![] } else { hex_bytes(k, k.len() / 2) };
                if op[0].as_str() == Some("ins") {
                    db.insert(key, op[2].as_str().unwrap().to_string());
                    out.push(String::new());
                } else {
                    out.push(match db.get(&key) {
                        Ok(v) => v,
                        Err(R1CSError::HashNotFoundInDB { hash }) => if hash == key { "absent".into() } else { "absent, another key".into() },
                        Err(e) => err_kind(&e),
                    });
                }
            }
            json!({ "out": out })
        }
    }
}
