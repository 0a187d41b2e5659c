//! Protocol-level commands: simulated transcripts (C03), transcript traces (C04),
//! inner-product argument (C07), randomness roles (C09).
use crate::prog::*;
use crate::util::*;
use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::ipp::{InnerProductArgumentProof, IPP};
use bulletproofs_amcl::r1cs::R1CSProof;
use merlin::trace::Event;
use merlin::Transcript;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

pub const POINTS: [&str; 11] = ["A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6"];
pub const SCALARS: [&str; 3] = ["t_x", "t_x_blinding", "e_blinding"];

fn jp(p: &G1) -> Value {
    serde_json::to_value(p).unwrap()
}
fn jf(f: &FE) -> Value {
    serde_json::to_value(f).unwrap()
}
pub fn proof_from(v: &Value) -> R1CSProof {
    let mut m = Map::new();
    for k in POINTS.iter() {
        m.insert(k.to_string(), jp(&vpt(&v[*k])));
    }
    for k in SCALARS.iter() {
        m.insert(k.to_string(), jf(&vfe(&v[*k])));
    }
    let ipp = InnerProductArgumentProof { L: vpts(&v["L"]), R: vpts(&v["R"]), a: vfe(&v["a"]), b: vfe(&v["b"]) };
    m.insert("ipp_proof".into(), serde_json::to_value(&ipp).unwrap());
    serde_json::from_value(Value::Object(m)).expect("proof layout")
}
/// proof component by name ("A_I1", ..., "L" with index, "a", "b")
pub fn comp_point(p: &Value, name: &str, i: usize) -> G1 {
    let v = match name {
        "L" | "R" => {
            let g: G1Vector = serde_json::from_value(p["ipp_proof"][name].clone()).unwrap();
            return g.as_slice()[i].clone();
        }
        n => p[n].clone(),
    };
    serde_json::from_value(v).unwrap()
}
pub fn comp_scalar(p: &Value, name: &str) -> FE {
    let v = if name == "a" || name == "b" { p["ipp_proof"][name].clone() } else { p[name].clone() };
    serde_json::from_value(v).unwrap()
}
/// add d (times the base point, or as a scalar) to one component of a proof
fn moved(p: &G1, d: &str) -> G1 {
    if d == "neg" { p.negation() } else { p + &pt(d) }
}
pub fn mutate(proof: &R1CSProof, name: &str, i: usize, d: &str) -> R1CSProof {
    let mut v = serde_json::to_value(proof).unwrap();
    match name {
        "L" | "R" => {
            let mut g: G1Vector = serde_json::from_value(v["ipp_proof"][name].clone()).unwrap();
            let q = moved(&g.as_slice()[i], d);
            g[i] = q;
            v["ipp_proof"][name] = serde_json::to_value(&g).unwrap();
        }
        "a" | "b" => {
            let s = &comp_scalar(&v, name) + &fe(d);
            v["ipp_proof"][name] = jf(&s);
        }
        n if SCALARS.contains(&n) => {
            let s = &comp_scalar(&v, n) + &fe(d);
            v[n] = jf(&s);
        }
        n => {
            let q = moved(&comp_point(&v, n, 0), d);
            v[n] = jp(&q);
        }
    }
    serde_json::from_value(v).unwrap()
}

fn force(chals: &Value) {
    merlin::trace::force(arr(chals).iter().map(|c| hex_bytes(c.as_str().unwrap(), 48)).collect());
}

/// C03: {prog, env, comms, chals, proof, muts:[[name, idx, delta]...], combos:[[[name,idx,delta]...]...], trade:[r0...], td}
pub fn sim(case: &Value) -> Value {
    let e = env(&case["env"]);
    let prog = arr(&case["prog"]);
    let comms: Vec<G1> = arr(&case["comms"]).iter().map(vpt).collect();
    let proof = proof_from(&case["proof"]);
    let run = |p: &R1CSProof| -> (String, usize, u64, Vec<String>) {
        force(&case["chals"]);
        amcl_wrapper::trace::start(HashMap::new(), None);
        let r = run_verifier("t0", &e, prog, &comms, p, false);
        let d = amcl_wrapper::trace::stop();
        let (l, m) = merlin::trace::unforce();
        (st(&r, "status").to_string(), l, m, d.iter().map(|d| bhex(&d.value)).collect())
    };
    let (base, left, missed, draws) = run(&proof);
    let muts: Vec<String> = arr(&case["muts"])
        .iter()
        .map(|ms| {
            let mut p = proof.clone();
            for m in arr(ms) {
                p = mutate(&p, m[0].as_str().unwrap(), m[1].as_u64().unwrap() as usize, m[2].as_str().unwrap());
            }
            run(&p).0
        })
        .collect();
    // trade-offs against scalars drawn by earlier verifications of the same data
    let mut seen = vec![];
    let mut prev: Vec<String> = draws;
    if let Some(d) = case["td"].as_str() {
        for _ in 0..2 {
            let mut next = vec![];
            for r0 in prev.iter() {
                for sign in &[false, true] {
                    let x = &fe(r0) * &fe(d);
                    let de = if *sign { x.clone() } else { x.negation() };
                    let p = mutate(&mutate(&proof, "t_x_blinding", 0, d), "e_blinding", 0, &fhex(&de));
                    let (s, _, _, dr) = run(&p);
                    next.extend(dr);
                    seen.push(s);
                }
            }
            next.truncate(4);
            prev = next;
        }
    }
    // trade-offs against a few bits of the scalars drawn by this very verification
    let mut few = vec![];
    if let Some(d) = case["td"].as_str() {
        let seeded = |p: &R1CSProof| -> (String, Vec<Vec<u8>>) {
            force(&case["chals"]);
            amcl_wrapper::trace::start(HashMap::new(), Some(77));
            let r = run_verifier("t0", &e, prog, &comms, p, false);
            let dr = amcl_wrapper::trace::stop();
            merlin::trace::unforce();
            (st(&r, "status").to_string(), dr.into_iter().map(|d| d.value).collect())
        };
        let (_, dr) = seeded(&proof);
        for v in dr.iter().take(3) {
            let b = if v.len() > 32 { &v[v.len() - 32..] } else { &v[..] };
            let mut cand = vec![bhex(&[b[b.len() - 1] & 1]), bhex(&[b[b.len() - 1] & 15]), bhex(&[b[0] >> 4])];
            for k in &[1usize, 2, 4, 8] {
                cand.push(bhex(&b[b.len() - k..]));
                cand.push(bhex(&b[..*k]));
            }
            for r0 in cand {
                for sign in &[false, true] {
                    let x = &fe(&r0) * &fe(d);
                    let de = if *sign { x.clone() } else { x.negation() };
                    few.push(seeded(&mutate(&mutate(&proof, "t_x_blinding", 0, d), "e_blinding", 0, &fhex(&de))).0);
                }
            }
        }
    }
    json!({"base": base, "left": left, "missed": missed, "muts": muts, "prev": seen, "few": few})
}

fn jevents(ev: &[Event]) -> Value {
    // only the transcript created first (id of the first New)
    let id0 = match ev.first() {
        Some(Event::New { id, .. }) => *id,
        _ => 0,
    };
    Value::Array(
        ev.iter()
            .filter_map(|e| match e {
                Event::New { id, label } if *id == id0 => Some(json!(["N", rawhex(label), ""])),
                Event::Append { id, label, data } if *id == id0 => Some(json!(["A", rawhex(label), rawhex(data)])),
                Event::Challenge { id, label, out } if *id == id0 => Some(json!(["C", rawhex(label), rawhex(out)])),
                _ => None,
            })
            .collect(),
    )
}

/// C04: {lens, q}: what the inner-product argument absorbs on both sides, for every length
fn ipp_transcripts(case: &Value) -> Value {
    let mut runs = vec![];
    for n in arr(&case["lens"]).iter().map(|n| n.as_u64().unwrap() as usize) {
        let gens: Vec<G1> = (0..2 * n).map(|i| pt(&format!("{:x}", i + 2))).collect();
        let (g, h): (G1Vector, G1Vector) = (gens[..n].to_vec().into(), gens[n..].to_vec().into());
        let a: FieldElementVector = (0..n).map(|i| FE::from(3 * i as u64 + 1)).collect::<Vec<_>>().into();
        let ones: FieldElementVector = vec![FE::one(); n].into();
        let q = vpt(&case["q"]);
        merlin::trace::start();
        let made = guard(|| IPP::create_ipp(&mut Transcript::new(b"lens"), &q, &ones, &ones, &g, &h, &a, &a));
        let pe = jevents(&merlin::trace::stop());
        let p = match made {
            Ok(p) => p,
            Err(m) => return json!({"status": format!("panic {}", m)}),
        };
        let c = a.inner_product(&a).unwrap();
        let commitment = (0..n).fold(&q * &c, |s, i| s + (&g.as_slice()[i] * &a[i]) + (&h.as_slice()[i] * &a[i]));
        merlin::trace::start();
        let s = outcome(|| {
            IPP::verify_ipp(n, &mut Transcript::new(b"lens"), &ones, &ones, &commitment, &q, &g, &h, &p.a, &p.b, &p.L, &p.R)
        }).0;
        let ve = jevents(&merlin::trace::stop());
        let lr: Vec<[String; 2]> = p.L.iter().zip(p.R.iter()).map(|(l, r)| [rawhex(&l.to_bytes()), rawhex(&r.to_bytes())]).collect();
        runs.push(json!({"status": s, "p": pe, "v": ve, "lr": lr}));
    }
    json!({"status": "ok", "runs": runs})
}

/// C04: honest proof; traces of prover and verifier; verifier traces under single alterations
pub fn transcript_trace(case: &Value) -> Value {
    if !case["lens"].is_null() {
        return ipp_transcripts(case);
    }
    let e = env(&case["env"]);
    let prog = arr(&case["prog"]);
    merlin::trace::start();
    let p = run_prover("t0", &e, prog, false);
    let pt_ = jevents(&merlin::trace::stop());
    let proof = match &p.proof {
        Some(x) => x.clone(),
        None => return json!({"status": p.status}),
    };
    let pv = serde_json::to_value(&proof).unwrap();
    let lg = proof_len(&pv);
    let ver = |label: &str, prog: &[Value], comms: &[G1], pr: &R1CSProof| {
        merlin::trace::start();
        let r = run_verifier(label, &e, prog, comms, pr, false);
        let ev = jevents(&merlin::trace::stop());
        json!({"status": r["status"], "ev": ev})
    };
    let base = ver("t0", prog, &p.comms, &proof);
    let mut alts = vec![];
    for a in arr(&case["alts"]) {
        let kind = st(a, "kind");
        let r = match kind {
            "label" => ver("t1", prog, &p.comms, &proof),
            "comm" => {
                let mut c = p.comms.clone();
                let i = num(a, "i");
                c[i] = moved(&c[i], a["d"].as_str().unwrap_or("7"));
                ver("t0", prog, &c, &proof)
            }
            "shift" | "swap" => {
                let mut c = p.comms.clone();
                let (i, j) = (num(a, "i"), num(a, "j"));
                if kind == "swap" {
                    c.swap(i, j);
                } else {
                    c[i] = moved(&c[i], st(a, "d"));
                    c[j] = moved(&c[j], st(a, "e"));
                }
                ver("t0", prog, &c, &proof)
            }
            "move" => {
                let q = arr(&a["moves"]).iter().fold(proof.clone(), |q, m| {
                    mutate(&q, m[0].as_str().unwrap(), m[1].as_u64().unwrap() as usize, m[2].as_str().unwrap())
                });
                ver("t0", prog, &p.comms, &q)
            }
            "prog" => {
                // another structure; missing commitments are repetitions of the last one
                let mut c = p.comms.clone();
                let want = arr(&a["prog"]).iter().filter(|o| st(o, "op") == "commit").count();
                while c.len() < want {
                    let q = c.last().cloned().unwrap_or_else(|| pt("9"));
                    c.push(q);
                }
                ver("t0", arr(&a["prog"]), &c, &proof)
            }
            _ => ver("t0", prog, &p.comms, &mutate(&proof, st(a, "name"), num(a, "i"), a["d"].as_str().unwrap_or("5"))),
        };
        // keep only the challenges of altered runs, plus the message list for structure alterations
        alts.push(r);
    }
    let points: Vec<Value> = p.comms.iter().map(|c| json!(ghex(c))).collect();
    let comp: Vec<Value> = POINTS
        .iter()
        .map(|n| json!(ghex(&comp_point(&pv, n, 0))))
        .chain(SCALARS.iter().map(|n| json!(rawhex(&comp_scalar(&pv, n).to_bytes()))))
        .collect();
    let lr: Vec<Value> = (0..lg).map(|i| json!([ghex(&comp_point(&pv, "L", i)), ghex(&comp_point(&pv, "R", i))])).collect();
    json!({"status": p.status, "p": pt_, "v": base, "alts": alts, "V": points, "comp": comp, "lr": lr})
}
pub fn proof_len(pv: &Value) -> usize {
    let g: G1Vector = serde_json::from_value(pv["ipp_proof"]["L"].clone()).unwrap();
    g.len()
}

/// C07: {G,H,Q,Gf,Hf,a,b,chals,expL,expR, P, checks:[{P?,Q?,G?,H?,Gf?,Hf?,L?,R?,a?,b?, chals?}]}
fn ipp_scalars(case: &Value) -> Value {
    let n = case["n"].as_u64().unwrap() as usize;
    let (l, r) = (vpts(&case["L"]), vpts(&case["R"]));
    let mut got = None;
    let (status, _) = outcome(|| {
        force(&case["chals"]);
        let mut t = Transcript::new(b"ippscal");
        let x = IPP::verification_scalars(&l, &r, n, &mut t);
        merlin::trace::unforce();
        x.map(|x| got = Some(x))
    });
    merlin::trace::unforce();
    match got {
        None => json!({"status": status}),
        Some((sq, isq, s)) => {
            let at: Vec<String> = arr(&case["idx"]).iter().map(|i| {
                let i = i.as_u64().unwrap() as usize;
                if i < s.len() { fhex(&s[i]) } else { String::new() }
            }).collect();
            json!({"status": status, "len": s.len(), "sq": sq.iter().map(fhex).collect::<Vec<_>>(),
                "isq": isq.iter().map(fhex).collect::<Vec<_>>(), "s": at})
        }
    }
}

pub fn ipp(case: &Value) -> Value {
    if !case["scal"].is_null() {
        return ipp_scalars(case);
    }
    let fv = |v: &Value| -> FieldElementVector { vfes(v).into() };
    let (g, h, q) = (vpts(&case["G"]), vpts(&case["H"]), vpt(&case["Q"]));
    let forced = case["forced"].as_bool().unwrap_or(true);
    let label: &'static [u8] = b"ipptest";
    let made = guard(|| {
        if forced {
            force(&case["chals"]);
        }
        let mut t = Transcript::new(label);
        let p = IPP::create_ipp(&mut t, &q, &fv(&case["Gf"]), &fv(&case["Hf"]), &g, &h, &fv(&case["a"]), &fv(&case["b"]));
        merlin::trace::unforce();
        p
    });
    let p = match made {
        Ok(p) => p,
        Err(m) => return json!({"status": "panic", "msg": m}),
    };
    let exp = |k: &str| -> Vec<String> { arr(&case[k]).iter().map(|d| ghex(&vpt(d))).collect() };
    let mut vs = vec![];
    for c in arr(&case["checks"]) {
        let get = |k: &str| if c[k].is_null() { case[k].clone() } else { c[k].clone() };
        let mut L = p.L.clone();
        let mut R = p.R.clone();
        let (mut a, mut b) = (p.a.clone(), p.b.clone());
        if !c["mut"].is_null() {
            let (n, i, d) = (c["mut"][0].as_str().unwrap(), c["mut"][1].as_u64().unwrap() as usize, c["mut"][2].as_str().unwrap());
            match n {
                "L" => L[i] = &L.as_slice()[i] + &pt(d),
                "R" => R[i] = &R.as_slice()[i] + &pt(d),
                "a" => a = &a + &fe(d),
                "b" => b = &b + &fe(d),
                _ => {}
            }
        }
        let vl: &'static [u8] = if c["label"].is_null() { label } else { b"otherlabel" };
        let n = arr(&case["G"]).len();
        let (s, _) = outcome(|| {
            if forced {
                force(&case["chals"]);
            }
            let mut t = Transcript::new(vl);
            let r = IPP::verify_ipp(n, &mut t, &fv(&get("Gf")), &fv(&get("Hf")), &vpt(&get("P")), &vpt(&get("Q")),
                &vpts(&get("G")), &vpts(&get("H")), &a, &b, &L, &R);
            merlin::trace::unforce();
            r
        });
        merlin::trace::unforce();
        vs.push(s);
    }
    json!({"status": "ok", "L": p.L.iter().map(ghex).collect::<Vec<_>>(), "R": p.R.iter().map(ghex).collect::<Vec<_>>(),
        "a": fhex(&p.a), "b": fhex(&p.b), "expL": exp("expL"), "expR": exp("expR"), "vs": vs})
}

/// C09: how each scalar drawn while proving enters the proof.
/// case: {prog, env (explicit dlogs), chals, delta}
pub fn rand_roles(case: &Value) -> Value {
    let e = env(&case["env"]);
    let prog = arr(&case["prog"]);
    let delta = fe(st(case, "delta"));
    let run = |over: HashMap<usize, Vec<u8>>, seed: Option<u64>, forced: bool| {
        if forced {
            force(&case["chals"]);
        }
        amcl_wrapper::trace::start(over, seed);
        let p = run_prover("t0", &e, prog, false);
        let d = amcl_wrapper::trace::stop();
        merlin::trace::unforce();
        (p, d)
    };
    let (p0, d0) = run(HashMap::new(), Some(1), true);
    let pr0 = match &p0.proof {
        Some(p) => serde_json::to_value(p).unwrap(),
        None => return json!({"status": p0.status}),
    };
    let (p0b, d0b) = run(HashMap::new(), Some(1), true);
    let stable = serde_json::to_value(p0b.proof.as_ref().unwrap()).unwrap() == pr0 && d0b.len() == d0.len();
    // directions a perturbation may have, by name
    let n = e.G.len();
    let mut dirs: Vec<(String, usize, String)> = vec![("h".into(), 0, ghex(&(&e.h * &delta)))];
    for i in 0..n {
        dirs.push(("G".into(), i, ghex(&(&e.G.as_slice()[i] * &delta))));
    }
    for i in 0..e.H.len() {
        dirs.push(("H".into(), i, ghex(&(&e.H.as_slice()[i] * &delta))));
    }
    let mut roles = vec![];
    for k in 0..d0.len() {
        let v = &FieldElement::from_bytes(&d0[k].value).unwrap() + &delta;
        let mut o = HashMap::new();
        o.insert(k, v.to_bytes());
        let (p1, _) = run(o, Some(1), true);
        let pr1 = match &p1.proof {
            Some(p) => serde_json::to_value(p).unwrap(),
            None => return json!({"status": p1.status}),
        };
        let mut eff = vec![];
        for name in POINTS.iter() {
            let (a, b) = (comp_point(&pr0, name, 0), comp_point(&pr1, name, 0));
            if a != b {
                let x = ghex(&(&b - &a));
                let dir = dirs.iter().find(|d| d.2 == x).map(|d| json!([d.0, d.1])).unwrap_or(json!(["?", 0]));
                eff.push(json!([name, dir[0], dir[1]]));
            }
        }
        roles.push(json!({"eff": eff, "src": d0[k].source}));
    }
    // free runs: nothing shared, no repeated scalar
    let collect = |r: &(PRun, Vec<amcl_wrapper::trace::Draw>)| -> (Vec<String>, Vec<String>) {
        let v = serde_json::to_value(r.0.proof.as_ref().unwrap()).unwrap();
        let mut c: Vec<String> = POINTS.iter().map(|n| ghex(&comp_point(&v, n, 0))).collect();
        c.extend(SCALARS.iter().map(|n| fhex(&comp_scalar(&v, n))));
        c.push(fhex(&comp_scalar(&v, "a")));
        c.push(fhex(&comp_scalar(&v, "b")));
        for i in 0..proof_len(&v) {
            c.push(ghex(&comp_point(&v, "L", i)));
            c.push(ghex(&comp_point(&v, "R", i)));
        }
        (c, r.1.iter().map(|d| bhex(&d.value)).collect())
    };
    let free: Vec<Value> = (0..2)
        .map(|_| {
            let r = run(HashMap::new(), None, false);
            let (c, d) = collect(&r);
            json!({"comp": c, "draws": d, "status": r.0.status})
        })
        .collect();
    let id = ghex(&G1::identity());
    json!({"status": "ok", "stable": stable, "roles": roles, "free": free, "id": id})
}
