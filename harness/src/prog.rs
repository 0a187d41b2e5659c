//! Execution of constraint-system programs (module ConstraintSystem of the specification)
//! on the real Prover and Verifier.
use crate::util::*;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::{
    ConstraintSystem, LinearCombination, Prover, R1CSProof, RandomizedConstraintSystem, Variable, Verifier,
};
use merlin::Transcript;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

pub struct St {
    pub handles: Vec<Variable>,
    pub chals: Vec<FieldElement>,
    pub log: Vec<Value>,
    pub n_seen: usize,
    pub dense: bool,
}
pub type Shared = Rc<RefCell<St>>;
pub fn shared(dense: bool) -> Shared {
    Rc::new(RefCell::new(St { handles: vec![], chals: vec![], log: vec![], n_seen: 0, dense }))
}

pub fn jvar(v: &Variable) -> Value {
    match v {
        Variable::Committed(i) => json!(["C", i]),
        Variable::MultiplierLeft(i) => json!(["L", i]),
        Variable::MultiplierRight(i) => json!(["R", i]),
        Variable::MultiplierOutput(i) => json!(["O", i]),
        Variable::One() => json!(["1", 0]),
    }
}
pub fn var_of(v: &Value) -> Variable {
    let i = v[1].as_u64().unwrap() as usize;
    match v[0].as_str().unwrap() {
        "C" => Variable::Committed(i),
        "L" => Variable::MultiplierLeft(i),
        "R" => Variable::MultiplierRight(i),
        "O" => Variable::MultiplierOutput(i),
        _ => Variable::One(),
    }
}
pub fn jlc(lc: &LinearCombination) -> Value {
    Value::Array(lc.terms.iter().map(|(v, c)| json!([jvar(v), fhex(c)])).collect())
}
/// term = [handle (0 = One), coefficient, [challenge indices]]
fn lc(v: &Value, s: &St) -> LinearCombination {
    let mut terms = vec![];
    for t in arr(v) {
        let h = t[0].as_u64().unwrap() as usize;
        let mut c = vfe(&t[1]);
        for k in arr(&t[2]) {
            c = &c * &s.chals[k.as_u64().unwrap() as usize - 1];
        }
        let var = if h == 0 { Variable::One() } else { s.handles[h - 1] };
        terms.push((var, c));
    }
    LinearCombination { terms }
}

fn label_of(i: usize) -> &'static [u8] {
    match i {
        0 => b"c0",
        1 => b"c1",
        _ => b"c2",
    }
}

/// one phase-independent operation
fn exec<CS: ConstraintSystem>(cs: &mut CS, op: &Value, sh: &Shared) -> Result<(), R1CSError> {
    let kind = st(op, "op").to_string();
    let mut hs: Vec<Variable> = vec![];
    let mut vals = json!([]);
    let mut err = String::new();
    let mut fail = None;
    {
        let s = sh.borrow();
        let ev = |cs: &CS, k: &str| cs.evaluate_lc(&lc(&op[k], &s));
        match kind.as_str() {
            "mul" => {
                let (a, b, c) = cs.multiply(lc(&op["l"], &s), lc(&op["r"], &s));
                hs = vec![a, b, c];
            }
            "alloc" => {
                let a = ev(cs, "a");
                match cs.allocate(a) {
                    Ok(v) => hs.push(v),
                    Err(e) => fail = Some(e),
                }
            }
            "allocnone" => match cs.allocate(None) {
                Ok(v) => hs.push(v),
                Err(e) => fail = Some(e),
            },
            "single" => {
                let a = ev(cs, "a");
                match cs.allocate_single(a) {
                    Ok((v, o)) => {
                        hs.push(v);
                        hs.extend(o);
                    }
                    Err(e) => fail = Some(e),
                }
            }
            "singlenone" => match cs.allocate_single(None) {
                Ok((v, o)) => {
                    hs.push(v);
                    hs.extend(o);
                }
                Err(e) => fail = Some(e),
            },
            "allocmul" => {
                let a = ev(cs, "l");
                let b = ev(cs, "r");
                let asg = match (a, b) {
                    (Some(a), Some(b)) => Some((a, b)),
                    _ => None,
                };
                match cs.allocate_multiplier(asg) {
                    Ok((a, b, c)) => hs = vec![a, b, c],
                    Err(e) => fail = Some(e),
                }
            }
            "allocmulnone" => match cs.allocate_multiplier(None) {
                Ok((a, b, c)) => hs = vec![a, b, c],
                Err(e) => fail = Some(e),
            },
            // a prover without an assignment that carries on after the error; the verifier skips the operation
            "tryalloc" | "trysingle" | "trymul" => {
                if cs.evaluate_lc(&LinearCombination::from(Variable::One())).is_some() {
                    let r = match kind.as_str() {
                        "tryalloc" => cs.allocate(None).map(|v| vec![v]),
                        "trysingle" => cs.allocate_single(None).map(|(v, o)| std::iter::once(v).chain(o).collect()),
                        _ => cs.allocate_multiplier(None).map(|(a, b, c)| vec![a, b, c]),
                    };
                    match r {
                        Ok(v) => hs = v,
                        Err(e) => err = err_kind(&e),
                    }
                }
            }
            // a callback returning an error of its own on one side
            "stopP" | "stopV" => {
                let prover = cs.evaluate_lc(&LinearCombination::from(Variable::One())).is_some();
                if prover == (kind == "stopP") {
                    fail = Some(R1CSError::GadgetError { description: "stop".to_string() });
                }
            }
            "constrain" => cs.constrain(lc(&op["lc"], &s)),
            "eval" => {
                vals = match cs.evaluate_lc(&lc(&op["lc"], &s)) {
                    Some(v) => json!([fhex(&v)]),
                    None => json!([]),
                }
            }
            k => panic!("unknown op {}", k),
        }
        if let Some(e) = &fail {
            err = err_kind(e);
        }
        // values of the returned handles, and of the whole gate they belong to
        let mut hv = vec![];
        let mut gate = vec![];
        if s.dense {
            for h in &hs {
                if let Some(v) = cs.evaluate_lc(&LinearCombination::from(*h)) {
                    hv.push(fhex(&v));
                }
            }
            if let Some(h) = hs.last() {
                let i = match h {
                    Variable::MultiplierLeft(i) | Variable::MultiplierRight(i) | Variable::MultiplierOutput(i) => Some(*i),
                    _ => None,
                };
                if let Some(i) = i {
                    for v in &[Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i)] {
                        if let Some(v) = cs.evaluate_lc(&LinearCombination::from(*v)) {
                            gate.push(fhex(&v));
                        }
                    }
                }
            }
        }
        let entry = json!({ "h": hs.iter().map(jvar).collect::<Vec<_>>(), "v": hv, "g": gate, "e": vals, "err": err });
        drop(s);
        let mut s = sh.borrow_mut();
        s.log.push(entry);
        s.handles.extend(hs);
    }
    match fail {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn blank(sh: &Shared) {
    sh.borrow_mut().log.push(json!({"h":[],"v":[],"g":[],"e":[],"err":""}));
}

fn exec2<CS: RandomizedConstraintSystem>(cs: &mut CS, body: &[Value], sh: &Shared) -> Result<(), R1CSError> {
    for op in body {
        match st(op, "op") {
            "chal" => {
                let c = cs.challenge_scalar(label_of(op["lab"].as_u64().unwrap_or(0) as usize));
                sh.borrow_mut().log.push(json!({"h":[],"v":[],"g":[],"e":[fhex(&c)],"err":""}));
                sh.borrow_mut().chals.push(c);
            }
            "cb" => {
                blank(sh);
                let b: Vec<Value> = arr(&op["body"]).to_vec();
                let s2 = sh.clone();
                cs.specify_randomized_constraints(move |cs| exec2(cs, &b, &s2))?;
            }
            _ => exec(cs, op, sh)?,
        }
    }
    Ok(())
}

fn exec1<CS: ConstraintSystem>(cs: &mut CS, op: &Value, sh: &Shared) -> Result<(), R1CSError> {
    match st(op, "op") {
        "cb" => {
            blank(sh);
            let b: Vec<Value> = arr(&op["body"]).to_vec();
            let s2 = sh.clone();
            cs.specify_randomized_constraints(move |cs| exec2(cs, &b, &s2))
        }
        _ => exec(cs, op, sh),
    }
}

pub struct Env {
    pub g: G1,
    pub h: G1,
    pub G: amcl_wrapper::group_elem_g1::G1Vector,
    pub H: amcl_wrapper::group_elem_g1::G1Vector,
}
/// {g,h,G,H} explicit discrete logarithms, or {tag, n, mut:[[kind, index]...]}: derived ones
pub fn env(v: &Value) -> Env {
    if v["tag"].is_string() {
        let tag = st(v, "tag");
        let n = num(v, "n");
        let muts = arr(&v["mut"]);
        let d = |kind: &str, i: usize| {
            let m = muts.iter().any(|x| x[0].as_str() == Some(kind) && x[1].as_u64() == Some(i as u64));
            let key = format!("{}|{}|{}|{}", tag, kind, i, m);
            cached_gen(&key)
        };
        return Env {
            g: d("g", 0),
            h: d("h", 0),
            G: (0..n).map(|i| d("G", i)).collect::<Vec<_>>().into(),
            H: (0..num(v, "nh")).map(|i| d("H", i)).collect::<Vec<_>>().into(),
        };
    }
    Env { g: vpt(&v["g"]), h: vpt(&v["h"]), G: vpts(&v["G"]), H: vpts(&v["H"]) }
}
fn static_label(s: &str) -> &'static [u8] {
    // transcript labels are &'static; the set of labels used by cases is tiny
    match s {
        "t0" => b"t0",
        "t1" => b"t1",
        "" => b"",
        _ => b"other",
    }
}
pub fn transcript(s: &str) -> Transcript {
    Transcript::new(static_label(s))
}

pub struct PRun {
    pub status: String,
    pub proof: Option<R1CSProof>,
    pub comms: Vec<G1>,
    pub json: Value,
}

pub fn run_prover(label: &str, e: &Env, prog: &[Value], dense: bool) -> PRun {
    let sh = shared(dense);
    let mut comms: Vec<G1> = vec![];
    let mut n1 = 0usize;
    let mut q1 = 0usize;
    let mut cons = json!([]);
    let mut wires = json!([]);
    let mut stage = "build";
    let (status, proof) = {
        let comms = &mut comms;
        let (n1, q1, cons, wires, stage) = (&mut n1, &mut q1, &mut cons, &mut wires, &mut stage);
        let sh = sh.clone();
        outcome(move || {
            let mut t = transcript(label);
            let mut p = Prover::new(&e.g, &e.h, &mut t);
            for op in prog {
                if st(op, "op") == "commit" {
                    let (c, v) = p.commit(vfe(&op["v"]), vfe(&op["b"]));
                    comms.push(c);
                    let val = p.evaluate_lc(&LinearCombination::from(v)).map(|x| fhex(&x));
                    let mut s = sh.borrow_mut();
                    s.log.push(json!({"h":[jvar(&v)],"v":val.into_iter().collect::<Vec<_>>(),"g":[],"e":[],"err":""}));
                    s.handles.push(v);
                } else {
                    exec1(&mut p, op, &sh)?;
                }
            }
            *n1 = p.num_multipliers();
            *q1 = p.num_constraints();
            if dense {
                let mut w = vec![];
                for i in 0..p.num_multipliers() {
                    let g: Vec<String> = [Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i)]
                        .iter()
                        .map(|v| fhex(&p.evaluate_lc(&LinearCombination::from(*v)).unwrap()))
                        .collect();
                    w.push(g);
                }
                *wires = json!(w);
                #[cfg(verif_hooks)]
                {
                    *cons = Value::Array(p.verif_constraints().iter().map(jlc).collect());
                }
            }
            let _ = &cons;
            *stage = "prove";
            p.prove(&e.G, &e.H)
        })
    };
    let s = sh.borrow();
    let json = json!({
        "status": status, "stage": stage, "log": s.log, "n1": n1, "q1": q1, "wires": wires, "cons": cons,
        "chals": fhexs(&s.chals), "comms": comms.iter().map(ghex).collect::<Vec<_>>(),
    });
    drop(s);
    PRun { status, proof, comms, json }
}

pub fn run_verifier(label: &str, e: &Env, prog: &[Value], comms: &[G1], proof: &R1CSProof, dense: bool) -> Value {
    let sh = shared(dense);
    let mut cons = json!([]);
    let mut n1 = -1i64;
    let mut q1 = -1i64;
    let mut k = 0usize;
    let (status, _) = {
        let (cons, n1, q1, k) = (&mut cons, &mut n1, &mut q1, &mut k);
        let sh = sh.clone();
        outcome(move || {
            let mut t = transcript(label);
            let mut v = Verifier::new(&mut t);
            for op in prog {
                if st(op, "op") == "commit" {
                    let x = v.commit(comms[*k].clone());
                    *k += 1;
                    let mut s = sh.borrow_mut();
                    s.log.push(json!({"h":[jvar(&x)],"v":[],"g":[],"e":[],"err":""}));
                    s.handles.push(x);
                } else {
                    exec1(&mut v, op, &sh)?;
                }
            }
            #[cfg(verif_hooks)]
            {
                *n1 = v.verif_num_multipliers() as i64;
                if dense {
                    *cons = Value::Array(v.verif_constraints().iter().map(jlc).collect());
                }
                *q1 = v.verif_constraints().len() as i64;
            }
            let _ = (&cons, &n1, &q1);
            v.verify(proof, &e.g, &e.h, &e.G, &e.H)
        })
    };
    let s = sh.borrow();
    json!({ "status": status, "log": s.log, "n1": n1, "q1": q1, "cons": cons, "chals": fhexs(&s.chals) })
}

/// case: {env, label, prog, dense, ser, vs: [{env?, label?, prog?, comm?}]}
pub fn run(case: &Value) -> Value {
    let e = env(&case["env"]);
    let label = case["label"].as_str().unwrap_or("t0");
    let dense = case["dense"].as_bool().unwrap_or(false);
    let prog = arr(&case["prog"]);
    let p = run_prover(label, &e, prog, dense);
    let mut vs = vec![];
    if let Some(proof0) = &p.proof {
        let mut proof = proof0.clone();
        if case["ser"].as_bool().unwrap_or(false) {
            let s = serde_json::to_string(&proof).unwrap();
            proof = serde_json::from_str(&s).unwrap();
        }
        for v in arr(&case["vs"]) {
            let vprog = if v["prog"].is_null() { prog } else { arr(&v["prog"]) };
            let vl = v["label"].as_str().unwrap_or(label);
            let ve = if v["env"].is_null() { None } else { Some(env(&v["env"])) };
            let comms: Vec<G1> = if v["comm"].is_null() {
                p.comms.clone()
            } else {
                arr(&v["comm"])
                    .iter()
                    .map(|x| &p.comms[x[0].as_u64().unwrap() as usize] + &pt(x[1].as_str().unwrap()))
                    .collect()
            };
            vs.push(run_verifier(vl, ve.as_ref().unwrap_or(&e), vprog, &comms, &proof, dense));
        }
    }
    let _ = p.status;
    json!({ "p": p.json, "vs": vs })
}
