//! Shared plumbing: JSON helpers, field/group conversion, case runner.
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::GroupElement;
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub type FE = FieldElement;

/// field element -> lower-case hex without leading zeros (the representation of module Fr)
pub fn fhex(f: &FE) -> String {
    bhex(&f.to_bytes())
}
pub fn bhex(b: &[u8]) -> String {
    let s: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".to_string() } else { t.to_string() }
}
/// full-width hex, for opaque identifiers
pub fn rawhex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn hex_bytes(s: &str, width: usize) -> Vec<u8> {
    let s = if s.len() % 2 == 1 { format!("0{}", s) } else { s.to_string() };
    let raw: Vec<u8> = (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect();
    if raw.len() >= width {
        return raw;
    }
    let mut v = vec![0u8; width - raw.len()];
    v.extend(raw);
    v
}
pub fn fe(s: &str) -> FE {
    FieldElement::from_bytes(&hex_bytes(s, 48)).expect("field element")
}
pub fn vfe(v: &Value) -> FE {
    fe(v.as_str().expect("hex string"))
}
pub fn vfes(v: &Value) -> Vec<FE> {
    arr(v).iter().map(vfe).collect()
}
pub fn fhexs<'a, I: IntoIterator<Item = &'a FE>>(i: I) -> Vec<String> {
    i.into_iter().map(fhex).collect()
}
pub fn arr(v: &Value) -> &[Value] {
    static EMPTY: &[Value] = &[];
    match v {
        Value::Array(a) => a.as_slice(),
        Value::Null => EMPTY,
        Value::Object(o) if o.is_empty() => EMPTY, // TLC writes << >> as [] but be lenient
        _ => panic!("array expected: {}", v),
    }
}
pub fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("string field {} of {}", k, v))
}
pub fn num(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or_else(|| panic!("number field {} of {}", k, v)) as usize
}

thread_local! {
    static POINTS: RefCell<HashMap<String, G1>> = RefCell::new(HashMap::new());
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
/// base point times a known discrete logarithm
pub fn pt(s: &str) -> G1 {
    if let Some(p) = POINTS.with(|m| m.borrow().get(s).cloned()) {
        return p;
    }
    let p = if s == "0" { G1::identity() } else { G1::generator() * &fe(s) };
    POINTS.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 20000 {
            m.clear();
        }
        m.insert(s.to_string(), p.clone())
    });
    p
}
/// a generator derived from a name
pub fn cached_gen(key: &str) -> G1 {
    let k = format!("gen:{}", key);
    if let Some(p) = POINTS.with(|m| m.borrow().get(&k).cloned()) {
        return p;
    }
    let p = G1::generator() * &FieldElement::from_msg_hash(key.as_bytes());
    POINTS.with(|m| m.borrow_mut().insert(k, p.clone()));
    p
}
pub fn vpt(v: &Value) -> G1 {
    pt(v.as_str().expect("dlog hex"))
}
pub fn vpts(v: &Value) -> G1Vector {
    arr(v).iter().map(vpt).collect::<Vec<_>>().into()
}
pub fn ghex(p: &G1) -> String {
    rawhex(&p.to_bytes())
}
pub fn err_kind(e: &R1CSError) -> String {
    match e {
        R1CSError::InvalidGeneratorsLength => "InvalidGeneratorsLength",
        R1CSError::VerificationError => "VerificationError",
        R1CSError::FormatError => "FormatError",
        R1CSError::MissingAssignment => "MissingAssignment",
        R1CSError::GadgetError { .. } => "GadgetError",
        R1CSError::HashNotFoundInDB { .. } => "HashNotFoundInDB",
    }
    .to_string()
}
pub fn res_kind<T>(r: &Result<T, R1CSError>) -> String {
    match r {
        Ok(_) => "ok".to_string(),
        Err(e) => err_kind(e),
    }
}
/// Run `f`, turning a panic into Err(message)
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}
/// outcome string: "ok", an error kind, or "panic"
pub fn outcome<T, F: FnOnce() -> Result<T, R1CSError>>(f: F) -> (String, Option<T>) {
    match guard(f) {
        Ok(Ok(v)) => ("ok".into(), Some(v)),
        Ok(Err(e)) => (err_kind(&e), None),
        Err(_) => ("panic".into(), None),
    }
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// Execute all cases on the available cores; output order = input order.
pub fn run_cases(cases: Vec<Value>, f: fn(&Value) -> Value) -> Vec<Value> {
    let n = cases.len();
    let cases = Arc::new(cases);
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(vec![Value::Null; n]));
    let threads = std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut hs = vec![];
    for _ in 0..threads {
        let (cases, next, out) = (cases.clone(), next.clone(), out.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases.len() {
                        break;
                    }
                    let r = match guard(|| f(&cases[i])) {
                        Ok(v) => v,
                        Err(m) => json!({ "harness_panic": m }),
                    };
                    let _ = merlin::trace::stop();
                    let _ = merlin::trace::unforce();
                    let _ = amcl_wrapper::trace::stop();
                    out.lock().unwrap()[i] = json!({ "c": cases[i], "o": r });
                })
                .unwrap(),
        );
    }
    for h in hs {
        h.join().unwrap();
    }
    Arc::try_unwrap(out).unwrap().into_inner().unwrap()
}
