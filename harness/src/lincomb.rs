//! Operations on linear combinations (module LinComb of the specification).
use crate::prog::{jlc, var_of};
use crate::util::*;
use bulletproofs_amcl::r1cs::{LinearCombination as LC, Variable};
use serde_json::{json, Value};

enum A {
    V(Variable),
    F(FE),
    L(LC),
    N,
}
fn arg(a: &Value, regs: &[LC]) -> A {
    match a[0].as_str().unwrap_or("N") {
        "V" => A::V(var_of(&json!([a[1], a[2]]))),
        "F" => A::F(vfe(&a[1])),
        "R" => A::L(regs[a[1].as_u64().unwrap() as usize - 1].clone()),
        _ => A::N,
    }
}

pub fn run(c: &Value) -> Value {
    let mut regs: Vec<LC> = vec![];
    let mut out = vec![];
    for op in arr(&c["prog"]) {
        let ts: Vec<(Variable, FE)> = arr(&op["ts"]).iter().map(|t| (var_of(&t[0]), vfe(&t[1]))).collect();
        let r: LC = match (st(op, "o"), arg(&op["a"], &regs), arg(&op["b"], &regs)) {
            ("default", _, _) => LC::default(),
            ("from", A::V(a), _) => LC::from(a),
            ("from", A::F(a), _) => LC::from(a),
            ("iter", _, _) => ts.into_iter().collect(),
            ("iterref", _, _) => ts.iter().collect(),
            ("neg", A::V(a), _) => -a,
            ("neg", A::L(a), _) => -a,
            ("simplify", A::L(a), _) => a.simplify(),
            ("add", A::V(a), A::V(b)) => a + b,
            ("add", A::V(a), A::F(b)) => a + b,
            ("add", A::V(a), A::L(b)) => a + b,
            ("sub", A::V(a), A::V(b)) => a - b,
            ("sub", A::V(a), A::F(b)) => a - b,
            ("sub", A::V(a), A::L(b)) => a - b,
            ("add", A::F(a), A::V(b)) => a + b,
            ("sub", A::F(a), A::V(b)) => a - b,
            ("mul", A::F(a), A::V(b)) => a * b,
            ("mul", A::F(a), A::L(b)) => a * b,
            ("mulref", A::F(a), A::L(b)) => &a * b,
            ("add", A::L(a), A::V(b)) => a + b,
            ("add", A::L(a), A::F(b)) => a + b,
            ("add", A::L(a), A::L(b)) => a + b,
            ("sub", A::L(a), A::V(b)) => a - b,
            ("sub", A::L(a), A::F(b)) => a - b,
            ("sub", A::L(a), A::L(b)) => a - b,
            ("addassign", A::L(mut a), b) => {
                match b {
                    A::V(b) => a += b,
                    A::F(b) => a += b,
                    A::L(b) => a += b,
                    A::N => panic!("operand"),
                }
                a
            }
            _ => panic!("no such operation {}", op),
        };
        let t = jlc(&r);
        let again: LC = LC { terms: r.clone().get_terms() };
        out.push(json!({"t": t, "n": r.len(), "g": jlc(&again) == t}));
        regs.push(r);
    }
    json!({ "regs": out })
}
