//! `gsv compare trace=FILE exp=FILE`: realises the exponents that the specification requires (Expect.tla) as
//! group elements of the instance and compares them with what was recorded.  One output line per
//! mismatch: {"line": k, ...}.
use crate::inst::Inst;
use crate::Ctx;
use serde_json::{json, Value};
use std::io::BufRead;

fn leaf<E: Inst>(oty: &str, v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(|x| leaf::<E>(oty, x)).collect()),
        v if oty == "g1" => E::g1_j(&E::g1(&E::j_fr(v))),
        v if oty == "g2" => E::g2_j(&E::g2(&E::j_fr(v))),
        v if oty == "gt" => E::gt_j(&E::gt(&E::j_fr(v))),
        v => v.clone(),
    }
}
/// keys: exponents relative to the two generators the key was made with
fn key<E: Inst>(p1: &str, p2: &str, e: &Value) -> Value {
    use ark_ec::CurveGroup;
    use ark_serialize::CanonicalDeserialize;
    use std::ops::Mul;
    let un = |h: &str| -> Vec<u8> { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() };
    let p1 = E::G1Affine::deserialize_compressed(&un(p1)[..]).unwrap();
    let p2 = E::G2Affine::deserialize_compressed(&un(p2)[..]).unwrap();
    let a = |v: &Value| E::g1_j(&p1.mul(E::j_fr(v)).into_affine());
    let b = |v: &Value| E::g2_j(&p2.mul(E::j_fr(v)).into_affine());
    let m = |f: &dyn Fn(&Value) -> Value, v: &Value| -> Value {
        Value::Array(v.as_array().unwrap().iter().map(|c| json!([f(&c[0]), f(&c[1])])).collect())
    };
    json!({"u": m(&a, &e["u"]), "v": m(&b, &e["v"]), "g1": a(&e["g1"]), "g2": b(&e["g2"]),
           "gt": E::gt_j(&E::pairing(p1, p2).mul(E::j_fr(&e["gt"])))})
}
pub fn compare<E: Inst>(c: &mut Ctx) {
    let read = |p: String| std::io::BufReader::new(std::fs::File::open(p).expect("file")).lines().map(|l| l.unwrap()).collect::<Vec<_>>();
    let tr = read(c.sarg("trace", ""));
    let ex = read(c.sarg("exp", ""));
    assert_eq!(tr.len(), ex.len(), "one expectation per event");
    for (k, (t, e)) in tr.iter().zip(&ex).enumerate() {
        let t: Value = serde_json::from_str(t).unwrap();
        let e: Value = serde_json::from_str(e).unwrap();
        if e["skip"] == true {
            continue;
        }
        let ok = if e["refused"] == true {
            t["st"] == "panic"
        } else if t["oty"] == "crs" {
            t["st"] == "ok" && t["out"] == key::<E>(t["p1"].as_str().unwrap(), t["p2"].as_str().unwrap(), &e["exp"])
        } else {
            t["st"] == "ok" && t["out"] == leaf::<E>(t["oty"].as_str().unwrap_or("?"), &e["exp"])
        };
        if !ok {
            c.emit(json!({"line": k + 1}));
        }
    }
}
