//! Replay of specification behaviours (C08, C09): histories of calls produced by TLC from
//! GenHist.tla are executed on the library; after every call the whole abstract state is observed.
use crate::inst::Inst;
use crate::model::*;
use crate::scen_core::F;
use crate::Ctx;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::CRS;
use serde_json::{json, Value};
use std::io::BufRead;

pub fn reenc<T: CanonicalSerialize + CanonicalDeserialize>(x: &T, comp: bool) -> Result<T, String> {
    let mut b = vec![];
    let r = if comp { x.serialize_compressed(&mut b) } else { x.serialize_uncompressed(&mut b) };
    r.map_err(|e| format!("{e:?}"))?;
    if comp { T::deserialize_compressed(&b[..]) } else { T::deserialize_uncompressed(&b[..]) }.map_err(|e| format!("{e:?}"))
}
pub fn reenc_eqn<E: Inst>(x: &Eqn<E>, comp: bool) -> Result<Eqn<E>, String> {
    Ok(match x {
        Eqn::Ppe(q) => Eqn::Ppe(reenc::<PPE<E>>(q, comp)?),
        Eqn::Ms1(q) => Eqn::Ms1(reenc::<MSMEG1<E>>(q, comp)?),
        Eqn::Ms2(q) => Eqn::Ms2(reenc::<MSMEG2<E>>(q, comp)?),
        Eqn::Quad(q) => Eqn::Quad(reenc::<QuadEqu<E>>(q, comp)?),
    })
}

struct St<E: Inst> {
    crs: Option<CRS<E>>,
    x: Vec<Option<Commit1<E>>>,
    y: Vec<Option<Commit2<E>>>,
    e: Vec<Option<Eqn<E>>>,
    p: Vec<Option<EquProof<E>>>,
}
impl<E: Inst> St<E> {
    fn obs(&self) -> Value {
        let xs: Vec<Value> = self.x.iter().map(|c| match c {
            None => json!({"coms": [], "has": true, "rnd": []}),
            Some(c) => {
                let r = recorded_x(c);
                json!({"coms": c1s_j(&c.coms), "has": r.is_some(), "rnd": fm::<E>(&r.unwrap_or_default())})
            }
        }).collect();
        let ys: Vec<Value> = self.y.iter().map(|c| match c {
            None => json!({"coms": [], "has": true, "rnd": []}),
            Some(c) => {
                let r = recorded_y(c);
                json!({"coms": c2s_j(&c.coms), "has": r.is_some(), "rnd": fm::<E>(&r.unwrap_or_default())})
            }
        }).collect();
        let ps: Vec<Value> = self.p.iter().map(|p| match p {
            None => json!({"ty": "NONE", "pi": [], "th": []}),
            Some(p) => proof_j(p),
        }).collect();
        json!({"x": xs, "y": ys, "p": ps})
    }
}
fn empty_x<E: Inst>(crs: &CRS<E>) -> Commit1<E> {
    let z = F::<E>::from(0u64);
    let mut a = commit_x1::<E, _>(false, &z, crs, &mut rng(1));
    let mut b = a.clone();
    b.append(&mut a);
    a
}
fn empty_y<E: Inst>(crs: &CRS<E>) -> Commit2<E> {
    let z = F::<E>::from(0u64);
    let mut a = commit_y1::<E, _>(false, &z, crs, &mut rng(1));
    let mut b = a.clone();
    b.append(&mut a);
    a
}

pub fn hist<E: Inst>(c: &mut Ctx) {
    let path = c.sarg("ops", "");
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(&path).expect("ops file")).lines().map(|l| l.unwrap()).collect();
    let mut g = Gen::<E>::of(c);
    let (lo, hi) = (c.arg("lo", 0) as usize, c.arg("hi", u64::MAX) as usize);
    let (nreg, neq, nprf) = (c.arg("nreg", 3) as usize, c.arg("neq", 3) as usize, c.arg("nprf", 3) as usize);
    for line in lines.iter().take(hi).skip(lo) {
        let ops: Vec<Value> = serde_json::from_str(line).expect("history");
        let mut s = St::<E> { crs: None, x: vec![None; nreg], y: vec![None; nreg], e: (0..neq).map(|_| None).collect(), p: (0..nprf).map(|_| None).collect() };
        c.emit(json!({"op":"reset"}));
        for op in ops {
            let mut ev = op.clone();
            let seed = g.seed();
            let kind = op["op"].as_str().unwrap().to_string();
            let ix = |k: &str| op[k].as_u64().unwrap() as usize - 1;
            let mut res = "ok".to_string();
            // a panicking call must leave the state as it was before
            let r: Result<(), String> = match kind.as_str() {
                "setup" => {
                    let p: Vec<F<E>> = jfv::<E>(&op["p"]);
                    let k = AKey::<E>::make(p[0], p[1], p[2], p[3], p[4], p[5], op["hide"].as_bool().unwrap());
                    ev["crs"] = k.j();
                    s.crs = Some(k.real());
                    Ok(())
                }
                "commit" => {
                    let crs = s.crs.clone().unwrap();
                    let vals = jfv::<E>(&op["vals"]);
                    let sc = op["sc"].as_bool().unwrap();
                    let how = op["how"].as_str().unwrap();
                    let mut r = rng(seed);
                    if op["side"] == 1 {
                        guard(|| match how {
                            "batch" => commit_x(sc, &vals, &crs, &mut r),
                            "single" => commit_x1(sc, &vals[0], &crs, &mut r),
                            _ => {
                                let mut l = commit_x1::<E, _>(sc, &vals[0], &crs, &mut r);
                                for v in &vals[1..] {
                                    l.append(&mut commit_x1::<E, _>(sc, v, &crs, &mut r));
                                }
                                l
                            }
                        }).map(|l| s.x[ix("reg")] = Some(l))
                    } else {
                        guard(|| match how {
                            "batch" => commit_y(sc, &vals, &crs, &mut r),
                            "single" => commit_y1(sc, &vals[0], &crs, &mut r),
                            _ => {
                                let mut l = commit_y1::<E, _>(sc, &vals[0], &crs, &mut r);
                                for v in &vals[1..] {
                                    l.append(&mut commit_y1::<E, _>(sc, v, &crs, &mut r));
                                }
                                l
                            }
                        }).map(|l| s.y[ix("reg")] = Some(l))
                    }
                }
                "append" => {
                    let (d, o) = (ix("dst"), ix("src"));
                    let crs = s.crs.clone().unwrap();
                    if op["side"] == 1 {
                        guard(|| {
                            let mut a = s.x[d].clone().unwrap_or_else(|| empty_x(&crs));
                            let mut b = s.x[o].clone().unwrap_or_else(|| empty_x(&crs));
                            a.append(&mut b);
                            (a, b)
                        }).map(|(a, b)| {
                            s.x[d] = Some(a);
                            s.x[o] = Some(b)
                        })
                    } else {
                        guard(|| {
                            let mut a = s.y[d].clone().unwrap_or_else(|| empty_y(&crs));
                            let mut b = s.y[o].clone().unwrap_or_else(|| empty_y(&crs));
                            a.append(&mut b);
                            (a, b)
                        }).map(|(a, b)| {
                            s.y[d] = Some(a);
                            s.y[o] = Some(b)
                        })
                    }
                }
                "clone" => {
                    let (d, o) = (ix("dst"), ix("src"));
                    if op["side"] == 1 {
                        guard(|| s.x[o].clone()).map(|a| s.x[d] = a)
                    } else {
                        guard(|| s.y[o].clone()).map(|a| s.y[d] = a)
                    }
                }
                "reenc" => {
                    let comp = op["comp"].as_bool().unwrap();
                    let i = ix("reg");
                    let r: Result<Result<(), String>, String> = match op["what"].as_str().unwrap() {
                        "x" => guard(|| s.x[i].as_ref().map(|a| reenc(a, comp)).transpose()).map(|r| r.map(|a| s.x[i] = a)),
                        "y" => guard(|| s.y[i].as_ref().map(|a| reenc(a, comp)).transpose()).map(|r| r.map(|a| s.y[i] = a)),
                        "key" => guard(|| s.crs.as_ref().map(|a| reenc(a, comp)).transpose()).map(|r| r.map(|a| s.crs = a)),
                        "eq" => guard(|| s.e[i].as_ref().map(|a| reenc_eqn(a, comp)).transpose()).map(|r| r.map(|a| s.e[i] = a)),
                        _ => guard(|| s.p[i].as_ref().map(|a| reenc(a, comp)).transpose()).map(|r| r.map(|a| s.p[i] = a)),
                    };
                    match r {
                        Ok(Ok(())) => Ok(()),
                        Ok(Err(e)) => Err(e),
                        Err(e) => Err(e),
                    }
                }
                "eq" => {
                    s.e[ix("reg")] = Some(AEq::<E>::from_j(&op["eq"]).real());
                    Ok(())
                }
                "prove" => {
                    let (x, y) = (jfv::<E>(&op["x"]), jfv::<E>(&op["y"]));
                    let (i, j, e) = (ix("xr"), ix("yr"), ix("er"));
                    let r = guard(|| s.e[e].as_ref().unwrap().prove(&x, &y, s.x[i].as_ref().unwrap(), s.y[j].as_ref().unwrap(), s.crs.as_ref().unwrap(), &mut rng(seed)));
                    match r {
                        Ok(p) => {
                            s.p[ix("reg")] = Some(p);
                            Ok(())
                        }
                        Err(_) => {
                            res = "refused".into();
                            Ok(())
                        }
                    }
                }
                "cap" => {
                    let (x, y) = (jfv::<E>(&op["x"]), jfv::<E>(&op["y"]));
                    let (i, j, e) = (ix("xr"), ix("yr"), ix("er"));
                    match guard(|| s.e[e].as_ref().unwrap().commit_and_prove(&x, &y, s.crs.as_ref().unwrap(), &mut rng(seed))) {
                        Ok(mut b) => {
                            s.x[i] = Some(b.xcoms);
                            s.y[j] = Some(b.ycoms);
                            s.p[ix("reg")] = b.equ_proofs.pop();
                            // exactly one proof comes with them
                            if !b.equ_proofs.is_empty() {
                                res = "proofs".into();
                            }
                        }
                        Err(_) => res = "refused".into(),
                    }
                    Ok(())
                }
                "verify" => {
                    let (i, j, e, p) = (ix("xr"), ix("yr"), ix("er"), ix("pr"));
                    // the specification only verifies what it made; an earlier call may have failed to make it
                    res = match (&s.x[i], &s.y[j], &s.p[p]) {
                        (Some(x), Some(y), Some(p)) => {
                            let b = bundle(x.clone(), y.clone(), vec![p.clone()]);
                            s.e[e].as_ref().unwrap().verdict(&b, s.crs.as_ref().unwrap()).to_string()
                        }
                        _ => "missing".to_string(),
                    };
                    Ok(())
                }
                k => panic!("op {k}"),
            };
            let bad = r.is_err();
            ev["st"] = json!(if bad { "panic" } else { "ok" });
            if let Err(m) = r {
                ev["msg"] = json!(short(&m));
            }
            ev["res"] = json!(res);
            ev["obs"] = s.obs();
            c.emit(ev);
            if bad {
                break; // the rest of the history has no meaning
            }
        }
    }
}
