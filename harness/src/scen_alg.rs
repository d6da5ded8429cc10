//! Scenarios over the commitment groups, the pairing, the linear maps and matrices (C10-C12).
use crate::inst::Inst;
use crate::model::*;
use crate::scen_core::F;
use crate::Ctx;
use ark_ec::pairing::PairingOutput;
use ark_ff::{AdditiveGroup, Field};
use ark_std::Zero;
use groth_sahai::data_structures::*;
use serde_json::{json, Value};

fn t4<E: Inst>(p: &[F<E>]) -> ComT<E> {
    ComT(E::gt(&p[0]), E::gt(&p[1]), E::gt(&p[2]), E::gt(&p[3]))
}
fn t_j<E: Inst>(t: &ComT<E>) -> Value {
    json!([E::gt_j(&t.0), E::gt_j(&t.1), E::gt_j(&t.2), E::gt_j(&t.3)])
}
fn res(ev: &mut Value, oty: &str, r: Result<Value, String>) {
    ev["oty"] = json!(oty);
    match r {
        Ok(v) => {
            ev["st"] = json!("ok");
            ev["out"] = v;
        }
        Err(m) => {
            ev["st"] = json!("panic");
            ev["msg"] = json!(short(&m));
        }
    }
}

/// the sum of a list, handed over by iterators that know more or less about their length
fn sum_by<T: Copy + std::iter::Sum + 'static>(kind: usize, v: Vec<T>) -> T {
    let k = v.len() / 3;
    let it: Box<dyn Iterator<Item = T>> = match kind {
        0 => Box::new(v.into_iter()),
        1 => Box::new(v.into_iter().filter(|_| true)),
        2 => {
            let (a, b) = (v[..k].to_vec(), v[k..].to_vec());
            Box::new(a.into_iter().chain(b))
        }
        3 => {
            let mut it = v.into_iter();
            Box::new(std::iter::from_fn(move || it.next()))
        }
        _ => Box::new(v.into_iter().rev()),
    };
    it.sum()
}

/// C10
pub fn group<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    // sweep=1: sums of every length in turn
    let sweep = c.arg("sweep", 0) == 1;
    for i in 0..c.n {
        let which = i % 3;
        let dim = if which == 2 { 4 } else { 2 };
        let e = |g: &mut Gen<E>| -> Vec<F<E>> {
            let mut v: Vec<F<E>> = (0..dim).map(|_| g.f()).collect();
            if g.p(25) {
                let k = g.n(dim);
                v[k] = F::<E>::ZERO;
            }
            v
        };
        let a = e(&mut g);
        let b = match g.n(8) {
            0 => a.clone(),
            1 => a.iter().map(|x| -*x).collect(),
            2 => vec![F::<E>::ZERO; dim],
            3 => {
                // equal except in one entry
                let mut b = a.clone();
                let k = g.n(dim);
                b[k] += g.nz();
                b
            }
            4 => {
                // opposite except in one entry
                let mut b: Vec<_> = a.iter().map(|x| -*x).collect();
                let k = g.n(dim);
                b[k] += g.nz();
                b
            }
            _ => e(&mut g),
        };
        let s = g.f();
        let nops = if which == 2 { 11 } else { 14 };
        let op = if sweep { 5 } else { g.n(nops) };
        let names = ["add", "sub", "neg", "addassign", "subassign", "sum", "eq", "iszero", "zero", "from", "colvec", "vec", "smul", "frombad"];
        let name = if which == 2 && op == 9 { "from" } else if which == 2 && op == 10 { "frombad" } else { names[op] };
        let mut ev = json!({"op":"grp","w":which+1,"f":name,"a":fv::<E>(&a),"b":fv::<E>(&b),"s":E::fr_j(&s)});
        let k = if sweep { (i / 3) as usize } else { g.len(7) };
        let l: Vec<Vec<F<E>>> = (0..k).map(|_| e(&mut g)).collect();
        if name == "sum" {
            ev["l"] = fm::<E>(&l);
        }
        let shape = if which == 2 { (1 + g.n(3), 1 + g.n(3), 1 + g.n(3)) } else { (g.n(4), g.n(3), g.n(3)) };
        let kind = g.n(5);
        macro_rules! com {
            ($con:ident, $proj:ident, $com:ident, $oty:expr, $tr:ident) => {{
                let x = $con::<E>(&[a[0], a[1]]);
                let y = $con::<E>(&[b[0], b[1]]);
                match name {
                    "add" => res(&mut ev, $oty, guard(|| $proj(&(x + y)))),
                    "sub" => res(&mut ev, $oty, guard(|| $proj(&(x - y)))),
                    "neg" => res(&mut ev, $oty, guard(|| $proj(&(-x)))),
                    "addassign" => res(&mut ev, $oty, guard(|| { let mut z = x; z += y; $proj(&z) })),
                    "subassign" => res(&mut ev, $oty, guard(|| { let mut z = x; z -= y; $proj(&z) })),
                    "sum" => res(&mut ev, $oty, guard(|| $proj(&sum_by::<$com<E>>(kind, l.iter().map(|p| $con::<E>(&[p[0], p[1]])).collect())))),
                    "eq" => res(&mut ev, "bool", guard(|| { let r = x == y; assert!((x != y) != r && (y == x) == r); json!(r) })),
                    "iszero" => res(&mut ev, "bool", guard(|| json!(x.is_zero()))),
                    "zero" => res(&mut ev, $oty, guard(|| { let mut z = x; if kind % 2 == 0 { z.set_zero() } else { z = $com::<E>::zero() } $proj(&z) })),
                    "from" => res(&mut ev, $oty, guard(|| $proj(&$com::<E>::from(vec![vec![x.0], vec![x.1]])))),
                    "colvec" => res(&mut ev, $oty, guard(|| {
                        let v = $tr::<E>::as_col_vec(&x);
                        Value::Array(v.iter().map(|r| Value::Array(r.iter().map(|z| $proj(&$com::<E>(*z, *z))[0].clone()).collect())).collect())
                    })),
                    "vec" => res(&mut ev, $oty, guard(|| {
                        let v = $tr::<E>::as_vec(&x);
                        Value::Array(v.iter().map(|z| $proj(&$com::<E>(*z, *z))[0].clone()).collect())
                    })),
                    "smul" => res(&mut ev, $oty, guard(|| $proj(&$tr::<E>::scalar_mul(&x, &s)))),
                    "frombad" => {
                        // a matrix of some shape: accepted only if 2 x 1
                        let (r, c0, c1) = shape;
                        let mut m = vec![];
                        for i in 0..r {
                            m.push(vec![x.0; if i == 0 { c0 } else { c1 }]);
                        }
                        ev["shape"] = json!(m.iter().map(|r| r.len()).collect::<Vec<_>>());
                        res(&mut ev, $oty, guard(|| $proj(&$com::<E>::from(m))));
                    }
                    _ => unreachable!(),
                }
            }};
        }
        match which {
            0 => com!(c1, c1_j, Com1, "g1", B1),
            1 => com!(c2, c2_j, Com2, "g2", B2),
            _ => {
                let x = t4::<E>(&a);
                let y = t4::<E>(&b);
                match name {
                    "add" => res(&mut ev, "gt", guard(|| t_j(&(x + y)))),
                    "sub" => res(&mut ev, "gt", guard(|| t_j(&(x - y)))),
                    "neg" => res(&mut ev, "gt", guard(|| t_j(&(-x)))),
                    "addassign" => res(&mut ev, "gt", guard(|| { let mut z = x; z += y; t_j(&z) })),
                    "subassign" => res(&mut ev, "gt", guard(|| { let mut z = x; z -= y; t_j(&z) })),
                    "sum" => res(&mut ev, "gt", guard(|| t_j(&sum_by::<ComT<E>>(kind, l.iter().map(|p| t4::<E>(p)).collect())))),
                    "eq" => res(&mut ev, "bool", guard(|| { let r = x == y; assert!((x != y) != r && (y == x) == r); json!(r) })),
                    "iszero" => res(&mut ev, "bool", guard(|| json!(x.is_zero()))),
                    "zero" => res(&mut ev, "gt", guard(|| { let mut z = x; if kind % 2 == 0 { z.set_zero() } else { z = ComT::<E>::zero() } t_j(&z) })),
                    "frombad" => {
                        let (r, c0, c1) = shape;
                        let mut m = vec![];
                        for i in 0..r {
                            m.push(vec![x.0; if i == 0 { c0 } else { c1 }]);
                        }
                        ev["shape"] = json!(m.iter().map(|r| r.len()).collect::<Vec<_>>());
                        res(&mut ev, "gt", guard(|| t_j(&ComT::<E>::from(m))));
                    }
                    _ => {
                        ev["f"] = json!("frommat");
                        res(&mut ev, "gt", guard(|| {
                            let m = x.as_matrix();
                            let z = ComT::<E>::from(m.clone());
                            json!([m.iter().map(|r| r.iter().map(|z: &PairingOutput<E>| E::gt_j(z)).collect::<Vec<_>>()).collect::<Vec<_>>(), t_j(&z)])
                        }))
                    }
                }
            }
        }
        c.emit(ev);
    }
}

/// C11
pub fn maps<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    let names = [
        "pair", "pairsum", "pairsum", "pairbad", "lin1", "lin2", "slin1", "slin2", "blin1", "blin2", "bslin1", "bslin2", "linT", "linT", "comm", "comm", "bilin",
    ];
    let sweep = c.arg("sweep", 0) == 1;
    let lists = ["pairsum", "pairsum", "blin1", "blin2", "bslin1", "bslin2"];
    for i in 0..c.n {
        let name = if sweep { lists[i as usize % 6] } else { names[(i as usize) % names.len()] };
        let key = g.anykey();
        let crs = key.real();
        let mut ev = json!({"op":"map","f":name,"crs":key.j()});
        let k = if sweep { i as usize / 6 } else { g.len(7) };
        match name {
            "pair" => {
                let (x, y) = (g.pt(), g.pt());
                ev["a"] = fv::<E>(&x);
                ev["b"] = fv::<E>(&y);
                res(&mut ev, "gt", guard(|| t_j(&ComT::<E>::pairing(c1::<E>(&x), c2::<E>(&y)))));
            }
            "bilin" => {
                // F(s*x1 + x2, y) and F(x, s*y1 + y2), computed by the library on both sides
                let (x, y, z) = (g.pt(), g.pt(), g.pt());
                let s = g.f();
                let left = g.p(50);
                ev["a"] = fv::<E>(&x);
                ev["b"] = fv::<E>(&y);
                ev["z"] = fv::<E>(&z);
                ev["s"] = E::fr_j(&s);
                ev["left"] = json!(left);
                res(&mut ev, "gt", guard(|| {
                    if left {
                        t_j(&ComT::<E>::pairing(c1::<E>(&x).scalar_mul(&s) + c1::<E>(&z), c2::<E>(&y)))
                    } else {
                        t_j(&ComT::<E>::pairing(c1::<E>(&x), c2::<E>(&y).scalar_mul(&s) + c2::<E>(&z)))
                    }
                }));
            }
            "pairsum" | "pairbad" => {
                let x = g.pts(k);
                let k2 = if name == "pairbad" {
                    let d = if g.p(20) { 256 } else { 1 + g.n(2) };
                    if k >= d && g.p(50) { k - d } else { k + d }
                } else {
                    k
                };
                let y = g.pts(k2);
                ev["a"] = pv::<E>(&x);
                ev["b"] = pv::<E>(&y);
                res(&mut ev, "gt", guard(|| t_j(&ComT::<E>::pairing_sum(&c1s::<E>(&x), &c2s::<E>(&y)))));
            }
            "lin1" | "lin2" | "slin1" | "slin2" => {
                let x = g.f();
                ev["a"] = E::fr_j(&x);
                match name {
                    "lin1" => res(&mut ev, "g1", guard(|| c1_j(&Com1::<E>::linear_map(&E::g1(&x))))),
                    "lin2" => res(&mut ev, "g2", guard(|| c2_j(&Com2::<E>::linear_map(&E::g2(&x))))),
                    "slin1" => res(&mut ev, "g1", guard(|| c1_j(&Com1::<E>::scalar_linear_map(&x, &crs)))),
                    _ => res(&mut ev, "g2", guard(|| c2_j(&Com2::<E>::scalar_linear_map(&x, &crs)))),
                }
            }
            "blin1" | "blin2" | "bslin1" | "bslin2" => {
                let x = g.fs(k);
                ev["a"] = fv::<E>(&x);
                match name {
                    "blin1" => res(&mut ev, "g1", guard(|| c1s_j(&Com1::<E>::batch_linear_map(&g1v::<E>(&x))))),
                    "blin2" => res(&mut ev, "g2", guard(|| c2s_j(&Com2::<E>::batch_linear_map(&g2v::<E>(&x))))),
                    "bslin1" => res(&mut ev, "g1", guard(|| c1s_j(&Com1::<E>::batch_scalar_linear_map(&x, &crs)))),
                    _ => res(&mut ev, "g2", guard(|| c2s_j(&Com2::<E>::batch_scalar_linear_map(&x, &crs)))),
                }
            }
            "linT" => {
                let ty = g.ty();
                let x = g.f();
                ev["ty"] = json!(ty.s());
                ev["a"] = E::fr_j(&x);
                res(&mut ev, "gt", guard(|| t_j(&lin_t(ty, &x, &crs))));
            }
            _ => {
                // both sides of the commutation, as computed by the library
                let ty = g.ty();
                let (x, y) = (g.f(), g.f());
                ev["ty"] = json!(ty.s());
                ev["a"] = E::fr_j(&x);
                ev["b"] = E::fr_j(&y);
                res(&mut ev, "gt", guard(|| {
                    let i1 = if ty.xs() { Com1::<E>::scalar_linear_map(&x, &crs) } else { Com1::<E>::linear_map(&E::g1(&x)) };
                    let i2 = if ty.ys() { Com2::<E>::scalar_linear_map(&y, &crs) } else { Com2::<E>::linear_map(&E::g2(&y)) };
                    json!([t_j(&ComT::<E>::pairing(i1, i2)), t_j(&lin_t(ty, &(x * y), &crs))])
                }));
            }
        }
        c.emit(ev);
    }
}
fn lin_t<E: Inst>(ty: Ty, x: &F<E>, crs: &groth_sahai::CRS<E>) -> ComT<E> {
    match ty {
        Ty::Ppe => ComT::<E>::linear_map_PPE(&E::gt(x)),
        Ty::Ms1 => ComT::<E>::linear_map_MSMEG1(&E::g1(x), crs),
        Ty::Ms2 => ComT::<E>::linear_map_MSMEG2(&E::g2(x), crs),
        Ty::Quad => ComT::<E>::linear_map_quad(x, crs),
    }
}

/// one row of another length (1), or no columns at all (2)
fn ragged<T: Clone>(a: &mut Vec<Vec<T>>, how: usize, hit: usize, down: bool, z: T) {
    if how == 0 || a.is_empty() {
        return;
    }
    if how == 2 {
        a.iter_mut().for_each(|r| r.clear());
        if hit % 2 == 0 {
            a.clear();
        }
        return;
    }
    let k = hit % a.len();
    if down && a[k].len() > 0 {
        a[k].pop();
        if hit % 3 == 0 {
            a[k].clear();
        }
    } else {
        a[k].push(z);
    }
}

/// C12.  Matrices over F, B1, B2.
pub fn matrix<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    let sizes = c.sizes();
    let pools: Vec<rayon::ThreadPool> = [1usize, 2, 3, 4, 7, 16]
        .iter()
        .map(|k| rayon::ThreadPoolBuilder::new().num_threads(*k).build().unwrap())
        .collect();
    let (lo, hi) = (c.arg("lo", 1), c.arg("hi", 70));
    let sweep = c.arg("sweep", 0) == 1;
    let names = ["left", "right", "add", "left", "right", "neg", "smul", "transpose", "leftbad", "rightbad", "addbad", "left", "right", "c2v", "v2c", "smulbad"];
    let conv = c.arg("conv", 0) == 1;
    for i in 0..c.n {
        let name = if sweep { ["left", "right", "left", "right", "left", "right", "left", "right", "add", "neg", "smul", "transpose", "c2v", "v2c"][(i as usize) % 14] } else if sizes.is_empty() { names[(i as usize) % names.len()] } else { ["left", "right", "left", "right", "add", "left", "neg", "right", "smul", "transpose", "c2v", "v2c"][(i as usize) % 12] };
        let name = match name {
            _ if conv => ["c2v", "v2c", "c2vbad"][(i % 3) as usize],
            "smulbad" => ["smulbad", "transbad", "c2vbad"][((i / 16) % 3) as usize],
            _ => name,
        };
        let which = if sweep { (i as usize / 14) % 3 } else { g.n(3) };
        let (m, k, n) = if sweep {
            // every dimension in turn takes every value of a range
            let d = (lo + (i / 84) % (hi - lo)) as usize;
            let t = [d, 1 + g.n(2), 1 + g.n(2)];
            // the inner dimension more often than the outer ones
            let r = match (name, (i % 14) / 2) { ("left", 0 | 1) => 0, ("left", 2) => 2, ("left", _) => 1, ("right", 0 | 1) => 2, ("right", 2) => 0, ("right", _) => 1, _ => g.n(2) };
            (t[r], t[(r + 1) % 3], t[(r + 2) % 3])
        } else if sizes.is_empty() {
            (g.dim(), g.dim(), g.dim())
        } else {
            let s = sizes[(i as usize / 12) % sizes.len()];
            let t = [s.0, s.1, 1 + g.n(3)];
            let r = g.n(3);
            (t[r], t[(r + 1) % 3], t[(r + 2) % 3])
        };
        // operands without rows or without columns
        let hollow = sizes.is_empty() && !sweep && g.p(6);
        let (m, k) = match name {
            "add" | "neg" | "smul" | "transpose" if hollow => (if g.p(50) { 0 } else { m }, 0),
            "c2v" if hollow => (0, 0),
            "v2c" if hollow => (1, 0),
            _ => (m, k),
        };
        // square factors
        let (k, n) = if !sweep && sizes.is_empty() && g.p(35) { if name == "right" { (k, k) } else { (k, m) } } else { (k, n) };
        let par = if sweep { (i / 42) % 2 == 1 } else { g.p(50) };
        let pool = &pools[g.n(6)];
        let s = g.f();
        // now and then as much too long as a byte counts
        let far = g.p(20);
        // self: m x k ; other (multiplication): k x n on the right, n x m on the left
        let (or, oc) = match name {
            "left" => (n, m),
            "right" => (k, n),
            "leftbad" => (n, m + if far { 256 } else { 1 + g.n(2) }),
            "rightbad" => (if k > 1 && g.p(50) { k - 1 } else { k + if far { 256 } else { 1 + g.n(2) } }, n),
            "addbad" => {
                let d = if far { 256 } else { 1 };
                if g.p(50) { (m + d, k) } else { (m, k + d) }
            }
            _ => (m, k),
        };
        // factors and summands whose rows differ in length, or that have no columns at all: 1, 2 the other one, 3, 4 self
        let bad = name.ends_with("bad");
        let one = name == "smulbad" || name == "transbad";
        let rag = if one { 3 } else if name == "c2vbad" && g.p(70) { 0 } else if bad && g.p(60) { 1 + g.n(4) } else { 0 };
        let (or, oc) = if rag > 0 { match name { "leftbad" => (n, m), "rightbad" => (k, n), _ => (m, k) } } else { (or, oc) };
        let hit = g.n(1000);
        let down = g.p(50);
        // occasionally an empty factor
        let empty = (name == "left" || name == "right") && sizes.is_empty() && !sweep && g.p(4);
        let mut bo = if empty { if g.p(50) { vec![] } else { vec![vec![]; or] } } else { g.mat(or, oc) };
        let zf = F::<E>::ZERO;
        if name != "addbad" {
            ragged(&mut bo, if rag <= 2 { rag } else { 0 }, hit, down, zf);
        }
        let mut ev = json!({"op":"mat","w":which,"f":name,"par":par,"s":E::fr_j(&s)});
        macro_rules! go {
            ($A:expr, $B:expr, $oj:expr, $oty:expr) => {{
                let a = $A;
                let oj = $oj;
                let r = match name {
                    "left" | "leftbad" => guard(|| pool.install(|| a.left_mul(&bo, par))),
                    "right" | "rightbad" => guard(|| pool.install(|| a.right_mul(&bo, par))),
                    "add" | "addbad" => { let b = $B; guard(|| a.add(&b)) }
                    "neg" => guard(|| a.neg()),
                    "smul" | "smulbad" => guard(|| Mat::scalar_mul(&a, &s)),
                    "transpose" | "transbad" => guard(|| a.transpose()),
                    "c2v" => guard(|| vec![col_vec_to_vec(&a.iter().map(|r| vec![r[0].clone()]).collect())]),
                    "c2vbad" => guard(|| vec![col_vec_to_vec(&a)]),
                    _ => guard(|| vec_to_col_vec(&a[0])),
                };
                // a product without entries, however it is written
                let r = r.map(|z| if (name.starts_with("left") || name.starts_with("right")) && z.iter().all(|r| r.is_empty()) { vec![] } else { z });
                res(&mut ev, $oty, r.map(|z| Value::Array(z.iter().map(|r| Value::Array(r.iter().map(|x| oj(x)).collect())).collect())));
            }};
        }
        if which == 0 {
            let mut a = g.mat(m, k);
            ragged(&mut a, if rag > 2 { rag - 2 } else { 0 }, hit, down, zf);
            ev["A"] = fm::<E>(&a);
            let mut b = if name == "add" || name == "addbad" { g.mat(or, oc) } else { bo.clone() };
            if name == "addbad" {
                ragged(&mut b, if rag <= 2 { rag } else { 0 }, hit, down, zf);
            }
            ev["B"] = fm::<E>(&b);
            go!(a, b, |x: &F<E>| E::fr_j(x), "fr");
        } else {
            let mut a: Vec<Vec<Pt<E>>> = (0..m).map(|_| g.pts(k)).collect();
            ragged(&mut a, if rag > 2 { rag - 2 } else { 0 }, hit, down, [zf; 2]);
            ev["A"] = Value::Array(a.iter().map(|r| pv::<E>(r)).collect());
            let mut b2: Vec<Vec<Pt<E>>> = if name == "add" || name == "addbad" { (0..or).map(|_| g.pts(oc)).collect() } else { vec![] };
            if name == "addbad" {
                ragged(&mut b2, if rag <= 2 { rag } else { 0 }, hit, down, [zf; 2]);
            }
            ev["B"] = if name == "add" || name == "addbad" { Value::Array(b2.iter().map(|r| pv::<E>(r)).collect()) } else { fm::<E>(&bo) };
            if which == 1 {
                let ra: Matrix<Com1<E>> = a.iter().map(|r| c1s::<E>(r)).collect();
                let rb: Matrix<Com1<E>> = b2.iter().map(|r| c1s::<E>(r)).collect();
                go!(ra, rb, |x: &Com1<E>| c1_j(x), "g1");
            } else {
                let ra: Matrix<Com2<E>> = a.iter().map(|r| c2s::<E>(r)).collect();
                let rb: Matrix<Com2<E>> = b2.iter().map(|r| c2s::<E>(r)).collect();
                go!(ra, rb, |x: &Com2<E>| c2_j(x), "g2");
            }
        }
        c.emit(ev);
    }
}

/// C12: the same product, many times: sequentially, in parallel, on pools of every size, nested in
/// parallel iterators and from several threads at once.  All distinct results are reported.
pub fn sched<E: Inst>(c: &mut Ctx) {
    use rayon::prelude::*;
    let mut g = Gen::<E>::of(c);
    let sizes = c.sizes();
    let reps = c.arg("reps", 3);
    let pools: Vec<(usize, rayon::ThreadPool)> = [1usize, 2, 3, 4, 5, 8, 16]
        .iter()
        .map(|k| (*k, rayon::ThreadPoolBuilder::new().num_threads(*k).build().unwrap()))
        .collect();
    for i in 0..c.n {
        let (m, k) = if sizes.is_empty() { (g.dim(), g.dim()) } else { sizes[(i as usize) % sizes.len()] };
        let n = 1 + g.n(4);
        let which = g.n(3);
        let left = g.p(50);
        let o = if left { g.mat(n, m) } else { g.mat(k, n) };
        let mut ev = json!({"op":"sched","w":which,"f": if left {"left"} else {"right"},"B":fm::<E>(&o)});
        macro_rules! go {
            ($A:expr, $oj:expr) => {{
                let a = $A;
                let oj = $oj;
                let mul = |par: bool| if left { a.left_mul(&o, par) } else { a.right_mul(&o, par) };
                let mut outs: Vec<_> = vec![];
                let mut panics = 0u32;
                let mut runs = 0u32;
                let mut push = |r: Result<_, String>| {
                    runs += 1;
                    match r {
                        Ok(x) => if !outs.contains(&x) { outs.push(x) },
                        Err(_) => panics += 1,
                    }
                };
                push(guard(|| mul(false)));
                for (_, p) in &pools {
                    for _ in 0..reps {
                        push(guard(|| p.install(|| mul(true))));
                    }
                    push(guard(|| p.install(|| mul(false))));
                    // nested: inside another parallel iterator of the same pool
                    match guard(|| p.install(|| (0..6).into_par_iter().map(|_| mul(true)).collect::<Vec<_>>())) {
                        Ok(v) => v.into_iter().for_each(|x| push(Ok(x))),
                        Err(e) => push(Err(e)),
                    }
                }
                // concurrent callers outside any pool
                let rs: Vec<_> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..4).map(|z| { let mul = &mul; s.spawn(move || guard(|| mul(z != 0))) }).collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                rs.into_iter().for_each(|x| push(x));
                ev["runs"] = json!(runs);
                ev["panics"] = json!(panics);
                ev["outs"] = Value::Array(outs.iter().map(|z| Value::Array(z.iter().map(|r: &Vec<_>| Value::Array(r.iter().map(|x| oj(x)).collect())).collect())).collect());
            }};
        }
        if which == 0 {
            let a = g.mat(m, k);
            ev["A"] = fm::<E>(&a);
            go!(a, |x: &F<E>| E::fr_j(x));
        } else {
            let a: Vec<Vec<Pt<E>>> = (0..m).map(|_| g.pts(k)).collect();
            ev["A"] = Value::Array(a.iter().map(|r| pv::<E>(r)).collect());
            if which == 1 {
                let ra: Matrix<Com1<E>> = a.iter().map(|r| c1s::<E>(r)).collect();
                go!(ra, |x: &Com1<E>| c1_j(x));
            } else {
                let ra: Matrix<Com2<E>> = a.iter().map(|r| c2s::<E>(r)).collect();
                go!(ra, |x: &Com2<E>| c2_j(x));
            }
        }
        c.emit(ev);
    }
}
#[allow(dead_code)]
fn _u<E: Inst>() -> F<E> {
    F::<E>::ONE
}

/// C12: orders of completion taken from the schedule specification (Par), forced on the products
pub fn forced<E: Inst>(c: &mut Ctx) {
    use crate::toy::{gate, small};
    use std::collections::{HashMap, HashSet};
    use std::io::BufRead;
    let mut g = Gen::<E>::of(c);
    let path = c.sarg("ops", "");
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(&path).expect("ops file")).lines().map(|l| l.unwrap()).collect();
    let wait = std::time::Duration::from_millis(c.arg("wait", 8));
    let workers = c.arg("workers", 0) as usize;
    for (i, l) in lines.iter().enumerate() {
        let ord: Vec<[usize; 3]> = serde_json::from_str(l).expect("order");
        let dim = |z: usize| ord.iter().map(|e| e[z]).max().unwrap();
        let (np, nr, nc) = (dim(0), dim(1), dim(2));
        let k = 1 + i % 2;
        let left = (i / 2) % 2 == 1;
        let g1 = (i / 4) % 2 == 0;
        let w = if workers > 0 { workers } else { ord.len() + 1 };
        let pool = rayon::ThreadPoolBuilder::new().num_threads(w).build().unwrap();
        // the multiplications are told apart by the base and the scalar
        let mut used: HashSet<u64> = HashSet::new();
        let mut pts = |g: &mut Gen<E>, a: usize, b: usize| -> Vec<Vec<Pt<E>>> {
            (0..a).map(|_| (0..b).map(|_| loop {
                let p = [g.nz(), g.nz()];
                let x = |e: &F<E>| if g1 { E::x1(&E::g1(e)) } else { E::x2(&E::g2(e)) };
                let (u, v) = (x(&p[0]), x(&p[1]));
                if u != v && !used.contains(&u) && !used.contains(&v) {
                    used.insert(u);
                    used.insert(v);
                    break p;
                }
            }).collect()).collect()
        };
        let mut scal: HashSet<u64> = HashSet::new();
        let (so, sc) = if left { (nr, k) } else { (k, nc) };
        let s: Vec<Vec<F<E>>> = (0..so).map(|_| (0..sc).map(|_| loop {
            let f = g.nz();
            if scal.insert(small(&f)) { break f }
        }).collect()).collect();
        let ms: Vec<Vec<Vec<Pt<E>>>> = (0..np).map(|_| if left { pts(&mut g, k, nc) } else { pts(&mut g, nr, k) }).collect();
        let mut cells = HashMap::new();
        for (pos, e) in ord.iter().enumerate() {
            let (p, r, cc) = (e[0] - 1, e[1] - 1, e[2] - 1);
            for z in 0..k {
                let (b, f) = if left { (ms[p][z][cc], s[r][z]) } else { (ms[p][r][z], s[z][cc]) };
                let x = if g1 { E::x1(&E::g1(&b[0])) } else { E::x2(&E::g2(&b[0])) };
                cells.insert((x, small(&f)), pos);
            }
        }
        let plan = || gate::Plan { cells: cells.clone(), need: k, done: vec![0; ord.len()], finished: vec![], open: false, wait };
        macro_rules! go {
            ($conv:expr, $oj:expr) => {{
                let ms: Vec<Matrix<_>> = ms.iter().map(|m| m.iter().map(|r| $conv(r)).collect()).collect();
                let mul = |p: usize, par: bool| if left { ms[p].left_mul(&s, par) } else { ms[p].right_mul(&s, par) };
                gate::set(plan());
                let rs: Vec<Result<_, String>> = pool.install(|| {
                    use rayon::prelude::*;
                    (0..np).into_par_iter().map(|p| guard(|| mul(p, true))).collect()
                });
                let fin = gate::clear();
                let hit = fin.len() == ord.len() && fin.iter().enumerate().all(|(a, b)| a == *b);
                for (p, r) in rs.into_iter().enumerate() {
                    let mut outs: Vec<_> = vec![];
                    let mut panics = 0;
                    for r in [r, guard(|| mul(p, false))] {
                        match r {
                            Ok(x) => if !outs.contains(&x) { outs.push(x) },
                            Err(_) => panics += 1,
                        }
                    }
                    let am = Value::Array(ms[p].iter().map(|r: &Vec<_>| Value::Array(r.iter().map(|x| $oj(x)).collect())).collect());
                    let outs: Vec<Value> = outs.iter().map(|z| Value::Array(z.iter().map(|r: &Vec<_>| Value::Array(r.iter().map(|x| $oj(x)).collect())).collect())).collect();
                    c.emit(json!({"op":"sched","w": if g1 {1} else {2},"f": if left {"left"} else {"right"},"A":am,"B":fm::<E>(&s),"panics":panics,"runs":2,"outs":outs,"order":ord,"hit":hit,"free":workers == 0}));
                }
            }};
        }
        if g1 {
            go!(|r: &Vec<Pt<E>>| c1s::<E>(r), |x: &Com1<E>| c1_j(x));
        } else {
            go!(|r: &Vec<Pt<E>>| c2s::<E>(r), |x: &Com2<E>| c2_j(x));
        }
    }
}
