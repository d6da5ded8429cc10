//! C03: bundles and prover inputs that are not well-formed.
use crate::inst::Inst;
use crate::model::*;
use crate::scen_core::{abs_prove, F};
use crate::Ctx;
use ark_ff::AdditiveGroup;
use groth_sahai::prover::*;
use serde_json::{json, Value};

/// how many entries too many: a few, or as many as a byte counts
fn many<E: Inst>(g: &mut Gen<E>) -> usize {
    if g.p(30) { 256 } else { 1 + g.n(3) }
}
fn resize<E: Inst>(g: &mut Gen<E>, v: &mut Vec<F<E>>) {
    let z = F::<E>::ZERO;
    match g.n(6) {
        0 | 1 if !v.is_empty() => {
            v.pop();
        }
        2 if !v.is_empty() => {
            v.remove(0);
        }
        3 => {
            let x = *v.last().unwrap_or(&z);
            v.push(x)
        }
        4 => {
            let x = g.f();
            v.push(x)
        }
        _ => {
            for _ in 0..many(g) {
                v.push(z)
            }
        }
    }
}
fn resize_p<E: Inst>(g: &mut Gen<E>, v: &mut Vec<Pt<E>>) {
    let z: Pt<E> = [F::<E>::ZERO; 2];
    match g.n(6) {
        0 | 1 if !v.is_empty() => {
            v.pop();
        }
        2 if !v.is_empty() => {
            v.remove(0);
        }
        3 => {
            let x = *v.last().unwrap_or(&z);
            v.push(x)
        }
        4 => {
            let x = g.pt();
            v.push(x)
        }
        _ => {
            for _ in 0..many(g) {
                v.push(z)
            }
        }
    }
}
fn resize_g<E: Inst>(g: &mut Gen<E>, m: &mut Vec<Vec<F<E>>>) {
    let z = F::<E>::ZERO;
    let n = m.first().map(|r| r.len()).unwrap_or(0);
    match g.n(12) {
        0 if !m.is_empty() => {
            m.pop();
        }
        1 if !m.is_empty() => {
            m.remove(0);
        }
        2 => {
            let k = if g.p(40) { 256 } else { 1 };
            m.extend(vec![vec![z; n]; k])
        }
        3 => {
            // every row
            m.iter_mut().for_each(|r| r.push(z))
        }
        4 => m.iter_mut().for_each(|r| {
            r.pop();
        }),
        5 => {
            // rows without columns, in front or alone
            if g.p(50) { m.insert(0, vec![]) } else { m.push(vec![]) }
        }
        6 => m.iter_mut().for_each(|r| r.clear()),
        _ if !m.is_empty() => {
            // one row, more often not the first
            let k = if g.p(25) { 0 } else { m.len() - 1 - g.n((m.len() + 1) / 2) };
            resize(g, &mut m[k])
        }
        _ => m.push(vec![]),
    }
}
fn zero_eq<E: Inst>(ty: Ty, m: usize, n: usize) -> AEq<E> {
    let z = F::<E>::ZERO;
    AEq { ty, a: vec![z; n], b: vec![z; m], g: vec![vec![z; n]; m], t: z }
}
/// the `k`-th change of an equation; `true` if it is one of its parts
fn hit_eq<E: Inst>(g: &mut Gen<E>, e: &mut AEq<E>, k: usize) -> &'static str {
    match k {
        0 => {
            resize(g, &mut e.a);
            "a"
        }
        1 => {
            resize(g, &mut e.b);
            "b"
        }
        _ => {
            resize_g(g, &mut e.g);
            "g"
        }
    }
}

pub fn illverify<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    for i in 0..c.n {
        let ty = TYPES[(i as usize) % 4];
        let (mut m, mut n) = (1 + g.n(4), 1 + g.n(4));
        // now and then nothing is committed on a side: rows and columns still have to match
        if g.p(12) {
            m = 0;
        }
        if g.p(8) {
            n = 0;
        }
        let (x, y) = (g.fs(m), g.fs(n));
        let key = g.anykey();
        let trivial = g.p(35);
        let e = if trivial {
            zero_eq(ty, m, n)
        } else if m == 0 || n == 0 {
            let mut e = AEq { ty, a: g.fs(n), b: g.fs(m), g: g.mat(m, n), t: F::<E>::ZERO };
            e.t = e.lhs(&x, &y);
            e
        } else {
            g.eq_for(ty, &x, &y)
        };
        let mut a = abs_prove(&mut g, &key, &e, &x, &y);
        if trivial && g.p(60) {
            // everything zero: satisfied whatever is left out
            let z: Pt<E> = [F::<E>::ZERO; 2];
            a.pi.iter_mut().for_each(|p| *p = z);
            a.th.iter_mut().for_each(|p| *p = z);
        }
        let mut label = ty;
        let mut copies = 1usize;
        let mut extra: Option<(Ty, Vec<Pt<E>>, Vec<Pt<E>>)> = None;
        let mut kinds = vec![];
        for _ in 0..1 + g.n(3) / 2 {
            let k = g.n(12);
            kinds.push(match k {
                0 => {
                    copies = if g.p(40) { 0 } else if g.p(40) { 257 } else { 2 };
                    "copies"
                }
                1 => {
                    let t2 = g.ty();
                    let (p, t) = (g.pts(t2.pi_len()), g.pts(t2.th_len()));
                    extra = Some((t2, p, t));
                    "extra"
                }
                2 | 3 => {
                    label = TYPES[(TYPES.iter().position(|t| *t == ty).unwrap() + 1 + g.n(3)) % 4];
                    if g.p(40) {
                        // with the number of elements of that other type
                        let z: Pt<E> = [F::<E>::ZERO; 2];
                        a.pi.resize(label.pi_len(), z);
                        a.th.resize(label.th_len(), z);
                    }
                    "label"
                }
                4 => {
                    resize_p(&mut g, &mut a.pi);
                    "pi"
                }
                5 => {
                    resize_p(&mut g, &mut a.th);
                    "th"
                }
                6 => {
                    resize_p(&mut g, &mut a.xc);
                    "xc"
                }
                7 => {
                    resize_p(&mut g, &mut a.yc);
                    "yc"
                }
                8 => {
                    // all the parts of one side but one
                    let z = F::<E>::ZERO;
                    let (skip, k) = (g.n(3), if g.p(25) { 256 } else { 1 });
                    if skip != 0 {
                        a.xc.extend(vec![[z; 2]; k])
                    }
                    if skip != 1 {
                        a.eq.b.extend(vec![z; k])
                    }
                    if skip != 2 {
                        let n = a.eq.g.first().map(|r| r.len()).unwrap_or(0);
                        a.eq.g.extend(vec![vec![z; n]; k])
                    }
                    "side1"
                }
                9 => {
                    let z = F::<E>::ZERO;
                    let (skip, k) = (g.n(4), if g.p(25) { 256 } else { 1 });
                    if skip != 0 {
                        a.yc.extend(vec![[z; 2]; k])
                    }
                    if skip != 1 {
                        a.eq.a.extend(vec![z; k])
                    }
                    if skip != 2 {
                        let l = a.eq.g.len();
                        let but = if skip == 3 { g.n(l.max(1)) } else { l };
                        for (i, r) in a.eq.g.iter_mut().enumerate() {
                            if i != but {
                                r.extend(vec![z; k])
                            }
                        }
                    }
                    "side2"
                }
                _ => {
                    let k = g.n(4).min(2);
                    hit_eq(&mut g, &mut a.eq, k)
                }
            });
        }
        let crs = a.key.real();
        let eq = a.eq.real();
        let p = forge_proof::<E>(label, c2s::<E>(&a.pi), c1s::<E>(&a.th));
        let mut ps: Vec<EquProof<E>> = (0..copies).map(|_| p.clone()).collect();
        if let Some((t, pi, th)) = extra {
            let q = forge_proof::<E>(t, c2s::<E>(&pi), c1s::<E>(&th));
            if g.p(50) {
                ps.push(q)
            } else {
                ps.insert(0, q)
            }
        }
        let prf = proofs_j_shape(&ps);
        let cp = bundle(forge_x::<E>(ty.xs(), c1s::<E>(&a.xc)), forge_y::<E>(ty.ys(), c2s::<E>(&a.yc)), ps);
        let v = eq.verdict(&cp, &crs);
        c.emit(json!({"op":"illverify","kinds":kinds,"eq":a.eq.j(),"xc":pv::<E>(&a.xc),"yc":pv::<E>(&a.yc),"crs":a.key.j(),"prf":prf,"res":v}));
    }
}
fn proofs_j_shape<E: Inst>(p: &[EquProof<E>]) -> Value {
    proofs_j(p)
}

/// Openings are not accessible; what they are is known from how the list was made: one entry per
/// opening, its number of scalars.
pub fn illprove<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    for i in 0..c.n {
        let ty = TYPES[(i as usize) % 4];
        let (mut m, mut n) = (1 + g.n(3), 1 + g.n(3));
        if g.p(8) {
            m = 0;
        }
        if g.p(8) {
            n = 0;
        }
        let (mut x, mut y) = (g.fs(m), g.fs(n));
        let key = g.anykey();
        let crs = key.real();
        let mut e = if g.p(30) || m == 0 || n == 0 { zero_eq(ty, m, n) } else { g.eq_for(ty, &x, &y) };
        let (mut sx, mut sy) = (ty.xs(), ty.ys());
        let (mut cx, mut cy) = (x.clone(), y.clone());
        let mut kinds = vec![];
        let cap = g.p(25);
        let (mut mixx, mut mixy) = (false, false);
        let (mut popx, mut popy) = (0i32, 0i32);
        for _ in 0..1 + g.n(3) / 2 {
            kinds.push(match g.n(if cap { 5 } else { 13 }) {
                0 => {
                    resize(&mut g, &mut x);
                    "x"
                }
                1 => {
                    resize(&mut g, &mut y);
                    "y"
                }
                2 => hit_eq(&mut g, &mut e, 0),
                3 => hit_eq(&mut g, &mut e, 1),
                4 => hit_eq(&mut g, &mut e, 2),
                5 => {
                    resize(&mut g, &mut cx);
                    "cx"
                }
                6 => {
                    resize(&mut g, &mut cy);
                    "cy"
                }
                7 => {
                    sx = !sx;
                    "kx"
                }
                8 => {
                    sy = !sy;
                    "ky"
                }
                9 => {
                    mixx = true;
                    "mixx"
                }
                10 => {
                    mixy = true;
                    "mixy"
                }
                11 => {
                    popx = if g.p(50) { -1 } else if g.p(50) { 256 } else { 1 };
                    "popx"
                }
                _ => {
                    popy = if g.p(50) { -1 } else if g.p(50) { 256 } else { 1 };
                    "popy"
                }
            });
        }
        let s = g.seed();
        let w = |b: bool| if b { 1 } else { 2 };
        let mut ev = json!({"op":"illprove","kinds":kinds,"how":if cap {"cap"} else {"prove"},"eq":e.j(),"seed":s.to_string(),
            "x":fv::<E>(&x),"y":fv::<E>(&y),"crs":key.j()});
        let eq = e.real();
        let r = if cap {
            // commit-and-prove commits to exactly the witness it is given
            ev["xk"] = json!(vec![w(ty.xs()); x.len()]);
            ev["yk"] = json!(vec![w(ty.ys()); y.len()]);
            ev["nx"] = json!(x.len());
            ev["ny"] = json!(y.len());
            guard(|| {
                eq.commit_and_prove(&x, &y, &crs, &mut rng(s));
            })
        } else {
            let mut r = rng(s);
            let (mut xk, mut yk) = (vec![], vec![]);
            let made = guard(|| {
                let mut xc = commit_x::<E, _>(sx, &cx, &crs, &mut r);
                xk.extend(cx.iter().map(|_| w(sx)));
                if mixx && !cx.is_empty() {
                    // the last one of the other kind
                    let mut l = commit_x::<E, _>(sx, &cx[..cx.len() - 1], &crs, &mut r);
                    l.append(&mut commit_x1::<E, _>(!sx, cx.last().unwrap(), &crs, &mut r));
                    xc = l;
                    *xk.last_mut().unwrap() = w(!sx);
                }
                let mut yc = commit_y::<E, _>(sy, &cy, &crs, &mut r);
                yk.extend(cy.iter().map(|_| w(sy)));
                if mixy && !cy.is_empty() {
                    let mut l = commit_y::<E, _>(sy, &cy[..cy.len() - 1], &crs, &mut r);
                    l.append(&mut commit_y1::<E, _>(!sy, cy.last().unwrap(), &crs, &mut r));
                    yc = l;
                    *yk.last_mut().unwrap() = w(!sy);
                }
                match popx {
                    -1 => {
                        xc.coms.pop();
                    }
                    k if k > 0 => xc.coms.extend(vec![c1::<E>(&[F::<E>::ZERO; 2]); k as usize]),
                    _ => {}
                }
                match popy {
                    -1 => {
                        yc.coms.pop();
                    }
                    k if k > 0 => yc.coms.extend(vec![c2::<E>(&[F::<E>::ZERO; 2]); k as usize]),
                    _ => {}
                }
                (xc, yc)
            });
            let (xc, yc) = match made {
                Ok(z) => z,
                Err(_) => continue, // not this property's business
            };
            ev["xk"] = json!(xk);
            ev["yk"] = json!(yk);
            ev["nx"] = json!(xc.coms.len());
            ev["ny"] = json!(yc.coms.len());
            guard(|| {
                eq.prove(&x, &y, &xc, &yc, &crs, &mut r);
            })
        };
        ev["st"] = json!(if r.is_ok() { "ok" } else { "panic" });
        c.emit(ev);
    }
}
