//! Scenarios over commitments, keys, proofs and verification (C01-C07).
use crate::inst::Inst;
use crate::model::*;
use crate::Ctx;
use ark_ff::{AdditiveGroup, Field};
use ark_std::UniformRand;
use groth_sahai::prover::*;
use groth_sahai::{AbstractCrs, CRS};
use serde_json::{json, Value};
use std::collections::HashMap;

pub type F<E> = <E as ark_ec::pairing::Pairing>::ScalarField;

/// C01: honest proofs.
pub fn complete<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    let sizes = c.sizes();
    for i in 0..c.n {
        let ty = TYPES[(i as usize) % 4];
        let (m, n) = if sizes.is_empty() { (g.dim(), g.dim()) } else { sizes[(i as usize / 4) % sizes.len()] };
        let x = g.fs(m);
        let y = g.fs(n);
        let e = g.eq_for(ty, &x, &y);
        // a key: freshly generated by the library (toys: projected), or constructed
        let (keyj, crs): (Value, CRS<E>) = if E::TOY && g.p(25) {
            let s = g.seed();
            let crs = match guard(|| CRS::<E>::generate_crs(&mut rng(s))) {
                Ok(k) => k,
                Err(_) => g.key(false).real(), // judged by C05
            };
            (crs_j(&crs), crs)
        } else {
            let k = g.anykey();
            (k.j(), k.real())
        };
        let eq = e.real();
        let s = g.seed();
        let how = g.n(3);
        let r: Result<CProof<E>, String> = match how {
            0 => guard(|| eq.commit_and_prove(&x, &y, &crs, &mut rng(s))),
            1 => guard(|| {
                let mut r = rng(s);
                let xc = commit_x(ty.xs(), &x, &crs, &mut r);
                let yc = commit_y(ty.ys(), &y, &crs, &mut r);
                let p = eq.prove(&x, &y, &xc, &yc, &crs, &mut r);
                bundle(xc, yc, vec![p])
            }),
            _ => guard(|| {
                // committed one by one, in two different orders of sides
                let mut r = rng(s);
                let mut yc = commit_y1::<E, _>(ty.ys(), &y[0], &crs, &mut r);
                for v in &y[1..] {
                    yc.append(&mut commit_y1::<E, _>(ty.ys(), v, &crs, &mut r));
                }
                let mut xc = commit_x1::<E, _>(ty.xs(), &x[0], &crs, &mut r);
                for v in &x[1..] {
                    xc.append(&mut commit_x1::<E, _>(ty.xs(), v, &crs, &mut r));
                }
                let p = eq.prove(&x, &y, &xc, &yc, &crs, &mut r);
                bundle(xc, yc, vec![p])
            }),
        };
        let mut ev = json!({"op":"complete","how":how,"seed":s.to_string(),"crs":keyj,"eq":e.j(),"x":fv::<E>(&x),"y":fv::<E>(&y)});
        match r {
            Ok(p) => {
                ev["st"] = json!("ok");
                ev["res"] = json!(eq.verdict(&p, &crs));
            }
            Err(m) => {
                ev["st"] = json!("panic");
                ev["msg"] = json!(short(&m));
                ev["res"] = json!("none");
            }
        }
        c.emit(ev);
    }
}

/// Helper: satisfying-looking bundle, computed from the *specified* prover formula in this harness
/// (not the library's prover), so that verifier checks do not depend on prover code.
#[derive(Clone)]
pub struct Abs<E: Inst> {
    pub key: AKey<E>,
    pub eq: AEq<E>,
    pub xc: Vec<Pt<E>>,
    pub yc: Vec<Pt<E>>,
    pub pi: Vec<Pt<E>>,
    pub th: Vec<Pt<E>>,
}
fn add<E: Inst>(a: Pt<E>, b: Pt<E>) -> Pt<E> {
    [a[0] + b[0], a[1] + b[1]]
}
fn mul<E: Inst>(s: F<E>, a: Pt<E>) -> Pt<E> {
    [s * a[0], s * a[1]]
}
fn io1<E: Inst>(scalar: bool, x: F<E>, k: &AKey<E>) -> Pt<E> {
    if scalar {
        mul::<E>(x, [k.u[1][0], k.u[1][1] + k.g1])
    } else {
        [F::<E>::ZERO, x]
    }
}
fn io2<E: Inst>(scalar: bool, x: F<E>, k: &AKey<E>) -> Pt<E> {
    if scalar {
        mul::<E>(x, [k.v[1][0], k.v[1][1] + k.g2])
    } else {
        [F::<E>::ZERO, x]
    }
}
pub fn abs_prove<E: Inst>(g: &mut Gen<E>, key: &AKey<E>, eq: &AEq<E>, x: &[F<E>], y: &[F<E>]) -> Abs<E> {
    let ty = eq.ty;
    let (kx, ky) = (ty.pi_len(), ty.th_len());
    let r: Vec<Vec<F<E>>> = x.iter().map(|_| (0..kx).map(|_| g.f()).collect()).collect();
    let s: Vec<Vec<F<E>>> = y.iter().map(|_| (0..ky).map(|_| g.f()).collect()).collect();
    let xc: Vec<Pt<E>> = x
        .iter()
        .zip(&r)
        .map(|(v, r)| (0..kx).fold(io1(ty.xs(), *v, key), |a, k| add::<E>(a, mul::<E>(r[k], key.u[k]))))
        .collect();
    let yc: Vec<Pt<E>> = y
        .iter()
        .zip(&s)
        .map(|(v, r)| (0..ky).fold(io2(ty.ys(), *v, key), |a, k| add::<E>(a, mul::<E>(r[k], key.v[k]))))
        .collect();
    let (pi, th) = abs_prove2(g, key, eq, x, y, &r, &s);
    Abs { key: key.clone(), eq: eq.clone(), xc, yc, pi, th }
}
pub fn abs_prove2<E: Inst>(g: &mut Gen<E>, key: &AKey<E>, eq: &AEq<E>, x: &[F<E>], y: &[F<E>], r: &[Vec<F<E>>], s: &[Vec<F<E>>]) -> (Vec<Pt<E>>, Vec<Pt<E>>) {
    let ty = eq.ty;
    let (kx, ky) = (ty.pi_len(), ty.th_len());
    let z: Pt<E> = [F::<E>::ZERO; 2];
    let t: Vec<Vec<F<E>>> = (0..ky).map(|_| (0..kx).map(|_| g.f()).collect()).collect();
    let pi = (0..kx)
        .map(|k| {
            let mut p = z;
            for i in 0..x.len() {
                p = add::<E>(p, mul::<E>(r[i][k], io2(ty.ys(), eq.b[i], key)));
                for j in 0..y.len() {
                    p = add::<E>(p, mul::<E>(r[i][k] * eq.g[i][j], io2(ty.ys(), y[j], key)));
                    for h in 0..ky {
                        p = add::<E>(p, mul::<E>(r[i][k] * eq.g[i][j] * s[j][h], key.v[h]));
                    }
                }
            }
            for h in 0..ky {
                p = add::<E>(p, mul::<E>(-t[h][k], key.v[h]));
            }
            p
        })
        .collect();
    let th = (0..ky)
        .map(|h| {
            let mut p = z;
            for j in 0..y.len() {
                p = add::<E>(p, mul::<E>(s[j][h], io1(ty.xs(), eq.a[j], key)));
                for i in 0..x.len() {
                    p = add::<E>(p, mul::<E>(s[j][h] * eq.g[i][j], io1(ty.xs(), x[i], key)));
                }
            }
            for k in 0..kx {
                p = add::<E>(p, mul::<E>(t[h][k], key.u[k]));
            }
            p
        })
        .collect();
    (pi, th)
}
impl<E: Inst> Abs<E> {
    pub fn run(&self) -> (Value, &'static str) {
        let crs = self.key.real();
        let eq = self.eq.real();
        let v = eq.verdict(&self.bundle(), &crs);
        (self.j(), v)
    }
    pub fn bundle(&self) -> CProof<E> {
        let ty = self.eq.ty;
        bundle(
            forge_x::<E>(ty.xs(), c1s::<E>(&self.xc)),
            forge_y::<E>(ty.ys(), c2s::<E>(&self.yc)),
            vec![forge_proof::<E>(ty, c2s::<E>(&self.pi), c1s::<E>(&self.th))],
        )
    }
    pub fn j(&self) -> Value {
        json!({"op":"verify","crs":self.key.j(),"eq":self.eq.j(),"xc":pv::<E>(&self.xc),"yc":pv::<E>(&self.yc),
            "prf":[{"ty":self.eq.ty.s(),"pi":pv::<E>(&self.pi),"th":pv::<E>(&self.th)}]})
    }
}

/// Change one thing in a bundle, its statement or its key; None: nothing.
fn perturb<E: Inst>(g: &mut Gen<E>, a: &mut Abs<E>, prev: &HashMap<(u8, usize, usize), Abs<E>>) -> Option<&'static str> {
    let (ty, m, n) = (a.eq.ty, a.xc.len(), a.yc.len());
    let kind;
    match g.n(17) {
        0 | 1 => return None,
        2 => {
            kind = "d-pi";
            let k = g.n(a.pi.len());
            let h = g.n(2);
            a.pi[k][h] += g.nz();
        }
        3 => {
            kind = "d-th";
            let k = g.n(a.th.len());
            let h = g.n(2);
            a.th[k][h] += g.nz();
        }
        4 => {
            kind = "d-xc";
            let k = g.n(m);
            let h = g.n(2);
            a.xc[k][h] += g.nz();
        }
        5 => {
            kind = "d-yc";
            let k = g.n(n);
            let h = g.n(2);
            a.yc[k][h] += g.nz();
        }
        6 => {
            kind = "d-a";
            let k = g.n(n);
            a.eq.a[k] += g.nz();
        }
        7 => {
            kind = "d-b";
            let k = g.n(m);
            a.eq.b[k] += g.nz();
        }
        8 => {
            kind = "d-g";
            let (k, l) = (g.n(m), g.n(n));
            a.eq.g[k][l] += g.nz();
        }
        9 => {
            kind = "d-t";
            a.eq.t += g.nz();
        }
        10 => {
            kind = "d-key";
            match g.n(5) {
                0 => a.key = g.anykey(),
                1 => {
                    let (k, h) = (g.n(2), g.n(2));
                    a.key.u[k][h] += g.nz()
                }
                2 => {
                    let (k, h) = (g.n(2), g.n(2));
                    a.key.v[k][h] += g.nz()
                }
                3 => a.key.g1 += g.nz(),
                _ => a.key.g2 += g.nz(),
            }
        }
        11 => {
            kind = "swap";
            match g.n(4) {
                0 if a.pi.len() == 2 => a.pi.swap(0, 1),
                1 if a.th.len() == 2 => a.th.swap(0, 1),
                2 => {
                    let (k, l) = (g.n(m), g.n(m));
                    a.xc.swap(k, l)
                }
                _ => {
                    let (k, l) = (g.n(n), g.n(n));
                    a.yc.swap(k, l)
                }
            }
        }
        12 => {
            kind = "zero-or-negate";
            let z: Pt<E> = [F::<E>::ZERO; 2];
            match g.n(6) {
                0 => a.pi.iter_mut().for_each(|p| *p = z),
                1 => a.th.iter_mut().for_each(|p| *p = z),
                2 => {
                    a.pi.iter_mut().for_each(|p| *p = [-p[0], -p[1]]);
                    a.th.iter_mut().for_each(|p| *p = [-p[0], -p[1]])
                }
                3 => {
                    a.xc.iter_mut().for_each(|p| *p = z);
                    a.yc.iter_mut().for_each(|p| *p = z)
                }
                4 => {
                    a.pi.iter_mut().for_each(|p| *p = z);
                    a.th.iter_mut().for_each(|p| *p = z);
                    a.xc.iter_mut().for_each(|p| *p = z);
                    a.yc.iter_mut().for_each(|p| *p = z)
                }
                _ => a.pi.iter_mut().for_each(|p| p.swap(0, 1)),
            }
        }
        13 => {
            kind = "rerand"; // re-randomised: stays valid if it was
            let d = g.f();
            let (h, k) = (g.n(a.th.len()), g.n(a.pi.len()));
            a.pi[k] = add::<E>(a.pi[k], mul::<E>(d, a.key.v[h]));
            a.th[h] = add::<E>(a.th[h], mul::<E>(-d, a.key.u[k]));
        }
        14 => {
            // proof or commitments of another bundle of the same shape
            kind = "transplant";
            if let Some(b) = prev.get(&(ty as u8, m, n)) {
                match g.n(4) {
                    0 => {
                        a.pi = b.pi.clone();
                        a.th = b.th.clone()
                    }
                    1 => a.pi = b.pi.clone(),
                    2 => a.eq = b.eq.clone(),
                    _ => a.key = b.key.clone(),
                }
            }
        }
        15 => {
            // cancelling double perturbations
            kind = "cancel";
            let d = g.nz();
            match g.n(3) {
                0 => {
                    let (k, l) = (g.n(m), g.n(m));
                    a.xc[k][1] += d;
                    a.xc[l][1] -= d;
                }
                1 => {
                    let (k, l) = (g.n(a.pi.len()), g.n(a.th.len()));
                    let (h, f) = (g.n(2), g.n(2));
                    a.pi[k][h] += d;
                    a.th[l][f] -= d;
                }
                _ => {
                    let (k, l) = (g.n(n), g.n(n));
                    a.yc[k][0] += d;
                    a.yc[l][0] -= d;
                }
            }
        }
        _ => {
            kind = "random";
            a.pi = a.pi.iter().map(|_| g.pt()).collect();
            a.th = a.th.iter().map(|_| g.pt()).collect();
            if g.p(50) {
                a.xc = g.pts(m);
                a.yc = g.pts(n);
            }
        }
    }
    Some(kind)
}

/// C02: verdicts on honest, perturbed, transplanted and arbitrary bundles.
pub fn verdict<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    let sizes = c.sizes();
    let mut prev: HashMap<(u8, usize, usize), Abs<E>> = HashMap::new();
    let mut i = 0;
    while i < c.n {
        let ty = TYPES[(i as usize) % 4];
        let (m, n) = if sizes.is_empty() { (g.dim(), g.dim()) } else { sizes[(i as usize / 4) % sizes.len()] };
        let x = g.fs(m);
        let y = g.fs(n);
        let mut e = g.eq_for(ty, &x, &y);
        let key = g.anykey();
        let mut kind = "honest";
        // a false statement proved with the honest formula
        if g.p(20) {
            e.t = g.f();
            kind = "falset";
        }
        let mut a = abs_prove(&mut g, &key, &e, &x, &y);
        let series = m * n <= 12 && g.p(if E::TOY { 12 } else { 25 });
        if series {
            // one bundle among its neighbours: first itself, then with one thing changed, then itself again;
            // as new objects or in place
            let place = g.p(50);
            let crs = a.key.real();
            let eq = a.eq.real();
            let mut cp = a.bundle();
            let mut vs = vec![("base", a.clone())];
            for _ in 0..3 {
                let mut b = a.clone();
                if let Some(k) = perturb(&mut g, &mut b, &prev) {
                    vs.push((k, b));
                    if g.p(30) {
                        vs.push(("base", a.clone()));
                    }
                }
            }
            vs.push(("base", a.clone()));
            for (k, b) in vs {
                let (mut ev, v) = if place && b.eq.j() == a.eq.j() && b.key.j() == a.key.j() {
                    cp.xcoms.coms.copy_from_slice(&c1s::<E>(&b.xc));
                    cp.ycoms.coms.copy_from_slice(&c2s::<E>(&b.yc));
                    cp.equ_proofs[0].pi.copy_from_slice(&c2s::<E>(&b.pi));
                    cp.equ_proofs[0].theta.copy_from_slice(&c1s::<E>(&b.th));
                    (b.j(), eq.verdict(&cp, &crs))
                } else {
                    b.run()
                };
                ev["kind"] = json!(format!("series {k}"));
                ev["res"] = json!(v);
                c.emit(ev);
                i += 1;
            }
            prev.insert((ty as u8, m, n), a);
            continue;
        }
        // boundary scalars show in what is accepted more than in what is refused
        let asis = c.arg("edges", 0) > 0 && g.p(40);
        if let Some(k) = if asis { None } else { perturb(&mut g, &mut a, &prev) } {
            kind = k;
        }
        let (mut ev, v) = a.run();
        ev["kind"] = json!(kind);
        ev["res"] = json!(v);
        c.emit(ev);
        prev.insert((ty as u8, m, n), a);
        i += 1;
    }
}

/// C02: small bundles with uniformly random group elements, dense in accepted and nearly accepted
/// ones; for every (equation, key, commitments), all values of one proof coordinate pair at once.
pub fn near<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    let q = E::small_order();
    for i in 0..c.n {
        let ty = TYPES[(i as usize) % 4];
        let (m, n) = (1 + g.n(2), 1 + g.n(2));
        let x: Vec<_> = (0..m).map(|_| g.uni()).collect();
        let y: Vec<_> = (0..n).map(|_| g.uni()).collect();
        let mut e = g.eq_for(ty, &x, &y);
        if g.p(30) {
            e.t = g.uni();
        }
        let key = g.anykey();
        let mut a = abs_prove(&mut g, &key, &e, &x, &y);
        if g.p(20) {
            a.xc = g.pts(m);
            a.yc = g.pts(n);
        }
        let crs = a.key.real();
        let eq = a.eq.real();
        let (k, h) = (g.n(a.pi.len()), g.n(a.th.len()));
        // vary pi[k] and th[h] over the whole group
        let mut acc = vec![];
        let mut bad = vec![];
        let all: Vec<Pt<E>> = (0..q * q).map(|z| [F::<E>::from(z / q), F::<E>::from(z % q)]).collect();
        let r1 = c1s::<E>(&all);
        let r2 = c2s::<E>(&all);
        let mut cp = bundle(
            forge_x::<E>(ty.xs(), c1s::<E>(&a.xc)),
            forge_y::<E>(ty.ys(), c2s::<E>(&a.yc)),
            vec![forge_proof::<E>(ty, c2s::<E>(&a.pi), c1s::<E>(&a.th))],
        );
        for s in 0..all.len() {
            for t in 0..all.len() {
                cp.equ_proofs[0].pi[k] = r2[s];
                cp.equ_proofs[0].theta[h] = r1[t];
                match eq.verdict(&cp, &crs) {
                    "true" => acc.push(json!([pv::<E>(&[all[s]])[0], pv::<E>(&[all[t]])[0]])),
                    "false" => {}
                    _ => bad.push(json!([s, t])),
                }
            }
        }
        let mut ev = a.j();
        ev["op"] = json!("near");
        ev["k"] = json!(k + 1);
        ev["h"] = json!(h + 1);
        ev["acc"] = json!(acc);
        ev["bad"] = json!(bad);
        c.emit(ev);
    }
}

/// C02 (exhaustive): quadratic equations with one variable on each side over a field of 3 elements:
/// for key number `n`, every equation, every pair of commitments and every proof.
pub fn exhaust<E: Inst>(c: &mut Ctx) {
    let q = E::small_order();
    let mut g = Gen::<E>::of(c);
    let all: Vec<Pt<E>> = (0..q * q).map(|z| [F::<E>::from(z / q), F::<E>::from(z % q)]).collect();
    let r1 = c1s::<E>(&all);
    let r2 = c2s::<E>(&all);
    let (lo, hi) = (c.arg("lo", 0), c.arg("hi", 81));
    let key = g.key(c.arg("hide", 0) == 1);
    let crs = key.real();
    for ei in lo..hi {
        let d = |k: u32| F::<E>::from((ei / q.pow(k)) % q);
        let e = AEq::<E> { ty: Ty::Quad, a: vec![d(0)], b: vec![d(1)], g: vec![vec![d(2)]], t: d(3) };
        let eq = e.real();
        for xi in 0..all.len() {
            for yi in 0..all.len() {
                let mut cp = bundle(
                    forge_x::<E>(true, vec![r1[xi]]),
                    forge_y::<E>(true, vec![r2[yi]]),
                    vec![forge_proof::<E>(Ty::Quad, vec![r2[0]], vec![r1[0]])],
                );
                let mut acc = vec![];
                let mut bad = vec![];
                for s in 0..all.len() {
                    for t in 0..all.len() {
                        cp.equ_proofs[0].pi[0] = r2[s];
                        cp.equ_proofs[0].theta[0] = r1[t];
                        match eq.verdict(&cp, &crs) {
                            "true" => acc.push(json!([pv::<E>(&[all[s]])[0], pv::<E>(&[all[t]])[0]])),
                            "false" => {}
                            _ => bad.push(json!([s, t])),
                        }
                    }
                }
                c.emit(json!({"op":"near","crs":key.j(),"eq":e.j(),"xc":pv::<E>(&[all[xi]]),"yc":pv::<E>(&[all[yi]]),
                    "prf":[{"ty":"QUAD","pi":pv::<E>(&[all[0]]),"th":pv::<E>(&[all[0]])}],
                    "k":1,"h":1,"acc":acc,"bad":bad}));
            }
        }
    }
}

/// C06: commitments.
pub fn commit<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    let sizes = c.sizes();
    for i in 0..c.n {
        let f = (i % 8) as usize;
        let (side, scalar, single) = (1 + (f & 1), f & 2 != 0, f & 4 != 0);
        let k = if single {
            1
        } else if sizes.is_empty() {
            if g.p(4) { 0 } else { g.dim() }
        } else {
            sizes[(i as usize / 8) % sizes.len()].0
        };
        let v = g.fs(k);
        let key = g.anykey();
        let crs = key.real();
        let s = g.seed();
        let mut ev = json!({"op":"commit","side":side,"sc":scalar,"single":single,"crs":key.j(),"vals":fv::<E>(&v),"seed":s.to_string(),"st":"ok"});
        let mut none = false;
        if side == 1 {
            match guard(|| if single { commit_x1::<E, _>(scalar, &v[0], &crs, &mut rng(s)) } else { commit_x(scalar, &v, &crs, &mut rng(s)) }) {
                Ok(k) => {
                    ev["out"] = c1s_j(&k.coms);
                    match recorded_x(&k) {
                        Some(r) => ev["rnd"] = fm::<E>(&r),
                        None => none = true,
                    }
                    ev["oty"] = json!("g1");
                }
                Err(m) => {
                    ev["st"] = json!("panic");
                    ev["msg"] = json!(short(&m))
                }
            }
        } else {
            match guard(|| if single { commit_y1::<E, _>(scalar, &v[0], &crs, &mut rng(s)) } else { commit_y(scalar, &v, &crs, &mut rng(s)) }) {
                Ok(k) => {
                    ev["out"] = c2s_j(&k.coms);
                    match recorded_y(&k) {
                        Some(r) => ev["rnd"] = fm::<E>(&r),
                        None => none = true,
                    }
                    ev["oty"] = json!("g2");
                }
                Err(m) => {
                    ev["st"] = json!("panic");
                    ev["msg"] = json!(short(&m))
                }
            }
        }
        ev["has"] = json!(!none && ev["st"] == "ok");
        c.emit(ev);
    }
}

/// C05: generated keys (toy instances: projected to exponents).
pub fn crs<E: Inst>(c: &mut Ctx) {
    let mut r = rng(c.seed);
    for _ in 0..c.n {
        match guard(|| CRS::<E>::generate_crs(&mut r)) {
            Ok(k) => c.emit(json!({"op":"crs","st":"ok","crs":crs_j(&k)})),
            Err(m) => c.emit(json!({"op":"crs","st":"panic","msg":short(&m)})),
        }
    }
}

/// C05 on the full-size curve: the secrets are those the random source yields in the order that the
/// repository's own test of key generation fixes (p1, p2, a1, a2, t1, t2).
/// The order in which key generation draws from its source: positions of the two group elements
/// among six draws, and which of the four scalars is a1, a2, t1, t2.  Any order is right; the first
/// key tells which one it is.
type Draws = (usize, usize, [usize; 4]);
fn draws<E: Inst>(r: &ark_std::rand::rngs::StdRng, o: &Draws) -> (E::G1Affine, E::G2Affine, Vec<F<E>>) {
    use ark_ec::CurveGroup;
    let mut q = r.clone();
    let (mut p1, mut p2, mut s) = (E::G1Affine::default(), E::G2Affine::default(), vec![]);
    for i in 0..6 {
        if i == o.0 {
            p1 = E::G1::rand(&mut q).into_affine()
        } else if i == o.1 {
            p2 = E::G2::rand(&mut q).into_affine()
        } else {
            s.push(F::<E>::rand(&mut q))
        }
    }
    let t = o.2.iter().map(|k| s[*k]).collect();
    (p1, p2, t)
}
fn order<E: Inst>(r: &ark_std::rand::rngs::StdRng, k: &CRS<E>) -> Draws {
    use ark_ec::CurveGroup;
    let usual = (0, 1, [0, 1, 2, 3]);
    if k.u.len() != 2 || k.v.len() != 2 {
        return usual;
    }
    for i in 0..6 {
        for j in 0..6 {
            if i == j {
                continue;
            }
            let (p1, p2, s) = draws::<E>(r, &(i, j, [0, 1, 2, 3]));
            if p1 != k.u[0].0 || p2 != k.v[0].0 {
                continue;
            }
            let x1 = |z: &E::G1Affine| s.iter().position(|x| (p1 * *x).into_affine() == *z);
            let x2 = |z: &E::G2Affine| s.iter().position(|x| (p2 * *x).into_affine() == *z);
            if let (Some(a), Some(b), Some(c), Some(d)) = (x1(&k.u[0].1), x2(&k.v[0].1), x1(&k.u[1].0), x2(&k.v[1].0)) {
                let mut z = [a, b, c, d];
                z.sort();
                if z == [0, 1, 2, 3] {
                    return (i, j, [a, b, c, d]);
                }
            }
        }
    }
    usual
}
pub fn crsbig<E: Inst>(c: &mut Ctx) {
    let mut r = rng(c.seed);
    let o = match guard(|| CRS::<E>::generate_crs(&mut r.clone())) {
        Ok(k) => order::<E>(&r, &k),
        Err(_) => (0, 1, [0, 1, 2, 3]),
    };
    for _ in 0..c.n {
        let (p1, p2, s) = draws::<E>(&r, &o);
        let mut ev = json!({"op":"crsbig","oty":"crs","sec":fv::<E>(&s),"p1":E::g1_j(&p1),"p2":E::g2_j(&p2)});
        match guard(|| CRS::<E>::generate_crs(&mut r)) {
            Ok(k) => {
                ev["st"] = json!("ok");
                ev["out"] = crs_j(&k);
            }
            Err(m) => {
                ev["st"] = json!("panic");
                ev["msg"] = json!(short(&m));
            }
        }
        c.emit(ev);
    }
}

/// C04: sampled joint distribution of everything the verifier receives, for two witnesses of one
/// equation under a hiding key.
pub fn wi<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    let q = E::small_order();
    let ty = Ty::from_s(&c.sarg("ty", "QUAD"));
    let (am, an) = (c.arg("m", 1) as usize, c.arg("k", 1) as usize);
    let kx = ty.pi_len();
    let ky = ty.th_len();
    let shape = c.arg("shape", 27) as usize;
    let per = c.arg("per", 24);
    let fixed = c.arg("fixed", 0) == 1;
    for i in 0..c.n {
        let (m, n) = (if am > 0 { am } else { 1 + g.n(4) }, if an > 0 { an } else { 1 + g.n(4) });
        let support = q.pow(if fixed { kx * ky } else { m * kx + n * ky + kx * ky } as u32);
        // an equation with at least two satisfying witnesses
        let (e, w) = loop {
            let x: Vec<_> = (0..m).map(|_| g.uni()).collect();
            let y: Vec<_> = (0..n).map(|_| g.uni()).collect();
            let e = if shape < 27 { g.eq_shape(ty, &x, &y, shape + i as usize) } else { g.eq_for(ty, &x, &y) };
            let mut found = None;
            for _ in 0..200 {
                let x2: Vec<_> = (0..m).map(|_| g.uni()).collect();
                let y2: Vec<_> = (0..n).map(|_| g.uni()).collect();
                if (x2 != x || y2 != y) && e.lhs(&x2, &y2) == e.t {
                    found = Some((x2, y2));
                    break;
                }
            }
            if let Some(w2) = found {
                break (e, [(x, y), w2]);
            }
        };
        let key = loop {
            let k = g.key(true);
            if k.u[0][0] != F::<E>::ZERO {
                break k;
            }
        };
        let crs = key.real();
        let eq = e.real();
        let mut dists = vec![];
        let mut panics = 0;
        for (x, y) in &w {
            let mut h: HashMap<String, (Value, u64)> = HashMap::new();
            let mut r = rng(g.seed());
            // `fixed`: the proof alone, over commitments made once (fewer blinders)
            let pre = guard(|| (commit_x::<E, _>(ty.xs(), x, &crs, &mut r), commit_y::<E, _>(ty.ys(), y, &crs, &mut r)));
            for _ in 0..per * support {
                let p = if fixed {
                    match &pre {
                        Ok((xc, yc)) => guard(|| bundle(xc.clone(), yc.clone(), vec![eq.prove(x, y, xc, yc, &crs, &mut r)])),
                        Err(_) => Err("".into()),
                    }
                } else {
                    guard(|| eq.commit_and_prove(x, y, &crs, &mut r))
                };
                match p {
                    Ok(p) => {
                        let v = json!([c1s_j(&p.xcoms.coms), c2s_j(&p.ycoms.coms), c2s_j(&p.equ_proofs[0].pi), c1s_j(&p.equ_proofs[0].theta)]);
                        let s = v.to_string();
                        h.entry(s).or_insert((v, 0)).1 += 1;
                    }
                    Err(_) => panics += 1,
                }
            }
            let mut o: Vec<_> = h.into_iter().collect();
            o.sort_by(|a, b| a.0.cmp(&b.0));
            dists.push(Value::Array(o.into_iter().map(|(_, (v, n))| json!({"c": v[0], "d": v[1], "pi": v[2], "th": v[3], "n": n})).collect()));
        }
        c.emit(json!({"op":"wi","crs":key.j(),"eq":e.j(),"fixed":fixed,"wit":[{"x":fv::<E>(&w[0].0),"y":fv::<E>(&w[0].1)},{"x":fv::<E>(&w[1].0),"y":fv::<E>(&w[1].1)}],
            "samples": per * support, "panics": panics, "dist": dists}));
    }
}

/// C07: sequences of calls under a hiding key, from which the blinding scalars can be solved for.
/// One event is one `session`: a list of calls made with one random source.
/// a witness of one kind: what blinds it must not depend on it
fn pinned<E: Inst>(g: &mut Gen<E>, class: u64, gen: &F<E>, k: usize) -> Vec<F<E>> {
    let two = F::<E>::from(2u64);
    (0..k)
        .map(|_| {
            let small = F::<E>::from(g.n(1 << 16) as u64);
            match class {
                1 => F::<E>::ZERO,
                2 => small,
                3 => *gen,
                4 => small * two.pow([64 * (1 + g.n(3)) as u64]),
                5 => F::<E>::from(((g.seed() as u128) << 64) | g.seed() as u128),
                6 => -small,
                _ => F::<E>::ONE,
            }
        })
        .collect()
}

pub fn fresh<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    let key = loop {
        let k = g.key(true);
        if k.u[0][0] != F::<E>::ZERO && k.v[0][0] != F::<E>::ZERO {
            break k;
        }
    };
    let crs = key.real();
    let (m, n) = (c.arg("m", 3) as usize, c.arg("k", 2) as usize);
    let what = c.sarg("what", "PPE");
    let mut r = rng(g.seed());
    // the same statement and witness throughout: only the blinding may vary
    let reuse = c.arg("reuse", 0) == 1;
    let class = c.arg("class", 0) as u64;
    let mut fixed: Option<(AEq<E>, Vec<F<E>>, Vec<F<E>>)> = None;
    let mut head = json!({"op":"freshkey","crs":key.j(),"what":what.clone(),"m":m,"n":n});
    head["st"] = json!("ok");
    c.emit(head);
    for _ in 0..c.n {
        match what.as_str() {
            "PPE" | "MS1" | "MS2" | "QUAD" => {
                let ty = Ty::from_s(&what);
                if fixed.is_none() || !reuse {
                    let (x, y) = if class > 0 { (pinned(&mut g, class, &key.g1, m), pinned(&mut g, class, &key.g2, n)) } else { (g.fs(m), g.fs(n)) };
                    let shape = c.arg("shape", 27) as usize;
                    let e = if shape < 27 { g.eq_shape(ty, &x, &y, shape) } else { g.eq_for(ty, &x, &y) };
                    fixed = Some((e, x, y));
                }
                let (e, x, y) = fixed.clone().unwrap();
                let eq = e.real();
                // commit once, prove twice over the same commitments
                let res = guard(|| {
                    let cp = eq.commit_and_prove(&x, &y, &crs, &mut r);
                    let p2 = eq.prove(&x, &y, &cp.xcoms, &cp.ycoms, &crs, &mut r);
                    (cp, p2)
                });
                match res {
                    Ok((cp, p2)) => c.emit(json!({"op":"fresh","st":"ok","eq":e.j(),"x":fv::<E>(&x),"y":fv::<E>(&y),
                        "xc":c1s_j(&cp.xcoms.coms),"yc":c2s_j(&cp.ycoms.coms),"p1":proof_j(&cp.equ_proofs[0]),"p2":proof_j(&p2)})),
                    Err(m) => c.emit(json!({"op":"fresh","st":"panic","msg":short(&m)})),
                }
            }
            _ => {
                // singles of the four kinds, in a row
                let mut v: Vec<F<E>> = (0..4).map(|_| g.f()).collect();
                if class > 0 {
                    v = [pinned(&mut g, class, &key.g1, 2), pinned(&mut g, class, &key.g2, 2)].concat();
                }
                let res = guard(|| {
                    (
                        commit_x1::<E, _>(false, &v[0], &crs, &mut r),
                        commit_x1::<E, _>(true, &v[1], &crs, &mut r),
                        commit_y1::<E, _>(false, &v[2], &crs, &mut r),
                        commit_y1::<E, _>(true, &v[3], &crs, &mut r),
                    )
                });
                match res {
                    Ok((a, b, d, e)) => c.emit(json!({"op":"fresh1","st":"ok","v":fv::<E>(&v),
                        "a":c1s_j(&a.coms),"b":c1s_j(&b.coms),"d":c2s_j(&d.coms),"e":c2s_j(&e.coms)})),
                    Err(m) => c.emit(json!({"op":"fresh1","st":"panic","msg":short(&m)})),
                }
            }
        }
    }
}

/// 16-bit limbs, least significant first
pub fn limbs<E: Inst>(x: &F<E>) -> Value {
    use ark_ff::{BigInteger, PrimeField};
    let b = x.into_bigint().to_bytes_le();
    let v: Vec<u32> = b.chunks(2).map(|c| c[0] as u32 + 256 * *c.get(1).unwrap_or(&0) as u32).collect();
    json!(v)
}
fn limbm<E: Inst>(m: &[Vec<F<E>>]) -> Vec<Value> {
    m.iter().flatten().map(|x| limbs::<E>(x)).collect()
}
/// a source that agrees with another one on its first bytes only
struct Prefix {
    a: ark_std::rand::rngs::StdRng,
    b: ark_std::rand::rngs::StdRng,
    left: usize,
}
impl ark_std::rand::RngCore for Prefix {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            let (mut y, mut z) = ([0], [0]);
            self.a.fill_bytes(&mut y);
            self.b.fill_bytes(&mut z);
            *x = if self.left > 0 { self.left -= 1; y[0] } else { z[0] };
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// how many bytes two sources share: a few, or about as many as some of the `n` scalars are made of
fn shared<E: Inst>(g: &mut Gen<E>, n: usize) -> usize {
    if g.p(40) {
        [0, 1, 2, 4, 8, 12][g.n(6)]
    } else {
        32 * g.n(n + 1) + 4 * g.n(5)
    }
}
/// C07: calls made with two sources that agree on their first bytes only share no more scalars than
/// can be made of these bytes.
fn entropy<E: Inst>(g: &mut Gen<E>, c: &mut Ctx) {
    let key = CRS::<E>::generate_crs(&mut rng(g.seed()));
    let ty = g.ty();
    let (m, n) = match g.n(20) {
        0 => (1 + g.n(160), 1),
        1 => (1, 1 + g.n(160)),
        2..=4 => (1 + g.n(40), 1 + g.n(40)),
        _ => (1 + g.n(3), 1 + g.n(3)),
    };
    let (x, y) = (g.fs(m), g.fs(n));
    let eq = g.eq_for(ty, &x, &y).real();
    let (a, b, what) = (g.seed(), [g.seed(), g.seed()], g.n(5));
    let (wx, wy) = (if ty.xs() { m } else { 2 * m }, if ty.ys() { n } else { 2 * n });
    let keep = shared(g, match what { 0 => wx, 1 => wy, 2 => 4, 3 => 4, _ => wx + wy + 4 });
    let (xc, yc) = match guard(|| (commit_x::<E, _>(ty.xs(), &x, &key, &mut rng(a)), commit_y::<E, _>(ty.ys(), &y, &key, &mut rng(a)))) {
        Ok(z) => z,
        Err(m) => return c.emit(json!({"op":"entropy","st":"panic","msg":short(&m)})),
    };
    let firsts = |p: &EquProof<E>| -> Vec<Value> { p.theta.iter().map(|z| E::g1_j(&z.0)).collect() };
    let mut out = vec![];
    for b in b {
        let mut r = Prefix { a: rng(a), b: rng(b), left: keep };
        let z = guard(|| match what {
            0 => (recorded_x(&commit_x::<E, _>(ty.xs(), &x, &key, &mut r)).map(|m| limbm::<E>(&m)), vec![]),
            1 => (recorded_y(&commit_y::<E, _>(ty.ys(), &y, &key, &mut r)).map(|m| limbm::<E>(&m)), vec![]),
            2 => {
                let p = eq.prove(&x, &y, &xc, &yc, &key, &mut r);
                (recorded_p(&p).map(|m| limbm::<E>(&m)), firsts(&p))
            }
            3 => {
                let (p, q) = (commit_x1::<E, _>(ty.xs(), &x[0], &key, &mut r), commit_y1::<E, _>(ty.ys(), &y[0], &key, &mut r));
                (recorded_x(&p).zip(recorded_y(&q)).map(|(m, n)| [limbm::<E>(&m), limbm::<E>(&n)].concat()), vec![])
            }
            _ => {
                let p = eq.commit_and_prove(&x, &y, &key, &mut r);
                let s = recorded_x(&p.xcoms).zip(recorded_y(&p.ycoms)).zip(recorded_p(&p.equ_proofs[0]));
                (s.map(|((m, n), t)| [limbm::<E>(&m), limbm::<E>(&n), limbm::<E>(&t)].concat()), vec![])
            }
        });
        match z {
            Ok(z) => out.push(z),
            Err(m) => return c.emit(json!({"op":"entropy","st":"panic","msg":short(&m)})),
        }
    }
    let has = out.iter().all(|z| z.0.is_some());
    let s = |k: usize| out[k].0.clone().unwrap_or_default();
    c.emit(json!({"op":"entropy","st":"ok","has":has,"keep":keep,"what":what,"s1":s(0),"s2":s(1),"e1":out[0].1,"e2":out[1].1}));
}
/// C05: the same for key generation.
pub fn keyentropy<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    for _ in 0..c.n {
        let keep = shared(&mut g, 8);
        let a = g.seed();
        let ks: Vec<_> = (0..2)
            .map(|_| {
                let mut r = Prefix { a: rng(a), b: rng(g.seed()), left: keep };
                guard(|| CRS::<E>::generate_crs(&mut r))
            })
            .collect();
        match (&ks[0], &ks[1]) {
            (Ok(k), Ok(l)) => {
                // u[1].1 and v[1].1 are functions of the others
                let e = |k: &CRS<E>| -> Vec<Value> { vec![E::g1_j(&k.u[0].0), E::g1_j(&k.u[0].1), E::g1_j(&k.u[1].0), E::g2_j(&k.v[0].0), E::g2_j(&k.v[0].1), E::g2_j(&k.v[1].0)] };
                c.emit(json!({"op":"entropy","st":"ok","has":false,"keep":keep,"what":"key","s1":[],"s2":[],"e1":e(k),"e2":e(l)}))
            }
            _ => c.emit(json!({"op":"entropy","st":"panic","msg":"key generation"})),
        }
    }
}
/// C07 on the full-size field: the recorded scalars, as limbs.
pub fn freshbig<E: Inst>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    let key = g.key(false);
    let crs = key.real();
    let mut r = rng(g.seed());
    for i in 0..c.n {
        if c.arg("entropy", 0) == 1 {
            entropy::<E>(&mut g, c);
            continue;
        }
        let ty = TYPES[(i % 4) as usize];
        let (m, n) = match g.n(100) {
            0 => (1 + g.n(160), 1 + g.n(3)),
            1 => (1 + g.n(3), 1 + g.n(160)),
            2..=4 => (1 + g.n(40), 1 + g.n(40)),
            _ => (1 + g.n(3), 1 + g.n(3)),
        };
        // with equal values and special ones now and then
        let same = g.p(20);
        let mut x: Vec<F<E>> = if g.p(70) { (0..m).map(|_| g.uni()).collect() } else { g.fs(m) };
        let mut y: Vec<F<E>> = if g.p(70) { (0..n).map(|_| g.uni()).collect() } else { g.fs(n) };
        if same {
            x = vec![x[0]; m];
            y = vec![y[0]; n];
        }
        let e = g.eq_for(ty, &x, &y);
        let eq = e.real();
        let single = g.p(40);
        let out = guard(|| {
            let (a, b) = if single && m == 1 && n == 1 {
                (commit_x1::<E, _>(ty.xs(), &x[0], &crs, &mut r), commit_y1::<E, _>(ty.ys(), &y[0], &crs, &mut r))
            } else {
                (commit_x::<E, _>(ty.xs(), &x, &crs, &mut r), commit_y::<E, _>(ty.ys(), &y, &crs, &mut r))
            };
            let p = eq.prove(&x, &y, &a, &b, &crs, &mut r);
            (a, b, p)
        });
        match out {
            Ok((a, b, p)) => {
                let (ra, rb, rp) = (recorded_x(&a), recorded_y(&b), recorded_p(&p));
                let has = ra.is_some() && rb.is_some() && rp.is_some();
                let l = |r: Option<Vec<Vec<F<E>>>>| limbm::<E>(&r.unwrap_or_default());
                c.emit(json!({"op":"freshbig","st":"ok","has":has,"ty":ty.s(),"rx":l(ra),"ry":l(rb),"rp":l(rp)}))
            }
            Err(m) => c.emit(json!({"op":"freshbig","st":"panic","msg":short(&m)})),
        }
    }
}

#[allow(dead_code)]
fn _one<E: Inst>() -> F<E> {
    F::<E>::ONE
}

/// C04: what the encoded form of a commitment list or of a proof adds to its public part.
/// Pairs made from different witnesses whose public parts are equal.
pub fn leak<E: Inst>(c: &mut Ctx) {
    use ark_serialize::CanonicalSerialize;
    fn bytes<T: CanonicalSerialize>(x: &T) -> Value {
        let mut b = vec![];
        x.serialize_compressed(&mut b).unwrap();
        json!(crate::inst::hex_bytes(&b))
    }
    let mut g = Gen::<E>::of(c);
    for i in 0..c.n {
        let crs = g.key(true).real();
        let (x, y) = (vec![g.uni()], vec![g.uni()]);
        let x2 = vec![x[0] + F::<E>::ONE];
        let s = g.p(50);
        let seed = g.seed();
        let put = |c: &mut Ctx, what: &str, a: Value, b: Value| c.emit(json!({"op": "leak", "what": what, "enc1": a, "enc2": b}));
        match i % 3 {
            0 => {
                let a = commit_x::<E, _>(s, &x, &crs, &mut rng(seed));
                for k in 1..2000 {
                    let b = commit_x::<E, _>(s, &x2, &crs, &mut rng(seed + k));
                    if a.coms == b.coms { put(c, "Commit1", bytes(&a), bytes(&b)); break }
                }
            }
            1 => {
                let a = commit_y::<E, _>(s, &x, &crs, &mut rng(seed));
                for k in 1..2000 {
                    let b = commit_y::<E, _>(s, &x2, &crs, &mut rng(seed + k));
                    if a.coms == b.coms { put(c, "Commit2", bytes(&a), bytes(&b)); break }
                }
            }
            _ => {
                // with these values on the right every value on the left is a witness
                let ty = [Ty::Quad, Ty::Ms1, Ty::Ms2][g.n(3)];
                let mut e = g.eq_for(ty, &x, &y);
                e.g = vec![vec![F::<E>::ONE]];
                e.b = vec![-y[0]];
                e.t = e.lhs(&x, &y);
                let eq = e.real();
                let Ok(a) = guard(|| eq.commit_and_prove(&x, &y, &crs, &mut rng(seed))) else { continue };
                for k in 1..20000 {
                    let Ok(b) = guard(|| eq.commit_and_prove(&x2, &y, &crs, &mut rng(seed + k))) else { continue };
                    let (p, q) = (&a.equ_proofs[0], &b.equ_proofs[0]);
                    if p.pi == q.pi && p.theta == q.theta { put(c, "EquProof", bytes(p), bytes(q)); break }
                }
            }
        }
    }
}
