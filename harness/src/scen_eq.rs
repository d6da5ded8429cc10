//! Equality, clones and types of artefacts (C16).
use crate::model::*;
use crate::scen_core::F;
use crate::scen_wire::{Art, Wire};
use crate::Ctx;
use ark_ec::pairing::PairingOutput;
use ark_ff::Field;
use groth_sahai::data_structures::{Com1, Com2};
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use serde_json::json;

/// an object that differs from `x` in one part (or in none, by chance)
fn vary_vec<T: Clone>(g: &mut Gen<impl Wire>, v: &mut Vec<T>, fresh: T) {
    match g.n(7) {
        0 if !v.is_empty() => {
            let k = g.n(v.len());
            v[k] = fresh;
        }
        1 if v.len() > 1 => {
            let (a, b) = (g.n(v.len()), g.n(v.len()));
            v.swap(a, b)
        }
        2 => v.push(fresh),
        3 => {
            v.pop();
        }
        4 if !v.is_empty() => {
            let k = g.n(v.len());
            let z = v[k].clone();
            v.push(z)
        }
        5 if !v.is_empty() => {
            v.remove(0);
        }
        _ => {
            let k = g.n(v.len() + 1);
            v.insert(k, fresh)
        }
    }
}
fn pt1<E: Wire>(g: &mut Gen<E>, old: Option<Com1<E>>) -> Com1<E> {
    let p = c1::<E>(&g.pt());
    match (old, g.n(7)) {
        // the opposite of one coordinate or of both
        (Some(o), 4) => -o,
        (Some(o), 5) => Com1(o.0, (-o).1),
        (Some(o), 6) => Com1((-o).0, o.1),
        (Some(o), 0) => Com1(o.0, p.1),
        (Some(o), 1) => Com1(p.0, o.1),
        (Some(o), 2) => Com1(o.1, o.0),
        _ => p,
    }
}
fn pt2<E: Wire>(g: &mut Gen<E>, old: Option<Com2<E>>) -> Com2<E> {
    let p = c2::<E>(&g.pt());
    match (old, g.n(7)) {
        // the opposite of one coordinate or of both
        (Some(o), 4) => -o,
        (Some(o), 5) => Com2(o.0, (-o).1),
        (Some(o), 6) => Com2((-o).0, o.1),
        (Some(o), 0) => Com2(o.0, p.1),
        (Some(o), 1) => Com2(p.0, o.1),
        (Some(o), 2) => Com2(o.1, o.0),
        _ => p,
    }
}
/// a scalar that is almost the same: the opposite one, or one that differs in a few bits
fn close<E: Wire>(g: &mut Gen<E>, x: &F<E>) -> F<E> {
    if g.p(25) {
        return -*x;
    }
    let s = if g.p(50) { 64 * g.n(4) } else { g.n(254) } as u64;
    let d = F::<E>::from(2u64).pow([s]);
    if g.p(50) { *x + d } else { *x - d }
}
/// one element at the same place half-changed, or a change of the list
fn vary1<E: Wire>(g: &mut Gen<E>, v: &mut Vec<Com1<E>>) {
    if !v.is_empty() && g.p(60) {
        let k = if g.p(50) { v.len() - 1 } else { g.n(v.len()) };
        v[k] = pt1(g, Some(v[k]));
    } else {
        let f = pt1(g, v.last().copied());
        vary_vec(g, v, f)
    }
}
fn vary2<E: Wire>(g: &mut Gen<E>, v: &mut Vec<Com2<E>>) {
    if !v.is_empty() && g.p(60) {
        let k = if g.p(50) { v.len() - 1 } else { g.n(v.len()) };
        v[k] = pt2(g, Some(v[k]));
    } else {
        let f = pt2(g, v.last().copied());
        vary_vec(g, v, f)
    }
}
fn vary_m<E: Wire>(g: &mut Gen<E>, m: &mut Vec<Vec<F<E>>>) {
    let f = g.f();
    if m.is_empty() || g.p(20) {
        let row = m.last().map(|r| r.len()).unwrap_or(1);
        let fresh = g.fs(row);
        vary_vec(g, m, fresh);
    } else {
        let k = if g.p(50) { m.len() - 1 } else { g.n(m.len()) };
        if !m[k].is_empty() && g.p(70) {
            let j = if g.p(50) { m[k].len() - 1 } else { g.n(m[k].len()) };
            m[k][j] = if g.p(50) { close(g, &m[k][j]) } else { f };
        } else {
            vary_vec(g, &mut m[k], f)
        }
    }
}
trait Vary<E: Wire>: Art<E> + PartialEq {
    fn vary(&self, g: &mut Gen<E>) -> Self;
}
impl<E: Wire> Vary<E> for EquType {
    fn vary(&self, g: &mut Gen<E>) -> Self {
        g.ty().equ_type()
    }
}
impl<E: Wire> Vary<E> for Com1<E> {
    fn vary(&self, g: &mut Gen<E>) -> Self {
        pt1(g, Some(*self))
    }
}
impl<E: Wire> Vary<E> for Com2<E> {
    fn vary(&self, g: &mut Gen<E>) -> Self {
        pt2(g, Some(*self))
    }
}
/// the openings of a list can only be changed by committing again or by appending
impl<E: Wire> Vary<E> for Commit1<E> {
    fn vary(&self, g: &mut Gen<E>) -> Self {
        let mut x = self.clone();
        if g.p(60) || x.coms.is_empty() {
            vary1(g, &mut x.coms);
        } else {
            let (k, s) = (g.anykey().real(), g.seed());
            let v = g.fs(x.coms.len());
            let sc = g.p(50);
            let mut y = commit_x::<E, _>(sc, &v, &k, &mut rng(s));
            if g.p(80) {
                y.coms = x.coms.clone();
            }
            return y;
        }
        x
    }
}
impl<E: Wire> Vary<E> for Commit2<E> {
    fn vary(&self, g: &mut Gen<E>) -> Self {
        let mut x = self.clone();
        if g.p(60) || x.coms.is_empty() {
            vary2(g, &mut x.coms);
        } else {
            let (k, s) = (g.anykey().real(), g.seed());
            let v = g.fs(x.coms.len());
            let sc = g.p(50);
            let mut y = commit_y::<E, _>(sc, &v, &k, &mut rng(s));
            if g.p(80) {
                y.coms = x.coms.clone();
            }
            return y;
        }
        x
    }
}
impl<E: Wire> Vary<E> for EquProof<E> {
    fn vary(&self, g: &mut Gen<E>) -> Self {
        let mut p = self.clone();
        match g.n(4) {
            0 => vary2(g, &mut p.pi),
            1 => vary1(g, &mut p.theta),
            2 => p.equ_type = g.ty().equ_type(),
            _ => {
                // another proof's randomness behind the same elements
                let mut q = <EquProof<E> as Art<E>>::make(g);
                q.pi = p.pi;
                q.theta = p.theta;
                q.equ_type = p.equ_type;
                p = q;
            }
        }
        p
    }
}
fn opp1<E: Wire>(_: &mut Gen<E>, x: &E::G1Affine) -> E::G1Affine {
    (-Com1::<E>(*x, *x)).0
}
fn opp2<E: Wire>(_: &mut Gen<E>, x: &E::G2Affine) -> E::G2Affine {
    (-Com2::<E>(*x, *x)).0
}
fn oppt<E: Wire>(_: &mut Gen<E>, x: &PairingOutput<E>) -> PairingOutput<E> {
    -*x
}
macro_rules! vary_eqn {
    ($t:ident, $a:expr, $b:expr, $t1:expr, $na:expr, $nb:expr, $nt:expr) => {
        impl<E: Wire> Vary<E> for $t<E> {
            fn vary(&self, g: &mut Gen<E>) -> Self {
                let mut e = self.clone();
                match g.n(4) {
                    0 => {
                        let f = g.f();
                        if !e.a_consts.is_empty() && g.p(35) {
                            let k = g.n(e.a_consts.len());
                            e.a_consts[k] = $na(g, &e.a_consts[k]);
                        } else {
                            vary_vec(g, &mut e.a_consts, $a(&f))
                        }
                    }
                    1 => {
                        let f = g.f();
                        if !e.b_consts.is_empty() && g.p(35) {
                            let k = g.n(e.b_consts.len());
                            e.b_consts[k] = $nb(g, &e.b_consts[k]);
                        } else {
                            vary_vec(g, &mut e.b_consts, $b(&f))
                        }
                    }
                    2 => vary_m::<E>(g, &mut e.gamma),
                    _ => {
                        let f = g.f();
                        e.target = if g.p(50) { $nt(g, &e.target) } else { $t1(&f) }
                    }
                }
                e
            }
        }
    };
}
vary_eqn!(PPE, E::g1, E::g2, E::gt, opp1, opp2, oppt);
vary_eqn!(MSMEG1, E::g1, |f: &F<E>| *f, E::g1, opp1, close, opp1);
vary_eqn!(MSMEG2, |f: &F<E>| *f, E::g2, E::g2, close, opp2, opp2);
vary_eqn!(QuadEqu, |f: &F<E>| *f, |f: &F<E>| *f, |f: &F<E>| *f, close, close, close);

fn eq_event<E: Wire, T: Vary<E>>(c: &mut Ctx, g: &mut Gen<E>) {
    let x = T::make(g);
    let y = match g.n(5) {
        0 => x.clone(),
        1 => T::make(g),
        _ => x.vary(g),
    };
    // and one step further from there
    let z = if g.p(30) { y.vary(g) } else { y };
    for y in [z] {
        let full = Art::<E>::obj(&x).is_some() && Art::<E>::obj(&y).is_some();
        let r = guard(|| {
            let k = x.clone();
            // the other ways to clone: over another object, in lists
            let mut f = y.clone();
            f.clone_from(&x);
            let mut l = vec![y.clone(), y.clone(), y.clone()];
            l.clone_from(&vec![x.clone(), y.clone()]);
            let one = k == x && f == x && l[0] == x && x == f;
            (x == y, y == x, x != y, one, vec![Art::<E>::see(&k), Art::<E>::see(&f), Art::<E>::see(&l[0])])
        });
        match r {
            Ok((e, s, n, r, k)) => c.emit(json!({"op": "arteq", "st": "ok", "ty": T::NAME, "full": full, "a": Art::<E>::see(&x), "b": Art::<E>::see(&y),
                "eq": e, "sym": s, "ne": n, "refl": r, "clones": k})),
            Err(m) => c.emit(json!({"op": "arteq", "st": "panic", "ty": T::NAME, "msg": short(&m)})),
        }
    }
}
/// bundles, and the labels of equations and of their proofs
fn bundle_event<E: Wire>(c: &mut Ctx, g: &mut Gen<E>) {
    let ty = g.ty();
    let (m, n) = (1 + g.n(3), 1 + g.n(3));
    let (x, y) = (g.fs(m), g.fs(n));
    let aeq = g.eq_for(ty, &x, &y);
    let (k, s, s2) = (g.anykey().real(), g.seed(), g.seed());
    let eq = aeq.real();
    let got = match &eq {
        Eqn::Ppe(q) => q.get_type(),
        Eqn::Ms1(q) => q.get_type(),
        Eqn::Ms2(q) => q.get_type(),
        Eqn::Quad(q) => q.get_type(),
    };
    let Ok((b, p)) = guard(|| {
        let b = eq.commit_and_prove(&x, &y, &k, &mut rng(s));
        let p = eq.prove(&x, &y, &b.xcoms, &b.ycoms, &k, &mut rng(s2));
        (b, p)
    }) else {
        c.emit(json!({"op": "label", "st": "panic", "ty": ty.s()}));
        return;
    };
    c.emit(json!({"op": "label", "st": "ok", "ty": ty.s(), "got": [Ty::from_equ_type(&got).s(), Ty::from_equ_type(&b.equ_proofs[0].equ_type).s(), Ty::from_equ_type(&p.equ_type).s()],
        "proofs": b.equ_proofs.len()}));
    let mut d = b.clone();
    match g.n(8) {
        0 => {}
        1 => d.xcoms = d.xcoms.vary(g),
        2 => d.ycoms = d.ycoms.vary(g),
        3 => d.equ_proofs[0] = d.equ_proofs[0].vary(g),
        4 => d.equ_proofs.push(p.clone()),
        5 => d.equ_proofs.clear(),
        6 => {
            let q = d.equ_proofs[0].clone();
            d.equ_proofs.push(q)
        }
        _ => d.equ_proofs[0] = p.clone(),
    }
    let see = |b: &CProof<E>| json!([Art::<E>::see(&b.xcoms), Art::<E>::see(&b.ycoms), b.equ_proofs.iter().map(|p| Art::<E>::see(p)).collect::<Vec<_>>()]);
    let ok = |b: &CProof<E>| Art::<E>::obj(&b.xcoms).is_some() && Art::<E>::obj(&b.ycoms).is_some() && b.equ_proofs.iter().all(|p| Art::<E>::obj(p).is_some());
    let r = guard(|| {
        let k = b.clone();
        let mut f = d.clone();
        f.clone_from(&b);
        (b == d, d == b, b != d, k == b && f == b, vec![see(&k), see(&f)])
    });
    match r {
        Ok((e, s, n, r, k)) => c.emit(json!({"op": "arteq", "st": "ok", "ty": "Bundle", "full": ok(&b) && ok(&d), "a": see(&b), "b": see(&d), "eq": e, "sym": s, "ne": n, "refl": r, "clones": k})),
        Err(m) => c.emit(json!({"op": "arteq", "st": "panic", "ty": "Bundle", "msg": short(&m)})),
    }
}
/// keys have no equality; their clones are compared by all their parts
fn key_event<E: Wire>(c: &mut Ctx, g: &mut Gen<E>) {
    let a = <groth_sahai::CRS<E> as Art<E>>::make(g);
    let b = if g.p(20) { a.clone() } else { <groth_sahai::CRS<E> as Art<E>>::make(g) };
    match guard(|| {
        let mut f = b.clone();
        f.clone_from(&a);
        vec![Art::<E>::see(&a.clone()), Art::<E>::see(&f)]
    }) {
        Ok(k) => {
            let (x, y) = (Art::<E>::see(&a), Art::<E>::see(&b));
            let e = x == y;
            c.emit(json!({"op": "arteq", "st": "ok", "ty": "CRS", "full": true, "a": x, "b": y, "eq": e, "sym": e, "ne": !e, "refl": true, "clones": k}))
        }
        Err(m) => c.emit(json!({"op": "arteq", "st": "panic", "ty": "CRS", "msg": short(&m)})),
    }
}
pub fn arteq<E: Wire>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    for i in 0..c.n {
        match i % 12 {
            0 => eq_event::<E, EquType>(c, &mut g),
            1 => eq_event::<E, Com1<E>>(c, &mut g),
            2 => eq_event::<E, Com2<E>>(c, &mut g),
            3 => eq_event::<E, Commit1<E>>(c, &mut g),
            4 => eq_event::<E, Commit2<E>>(c, &mut g),
            5 => eq_event::<E, EquProof<E>>(c, &mut g),
            6 => eq_event::<E, PPE<E>>(c, &mut g),
            7 => eq_event::<E, MSMEG1<E>>(c, &mut g),
            8 => eq_event::<E, MSMEG2<E>>(c, &mut g),
            9 => eq_event::<E, QuadEqu<E>>(c, &mut g),
            10 if i % 24 == 10 => key_event::<E>(c, &mut g),
            _ => bundle_event::<E>(c, &mut g),
        }
    }
}
