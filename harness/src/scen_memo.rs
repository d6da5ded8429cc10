//! C15: the same call with the same random source, in other contexts.
//!
//! The cases are a function of the seed alone; `ctx` and `order` say how they are executed.  The
//! recorded events carry the number of the case (equal inputs, equal random source), and a digest
//! of everything that the call returned.
use crate::inst::Inst;
use crate::model::*;
use crate::Ctx;
use ark_ff::{AdditiveGroup, Field};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::{rngs::StdRng, RngCore};
use groth_sahai::data_structures::{Com1, Com2, ComT, Mat, Matrix, B1, B2, BT};
use groth_sahai::prover::*;
use groth_sahai::{AbstractCrs, CRS};
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

type F<E> = <E as ark_ec::pairing::Pairing>::ScalarField;

struct Stmt<E: Inst> {
    ty: Ty,
    eq: Eqn<E>,
    x: Vec<F<E>>,
    y: Vec<F<E>>,
    crs: CRS<E>,
}
enum Call<E: Inst> {
    Gen(u64),
    Commit { s: Arc<Stmt<E>>, right: bool, scalar: bool, single: bool, seed: u64 },
    /// commit and prove
    Cap { s: Arc<Stmt<E>>, seed: u64 },
    Prove { s: Arc<Stmt<E>>, xc: Commit1<E>, yc: Commit2<E>, seed: u64 },
    Verify { s: Arc<Stmt<E>>, p: CProof<E> },
    Sum(Vec<Com1<E>>, Vec<Com2<E>>),
    Mul { a: Matrix<F<E>>, b: Matrix<F<E>> },
    MulC { a: Matrix<Com1<E>>, b: Matrix<F<E>>, left: bool },
    Enc { p: CProof<E>, crs: CRS<E>, comp: bool },
    Dec { what: usize, b: Vec<u8>, comp: bool },
    Maps(F<E>, F<E>, CRS<E>),
}
fn digest(v: &[Value]) -> String {
    let s = Value::Array(v.to_vec()).to_string();
    let mut a = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut a);
    let mut b = std::collections::hash_map::DefaultHasher::new();
    ("again", &s).hash(&mut b);
    format!("{:016x}{:016x}", a.finish(), b.finish())
}
fn hexs<T: CanonicalSerialize>(x: &T, comp: bool) -> Value {
    let mut b = vec![];
    let r = if comp { x.serialize_compressed(&mut b) } else { x.serialize_uncompressed(&mut b) };
    match r {
        Ok(()) => json!(crate::inst::hex_bytes(&b)),
        Err(_) => json!("error"),
    }
}
fn opt<E: Inst>(m: Option<Vec<Vec<F<E>>>>) -> Value {
    m.map(|m| fm::<E>(&m)).unwrap_or(Value::Null)
}
fn jx<E: Inst>(c: &Commit1<E>) -> Value {
    json!([c1s_j(&c.coms), opt::<E>(recorded_x(c))])
}
fn jy<E: Inst>(c: &Commit2<E>) -> Value {
    json!([c2s_j(&c.coms), opt::<E>(recorded_y(c))])
}
fn jp<E: Inst>(p: &EquProof<E>) -> Value {
    json!([proof_j(p), opt::<E>(recorded_p(p)), format!("{:?}", p.equ_type)])
}
fn jt<E: Inst>(t: &ComT<E>) -> Value {
    json!([hexs(&t.0, true), hexs(&t.1, true), hexs(&t.2, true), hexs(&t.3, true)])
}
fn jeq<E: Inst>(e: &Eqn<E>) -> Value {
    match e {
        Eqn::Ppe(q) => hexs(q, false),
        Eqn::Ms1(q) => hexs(q, false),
        Eqn::Ms2(q) => hexs(q, false),
        Eqn::Quad(q) => hexs(q, false),
    }
}
fn before<E: Inst>(c: &Call<E>) -> String {
    let st = |s: &Stmt<E>| json!([jeq(&s.eq), fv::<E>(&s.x), fv::<E>(&s.y), hexs(&s.crs, false)]);
    let cp = |p: &CProof<E>| json!([jx(&p.xcoms), jy(&p.ycoms), p.equ_proofs.iter().map(|x| jp(x)).collect::<Vec<_>>()]);
    digest(&match c {
        Call::Gen(_) | Call::Sum(..) | Call::Mul { .. } | Call::MulC { .. } | Call::Dec { .. } => vec![],
        Call::Maps(_, _, k) => vec![hexs(k, false)],
        Call::Commit { s, .. } | Call::Cap { s, .. } => vec![st(s)],
        Call::Prove { s, xc, yc, .. } => vec![st(s), jx(xc), jy(yc)],
        Call::Verify { s, p } => vec![st(s), cp(p)],
        Call::Enc { p, crs, .. } => vec![cp(p), hexs(crs, false)],
    })
}
/// not a result, but what the result of the same case may be
const LINK: u64 = 9;
/// (suffix, result) pairs; `way` picks one of the forms that must agree
fn exec<E: Inst>(c: &Call<E>, way: u64) -> Vec<(u64, String)> {
    let r = guard(|| match c {
        Call::Gen(seed) => {
            let mut r = rng(*seed);
            let k = CRS::<E>::generate_crs(&mut r);
            vec![(0, digest(&[hexs(&k, true), json!(r.next_u64().to_string())]))]
        }
        Call::Commit { s, right, scalar, single, seed } => {
            let mut r = rng(*seed);
            let v = match (right, single) {
                (false, false) => jx(&commit_x::<E, _>(*scalar, &s.x, &s.crs, &mut r)),
                (true, false) => jy(&commit_y::<E, _>(*scalar, &s.y, &s.crs, &mut r)),
                (false, true) => jx(&commit_x1::<E, _>(*scalar, &s.x[0], &s.crs, &mut r)),
                (true, true) => jy(&commit_y1::<E, _>(*scalar, &s.y[0], &s.crs, &mut r)),
            };
            vec![(0, digest(&[v, json!(r.next_u64().to_string())]))]
        }
        Call::Cap { s, seed } => {
            let mut r: StdRng = rng(*seed);
            let (x, y, p) = if way % 2 == 0 {
                let b = s.eq.commit_and_prove(&s.x, &s.y, &s.crs, &mut r);
                let n = b.equ_proofs.len();
                let p = b.equ_proofs[0].clone();
                (b.xcoms, b.ycoms, if n == 1 { jp(&p) } else { json!(n) })
            } else {
                // committing to both sides, in either order, and then proving
                let mut alts = vec![];
                for first in [true, false] {
                    r = rng(*seed);
                    let (xc, yc) = if first {
                        let xc = commit_x::<E, _>(s.ty.xs(), &s.x, &s.crs, &mut r);
                        (xc, commit_y::<E, _>(s.ty.ys(), &s.y, &s.crs, &mut r))
                    } else {
                        let yc = commit_y::<E, _>(s.ty.ys(), &s.y, &s.crs, &mut r);
                        (commit_x::<E, _>(s.ty.xs(), &s.x, &s.crs, &mut r), yc)
                    };
                    let p = s.eq.prove(&s.x, &s.y, &xc, &yc, &s.crs, &mut r);
                    alts.push(digest(&[jx(&xc), jy(&yc), jp(&p)]));
                }
                return vec![(LINK, alts.join(" "))];
            };
            vec![(0, digest(&[jx(&x), jy(&y), p])), (1, digest(&[json!(r.next_u64().to_string())]))]
        }
        Call::Prove { s, xc, yc, seed } => {
            let mut r = rng(*seed);
            let p = s.eq.prove(&s.x, &s.y, xc, yc, &s.crs, &mut r);
            vec![(0, digest(&[jp(&p), json!(r.next_u64().to_string())]))]
        }
        Call::Verify { s, p } => vec![(0, s.eq.verify(p, &s.crs).to_string())],
        Call::Sum(x, y) => vec![(0, digest(&[jt(&ComT::<E>::pairing_sum(x, y))]))],
        Call::Mul { a, b } => {
            let m = if way % 4 < 2 { a.right_mul(b, way % 2 == 0) } else { b.left_mul(a, way % 2 == 0) };
            vec![(0, digest(&[fm::<E>(&m)]))]
        }
        Call::MulC { a, b, left } => {
            let m = if *left { a.left_mul(b, way % 2 == 0) } else { a.right_mul(b, way % 2 == 0) };
            vec![(0, digest(&m.iter().map(|r| c1s_j(r)).collect::<Vec<_>>()))]
        }
        Call::Enc { p, crs, comp } => vec![(0, digest(&[hexs(&p.xcoms, *comp), hexs(&p.ycoms, *comp), hexs(&p.equ_proofs[0], *comp), hexs(crs, *comp)]))],
        Call::Dec { what, b, comp } => {
            fn get<T: CanonicalDeserialize + CanonicalSerialize>(b: &[u8], comp: bool) -> Value {
                let mut r = b;
                let v = if comp { T::deserialize_compressed(&mut r) } else { T::deserialize_uncompressed(&mut r) };
                v.map_or(json!("error"), |v| json!([hexs(&v, true), r.len()]))
            }
            vec![(0, digest(&[match what {
                0 => get::<Commit1<E>>(b, *comp),
                1 => get::<EquProof<E>>(b, *comp),
                _ => get::<CRS<E>>(b, *comp),
            }]))]
        }
        Call::Maps(a, b, k) => vec![(0, digest(&[
            c1_j(&Com1::<E>::linear_map(&E::g1(a))), c2_j(&Com2::<E>::linear_map(&E::g2(b))),
            c1_j(&Com1::<E>::scalar_linear_map(a, k)), c2_j(&Com2::<E>::scalar_linear_map(b, k)),
            c1_j(&(Com1::<E>::linear_map(&E::g1(b)).scalar_mul(a))),
            jt(&ComT::<E>::linear_map_PPE(&E::gt(a))), jt(&ComT::<E>::linear_map_MSMEG1(&E::g1(a), k)),
            jt(&ComT::<E>::linear_map_MSMEG2(&E::g2(b), k)), jt(&ComT::<E>::linear_map_quad(a, k)),
            jt(&ComT::<E>::pairing(Com1::<E>::linear_map(&E::g1(a)), c2::<E>(&[*b, *a]))),
        ]))],
    });
    r.unwrap_or_else(|_| vec![(0, "panic".into())])
}

fn cases<E: Inst>(g: &mut Gen<E>, n: u64, sizes: &[(usize, usize)]) -> Vec<Call<E>> {
    let mut out = vec![];
    for i in 0..n {
        let ty = g.ty();
        let (m, k) = if sizes.is_empty() { (g.dim().min(8), g.dim().min(8)) } else { sizes[i as usize % sizes.len()] };
        let (x, y) = (g.fs(m), g.fs(k));
        let e = g.eq_for(ty, &x, &y);
        let key = g.anykey();
        let seed = g.seed();
        // the statement and its neighbours: one part differs, everything else is equal
        let mut fam = vec![(e.clone(), x.clone(), y.clone(), key.clone())];
        for _ in 0..3 {
            let (mut e2, mut x2, mut y2, mut k2) = (e.clone(), x.clone(), y.clone(), key.clone());
            let d = g.nz();
            match g.n(11) {
                0 => e2.g[m - 1][k - 1] += d,
                1 => e2.g[0][0] += d,
                2 => { let (i, j) = (g.n(m), g.n(k)); e2.g[i][j] += d }
                3 => { let j = g.n(k); e2.a[j] += d }
                4 => { let i = g.n(m); e2.b[i] += d }
                5 => { let i = g.n(m); x2[i] += d }
                6 => { let j = g.n(k); y2[j] += d }
                7 => { let h = g.n(2); k2.u[1][h] += d }
                9 => { let h = g.n(2); if h == 0 { k2.u[0][1] += d } else { k2.v[0][1] += d } }
                8 => { let (h, i) = (g.n(2), g.n(2)); k2.v[h][i] += d }
                _ => { e2.g = e2.g.iter().map(|r| r.iter().map(|z| *z * (d + F::<E>::ONE)).collect()).collect() }
            }
            e2.t = e2.lhs(&x2, &y2);
            fam.push((e2, x2, y2, k2));
        }
        // a statement that is false
        let mut f = fam[0].clone();
        f.0.t += g.nz();
        fam.push(f);
        let ss: Vec<Arc<Stmt<E>>> = fam.iter().map(|(e, x, y, k)| Arc::new(Stmt { ty, eq: e.real(), x: x.clone(), y: y.clone(), crs: k.real() })).collect();
        let base = &ss[0];
        let p = guard(|| base.eq.commit_and_prove(&base.x, &base.y, &base.crs, &mut rng(seed))).ok();
        for (q, s) in ss.iter().enumerate() {
            out.push(Call::Cap { s: s.clone(), seed });
            // the same object content elsewhere in memory
            if g.p(50) {
                let (e, x, y, k) = &fam[q];
                let s2 = Arc::new(Stmt { ty, eq: e.real(), x: x.clone(), y: y.clone(), crs: k.real() });
                out.push(Call::Cap { s: s2, seed: seed ^ 1 });
            }
            if let Some(p) = &p {
                out.push(Call::Prove { s: s.clone(), xc: p.xcoms.clone(), yc: p.ycoms.clone(), seed: seed ^ 2 });
                out.push(Call::Verify { s: s.clone(), p: p.clone() });
                let mut bad = p.clone();
                let one = c1::<E>(&[F::<E>::ONE, F::<E>::ZERO]);
                match g.n(3) {
                    0 => bad.equ_proofs[0].theta[0] = bad.equ_proofs[0].theta[0] + one,
                    1 => bad.xcoms.coms[m - 1] = bad.xcoms.coms[m - 1] + one,
                    _ => bad.equ_proofs[0].pi.reverse(),
                }
                out.push(Call::Verify { s: s.clone(), p: bad });
            }
            if let Ok(own) = guard(|| s.eq.commit_and_prove(&s.x, &s.y, &s.crs, &mut rng(seed ^ 3))) {
                if g.p(30) { out.push(Call::Enc { p: own.clone(), crs: base.crs.clone(), comp: g.p(50) }) }
                out.push(Call::Verify { s: s.clone(), p: own });
            }
            let right = g.p(50);
            out.push(Call::Commit { s: s.clone(), right, scalar: g.p(50), single: g.p(40), seed });
        }
        // calls that are refused: what comes before or after them must not be affected
        let mut x3 = x.clone();
        x3.push(g.f());
        let long = Arc::new(Stmt { ty, eq: e.real(), x: x3.clone(), y: y.clone(), crs: key.real() });
        let none = Arc::new(Stmt { ty, eq: e.real(), x: vec![], y: vec![], crs: key.real() });
        out.push(Call::Cap { s: if g.p(70) { long.clone() } else { none }, seed });
        if let Some(p) = &p {
            if let Ok(xc) = guard(|| commit_x::<E, _>(ty.xs(), &x3, &base.crs, &mut rng(seed))) {
                out.push(Call::Prove { s: if g.p(50) { long } else { base.clone() }, xc, yc: p.ycoms.clone(), seed });
            }
            let mut bad = p.clone();
            match g.n(4) {
                0 => bad.equ_proofs.clear(),
                1 => bad.equ_proofs.push(p.equ_proofs[0].clone()),
                2 => { bad.equ_proofs[0].pi.pop(); }
                _ => { bad.ycoms.coms.pop(); }
            }
            out.push(Call::Verify { s: base.clone(), p: bad });
            let other = ss[1 + g.n(3)].clone();
            out.push(Call::Enc { p: p.clone(), crs: other.crs.clone(), comp: g.p(50) });
            let (what, comp) = (g.n(3), g.p(50));
            let put = |b: &mut Vec<u8>| match (what, comp) {
                (0, true) => p.xcoms.serialize_compressed(b),
                (0, false) => p.xcoms.serialize_uncompressed(b),
                (1, true) => p.equ_proofs[0].serialize_compressed(b),
                (1, false) => p.equ_proofs[0].serialize_uncompressed(b),
                (_, true) => other.crs.serialize_compressed(b),
                _ => other.crs.serialize_uncompressed(b),
            };
            let mut b = vec![];
            if put(&mut b).is_err() { b.clear() }
            if g.p(40) { b.truncate(b.len() / 2) }
            out.push(Call::Dec { what, b, comp });
        }
        out.push(Call::Maps(g.f(), g.f(), key.real()));
        out.push(Call::Gen(seed));
        let t = 1 + g.n(6);
        let (a, b) = (g.mat(m, k), g.mat(k, t));
        let mut a2 = a.clone();
        a2[m - 1][k - 1] += F::<E>::ONE;
        out.push(Call::Mul { a, b: b.clone() });
        out.push(Call::Mul { a: a2, b });
        let a: Matrix<Com1<E>> = (0..m).map(|_| c1s::<E>(&g.pts(k))).collect();
        let left = g.p(50);
        let b = if left { g.mat(t, m) } else { g.mat(k, t) };
        out.push(Call::MulC { a, b, left });
        let h = g.dim();
        out.push(Call::Sum(c1s::<E>(&g.pts(h)), c2s::<E>(&g.pts(h))));
    }
    out
}

/// executions in the order of `ids`: events
fn play<E: Inst>(cs: &[Call<E>], ids: &[usize], r: &mut StdRng, twice: bool) -> Vec<Value> {
    let mut out = vec![];
    for i in ids {
        for _ in 0..if twice { 2 } else { 1 } {
            out.append(&mut one(cs, *i, r.next_u64() % 4));
        }
    }
    out
}
fn one<E: Inst>(cs: &[Call<E>], i: usize, way: u64) -> Vec<Value> {
    let pre = before(&cs[i]);
    let rs = exec(&cs[i], way);
    let kept = before(&cs[i]) == pre;
    rs.into_iter().map(|(s, o)| if s == LINK {
        json!({"op": "link", "id": i as u64 * 3 + 1, "outs": o.split(' ').collect::<Vec<_>>(), "kept": kept})
    } else { json!({"op": "call", "id": i as u64 * 3 + s + 1, "out": o, "kept": kept}) }).collect()
}
fn shuffle(v: &mut [usize], r: &mut StdRng) {
    for i in (1..v.len()).rev() {
        v.swap(i, (r.next_u64() % (i as u64 + 1)) as usize)
    }
}

pub fn memo<E: Inst>(c: &mut Ctx) {
    use rayon::prelude::*;
    let mut g = Gen::<E>::of(c);
    let sizes = c.sizes();
    let cs = cases::<E>(&mut g, c.n, &sizes);
    let (ctx, order, t) = (c.sarg("ctx", "fwd"), c.arg("order", 0), c.arg("t", 4) as usize);
    let mut r = rng(order);
    let mut ids: Vec<usize> = (0..cs.len()).collect();
    c.emit(json!({"op": "ctx", "name": ctx, "order": order, "t": t, "cases": cs.len(), "ids": cs.len() * 3}));
    match ctx.as_str() {
        "fwd" => {}
        "rev" => ids.reverse(),
        _ => shuffle(&mut ids, &mut r),
    }
    let evs: Vec<Value> = match ctx.as_str() {
        // inside a parallel iterator: calls run nested and on whichever worker is free
        "pool" => {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(t).stack_size(32 << 20).build().unwrap();
            let ways: Vec<u64> = ids.iter().map(|_| r.next_u64() % 4).collect();
            pool.install(|| ids.par_iter().zip(&ways).map(|(i, w)| one(&cs, *i, *w)).collect::<Vec<_>>()).concat()
        }
        // independent threads sharing the global pool
        "conc" => std::thread::scope(|s| {
            let hs: Vec<_> = (0..t)
                .map(|z| {
                    let (cs, mut ids) = (&cs, ids.clone());
                    let mut r = rng(order + 1000 * z as u64);
                    shuffle(&mut ids, &mut r);
                    s.spawn(move || play(cs, &ids, &mut r, false))
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        }),
        _ => {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(t).stack_size(32 << 20).build().unwrap();
            pool.install(|| play(&cs, &ids, &mut r, ctx != "fwd"))
        }
    };
    for e in evs {
        c.emit(e)
    }
}
