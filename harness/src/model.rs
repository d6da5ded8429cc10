//! Specification-level values (discrete logarithms) and their realisation in the implementation.
use crate::inst::Inst;
use ark_ec::pairing::PairingOutput;
use ark_ff::{AdditiveGroup, Field, PrimeField};
use ark_std::rand::rngs::StdRng;
use ark_std::rand::{Rng, RngCore, SeedableRng};
use ark_std::UniformRand;
use groth_sahai::data_structures::{Com1, Com2};
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::verifier::Verifiable;
use groth_sahai::CRS;
use serde_json::{json, Value};

pub type Pt<E> = [<E as ark_ec::pairing::Pairing>::ScalarField; 2];
type Fr<E> = <E as ark_ec::pairing::Pairing>::ScalarField;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Ppe,
    Ms1,
    Ms2,
    Quad,
}
pub const TYPES: [Ty; 4] = [Ty::Ppe, Ty::Ms1, Ty::Ms2, Ty::Quad];
impl Ty {
    pub fn s(self) -> &'static str {
        match self {
            Ty::Ppe => "PPE",
            Ty::Ms1 => "MS1",
            Ty::Ms2 => "MS2",
            Ty::Quad => "QUAD",
        }
    }
    pub fn from_s(s: &str) -> Ty {
        match s {
            "PPE" => Ty::Ppe,
            "MS1" => Ty::Ms1,
            "MS2" => Ty::Ms2,
            "QUAD" => Ty::Quad,
            _ => panic!("type {s}"),
        }
    }
    pub fn xs(self) -> bool {
        matches!(self, Ty::Ms2 | Ty::Quad)
    }
    pub fn ys(self) -> bool {
        matches!(self, Ty::Ms1 | Ty::Quad)
    }
    pub fn pi_len(self) -> usize {
        if self.xs() {
            1
        } else {
            2
        }
    }
    pub fn th_len(self) -> usize {
        if self.ys() {
            1
        } else {
            2
        }
    }
    pub fn equ_type(self) -> EquType {
        match self {
            Ty::Ppe => EquType::PairingProduct,
            Ty::Ms1 => EquType::MultiScalarG1,
            Ty::Ms2 => EquType::MultiScalarG2,
            Ty::Quad => EquType::Quadratic,
        }
    }
    pub fn from_equ_type(t: &EquType) -> Ty {
        match t {
            EquType::PairingProduct => Ty::Ppe,
            EquType::MultiScalarG1 => Ty::Ms1,
            EquType::MultiScalarG2 => Ty::Ms2,
            EquType::Quadratic => Ty::Quad,
        }
    }
}

// ---------------------------------------------------------------- json helpers
pub fn fv<E: Inst>(v: &[Fr<E>]) -> Value {
    Value::Array(v.iter().map(|x| E::fr_j(x)).collect())
}
pub fn fm<E: Inst>(m: &[Vec<Fr<E>>]) -> Value {
    Value::Array(m.iter().map(|r| fv::<E>(r)).collect())
}
pub fn jfv<E: Inst>(v: &Value) -> Vec<Fr<E>> {
    v.as_array().unwrap().iter().map(|x| E::j_fr(x)).collect()
}
pub fn jfm<E: Inst>(v: &Value) -> Vec<Vec<Fr<E>>> {
    v.as_array().unwrap().iter().map(|x| jfv::<E>(x)).collect()
}
pub fn pv<E: Inst>(v: &[Pt<E>]) -> Value {
    Value::Array(v.iter().map(|x| fv::<E>(x)).collect())
}
pub fn jpt<E: Inst>(v: &Value) -> Pt<E> {
    [E::j_fr(&v[0]), E::j_fr(&v[1])]
}
pub fn jpv<E: Inst>(v: &Value) -> Vec<Pt<E>> {
    v.as_array().unwrap().iter().map(|x| jpt::<E>(x)).collect()
}
pub fn c1_j<E: Inst>(c: &Com1<E>) -> Value {
    json!([E::g1_j(&c.0), E::g1_j(&c.1)])
}
pub fn c2_j<E: Inst>(c: &Com2<E>) -> Value {
    json!([E::g2_j(&c.0), E::g2_j(&c.1)])
}
pub fn c1s_j<E: Inst>(c: &[Com1<E>]) -> Value {
    Value::Array(c.iter().map(|x| c1_j(x)).collect())
}
pub fn c2s_j<E: Inst>(c: &[Com2<E>]) -> Value {
    Value::Array(c.iter().map(|x| c2_j(x)).collect())
}
pub fn c1<E: Inst>(p: &Pt<E>) -> Com1<E> {
    Com1(E::g1(&p[0]), E::g1(&p[1]))
}
pub fn c2<E: Inst>(p: &Pt<E>) -> Com2<E> {
    Com2(E::g2(&p[0]), E::g2(&p[1]))
}
pub fn c1s<E: Inst>(p: &[Pt<E>]) -> Vec<Com1<E>> {
    p.iter().map(|x| c1::<E>(x)).collect()
}
pub fn c2s<E: Inst>(p: &[Pt<E>]) -> Vec<Com2<E>> {
    p.iter().map(|x| c2::<E>(x)).collect()
}
/// projections back to exponents, toy instances only
pub fn x_c1s<E: Inst>(c: &[Com1<E>]) -> Vec<Pt<E>> {
    jpv::<E>(&c1s_j(c))
}
pub fn x_c2s<E: Inst>(c: &[Com2<E>]) -> Vec<Pt<E>> {
    jpv::<E>(&c2s_j(c))
}

// ---------------------------------------------------------------- keys
#[derive(Clone, Debug)]
pub struct AKey<E: Inst> {
    pub u: [Pt<E>; 2],
    pub v: [Pt<E>; 2],
    pub g1: Fr<E>,
    pub g2: Fr<E>,
    pub gt: Fr<E>,
}
impl<E: Inst> AKey<E> {
    pub fn make(
        p1: Fr<E>,
        p2: Fr<E>,
        a1: Fr<E>,
        a2: Fr<E>,
        t1: Fr<E>,
        t2: Fr<E>,
        hide: bool,
    ) -> Self {
        let (q1, q2) = (p1 * a1, p2 * a2);
        let h1 = if hide { p1 } else { Fr::<E>::ZERO };
        let h2 = if hide { p2 } else { Fr::<E>::ZERO };
        AKey {
            u: [[p1, q1], [p1 * t1, q1 * t1 - h1]],
            v: [[p2, q2], [p2 * t2, q2 * t2 - h2]],
            g1: p1,
            g2: p2,
            gt: p1 * p2,
        }
    }
    pub fn j(&self) -> Value {
        json!({"u": pv::<E>(&self.u), "v": pv::<E>(&self.v), "g1": E::fr_j(&self.g1),
               "g2": E::fr_j(&self.g2), "gt": E::fr_j(&self.gt)})
    }
    pub fn from_j(v: &Value) -> Self {
        AKey {
            u: [jpt::<E>(&v["u"][0]), jpt::<E>(&v["u"][1])],
            v: [jpt::<E>(&v["v"][0]), jpt::<E>(&v["v"][1])],
            g1: E::j_fr(&v["g1"]),
            g2: E::j_fr(&v["g2"]),
            gt: E::j_fr(&v["gt"]),
        }
    }
    pub fn real(&self) -> CRS<E> {
        CRS {
            u: c1s::<E>(&self.u),
            v: c2s::<E>(&self.v),
            g1_gen: E::g1(&self.g1),
            g2_gen: E::g2(&self.g2),
            gt_gen: E::gt(&self.gt),
        }
    }
}
pub fn crs_j<E: Inst>(c: &CRS<E>) -> Value {
    json!({"u": c1s_j(&c.u), "v": c2s_j(&c.v), "g1": E::g1_j(&c.g1_gen),
           "g2": E::g2_j(&c.g2_gen), "gt": E::gt_j(&c.gt_gen)})
}

// ---------------------------------------------------------------- equations
#[derive(Clone, Debug)]
pub struct AEq<E: Inst> {
    pub ty: Ty,
    pub a: Vec<Fr<E>>,
    pub b: Vec<Fr<E>>,
    pub g: Vec<Vec<Fr<E>>>,
    pub t: Fr<E>,
}
#[derive(Clone, Debug)]
pub enum Eqn<E: Inst> {
    Ppe(PPE<E>),
    Ms1(MSMEG1<E>),
    Ms2(MSMEG2<E>),
    Quad(QuadEqu<E>),
}
impl<E: Inst> AEq<E> {
    pub fn j(&self) -> Value {
        json!({"ty": self.ty.s(), "a": fv::<E>(&self.a), "b": fv::<E>(&self.b),
               "g": fm::<E>(&self.g), "t": E::fr_j(&self.t)})
    }
    pub fn from_j(v: &Value) -> Self {
        AEq {
            ty: Ty::from_s(v["ty"].as_str().unwrap()),
            a: jfv::<E>(&v["a"]),
            b: jfv::<E>(&v["b"]),
            g: jfm::<E>(&v["g"]),
            t: E::j_fr(&v["t"]),
        }
    }
    pub fn lhs(&self, x: &[Fr<E>], y: &[Fr<E>]) -> Fr<E> {
        let mut s = Fr::<E>::ZERO;
        for j in 0..y.len() {
            s += self.a[j] * y[j];
        }
        for i in 0..x.len() {
            s += x[i] * self.b[i];
            for j in 0..y.len() {
                s += x[i] * self.g[i][j] * y[j];
            }
        }
        s
    }
    pub fn real(&self) -> Eqn<E> {
        let (a, b, g) = (&self.a, &self.b, self.g.clone());
        let g1 = |v: &Vec<Fr<E>>| v.iter().map(|x| E::g1(x)).collect::<Vec<_>>();
        let g2 = |v: &Vec<Fr<E>>| v.iter().map(|x| E::g2(x)).collect::<Vec<_>>();
        match self.ty {
            Ty::Ppe => Eqn::Ppe(PPE {
                a_consts: g1(a),
                b_consts: g2(b),
                gamma: g,
                target: E::gt(&self.t),
            }),
            Ty::Ms1 => Eqn::Ms1(MSMEG1 {
                a_consts: g1(a),
                b_consts: b.clone(),
                gamma: g,
                target: E::g1(&self.t),
            }),
            Ty::Ms2 => Eqn::Ms2(MSMEG2 {
                a_consts: a.clone(),
                b_consts: g2(b),
                gamma: g,
                target: E::g2(&self.t),
            }),
            Ty::Quad => Eqn::Quad(QuadEqu {
                a_consts: a.clone(),
                b_consts: b.clone(),
                gamma: g,
                target: self.t,
            }),
        }
    }
}
/// Projection of a real equation (toy instances)
pub fn eqn_j<E: Inst>(e: &Eqn<E>) -> Value {
    let g1 = |v: &Vec<E::G1Affine>| Value::Array(v.iter().map(|x| E::g1_j(x)).collect());
    let g2 = |v: &Vec<E::G2Affine>| Value::Array(v.iter().map(|x| E::g2_j(x)).collect());
    match e {
        Eqn::Ppe(q) => {
            json!({"ty":"PPE","a":g1(&q.a_consts),"b":g2(&q.b_consts),"g":fm::<E>(&q.gamma),"t":E::gt_j(&q.target)})
        }
        Eqn::Ms1(q) => {
            json!({"ty":"MS1","a":g1(&q.a_consts),"b":fv::<E>(&q.b_consts),"g":fm::<E>(&q.gamma),"t":E::g1_j(&q.target)})
        }
        Eqn::Ms2(q) => {
            json!({"ty":"MS2","a":fv::<E>(&q.a_consts),"b":g2(&q.b_consts),"g":fm::<E>(&q.gamma),"t":E::g2_j(&q.target)})
        }
        Eqn::Quad(q) => {
            json!({"ty":"QUAD","a":fv::<E>(&q.a_consts),"b":fv::<E>(&q.b_consts),"g":fm::<E>(&q.gamma),"t":E::fr_j(&q.target)})
        }
    }
}

// ---------------------------------------------------------------- guarded calls
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(e) => Err(e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into())),
    }
}
pub fn short(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii() && *c != '"').take(80).collect()
}

pub fn g1v<E: Inst>(v: &[Fr<E>]) -> Vec<E::G1Affine> {
    v.iter().map(|x| E::g1(x)).collect()
}
pub fn g2v<E: Inst>(v: &[Fr<E>]) -> Vec<E::G2Affine> {
    v.iter().map(|x| E::g2(x)).collect()
}

impl<E: Inst> Eqn<E> {
    pub fn ty(&self) -> Ty {
        match self {
            Eqn::Ppe(_) => Ty::Ppe,
            Eqn::Ms1(_) => Ty::Ms1,
            Eqn::Ms2(_) => Ty::Ms2,
            Eqn::Quad(_) => Ty::Quad,
        }
    }
    pub fn commit_and_prove<R: Rng>(&self, x: &[Fr<E>], y: &[Fr<E>], crs: &CRS<E>, rng: &mut R) -> CProof<E> {
        match self {
            Eqn::Ppe(q) => q.commit_and_prove(&g1v::<E>(x), &g2v::<E>(y), crs, rng),
            Eqn::Ms1(q) => q.commit_and_prove(&g1v::<E>(x), y, crs, rng),
            Eqn::Ms2(q) => q.commit_and_prove(x, &g2v::<E>(y), crs, rng),
            Eqn::Quad(q) => q.commit_and_prove(x, y, crs, rng),
        }
    }
    pub fn prove<R: Rng>(
        &self,
        x: &[Fr<E>],
        y: &[Fr<E>],
        xc: &Commit1<E>,
        yc: &Commit2<E>,
        crs: &CRS<E>,
        rng: &mut R,
    ) -> EquProof<E> {
        match self {
            Eqn::Ppe(q) => q.prove(&g1v::<E>(x), &g2v::<E>(y), xc, yc, crs, rng),
            Eqn::Ms1(q) => q.prove(&g1v::<E>(x), y, xc, yc, crs, rng),
            Eqn::Ms2(q) => q.prove(x, &g2v::<E>(y), xc, yc, crs, rng),
            Eqn::Quad(q) => q.prove(x, y, xc, yc, crs, rng),
        }
    }
    pub fn verify(&self, p: &CProof<E>, crs: &CRS<E>) -> bool {
        match self {
            Eqn::Ppe(q) => q.verify(p, crs),
            Eqn::Ms1(q) => q.verify(p, crs),
            Eqn::Ms2(q) => q.verify(p, crs),
            Eqn::Quad(q) => q.verify(p, crs),
        }
    }
    /// "true", "false" or "panic"
    pub fn verdict(&self, p: &CProof<E>, crs: &CRS<E>) -> &'static str {
        match guard(|| self.verify(p, crs)) {
            Ok(true) => "true",
            Ok(false) => "false",
            Err(_) => "panic",
        }
    }
}

pub fn commit_x<E: Inst, R: Rng>(scalar: bool, x: &[Fr<E>], crs: &CRS<E>, rng: &mut R) -> Commit1<E> {
    if scalar {
        batch_commit_scalar_to_B1(x, crs, rng)
    } else {
        batch_commit_G1(&g1v::<E>(x), crs, rng)
    }
}
pub fn commit_y<E: Inst, R: Rng>(scalar: bool, y: &[Fr<E>], crs: &CRS<E>, rng: &mut R) -> Commit2<E> {
    if scalar {
        batch_commit_scalar_to_B2(y, crs, rng)
    } else {
        batch_commit_G2(&g2v::<E>(y), crs, rng)
    }
}
pub fn commit_x1<E: Inst, R: Rng>(scalar: bool, x: &Fr<E>, crs: &CRS<E>, rng: &mut R) -> Commit1<E> {
    if scalar {
        commit_scalar_to_B1(x, crs, rng)
    } else {
        commit_G1(&E::g1(x), crs, rng)
    }
}
pub fn commit_y1<E: Inst, R: Rng>(scalar: bool, y: &Fr<E>, crs: &CRS<E>, rng: &mut R) -> Commit2<E> {
    if scalar {
        commit_scalar_to_B2(y, crs, rng)
    } else {
        commit_G2(&E::g2(y), crs, rng)
    }
}

pub fn rng(seed: u64) -> StdRng {
    StdRng::seed_from_u64(seed)
}
pub fn fork(r: &mut StdRng) -> u64 {
    r.next_u64()
}

/// Build a bundle with arbitrary commitments and proof elements.  The private fields come from an
/// honestly made dummy; every public field is then overwritten.
pub fn forge_proof<E: Inst>(label: Ty, pi: Vec<Com2<E>>, th: Vec<Com1<E>>) -> EquProof<E> {
    let mut p = dummy::<E>(label).equ_proofs.remove(0);
    p.pi = pi;
    p.theta = th;
    p.equ_type = label.equ_type();
    p
}
pub fn forge_x<E: Inst>(scalar: bool, coms: Vec<Com1<E>>) -> Commit1<E> {
    let ty = if scalar { Ty::Quad } else { Ty::Ppe };
    let mut c = dummy::<E>(ty).xcoms;
    c.coms = coms;
    c
}
pub fn forge_y<E: Inst>(scalar: bool, coms: Vec<Com2<E>>) -> Commit2<E> {
    let ty = if scalar { Ty::Quad } else { Ty::Ppe };
    let mut c = dummy::<E>(ty).ycoms;
    c.coms = coms;
    c
}
fn dummy<E: Inst>(ty: Ty) -> CProof<E> {
    use std::any::TypeId;
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! { static D: RefCell<HashMap<(TypeId, u8), Box<dyn std::any::Any>>> = RefCell::new(HashMap::new()); }
    D.with(|d| {
        let mut d = d.borrow_mut();
        let k = (TypeId::of::<E>(), ty as u8);
        let v = d.entry(k).or_insert_with(|| {
            let o = Fr::<E>::ONE;
            let z = Fr::<E>::ZERO;
            let key = AKey::<E>::make(o, o, o, o, o, o, false);
            let eq = AEq::<E> { ty, a: vec![z], b: vec![z], g: vec![vec![z]], t: z };
            Box::new(eq.real().commit_and_prove(&[z], &[z], &key.real(), &mut rng(1)))
        });
        v.downcast_ref::<CProof<E>>().unwrap().clone()
    })
}
pub fn bundle<E: Inst>(xc: Commit1<E>, yc: Commit2<E>, ps: Vec<EquProof<E>>) -> CProof<E> {
    CProof { xcoms: xc, ycoms: yc, equ_proofs: ps }
}
pub fn proof_j<E: Inst>(p: &EquProof<E>) -> Value {
    json!({"ty": Ty::from_equ_type(&p.equ_type).s(), "pi": c2s_j(&p.pi), "th": c1s_j(&p.theta)})
}
pub fn proofs_j<E: Inst>(p: &[EquProof<E>]) -> Value {
    Value::Array(p.iter().map(|x| proof_j(x)).collect())
}

/// The randomness recorded inside a commitment / proof, read from its encoding (there is no
/// accessor).  `None` when the encoding does not have the expected layout.
pub fn recorded_x<E: Inst>(c: &Commit1<E>) -> Option<Vec<Vec<Fr<E>>>> {
    use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
    let mut b = vec![];
    c.serialize_uncompressed(&mut b).ok()?;
    let mut s = &b[..];
    let coms = Vec::<Com1<E>>::deserialize_uncompressed_unchecked(&mut s).ok()?;
    let r = guard(|| Vec::<Vec<Fr<E>>>::deserialize_uncompressed(&mut s)).ok()?.ok()?;
    (coms == c.coms && s.is_empty()).then_some(r)
}
pub fn recorded_y<E: Inst>(c: &Commit2<E>) -> Option<Vec<Vec<Fr<E>>>> {
    use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
    let mut b = vec![];
    c.serialize_uncompressed(&mut b).ok()?;
    let mut s = &b[..];
    let coms = Vec::<Com2<E>>::deserialize_uncompressed_unchecked(&mut s).ok()?;
    let r = guard(|| Vec::<Vec<Fr<E>>>::deserialize_uncompressed(&mut s)).ok()?.ok()?;
    (coms == c.coms && s.is_empty()).then_some(r)
}
pub fn recorded_p<E: Inst>(p: &EquProof<E>) -> Option<Vec<Vec<Fr<E>>>> {
    use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
    let mut b = vec![];
    p.serialize_uncompressed(&mut b).ok()?;
    let mut s = &b[..];
    let pi = Vec::<Com2<E>>::deserialize_uncompressed_unchecked(&mut s).ok()?;
    let th = Vec::<Com1<E>>::deserialize_uncompressed_unchecked(&mut s).ok()?;
    let t = EquType::deserialize_uncompressed(&mut s).ok()?;
    let r = guard(|| Vec::<Vec<Fr<E>>>::deserialize_uncompressed(&mut s)).ok()?.ok()?;
    (pi == p.pi && th == p.theta && t == p.equ_type && s.is_empty()).then_some(r)
}
#[allow(dead_code)]
pub fn gt_v<E: Inst>(p: &PairingOutput<E>) -> Value {
    E::gt_j(p)
}

// ---------------------------------------------------------------- generators
/// powers of two, their neighbours and their negatives; halves; roots of unity of small order
pub fn boundaries<E: Inst>(all: bool) -> Vec<Fr<E>> {
    let one = Fr::<E>::ONE;
    let mut v = vec![];
    for s in 0..Fr::<E>::MODULUS_BIT_SIZE as u64 {
        if all || s < 2 || s % 8 == 0 || s % 64 <= 2 || s % 64 >= 62 {
            let x = Fr::<E>::from(2u64).pow([s]);
            v.extend([x, x + one, x - one, -x, -x + one, -x - one]);
        }
    }
    if let Some(h) = Fr::<E>::from(2u64).inverse() {
        v.extend([h, -h]);
    }
    for k in [3u64, 4, 6, 8, 16] {
        if let Some(w) = root::<E>(k) {
            v.extend([w, w.square(), -w]);
        }
    }
    v
}
/// a primitive k-th root of unity, such as the scalars that curve endomorphisms stand for
fn root<E: Inst>(k: u64) -> Option<Fr<E>> {
    let m: num_bigint::BigUint = Fr::<E>::MODULUS.into();
    let m1 = m - 1u32;
    if &m1 % k != num_bigint::BigUint::from(0u32) {
        return None;
    }
    let e = (m1 / k).to_u64_digits();
    (2..200u64).map(|b| Fr::<E>::from(b).pow(&e)).find(|w| (1..k).all(|d| w.pow([d]) != Fr::<E>::ONE) && *w != Fr::<E>::ZERO)
}
pub struct Gen<E: Inst> {
    pub r: StdRng,
    last: Vec<Fr<E>>,
    /// boundary scalars still to be met, in a circle
    edges: Vec<Fr<E>>,
    at: usize,
}
impl<E: Inst> Gen<E> {
    pub fn new(seed: u64) -> Self {
        Gen { r: rng(seed), last: vec![], edges: vec![], at: 0 }
    }
    /// the argument `edges` makes most scalars boundary ones: 1 those next to machine words, 2 all
    pub fn of(c: &crate::Ctx) -> Self {
        let mut g = Gen::new(c.seed);
        match c.arg("edges", 0) {
            0 => (),
            k => {
                g.edges = boundaries::<E>(k > 1);
                g.at = g.n(g.edges.len());
            }
        }
        g
    }
    pub fn n(&mut self, k: usize) -> usize {
        self.r.gen_range(0..k)
    }
    pub fn p(&mut self, pct: u32) -> bool {
        self.r.gen_range(0..100) < pct
    }
    pub fn seed(&mut self) -> u64 {
        self.r.next_u64()
    }
    pub fn uni(&mut self) -> Fr<E> {
        Fr::<E>::rand(&mut self.r)
    }
    pub fn nz(&mut self) -> Fr<E> {
        loop {
            let x = self.uni();
            if x != Fr::<E>::ZERO {
                return x;
            }
        }
    }
    /// a scalar biased towards special values
    pub fn f(&mut self) -> Fr<E> {
        if !self.edges.is_empty() && self.p(85) {
            self.at = (self.at + 1) % self.edges.len();
            return self.edges[self.at];
        }
        let x = match self.n(18) {
            8 => {
                // some of the 64-bit limbs zero or full
                let mut b: Vec<u8> = (0..32).map(|_| self.n(256) as u8).collect();
                for k in 0..4 {
                    let z = match self.n(4) {
                        0 | 1 => 0,
                        2 => 255,
                        _ => continue,
                    };
                    b[8 * k..8 * k + 8].fill(z);
                }
                b[31] &= 0x3f;
                Fr::<E>::from_le_bytes_mod_order(&b)
            }
            9 => {
                // halves and the neighbourhood of the order
                let h = Fr::<E>::from(2u64).inverse().unwrap();
                let k = Fr::<E>::from(self.n(4) as u64);
                match self.n(3) {
                    0 => h + k,
                    1 => h - k,
                    _ => -k,
                }
            }
            0 | 1 => Fr::<E>::ZERO,
            2 => Fr::<E>::ONE,
            3 => -Fr::<E>::ONE,
            4 if !self.last.is_empty() => {
                let k = self.n(self.last.len());
                self.last[k]
            }
            5 if !self.last.is_empty() => {
                let k = self.n(self.last.len());
                -self.last[k]
            }
            6 => {
                // sparse bit patterns (meaningful for the 255-bit field)
                let s = if self.p(50) { self.n(255) } else { 32 * self.n(8) + self.n(3) } as u64;
                let mut x = Fr::<E>::from(2u64).pow([s]);
                match self.n(5) {
                    0 => x -= Fr::<E>::ONE,
                    1 => x += Fr::<E>::ONE,
                    2 => {
                        // any number of that many bits
                        let b: Vec<u8> = (0..(s as usize) / 8 + 1).map(|_| self.n(256) as u8).collect();
                        x = Fr::<E>::from_le_bytes_mod_order(&b);
                    }
                    _ => (),
                }
                if self.p(40) {
                    -x
                } else {
                    x
                }
            }
            7 => {
                let s = self.n(1 << 16) as u64;
                Fr::<E>::from(s)
            }
            _ => self.uni(),
        };
        if self.last.len() < 8 {
            self.last.push(x)
        } else {
            let k = self.n(8);
            self.last[k] = x
        }
        x
    }
    /// numbers of which the same 64-bit limbs are zero, low ones or high ones
    pub fn limbed(&mut self, k: usize) -> Vec<Fr<E>> {
        let (j, low) = (1 + self.n(3), self.p(60));
        let n = if low { 32 - 8 * j } else { 8 * j };
        (0..k)
            .map(|_| {
                let mut b: Vec<u8> = (0..n).map(|_| self.n(256) as u8).collect();
                if self.p(30) {
                    b[8..].fill(0)
                }
                if low {
                    *b.last_mut().unwrap() &= 0x3f;
                    Fr::<E>::from_le_bytes_mod_order(&b) * Fr::<E>::from(2u64).pow([64 * j as u64])
                } else {
                    Fr::<E>::from_le_bytes_mod_order(&b)
                }
            })
            .collect()
    }
    pub fn fs(&mut self, k: usize) -> Vec<Fr<E>> {
        if Fr::<E>::MODULUS_BIT_SIZE > 200 && self.p(if self.edges.is_empty() { 4 } else { 12 }) {
            return self.limbed(k);
        }
        match if self.edges.is_empty() { self.n(8) } else { 7 } {
            0 => vec![Fr::<E>::ZERO; k],
            1 => {
                let x = self.f();
                vec![x; k]
            }
            2 => (0..k).map(|_| self.uni()).collect(),
            _ => (0..k).map(|_| self.f()).collect(),
        }
    }
    /// matrices with a structure that invites shortcuts
    pub fn pattern(&mut self, m: usize, n: usize) -> Vec<Vec<Fr<E>>> {
        let (z, one) = (Fr::<E>::ZERO, Fr::<E>::ONE);
        let k = self.n(16);
        let (c, d) = (self.nz(), self.uni());
        let (h, rev) = (self.n(m.max(n)), self.p(50));
        let mut perm: Vec<usize> = (0..m.max(n)).collect();
        for i in (1..perm.len()).rev() {
            let j = self.n(i + 1);
            perm.swap(i, j);
        }
        let diag: Vec<Fr<E>> = (0..m.max(n)).map(|_| self.nz()).collect();
        let line: Vec<Fr<E>> = (0..m + n).map(|_| self.f()).collect();
        let mut g = vec![vec![z; n]; m];
        for i in 0..m {
            for j in 0..n {
                g[i][j] = match k {
                    0 => if i == j { one } else { z },
                    1 => if i == j { c } else { z },
                    // unit triangular, strictly triangular, triangular
                    2 => if i == j { one } else if i < j { self.f() } else { z },
                    3 => if i == j { one } else if i > j { self.f() } else { z },
                    4 => if rev && i > j || !rev && i < j { self.nz() } else { z },
                    5 => if rev && i >= j || !rev && i <= j { self.nz() } else { z },
                    6 => if perm[i] == j { one } else { z },
                    7 => if perm[i] == j { diag[i] } else { z },
                    // symmetric, skew, constant along diagonals
                    8 => line[i.max(j)] * line[i.min(j)] + line[i + j],
                    9 => if i < j { line[i + j] } else if i > j { -line[i + j] } else { z },
                    10 => line[m + j - i - 1],
                    // rank one, all equal, the identity but for one entry
                    11 => line[i] * line[m + j],
                    12 => c,
                    13 => if i == h % m && j == (h + 1 + h / m) % n { d } else if i == j { one } else { z },
                    // signs, blocks
                    14 => if self.p(50) { one } else { -one },
                    _ => if i / 2 == j / 2 { self.nz() } else { z },
                }
            }
        }
        g
    }
    pub fn mat(&mut self, m: usize, n: usize) -> Vec<Vec<Fr<E>>> {
        if m == 0 || n == 0 {
            return vec![vec![]; m];
        }
        if Fr::<E>::MODULUS_BIT_SIZE > 200 {
            if self.p(if self.edges.is_empty() { 5 } else { 20 }) {
                // all of it, or row by row
                return if self.p(50) { self.limbed(m * n).chunks(n).map(|r| r.to_vec()).collect() } else { (0..m).map(|_| self.limbed(n)).collect() };
            }
            if !self.edges.is_empty() && self.p(40) {
                return (0..m).map(|_| (0..n).map(|_| self.f()).collect()).collect();
            }
        }
        match self.n(13) {
            9..=12 => self.pattern(m, n),
            0 => vec![vec![Fr::<E>::ZERO; n]; m],
            1 => {
                // a single non-zero entry
                let mut g = vec![vec![Fr::<E>::ZERO; n]; m];
                let (i, j) = (self.n(m), self.n(n));
                g[i][j] = self.nz();
                g
            }
            2 => {
                let mut g = vec![vec![Fr::<E>::ZERO; n]; m];
                for i in 0..m.min(n) {
                    g[i][i] = self.f();
                }
                g
            }
            3 => {
                // some zero rows and columns
                let mut g: Vec<Vec<_>> = (0..m).map(|_| (0..n).map(|_| self.uni()).collect()).collect();
                let (i, j) = (self.n(m), self.n(n));
                g[i] = vec![Fr::<E>::ZERO; n];
                for row in g.iter_mut() {
                    row[j] = Fr::<E>::ZERO;
                }
                g
            }
            4 => (0..m).map(|_| (0..n).map(|_| self.uni()).collect()).collect(),
            _ => (0..m).map(|_| (0..n).map(|_| self.f()).collect()).collect(),
        }
    }
    pub fn pt(&mut self) -> Pt<E> {
        match self.n(6) {
            0 => [Fr::<E>::ZERO, self.f()],
            1 => [self.f(), Fr::<E>::ZERO],
            _ => [self.f(), self.f()],
        }
    }
    pub fn pts(&mut self, k: usize) -> Vec<Pt<E>> {
        (0..k).map(|_| self.pt()).collect()
    }
    pub fn key(&mut self, hide: bool) -> AKey<E> {
        let (p1, p2) = (self.nz(), self.nz());
        if self.p(15) {
            AKey::make(p1, p2, self.f(), self.f(), self.f(), self.f(), hide)
        } else {
            AKey::make(p1, p2, self.uni(), self.uni(), self.uni(), self.uni(), hide)
        }
    }
    pub fn anykey(&mut self) -> AKey<E> {
        let h = self.p(40);
        self.key(h)
    }
    /// arbitrary coefficients, target making (x, y) a satisfying assignment
    pub fn eq_for(&mut self, ty: Ty, x: &[Fr<E>], y: &[Fr<E>]) -> AEq<E> {
        let (m, n) = (x.len(), y.len());
        if self.p(20) {
            let shape = self.n(27);
            return self.eq_shape(ty, x, y, shape);
        }
        let mut e = AEq { ty, a: self.fs(n), b: self.fs(m), g: self.mat(m, n), t: Fr::<E>::ZERO };
        match self.n(5) {
            0 => self.thin(&mut e),
            1 => self.repeat(&mut e),
            _ => (),
        }
        e.t = e.lhs(x, y);
        if self.p(20) {
            // a special target: one constant makes up for it
            let t = self.f();
            if let Some(j) = (0..n).find(|&j| y[j] != Fr::<E>::ZERO) {
                e.a[j] += (t - e.t) * y[j].inverse().unwrap();
            } else if let Some(i) = (0..m).find(|&i| x[i] != Fr::<E>::ZERO) {
                e.b[i] += (t - e.t) * x[i].inverse().unwrap();
            }
            e.t = e.lhs(x, y);
        }
        e
    }
    /// an equation of a larger statement: it uses some of the variables of each side only
    fn thin(&mut self, e: &mut AEq<E>) {
        let (m, n) = (e.b.len(), e.a.len());
        let d = [15, 40, 60, 85][self.n(4)];
        let ux: Vec<bool> = (0..m).map(|_| self.p(d)).collect();
        let uy: Vec<bool> = (0..n).map(|_| self.p(d)).collect();
        // the constants may belong to variables that have no cross terms
        let (keep_a, keep_b) = (self.p(30), self.p(30));
        let (fill, z) = (self.p(60), Fr::<E>::ZERO);
        for i in 0..m {
            for j in 0..n {
                if !(ux[i] && uy[j]) {
                    e.g[i][j] = z;
                } else if fill {
                    e.g[i][j] = self.nz();
                }
            }
        }
        for i in 0..m {
            if !ux[i] && !keep_b {
                e.b[i] = z;
            }
        }
        for j in 0..n {
            if !uy[j] && !keep_a {
                e.a[j] = z;
            }
        }
    }
    /// equal rows, columns, constants, or multiples of each other
    fn repeat(&mut self, e: &mut AEq<E>) {
        let (m, n) = (e.b.len(), e.a.len());
        let one = Fr::<E>::ONE;
        for _ in 0..1 + self.n(3) {
            let k = if self.p(70) { one } else { self.f() };
            match self.n(5) {
                0 => {
                    let (i, j) = (self.n(m), self.n(m));
                    e.g[i] = e.g[j].iter().map(|z| k * *z).collect();
                    e.b[i] = k * e.b[j];
                }
                1 => {
                    let (i, j) = (self.n(n), self.n(n));
                    for row in e.g.iter_mut() {
                        row[i] = k * row[j];
                    }
                    e.a[i] = k * e.a[j];
                }
                2 => {
                    let (i, j) = (self.n(m), self.n(m));
                    e.g[i] = e.g[j].clone();
                }
                3 => {
                    let (i, j) = (self.n(n), self.n(n));
                    for row in e.g.iter_mut() {
                        row[i] = row[j];
                    }
                }
                _ => {
                    let z = self.f();
                    e.g = vec![vec![z; n]; m];
                }
            }
        }
    }
    /// one of 27 shapes of equation: constants of each side none / one / all non-zero, and no cross
    /// terms, one, or all of them non-zero
    pub fn eq_shape(&mut self, ty: Ty, x: &[Fr<E>], y: &[Fr<E>], shape: usize) -> AEq<E> {
        let (m, n) = (x.len(), y.len());
        let v = |g: &mut Self, kind: usize, k: usize| -> Vec<Fr<E>> {
            let hot = g.n(k);
            (0..k).map(|i| if kind == 2 || (kind == 1 && i == hot) { g.nz() } else { Fr::<E>::ZERO }).collect()
        };
        let a = v(self, shape % 3, n);
        let b = v(self, (shape / 3) % 3, m);
        let flat = v(self, (shape / 9) % 3, m * n);
        let mut e = AEq { ty, a, b, g: flat.chunks(n).map(|r| r.to_vec()).collect(), t: Fr::<E>::ZERO };
        e.t = e.lhs(x, y);
        e
    }
    pub fn ty(&mut self) -> Ty {
        TYPES[self.n(4)]
    }
    /// a size, mostly small
    /// length of a list: mostly short, now and then past the sizes at which code may change its ways
    pub fn len(&mut self, short: usize) -> usize {
        let (long, huge) = if E::TOY { (6, 1) } else { (3, 0) };
        if self.p(huge) {
            256 + self.n(900)
        } else if self.p(long) {
            short + self.n(if E::TOY { 140 } else { 34 })
        } else {
            self.n(short)
        }
    }
    pub fn dim(&mut self) -> usize {
        match self.n(20) {
            0..=5 => 1,
            6..=10 => 2,
            11..=14 => 3,
            15..=16 => 4 + self.n(3),
            17..=18 => 7 + self.n(5),
            _ => 12 + self.n(9),
        }
    }
}
