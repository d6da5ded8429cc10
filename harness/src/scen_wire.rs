//! Encodings of every artefact (C13) and decoding of arbitrary bytes (C14).
use crate::inst::{hex_bytes, Inst};
use crate::model::*;
use crate::Ctx;
use ark_ec::pairing::PairingOutput;
use ark_ec::AffineRepr;
use ark_ff::{AdditiveGroup, BigInteger, Field, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Read, Valid, Validate};
use groth_sahai::data_structures::{Com1, Com2};
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::CRS;
use serde_json::{json, Value};

type F<E> = <E as ark_ec::pairing::Pairing>::ScalarField;

/// coordinates of the elements (toy instances: integers, otherwise hexadecimal text)
pub trait Wire: Inst {
    fn w1(p: &Self::G1Affine) -> Value;
    fn w2(p: &Self::G2Affine) -> Value;
    fn wt(p: &PairingOutput<Self>) -> Value;
    fn wf(p: &F<Self>) -> Value;
    /// points of the curve outside the subgroup, field elements that are not on the curve, ...
    fn bad1(g: &mut Gen<Self>) -> Vec<(&'static str, bool, Vec<u8>)>;
    fn bad2(g: &mut Gen<Self>) -> Vec<(&'static str, bool, Vec<u8>)>;
    fn badt(g: &mut Gen<Self>) -> Vec<(&'static str, bool, Vec<u8>)>;
}
impl<T: crate::toy::ToyCfg> Wire for crate::toy::Toy<T> {
    fn w1(p: &Self::G1Affine) -> Value {
        use crate::toy::small;
        if p.infinity { json!([]) } else { json!([small(&p.x), small(&p.y)]) }
    }
    fn w2(p: &Self::G2Affine) -> Value {
        use crate::toy::small;
        if p.infinity { json!([]) } else { json!([small(&p.x), small(&p.y)]) }
    }
    fn wt(p: &PairingOutput<Self>) -> Value {
        use crate::toy::small;
        json!([small(&p.0.c0), small(&p.0.c1)])
    }
    fn wf(p: &F<Self>) -> Value {
        json!(crate::toy::small(p))
    }
    fn bad1(_: &mut Gen<Self>) -> Vec<(&'static str, bool, Vec<u8>)> { vec![] }
    fn bad2(_: &mut Gen<Self>) -> Vec<(&'static str, bool, Vec<u8>)> { vec![] }
    fn badt(_: &mut Gen<Self>) -> Vec<(&'static str, bool, Vec<u8>)> { vec![] }
}
/// the bytes of encodings over this group are not specified
impl Wire for crate::clear::Clear {
    fn w1(p: &Self::G1Affine) -> Value { Self::g1_j(p) }
    fn w2(p: &Self::G2Affine) -> Value { Self::g2_j(p) }
    fn wt(p: &PairingOutput<Self>) -> Value { Self::gt_j(p) }
    fn wf(p: &F<Self>) -> Value { Self::fr_j(p) }
    fn bad1(_: &mut Gen<Self>) -> Vec<(&'static str, bool, Vec<u8>)> { vec![] }
    fn bad2(_: &mut Gen<Self>) -> Vec<(&'static str, bool, Vec<u8>)> { vec![] }
    fn badt(_: &mut Gen<Self>) -> Vec<(&'static str, bool, Vec<u8>)> { vec![] }
}
mod blsbad {
    use super::*;
    use ark_bls12_381::{Bls12_381 as B, Fq, Fq12, G1Affine, G2Affine};
    use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
    use ark_std::UniformRand;

    fn ser<T: CanonicalSerialize>(x: &T, comp: bool) -> Vec<u8> {
        let mut b = vec![];
        if comp { x.serialize_compressed(&mut b) } else { x.serialize_uncompressed(&mut b) }.unwrap();
        b
    }
    /// a point of the curve outside the subgroup
    fn outside<C: SWCurveConfig>(r: &mut impl ark_std::rand::Rng) -> Affine<C> {
        loop {
            let x = C::BaseField::rand(r);
            if let Some(p) = Affine::<C>::get_point_from_x_unchecked(x, r.gen()) {
                if !p.is_in_correct_subgroup_assuming_on_curve() {
                    return p;
                }
            }
        }
    }
    fn offcurve<C: SWCurveConfig>(r: &mut impl ark_std::rand::Rng) -> Affine<C> {
        loop {
            let p = Affine::<C>::new_unchecked(C::BaseField::rand(r), C::BaseField::rand(r));
            if !p.is_on_curve() {
                return p;
            }
        }
    }
    fn no_x<C: SWCurveConfig>(r: &mut impl ark_std::rand::Rng) -> Affine<C> {
        loop {
            let x = C::BaseField::rand(r);
            if Affine::<C>::get_ys_from_x_unchecked(x).is_none() {
                return Affine::<C>::new_unchecked(x, x);
            }
        }
    }
    macro_rules! bad {
        ($f:ident, $g:ty, $c:ty, $n:expr) => {
            pub fn $f(g: &mut Gen<B>) -> Vec<(&'static str, bool, Vec<u8>)> {
                let mut out = vec![];
                let o = outside::<$c>(&mut g.r);
                out.push(("subgroup", true, ser(&o, true)));
                out.push(("subgroup", false, ser(&o, false)));
                out.push(("offcurve", true, ser(&no_x::<$c>(&mut g.r), true)));
                out.push(("offcurve", false, ser(&offcurve::<$c>(&mut g.r), false)));
                // a point of the subgroup with a coordinate not reduced: x + q still has room for the flags
                let k = g.nz();
                let p: $g = (<$g>::generator() * k).into();
                let good = (ser(&p, true), ser(&p, false));
                let mut y = p;
                y.y = -y.y;
                y.y.double_in_place();
                out.push(("offcurve", false, ser(&y, false)));
                // big-endian modulus in place of the first coordinate, flags kept
                let q = Fq::MODULUS.to_bytes_be();
                let mut b = good.0.clone();
                let fl = b[0] & 0xe0;
                b[..48].copy_from_slice(&q);
                b[0] |= fl;
                out.push(("range", true, b));
                let mut b = good.1.clone();
                let fl = b[0] & 0xe0;
                b[..48].copy_from_slice(&q);
                b[0] |= fl;
                out.push(("range", false, b));
                let mut b = good.1.clone();
                let n = b.len();
                for x in b[n - 48..].iter_mut() { *x = 0xff }
                out.push(("range", false, b));
                let mut b = good.0.clone();
                b[0] |= 0x1f;
                for x in b[1..48].iter_mut() { *x = 0xff }
                out.push(("range", true, b));
                // flags: compressed flag missing or surplus
                let mut b = good.0.clone();
                b[0] &= 0x7f;
                out.push(("flags", true, b));
                let mut b = good.1.clone();
                b[0] |= 0x80;
                out.push(("flags", false, b));
                let _ = $n;
                out
            }
        };
    }
    bad!(bad1, G1Affine, ark_bls12_381::g1::Config, 48);
    bad!(bad2, G2Affine, ark_bls12_381::g2::Config, 96);
    pub fn badt(g: &mut Gen<B>) -> Vec<(&'static str, bool, Vec<u8>)> {
        let mut out = vec![];
        for comp in [true, false] {
            let x = Fq12::rand(&mut g.r);
            out.push(("subgroup", comp, ser(&x, comp)));
            let mut z = ser(&B::gt(&g.nz()), comp);
            out.push(("subgroup", comp, vec![0; z.len()]));
            // a non-reduced coefficient
            for b in z[48..96].iter_mut() { *b = 0xff }
            out.push(("range", comp, z));
            let q = Fq::MODULUS.to_bytes_le();
            let mut z = ser(&PairingOutput::<B>(Fq12::ONE), comp);
            z[48..96].copy_from_slice(&q);
            out.push(("range", comp, z));
            // minus one has order two
            out.push(("subgroup", comp, ser(&-Fq12::ONE, comp)));
        }
        out
    }
}
impl Wire for ark_bls12_381::Bls12_381 {
    fn w1(p: &Self::G1Affine) -> Value { Self::g1_j(p) }
    fn w2(p: &Self::G2Affine) -> Value { Self::g2_j(p) }
    fn wt(p: &PairingOutput<Self>) -> Value { Self::gt_j(p) }
    fn wf(p: &F<Self>) -> Value { Self::fr_j(p) }
    fn bad1(g: &mut Gen<Self>) -> Vec<(&'static str, bool, Vec<u8>)> { blsbad::bad1(g) }
    fn bad2(g: &mut Gen<Self>) -> Vec<(&'static str, bool, Vec<u8>)> { blsbad::bad2(g) }
    fn badt(g: &mut Gen<Self>) -> Vec<(&'static str, bool, Vec<u8>)> { blsbad::badt(g) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Len, G1, G2, Gt, Fr, Tag }
/// where the parts of an encoding are
#[derive(Clone)]
pub struct Slot { k: K, off: usize, len: usize }
struct Lay { b: Vec<u8>, s: Vec<Slot>, c: Compress }
impl Lay {
    fn put<T: CanonicalSerialize>(&mut self, k: K, x: &T) {
        let off = self.b.len();
        x.serialize_with_mode(&mut self.b, self.c).unwrap();
        let len = self.b.len() - off;
        self.s.push(Slot { k, off, len });
    }
    fn len(&mut self, n: usize) { self.put(K::Len, &(n as u64)) }
    fn mat<E: Wire>(&mut self, m: &[Vec<F<E>>]) {
        self.len(m.len());
        for r in m {
            self.len(r.len());
            for x in r { self.put(K::Fr, x) }
        }
    }
    fn c1<E: Wire>(&mut self, v: &[Com1<E>]) {
        self.len(v.len());
        for x in v { self.put(K::G1, &x.0); self.put(K::G1, &x.1) }
    }
    fn c2<E: Wire>(&mut self, v: &[Com2<E>]) {
        self.len(v.len());
        for x in v { self.put(K::G2, &x.0); self.put(K::G2, &x.1) }
    }
}
fn j1<E: Wire>(v: &[Com1<E>]) -> Value { Value::Array(v.iter().map(|c| json!([E::w1(&c.0), E::w1(&c.1)])).collect()) }
fn j2<E: Wire>(v: &[Com2<E>]) -> Value { Value::Array(v.iter().map(|c| json!([E::w2(&c.0), E::w2(&c.1)])).collect()) }
fn ja1<E: Wire>(v: &[E::G1Affine]) -> Value { Value::Array(v.iter().map(|c| E::w1(c)).collect()) }
fn ja2<E: Wire>(v: &[E::G2Affine]) -> Value { Value::Array(v.iter().map(|c| E::w2(c)).collect()) }
fn jf<E: Wire>(v: &[F<E>]) -> Value { Value::Array(v.iter().map(|c| E::wf(c)).collect()) }
fn jm<E: Wire>(v: &[Vec<F<E>>]) -> Value { Value::Array(v.iter().map(|c| jf::<E>(c)).collect()) }

pub trait Art<E: Wire>: CanonicalSerialize + CanonicalDeserialize + Valid + Clone + Send + Sync {
    const NAME: &'static str;
    fn make(g: &mut Gen<E>) -> Self;
    fn same(&self, o: &Self) -> bool;
    /// None: the recorded randomness cannot be read
    fn obj(&self) -> Option<Value>;
    /// what can be seen of it (the recorded randomness may be missing)
    fn see(&self) -> Value;
    fn lay(&self, c: Compress) -> Option<(Vec<u8>, Vec<Slot>)>;
    /// every element is a valid one according to the library of curves
    fn valid(&self) -> bool;
}
fn mk<E: Wire>(c: Compress, f: impl FnOnce(&mut Lay)) -> Option<(Vec<u8>, Vec<Slot>)> {
    let mut l = Lay { b: vec![], s: vec![], c };
    f(&mut l);
    Some((l.b, l.s))
}
fn v1<E: Wire>(c: &[Com1<E>]) -> bool { c.iter().all(|x| x.0.check().is_ok() && x.1.check().is_ok()) }
fn v2<E: Wire>(c: &[Com2<E>]) -> bool { c.iter().all(|x| x.0.check().is_ok() && x.1.check().is_ok()) }

fn cnt<E: Wire>(g: &mut Gen<E>) -> usize {
    match g.n(12) { 0 | 1 => 0, 2..=5 => 1, 6..=8 => 2, 9 | 10 => 3, _ => if g.n(6) == 0 { 16 + g.n(60) } else { 4 + g.n(4) } }
}
fn gmat<E: Wire>(g: &mut Gen<E>) -> Vec<Vec<F<E>>> {
    let n = cnt(g);
    let m = g.n(4);
    let rag = g.p(15);
    (0..n).map(|_| { let m = if rag { g.n(4) } else { m }; g.fs(m) }).collect()
}
impl<E: Wire> Art<E> for EquType {
    const NAME: &'static str = "Tag";
    fn make(g: &mut Gen<E>) -> Self { g.ty().equ_type() }
    fn same(&self, o: &Self) -> bool { self == o }
    fn obj(&self) -> Option<Value> {
        Some(json!(match self { EquType::PairingProduct => 0, EquType::MultiScalarG1 => 1, EquType::MultiScalarG2 => 2, EquType::Quadratic => 3 }))
    }
    fn see(&self) -> Value { Art::<E>::obj(self).unwrap() }
    fn lay(&self, c: Compress) -> Option<(Vec<u8>, Vec<Slot>)> { mk::<E>(c, |l| l.put(K::Tag, self)) }
    fn valid(&self) -> bool { true }
}
impl<E: Wire> Art<E> for Com1<E> {
    const NAME: &'static str = "Com1";
    fn make(g: &mut Gen<E>) -> Self { c1::<E>(&g.pt()) }
    fn same(&self, o: &Self) -> bool { self == o }
    fn obj(&self) -> Option<Value> { Some(j1(&[*self])[0].clone()) }
    fn see(&self) -> Value { Art::<E>::obj(self).unwrap() }
    fn lay(&self, c: Compress) -> Option<(Vec<u8>, Vec<Slot>)> { mk::<E>(c, |l| { l.put(K::G1, &self.0); l.put(K::G1, &self.1) }) }
    fn valid(&self) -> bool { v1(&[*self]) }
}
impl<E: Wire> Art<E> for Com2<E> {
    const NAME: &'static str = "Com2";
    fn make(g: &mut Gen<E>) -> Self { c2::<E>(&g.pt()) }
    fn same(&self, o: &Self) -> bool { self == o }
    fn obj(&self) -> Option<Value> { Some(j2(&[*self])[0].clone()) }
    fn see(&self) -> Value { Art::<E>::obj(self).unwrap() }
    fn lay(&self, c: Compress) -> Option<(Vec<u8>, Vec<Slot>)> { mk::<E>(c, |l| { l.put(K::G2, &self.0); l.put(K::G2, &self.1) }) }
    fn valid(&self) -> bool { v2(&[*self]) }
}
impl<E: Wire> Art<E> for CRS<E> {
    const NAME: &'static str = "Key";
    fn make(g: &mut Gen<E>) -> Self {
        let mut k = g.anykey().real();
        if g.p(25) {
            // any content: other lengths, identity generators, an unrelated target generator
            let (a, b) = (cnt(g), cnt(g));
            k.u = c1s::<E>(&g.pts(a));
            k.v = c2s::<E>(&g.pts(b));
            k.g1_gen = E::g1(&g.f());
            k.g2_gen = E::g2(&g.f());
            k.gt_gen = E::gt(&g.f());
        }
        k
    }
    fn same(&self, o: &Self) -> bool { self.u == o.u && self.v == o.v && self.g1_gen == o.g1_gen && self.g2_gen == o.g2_gen && self.gt_gen == o.gt_gen }
    fn obj(&self) -> Option<Value> { Some(json!([j1(&self.u), j2(&self.v), E::w1(&self.g1_gen), E::w2(&self.g2_gen), E::wt(&self.gt_gen)])) }
    fn see(&self) -> Value { Art::<E>::obj(self).unwrap() }
    fn lay(&self, c: Compress) -> Option<(Vec<u8>, Vec<Slot>)> {
        mk::<E>(c, |l| { l.c1(&self.u); l.c2(&self.v); l.put(K::G1, &self.g1_gen); l.put(K::G2, &self.g2_gen); l.put(K::Gt, &self.gt_gen) })
    }
    fn valid(&self) -> bool { v1(&self.u) && v2(&self.v) && self.g1_gen.check().is_ok() && self.g2_gen.check().is_ok() && self.gt_gen.check().is_ok() }
}
impl<E: Wire> Art<E> for Commit1<E> {
    const NAME: &'static str = "Commit1";
    fn make(g: &mut Gen<E>) -> Self {
        let k = g.anykey().real();
        let (n, s) = (cnt(g), g.p(50));
        let seed = g.seed();
        let z = g.fs(n.max(1));
        let mut c = commit_x::<E, _>(s, &z, &k, &mut rng(seed));
        // put together from parts of both kinds, as different statements share one list
        for _ in 0..[0, 0, 0, 1, 2, 4][g.n(6)] {
            let (len, kind, seed) = (1 + g.n(3), g.p(50), g.seed());
            let z = g.fs(len);
            let mut d = commit_x::<E, _>(kind, &z, &k, &mut rng(seed));
            if g.p(40) {
                std::mem::swap(&mut c, &mut d);
            }
            c.append(&mut d);
        }
        if n == 0 {
            let mut d = c.clone();
            d.append(&mut c);
        } else if g.p(30) {
            let m = cnt(g);
            c.coms = c1s::<E>(&g.pts(m));
        }
        c
    }
    fn same(&self, o: &Self) -> bool { self == o }
    fn obj(&self) -> Option<Value> { recorded_x(self).map(|r| json!([j1(&self.coms), jm::<E>(&r)])) }
    fn see(&self) -> Value { Art::<E>::obj(self).unwrap_or_else(|| json!([j1(&self.coms), []])) }
    fn lay(&self, c: Compress) -> Option<(Vec<u8>, Vec<Slot>)> { let r = recorded_x(self)?; mk::<E>(c, |l| { l.c1(&self.coms); l.mat::<E>(&r) }) }
    fn valid(&self) -> bool { v1(&self.coms) }
}
impl<E: Wire> Art<E> for Commit2<E> {
    const NAME: &'static str = "Commit2";
    fn make(g: &mut Gen<E>) -> Self {
        let k = g.anykey().real();
        let (n, s) = (cnt(g), g.p(50));
        let seed = g.seed();
        let z = g.fs(n.max(1));
        let mut c = commit_y::<E, _>(s, &z, &k, &mut rng(seed));
        // put together from parts of both kinds, as different statements share one list
        for _ in 0..[0, 0, 0, 1, 2, 4][g.n(6)] {
            let (len, kind, seed) = (1 + g.n(3), g.p(50), g.seed());
            let z = g.fs(len);
            let mut d = commit_y::<E, _>(kind, &z, &k, &mut rng(seed));
            if g.p(40) {
                std::mem::swap(&mut c, &mut d);
            }
            c.append(&mut d);
        }
        if n == 0 {
            let mut d = c.clone();
            d.append(&mut c);
        } else if g.p(30) {
            let m = cnt(g);
            c.coms = c2s::<E>(&g.pts(m));
        }
        c
    }
    fn same(&self, o: &Self) -> bool { self == o }
    fn obj(&self) -> Option<Value> { recorded_y(self).map(|r| json!([j2(&self.coms), jm::<E>(&r)])) }
    fn see(&self) -> Value { Art::<E>::obj(self).unwrap_or_else(|| json!([j2(&self.coms), []])) }
    fn lay(&self, c: Compress) -> Option<(Vec<u8>, Vec<Slot>)> { let r = recorded_y(self)?; mk::<E>(c, |l| { l.c2(&self.coms); l.mat::<E>(&r) }) }
    fn valid(&self) -> bool { v2(&self.coms) }
}
impl<E: Wire> Art<E> for EquProof<E> {
    const NAME: &'static str = "Proof";
    fn make(g: &mut Gen<E>) -> Self {
        let ty = g.ty();
        let (x, y) = (g.fs(1), g.fs(1));
        let eq = g.eq_for(ty, &x, &y);
        let (k, seed) = (g.anykey(), g.seed());
        let mut p = eq.real().commit_and_prove(&x, &y, &k.real(), &mut rng(seed)).equ_proofs.remove(0);
        if g.p(30) {
            let (a, b) = (cnt(g), cnt(g));
            p.pi = c2s::<E>(&g.pts(a));
            p.theta = c1s::<E>(&g.pts(b));
            p.equ_type = g.ty().equ_type();
        }
        p
    }
    fn same(&self, o: &Self) -> bool { self == o }
    fn obj(&self) -> Option<Value> { recorded_p(self).map(|r| json!([j2(&self.pi), j1(&self.theta), Art::<E>::see(&self.equ_type), jm::<E>(&r)])) }
    fn see(&self) -> Value { Art::<E>::obj(self).unwrap_or_else(|| json!([j2(&self.pi), j1(&self.theta), Art::<E>::see(&self.equ_type), []])) }
    fn lay(&self, c: Compress) -> Option<(Vec<u8>, Vec<Slot>)> {
        let r = recorded_p(self)?;
        mk::<E>(c, |l| { l.c2(&self.pi); l.c1(&self.theta); l.put(K::Tag, &self.equ_type); l.mat::<E>(&r) })
    }
    fn valid(&self) -> bool { v2(&self.pi) && v1(&self.theta) }
}
macro_rules! eqn_art {
    (@jv G1, $v:expr) => { ja1::<E>($v) };
    (@jv G2, $v:expr) => { ja2::<E>($v) };
    (@jv Fr, $v:expr) => { jf::<E>($v) };
    (@jt Ppe, $v:expr) => { E::wt($v) };
    (@jt Ms1, $v:expr) => { E::w1($v) };
    (@jt Ms2, $v:expr) => { E::w2($v) };
    (@jt Quad, $v:expr) => { E::wf($v) };
    (@k Ppe) => { K::Gt };
    (@k Ms1) => { K::G1 };
    (@k Ms2) => { K::G2 };
    (@k Quad) => { K::Fr };
    ($t:ident, $n:literal, $ty:expr, $a:ident, $b:ident, $g:ident) => {
        impl<E: Wire> Art<E> for $t<E> {
            const NAME: &'static str = $n;
            fn make(g: &mut Gen<E>) -> Self {
                let (m, n) = (cnt(g), cnt(g));
                let e = AEq::<E> { ty: $ty, a: g.fs(n), b: g.fs(m), g: gmat(g), t: g.f() };
                match e.real() { Eqn::$g(q) => q, _ => unreachable!() }
            }
            fn same(&self, o: &Self) -> bool { self == o }
            fn obj(&self) -> Option<Value> { Some(Art::<E>::see(self)) }
            fn see(&self) -> Value { json!([eqn_art!(@jv $a, &self.a_consts), eqn_art!(@jv $b, &self.b_consts), jm::<E>(&self.gamma), eqn_art!(@jt $g, &self.target)]) }
            fn lay(&self, c: Compress) -> Option<(Vec<u8>, Vec<Slot>)> {
                mk::<E>(c, |l| {
                    l.len(self.a_consts.len());
                    for x in &self.a_consts { l.put(K::$a, x) }
                    l.len(self.b_consts.len());
                    for x in &self.b_consts { l.put(K::$b, x) }
                    l.mat::<E>(&self.gamma);
                    l.put(eqn_art!(@k $g), &self.target);
                })
            }
            fn valid(&self) -> bool { self.a_consts.iter().all(|x| x.check().is_ok()) && self.b_consts.iter().all(|x| x.check().is_ok()) && self.target.check().is_ok() }
        }
    };
}
eqn_art!(PPE, "PPE", Ty::Ppe, G1, G2, Ppe);
eqn_art!(MSMEG1, "MS1", Ty::Ms1, G1, Fr, Ms1);
eqn_art!(MSMEG2, "MS2", Ty::Ms2, Fr, G2, Ms2);
eqn_art!(QuadEqu, "QUAD", Ty::Quad, Fr, Fr, Quad);

macro_rules! each_art {
    ($E:ident, $k:expr, $f:ident, $($a:expr),*) => {
        match $k % 11 {
            0 => $f::<$E, EquType>($($a),*),
            1 => $f::<$E, Com1<$E>>($($a),*),
            2 => $f::<$E, Com2<$E>>($($a),*),
            3 => $f::<$E, CRS<$E>>($($a),*),
            4 => $f::<$E, Commit1<$E>>($($a),*),
            5 => $f::<$E, Commit2<$E>>($($a),*),
            6 => $f::<$E, EquProof<$E>>($($a),*),
            7 => $f::<$E, PPE<$E>>($($a),*),
            8 => $f::<$E, MSMEG1<$E>>($($a),*),
            9 => $f::<$E, MSMEG2<$E>>($($a),*),
            _ => $f::<$E, QuadEqu<$E>>($($a),*),
        }
    };
}

fn mode(c: bool) -> Compress { if c { Compress::Yes } else { Compress::No } }
fn bytes_j<E: Wire>(b: &[u8]) -> Value {
    if E::TOY { json!(b) } else { json!([hex_bytes(b)]) }
}
/// hands out a few bytes at a time
struct Slow<'a> { s: &'a [u8], used: usize, step: usize }
impl<'a> Read for Slow<'a> {
    fn read(&mut self, buf: &mut [u8]) -> ark_std::io::Result<usize> {
        let n = buf.len().min(self.step).min(self.s.len() - self.used);
        buf[..n].copy_from_slice(&self.s[self.used..self.used + n]);
        self.used += n;
        Ok(n)
    }
}
/// takes a few bytes at a time, and no more than `room` in total
struct Drip { b: Vec<u8>, step: usize, room: usize }
impl ark_serialize::Write for Drip {
    fn write(&mut self, buf: &[u8]) -> ark_std::io::Result<usize> {
        let n = buf.len().min(self.step).min(self.room - self.b.len());
        self.b.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> ark_std::io::Result<()> { Ok(()) }
}
fn drip<T: CanonicalSerialize>(x: &T, c: bool, step: usize, room: usize) -> (&'static str, Vec<u8>) {
    let mut d = Drip { b: vec![], step, room };
    let r = guard(|| x.serialize_with_mode(&mut d, mode(c)).map_err(|e| format!("{e:?}")));
    (match r { Ok(Ok(())) => "ok", Ok(Err(_)) => "err", Err(_) => "panic" }, d.b)
}
fn enc<T: CanonicalSerialize>(x: &T, c: bool) -> (String, Vec<u8>) {
    let mut b = vec![];
    match guard(|| x.serialize_with_mode(&mut b, mode(c)).map_err(|e| format!("{e:?}"))) {
        Ok(Ok(())) => ("ok".into(), b),
        Ok(Err(_)) => ("err".into(), b),
        Err(_) => ("panic".into(), b),
    }
}
/// (status, object, bytes used)
fn dec<T: CanonicalDeserialize>(b: &[u8], c: bool, check: bool, step: usize) -> (&'static str, Option<T>, usize) {
    let mut s = Slow { s: b, used: 0, step };
    let r = guard(|| T::deserialize_with_mode(&mut s, mode(c), if check { Validate::Yes } else { Validate::No }).map_err(|_| ()));
    let u = s.used;
    match r {
        Ok(Ok(x)) => ("ok", Some(x), u),
        Ok(Err(())) => ("err", None, u),
        Err(_) => ("panic", None, u),
    }
}

fn one_enc<E: Wire, T: Art<E>>(c: &mut Ctx, g: &mut Gen<E>) {
    let x = T::make(g);
    enc_event::<E, T>(c, g, &x);
}
fn enc_event<E: Wire, T: Art<E>>(c: &mut Ctx, g: &mut Gen<E>, x: &T) {
    for comp in [true, false] {
        let (sst, b) = enc(x, comp);
        let size = guard(|| x.serialized_size(mode(comp))).map(|n| n as i64).unwrap_or(-1);
        // into a buffer of exactly the announced size
        let mut buf = vec![0u8; size.max(0) as usize];
        let fits = matches!(guard(|| { let mut w = &mut buf[..]; x.serialize_with_mode(&mut w, mode(comp)).is_ok() && w.is_empty() }), Ok(true)) && buf == b;
        // a writer that takes its bytes in small pieces gets the same; one without room must not be told "ok"
        let (ds, db) = drip(x, comp, 1 + g.n(5), usize::MAX);
        let dripped = ds == "ok" && db == b;
        let cut = if b.is_empty() { "err" } else { let room = if g.p(50) { b.len() - 1 } else { g.n(b.len()) }; drip(x, comp, 1 << 20, room).0 };
        let mut long = b.clone();
        for _ in 0..g.n(4) { long.push(g.n(256) as u8) }
        let mut outs = vec![];
        for (check, step, src) in [(true, 1 << 20, &b), (true, 1 + g.n(3), &long), (false, 1 << 20, &long)] {
            let (st, o, used) = dec::<T>(src, comp, check, step);
            let (re, eq, obj) = match &o {
                Some(o) => (enc(o, comp).1, x.same(o), Art::<E>::see(o)),
                None => (vec![], false, Value::Null),
            };
            outs.push(json!({"st": st, "used": used, "re": bytes_j::<E>(&re), "eq": eq, "obj": if E::TOY {obj} else {json!(0)}}));
        }
        let o = Art::<E>::obj(x);
        c.emit(json!({"op": "enc", "ty": T::NAME, "comp": comp, "full": o.is_some(), "obj": if E::TOY {Art::<E>::see(x)} else {json!(0)},
            "sst": sst, "len": b.len(), "bytes": bytes_j::<E>(&b), "size": size, "fits": fits, "drip": dripped, "cut": cut, "outs": outs}));
    }
}
/// several artefacts in one stream
struct Item { name: &'static str, comp: bool, len: usize, dec: Box<dyn Fn(&mut Slow) -> (&'static str, bool)> }
fn item<E: Wire, T: Art<E> + 'static>(g: &mut Gen<E>, comp: bool, out: &mut Vec<u8>) -> Item {
    let x = T::make(g);
    let (_, b) = enc(&x, comp);
    out.extend_from_slice(&b);
    let len = x.serialized_size(mode(comp));
    Item { name: T::NAME, comp, len, dec: Box::new(move |s| match guard(|| T::deserialize_with_mode(s, mode(comp), Validate::Yes)) {
        Ok(Ok(o)) => ("ok", x.same(&o)),
        Ok(Err(_)) => ("err", false),
        Err(_) => ("panic", false),
    }) }
}
fn stream<E: Wire>(c: &mut Ctx, g: &mut Gen<E>) {
    let mut all = vec![];
    let k = 1 + g.n(6);
    let mut items: Vec<Item> = vec![];
    for _ in 0..k {
        let a = g.n(11);
        let comp = g.p(50);
        let it: Item = each_art!(E, a, item, g, comp, &mut all);
        items.push(it);
    }
    for _ in 0..g.n(5) { all.push(g.n(256) as u8) }
    let mut s = Slow { s: &all, used: 0, step: if g.p(50) { 1 } else { 1 << 20 } };
    c.emit(json!({"op": "open", "total": all.len(), "items": items.iter().map(|i| json!([i.name, i.comp, i.len])).collect::<Vec<_>>()}));
    for i in &items {
        let (st, eq) = (i.dec)(&mut s);
        c.emit(json!({"op": "read", "st": st, "eq": eq, "at": s.used}));
        if st != "ok" { break }
    }
}
/// decoded artefacts behave as the originals
fn usedec<E: Wire>(c: &mut Ctx, g: &mut Gen<E>) {
    fn rt<T: CanonicalSerialize + CanonicalDeserialize + Clone>(x: &T, comp: bool) -> Option<T> {
        let (st, b) = enc(x, comp);
        if st != "ok" { return None }
        dec::<T>(&b, comp, true, 1 << 20).1
    }
    let ty = g.ty();
    let (m, n) = (1 + g.n(3), 1 + g.n(3));
    let (x, y) = (g.fs(m), g.fs(n));
    let aeq = g.eq_for(ty, &x, &y);
    let (key, comp, s1, s2) = (g.anykey(), g.p(50), g.seed(), g.seed());
    let crs = key.real();
    let eq = aeq.real();
    let honest = g.p(60);
    let d = F::<E>::ONE;
    let r = guard(|| {
        let mut r = rng(s1);
        let xc = commit_x::<E, _>(ty.xs(), &x, &crs, &mut r);
        let yc = commit_y::<E, _>(ty.ys(), &y, &crs, &mut r);
        let mut p = eq.prove(&x, &y, &xc, &yc, &crs, &mut rng(s2));
        if !honest { p.theta[0] = p.theta[0] + c1::<E>(&[d, F::<E>::ZERO]) }
        (xc, yc, p)
    });
    let Ok((xc, yc, p)) = r else { return };
    let v0 = eq.verdict(&bundle(xc.clone(), yc.clone(), vec![p.clone()]), &crs);
    let (Some(crs2), Some(xc2), Some(yc2), Some(p2)) = (rt(&crs, comp), rt(&xc, comp), rt(&yc, comp), rt(&p, comp)) else {
        c.emit(json!({"op": "use", "ty": ty.s(), "comp": comp, "lost": true}));
        return;
    };
    let Ok(eq2) = crate::scen_hist::reenc_eqn(&eq, comp) else {
        c.emit(json!({"op": "use", "ty": ty.s(), "comp": comp, "lost": true}));
        return;
    };
    let v1 = eq2.verdict(&bundle(xc2.clone(), yc2.clone(), vec![p2]), &crs2);
    let dg = |p: Result<EquProof<E>, String>| p.map(|p| json!([j2(&p.pi), j1(&p.theta)])).unwrap_or(json!("refused"));
    let q0 = dg(guard(|| eq.prove(&x, &y, &xc, &yc, &crs, &mut rng(s2 ^ 1))));
    let q1 = dg(guard(|| eq2.prove(&x, &y, &xc2, &yc2, &crs2, &mut rng(s2 ^ 1))));
    let (c0, d0) = (guard(|| commit_x::<E, _>(ty.xs(), &x, &crs, &mut rng(s1)).coms), guard(|| commit_y::<E, _>(ty.ys(), &y, &crs, &mut rng(s1)).coms));
    let (c1, d1) = (guard(|| commit_x::<E, _>(ty.xs(), &x, &crs2, &mut rng(s1)).coms), guard(|| commit_y::<E, _>(ty.ys(), &y, &crs2, &mut rng(s1)).coms));
    let app = guard(|| {
        let (mut a, mut b) = (xc.clone(), xc.clone());
        a.append(&mut b);
        let (mut a2, mut b2) = (xc2.clone(), xc2.clone());
        a2.append(&mut b2);
        a == a2 && b == b2
    });
    c.emit(json!({"op": "use", "ty": ty.s(), "comp": comp, "lost": false, "orig": [v0, q0, j1(&c0.unwrap_or_default()), j2(&d0.unwrap_or_default())],
        "dec": [v1, q1, j1(&c1.unwrap_or_default()), j2(&d1.unwrap_or_default())], "append": matches!(app, Ok(true))}));
}

pub fn wire<E: Wire>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    for i in 0..c.n {
        match i % 16 {
            k @ 0..=10 => each_art!(E, k, one_enc, c, &mut g),
            11..=13 => stream::<E>(c, &mut g),
            _ => usedec::<E>(c, &mut g),
        }
    }
    // one large artefact of each kind
    let big = c.arg("big", 0) as usize;
    if big > 0 {
        let k = g.anykey().real();
        let z = g.fs(big);
        let x = commit_x::<E, _>(g.p(50), &z, &k, &mut rng(1));
        let y = commit_y::<E, _>(g.p(50), &z, &k, &mut rng(2));
        enc_event::<E, Commit1<E>>(c, &mut g, &x);
        enc_event::<E, Commit2<E>>(c, &mut g, &y);
        let e = AEq::<E> { ty: Ty::Ppe, a: g.fs(big), b: g.fs(big), g: g.mat(big / 2, 3), t: g.f() };
        if let Eqn::Ppe(q) = e.real() { enc_event::<E, PPE<E>>(c, &mut g, &q) }
    }
}

/// what a decoder that follows the layout meets first: nothing special, a list length that it
/// could only try to allocate (the process would end), or one that no allocation can satisfy
#[derive(Clone, Copy, PartialEq)]
enum Risk { None, Alloc, Huge }
enum D { F, A, B, T, G, V(Box<D>), R(Vec<D>) }
fn descr(name: &str) -> D {
    let v = |d| D::V(Box::new(d));
    let (c1, c2) = (|| D::R(vec![D::A, D::A]), || D::R(vec![D::B, D::B]));
    let mat = || v(v(D::F));
    match name {
        "Tag" => D::G,
        "Com1" => c1(),
        "Com2" => c2(),
        "Key" => D::R(vec![v(c1()), v(c2()), D::A, D::B, D::T]),
        "Commit1" => D::R(vec![v(c1()), mat()]),
        "Commit2" => D::R(vec![v(c2()), mat()]),
        "Proof" => D::R(vec![v(c2()), v(c1()), D::G, mat()]),
        "PPE" => D::R(vec![v(D::A), v(D::B), mat(), D::T]),
        "MS1" => D::R(vec![v(D::A), v(D::F), mat(), D::A]),
        "MS2" => D::R(vec![v(D::F), v(D::B), mat(), D::B]),
        _ => D::R(vec![v(D::F), v(D::F), mat(), D::F]),
    }
}
fn walk(d: &D, w: &[usize; 4], b: &[u8], at: &mut usize) -> Option<Risk> {
    let n = match d {
        D::F => w[0],
        D::A => w[1],
        D::B => w[2],
        D::T => w[3],
        D::G => 1,
        D::R(ds) => {
            for x in ds {
                if let Some(r) = walk(x, w, b, at) { return Some(r) }
            }
            return None;
        }
        D::V(x) => {
            if *at + 8 > b.len() { return Some(Risk::None) }
            let n = u64::from_le_bytes(b[*at..*at + 8].try_into().unwrap());
            *at += 8;
            if n >= 1 << 63 { return Some(Risk::Huge) }
            if n >= 1 << 16 { return Some(Risk::Alloc) }
            for _ in 0..n {
                if let Some(r) = walk(x, w, b, at) { return Some(r) }
            }
            return None;
        }
    };
    *at += n;
    if *at > b.len() { Some(Risk::None) } else { None }
}
fn risk<E: Wire>(name: &str, b: &[u8], comp: bool) -> Risk { risks::<E>(name, b, comp, 1) }
/// of so many items in a row
fn risks<E: Wire>(name: &str, b: &[u8], comp: bool, n: usize) -> Risk {
    let m = mode(comp);
    let w = [
        F::<E>::ONE.serialized_size(m),
        E::G1Affine::generator().serialized_size(m),
        E::G2Affine::generator().serialized_size(m),
        E::gt(&F::<E>::ONE).serialized_size(m),
    ];
    walk(&D::R((0..n).map(|_| descr(name)).collect()), &w, b, &mut 0).unwrap_or(Risk::None)
}
// ------------------------------------------------------------------------------------ C14
/// outcome of checked decoding: [] error, ["panic"], ["huge"] the same after a list length that no
/// memory can hold, ["skip"] not tried, [object, used, re-encoding]
fn out<E: Wire, T: Art<E>>(b: &[u8], comp: bool) -> Value {
    let risk = risk::<E>(T::NAME, b, comp);
    if risk == Risk::Alloc { return json!(["skip"]) }
    let (st, o, used) = dec::<T>(b, comp, true, 1 << 20);
    match (st, o) {
        ("ok", Some(o)) => json!([Art::<E>::see(&o), used, enc(&o, comp).1]),
        ("panic", _) => json!([if risk == Risk::Huge { "huge" } else { "panic" }]),
        _ => json!([]),
    }
}
/// the same by the other ways to checked decoding: without checks and then check(), or as part of a
/// list (which checks its items together).  ["differ", all outcomes] if they are not the same
fn outs<E: Wire, T: Art<E>>(x: &[u8], b: &[u8], comp: bool) -> Value {
    let a = out::<E, T>(b, comp);
    // (decoders that do not check on the way get to every length)
    if risk::<E>(T::NAME, b, comp) != Risk::None { return a }
    let two = match dec::<T>(b, comp, false, 1 << 20) {
        ("ok", Some(o), used) => match guard(|| o.check().is_ok()) {
            Ok(true) => json!([Art::<E>::see(&o), used, enc(&o, comp).1]),
            Ok(false) => json!([]),
            Err(_) => json!(["panic"]),
        },
        ("panic", ..) => json!(["panic"]),
        _ => json!([]),
    };
    let mut list = 2u64.to_le_bytes().to_vec();
    list.extend_from_slice(x);
    list.extend_from_slice(b);
    let last = match dec::<Vec<T>>(&list, comp, true, 1 << 20) {
        ("ok", Some(v), used) => json!([Art::<E>::see(&v[1]), used as i64 - 8 - x.len() as i64, enc(&v[1], comp).1]),
        ("panic", ..) => json!(["panic"]),
        _ => json!([]),
    };
    list.truncate(8);
    list.extend_from_slice(b);
    list.extend_from_slice(x);
    // (only bytes of the same length can stand in front without changing what follows)
    let even = x.len() == b.len() && risks::<E>(T::NAME, &list[8..], comp, 2) == Risk::None;
    let first = if !even { json!([]) } else { match dec::<Vec<T>>(&list, comp, true, 1 << 20) {
        ("ok", Some(v), _) => json!(["items", v.iter().map(|o| Art::<E>::see(o)).collect::<Vec<_>>()]),
        ("panic", ..) => json!(["panic"]),
        _ => json!([]),
    } };
    let plain = if !even { true } else if a == json!([]) { first == json!([]) } else { a.as_array().map_or(false, |a| first[0] == "items" && first[1][0] == a[0]) };
    if a == two && a == last && plain { a } else { json!(["differ", a, two, last, first]) }
}
fn sweep<E: Wire, T: Art<E>>(c: &mut Ctx, g: &mut Gen<E>) {
    let x = T::make(g);
    let comp = g.p(50);
    let (sst, b) = enc(&x, comp);
    if sst != "ok" { return }
    let slots = match x.lay(mode(comp)) { Some((lb, s)) if lb == b => s, _ => vec![] };
    let o = Art::<E>::obj(&x);
    c.emit(json!({"op": "ref", "ty": T::NAME, "comp": comp, "full": o.is_some(), "obj": Art::<E>::see(&x), "bytes": b}));
    // every strict prefix
    let cuts: Vec<Value> = (0..b.len()).map(|k| outs::<E, T>(&b, &b[..k], comp)).collect();
    c.emit(json!({"op": "trunc", "ty": T::NAME, "comp": comp, "bytes": b, "outs": cuts}));
    if slots.is_empty() { return }
    // every value of some bytes
    let elems: Vec<&Slot> = slots.iter().filter(|s| s.k != K::Len).collect();
    let mut at: Vec<usize> = vec![];
    for _ in 0..2 {
        if !elems.is_empty() {
            let s = elems[g.n(elems.len())];
            at.push(s.off + g.n(s.len));
        }
    }
    if let Some(s) = elems.last() { at.push(s.off + s.len - 1) }
    let lens: Vec<&Slot> = slots.iter().filter(|s| s.k == K::Len).collect();
    if !lens.is_empty() { at.push(lens[g.n(lens.len())].off + g.n(2)) }
    at.sort();
    at.dedup();
    for p in at {
        let outs: Vec<Value> = (0..256).map(|v| {
            let mut d = b.clone();
            d[p] = v as u8;
            // a few bytes behind, so that longer objects can be read too
            outs::<E, T>(&b, &d, comp)
        }).collect();
        c.emit(json!({"op": "sweep", "ty": T::NAME, "comp": comp, "bytes": b, "pos": p + 1, "outs": outs}));
    }
    // several parts replaced at once, bytes appended
    for _ in 0..6 {
        let mut d = b.clone();
        for _ in 0..1 + g.n(3) {
            let s = &slots[g.n(slots.len())];
            if s.k == K::Len {
                d[s.off] = match g.n(3) { 0 => g.n(5) as u8, 1 => d[s.off].wrapping_add(1), _ => d[s.off].wrapping_sub(1) };
            } else {
                for i in 0..s.len { if g.p(70) { d[s.off + i] = g.n(256) as u8 } }
            }
        }
        for _ in 0..g.n(6) { d.push(g.n(256) as u8) }
        c.emit(json!({"op": "dec", "ty": T::NAME, "comp": comp, "bytes": d, "outs": [outs::<E, T>(&b, &d, comp)]}));
    }
    // length fields that no input can satisfy
    for (i, s) in lens.iter().enumerate() {
        if g.p(30) {
            let mut d = b.clone();
            d[s.off + 1] = 0xff;
            c.emit(json!({"op": "dec", "ty": T::NAME, "comp": comp, "bytes": d, "outs": [outs::<E, T>(&b, &d, comp)]}));
        }
        if g.p(20) {
            let mut d = b.clone();
            for j in 0..8 { d[s.off + j] = 0xff }
            let _ = i;
            c.emit(json!({"op": "dec", "ty": T::NAME, "comp": comp, "bytes": d, "outs": [outs::<E, T>(&b, &d, comp)]}));
        }
    }
}
/// all strings of two bytes, as 256 sweeps
fn com_sweep<E: Wire>(c: &mut Ctx, lo: u64, hi: u64) {
    let zero = enc(&c1::<E>(&[F::<E>::ZERO, F::<E>::ZERO]), true).1;
    for a in lo..hi {
        let b = vec![a as u8, 0];
        let outs: Vec<Value> = (0..256).map(|v| outs::<E, Com1<E>>(&zero, &[a as u8, v as u8], true)).collect();
        c.emit(json!({"op": "sweep", "ty": "Com1", "comp": true, "bytes": b, "pos": 2, "outs": outs}));
    }
}
pub fn hostile<E: Wire>(c: &mut Ctx) {
    let mut g = Gen::<E>::of(c);
    if E::TOY {
        // a reference for every artefact and mode, so that the grammar is known from the start
        for k in 0..11 {
            for comp in [true, false] { each_art!(E, k, reference, c, &mut g, comp) }
        }
        let (lo, hi) = (c.arg("lo", 0), c.arg("hi", 0));
        com_sweep::<E>(c, lo, hi);
        for v in 0..256u64 {
            c.emit(json!({"op": "dec", "ty": "Tag", "comp": v % 2 == 0, "bytes": [v], "outs": [outs::<E, EquType>(&[0], &[v as u8], v % 2 == 0)]}));
        }
        for i in 0..c.n as usize { each_art!(E, i, sweep, c, &mut g) }
    } else {
        for i in 0..c.n as usize { each_art!(E, i, bigmut, c, &mut g) }
    }
}
fn reference<E: Wire, T: Art<E>>(c: &mut Ctx, g: &mut Gen<E>, comp: bool) {
    let x = T::make(g);
    let (_, b) = enc(&x, comp);
    let o = Art::<E>::obj(&x);
    c.emit(json!({"op": "ref", "ty": T::NAME, "comp": comp, "full": o.is_some(), "obj": Art::<E>::see(&x), "bytes": b}));
    // a first list longer than any memory
    if b.len() > 8 {
        let mut d = vec![0xff; 8];
        d.extend_from_slice(&b[8..]);
        c.emit(json!({"op": "dec", "ty": T::NAME, "comp": comp, "bytes": d, "outs": [outs::<E, T>(&b, &d, comp)]}));
    }
}
/// the large field: one invalid part in a valid encoding
fn bigmut<E: Wire, T: Art<E>>(c: &mut Ctx, g: &mut Gen<E>) {
    let x = T::make(g);
    for comp in [true, false] {
        let (sst, b) = enc(&x, comp);
        if sst != "ok" { continue }
        let slots = match x.lay(mode(comp)) { Some((lb, s)) if lb == b => s, _ => vec![] };
        let ev = |c: &mut Ctx, cat: &str, d: &[u8], note: Value| {
            let rk = risk::<E>(T::NAME, d, comp);
            if rk == Risk::Alloc { return }
            let (mut st, o, used) = dec::<T>(d, comp, true, 1 << 20);
            if st == "panic" && rk == Risk::Huge { st = "huge" }
            let (valid, re, eq) = match &o {
                Some(o) => (guard(|| o.valid()) == Ok(true), enc(o, comp).1, x.same(o)),
                None => (true, vec![], false),
            };
            // the other ways to the same check
            let mut alt = vec![];
            if rk == Risk::None {
                let two = match dec::<T>(d, comp, false, 1 << 20) {
                    ("ok", Some(o), _) => guard(|| o.check().is_ok()).map(|v| if v { Some(vec![o]) } else { None }),
                    ("panic", ..) => Err(String::new()),
                    _ => Ok(None),
                };
                let mut ways = vec![two];
                for first in [true, false] {
                    let mut list = 2u64.to_le_bytes().to_vec();
                    for p in if first { [d, &b[..]] } else { [&b[..], d] } { list.extend_from_slice(p) }
                    if first && (d.len() != b.len() || risks::<E>(T::NAME, &list[8..], comp, 2) != Risk::None) { continue }
                    ways.push(match dec::<Vec<T>>(&list, comp, true, 1 << 20) { ("ok", v, _) => Ok(v), ("panic", ..) => Err(String::new()), _ => Ok(None) });
                }
                for w in ways {
                    alt.push(match w {
                        Ok(Some(v)) => json!(["ok", v.iter().all(|o| guard(|| o.valid()) == Ok(true))]),
                        Ok(None) => json!(["err", true]),
                        Err(_) => json!(["panic", true]),
                    });
                }
            }
            c.emit(json!({"op": "big", "alt": alt, "ty": T::NAME, "comp": comp, "cat": cat, "st": st, "used": used, "len": d.len(), "valid": valid,
                "same": re.len() == used && re[..] == d[..used.min(d.len())], "eq": eq, "at": note}));
        };
        // truncations: all when short, otherwise around the boundaries and at random
        let cuts: Vec<usize> = if b.len() <= 40 { (0..b.len()).collect() } else {
            let mut v: Vec<usize> = slots.iter().take(8).map(|s| s.off).collect();
            v.push(b.len() - 1);
            for _ in 0..6 { v.push(g.n(b.len())) }
            v
        };
        for k in cuts { ev(c, "truncated", &b[..k], json!(k)) }
        let mut order: Vec<usize> = (0..slots.len()).collect();
        for i in (1..order.len()).rev() { order.swap(i, g.n(i + 1)) }
        let mut done = [0; 6];
        for i in order {
            let s = &slots[i];
            let cap = match s.k { K::Len => 3, K::Gt => 1, K::G2 => 2, _ => 3 };
            if done[s.k as usize] >= cap { continue }
            done[s.k as usize] += 1;
            let mut d = b.clone();
            match s.k {
                K::Tag => for v in [4u8, 5, 7, 8, 16, 128, 132, 255, 4 + g.n(252) as u8] {
                    d[s.off] = v;
                    ev(c, "tag", &d, json!([s.off, v]));
                },
                K::Fr => {
                    let q = F::<E>::MODULUS.to_bytes_le();
                    let cur = d[s.off..s.off + s.len].to_vec();
                    d[s.off..s.off + s.len].copy_from_slice(&q[..s.len]);
                    ev(c, "range", &d, json!(s.off));
                    d[s.off..s.off + s.len].copy_from_slice(&vec![0xff; s.len]);
                    ev(c, "range", &d, json!(s.off));
                    // the same scalar plus the modulus
                    let mut v = F::<E>::deserialize_uncompressed(&cur[..]).unwrap().into_bigint();
                    if !v.add_with_carry(&F::<E>::MODULUS) {
                        let w = v.to_bytes_le();
                        d[s.off..s.off + s.len].copy_from_slice(&w[..s.len]);
                        ev(c, "range", &d, json!(s.off));
                    }
                }
                K::G1 | K::G2 | K::Gt => {
                    let bad = match s.k { K::G1 => E::bad1(g), K::G2 => E::bad2(g), _ => E::badt(g) };
                    for (cat, cm, by) in bad {
                        if cm == comp && by.len() == s.len {
                            d[s.off..s.off + s.len].copy_from_slice(&by);
                            ev(c, cat, &d, json!(s.off));
                        }
                    }
                }
                K::Len => {
                    d[s.off + 1] = 0x7f;
                    ev(c, "truncated", &d, json!([s.off, "long"]));
                    let mut d = b.clone();
                    for j in 0..8 { d[s.off + j] = 0xff }
                    ev(c, "huge", &d, json!(s.off));
                }
            }
        }
        // random single byte changes outside the lengths
        let elems: Vec<&Slot> = slots.iter().filter(|s| s.k != K::Len).collect();
        for _ in 0..6 {
            if elems.is_empty() { break }
            let s = elems[g.n(elems.len())];
            let mut d = b.clone();
            let p = s.off + g.n(s.len);
            d[p] ^= 1 << g.n(8);
            ev(c, "any", &d, json!(p));
        }
        ev(c, "valid", &b, json!(0));
    }
}
