//! Pairing instances and the projection between implementation values and specification values.
//!
//! A specification value is a discrete logarithm with respect to the standard generators of the
//! curve.  For the toy instances both directions are available (`*_j`: implementation to JSON,
//! `j_*`: JSON to implementation); for BLS12-381 only exponent-to-element is, and elements are
//! written as hexadecimal encodings that the specification treats as opaque strings.
use crate::toy::{small, small_char, Toy, ToyCfg};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{AdditiveGroup, PrimeField};
use ark_serialize::CanonicalSerialize;
use serde_json::{json, Value};
use std::ops::Mul;

pub trait Inst: Pairing {
    const TOY: bool;
    fn name() -> String;
    /// group order as JSON
    fn order() -> Value;
    fn fr_j(x: &Self::ScalarField) -> Value;
    fn j_fr(v: &Value) -> Self::ScalarField;
    fn g1_j(x: &Self::G1Affine) -> Value;
    fn g2_j(x: &Self::G2Affine) -> Value;
    fn gt_j(x: &PairingOutput<Self>) -> Value;
    fn g1(e: &Self::ScalarField) -> Self::G1Affine {
        if *e == Self::ScalarField::ZERO {
            return Self::G1Affine::zero();
        }
        Self::G1Affine::generator().mul(e).into_affine()
    }
    fn g2(e: &Self::ScalarField) -> Self::G2Affine {
        if *e == Self::ScalarField::ZERO {
            return Self::G2Affine::zero();
        }
        Self::G2Affine::generator().mul(e).into_affine()
    }
    fn gt(e: &Self::ScalarField) -> PairingOutput<Self>;
    /// order as u64 for toys, 0 otherwise
    fn small_order() -> u64;
    /// x coordinates, for the gate of the toy curves
    fn x1(_: &Self::G1Affine) -> u64 {
        0
    }
    fn x2(_: &Self::G2Affine) -> u64 {
        0
    }
}

fn hex<T: CanonicalSerialize>(x: &T) -> Value {
    let mut b = vec![];
    x.serialize_compressed(&mut b).unwrap();
    Value::String(hex_bytes(&b))
}
pub fn hex_bytes(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

impl<T: ToyCfg> Inst for Toy<T> {
    const TOY: bool = true;
    fn name() -> String {
        T::NAME.to_string()
    }
    fn order() -> Value {
        json!(small_char::<T::Fr>())
    }
    fn small_order() -> u64 {
        small_char::<T::Fr>()
    }
    fn x1(p: &Self::G1Affine) -> u64 {
        small(&p.x)
    }
    fn x2(p: &Self::G2Affine) -> u64 {
        small(&p.x)
    }
    fn fr_j(x: &T::Fr) -> Value {
        json!(small(x))
    }
    fn j_fr(v: &Value) -> T::Fr {
        T::Fr::from(v.as_u64().expect("small scalar"))
    }
    fn g1_j(x: &Self::G1Affine) -> Value {
        match T::tables().t1.dlog(x) {
            Some(k) => json!(k),
            None => json!(-1),
        }
    }
    fn g2_j(x: &Self::G2Affine) -> Value {
        match T::tables().t2.dlog(x) {
            Some(k) => json!(k),
            None => json!(-1),
        }
    }
    fn gt_j(x: &PairingOutput<Self>) -> Value {
        match T::tables().gt.get(&(small(&x.0.c0), small(&x.0.c1))) {
            Some(k) => json!(k),
            None => json!(-1),
        }
    }
    fn gt(e: &T::Fr) -> PairingOutput<Self> {
        PairingOutput(T::tables().gt_elems[small(e) as usize])
    }
}

impl Inst for ark_bls12_381::Bls12_381 {
    const TOY: bool = false;
    fn name() -> String {
        "bls".to_string()
    }
    fn order() -> Value {
        json!(ark_bls12_381::Fr::MODULUS.to_string())
    }
    fn small_order() -> u64 {
        0
    }
    fn fr_j(x: &Self::ScalarField) -> Value {
        json!(x.into_bigint().to_string())
    }
    fn j_fr(v: &Value) -> Self::ScalarField {
        use std::str::FromStr;
        ark_bls12_381::Fr::from_str(v.as_str().expect("decimal scalar")).unwrap()
    }
    fn g1_j(x: &Self::G1Affine) -> Value {
        hex(x)
    }
    fn g2_j(x: &Self::G2Affine) -> Value {
        hex(x)
    }
    fn gt_j(x: &PairingOutput<Self>) -> Value {
        hex(x)
    }
    fn gt(e: &Self::ScalarField) -> PairingOutput<Self> {
        use std::sync::OnceLock;
        static H: OnceLock<PairingOutput<ark_bls12_381::Bls12_381>> = OnceLock::new();
        let h = H.get_or_init(|| {
            Self::pairing(Self::G1Affine::generator(), Self::G2Affine::generator())
        });
        h.mul(*e)
    }
}
