//! A bilinear group of 255-bit prime order with *visible discrete logarithms*.
//!
//! Both source groups are the non-singular points of the cuspidal cubic `y^2 = x^3` over the scalar
//! field of BLS12-381: `(x, y) -> x / y` is an isomorphism to the additive group of that field, and
//! the group law is the ordinary short-Weierstrass one, so that all the arithmetic is arkworks' own.
//! The target group is `{1 + k eps}` in the dual numbers (a quadratic extension with non-residue 0),
//! and `e(P, Q) = 1 + dlog(P) dlog(Q) eps`.  Nothing here is secure; everything can be seen.
use crate::inst::Inst;
use ark_bls12_381::Fr;
use ark_ec::pairing::{MillerLoopOutput, Pairing, PairingOutput};
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{CurveConfig, CurveGroup};
use ark_ff::{Field, Fp2, Fp2Config, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid, Validate, Write};
use ark_std::{One, Zero};
use serde_json::{json, Value};

macro_rules! cusp {
    ($name:ident, $prep:ident, $x:literal, $y:literal) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        pub struct $name;
        impl CurveConfig for $name {
            type BaseField = Fr;
            type ScalarField = Fr;
            const COFACTOR: &'static [u64] = &[1];
            const COFACTOR_INV: Fr = ark_ff::MontFp!("1");
        }
        impl SWCurveConfig for $name {
            const COEFF_A: Fr = ark_ff::MontFp!("0");
            const COEFF_B: Fr = ark_ff::MontFp!("0");
            const GENERATOR: Affine<Self> = Affine::new_unchecked(ark_ff::MontFp!($x), ark_ff::MontFp!($y));
        }
        #[derive(Copy, Clone, Debug)]
        pub struct $prep(pub Affine<$name>);
        impl Default for $prep {
            fn default() -> Self {
                Self(Affine::identity())
            }
        }
        impl Valid for $prep {
            fn check(&self) -> Result<(), SerializationError> {
                self.0.check()
            }
        }
        impl CanonicalSerialize for $prep {
            fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
                self.0.serialize_with_mode(w, c)
            }
            fn serialized_size(&self, c: Compress) -> usize {
                self.0.serialized_size(c)
            }
        }
        impl CanonicalDeserialize for $prep {
            fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
                Ok(Self(Affine::deserialize_with_mode(r, c, v)?))
            }
        }
        impl From<Affine<$name>> for $prep {
            fn from(p: Affine<$name>) -> Self {
                Self(p)
            }
        }
        impl<'a> From<&'a Affine<$name>> for $prep {
            fn from(p: &'a Affine<$name>) -> Self {
                Self(*p)
            }
        }
        impl From<Projective<$name>> for $prep {
            fn from(p: Projective<$name>) -> Self {
                Self(p.into_affine())
            }
        }
        impl<'a> From<&'a Projective<$name>> for $prep {
            fn from(p: &'a Projective<$name>) -> Self {
                Self(p.into_affine())
            }
        }
    };
}
// t = x / y is 1 for the first generator, 1/2 for the second: (t^-2, t^-3)
cusp!(C1, Prep1, "1", "1");
cusp!(C2, Prep2, "4", "8");

pub struct Dual;
impl Fp2Config for Dual {
    type Fp = Fr;
    const NONRESIDUE: Fr = ark_ff::MontFp!("0");
    const FROBENIUS_COEFF_FP2_C1: &'static [Fr] = &[ark_ff::MontFp!("1"), ark_ff::MontFp!("0")];
}

/// x / y relative to the generator's
fn dlog<C: SWCurveConfig<BaseField = Fr, ScalarField = Fr>>(p: &Affine<C>) -> Option<Fr> {
    if p.infinity {
        return Some(Fr::zero());
    }
    if !p.is_on_curve() || p.y.is_zero() {
        return None;
    }
    let g = C::GENERATOR;
    Some(p.x * g.y * (p.y * g.x).inverse().unwrap())
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Clear;
impl Pairing for Clear {
    type BaseField = Fr;
    type ScalarField = Fr;
    type G1 = Projective<C1>;
    type G1Affine = Affine<C1>;
    type G1Prepared = Prep1;
    type G2 = Projective<C2>;
    type G2Affine = Affine<C2>;
    type G2Prepared = Prep2;
    type TargetField = Fp2<Dual>;
    fn multi_miller_loop(
        a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>,
        b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>,
    ) -> MillerLoopOutput<Self> {
        let a: Vec<_> = a.into_iter().map(|x| x.into()).collect();
        let b: Vec<_> = b.into_iter().map(|x| x.into()).collect();
        assert_eq!(a.len(), b.len());
        let k = a.iter().zip(&b).map(|(x, y)| dlog(&x.0).expect("point of G1") * dlog(&y.0).expect("point of G2")).sum();
        MillerLoopOutput(Fp2::new(Fr::one(), k))
    }
    fn final_exponentiation(mlo: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        if mlo.0.c0.is_zero() {
            return None;
        }
        // into the subgroup of the elements 1 + k eps
        Some(PairingOutput(Fp2::new(Fr::one(), mlo.0.c1 * mlo.0.c0.inverse().unwrap())))
    }
}

fn say(k: Option<Fr>) -> Value {
    match k {
        Some(k) => json!(k.into_bigint().to_string()),
        None => json!("-1"),
    }
}
impl Inst for Clear {
    const TOY: bool = true;
    fn name() -> String {
        "clear".to_string()
    }
    fn order() -> Value {
        json!(Fr::MODULUS.to_string())
    }
    fn small_order() -> u64 {
        0
    }
    fn fr_j(x: &Fr) -> Value {
        say(Some(*x))
    }
    fn j_fr(v: &Value) -> Fr {
        use std::str::FromStr;
        Fr::from_str(v.as_str().expect("decimal scalar")).unwrap()
    }
    fn g1_j(x: &Self::G1Affine) -> Value {
        say(dlog(x))
    }
    fn g2_j(x: &Self::G2Affine) -> Value {
        say(dlog(x))
    }
    fn gt_j(x: &PairingOutput<Self>) -> Value {
        say((x.0.c0.is_one()).then_some(x.0.c1))
    }
    fn gt(e: &Fr) -> PairingOutput<Self> {
        PairingOutput(Fp2::new(Fr::one(), *e))
    }
}
