//! Toy bilinear groups of small prime order `r`, with *visible discrete logarithms*.
//!
//! The library under test is generic over `ark_ec::pairing::Pairing`.  Each instance below is a
//! real arkworks short-Weierstrass curve pair of prime order `r` (so all group arithmetic is the
//! arkworks code the library also runs on BLS12-381) with a target group inside `F_{q^2}`, and a
//! pairing defined by table lookup: `e(aG1, bG2) = h^(ab)`.  Because `r` is small every group
//! element the library produces can be projected to the exponent the TLA+ specification talks
//! about.
use ark_ec::pairing::{MillerLoopOutput, Pairing, PairingOutput};
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveConfig, CurveGroup};
use ark_ff::{
    AdditiveGroup, BigInteger, Field, Fp2, Fp2Config, Fp64, MontBackend, MontConfig, PrimeField,
};
use ark_serialize::{
    CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid, Validate,
    Write,
};
use ark_std::{One, Zero};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::OnceLock;

pub fn small<F: PrimeField>(f: &F) -> u64 {
    let b = f.into_bigint();
    let l = b.as_ref();
    debug_assert!(l[1..].iter().all(|x| *x == 0));
    l[0]
}

/// A gate in front of the toy curves' scalar multiplications: makes the entries of a matrix product
/// complete in a chosen order, as far as the scheduler of the code under test allows.
pub mod gate {
    use std::collections::HashMap;
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use std::sync::{Condvar, Mutex};
    use std::time::{Duration, Instant};
    pub struct Plan {
        /// (x coordinate of the base, scalar) of a multiplication -> position of its entry in the order
        pub cells: HashMap<(u64, u64), usize>,
        /// multiplications per entry
        pub need: usize,
        pub done: Vec<usize>,
        pub finished: Vec<usize>,
        pub open: bool,
        pub wait: Duration,
    }
    static ON: AtomicBool = AtomicBool::new(false);
    static PLAN: Mutex<Option<Plan>> = Mutex::new(None);
    static CV: Condvar = Condvar::new();
    pub fn on() -> bool {
        ON.load(SeqCst)
    }
    pub fn set(p: Plan) {
        *PLAN.lock().unwrap() = Some(p);
        ON.store(true, SeqCst);
    }
    /// the order in which the entries passed
    pub fn clear() -> Vec<usize> {
        ON.store(false, SeqCst);
        PLAN.lock().unwrap().take().map(|p| p.finished).unwrap_or_default()
    }
    pub fn pass(x: u64, s: u64) {
        let mut g = PLAN.lock().unwrap();
        let t = Instant::now();
        loop {
            let Some(p) = g.as_mut() else { return };
            let Some(&pos) = p.cells.get(&(x, s)) else { return };
            if !p.open && p.done[..pos].iter().any(|d| *d < p.need) {
                if t.elapsed() >= p.wait {
                    p.open = true;
                    CV.notify_all();
                } else {
                    let w = p.wait;
                    g = CV.wait_timeout(g, w).unwrap().0;
                    continue;
                }
            }
            p.done[pos] += 1;
            if p.done[pos] == p.need {
                p.finished.push(pos);
                CV.notify_all();
            }
            return;
        }
    }
}
fn gated<C: SWCurveConfig>(base: &Affine<C>, scalar: &[u64])
where
    C::BaseField: PrimeField,
{
    if gate::on() && !base.infinity {
        gate::pass(small(&base.x), scalar[0]);
    }
}
macro_rules! gates {
    () => {
        fn mul_projective(base: &Projective<Self>, scalar: &[u64]) -> Projective<Self> {
            if gate::on() {
                gated(&base.into_affine(), scalar);
            }
            ark_ec::scalar_mul::sw_double_and_add_projective(base, scalar)
        }
        fn mul_affine(base: &Affine<Self>, scalar: &[u64]) -> Projective<Self> {
            gated(base, scalar);
            ark_ec::scalar_mul::sw_double_and_add_affine(base, scalar)
        }
    };
}

/// Discrete-logarithm table of a small curve: indexed by x coordinate.
pub struct DlogTable {
    by_x: Vec<(u64, u64)>, // (y, k) with (x, y) = kG ; y = u64::MAX if unused
    order: u64,
    pub points: Vec<(u64, u64)>, // affine coordinates of kG (index k, 0 unused)
}

impl DlogTable {
    pub fn build<C: SWCurveConfig>() -> Self
    where
        C::BaseField: PrimeField,
    {
        let q = small_char::<C::BaseField>();
        let r = small_char::<C::ScalarField>();
        let mut by_x = vec![(u64::MAX, 0); q as usize];
        let mut points = vec![(0, 0)];
        let g: Projective<C> = C::GENERATOR.into_group();
        let mut acc = Vec::with_capacity(r as usize);
        let mut p = g;
        for _ in 1..r {
            acc.push(p);
            p += C::GENERATOR;
        }
        assert!(p.is_zero(), "generator order");
        for (i, a) in Projective::<C>::normalize_batch(&acc).iter().enumerate() {
            let (x, y) = (small(&a.x), small(&a.y));
            points.push((x, y));
            if by_x[x as usize].0 == u64::MAX {
                by_x[x as usize] = (y, i as u64 + 1);
            }
        }
        DlogTable {
            by_x,
            order: r,
            points,
        }
    }
    pub fn dlog<C: SWCurveConfig>(&self, p: &Affine<C>) -> Option<u64>
    where
        C::BaseField: PrimeField,
    {
        if p.infinity {
            return Some(0);
        }
        if !p.is_on_curve() {
            return None;
        }
        let (y, k) = *self.by_x.get(small(&p.x) as usize)?;
        if y == u64::MAX {
            None
        } else if y == small(&p.y) {
            Some(k)
        } else {
            Some(self.order - k)
        }
    }
}

pub fn small_char<F: PrimeField>() -> u64 {
    let m = F::MODULUS;
    let l = m.as_ref();
    l[0]
}

/// Everything a toy instance has to provide.
pub trait ToyCfg: 'static + Copy + Clone + Debug + Send + Sync + PartialEq + Eq {
    type Fr: PrimeField;
    type F1: PrimeField;
    type F2: PrimeField;
    type Ft: PrimeField;
    type C1: SWCurveConfig<BaseField = Self::F1, ScalarField = Self::Fr>;
    type C2: SWCurveConfig<BaseField = Self::F2, ScalarField = Self::Fr>;
    type Ct: Fp2Config<Fp = Self::Ft>;
    const NAME: &'static str;
    fn tables() -> &'static ToyTables<Self>;
}

pub struct ToyTables<T: ToyCfg> {
    pub t1: DlogTable,
    pub t2: DlogTable,
    /// pre-image (before final exponentiation) of h^k
    pub miller: Vec<Fp2<T::Ct>>,
    pub gt: std::collections::HashMap<(u64, u64), u64>,
    pub gt_elems: Vec<Fp2<T::Ct>>,
    pub cof: Vec<u64>,
}

impl<T: ToyCfg> ToyTables<T> {
    pub fn build() -> Self {
        let r = small_char::<T::Fr>();
        let q = small_char::<T::Ft>();
        let e = (q as u128 * q as u128 - 1) / r as u128;
        let cof = vec![e as u64, (e >> 64) as u64];
        // pick a field element whose cofactor power has order r
        let mut k = 1u64;
        let g0 = loop {
            let c = Fp2::<T::Ct>::new(T::Ft::from(k), T::Ft::one());
            if !c.pow(&cof).is_one() {
                break c;
            }
            k += 1;
        };
        let h = g0.pow(&cof);
        let mut miller = vec![];
        let mut gt = std::collections::HashMap::new();
        let mut gt_elems = vec![];
        let (mut a, mut b) = (Fp2::<T::Ct>::one(), Fp2::<T::Ct>::one());
        for i in 0..r {
            miller.push(a);
            gt.insert((small(&b.c0), small(&b.c1)), i);
            gt_elems.push(b);
            a *= g0;
            b *= h;
        }
        assert!(b.is_one());
        ToyTables {
            t1: DlogTable::build::<T::C1>(),
            t2: DlogTable::build::<T::C2>(),
            miller,
            gt,
            gt_elems,
            cof,
        }
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Toy<T: ToyCfg>(PhantomData<T>);

macro_rules! prepared {
    ($name:ident, $c:ident) => {
        pub struct $name<T: ToyCfg>(pub Affine<T::$c>);
        impl<T: ToyCfg> Clone for $name<T> {
            fn clone(&self) -> Self {
                *self
            }
        }
        impl<T: ToyCfg> Copy for $name<T> {}
        impl<T: ToyCfg> Debug for $name<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<T: ToyCfg> Default for $name<T> {
            fn default() -> Self {
                Self(Affine::identity())
            }
        }
        impl<T: ToyCfg> Valid for $name<T> {
            fn check(&self) -> Result<(), SerializationError> {
                self.0.check()
            }
        }
        impl<T: ToyCfg> CanonicalSerialize for $name<T> {
            fn serialize_with_mode<W: Write>(
                &self,
                w: W,
                c: Compress,
            ) -> Result<(), SerializationError> {
                self.0.serialize_with_mode(w, c)
            }
            fn serialized_size(&self, c: Compress) -> usize {
                self.0.serialized_size(c)
            }
        }
        impl<T: ToyCfg> CanonicalDeserialize for $name<T> {
            fn deserialize_with_mode<R: Read>(
                r: R,
                c: Compress,
                v: Validate,
            ) -> Result<Self, SerializationError> {
                Ok(Self(Affine::deserialize_with_mode(r, c, v)?))
            }
        }
        impl<T: ToyCfg> From<Affine<T::$c>> for $name<T> {
            fn from(p: Affine<T::$c>) -> Self {
                Self(p)
            }
        }
        impl<'a, T: ToyCfg> From<&'a Affine<T::$c>> for $name<T> {
            fn from(p: &'a Affine<T::$c>) -> Self {
                Self(*p)
            }
        }
        impl<T: ToyCfg> From<Projective<T::$c>> for $name<T> {
            fn from(p: Projective<T::$c>) -> Self {
                Self(p.into_affine())
            }
        }
        impl<'a, T: ToyCfg> From<&'a Projective<T::$c>> for $name<T> {
            fn from(p: &'a Projective<T::$c>) -> Self {
                Self(p.into_affine())
            }
        }
    };
}
prepared!(Prep1, C1);
prepared!(Prep2, C2);

impl<T: ToyCfg> Pairing for Toy<T> {
    type BaseField = T::F1;
    type ScalarField = T::Fr;
    type G1 = Projective<T::C1>;
    type G1Affine = Affine<T::C1>;
    type G1Prepared = Prep1<T>;
    type G2 = Projective<T::C2>;
    type G2Affine = Affine<T::C2>;
    type G2Prepared = Prep2<T>;
    type TargetField = Fp2<T::Ct>;

    fn multi_miller_loop(
        a: impl IntoIterator<Item = impl Into<Self::G1Prepared>>,
        b: impl IntoIterator<Item = impl Into<Self::G2Prepared>>,
    ) -> MillerLoopOutput<Self> {
        let t = T::tables();
        let r = small_char::<T::Fr>();
        let mut acc = 0u64;
        // same truncation to the shorter list as the arkworks models (zip_eq panics there)
        let a: Vec<_> = a.into_iter().map(|x| x.into()).collect();
        let b: Vec<_> = b.into_iter().map(|x| x.into()).collect();
        assert_eq!(a.len(), b.len());
        for (x, y) in a.iter().zip(b.iter()) {
            let x = t.t1.dlog(&x.0).expect("point outside G1");
            let y = t.t2.dlog(&y.0).expect("point outside G2");
            acc = (acc + x * y) % r;
        }
        MillerLoopOutput(t.miller[acc as usize])
    }

    fn final_exponentiation(mlo: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        if mlo.0.is_zero() {
            return None;
        }
        Some(PairingOutput(mlo.0.pow(&T::tables().cof)))
    }
}

macro_rules! toy {
    ($name:ident, $modname:ident, $r:literal, $rg:literal,
     $q1:literal, $q1g:literal, $a1:literal, $b1:literal, $x1:literal, $y1:literal,
     $q2:literal, $q2g:literal, $a2:literal, $b2:literal, $x2:literal, $y2:literal,
     $qt:literal, $qtg:literal) => {
        toy!($name, $modname, $r, $rg, $q1, $q1g, $a1, $b1, $x1, $y1, $q2, $q2g, $a2, $b2, $x2, $y2, $qt, $qtg, 1, "1", 1, "1");
    };
    ($name:ident, $modname:ident, $r:literal, $rg:literal,
     $q1:literal, $q1g:literal, $a1:literal, $b1:literal, $x1:literal, $y1:literal,
     $q2:literal, $q2g:literal, $a2:literal, $b2:literal, $x2:literal, $y2:literal,
     $qt:literal, $qtg:literal, $h1:literal, $hi1:literal, $h2:literal, $hi2:literal) => {
        pub mod $modname {
            use super::*;
            #[derive(MontConfig)]
            #[modulus = $r]
            #[generator = $rg]
            pub struct FrCfg;
            pub type Fr = Fp64<MontBackend<FrCfg, 1>>;
            #[derive(MontConfig)]
            #[modulus = $q1]
            #[generator = $q1g]
            pub struct F1Cfg;
            pub type F1 = Fp64<MontBackend<F1Cfg, 1>>;
            #[derive(MontConfig)]
            #[modulus = $q2]
            #[generator = $q2g]
            pub struct F2Cfg;
            pub type F2 = Fp64<MontBackend<F2Cfg, 1>>;
            #[derive(MontConfig)]
            #[modulus = $qt]
            #[generator = $qtg]
            pub struct FtCfg;
            pub type Ft = Fp64<MontBackend<FtCfg, 1>>;

            #[derive(Copy, Clone, Debug, PartialEq, Eq)]
            pub struct C1;
            impl CurveConfig for C1 {
                type BaseField = F1;
                type ScalarField = Fr;
                const COFACTOR: &'static [u64] = &[$h1];
                const COFACTOR_INV: Fr = ark_ff::MontFp!($hi1);
            }
            impl SWCurveConfig for C1 {
                const COEFF_A: F1 = ark_ff::MontFp!($a1);
                const COEFF_B: F1 = ark_ff::MontFp!($b1);
                const GENERATOR: Affine<Self> =
                    Affine::new_unchecked(ark_ff::MontFp!($x1), ark_ff::MontFp!($y1));
                gates!();
            }
            #[derive(Copy, Clone, Debug, PartialEq, Eq)]
            pub struct C2;
            impl CurveConfig for C2 {
                type BaseField = F2;
                type ScalarField = Fr;
                const COFACTOR: &'static [u64] = &[$h2];
                const COFACTOR_INV: Fr = ark_ff::MontFp!($hi2);
            }
            impl SWCurveConfig for C2 {
                const COEFF_A: F2 = ark_ff::MontFp!($a2);
                const COEFF_B: F2 = ark_ff::MontFp!($b2);
                const GENERATOR: Affine<Self> =
                    Affine::new_unchecked(ark_ff::MontFp!($x2), ark_ff::MontFp!($y2));
                gates!();
            }
            pub struct CtCfg;
            impl Fp2Config for CtCfg {
                type Fp = Ft;
                const NONRESIDUE: Ft = ark_ff::MontFp!("-1");
                const FROBENIUS_COEFF_FP2_C1: &'static [Ft] =
                    &[Ft::ONE, ark_ff::MontFp!("-1")];
            }
            #[derive(Copy, Clone, Debug, PartialEq, Eq)]
            pub struct Cfg;
            impl ToyCfg for Cfg {
                type Fr = Fr;
                type F1 = F1;
                type F2 = F2;
                type Ft = Ft;
                type C1 = C1;
                type C2 = C2;
                type Ct = CtCfg;
                const NAME: &'static str = stringify!($modname);
                fn tables() -> &'static ToyTables<Self> {
                    static T: OnceLock<ToyTables<Cfg>> = OnceLock::new();
                    T.get_or_init(ToyTables::build)
                }
            }
        }
        pub type $name = Toy<$modname::Cfg>;
    };
}

toy!(Toy3, toy3, "3", "2", "5", "2", "4", "2", "3", "1", "5", "2", "4", "2", "3", "1", "11", "2");
toy!(Toy5, toy5, "5", "2", "7", "3", "4", "1", "0", "1", "7", "3", "4", "1", "0", "1", "19", "2");
toy!(Toy7, toy7, "7", "3", "5", "2", "2", "1", "0", "1", "11", "2", "7", "2", "7", "3", "83", "2");
toy!(Toy11, toy11, "11", "2", "13", "2", "7", "7", "2", "4", "17", "3", "9", "12", "2", "2", "43", "3");
toy!(Toy10007, toy10007, "10007", "5", "10079", "11", "5761", "2117", "1", "557", "9931", "10", "1632", "9406", "0", "3118", "520363", "2");

toy!(Toy7c, toy7c, "7", "3", "41", "6", "1", "15", "2", "36", "503", "5", "1", "22", "246", "411", "83", "2", 6, "6", 75, "3");

#[allow(dead_code)]
fn _unused(b: ark_ff::BigInt<1>) -> bool {
    b.is_zero() && Fp2::<toy3::CtCfg>::ZERO.is_zero()
}
