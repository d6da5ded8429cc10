-------------------------------- MODULE GF --------------------------------
(***************************************************************************)
(* Prime field arithmetic on decimal strings.  The operators with suffix P *)
(* are overridden by GF.java (java.math.BigInteger); their TLA+ bodies     *)
(* fail deliberately, so that a missing override is never silent.          *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC
CONSTANT P

NoOverride == Assert(FALSE, "GF.class override not on the class path")
FAddP(p, a, b) == NoOverride
FMulP(p, a, b) == NoOverride
FNegP(p, a) == NoOverride
FInvP(p, a) == NoOverride
\* the k-th 16-bit limb (1: least significant) as an integer
FLimb(a, k) == NoOverride

FZero == "0"
FOne == "1"
FAdd(a, b) == FAddP(P, a, b)
FMul(a, b) == FMulP(P, a, b)
FNeg(a) == FNegP(P, a)
FSub(a, b) == FAddP(P, a, FNegP(P, b))
FInv(a) == FInvP(P, a)
\* random elements; the argument keeps TLC from evaluating them only once
RDig(z) == ToString(RandomElement((1000000000 + z)..2000000000))
FRnd(z) == FAdd("0", RDig(z) \o RDig(z) \o RDig(z) \o RDig(z) \o RDig(z) \o RDig(z) \o RDig(z) \o RDig(z) \o RDig(z))
FRndNZ(z) == FRnd(z)
\* enumerating the field makes no sense here
GFSet == NoOverride
=============================================================================
