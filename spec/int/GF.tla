-------------------------------- MODULE GF --------------------------------
(***************************************************************************)
(* Prime field arithmetic, native TLC integers (P*P must fit in 31 bits).  *)
(* The module of the same name in ../big has the same interface over       *)
(* decimal strings with a Java BigInteger override, for 255-bit fields.    *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC
CONSTANT P

FZero == 0
FOne == 1
FAdd(a, b) == (a + b) % P
FMul(a, b) == (a * b) % P
FNeg(a) == (P - a) % P
FSub(a, b) == (a + P - b) % P
RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN 1
              ELSE IF n % 2 = 0 THEN FPow((a * a) % P, n \div 2)
              ELSE (a * FPow((a * a) % P, n \div 2)) % P
\* inverse by Fermat; FInv(0) = 0
FInv(a) == FPow(a, P - 2)
\* random elements; the argument keeps TLC from evaluating them only once
FRnd(z) == RandomElement(z..(P - 1))
FRndNZ(z) == RandomElement((z + 1)..(P - 1))
GFSet == 0 .. (P - 1)
=============================================================================
