-------------------------------- MODULE BG --------------------------------
(***************************************************************************)
(* The bilinear group and the Groth-Sahai commitment group (SXDH), at the  *)
(* level of discrete logarithms:                                           *)
(*   G1, G2, GT, Fr  are all represented by the field GF(P)                *)
(*     (x stands for x*G1, x*G2, x*e(G1,G2), x respectively);              *)
(*   B1, B2 element  <<c0, c1>>;   BT element <<t0, t1, t2, t3>> (2x2      *)
(*     matrix, row major);                                                 *)
(*   a matrix is a sequence of rows.                                       *)
(***************************************************************************)
EXTENDS GF, SequencesExt

Idx(n) == [i \in 1..n |-> i]
\* sum of f(1..n) in the field
FSum(n, f(_)) == FoldLeft(LAMBDA acc, i : FAdd(acc, f(i)), FZero, Idx(n))

--------------------------------------------------------------------------
(* B1 and B2 *)
CZero == <<FZero, FZero>>
CAdd(c, d) == <<FAdd(c[1], d[1]), FAdd(c[2], d[2])>>
CNeg(c) == <<FNeg(c[1]), FNeg(c[2])>>
CSub(c, d) == <<FSub(c[1], d[1]), FSub(c[2], d[2])>>
CMul(s, c) == <<FMul(s, c[1]), FMul(s, c[2])>>
CSum(n, f(_)) == FoldLeft(LAMBDA acc, i : CAdd(acc, f(i)), CZero, Idx(n))
CSumSeq(cs) == FoldLeft(LAMBDA acc, c : CAdd(acc, c), CZero, cs)

(* BT *)
TZero == <<FZero, FZero, FZero, FZero>>
TAdd(s, t) == <<FAdd(s[1], t[1]), FAdd(s[2], t[2]), FAdd(s[3], t[3]), FAdd(s[4], t[4])>>
TNeg(t) == <<FNeg(t[1]), FNeg(t[2]), FNeg(t[3]), FNeg(t[4])>>
TSub(s, t) == <<FSub(s[1], t[1]), FSub(s[2], t[2]), FSub(s[3], t[3]), FSub(s[4], t[4])>>
TMul(k, t) == <<FMul(k, t[1]), FMul(k, t[2]), FMul(k, t[3]), FMul(k, t[4])>>
TSum(n, f(_)) == FoldLeft(LAMBDA acc, i : TAdd(acc, f(i)), TZero, Idx(n))
TSumSeq(ts) == FoldLeft(LAMBDA acc, t : TAdd(acc, t), TZero, ts)

(* The bilinear map F : B1 x B2 -> BT (tensor product) *)
Pair(c, d) == <<FMul(c[1], d[1]), FMul(c[1], d[2]), FMul(c[2], d[1]), FMul(c[2], d[2])>>
PairSum(cs, ds) == TSum(Len(cs), LAMBDA i : Pair(cs[i], ds[i]))

--------------------------------------------------------------------------
(* A commitment key: u, v are pairs of B1 resp. B2 elements, g1, g2, gt    *)
(* the published generators.                                               *)
Lin1(x) == <<FZero, x>>
Lin2(y) == <<FZero, y>>
SBase1(crs) == CAdd(crs.u[2], <<FZero, crs.g1>>)
SBase2(crs) == CAdd(crs.v[2], <<FZero, crs.g2>>)
SLin1(x, crs) == CMul(x, SBase1(crs))
SLin2(y, crs) == CMul(y, SBase2(crs))
LinT_PPE(t) == <<FZero, FZero, FZero, t>>
LinT_MS1(t, crs) == Pair(Lin1(t), SBase2(crs))
LinT_MS2(t, crs) == Pair(SBase1(crs), Lin2(t))
LinT_Quad(t, crs) == TMul(t, Pair(SBase1(crs), SBase2(crs)))

--------------------------------------------------------------------------
(* Matrices over the field / over B1, B2 (sequences of rows).              *)
Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
IsMat(A) == \A i \in 1..Len(A) : Len(A[i]) = Cols(A)

FMatAdd(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> FAdd(A[i][j], B[i][j])]]
FMatNeg(A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> FNeg(A[i][j])]]
FMatScale(s, A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> FMul(s, A[i][j])]]
CMatAdd(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CAdd(A[i][j], B[i][j])]]
CMatNeg(A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CNeg(A[i][j])]]
CMatScale(s, A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> CMul(s, A[i][j])]]
Transpose(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]

\* A product without entries is written <<>>, whatever its number of rows.
MatEmpty(A) == Rows(A) = 0 \/ Cols(A) = 0
FMatMul(A, B) ==
    IF MatEmpty(A) \/ MatEmpty(B) THEN <<>>
    ELSE [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |->
            FSum(Rows(B), LAMBDA k : FMul(A[i][k], B[k][j]))]]
\* field matrix times commitment matrix
FCMatMul(A, B) ==
    IF MatEmpty(A) \/ MatEmpty(B) THEN <<>>
    ELSE [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |->
            CSum(Rows(B), LAMBDA k : CMul(A[i][k], B[k][j]))]]
\* commitment matrix times field matrix
CFMatMul(A, B) ==
    IF MatEmpty(A) \/ MatEmpty(B) THEN <<>>
    ELSE [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |->
            CSum(Rows(B), LAMBDA k : CMul(B[k][j], A[i][k]))]]
=============================================================================
