-------------------------------- MODULE GS --------------------------------
(***************************************************************************)
(* The Groth-Sahai proof system (SXDH instantiation) as relations and      *)
(* functions on discrete logarithms.                                       *)
(*                                                                         *)
(*  CRS         [u, v, g1, g2, gt]                                         *)
(*  equation    [ty, a, b, g, t]   (A*Y)(X*B)(X*G Y) = t                   *)
(*  commitment  sequence of B1 (resp. B2) elements                         *)
(*  proof       [ty, pi, th]                                               *)
(***************************************************************************)
EXTENDS BG, FiniteSets

Types == {"PPE", "MS1", "MS2", "QUAD"}
XScalar(ty) == ty \in {"MS2", "QUAD"}     \* X variables live in Fr
YScalar(ty) == ty \in {"MS1", "QUAD"}     \* Y variables live in Fr

--------------------------------------------------------------------------
(* Commitment keys *)
KeyFrom(p1, p2, a1, a2, t1, t2, hide) ==
    LET q1 == FMul(p1, a1)
        q2 == FMul(p2, a2)
        w1 == FMul(q1, t1)
        w2 == FMul(q2, t2)
    IN [u |-> <<<<p1, q1>>, <<FMul(p1, t1), IF hide THEN FSub(w1, p1) ELSE w1>>>>,
        v |-> <<<<p2, q2>>, <<FMul(p2, t2), IF hide THEN FSub(w2, p2) ELSE w2>>>>,
        g1 |-> p1, g2 |-> p2, gt |-> FMul(p1, p2)]

\* u[2] is a multiple of u[1] (and v[2] of v[1]): the key is binding
Binding(crs) ==
    /\ crs.g1 # FZero /\ crs.g2 # FZero
    /\ crs.u[1][1] # FZero /\ crs.v[1][1] # FZero
    /\ FMul(crs.u[1][1], crs.u[2][2]) = FMul(crs.u[1][2], crs.u[2][1])
    /\ FMul(crs.v[1][1], crs.v[2][2]) = FMul(crs.v[1][2], crs.v[2][1])
\* u[1], u[2] are linearly independent and u[2] + (0, g1) is a multiple of u[1]
Hiding(crs) ==
    /\ crs.g1 # FZero /\ crs.g2 # FZero
    /\ crs.u[1][1] # FZero /\ crs.v[1][1] # FZero
    /\ FMul(crs.u[1][1], FAdd(crs.u[2][2], crs.g1)) = FMul(crs.u[1][2], crs.u[2][1])
    /\ FMul(crs.v[1][1], FAdd(crs.v[2][2], crs.g2)) = FMul(crs.v[1][2], crs.v[2][1])
\* What a key published by the trusted setup must look like
ValidKey(crs) ==
    /\ Len(crs.u) = 2 /\ Len(crs.v) = 2
    /\ crs.g1 # FZero /\ crs.g2 # FZero
    /\ crs.gt = FMul(crs.g1, crs.g2)
    /\ crs.u[1][1] = crs.g1 /\ crs.v[1][1] = crs.g2
    /\ Binding(crs)

\* the extraction trapdoors of a binding key
Trap1(crs) == FMul(crs.u[1][2], FInv(crs.u[1][1]))
Trap2(crs) == FMul(crs.v[1][2], FInv(crs.v[1][1]))
Ext1(crs, c) == FSub(c[2], FMul(Trap1(crs), c[1]))
Ext2(crs, d) == FSub(d[2], FMul(Trap2(crs), d[1]))
ExtT(crs, m) ==
    LET a == Trap1(crs) b == Trap2(crs)
    IN FSub(FSub(m[4], FMul(b, m[3])), FSub(FMul(a, m[2]), FMul(FMul(a, b), m[1])))
\* the value a commitment opens to, as a value of the variable's own domain
OpenX(ty, crs, c) == IF XScalar(ty) THEN FMul(Ext1(crs, c), FInv(crs.g1)) ELSE Ext1(crs, c)
OpenY(ty, crs, d) == IF YScalar(ty) THEN FMul(Ext2(crs, d), FInv(crs.g2)) ELSE Ext2(crs, d)

--------------------------------------------------------------------------
(* Equations *)
EqM(eq) == Len(eq.b)     \* number of X variables
EqN(eq) == Len(eq.a)     \* number of Y variables
WellFormedEq(eq, m, n) ==
    /\ Len(eq.a) = n /\ Len(eq.b) = m /\ Len(eq.g) = m
    /\ \A i \in 1..Len(eq.g) : Len(eq.g[i]) = n
EqLhs(eq, X, Y) ==
    FAdd(FAdd(FSum(Len(Y), LAMBDA j : FMul(eq.a[j], Y[j])),
              FSum(Len(X), LAMBDA i : FMul(X[i], eq.b[i]))),
         FSum(Len(X), LAMBDA i : FMul(X[i], FSum(Len(Y), LAMBDA j : FMul(eq.g[i][j], Y[j])))))
Sat(eq, X, Y) == EqLhs(eq, X, Y) = eq.t

(* Embeddings of variables, constants and targets *)
Iota1(ty, x, crs) == IF XScalar(ty) THEN SLin1(x, crs) ELSE Lin1(x)
Iota2(ty, y, crs) == IF YScalar(ty) THEN SLin2(y, crs) ELSE Lin2(y)
IotaT(ty, t, crs) == CASE ty = "PPE" -> LinT_PPE(t)
                       [] ty = "MS1" -> LinT_MS1(t, crs)
                       [] ty = "MS2" -> LinT_MS2(t, crs)
                       [] ty = "QUAD" -> LinT_Quad(t, crs)

(* Commitments: scalar = only the first key element is used *)
KW(scalar) == IF scalar THEN 1 ELSE 2
Embed1(scalar, x, crs) == IF scalar THEN SLin1(x, crs) ELSE Lin1(x)
Embed2(scalar, y, crs) == IF scalar THEN SLin2(y, crs) ELSE Lin2(y)
ComX(scalar, x, r, crs) == CAdd(Embed1(scalar, x, crs), CSum(KW(scalar), LAMBDA k : CMul(r[k], crs.u[k])))
ComY(scalar, y, s, crs) == CAdd(Embed2(scalar, y, crs), CSum(KW(scalar), LAMBDA k : CMul(s[k], crs.v[k])))
ComXs(scalar, X, R, crs) == [i \in 1..Len(X) |-> ComX(scalar, X[i], R[i], crs)]
ComYs(scalar, Y, S, crs) == [j \in 1..Len(Y) |-> ComY(scalar, Y[j], S[j], crs)]

(* Number of elements of pi and theta *)
PiLen(ty) == KW(XScalar(ty))
ThLen(ty) == KW(YScalar(ty))

--------------------------------------------------------------------------
(* The Groth-Sahai verification relation *)
VerLhs(eq, crs, xc, yc) ==
    TAdd(TAdd(TSum(Len(yc), LAMBDA j : Pair(Iota1(eq.ty, eq.a[j], crs), yc[j])),
              TSum(Len(xc), LAMBDA i : Pair(xc[i], Iota2(eq.ty, eq.b[i], crs)))),
         TSum(Len(xc), LAMBDA i :
                Pair(xc[i], CSum(Len(yc), LAMBDA j : CMul(eq.g[i][j], yc[j])))))
VerRhs(eq, crs, pi, th) ==
    TAdd(TAdd(IotaT(eq.ty, eq.t, crs),
              TSum(Len(pi), LAMBDA k : Pair(crs.u[k], pi[k]))),
         TSum(Len(th), LAMBDA k : Pair(th[k], crs.v[k])))
Relation(eq, crs, xc, yc, pi, th) == VerLhs(eq, crs, xc, yc) = VerRhs(eq, crs, pi, th)

WellFormedProof(ty, pi, th) == Len(pi) = PiLen(ty) /\ Len(th) = ThLen(ty)
\* what `verify` is given: the equation, the committed variables, and a list of proofs
WellFormed(eq, xc, yc, proofs) ==
    /\ Len(xc) >= 1 /\ Len(yc) >= 1
    /\ WellFormedEq(eq, Len(xc), Len(yc))
    /\ Len(proofs) = 1
    /\ proofs[1].ty = eq.ty
    /\ WellFormedProof(eq.ty, proofs[1].pi, proofs[1].th)
Accepts(eq, crs, xc, yc, proofs) ==
    /\ WellFormed(eq, xc, yc, proofs)
    /\ Relation(eq, crs, xc, yc, proofs[1].pi, proofs[1].th)

--------------------------------------------------------------------------
(* The prover's algorithm (one way of solving the relation).               *)
(* R: m x KW(XScalar), S: n x KW(YScalar), T: ThLen x PiLen                *)
ProvePi(eq, X, Y, R, S, T, crs) ==
    LET ty == eq.ty
        m == Len(X)
        n == Len(Y)
        RtG == [k \in 1..PiLen(ty) |-> [j \in 1..n |-> FSum(m, LAMBDA i : FMul(R[i][k], eq.g[i][j]))]]
    IN [k \in 1..PiLen(ty) |->
          CAdd(CAdd(CSum(m, LAMBDA i : CMul(R[i][k], Iota2(ty, eq.b[i], crs))),
                    CSum(n, LAMBDA j : CMul(RtG[k][j], Iota2(ty, Y[j], crs)))),
               CSum(ThLen(ty), LAMBDA h :
                      CMul(FSub(FSum(n, LAMBDA j : FMul(RtG[k][j], S[j][h])), T[h][k]), crs.v[h])))]
ProveTh(eq, X, Y, R, S, T, crs) ==
    LET ty == eq.ty
        m == Len(X)
        n == Len(Y)
    IN [h \in 1..ThLen(ty) |->
          CAdd(CAdd(CSum(n, LAMBDA j : CMul(S[j][h], Iota1(ty, eq.a[j], crs))),
                    CSum(m, LAMBDA i : CMul(FSum(n, LAMBDA j : FMul(S[j][h], eq.g[i][j])), Iota1(ty, X[i], crs)))),
               CSum(PiLen(ty), LAMBDA k : CMul(T[h][k], crs.u[k])))]
=============================================================================
