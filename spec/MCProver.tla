------------------------------ MODULE MCProver ------------------------------
(***************************************************************************)
(* The prover's algorithm against the verification relation, exhaustively  *)
(* over a tiny field: one state per (key, equation); the invariants        *)
(* quantify over all witnesses, all blinders and all proofs.               *)
(***************************************************************************)
EXTENDS GS, TLC
CONSTANTS Ty, M, N, Coefs, FewKeys
VARIABLES key, eq

Keys == IF FewKeys THEN {KeyFrom(1, 1, 1, 1, t1, 1, h) : t1 \in {0, 1}, h \in BOOLEAN}
        ELSE {KeyFrom(p1, 1, a1, 1, t1, t2, h) : p1 \in GFSet \ {0}, a1 \in GFSet, t1 \in GFSet, t2 \in {0, 1}, h \in BOOLEAN}
Vec(k, S) == [1..k -> S]
Mat(m, n, S) == [1..m -> [1..n -> S]]
Eqs == {[ty |-> Ty, a |-> a, b |-> b, g |-> g, t |-> t] :
          a \in Vec(N, Coefs), b \in Vec(M, Coefs), g \in Mat(M, N, Coefs), t \in GFSet}
Nil == [none |-> TRUE]
\* the choice is a step, so that TLC's workers share the evaluation of the invariants
Init == key = Nil /\ eq = Nil
Next == key = Nil /\ key' \in Keys /\ eq' \in Eqs
Spec == Init /\ [][Next]_<<key, eq>>

KX == PiLen(Ty)
KY == ThLen(Ty)
Xs == Vec(M, GFSet)
Ys == Vec(N, GFSet)
Rs == Mat(M, KX, GFSet)
Ss == Mat(N, KY, GFSet)
Ts == Mat(KY, KX, GFSet)
Pts == {<<a, b>> : a \in GFSet, b \in GFSet}
Run(X, Y, R, S, T) ==
    [c |-> ComXs(XScalar(Ty), X, R, key), d |-> ComYs(YScalar(Ty), Y, S, key),
     pi |-> ProvePi(eq, X, Y, R, S, T, key), th |-> ProveTh(eq, X, Y, R, S, T, key)]
Holds(o) == Relation(eq, key, o.c, o.d, o.pi, o.th)

\* C01; and the honest formula proves nothing else
Complete == key # Nil => \A X \in Xs, Y \in Ys, R \in Rs, S \in Ss, T \in Ts : 
              /\ Sat(eq, X, Y) => Holds(Run(X, Y, R, S, T))
              /\ Binding(key) /\ Holds(Run(X, Y, R, S, T)) => Sat(eq, X, Y)

\* C04
Outcomes(X, Y) == {Run(X, Y, R, S, T) : R \in Rs, S \in Ss, T \in Ts}
Wits == {w \in Xs \X Ys : Sat(eq, w[1], w[2])}
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Bits == M * KX + N * KY + KX * KY
Hides == key # Nil => (Hiding(key) /\ Wits # {} =>
    LET ref == Outcomes((CHOOSE w \in Wits : TRUE)[1], (CHOOSE w \in Wits : TRUE)[2]) IN
    /\ Cardinality(ref) = Pow(P, Bits)              \* every blinding gives another bundle: uniform
    /\ \A w \in Wits : Outcomes(w[1], w[2]) = ref)  \* whatever the witness
\* given the commitments, the proof is uniform over all proofs that are accepted
AllProofs == key # Nil => (Hiding(key) /\ Wits # {} =>
    LET w == CHOOSE w \in Wits : TRUE
        o == Outcomes(w[1], w[2])
        cd == {<<z.c, z.d>> : z \in o}
        one == CHOOSE z \in cd : TRUE
    IN {<<z.pi, z.th>> : z \in {z \in o : <<z.c, z.d>> = one}}
       = {<<pi, th>> \in Vec(KX, Pts) \X Vec(KY, Pts) : Relation(eq, key, one[1], one[2], pi, th)})
=============================================================================
