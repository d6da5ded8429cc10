------------------------------ MODULE GSSystem ------------------------------
(***************************************************************************)
(* The library as a state machine: a commitment key, lists of commitments  *)
(* on both sides (held in numbered registers), equations and proofs, and   *)
(* the public calls that create, combine, copy, encode and check them.     *)
(*                                                                         *)
(* A list of commitments is a record                                       *)
(*    kinds   sequence of BOOLEAN, TRUE = scalar commitment                *)
(*    vals    the committed values (known to the prover only)              *)
(*    coms    the commitments                                              *)
(*    rnd     the openings kept with them, one row per commitment, or      *)
(*            <<>> where they are not observable                           *)
(* Blinding is nondeterministic: an action allows every outcome that some  *)
(* choice of blinders explains.                                            *)
(***************************************************************************)
EXTENDS GS, TLC

CONSTANTS NoKey, NReg, NEq, NPrf
VARIABLES key,   \* the commitment key or NoKey
          xs,    \* xs[i]: list of commitments in B1
          ys,    \* ys[i]: list of commitments in B2
          eqs,   \* eqs[i]: equation, or <<>>
          prfs,  \* prfs[i]: [set, ty, pi, th]
          last   \* what the last call answered: "ok", "refused", "true", "false"
vars == <<key, xs, ys, eqs, prfs, last>>

EmptyList == [kinds |-> <<>>, vals |-> <<>>, coms |-> <<>>, rnd |-> <<>>]
NoProof == [ty |-> "NONE", pi |-> <<>>, th |-> <<>>]
NoEq == [ty |-> "NONE", a |-> <<>>, b |-> <<>>, g |-> <<>>, t |-> FZero]

SysInit ==
    /\ key = NoKey
    /\ xs = [i \in 1..NReg |-> EmptyList]
    /\ ys = [i \in 1..NReg |-> EmptyList]
    /\ eqs = [i \in 1..NEq |-> NoEq]
    /\ prfs = [i \in 1..NPrf |-> NoProof]
    /\ last = "ok"

--------------------------------------------------------------------------
(* Which outcomes of a commitment some choice of blinders explains *)
Det2(a, b) == FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))
InSpan(c, w, scalar) == IF scalar \/ Det2(w[1], w[2]) = FZero THEN Det2(c, w[1]) = FZero ELSE TRUE
CanOpenX(scalar, x, c, crs) == InSpan(CSub(c, Embed1(scalar, x, crs)), crs.u, scalar)
CanOpenY(scalar, y, d, crs) == InSpan(CSub(d, Embed2(scalar, y, crs)), crs.v, scalar)
ListOK(side, L, crs) ==
    /\ Len(L.coms) = Len(L.vals) /\ Len(L.kinds) = Len(L.vals)
    /\ \A i \in 1..Len(L.coms) :
         IF side = 1 THEN CanOpenX(L.kinds[i], L.vals[i], L.coms[i], crs)
         ELSE CanOpenY(L.kinds[i], L.vals[i], L.coms[i], crs)
\* recorded openings explain the commitments
OpenedBy(side, L, crs) ==
    /\ Len(L.rnd) = Len(L.coms)
    /\ \A i \in 1..Len(L.coms) :
         /\ Len(L.rnd[i]) = KW(L.kinds[i])
         /\ L.coms[i] = IF side = 1 THEN ComX(L.kinds[i], L.vals[i], L.rnd[i], crs)
                        ELSE ComY(L.kinds[i], L.vals[i], L.rnd[i], crs)
Cat(L, M) == [kinds |-> L.kinds \o M.kinds, vals |-> L.vals \o M.vals,
              coms |-> L.coms \o M.coms, rnd |-> L.rnd \o M.rnd]
List(side, i) == IF side = 1 THEN xs[i] ELSE ys[i]
SetList(side, i, L) == IF side = 1 THEN xs' = [xs EXCEPT ![i] = L] /\ ys' = ys
                       ELSE ys' = [ys EXCEPT ![i] = L] /\ xs' = xs
SetLists(side, i, L, j, M) == IF side = 1 THEN xs' = [xs EXCEPT ![i] = L, ![j] = M] /\ ys' = ys
                              ELSE ys' = [ys EXCEPT ![i] = L, ![j] = M] /\ xs' = xs

--------------------------------------------------------------------------
(* Public calls *)
Setup(crs) == /\ key = NoKey
              /\ key' = crs /\ last' = "ok"
              /\ UNCHANGED <<xs, ys, eqs, prfs>>

\* L: the resulting list (values given by the caller, commitments by blinding)
Commit(side, i, L) ==
    /\ key # NoKey
    /\ ListOK(side, L, key)
    /\ SetList(side, i, L) /\ last' = "ok"
    /\ UNCHANGED <<key, eqs, prfs>>

Append_(side, i, j) ==
    /\ i # j
    /\ SetLists(side, i, Cat(List(side, i), List(side, j)), j, EmptyList) /\ last' = "ok"
    /\ UNCHANGED <<key, eqs, prfs>>
Clone(side, i, j) ==
    /\ SetList(side, i, List(side, j)) /\ last' = "ok"
    /\ UNCHANGED <<key, eqs, prfs>>
\* encode, decode, and go on with the decoded object
Reencode == last' = "ok" /\ UNCHANGED <<key, xs, ys, eqs, prfs>>

Define(e, eq) == /\ eqs' = [eqs EXCEPT ![e] = eq] /\ last' = "ok"
                 /\ UNCHANGED <<key, xs, ys, prfs>>

\* the call is made with the witness X, Y the lists were made from
ProveDefined(eq, L, M) ==
    /\ eq.ty \in Types
    /\ Len(L.vals) >= 1 /\ Len(M.vals) >= 1
    /\ WellFormedEq(eq, Len(L.vals), Len(M.vals))
    /\ \A i \in 1..Len(L.kinds) : L.kinds[i] = XScalar(eq.ty)
    /\ \A j \in 1..Len(M.kinds) : M.kinds[j] = YScalar(eq.ty)
Honest(eq, L, M, pi, th, crs) ==
    /\ WellFormedProof(eq.ty, pi, th)
    /\ Sat(eq, L.vals, M.vals) => Relation(eq, crs, L.coms, M.coms, pi, th)
Prove(p, e, i, j, pi, th) ==
    /\ key # NoKey
    /\ IF ProveDefined(eqs[e], xs[i], ys[j])
       THEN /\ Honest(eqs[e], xs[i], ys[j], pi, th, key)
            /\ prfs' = [prfs EXCEPT ![p] = [ty |-> eqs[e].ty, pi |-> pi, th |-> th]]
            /\ last' = "ok"
       ELSE prfs' = prfs /\ last' = "refused"
    /\ UNCHANGED <<key, xs, ys, eqs>>

\* both commitments and the proof in one call: values X, Y go to lists L, M of the kinds the equation asks for
CommitProve(p, e, i, j, L, M, pi, th) ==
    /\ key # NoKey
    /\ IF ProveDefined(eqs[e], L, M)
       THEN /\ ListOK(1, L, key) /\ ListOK(2, M, key)
            /\ Honest(eqs[e], L, M, pi, th, key)
            /\ xs' = [xs EXCEPT ![i] = L] /\ ys' = [ys EXCEPT ![j] = M]
            /\ prfs' = [prfs EXCEPT ![p] = [ty |-> eqs[e].ty, pi |-> pi, th |-> th]]
            /\ last' = "ok"
       ELSE xs' = xs /\ ys' = ys /\ prfs' = prfs /\ last' = "refused"
    /\ UNCHANGED <<key, eqs>>

VerdictOf(e, i, j, p) ==
    /\ eqs[e].ty \in Types
    /\ Accepts(eqs[e], key, xs[i].coms, ys[j].coms, <<prfs[p]>>)
Verify(e, i, j, p) ==
    /\ key # NoKey
    /\ last' = IF VerdictOf(e, i, j, p) THEN "true" ELSE "false"
    /\ UNCHANGED <<key, xs, ys, eqs, prfs>>

--------------------------------------------------------------------------
(* Guarantees *)
Opening == key # NoKey =>
    \A i \in 1..NReg : ListOK(1, xs[i], key) /\ ListOK(2, ys[i], key)
\* an accepted bundle under a binding key opens to a satisfying assignment
Soundness == (key # NoKey /\ Binding(key)) =>
    \A e \in 1..NEq, i \in 1..NReg, j \in 1..NReg, p \in 1..NPrf :
       VerdictOf(e, i, j, p) =>
         Sat(eqs[e], [k \in 1..Len(xs[i].coms) |-> OpenX(eqs[e].ty, key, xs[i].coms[k])],
                     [k \in 1..Len(ys[j].coms) |-> OpenY(eqs[e].ty, key, ys[j].coms[k])])
\* in particular it opens to the values it was made from
FaithfulValues == (key # NoKey /\ Binding(key)) =>
    \A e \in 1..NEq, i \in 1..NReg, j \in 1..NReg, p \in 1..NPrf :
       VerdictOf(e, i, j, p) /\ ProveDefined(eqs[e], xs[i], ys[j]) => Sat(eqs[e], xs[i].vals, ys[j].vals)
\* appending neither loses nor invents: the multiset of committed values
=============================================================================
