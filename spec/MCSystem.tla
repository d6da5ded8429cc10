------------------------------ MODULE MCSystem ------------------------------
(***************************************************************************)
(* Exhaustive exploration of GSSystem with a tiny field: every history of  *)
(* calls, every blinding, one equation type at a time.                     *)
(***************************************************************************)
EXTENDS GSSystem
CONSTANTS Ty, MaxLen, Coefs,
          YRegs,     \* registers used on the Y side
          FewKeys    \* one binding and one hiding key only

VARIABLE honest   \* honest[p]: [e, i, j] the proof was made for and still stands for, or <<>>
mcvars == <<vars, honest>>

Keys == IF FewKeys THEN {KeyFrom(1, 1, 1, 1, 1, 1, h) : h \in BOOLEAN}
        ELSE {KeyFrom(1, 1, a1, 1, t1, t2, h) : a1 \in {1, 2 % P}, t1 \in GFSet, t2 \in {1}, h \in BOOLEAN}
Regs(side) == IF side = 1 THEN 1..NReg ELSE YRegs
Pts == {<<a, b>> : a \in GFSet, b \in GFSet}
Rows_(k) == IF k = 1 THEN {<<a>> : a \in GFSet} ELSE Pts
Eqs(m, n) == {[ty |-> Ty, a |-> [j \in 1..n |-> q[1]], b |-> [i \in 1..m |-> q[2]],
               g |-> [i \in 1..m |-> [j \in 1..n |-> q[3]]], t |-> q[4]] :
               q \in Coefs \X Coefs \X Coefs \X GFSet}
ListX(x, r) == [kinds |-> <<XScalar(Ty)>>, vals |-> <<x>>, coms |-> <<ComX(XScalar(Ty), x, r, key)>>, rnd |-> <<>>]
ListY(y, s) == [kinds |-> <<YScalar(Ty)>>, vals |-> <<y>>, coms |-> <<ComY(YScalar(Ty), y, s, key)>>, rnd |-> <<>>]
Dirty == [p \in 1..NPrf |-> <<>>]

Init == SysInit /\ honest = Dirty
Next ==
  \/ \E k \in Keys : Setup(k) /\ UNCHANGED honest
  \/ \E i \in 1..NReg, x \in GFSet :
       /\ key # NoKey /\ xs[i] = EmptyList
       /\ \E r \in Rows_(KW(XScalar(Ty))) : Commit(1, i, ListX(x, r))
       /\ honest' = Dirty
  \/ \E i \in YRegs, y \in GFSet :
       /\ key # NoKey /\ ys[i] = EmptyList
       /\ \E s \in Rows_(KW(YScalar(Ty))) : Commit(2, i, ListY(y, s))
       /\ honest' = Dirty
  \/ \E side \in {1, 2} : \E i \in Regs(side), j \in Regs(side) :
       /\ i # j /\ Len(List(side, i).vals) + Len(List(side, j).vals) <= MaxLen
       /\ List(side, j) # EmptyList
       /\ Append_(side, i, j)
       /\ honest' = Dirty
  \/ \E side \in {1, 2} : \E i \in Regs(side), j \in Regs(side) :
       i # j /\ List(side, i) = EmptyList /\ List(side, j) # EmptyList /\ Clone(side, i, j) /\ honest' = Dirty
  \/ Reencode /\ UNCHANGED honest
  \/ \E i \in 1..NReg, j \in 1..NReg, e \in 1..NEq :
       /\ xs[i] # EmptyList /\ ys[j] # EmptyList /\ eqs[e] = NoEq
       /\ \E q \in Eqs(Len(xs[i].vals), Len(ys[j].vals)) : Define(e, q)
       /\ UNCHANGED honest
  \/ \E p \in 1..NPrf, e \in 1..NEq, i \in 1..NReg, j \in 1..NReg :
       /\ key # NoKey /\ prfs[p] = NoProof /\ ProveDefined(eqs[e], xs[i], ys[j])
       /\ \E pi \in [1..PiLen(Ty) -> Pts], th \in [1..ThLen(Ty) -> Pts] : Prove(p, e, i, j, pi, th)
       /\ honest' = [honest EXCEPT ![p] = <<e, i, j>>]
  \/ \E p \in 1..NPrf, e \in 1..NEq, i \in 1..NReg, j \in 1..NReg :
       /\ key # NoKey /\ prfs[p] # NoProof /\ eqs[e] # NoEq
       /\ Verify(e, i, j, p) /\ UNCHANGED honest
Spec == Init /\ [][Next]_mcvars

\* the verdict is a function of the bundle, not of the history; hidden from the state graph
MCView == <<key, xs, ys, eqs, prfs, honest>>
Completeness ==
    \A p \in 1..NPrf : honest[p] # <<>> =>
       LET h == honest[p] IN
       Sat(eqs[h[1]], xs[h[2]].vals, ys[h[3]].vals) => VerdictOf(h[1], h[2], h[3], p)
\* C08: a list is what its history says (values are never lost or mixed)
Conserved == [][ \A side \in {1, 2}, i \in 1..NReg, j \in 1..NReg :
                   i # j => (Append_(side, i, j) =>
                      Len(List(side, i).vals) + Len(List(side, j).vals)
                        = Len((IF side = 1 THEN xs' ELSE ys')[i].vals)) ]_vars
=============================================================================
