------------------------------ MODULE GenHist ------------------------------
(***************************************************************************)
(* Random behaviours of GSSystem, printed as histories of calls to replay  *)
(* on the implementation.  Run with tlc -simulate.                         *)
(***************************************************************************)
EXTENDS GSSystem, FiniteSetsExt, Json, IOUtils
CONSTANTS Depth, MaxVals, MaxLen,
          Profile      \* "lists": list operations throughout (C08); "stmt": mostly proving (C09)
VARIABLES hist,   \* the calls so far
          made    \* made[p]: the <<e, i, j>> proof p was made for
gvars == <<vars, hist, made>>

Rnd(S) == RandomElement(S)
Coin(pct) == Rnd(1..100) <= pct
\* TLCEval at every level: a random function must not be evaluated twice
\* the argument keeps TLC from evaluating these once and for all
RF(z) == IF Coin(15) THEN FZero ELSE IF Coin(10) THEN FOne ELSE FRnd(z)
RNZ(z) == FRndNZ(z)
Const(n, x) == [i \in 1..n |-> x]
RFs(n) == TLCEval(IF Coin(10) THEN Const(n, RNZ(0)) ELSE [i \in 1..n |-> RF(0)])
RMat(m, n) == TLCEval(IF Coin(15) THEN [i \in 1..m |-> [j \in 1..n |-> FZero]]
                      ELSE [i \in 1..m |-> TLCEval([j \in 1..n |-> RF(0)])])
Say(r) == hist' = Append(hist, r)
Keep == UNCHANGED made
Forget == made' = [p \in 1..NPrf |-> <<>>]

Init == SysInit /\ hist = <<>> /\ made = [p \in 1..NPrf |-> <<>>]

ASetup ==
    /\ key = NoKey
    /\ \E h \in {Coin(40)} : \E p \in {TLCEval(<<RNZ(0), RNZ(0), RF(0), RF(0), RF(0), RF(0)>>)} :
         /\ Setup(KeyFrom(p[1], p[2], p[3], p[4], p[5], p[6], h))
         /\ Say([op |-> "setup", hide |-> h, p |-> p])
    /\ Keep

MkList(side, sc, vs) ==
    LET rn == TLCEval([i \in 1..Len(vs) |-> TLCEval([k \in 1..KW(sc) |-> RF(0)])])
    IN [kinds |-> [i \in 1..Len(vs) |-> sc], vals |-> vs, rnd |-> rn,
        coms |-> IF side = 1 THEN ComXs(sc, vs, rn, key) ELSE ComYs(sc, vs, rn, key)]
\* an equation of a larger statement uses some of the variables only
Use(n) == TLCEval(IF Coin(40) THEN {i \in 1..n : Coin(45)} ELSE 1..n)
Thin(q, ux, uy) ==
    [q EXCEPT !.a = TLCEval([j \in 1..Len(q.a) |-> IF j \in uy THEN q.a[j] ELSE FZero]),
              !.b = TLCEval([i \in 1..Len(q.b) |-> IF i \in ux THEN q.b[i] ELSE FZero]),
              !.g = TLCEval([i \in 1..Len(q.b) |-> [j \in 1..Len(q.a) |->
                       IF i \in ux /\ j \in uy THEN q.g[i][j] ELSE FZero]])]
ACommit ==
    /\ key # NoKey
    /\ \E side \in {Rnd({1, 2})} : \E i \in {Rnd(1..NReg)} : \E sc \in {Coin(50)} :
       \E how \in {Rnd({"batch", "single", "singles"})} :
       \E vs \in {TLCEval(RFs(IF how = "single" THEN 1 ELSE IF how = "batch" /\ Coin(12) THEN 0 ELSE Rnd(1..MaxVals)))} :
         /\ Commit(side, i, TLCEval(MkList(side, sc, vs)))
         /\ Say([op |-> "commit", side |-> side, reg |-> i, sc |-> sc, how |-> how, vals |-> vs])
    /\ Keep

\* profile "stmt": first one list of every kind, shared by all equations that follow
Filling == Profile = "stmt" /\ Len(hist) \in 1..4
AFill ==
    /\ key # NoKey
    /\ LET k == Len(hist)  side == IF k <= 2 THEN 1 ELSE 2  sc == k % 2 = 0  reg == IF sc THEN 2 ELSE 1
       IN \E vs \in {TLCEval(RFs(Rnd(1..MaxVals + 2)))} :
          \E how \in {Rnd({"batch", "singles"})} :
            /\ Commit(side, reg, TLCEval(MkList(side, sc, vs)))
            /\ Say([op |-> "commit", side |-> side, reg |-> reg, sc |-> sc, how |-> how, vals |-> vs])
    /\ Keep

Fits(side, i, j) == i # j /\ Len(List(side, i).vals) + Len(List(side, j).vals) <= MaxLen
SameKind(side, i, j) == LET L == Cat(List(side, i), List(side, j)) IN Cardinality(Range(L.kinds)) <= 1
AAppend ==
    /\ key # NoKey
    /\ \E side \in {Rnd({1, 2})} :
       LET all == {pr \in (1..NReg) \X (1..NReg) : Fits(side, pr[1], pr[2])}
           nice == {pr \in all : SameKind(side, pr[1], pr[2])}
           full == {pr \in nice : List(side, pr[2]) # EmptyList}
           use == IF full # {} /\ Coin(85) THEN full ELSE IF nice # {} /\ Coin(80) THEN nice ELSE all
       IN /\ use # {}
          /\ \E pr \in {Rnd(use)} :
               /\ Append_(side, pr[1], pr[2])
               /\ Say([op |-> "append", side |-> side, dst |-> pr[1], src |-> pr[2]])
    /\ Keep
AClone ==
    /\ key # NoKey
    /\ \E side \in {Rnd({1, 2})} : LET all == {q \in (1..NReg) \X (1..NReg) : q[1] # q[2]}
           full == {q \in all : List(side, q[2]) # EmptyList}
       IN \E pr \in {Rnd(IF full # {} /\ Coin(95) THEN full ELSE all)} :
         /\ Clone(side, pr[1], pr[2])
         /\ Say([op |-> "clone", side |-> side, dst |-> pr[1], src |-> pr[2]])
    /\ Keep
AReenc ==
    /\ key # NoKey
    /\ Reencode
    /\ \E what \in {Rnd({"x", "y", "key", "eq", "prf"})} :
       \E reg \in {CASE what \in {"x", "y"} -> Rnd(1..NReg) [] what = "eq" -> Rnd(1..NEq)
                     [] what = "prf" -> Rnd(1..NPrf) [] OTHER -> 1} :
         Say([op |-> "reenc", what |-> what, reg |-> reg, comp |-> Coin(50)])
    /\ Keep
KindOf(L) == IF L.kinds = <<>> THEN {} ELSE IF Cardinality(Range(L.kinds)) = 1 THEN Range(L.kinds) ELSE {}
TyOf(kx, ky) == CASE ~kx /\ ~ky -> "PPE" [] ~kx /\ ky -> "MS1" [] kx /\ ~ky -> "MS2" [] kx /\ ky -> "QUAD"
ADefine ==
    /\ key # NoKey
    /\ LET ok == {pr \in (1..NReg) \X (1..NReg) : KindOf(xs[pr[1]]) # {} /\ KindOf(ys[pr[2]]) # {}}
           new == {e \in 1..NEq : eqs[e] = NoEq}
       IN /\ ok # {}
          /\ Profile = "stmt" => new # {} \/ Len(hist) % 9 = 0
          /\ \E pr \in {Rnd(ok)} : \E e \in {IF new # {} THEN Rnd(new) ELSE Rnd(1..NEq)} :
             LET X == xs[pr[1]].vals  Y == ys[pr[2]].vals
                 ty == TyOf(Rnd(KindOf(xs[pr[1]])), Rnd(KindOf(ys[pr[2]])))
             IN \E a \in {RFs(Len(Y))} : \E b \in {RFs(Len(X))} : \E g \in {RMat(Len(X), Len(Y))} :
                \E q0 \in {TLCEval(Thin([ty |-> ty, a |-> a, b |-> b, g |-> g, t |-> FZero], Use(Len(X)), Use(Len(Y))))} :
                \E t \in {IF Coin(85) THEN EqLhs(q0, X, Y) ELSE RF(0)} :
                LET q == [q0 EXCEPT !.t = t]
                IN Define(e, q) /\ Say([op |-> "eq", reg |-> e, eq |-> q, of |-> pr])
    /\ Keep
Triples == (1..NEq) \X (1..NReg) \X (1..NReg)
\* what the prover would answer, for random T
SolveFor(eq, X, Y) ==
            LET T == TLCEval([h \in 1..ThLen(eq.ty) |-> TLCEval([k \in 1..PiLen(eq.ty) |-> RF(0)])])
            IN <<ProvePi(eq, X.vals, Y.vals, X.rnd, Y.rnd, T, key), ProveTh(eq, X.vals, Y.vals, X.rnd, Y.rnd, T, key)>>
Solve(t) == SolveFor(eqs[t[1]], xs[t[2]], ys[t[3]])
RPts(n) == TLCEval([i \in 1..n |-> <<RF(0), RF(0)>>])
\* a new equation is usually proved straight away
OwedProof == hist # <<>> /\ hist[Len(hist)].op = "eq" /\ Len(hist) % 4 # 0
AProve ==
    /\ key # NoKey
    /\ LET all == {t \in Triples : eqs[t[1]] # NoEq /\ xs[t[2]] # EmptyList /\ ys[t[3]] # EmptyList}
           good == {t \in all : ProveDefined(eqs[t[1]], xs[t[2]], ys[t[3]])}
           true == {t \in good : Sat(eqs[t[1]], xs[t[2]].vals, ys[t[3]].vals)}
           h == hist[Len(hist)]
           use == IF OwedProof /\ <<h.reg, h.of[1], h.of[2]>> \in all /\ Coin(90) THEN {<<h.reg, h.of[1], h.of[2]>>}
                  ELSE IF true # {} /\ Coin(80) THEN true ELSE IF good # {} /\ Coin(85) THEN good ELSE all
       IN /\ use # {}
          /\ \E t \in {Rnd(use)} : \E p \in {Rnd(1..NPrf)} :
               /\ IF t \in true
                  THEN \* any solution of the relation will do here: later verdicts are recomputed
                       \E sol \in {TLCEval(Solve(t))} : Prove(p, t[1], t[2], t[3], sol[1], sol[2])
                  ELSE Prove(p, t[1], t[2], t[3], RPts(PiLen(eqs[t[1]].ty)), RPts(ThLen(eqs[t[1]].ty)))
               /\ Say([op |-> "prove", reg |-> p, er |-> t[1], xr |-> t[2], yr |-> t[3],
                       x |-> xs[t[2]].vals, y |-> ys[t[3]].vals])
               /\ made' = IF t \in good THEN [made EXCEPT ![p] = t] ELSE made
\* an equation that differs from one in use in one place
ANeighbour ==
    /\ key # NoKey
    /\ LET good == {t \in Triples : eqs[t[1]] # NoEq /\ xs[t[2]] # EmptyList /\ ys[t[3]] # EmptyList
                                     /\ ProveDefined(eqs[t[1]], xs[t[2]], ys[t[3]])}
       IN /\ good # {}
          /\ \E t \in {Rnd(good)} : \E e \in {Rnd(1..NEq)} :
             LET q == eqs[t[1]]  X == xs[t[2]].vals  Y == ys[t[3]].vals IN
             \E i \in {Rnd(1..Len(q.b))} : \E j \in {Rnd(1..Len(q.a))} : \E d \in {RNZ(0)} : \E w \in {Rnd(0..3)} :
             \E q1 \in {TLCEval(CASE w = 0 -> [q EXCEPT !.a[j] = FAdd(@, d)]
                                  [] w = 1 -> [q EXCEPT !.b[i] = FAdd(@, d)]
                                  [] w = 2 -> [q EXCEPT !.g[i][j] = FAdd(@, d)]
                                  [] OTHER -> [q EXCEPT !.t = FAdd(@, d)])} :
             \E q2 \in {IF Coin(60) THEN [q1 EXCEPT !.t = EqLhs(q1, X, Y)] ELSE q1} :
               Define(e, q2) /\ Say([op |-> "eq", reg |-> e, eq |-> q2, of |-> <<t[2], t[3]>>])
    /\ Keep
\* commit_and_prove with the values of lists already there (or with others)
ACap ==
    /\ key # NoKey
    /\ LET all == {t \in Triples : eqs[t[1]] # NoEq /\ xs[t[2]] # EmptyList /\ ys[t[3]] # EmptyList}
           good == {t \in all : WellFormedEq(eqs[t[1]], Len(xs[t[2]].vals), Len(ys[t[3]].vals))}
           true == {t \in good : Sat(eqs[t[1]], xs[t[2]].vals, ys[t[3]].vals)}
           use == IF true # {} /\ Coin(85) THEN true ELSE IF good # {} /\ Coin(80) THEN good ELSE all
       IN /\ use # {}
          /\ \E t \in {Rnd(use)} : \E p \in {Rnd(1..NPrf)} : \E i \in {Rnd(1..NReg)} : \E j \in {Rnd(1..NReg)} :
             \E same \in {Coin(85)} :
             LET q == eqs[t[1]] IN
             \E X \in {IF same THEN xs[t[2]].vals ELSE RFs(Len(xs[t[2]].vals))} :
             \E Y \in {IF same THEN ys[t[3]].vals ELSE RFs(Len(ys[t[3]].vals))} :
             \E L \in {TLCEval(MkList(1, XScalar(q.ty), X))} : \E M \in {TLCEval(MkList(2, YScalar(q.ty), Y))} :
             \E sol \in {IF ProveDefined(q, L, M) THEN TLCEval(SolveFor(q, L, M)) ELSE <<<<>>, <<>>>>} :
               /\ CommitProve(p, t[1], i, j, L, M, sol[1], sol[2])
               /\ Say([op |-> "cap", reg |-> p, er |-> t[1], xr |-> i, yr |-> j, x |-> X, y |-> Y])
               /\ made' = IF ProveDefined(q, L, M) THEN [made EXCEPT ![p] = <<t[1], i, j>>] ELSE made
AVerify ==
    /\ key # NoKey
    /\ \E p \in 1..NPrf : prfs[p] # NoProof
    /\ \E p \in {Rnd({k \in 1..NPrf : prfs[k] # NoProof})} :
       LET all == {t \in Triples : eqs[t[1]] # NoEq /\ xs[t[2]] # EmptyList /\ ys[t[3]] # EmptyList}
           fit == {t \in all : eqs[t[1]].ty = prfs[p].ty /\ ProveDefined(eqs[t[1]], xs[t[2]], ys[t[3]])}
           use == IF made[p] # <<>> /\ made[p] \in all /\ Coin(IF Profile = "stmt" THEN 55 ELSE 75) THEN {made[p]}
                  ELSE IF fit # {} /\ Coin(75) THEN fit ELSE all
       IN /\ use # {}
          /\ \E t \in {Rnd(use)} :
               /\ Verify(t[1], t[2], t[3], p)
               /\ Say([op |-> "verify", er |-> t[1], xr |-> t[2], yr |-> t[3], pr |-> p])
    /\ Keep
AEmit == /\ Len(hist) = Depth
         /\ PrintT("HIST " \o ToJson(hist))
         /\ Say([op |-> "end"])
         /\ UNCHANGED <<vars, made>>
Go == Len(hist) < Depth
\* a proof is usually checked straight away
Owed == hist # <<>> /\ hist[Len(hist)].op \in {"prove", "cap"} /\ made[hist[Len(hist)].reg] # <<>> /\ Len(hist) % 3 # 0
Free == Go /\ ~Owed /\ ~OwedProof /\ ~Filling
\* with profile "stmt" the lists are made first and then mostly left alone
Lists == Free /\ (Profile = "lists" \/ Len(hist) < 7 \/ Len(hist) % 11 = 0)
Proofs == Free /\ (Profile = "lists" \/ Len(hist) >= 7)
\* some calls are repeated to make them more frequent in simulation
Next == \/ Free /\ ASetup
        \/ Go /\ Filling /\ AFill
        \/ Lists /\ ACommit
        \/ Lists /\ ACommit
        \/ Lists /\ AAppend
        \/ Lists /\ AAppend
        \/ Lists /\ AClone
        \/ (Lists \/ (Free /\ Len(hist) % 5 \in {0, 1})) /\ AReenc
        \/ Lists /\ AReenc
        \/ Proofs /\ ADefine
        \/ Proofs /\ ADefine
        \/ Proofs /\ ANeighbour
        \/ Proofs /\ ACap
        \/ (Proofs \/ (Go /\ OwedProof)) /\ AProve
        \/ Proofs /\ AProve
        \/ Proofs /\ AProve
        \/ Go /\ ~Filling /\ ~OwedProof /\ AVerify
        \/ Proofs /\ AVerify
        \/ Proofs /\ AVerify
        \/ AEmit
Spec == Init /\ [][Next]_gvars

=============================================================================
