----------------------------- MODULE TraceHist -----------------------------
(***************************************************************************)
(* Validation of replayed histories: every recorded call must be a step of *)
(* GSSystem, and the whole state observed after it must be the state that  *)
(* step leads to.                                                          *)
(*                                                                         *)
(* Exact: elements are observed as exponents (toy groups), so commitments, *)
(* proofs and verdicts are all decided.  Otherwise (BLS12-381) elements    *)
(* are opaque strings: list operations and purity are decided on them as   *)
(* they are, verdicts by completeness and perfect soundness.               *)
(***************************************************************************)
EXTENDS GSSystem, Json, IOUtils
CONSTANT Exact
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          made,   \* made[p]: [eq, x, y, xv, yv] what proof p was made for, or <<>>
          seen    \* inexact mode: verdicts given so far in this history
tvars == <<vars, l, made, seen>>

Ev == Events[l]
Nothing == [p \in 1..NPrf |-> <<>>]

TInit == SysInit /\ l = 1 /\ made = Nothing /\ seen = <<>>
IsOp(o) == l <= Len(Events) /\ Ev.op = o /\ l' = l + 1

Reset == /\ IsOp("reset")
         /\ key' = NoKey /\ xs' = [i \in 1..NReg |-> EmptyList] /\ ys' = [i \in 1..NReg |-> EmptyList]
         /\ eqs' = [i \in 1..NEq |-> NoEq] /\ prfs' = [i \in 1..NPrf |-> NoProof] /\ last' = "ok"
         /\ made' = Nothing /\ seen' = <<>>

SameRnd(L, o) == (o.has /\ Len(L.rnd) = Len(L.coms)) => L.rnd = o.rnd
Same(L, o) == L.coms = o.coms /\ SameRnd(L, o)
Observed == /\ \A i \in 1..NReg : Same(xs'[i], Ev.obs.x[i]) /\ Same(ys'[i], Ev.obs.y[i])
            /\ \A p \in 1..NPrf : prfs'[p].ty = Ev.obs.p[p].ty /\ prfs'[p].pi = Ev.obs.p[p].pi /\ prfs'[p].th = Ev.obs.p[p].th

TSetup == IsOp("setup") /\ Setup(Ev.crs) /\ Observed /\ UNCHANGED <<made, seen>>
\* the new list, with the outcome that was observed
NewList(o) == [kinds |-> [i \in 1..Len(Ev.vals) |-> Ev.sc], vals |-> Ev.vals, coms |-> o.coms, rnd |-> o.rnd]
TCommit == /\ IsOp("commit") /\ Ev.st = "ok"
           /\ LET o == IF Ev.side = 1 THEN Ev.obs.x[Ev.reg] ELSE Ev.obs.y[Ev.reg]
                  L == NewList(o)
              IN /\ IF Exact THEN Commit(Ev.side, Ev.reg, L)
                    ELSE /\ Len(L.coms) = Len(L.vals)
                         /\ SetList(Ev.side, Ev.reg, L) /\ last' = "ok" /\ UNCHANGED <<key, eqs, prfs>>
                 /\ o.has => Len(o.rnd) = Len(o.coms)
           /\ Observed /\ UNCHANGED <<made, seen>>
TAppend == IsOp("append") /\ Ev.st = "ok" /\ Append_(Ev.side, Ev.dst, Ev.src) /\ Observed /\ UNCHANGED <<made, seen>>
TClone == IsOp("clone") /\ Ev.st = "ok" /\ Clone(Ev.side, Ev.dst, Ev.src) /\ Observed /\ UNCHANGED <<made, seen>>
TReenc == IsOp("reenc") /\ Ev.st = "ok" /\ Reencode /\ Observed /\ UNCHANGED <<made, seen>>
TDefine == IsOp("eq") /\ Define(Ev.reg, Ev.eq) /\ Observed /\ UNCHANGED <<made, seen>>

ProveBig(p, e, i, j) ==
    /\ IF ProveDefined(eqs[e], xs[i], ys[j])
       THEN /\ WellFormedProof(eqs[e].ty, Ev.obs.p[p].pi, Ev.obs.p[p].th)
            /\ prfs' = [prfs EXCEPT ![p] = [ty |-> eqs[e].ty, pi |-> Ev.obs.p[p].pi, th |-> Ev.obs.p[p].th]]
            /\ last' = "ok"
       ELSE prfs' = prfs /\ last' = "refused"
    /\ UNCHANGED <<key, xs, ys, eqs>>
TProve == /\ IsOp("prove") /\ Ev.st = "ok"
          /\ Assert(Ev.x = xs[Ev.xr].vals /\ Ev.y = ys[Ev.yr].vals, <<"DRIVER", l>>)
          /\ IF Exact THEN Prove(Ev.reg, Ev.er, Ev.xr, Ev.yr, Ev.obs.p[Ev.reg].pi, Ev.obs.p[Ev.reg].th)
             ELSE ProveBig(Ev.reg, Ev.er, Ev.xr, Ev.yr)
          /\ last' = Ev.res
          /\ Observed
          /\ made' = IF last' = "ok"
                     THEN [made EXCEPT ![Ev.reg] = [eq |-> eqs[Ev.er], x |-> xs[Ev.xr].coms, y |-> ys[Ev.yr].coms]]
                     ELSE made
          /\ UNCHANGED seen

\* commit_and_prove: the two lists and the proof are seen in the registers they were put in
CapList(sc, vs, o) == [kinds |-> [k \in 1..Len(vs) |-> sc], vals |-> vs, coms |-> o.coms, rnd |-> o.rnd]
CapBig(p, e, i, j, L, M, pi, th) ==
    /\ IF ProveDefined(eqs[e], L, M)
       THEN /\ Len(L.coms) = Len(L.vals) /\ Len(M.coms) = Len(M.vals) /\ WellFormedProof(eqs[e].ty, pi, th)
            /\ xs' = [xs EXCEPT ![i] = L] /\ ys' = [ys EXCEPT ![j] = M]
            /\ prfs' = [prfs EXCEPT ![p] = [ty |-> eqs[e].ty, pi |-> pi, th |-> th]]
            /\ last' = "ok"
       ELSE xs' = xs /\ ys' = ys /\ prfs' = prfs /\ last' = "refused"
    /\ UNCHANGED <<key, eqs>>
TCap == /\ IsOp("cap") /\ Ev.st = "ok"
        /\ LET q == eqs[Ev.er]  ox == Ev.obs.x[Ev.xr]  oy == Ev.obs.y[Ev.yr]  op == Ev.obs.p[Ev.reg]
               L == CapList(XScalar(q.ty), Ev.x, ox)
               M == CapList(YScalar(q.ty), Ev.y, oy)
           IN IF Exact THEN CommitProve(Ev.reg, Ev.er, Ev.xr, Ev.yr, L, M, op.pi, op.th)
              ELSE CapBig(Ev.reg, Ev.er, Ev.xr, Ev.yr, L, M, op.pi, op.th)
        /\ last' = Ev.res
        /\ Observed
        /\ made' = IF last' = "ok"
                   THEN [made EXCEPT ![Ev.reg] = [eq |-> eqs[Ev.er], x |-> xs'[Ev.xr].coms, y |-> ys'[Ev.yr].coms]]
                   ELSE made
        /\ UNCHANGED seen

\* what can be said about a verdict without seeing exponents
Bundle(e, i, j, p) == <<eqs[e], xs[i].coms, ys[j].coms, prfs[p]>>
WF(e, i, j, p) == eqs[e].ty \in Types /\ WellFormed(eqs[e], xs[i].coms, ys[j].coms, <<prfs[p]>>)
SatNow(e, i, j) == Sat(eqs[e], xs[i].vals, ys[j].vals)
KindsFit(e, i, j) == ProveDefined(eqs[e], xs[i], ys[j])
BigVerdict(e, i, j, p, res) ==
    IF ~WF(e, i, j, p) THEN res # "true"
    ELSE /\ res \in {"true", "false"}
         /\ (made[p] = [eq |-> eqs[e], x |-> xs[i].coms, y |-> ys[j].coms] /\ SatNow(e, i, j)) => res = "true"
         /\ (Binding(key) /\ KindsFit(e, i, j) /\ ~SatNow(e, i, j)) => res = "false"
         /\ \A k \in 1..Len(seen) : seen[k][1] = Bundle(e, i, j, p) => seen[k][2] = res
TVerify == /\ IsOp("verify") /\ Ev.st = "ok"
           /\ IF Exact THEN /\ Verify(Ev.er, Ev.xr, Ev.yr, Ev.pr)
                            \* refusing a bundle that is not well-formed may also be a panic
                            /\ (Ev.res = last' \/ (Ev.res = "panic" /\ ~WF(Ev.er, Ev.xr, Ev.yr, Ev.pr)))
                            /\ UNCHANGED seen
              ELSE /\ BigVerdict(Ev.er, Ev.xr, Ev.yr, Ev.pr, Ev.res)
                   /\ seen' = Append(seen, <<Bundle(Ev.er, Ev.xr, Ev.yr, Ev.pr), Ev.res>>)
                   /\ last' = Ev.res /\ UNCHANGED <<key, xs, ys, eqs, prfs>>
           /\ Observed /\ UNCHANGED made
TNext == Reset \/ TSetup \/ TCommit \/ TAppend \/ TClone \/ TReenc \/ TDefine \/ TProve \/ TCap \/ TVerify
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
