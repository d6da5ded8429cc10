----------------------------- MODULE Contracts -----------------------------
(***************************************************************************)
(* One contract per public operation of the library.                       *)
(*                                                                         *)
(* A recorded call is a record ev with                                     *)
(*   op      the operation family,                                         *)
(*   st      "ok" or "panic" (the call returned / panicked),               *)
(*   out     the projected result, present only when st = "ok",            *)
(*   ...     the projected arguments.                                      *)
(* Functional operations are described by Refused(ev) (the call must not   *)
(* return) and Expected(ev) (the only result it may return).  Operations   *)
(* with freedom (prove, generate_crs) are described by relations.          *)
(***************************************************************************)
EXTENDS GS, TLC

--------------------------------------------------------------------------
(* C10: commitment groups *)
VAdd(a, b) == [i \in 1..Len(a) |-> FAdd(a[i], b[i])]
VNeg(a) == [i \in 1..Len(a) |-> FNeg(a[i])]
VSub(a, b) == [i \in 1..Len(a) |-> FSub(a[i], b[i])]
VZero(k) == [i \in 1..k |-> FZero]
VSum(k, l) == FoldLeft(LAMBDA acc, x : VAdd(acc, x), VZero(k), l)

GrpRefused(ev) == ev.f = "frombad" /\ ev.shape # (IF ev.w = 3 THEN <<2, 2>> ELSE <<1, 1>>)
GrpExpected(ev) ==
    LET k == Len(ev.a) IN
    CASE ev.f \in {"add", "addassign"} -> VAdd(ev.a, ev.b)
      [] ev.f \in {"sub", "subassign"} -> VSub(ev.a, ev.b)
      [] ev.f = "neg" -> VNeg(ev.a)
      [] ev.f = "sum" -> VSum(k, ev.l)
      [] ev.f = "eq" -> ev.a = ev.b
      [] ev.f = "iszero" -> ev.a = VZero(k)
      [] ev.f = "zero" -> VZero(k)
      [] ev.f \in {"from", "vec"} -> ev.a
      [] ev.f = "colvec" -> <<<<ev.a[1]>>, <<ev.a[2]>>>>
      [] ev.f \in {"smul", "smulbad"} -> [i \in 1..k |-> FMul(ev.s, ev.a[i])]
      [] ev.f = "frombad" -> [i \in 1..k |-> ev.a[1]]
      [] ev.f = "frommat" -> <<<<<<ev.a[1], ev.a[2]>>, <<ev.a[3], ev.a[4]>>>>, ev.a>>

--------------------------------------------------------------------------
(* C11: pairing and linear maps *)
MapRefused(ev) == ev.f = "pairbad"
MapExpected(ev) ==
    CASE ev.f = "pair" -> Pair(ev.a, ev.b)
      [] ev.f = "bilin" -> IF ev.left THEN Pair(CAdd(CMul(ev.s, ev.a), ev.z), ev.b)
                           ELSE Pair(ev.a, CAdd(CMul(ev.s, ev.b), ev.z))
      [] ev.f = "pairsum" -> PairSum(ev.a, ev.b)
      [] ev.f = "lin1" -> Lin1(ev.a)
      [] ev.f = "lin2" -> Lin2(ev.a)
      [] ev.f = "slin1" -> SLin1(ev.a, ev.crs)
      [] ev.f = "slin2" -> SLin2(ev.a, ev.crs)
      [] ev.f = "blin1" -> [i \in 1..Len(ev.a) |-> Lin1(ev.a[i])]
      [] ev.f = "blin2" -> [i \in 1..Len(ev.a) |-> Lin2(ev.a[i])]
      [] ev.f = "bslin1" -> [i \in 1..Len(ev.a) |-> SLin1(ev.a[i], ev.crs)]
      [] ev.f = "bslin2" -> [i \in 1..Len(ev.a) |-> SLin2(ev.a[i], ev.crs)]
      [] ev.f = "linT" -> IotaT(ev.ty, ev.a, ev.crs)
      [] ev.f = "comm" -> LET e == IotaT(ev.ty, FMul(ev.a, ev.b), ev.crs) IN <<e, e>>

--------------------------------------------------------------------------
(* C12: matrices.  w = 0: scalars, 1 / 2: elements of B1 / B2 *)
\* A times B: every row of A has one entry for every row of B; the rows of B are equally long
ProductOK(A, B) == /\ \A i \in 1..Rows(A) : Len(A[i]) = Rows(B)
                   /\ IsMat(B)
MatLeftOK(A, B) == ProductOK(B, A)
MatRightOK(A, B) == ProductOK(A, B)
SumOK(A, B) == IsMat(A) /\ IsMat(B) /\ Rows(A) = Rows(B) /\ Cols(A) = Cols(B)
MatRefused(ev) ==
    CASE ev.f \in {"left", "leftbad"} -> ~MatLeftOK(ev.A, ev.B)
      [] ev.f \in {"right", "rightbad"} -> ~MatRightOK(ev.A, ev.B)
      [] ev.f \in {"add", "addbad"} -> ~SumOK(ev.A, ev.B)
      [] ev.f \in {"smul", "smulbad", "transpose", "transbad"} -> ~IsMat(ev.A)
      [] ev.f = "c2vbad" -> ~(Rows(ev.A) = 1 \/ \A i \in 1..Rows(ev.A) : Len(ev.A[i]) = 1)
      [] OTHER -> FALSE
MatExpected(ev) ==
    CASE ev.f \in {"left", "leftbad"} -> IF ev.w = 0 THEN FMatMul(ev.B, ev.A) ELSE FCMatMul(ev.B, ev.A)
      [] ev.f \in {"right", "rightbad"} -> IF ev.w = 0 THEN FMatMul(ev.A, ev.B) ELSE CFMatMul(ev.A, ev.B)
      [] ev.f \in {"add", "addbad"} -> IF ev.w = 0 THEN FMatAdd(ev.A, ev.B) ELSE CMatAdd(ev.A, ev.B)
      [] ev.f = "neg" -> IF ev.w = 0 THEN FMatNeg(ev.A) ELSE CMatNeg(ev.A)
      [] ev.f \in {"smul", "smulbad"} -> IF ev.w = 0 THEN FMatScale(ev.s, ev.A) ELSE CMatScale(ev.s, ev.A)
      [] ev.f \in {"transpose", "transbad"} -> Transpose(ev.A)
      [] ev.f = "c2vbad" /\ Rows(ev.A) = 1 -> ev.A
      [] ev.f \in {"c2v", "c2vbad"} -> <<[i \in 1..Rows(ev.A) |-> ev.A[i][1]]>>
      [] ev.f = "v2c" -> [j \in 1..Cols(ev.A) |-> <<ev.A[1][j]>>]

--------------------------------------------------------------------------
(* C06: commitments with their recorded randomness *)
RndShape(ev) == /\ Len(ev.rnd) = Len(ev.vals)
                /\ \A i \in 1..Len(ev.rnd) : Len(ev.rnd[i]) = KW(ev.sc)
CommitExpected(ev) ==
    IF ev.side = 1 THEN ComXs(ev.sc, ev.vals, ev.rnd, ev.crs) ELSE ComYs(ev.sc, ev.vals, ev.rnd, ev.crs)
\* what a binding key opens the result to
OpensTo(ev) ==
    /\ Len(ev.out) = Len(ev.vals)
    /\ \A i \in 1..Len(ev.out) :
         ev.vals[i] = IF ev.side = 1
                      THEN (IF ev.sc THEN FMul(Ext1(ev.crs, ev.out[i]), FInv(ev.crs.g1)) ELSE Ext1(ev.crs, ev.out[i]))
                      ELSE (IF ev.sc THEN FMul(Ext2(ev.crs, ev.out[i]), FInv(ev.crs.g2)) ELSE Ext2(ev.crs, ev.out[i]))
CommitOK(ev) ==
    /\ ev.st = "ok"
    /\ ev.has => RndShape(ev) /\ ev.out = CommitExpected(ev)
    /\ Binding(ev.crs) => OpensTo(ev)

--------------------------------------------------------------------------
(* C05 *)
\* relative to the generators drawn: the key that the secrets determine
CrsExpected(ev) == KeyFrom(FOne, FOne, ev.sec[1], ev.sec[2], ev.sec[3], ev.sec[4], FALSE)
CrsOK(ev) == ev.st = "ok" /\ ValidKey(ev.crs)

--------------------------------------------------------------------------
(* Functional contract *)
Functional(op) == op \in {"grp", "map", "mat"}
Refused(ev) == CASE ev.op = "grp" -> GrpRefused(ev)
                 [] ev.op = "map" -> MapRefused(ev)
                 [] ev.op = "mat" -> MatRefused(ev)
                 [] OTHER -> FALSE
Expected(ev) == CASE ev.op = "grp" -> GrpExpected(ev)
                  [] ev.op = "map" -> MapExpected(ev)
                  [] ev.op = "mat" -> MatExpected(ev)
                  [] ev.op = "commit" -> CommitExpected(ev)
                  [] ev.op = "crsbig" -> CrsExpected(ev)
FunctionalOK(ev) == IF Refused(ev) THEN ev.st = "panic" ELSE ev.st = "ok" /\ ev.out = Expected(ev)

\* C12: every way of running the product gave the one specified result
SchedOK(ev) == ev.panics = 0 /\ ev.outs = <<MatExpected(ev)>>

---------------------------------------------------------------------------
(* C16: equality is equality of all parts; a clone is the same object.  When the recorded openings *)
(* cannot be read (`full` is FALSE) only what is visible is compared.                             *)
ArtEqOK(ev) == /\ ev.st = "ok" /\ ev.refl /\ \A i \in 1..Len(ev.clones) : ev.clones[i] = ev.a
               /\ ev.sym = ev.eq /\ ev.ne = ~ev.eq
               /\ ev.eq => ev.a = ev.b
               /\ ev.full => (ev.eq <=> ev.a = ev.b)
LabelOK(ev) == ev.st = "ok" /\ ev.got = <<ev.ty, ev.ty, ev.ty>> /\ ev.proofs = 1

--------------------------------------------------------------------------
(* C01: a completeness case is the real verdict on a real proof *)
CompletePre(ev) == /\ ev.crs.g1 # FZero /\ ev.crs.g2 # FZero
                   /\ WellFormedEq(ev.eq, Len(ev.x), Len(ev.y))
                   /\ Sat(ev.eq, ev.x, ev.y)
CompleteOK(ev) == ev.st = "ok" /\ ev.res = "true"

(* C02 *)
Verdict(b) == IF b THEN "true" ELSE "false"
VerifyPre(ev) == WellFormed(ev.eq, ev.xc, ev.yc, ev.prf)
VerifyOK(ev) == ev.res = Verdict(Accepts(ev.eq, ev.crs, ev.xc, ev.yc, ev.prf))
\* all values of pi[k] and th[h] at once: acc is the list of accepted pairs
AllPts == {<<a, b>> : a \in GFSet, b \in GFSet}
NearSet(ev) ==
    LET base == TSub(VerLhs(ev.eq, ev.crs, ev.xc, ev.yc),
                     VerRhs(ev.eq, ev.crs, [ev.prf[1].pi EXCEPT ![ev.k] = CZero], [ev.prf[1].th EXCEPT ![ev.h] = CZero]))
    IN {pt \in AllPts \X AllPts : TAdd(Pair(ev.crs.u[ev.k], pt[1]), Pair(pt[2], ev.crs.v[ev.h])) = base}
NearOK(ev) == /\ ev.bad = <<>>
              /\ Range(ev.acc) = NearSet(ev)
              /\ Len(ev.acc) = Cardinality(NearSet(ev))

(* C03: a bundle that is not well-formed is not accepted; prove refuses *)
EqMismatch(eq, m, n) == \/ Len(eq.a) # n \/ Len(eq.b) # m \/ Len(eq.g) # m
                        \/ \E i \in 1..Len(eq.g) : Len(eq.g[i]) # n
IllFormed(ev) == \/ EqMismatch(ev.eq, Len(ev.xc), Len(ev.yc))
                 \/ Len(ev.prf) # 1
                 \/ ev.prf[1].ty # ev.eq.ty
                 \/ ~WellFormedProof(ev.eq.ty, ev.prf[1].pi, ev.prf[1].th)
IllVerifyOK(ev) == IllFormed(ev) => ev.res # "true"
\* xk, yk: number of scalars of each opening; nx, ny: number of commitments
IllPosed(ev) ==
    \/ EqMismatch(ev.eq, Len(ev.x), Len(ev.y))
    \/ ev.nx # Len(ev.x) \/ ev.ny # Len(ev.y)
    \/ Len(ev.xk) # ev.nx \/ Len(ev.yk) # ev.ny
    \/ \E i \in 1..Len(ev.xk) : ev.xk[i] # KW(XScalar(ev.eq.ty))
    \/ \E j \in 1..Len(ev.yk) : ev.yk[j] # KW(YScalar(ev.eq.ty))
IllProveOK(ev) == IllPosed(ev) => ev.st = "panic"

--------------------------------------------------------------------------
(* C04: joint distribution of what the verifier receives *)
Blinders(ev) == LET m == EqM(ev.eq) n == EqN(ev.eq) kx == PiLen(ev.eq.ty) ky == ThLen(ev.eq.ty)
                IN (IF ev.fixed THEN 0 ELSE m * kx + n * ky) + kx * ky
RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)
Support(d) == {[c |-> d[i].c, d |-> d[i].d, pi |-> d[i].pi, th |-> d[i].th] : i \in 1..Len(d)}
\* total variation bound: sum of squares of the counts close to that of a uniform distribution
SumSq(d) == FoldLeft(LAMBDA acc, i : acc + d[i].n * d[i].n, 0, Idx(Len(d)))
\* chi-square: (K * SumSq - N^2) / N has mean K - 1 and standard deviation sqrt(2 (K-1));
\* bound at K - 1 + 12 * sqrt(2 K) + 60, computed per sample count to stay in 31 bits
WiUniform(d, K, per) ==
    \* sum (n - per)^2 / per <= K + 12*sqrt(2K) + 60
    LET dev == FoldLeft(LAMBDA acc, i : acc + (d[i].n - per) * (d[i].n - per), 0, Idx(Len(d)))
        chi == dev \div per
        over == chi - K - 60
    IN over <= 0 \/ over * over <= 288 * K
WiOK(ev) ==
    LET K == IPow(P, Blinders(ev))
        per == ev.samples \div K
    IN /\ Hiding(ev.crs)
       /\ ev.panics = 0
       /\ \A w \in 1..2 :
            /\ Sat(ev.eq, ev.wit[w].x, ev.wit[w].y)
            /\ Len(ev.dist[w]) = K
            /\ \A i \in 1..Len(ev.dist[w]) :
                  LET o == ev.dist[w][i] IN
                  WellFormedProof(ev.eq.ty, o.pi, o.th) /\ Relation(ev.eq, ev.crs, o.c, o.d, o.pi, o.th)
            /\ WiUniform(ev.dist[w], K, per)
       /\ ~ev.fixed => Support(ev.dist[1]) = Support(ev.dist[2])
============================================================================
