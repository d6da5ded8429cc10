---------------------------- MODULE TraceFresh -----------------------------
(***************************************************************************)
(* C07.  Under a hiding key the commitments and the proof determine every  *)
(* blinding scalar.  The specification solves for them in each recorded    *)
(* call and requires the resulting sample to look like independent uniform *)
(* draws: every pair of blinders of one call - and of two successive calls *)
(* made with the same random source - takes every pair of values with a    *)
(* frequency within SIGMAS standard deviations of uniform.                 *)
(***************************************************************************)
EXTENDS Contracts, Json, IOUtils
CONSTANT SIGMAS
Events == ndJsonDeserialize(IOEnv.TRACE)
Key == Events[1].crs
Calls == SubSeq(Events, 2, Len(Events))
VARIABLES l, vecs

Det(a, b) == FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))
\* the unique <<r1, r2>> with c = r1 * w[1] + r2 * w[2]
Solve2(c, w) == LET d == FInv(Det(w[1], w[2]))
                IN <<FMul(Det(c, w[2]), d), FMul(Det(w[1], c), d)>>
Solve1(c, w) == <<FMul(c[1], FInv(w[1][1]))>>
Solve(k, c, w) == IF k = 2 THEN Solve2(c, w) ELSE Solve1(c, w)

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
RndX(ty, xs, cs) == [i \in 1..Len(xs) |-> Solve(KW(XScalar(ty)), CSub(cs[i], Iota1(ty, xs[i], Key)), Key.u)]
RndY(ty, ys, ds) == [j \in 1..Len(ys) |-> Solve(KW(YScalar(ty)), CSub(ds[j], Iota2(ty, ys[j], Key)), Key.v)]
\* T from theta
RndT(eq, xs, ys, S, th) ==
    [h \in 1..ThLen(eq.ty) |->
       LET known == CAdd(CSum(Len(ys), LAMBDA j : CMul(S[j][h], Iota1(eq.ty, eq.a[j], Key))),
                         CSum(Len(xs), LAMBDA i : CMul(FSum(Len(ys), LAMBDA j : FMul(S[j][h], eq.g[i][j])), Iota1(eq.ty, xs[i], Key))))
       IN Solve(PiLen(eq.ty), CSub(th[h], known), Key.u)]

Shaped(ev) == /\ Len(ev.xc) = Len(ev.x) /\ Len(ev.yc) = Len(ev.y)
              /\ Len(ev.p1.th) = ThLen(ev.eq.ty) /\ Len(ev.p2.th) = ThLen(ev.eq.ty)
Vector(ev) ==
    IF ev.op = "fresh" THEN
        LET R == RndX(ev.eq.ty, ev.x, ev.xc)
            S == RndY(ev.eq.ty, ev.y, ev.yc)
        IN Concat(R) \o Concat(S) \o Concat(RndT(ev.eq, ev.x, ev.y, S, ev.p1.th))
                     \o Concat(RndT(ev.eq, ev.x, ev.y, S, ev.p2.th))
    ELSE Solve2(CSub(ev.a[1], Lin1(ev.v[1])), Key.u) \o Solve1(CSub(ev.b[1], SLin1(ev.v[2], Key)), Key.u)
         \o Solve2(CSub(ev.d[1], Lin2(ev.v[3])), Key.v) \o Solve1(CSub(ev.e[1], SLin2(ev.v[4], Key)), Key.v)

Init == l = 1 /\ vecs = <<>>
Step == /\ l <= Len(Calls)
        /\ Assert(Hiding(Key), <<"DRIVER", 0>>)
        /\ Calls[l].st = "ok"
        /\ Calls[l].op = "fresh" => Shaped(Calls[l])
        /\ vecs' = Append(vecs, Vector(Calls[l]))
        /\ l' = l + 1

(* The statistics, over the vectors of pairs of successive calls *)
Width == Len(vecs[1])
Both == [k \in 1..(Len(vecs) - 1) |-> vecs[k] \o vecs[k + 1]]
Pairs == IF Width <= 24
         THEN {<<i, j>> \in (1..Width) \X (1..2 * Width) : i < j}
         ELSE {<<i, j>> \in (1..Width) \X (1..2 * Width) :
                 j - i \in {1, 2, 3, 4, 8, 16, 32, 64, Width - 1, Width, Width + 1} \/ (i <= 2 /\ j > i) \/ (j = Width /\ i < j)}
Abs(x) == IF x < 0 THEN -x ELSE x
CountsOK(i, j) ==
    LET n == Len(Both)
        cnt == FoldLeft(LAMBDA acc, v : [acc EXCEPT ![P * v[i] + v[j] + 1] = @ + 1], [k \in 1..(P * P) |-> 0], Both)
        \* (P*P*c - n)^2 <= SIGMAS^2 * P*P * n   <=>  |c - mu| <= SIGMAS * sqrt(mu)
    IN \A k \in 1..(P * P) : LET dv == Abs(P * P * cnt[k] - n) IN dv * dv <= SIGMAS * SIGMAS * P * P * n
Verdicts == \A pr \in Pairs : CountsOK(pr[1], pr[2]) \/ (PrintT(<<"DEPENDENT", pr, Width>>) /\ FALSE)

Finish == /\ l = Len(Calls) + 1
          /\ Assert(Len(Both) >= 60 * P * P, <<"DRIVER", Len(Both)>>)
          /\ Verdicts = TRUE
          /\ l' = l + 1
          /\ vecs' = <<>>
Spec == Init /\ [][Step \/ Finish]_<<l, vecs>>
View == l
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Calls) + 1 THEN TRUE
            ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
