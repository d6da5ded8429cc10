----------------------------- MODULE TraceKeys ------------------------------
(***************************************************************************)
(* C05.  Keys generated one after the other with one random source.  Each  *)
(* must be valid; the secrets behind it - generators p1, p2, trapdoors a1, *)
(* a2, multipliers t1, t2 - are solved for, and any two or three of them   *)
(* (of one key), or any two of successive keys, must take every            *)
(* combination of values with a frequency within SIGMAS standard           *)
(* deviations of uniform.                                                  *)
(***************************************************************************)
EXTENDS Contracts, Json, IOUtils
CONSTANT SIGMAS
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, vecs

Secrets(k) == <<k.g1, k.g2,
                FMul(k.u[1][2], FInv(k.u[1][1])), FMul(k.v[1][2], FInv(k.v[1][1])),
                FMul(k.u[2][1], FInv(k.u[1][1])), FMul(k.v[2][1], FInv(k.v[1][1]))>>
Init == l = 1 /\ vecs = <<>>
Step == /\ l <= Len(Events)
        /\ CrsOK(Events[l])
        /\ vecs' = Append(vecs, Secrets(Events[l].crs))
        /\ l' = l + 1

\* the generators are not zero
Size(i) == IF (i - 1) % 6 < 2 THEN P - 1 ELSE P
Val(v, i) == IF (i - 1) % 6 < 2 THEN v[i] - 1 ELSE v[i]
Abs(x) == IF x < 0 THEN -x ELSE x
\* |cells * c - n|^2 <= SIGMAS^2 * cells * n
Fits(cells, n, c) == LET dv == Abs(cells * c - n) IN dv * dv <= SIGMAS * SIGMAS * cells * n
Even(data, idx) ==
    LET cells == FoldLeft(LAMBDA a, i : a * Size(i), 1, idx)
        at(v) == FoldLeft(LAMBDA a, i : a * Size(i) + Val(v, i), 0, idx) + 1
        cnt == FoldLeft(LAMBDA a, v : [a EXCEPT ![at(v)] = @ + 1], [k \in 1..cells |-> 0], data)
    IN (\A k \in 1..cells : Fits(cells, Len(data), cnt[k])) \/ (PrintT(<<"DEPENDENT", idx>>) /\ FALSE)
Both == [k \in 1..(Len(vecs) - 1) |-> vecs[k] \o vecs[k + 1]]
Verdicts == /\ \A i \in 1..4, j \in 2..5, k \in 3..6 : i < j /\ j < k => Even(vecs, <<i, j, k>>)
            /\ \A i \in 1..6, j \in 7..12 : Even(Both, <<i, j>>)
Finish == /\ l = Len(Events) + 1
          /\ Assert(Len(vecs) >= 20 * P * P * P, <<"DRIVER", Len(vecs)>>)
          /\ Verdicts = TRUE
          /\ l' = l + 1
          /\ vecs' = <<>>
Spec == Init /\ [][Step \/ Finish]_<<l, vecs>>
View == l
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Events) + 1 THEN TRUE
            ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
