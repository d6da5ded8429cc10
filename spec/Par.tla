-------------------------------- MODULE Par --------------------------------
(***************************************************************************)
(* C12.  The parallel matrix product as a fork-join computation on a pool  *)
(* of W workers with work stealing: NP products are computed at the same   *)
(* time; a job is a range of rows, or of columns of one row; a running job *)
(* forks into two halves or computes its only entry; a job whose children  *)
(* are done joins their results in index order.  A worker that waits for a *)
(* join is free to take other jobs.                                        *)
(* Whatever the schedule, every product is the specified one, every entry  *)
(* is computed once, and the computation ends.  The orders in which the    *)
(* entries are completed are printed: the harness forces them on the       *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS BG, FiniteSets, Json, TLC
CONSTANTS NP, NR, NC, K, W
VARIABLES st,    \* job -> "queued", "running", "waiting", "done"
          kids,  \* job -> sequence of children
          val,   \* job -> sequence of results, in index order
          fin    \* entries in the order of their completion
vars == <<st, kids, val, fin>>

\* factors with pairwise different entries in the products
FacA(p) == [i \in 1..NR |-> [k \in 1..K |-> (1 + i + 3 * k + p) % P]]
FacB(p) == [k \in 1..K |-> [j \in 1..NC |-> (2 + 5 * j + k * k) % P]]
Product(p) == FMatMul(FacA(p), FacB(p))
Dot(p, i, j) == FSum(K, LAMBDA k : FMul(FacA(p)[i][k], FacB(p)[k][j]))

RowsJob(p, lo, hi) == <<p, 0, lo, hi>>
ColsJob(p, r, lo, hi) == <<p, r, lo, hi>>
IsRows(j) == j[2] = 0
Root(p) == RowsJob(p, 1, NR)
Jobs == DOMAIN st
Running == {j \in Jobs : st[j] = "running"}

Init == /\ st = [j \in {Root(p) : p \in 1..NP} |-> "queued"]
        /\ kids = [j \in {Root(p) : p \in 1..NP} |-> <<>>]
        /\ val = [j \in {Root(p) : p \in 1..NP} |-> <<>>]
        /\ fin = <<>>
Take(j) == /\ st[j] = "queued" /\ Cardinality(Running) < W
           /\ st' = [st EXCEPT ![j] = "running"]
           /\ UNCHANGED <<kids, val, fin>>
Fork(j, cs) ==
    /\ st[j] = "running"
    /\ st' = [c \in {cs[i] : i \in 1..Len(cs)} |-> "queued"] @@ [st EXCEPT ![j] = "waiting"]
    /\ kids' = [c \in {cs[i] : i \in 1..Len(cs)} |-> <<>>] @@ [kids EXCEPT ![j] = cs]
    /\ val' = [c \in {cs[i] : i \in 1..Len(cs)} |-> <<>>] @@ val
    /\ fin' = fin
Split(j) == /\ j[3] < j[4]
            /\ LET m == (j[3] + j[4]) \div 2
               IN Fork(j, <<<<j[1], j[2], j[3], m>>, <<j[1], j[2], m + 1, j[4]>>>>)
\* one row: its columns are a nested parallel computation
Nest(j) == IsRows(j) /\ j[3] = j[4] /\ Fork(j, <<ColsJob(j[1], j[3], 1, NC)>>)
Compute(j) ==
    /\ ~IsRows(j) /\ j[3] = j[4] /\ st[j] = "running"
    /\ val' = [val EXCEPT ![j] = <<Dot(j[1], j[2], j[3])>>]
    /\ fin' = Append(fin, <<j[1], j[2], j[3]>>)
    /\ st' = [st EXCEPT ![j] = "done"]
    /\ UNCHANGED kids
Join(j) ==
    /\ st[j] = "waiting" /\ \A i \in 1..Len(kids[j]) : st[kids[j][i]] = "done"
    /\ val' = [val EXCEPT ![j] = IF Len(kids[j]) = 1 THEN <<val[kids[j][1]]>>
                                 ELSE val[kids[j][1]] \o val[kids[j][2]]]
    /\ st' = [st EXCEPT ![j] = "done"]
    /\ UNCHANGED <<kids, fin>>
Finished == \A p \in 1..NP : st[Root(p)] = "done"
Step(j) == Take(j) \/ Split(j) \/ Nest(j) \/ Compute(j) \/ Join(j)
Next == \E j \in Jobs : Step(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Correct == \A p \in 1..NP : st[Root(p)] = "done" => val[Root(p)] = Product(p)
Once == /\ Cardinality({fin[i] : i \in 1..Len(fin)}) = Len(fin)
        /\ Finished => Len(fin) = NP * NR * NC
Bounded == Cardinality(Running) <= W
Ends == <>Finished
\* the order of completion, once per order
Report == (\A j \in Jobs : st[j] # "queued" /\ st[j] # "running") /\ Len(fin) = NP * NR * NC
Orders == Report => (st[Root(1)] # "waiting" \/ PrintT("ORDER " \o ToJson(fin)))
=============================================================================
