------------------------------ MODULE TraceMemo ------------------------------
(***************************************************************************)
(* C15, trace validation.  The library as a function: one value per case   *)
(* (equal inputs and equal random source), whoever asks, whenever, and on  *)
(* however many threads.  The trace joins the records of several processes *)
(* that executed the same cases in different contexts and orders.          *)
(* State: the value of every case seen so far.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT P
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, memo
Unknown == ""
Ids == Events[1].ids
Init == l = 1 /\ memo = [k \in 1..Ids |-> Unknown]
Context(ev) == ev.op = "ctx" /\ Assert(ev.ids = Ids, <<"DRIVER", l>>) /\ UNCHANGED memo
Learn(ev) == memo[ev.id] = Unknown /\ memo' = [memo EXCEPT ![ev.id] = ev.out]
Recall(ev) == memo[ev.id] = ev.out /\ UNCHANGED memo
Call(ev) == ev.op = "call" /\ ev.kept /\ (Learn(ev) \/ Recall(ev))
\* committing to both sides and proving by hand: one of the two orders of committing gives the value
\* of commit-and-prove
Link(ev) == /\ ev.op = "link" /\ ev.kept
            /\ memo[ev.id] = Unknown \/ \E i \in 1..Len(ev.outs) : memo[ev.id] = ev.outs[i]
            /\ UNCHANGED memo
Step == l <= Len(Events) /\ (Context(Events[l]) \/ Call(Events[l]) \/ Link(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, memo>>
View == l
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
