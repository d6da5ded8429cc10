------------------------------- MODULE Expect -------------------------------
(***************************************************************************)
(* For groups whose discrete logarithms cannot be computed: what the       *)
(* contracts require of every recorded call, written out as exponents, one *)
(* record per event.  The harness turns the exponents into group elements  *)
(* and compares (`gsv compare`).                                           *)
(***************************************************************************)
EXTENDS Contracts, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
Say(s, r, e) == [skip |-> s, refused |-> r, exp |-> e]
One(ev) ==
    IF ev.op = "commit"
    THEN IF ev.st # "ok" THEN Say(FALSE, FALSE, <<>>)
         ELSE IF ~ev.has THEN Say(TRUE, FALSE, <<>>)
         ELSE IF RndShape(ev) THEN Say(FALSE, FALSE, CommitExpected(ev)) ELSE Say(FALSE, TRUE, <<>>)
    ELSE IF Refused(ev) THEN Say(FALSE, TRUE, <<>>) ELSE Say(FALSE, FALSE, Expected(ev))
VARIABLES l, out
Init == l = 1 /\ out = <<>>
Step == l <= Len(Events) /\ l' = l + 1 /\ out' = Append(out, One(Events[l]))
Done == /\ l = Len(Events) + 1
        /\ ndJsonSerialize(IOEnv.OUT, out)
        /\ l' = l + 1 /\ out' = <<>>
Spec == Init /\ [][Step \/ Done]_<<l, out>>
View == l
=============================================================================
