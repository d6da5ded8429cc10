-------------------------- MODULE TraceFreshClear --------------------------
(***************************************************************************)
(* C07 over the 255-bit field with visible discrete logarithms: every      *)
(* blinding scalar that was *used* (whatever was recorded) is solved for   *)
(* in each call, and the sample has to be Apart.                           *)
(***************************************************************************)
EXTENDS TraceFresh, Apart
FinishClear == /\ l = Len(Calls) + 1
               /\ Apart(vecs) = TRUE
               /\ l' = l + 1
               /\ vecs' = <<>>
SpecClear == Init /\ [][Step \/ FinishClear]_<<l, vecs>>
=============================================================================
