--------------------------- MODULE TraceKeysClear --------------------------
(***************************************************************************)
(* C05 over the 255-bit field with visible discrete logarithms: every key  *)
(* must be valid, and the six secrets of all the keys have to be Apart.    *)
(***************************************************************************)
EXTENDS TraceKeys, Apart
FinishClear == /\ l = Len(Events) + 1
               /\ Apart(vecs) = TRUE
               /\ l' = l + 1
               /\ vecs' = <<>>
SpecClear == Init /\ [][Step \/ FinishClear]_<<l, vecs>>
=============================================================================
