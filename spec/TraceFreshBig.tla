--------------------------- MODULE TraceFreshBig ---------------------------
(***************************************************************************)
(* C07 on the 255-bit field: the recorded blinding scalars (16-bit limbs,  *)
(* least significant first).  All of them are different from each other,   *)
(* and in every class (equation type, side or proof) every limb varies     *)
(* over its whole range.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Types == {"PPE", "MS1", "MS2", "QUAD"}
Fields == {"rx", "ry", "rp"}
Get(ev, c) == CASE c = "rx" -> ev.rx [] c = "ry" -> ev.ry [] c = "rp" -> ev.rp
SetOf(s) == {s[i] : i \in 1..Len(s)}

\* one call: all its scalars differ
Distinct(s) == Cardinality(SetOf(s)) = Len(s)
Init == l = 1
\* Two calls with sources that agree on their first `keep` bytes and differ afterwards.  A uniform scalar
\* (or a uniform multiple of a generator) holds more than 254 bits, so independent ones that come out the
\* same in both calls use up that much of the common part each.
Common(s, t) == Cardinality(SetOf(s) \cap SetOf(t))
EntropyOK(ev) == \A c \in {Common(ev.s1, ev.s2), Common(ev.e1, ev.e2)} : 254 * c <= 8 * ev.keep
Step == /\ l <= Len(Events)
        /\ Events[l].st = "ok"
        /\ (Events[l].op = "entropy" => EntropyOK(Events[l])) = TRUE
        /\ (Events[l].op = "freshbig" /\ Events[l].has => Distinct(Events[l].rx \o Events[l].ry \o Events[l].rp)) = TRUE
        /\ l' = l + 1

\* every scalar as one value; the whole session
Collect(fields, types) ==
    FoldLeft(LAMBDA acc, ev : IF ev.op = "freshbig" /\ ev.has /\ ev.ty \in types
                              THEN acc \o FoldLeft(LAMBDA a, f : a \o Get(ev, f), <<>>, SetToSeq(fields))
                              ELSE acc, <<>>, Events)
Cut(vs) == IF Len(vs) > 2000 THEN SubSeq(vs, 1, 2000) ELSE vs
\* n values of a limb: almost all distinct, and both halves of the range are hit
LimbOK(vs, k) ==
    LET n == Len(vs)
        half == IF k = 16 THEN 14838 ELSE 32768
        top == Cardinality({i \in 1..n : vs[i][k] >= half})
    IN n >= 40 =>
       /\ Cardinality({vs[i][k] : i \in 1..n}) * 100 >= n * 85 - 200
       /\ top * 10 >= n
       /\ top * 10 <= 9 * n
Verdicts ==
    /\ Distinct(Collect(Fields, Types)) \/ (PrintT(<<"REPEATED">>) /\ FALSE)
    /\ \A ty \in Types : \A f \in Fields :
         LET vs == Cut(Collect({f}, {ty}))
         IN \A k \in 1..16 : LimbOK(vs, k) \/ (PrintT(<<"LIMB", ty, f, k>>) /\ FALSE)
Finish == /\ l = Len(Events) + 1
          /\ Verdicts = TRUE
          /\ l' = l + 1
Spec == Init /\ [][Step \/ Finish]_l
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Events) + 1 THEN TRUE
            ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
