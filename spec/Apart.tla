------------------------------- MODULE Apart -------------------------------
(***************************************************************************)
(* Samples of the 255-bit field.  Uniform independent elements of that     *)
(* size never meet again: over a session the elements, their negatives and *)
(* doubles, and the sums and differences of elements at a given distance,  *)
(* are all different, and every 16-bit limb takes its whole range.         *)
(***************************************************************************)
EXTENDS GF, SequencesExt, FiniteSets
LOCAL INSTANCE TLC
LOCAL SetOf(s) == {s[i] : i \in 1..Len(s)}
LOCAL Differ(s) == Cardinality(SetOf(s)) = Len(s)
LOCAL Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
LOCAL Mixed(s, d) == [i \in 1..(Len(s) - d) |-> FSub(s[i + d], s[i])] \o [i \in 1..(Len(s) - d) |-> FAdd(s[i + d], s[i])]
LOCAL Spread(s) ==
    \A k \in 1..16 :
       LET n == Len(s)
           v == [i \in 1..n |-> FLimb(s[i], k)]
           half == IF k = 16 THEN 14838 ELSE 32768
           top == Cardinality({i \in 1..n : v[i] >= half})
       IN n >= 60 =>
          /\ Cardinality(SetOf(v)) * 100 >= n * 85 - 200
          /\ top * 10 >= n
          /\ top * 10 <= 9 * n
LOCAL Cut(s) == IF Len(s) > 2000 THEN SubSeq(s, 1, 2000) ELSE s
LOCAL Say(b, what) == b \/ (PrintT(<<"DEPENDENT", what>>) /\ FALSE)
\* the vectors of a session, all of the same width
Apart(vecs) ==
    LET a == Flat(vecs)
        w == Len(vecs[1])
    IN /\ Say(Differ(a \o [i \in 1..Len(a) |-> FNeg(a[i])] \o [i \in 1..Len(a) |-> FAdd(a[i], a[i])]), "scalars")
       /\ \A d \in {1, 2, 3, 4, w} : Len(a) > d => Say(Differ(Mixed(a, d)), <<"sums and differences", d>>)
       /\ Say(Spread(Cut(a)), "limbs")
       \* each place of the vectors by itself
       /\ \A i \in 1..w : Say(Spread(Cut([k \in 1..Len(vecs) |-> vecs[k][i]])), <<"limbs of", i>>)
=============================================================================
