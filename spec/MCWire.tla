------------------------------- MODULE MCWire -------------------------------
(***************************************************************************)
(* The format itself: encoding then decoding is the identity and consumes  *)
(* exactly the encoding, whatever follows; encodings are prefix-free and   *)
(* injective; what the decoder accepts is valid; strict prefixes of        *)
(* encodings are rejected.  Objects and byte strings are enumerated.       *)
(***************************************************************************)
EXTENDS Wire
CONSTANTS Small,      \* lists have at most this length
          Arts        \* the artefacts looked at
VARIABLES ph, name, comp, obj, bytes

Pick(S, k) == IF Cardinality(S) <= k THEN S ELSE CHOOSE T \in SUBSET S : Cardinality(T) = k
P1 == {<<>>} \cup {CHOOSE P \in Sub1 : P # <<>> /\ 2 * P[2] > Q1} \cup {CHOOSE P \in Sub1 : P # <<>> /\ 2 * P[2] <= Q1}
P2 == {<<>>} \cup {CHOOSE P \in Sub2 : P # <<>> /\ 2 * P[2] > Q2} \cup {CHOOSE P \in Sub2 : P # <<>> /\ 2 * P[2] <= Q2}
PT == {<<1, 0>>, CHOOSE z \in (0..(QT - 1)) \X (0..(QT - 1)) : z # <<1, 0>> /\ SubT(z)}
RECURSIVE Objs(_, _), Prod(_, _)
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Objs(t, n) == CASE t.k = "fr" -> {0, R - 1}
                [] t.k = "g1" -> P1
                [] t.k = "g2" -> P2
                [] t.k = "gt" -> PT
                [] t.k = "tag" -> 0..3
                [] t.k = "vec" -> SeqsUpTo(IF t.of.k = "vec" THEN {<<>>, <<R - 1>>, <<0, 1>>}
                                           ELSE IF t.of.k = "rec" THEN LET S == Objs(t.of.of[1], n) IN {<<x, y>> \in S \X S : x # y}
                                           ELSE Objs(t.of, n), n)
                [] t.k = "rec" -> Prod(t.of, n)
Prod(ts, n) == IF ts = <<>> THEN {<<>>} ELSE {<<o>> \o r : o \in Objs(ts[1], n), r \in Prod(Tail(ts), n)}

CurveFacts ==
    /\ Sub1 = {P \in Curve(Q1, A1, B1) : MulPt(Q1, A1, R, P) = <<>>}
    /\ Cardinality(Sub1) = R /\ Cardinality(Sub2) = R
    /\ Sub1 # Curve(Q1, A1, B1)
ASSUME CurveFacts

Bound(n) == IF n \in {"Key", "PPE", "MS1", "MS2", "QUAD", "Proof"} THEN 1 ELSE Small
Init == ph = 0 /\ name \in Arts /\ comp \in BOOLEAN /\ obj = <<>> /\ bytes = <<>>
Choose == ph = 0 /\ ph' = 1 /\ obj' \in Objs(Type(name), Bound(name)) /\ bytes' = Encode(Type(name), obj', comp)
          /\ UNCHANGED <<name, comp>>
\* arbitrary bytes behind the encoding
Noise == ph = 1 /\ ph' = 2 /\ \E z \in {0, 64, 255} : bytes' = bytes \o <<z, 255 - z>>
         /\ UNCHANGED <<name, comp, obj>>
\* one byte changed
Hit == ph = 1 /\ ph' = 3 /\ \E i \in 1..Len(bytes) : \E z \in {0, 1, 3, 4, 40, 41, 64, 127, 128, 192, 255} : bytes' = [bytes EXCEPT ![i] = z]
       /\ UNCHANGED <<name, comp, obj>>
Next == Choose \/ Noise \/ Hit
Spec == Init /\ [][Next]_<<ph, name, comp, obj, bytes>>
D == Decode(Type(name), bytes, 1, comp)
RoundTrip == ph \in {1, 2} => D.ok /\ D.v = obj /\ D.p - 1 = Len(Encode(Type(name), obj, comp))
NoPrefix == ph = 1 => \A n \in 0..(Len(bytes) - 1) : ~Decode(Type(name), SubSeq(bytes, 1, n), 1, comp).ok
OnlyValid == ph = 3 /\ D.ok => /\ ValidObj(Type(name), D.v)
                               /\ Decode(Type(name), Encode(Type(name), D.v, comp), 1, comp).v = D.v
=============================================================================
