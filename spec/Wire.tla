-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The byte-level format of the artefacts, on a small pairing group whose  *)
(* two source curves have a cofactor:                                      *)
(*    y^2 = x^3 + A1 x + B1 over Z/Q1,   y^2 = x^3 + A2 x + B2 over Z/Q2,  *)
(* target group of order R inside (Z/QT)[i], i^2 = -1.                     *)
(* An object is built from scalars (integers), points (<<>> or <<x, y>>),  *)
(* target elements <<c0, c1>>, tags 0..3, lists and records (tuples).      *)
(* Bytes are integers 0..255; lists carry a little-endian 64-bit length.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS R, Q1, A1, B1, Q2, A2, B2, QT

Byte == 0..255
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
Width(q, flags) == (Bits(q) + flags + 7) \div 8
RECURSIVE LE(_, _)
LE(v, w) == IF w = 0 THEN <<>> ELSE <<v % 256>> \o LE(v \div 256, w - 1)
RECURSIVE FromLE(_)
FromLE(b) == IF b = <<>> THEN 0 ELSE b[1] + 256 * FromLE(Tail(b))

-----------------------------------------------------------------------------
(* The curves *)
Rhs(q, a, b, x) == (x * x * x + a * x + b) % q
OnCurve(q, a, b, P) == P = <<>> \/ (P[1] \in 0..(q - 1) /\ P[2] \in 0..(q - 1) /\ (P[2] * P[2]) % q = Rhs(q, a, b, P[1]))
Inv(q, x) == CHOOSE y \in 1..(q - 1) : (x * y) % q = 1
AddPt(q, a, P, S) ==
    IF P = <<>> THEN S ELSE IF S = <<>> THEN P
    ELSE IF P[1] = S[1] /\ (P[2] + S[2]) % q = 0 THEN <<>>
    ELSE LET l == IF P = S THEN ((3 * P[1] * P[1] + a) * Inv(q, (2 * P[2]) % q)) % q
                  ELSE (((S[2] - P[2]) % q) * Inv(q, (S[1] - P[1]) % q)) % q
             x == (l * l - P[1] - S[1]) % q
         IN <<x, (l * (P[1] - x) - P[2]) % q>>
RECURSIVE MulPt(_, _, _, _)
MulPt(q, a, k, P) == IF k = 0 THEN <<>>
                     ELSE IF k % 2 = 1 THEN AddPt(q, a, P, MulPt(q, a, k - 1, P))
                     ELSE MulPt(q, a, k \div 2, AddPt(q, a, P, P))
Curve(q, a, b) == {<<>>} \cup {P \in (0..(q - 1)) \X (0..(q - 1)) : OnCurve(q, a, b, P)}
\* square roots, smaller one first
Root(q) == TLCEval([v \in 0..(q - 1) |-> IF \E y \in 0..(q \div 2) : (y * y) % q = v
                                         THEN CHOOSE y \in 0..(q \div 2) : (y * y) % q = v ELSE -1])
Root1 == Root(Q1)
Root2 == Root(Q2)
\* the points whose order divides R: multiples of any point of order R
\* (no recursion here, so that TLC evaluates the tables only once)
Times(q, a, k, P) == FoldLeft(LAMBDA acc, i : AddPt(q, a, acc, P), <<>>, [i \in 1..k |-> i])
SubOf(q, a, b, root) ==
    LET x == CHOOSE x \in 0..(q - 1) : root[Rhs(q, a, b, x)] # -1 /\ Times(q, a, R, <<x, root[Rhs(q, a, b, x)]>>) = <<>>
    IN TLCEval({Times(q, a, k, <<x, root[Rhs(q, a, b, x)]>>) : k \in 0..(R - 1)})
Sub1 == SubOf(Q1, A1, B1, Root1)
Sub2 == SubOf(Q2, A2, B2, Root2)
MulT(x, y) == <<(x[1] * y[1] - x[2] * y[2]) % QT, (x[1] * y[2] + x[2] * y[1]) % QT>>
RECURSIVE PowT(_, _)
PowT(x, k) == IF k = 0 THEN <<1, 0>> ELSE MulT(x, PowT(x, k - 1))
SubT(z) == z[1] \in 0..(QT - 1) /\ z[2] \in 0..(QT - 1) /\ PowT(z, R) = <<1, 0>>

-----------------------------------------------------------------------------
(* Types of the artefacts *)
Fr == [k |-> "fr"]
G1 == [k |-> "g1"]
G2 == [k |-> "g2"]
GT == [k |-> "gt"]
TAG == [k |-> "tag"]
VEC(t) == [k |-> "vec", of |-> t]
REC(ts) == [k |-> "rec", of |-> ts]
MAT == VEC(VEC(Fr))
C1 == REC(<<G1, G1>>)
C2 == REC(<<G2, G2>>)
Type(name) == CASE name = "Tag" -> TAG
                [] name = "Com1" -> C1
                [] name = "Com2" -> C2
                [] name = "Key" -> REC(<<VEC(C1), VEC(C2), G1, G2, GT>>)
                [] name = "Commit1" -> REC(<<VEC(C1), MAT>>)
                [] name = "Commit2" -> REC(<<VEC(C2), MAT>>)
                [] name = "Proof" -> REC(<<VEC(C2), VEC(C1), TAG, MAT>>)
                [] name = "PPE" -> REC(<<VEC(G1), VEC(G2), MAT, GT>>)
                [] name = "MS1" -> REC(<<VEC(G1), VEC(Fr), MAT, G1>>)
                [] name = "MS2" -> REC(<<VEC(Fr), VEC(G2), MAT, G2>>)
                [] name = "QUAD" -> REC(<<VEC(Fr), VEC(Fr), MAT, Fr>>)
Names == {"Tag", "Com1", "Com2", "Key", "Commit1", "Commit2", "Proof", "PPE", "MS1", "MS2", "QUAD"}

RECURSIVE ValidObj(_, _)
ValidObj(t, o) ==
    CASE t.k = "fr" -> o \in 0..(R - 1)
      [] t.k = "g1" -> OnCurve(Q1, A1, B1, o) /\ o \in Sub1
      [] t.k = "g2" -> OnCurve(Q2, A2, B2, o) /\ o \in Sub2
      [] t.k = "gt" -> SubT(o)
      [] t.k = "tag" -> o \in 0..3
      [] t.k = "vec" -> \A i \in 1..Len(o) : ValidObj(t.of, o[i])
      [] t.k = "rec" -> Len(o) = Len(t.of) /\ \A i \in 1..Len(o) : ValidObj(t.of[i], o[i])

-----------------------------------------------------------------------------
(* Encoding *)
Flagged(v, w, f) == LET b == LE(v, w) IN [b EXCEPT ![w] = @ + f]
EncPt(q, P, c) ==
    LET f == IF P = <<>> THEN 64 ELSE IF 2 * P[2] > q THEN 128 ELSE 0
        x == IF P = <<>> THEN 0 ELSE P[1]
        y == IF P = <<>> THEN 0 ELSE P[2]
    IN IF c THEN Flagged(x, Width(q, 2), f) ELSE LE(x, Width(q, 0)) \o Flagged(y, Width(q, 2), f)
RECURSIVE Encode(_, _, _), EncList(_, _, _)
Encode(t, o, c) ==
    CASE t.k = "fr" -> LE(o, Width(R, 0))
      [] t.k = "g1" -> EncPt(Q1, o, c)
      [] t.k = "g2" -> EncPt(Q2, o, c)
      [] t.k = "gt" -> LE(o[1], Width(QT, 0)) \o LE(o[2], Width(QT, 0))
      [] t.k = "tag" -> <<o>>
      [] t.k = "vec" -> LE(Len(o), 8) \o EncList([i \in 1..Len(o) |-> t.of], o, c)
      [] t.k = "rec" -> EncList(t.of, o, c)
EncList(ts, os, c) == IF os = <<>> THEN <<>> ELSE Encode(ts[1], os[1], c) \o EncList(Tail(ts), Tail(os), c)

-----------------------------------------------------------------------------
(* Decoding: [ok, v, p] where p is the position after the object *)
Err == [ok |-> FALSE]
Ok(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
DecInt(q, b, p) ==
    LET w == Width(q, 0) IN
    IF p + w - 1 > Len(b) THEN Err
    ELSE LET n == FromLE(SubSeq(b, p, p + w - 1)) IN IF n < q THEN Ok(n, p + w) ELSE Err
\* an integer below q whose last byte carries two flags: <<value, flags>>
DecFlagged(q, b, p) ==
    LET w == Width(q, 2) IN
    IF p + w - 1 > Len(b) THEN Err
    ELSE LET s == SubSeq(b, p, p + w - 1)
             f == s[w] \div 64
             n == FromLE([s EXCEPT ![w] = @ % 64])
         IN IF f = 3 \/ n >= q THEN Err ELSE Ok(<<n, f>>, p + w)
DecPt(q, a, b, root, sub, bs, p, c) ==
    IF c THEN LET d == DecFlagged(q, bs, p) IN
              IF ~d.ok THEN Err
              ELSE IF d.v[2] = 1 THEN Ok(<<>>, d.p)
              ELSE LET y == root[Rhs(q, a, b, d.v[1])]
                       P == <<d.v[1], IF d.v[2] = 2 THEN (q - y) % q ELSE y>>
                   IN IF y # -1 /\ P \in sub THEN Ok(P, d.p) ELSE Err
    ELSE LET dx == DecInt(q, bs, p) IN
         IF ~dx.ok THEN Err
         ELSE LET dy == DecFlagged(q, bs, dx.p) IN
              IF ~dy.ok THEN Err
              ELSE IF dy.v[2] = 1 THEN Ok(<<>>, dy.p)
              ELSE IF <<dx.v, dy.v[1]>> \in sub THEN Ok(<<dx.v, dy.v[1]>>, dy.p) ELSE Err
RECURSIVE Decode(_, _, _, _), DecMany(_, _, _, _, _)
DecVec(t, b, p, c) ==
    IF p + 7 > Len(b) THEN Err
    ELSE IF \E i \in 2..7 : b[p + i] # 0 THEN Err       \* longer than any input
    ELSE LET n == b[p] + 256 * b[p + 1] IN
         IF n > Len(b) - (p + 7) THEN Err               \* every element takes a byte
         ELSE DecMany([i \in 1..n |-> t], b, p + 8, c, <<>>)
Decode(t, b, p, c) ==
    CASE t.k = "fr" -> DecInt(R, b, p)
      [] t.k = "g1" -> DecPt(Q1, A1, B1, Root1, Sub1, b, p, c)
      [] t.k = "g2" -> DecPt(Q2, A2, B2, Root2, Sub2, b, p, c)
      [] t.k = "gt" -> LET d == DecInt(QT, b, p) IN IF ~d.ok THEN Err
                       ELSE LET e == DecInt(QT, b, d.p) IN IF ~e.ok THEN Err
                       ELSE IF SubT(<<d.v, e.v>>) THEN Ok(<<d.v, e.v>>, e.p) ELSE Err
      [] t.k = "tag" -> IF p <= Len(b) /\ b[p] \in 0..3 THEN Ok(b[p], p + 1) ELSE Err
      [] t.k = "vec" -> DecVec(t.of, b, p, c)
      [] t.k = "rec" -> DecMany(t.of, b, p, c, <<>>)
DecMany(ts, b, p, c, acc) ==
    IF ts = <<>> THEN Ok(acc, p)
    ELSE LET d == Decode(ts[1], b, p, c) IN IF ~d.ok THEN Err ELSE DecMany(Tail(ts), b, d.p, c, Append(acc, d.v))
=============================================================================
