---------------------------- MODULE TraceHostile ----------------------------
(***************************************************************************)
(* C14, trace validation.  Checked decoding of arbitrary bytes returns: an *)
(* error, or an artefact all of whose parts are valid.  On the small group *)
(* the specification decodes the same bytes: what the code accepts is what *)
(* the bytes say.  (gram: the artefacts whose recorded format is the       *)
(* specified one; for the others only validity and totality are judged.)   *)
(* A decoder that refuses more is not judged.                              *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils
CONSTANT P, Known               \* Known: the places of the known findings
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, gram

\* <<object, bytes used, re-encoding>> of the decoded artefact
ObjValid(ty, o) == IF ty \in {"Commit1", "Commit2"} THEN ValidObj(Type(ty).of[1], o[1])
                   ELSE IF ty = "Proof" THEN \A i \in 1..3 : ValidObj(Type(ty).of[i], o[i])
                   ELSE ValidObj(Type(ty), o)
Site(ty) == "huge-length:" \o ty
\* one outcome of one way to check (<<"items", ..>>: all items of a list decoded together)
OneOK(ty, comp, full, b, o) ==
    CASE o = <<>> -> TRUE
      [] o = <<"skip">> -> TRUE
      [] o = <<"huge">> -> Site(ty) \in Known /\ PrintT(<<"FINDING", Site(ty)>>)
      [] Len(o) = 3 ->
           /\ o[2] <= Len(b)
           /\ ObjValid(ty, o[1])
           /\ full => LET d == Decode(Type(ty), b, 1, comp) IN
                      d.ok /\ o[1] = d.v /\ o[2] = d.p - 1 /\ o[3] = Encode(Type(ty), d.v, comp)
      [] Len(o) = 2 -> o[1] = "items" /\ \A i \in 1..Len(o[2]) : ObjValid(ty, o[2][i])
      [] OTHER -> FALSE
\* <<"differ", ..>>: the ways do not agree; each is judged by itself
OutOK(ty, comp, full, b, o) ==
    IF Len(o) = 5 THEN \A i \in 2..5 : OneOK(ty, comp, full, b, o[i]) ELSE OneOK(ty, comp, full, b, o)
Full(ev) == <<ev.ty, ev.comp>> \in gram
RefOK(ev) == ev.full /\ ev.bytes = Encode(Type(ev.ty), ev.obj, ev.comp)
TruncOK(ev) == \A k \in 1..Len(ev.outs) : Len(ev.outs[k]) = 0 \/ (Len(ev.outs[k]) = 1 /\ ev.outs[k][1] = "skip")
SweepOK(ev) == \A v \in 1..256 : OutOK(ev.ty, ev.comp, Full(ev), [ev.bytes EXCEPT ![ev.pos] = v - 1], ev.outs[v])
DecOK(ev) == OutOK(ev.ty, ev.comp, Full(ev), ev.bytes, ev.outs[1])

\* large groups: the harness knows what it broke
Refused == {"truncated", "tag", "range", "subgroup", "offcurve", "flags"}
BigOK(ev) ==
    \/ ev.st = "huge" /\ Site(ev.ty) \in Known /\ PrintT(<<"FINDING", Site(ev.ty)>>)
    \/ /\ ev.st \in {"ok", "err"}
       /\ ev.cat \in Refused \cup {"huge"} => ev.st = "err"
       /\ ev.cat = "valid" => ev.st = "ok" /\ ev.eq
       /\ ev.st = "ok" => ev.valid /\ ev.used <= ev.len
       /\ \A i \in 1..Len(ev.alt) :
            /\ ev.alt[i][1] \in {"ok", "err"}
            /\ ev.cat \in Refused => ev.alt[i][1] = "err"
            /\ ev.cat = "valid" => ev.alt[i][1] = "ok"
            /\ ev.alt[i][1] = "ok" => ev.alt[i][2]

Init == l = 1 /\ gram = {}
Learn(ev) == /\ ev.op = "ref"
             /\ gram' = IF RefOK(ev) = TRUE THEN gram \cup {<<ev.ty, ev.comp>>} ELSE gram \ {<<ev.ty, ev.comp>>}
             /\ l = Len(Events) => PrintT(<<"GRAMMAR", Cardinality(gram')>>)
Judge(ev) == /\ (CASE ev.op = "trunc" -> TruncOK(ev)
                   [] ev.op = "sweep" -> SweepOK(ev)
                   [] ev.op = "dec" -> DecOK(ev)
                   [] ev.op = "big" -> BigOK(ev)
                   [] OTHER -> FALSE) = TRUE
             /\ UNCHANGED gram
Step == /\ l <= Len(Events)
        /\ Learn(Events[l]) \/ Judge(Events[l])
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, gram>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
