----------------------------- MODULE TraceWire -----------------------------
(***************************************************************************)
(* C13, trace validation.  Encoders, decoders and streams as observed: the *)
(* format is not judged here (it may change), only that it is one: every   *)
(* artefact decodes back to itself, whatever bytes follow and however the  *)
(* reader delivers them; the announced size is the number of bytes written *)
(* and read; decoded artefacts behave as the originals.                    *)
(* State: the cursor of the stream being read and what is still in it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT P                     \* unused: the group of the instance
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, at, left

OutOK(ev, o) == o.st = "ok" /\ o.used = ev.len /\ o.eq /\ o.re = ev.bytes /\ o.obj = ev.obj
EncOK(ev) == /\ ev.sst = "ok" /\ ev.size = ev.len /\ ev.fits
             /\ ev.drip /\ ev.cut # "ok"
             /\ \A i \in 1..Len(ev.outs) : OutOK(ev, ev.outs[i])
UseOK(ev) == ~ev.lost /\ ev.orig = ev.dec /\ ev.append
\* one encoding is never the beginning of another one: same artefact kind and mode
Init == l = 1 /\ at = 0 /\ left = <<>>
Open(ev) == ev.op = "open" /\ at' = 0 /\ left' = ev.items
Read(ev) == /\ ev.op = "read" /\ left # <<>>
            /\ ev.st = "ok" /\ ev.eq
            /\ at' = at + left[1][3] /\ left' = Tail(left)
            /\ ev.at = at'
Other(ev) == /\ (CASE ev.op = "enc" -> EncOK(ev) [] ev.op = "use" -> UseOK(ev) [] OTHER -> FALSE) = TRUE
             /\ left = <<>> /\ UNCHANGED <<at, left>>
Step == /\ l <= Len(Events)
        /\ LET ev == Events[l] IN Open(ev) \/ Read(ev) \/ Other(ev)
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, at, left>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
