----------------------------- MODULE TraceCase -----------------------------
(***************************************************************************)
(* Trace validation of recorded calls that are judged one by one.          *)
(* The trace is accepted when every line can be consumed; the first line   *)
(* that cannot is reported with the contract that it breaks.               *)
(***************************************************************************)
EXTENDS Contracts, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Known                  \* the places of the known findings
VARIABLE l

\* two bundles with the same public part, made from different witnesses: their encodings tell nothing
\* more, hence are equal
LeakOK(ev) == ev.enc1 = ev.enc2 \/ LET s == "leak:" \o ev.what IN s \in Known /\ PrintT(<<"FINDING", s>>)

Pre(ev) == CASE ev.op = "complete" -> CompletePre(ev)
             [] ev.op = "verify" -> VerifyPre(ev)
             [] OTHER -> TRUE
OK(ev) == CASE Functional(ev.op) -> FunctionalOK(ev)
            [] ev.op = "arteq" -> ArtEqOK(ev)
            [] ev.op = "label" -> LabelOK(ev)
            [] ev.op = "sched" -> SchedOK(ev)
            [] ev.op = "commit" -> CommitOK(ev)
            [] ev.op = "complete" -> CompleteOK(ev)
            [] ev.op = "verify" -> VerifyOK(ev)
            [] ev.op = "near" -> NearOK(ev)
            [] ev.op = "illverify" -> IllVerifyOK(ev)
            [] ev.op = "illprove" -> IllProveOK(ev)
            [] ev.op = "crs" -> CrsOK(ev)
            [] ev.op = "leak" -> LeakOK(ev)
            [] ev.op = "wi" -> WiOK(ev)

Init == l = 1
\* the driver must only produce cases inside the domain of the contract
Step == /\ l <= Len(Events)
        /\ Assert(Pre(Events[l]), <<"DRIVER", l>>)
        /\ OK(Events[l]) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
