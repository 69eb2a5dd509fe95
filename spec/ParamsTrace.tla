---------------------------- MODULE ParamsTrace ----------------------------
(***************************************************************************)
(* Validates recorded attempts to create estimators against Params.tla.    *)
(***************************************************************************)
EXTENDS Params, Json, IOUtils

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)

Need(e, what, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", "C12", what, e.sid, l>>) /\ FALSE

MakeEv(e) ==
    IF e.shape = "broken"                 \* no JSON, or JSON that is no dictionary
    THEN Need(e, "broken JSON accepted", e.st = "BAD_JSON")
    ELSE IF Acceptable(e.clf = 1, e.pk)
    THEN /\ Need(e, "legal parameters refused", e.st = "OK")
         /\ Need(e, "reported parameters", ReportOK(e.clf = 1, e.pk, e.hw, e.rep))
    ELSE Need(e, "illegal parameters accepted", e.st = "BAD_JSON")

Init == l = 1

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         CASE e.ev = "begin" -> TRUE
           [] e.ev = "make" -> MakeEv(e)
           [] OTHER -> Need(e, "crashed", FALSE)
    /\ l' = l + 1

Spec == Init /\ [][Next]_l

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
