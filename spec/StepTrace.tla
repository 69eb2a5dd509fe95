----------------------------- MODULE StepTrace -----------------------------
(***************************************************************************)
(* Validates recorded executions of the library, one training sample or    *)
(* query per event, against Rules.tla.                                     *)
(*                                                                         *)
(* The state is the learned state of every model of the running scenario,  *)
(* as logged by the harness after every call; each event must be a         *)
(* transition allowed for the properties selected by Props.                *)
(***************************************************************************)
EXTENDS Rules, Json, IOUtils

VARIABLES l, M

Trace == ndJsonDeserialize(IOEnv.TRACE)

(******************************* next state ********************************)
Init == l = 1 /\ M = [ s \in {} |-> 0 ]

\* function update that may add a slot
Put(s, m) == M' = (s :> m) @@ M

Begin(e) == e.ev = "begin" /\ M' = [ s \in {} |-> 0 ]

Inject(e) ==
    /\ e.ev = "inject"
    /\ Need(e, "cannot set up model", e.st = "OK")
    /\ LET m == NewModel(e) IN
         /\ Need(e, "dimensions", Dimensions(m))
         /\ StateOK(e, m)
         /\ Put(e.m, m)

\* the learned state as read again, e.g. after a restore
ReadState(e) ==
    /\ e.ev = "state"
    /\ LET m == [ M[e.of] EXCEPT !.rows = e.rows, !.w = e.w,
                                 !.pol = IF "pol" \in DOMAIN e THEN e.pol ELSE @ ]
       IN /\ Need(e, "dimensions", Dimensions(m))
          /\ StateOK(e, m)
          /\ Put(e.m, m)

Step(e) ==
    /\ e.ev = "step"
    /\ StepOK(e, M[e.m], e.d, e.st)
    /\ Put(e.m, After(M[e.m], e.d))

\* the same sample for a classic and a bit-packed model
Twin(e) ==
    /\ e.ev = "twin"
    /\ Need(e, "training refused or failed", e.st = "OK" /\ e.stb = "OK")
    /\ LET a == After(M[e.m], e.d)
           b == After(M[e.b], e.db)
       IN /\ Chk("C17", e, "states differ",
                 M[e.m].rows = M[e.b].rows /\ M[e.m].w = M[e.b].w => a.rows = b.rows /\ a.w = b.w)
          /\ M' = (e.m :> a) @@ (e.b :> b) @@ M

Training(e) ==
    /\ e.ev = "call" /\ e.fn \in {"fit", "pfit"}
    /\ Need(e, "training refused or failed", e.st = "OK")
    /\ LET m == [ M[e.m] EXCEPT !.rows = e.rows, !.w = e.w,
                                !.pol = IF "pol" \in DOMAIN e THEN e.pol ELSE @ ]
       IN /\ Need(e, "dimensions", Dimensions(m))
          /\ StateOK(e, m)
          /\ Put(e.m, m)

Query(e) ==
    /\ e.ev = "call" /\ e.fn \notin {"fit", "pfit"}
    /\ Need(e, "query refused or failed", e.st = "OK")
    /\ Chk("C04", e, "result", QueryOK(e, M[e.m]))
    /\ Chk("C02", e, "result not that of the states", M[e.m].fam = "bitwise" => QueryOK(e, M[e.m]))
    /\ IF "twin" \notin DOMAIN e THEN TRUE ELSE
          Chk("C17", e, "results differ",
              \* the event just before is the same query of the twin
              Trace[l - 1].m = e.twin /\ Trace[l - 1].r = e.r)
    /\ UNCHANGED M

Other(e) == e.ev \in {"clone", "clone2", "restore"} /\ e.st = "OK" /\ UNCHANGED M

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         CASE e.ev = "begin" -> Begin(e)
           [] e.ev = "inject" -> Inject(e)
           [] e.ev = "state" -> ReadState(e)
           [] e.ev = "step" -> Step(e)
           [] e.ev = "twin" -> Twin(e)
           [] e.ev = "call" /\ e.fn \in {"fit", "pfit"} -> Training(e)
           [] e.ev = "call" /\ e.fn \notin {"fit", "pfit"} -> Query(e)
           [] OTHER -> Other(e)
    /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, M>>

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
