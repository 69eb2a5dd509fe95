----------------------------- MODULE CallsTrace -----------------------------
(***************************************************************************)
(* Validates recorded calls against Calls.tla: the status of every call is *)
(* the one its data calls for, and refused calls and queries leave the     *)
(* model's digests as they were.                                           *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils

VARIABLES l, M

Trace == ndJsonDeserialize(IOEnv.TRACE)

Need(e, what, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", "C11", what, e.sid, l>>) /\ FALSE

Begin(e) == M' = [ s \in {} |-> 0 ]

MakeEv(e) ==
    /\ Need(e, "cannot make model", e.st = "OK")
    /\ M' = (e.m :> New(e.clf = 1, e.packed = 1, e.T)) @@ M

Xs(e) == IF "x" \in DOMAIN e THEN <<e.x>> ELSE IF "X" \in DOMAIN e THEN e.X ELSE <<>>
Ys(e) == IF "y" \in DOMAIN e THEN e.y ELSE <<>>
Ml(e) == IF "ml" \in DOMAIN e THEN e.ml ELSE 0

\* answers have the size of what was asked
Shape(e, m) ==
    CASE e.fn \in {"predictN"} -> Len(e.r) = Len(Xs(e))
      [] e.fn = "decN" -> Len(e.r) = Len(Xs(e)) /\ (m.clf => \A i \in DOMAIN e.r : Len(e.r[i]) = m.L)
      [] e.fn = "dec" -> m.clf => Len(e.r) = m.L
      [] OTHER -> TRUE

CallEv(e) ==
    LET m == M[e.m]
        want == Status(m, e.fn, Xs(e), Ys(e), Ml(e))
        m2 == After(m, e.fn, Xs(e), Ys(e), Ml(e))
    IN /\ Need(e, <<"status", e.fn, "is", e.st, "wanted", want, Defects(m, e.fn, Xs(e), Ys(e), Ml(e))>>, e.st = want)
       /\ Need(e, "refused call or query changed the model",
               (want # "OK" \/ e.fn \in Queries) => e.before = e.after)
       /\ Need(e, "size of the answer", (want = "OK" /\ e.fn \in Queries) => Shape(e, m))
       /\ Need(e, "trained model has no state", m2.fit => e.after.nr > 0 /\ e.after.nc = m2.F)
       /\ M' = [ M EXCEPT ![e.m] = m2 ]

CopyEv(e) ==
    /\ Need(e, "copy failed", e.st = "OK")
    /\ M' = (e.to :> M[e.m]) @@ M

Init == l = 1 /\ M = [ s \in {} |-> 0 ]

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         CASE e.ev = "begin" -> Begin(e)
           [] e.ev = "make" -> MakeEv(e)
           [] e.ev = "call" -> CallEv(e)
           [] e.ev \in {"clone", "clone2", "restore"} -> CopyEv(e)
           [] OTHER -> Need(e, "crashed", FALSE) /\ UNCHANGED M
    /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, M>>

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
