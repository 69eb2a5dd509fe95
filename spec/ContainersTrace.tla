--------------------------- MODULE ContainersTrace --------------------------
(***************************************************************************)
(* Validates recorded operations on the containers against Containers.tla: *)
(* after every operation the cells that changed, anywhere, are exactly     *)
(* those the specification changes.                                        *)
(***************************************************************************)
EXTENDS Containers, Json, IOUtils, SequencesExt

VARIABLES l, C

Trace == ndJsonDeserialize(IOEnv.TRACE)

Need(e, what, ok) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", "C20", what, e.sid, l>>) /\ FALSE

Sound(e) == Need(e, "ways of reading differ, stray bits, or misaligned rows", e.wrong = 0)
Nothing(e) == Need(e, <<"other containers changed", e.chg>>, e.chg = <<>>)
Fresh(e, o) ==
    /\ Need(e, "dimensions", DimsOK(o, e.dims))
    /\ Need(e, "cells", e.cells = o.cells)
    /\ C' = (e.a :> o) @@ C

Make(e) ==
    CASE e.via \in {"none", "size"} ->
             MadeSize(e.t, IF e.via = "none" THEN (IF Family(e.t) = "bv" THEN 1 ELSE 0) ELSE IF Family(e.t) = "bv" THEN 1 ELSE e.r,
                      IF e.via = "none" THEN 0 ELSE e.c)
      [] e.via = "blocks" -> MadeBlocks(e.t, e.c, e.blocks, ToSet(e.ones))
      [] OTHER -> MadeRange(e.t, e.vals)

\* the reported changes of write k and the object after it
RECURSIVE After(_, _, _)
After(o, e, k) ==
    IF k > Len(e.w) THEN o
    ELSE LET w == e.w[k]
             i == At(o, w[2], w[3])
             new == Write(w[1], o.cells[i], w[4])
             want == IF new = o.cells[i] THEN <<>> ELSE << <<e.a, i, new>> >>
         IN IF e.res[k] = want
            THEN After(IF new = o.cells[i] THEN o ELSE [ o EXCEPT !.cells[i] = new ], e, k + 1)
            ELSE [ bad |-> k, want |-> want, got |-> e.res[k] ]

WritesEv(e) ==
    LET o == After(C[e.a], e, 1) IN
    IF "bad" \in DOMAIN o THEN Need(e, <<"write", e.w[o.bad], "changed", o.got, "wanted", o.want>>, FALSE) /\ UNCHANGED C
    ELSE C' = (e.a :> o) @@ C

Init == l = 1 /\ C = [ s \in {} |-> 0 ]

Without(f, k) == [ s \in DOMAIN f \ {k} |-> f[s] ]

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         CASE e.ev = "begin" -> C' = [ s \in {} |-> 0 ]
           [] e.ev = "writes" -> Sound(e) /\ WritesEv(e)
           [] e.ev = "make" -> Sound(e) /\ Nothing(e) /\ Fresh(e, Make(e))
           [] e.ev \in {"copy", "assign", "reuse"} -> Sound(e) /\ Nothing(e) /\ Fresh(e, C[e.b])
           [] e.ev \in {"move", "massign"} ->
                /\ Sound(e) /\ Nothing(e)
                /\ Need(e, "dimensions", DimsOK(C[e.b], e.dims))
                /\ Need(e, "cells", e.cells = C[e.b].cells)
                /\ C' = (e.a :> C[e.b]) @@ Without(C, e.b)
           [] e.ev = "drop" -> Sound(e) /\ Nothing(e) /\ C' = Without(C, e.a)
           [] e.ev = "eq" ->
                /\ Sound(e) /\ Nothing(e)
                /\ Need(e, "equality", e.eq = IF Equal(C[e.a], C[e.b]) THEN 1 ELSE 0)
                /\ UNCHANGED C
           [] OTHER -> Need(e, "crashed", FALSE) /\ UNCHANGED C
    /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, C>>

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
