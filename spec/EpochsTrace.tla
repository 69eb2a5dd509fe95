----------------------------- MODULE EpochsTrace ----------------------------
(***************************************************************************)
(* Validates recorded training calls on marked models against Epochs.tla.  *)
(***************************************************************************)
EXTENDS Epochs, Json, IOUtils

VARIABLES l, M, Firsts

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* a sample is its values, or a record with them
Plain(e) == IF "rec" \in DOMAIN e THEN [ i \in DOMAIN e.X |-> e.X[i].v ] ELSE e.X

Marked(e) ==
    LET m == M[e.m]
        d == [ X |-> Plain(e), y |-> e.y ]
        shape == Len(e.rows) = Len(m.rows) /\ Len(e.w) = Len(m.w) /\ \A r \in DOMAIN e.rows : Len(e.rows[r]) = m.F
    IN /\ Need(e, "training refused, failed, or changed the caller's data", e.st = "OK")
       /\ Need(e, "dimensions", shape)
       /\ CASE e.mark = "own" ->
                 Assert(OwnReady(m, d, e.ep), "not prepared") /\ Need(e, "samples of the own label not presented once per epoch", Own(m, d, e.ep, e.rows, e.w))
            [] e.mark = "other" ->
                 Assert(OtherReady(m, d, e.ep), "not prepared") /\ Need(e, "samples not presented once per epoch to one other label", Other(m, d, e.ep, e.rows, e.w))
            [] e.mark = "reg" ->
                 Assert(RegReady(m, d, e.ep), "not prepared") /\ Need(e, "samples not presented once per epoch", Reg(m, d, e.ep, e.rows))
            [] e.mark = "first" ->
                 Assert(FirstReady(m, d, e.ep), "not prepared") /\ Need(e, "no single first sample in the last epoch", OneFirst(m, e.rows, e.ep))
            [] OTHER -> TRUE
       /\ M' = [ M EXCEPT ![e.m] = [ m EXCEPT !.rows = e.rows, !.w = e.w ] ]
       /\ Firsts' = IF e.mark = "first" THEN LET j == CHOOSE i \in FirstOf(m, e.rows, e.ep) : TRUE IN
                                           (j :> (IF j \in DOMAIN Firsts THEN Firsts[j] ELSE 0) + 1) @@ Firsts
                    ELSE Firsts

None == [ j \in {} |-> 0 ]

\* the end of a series of runs: the first sample was not always the same one;
\* in a long series each was first about as often (Hoeffding, 10^-10)
Series(e) ==
    LET runs == SumOver(Firsts)
        times(j) == IF j \in DOMAIN Firsts THEN Firsts[j] ELSE 0
        off(j) == times(j) * e.of - runs
    IN /\ Need(e, <<"the order does not vary, first was always", DOMAIN Firsts>>, Cardinality(DOMAIN Firsts) >= 2)
       /\ Need(e, <<"samples come first unevenly", Firsts>>, e.uni = 1 => \A j \in 1 .. e.of : off(j) * off(j) <= e.of * e.of * runs * 12)

CallEv(e) ==
    IF "mark" \in DOMAIN e THEN Marked(e)
    ELSE Need(e, "training refused, failed, or changed the caller's data", e.st = "OK") /\ UNCHANGED <<M, Firsts>>

Init3 == l = 1 /\ M = [ s \in {} |-> 0 ] /\ Firsts = None /\ m0 = 0 /\ d0 = 0 /\ cur = 0 /\ todo = 0 /\ ep = 0

Next3 ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         CASE e.ev = "begin" -> M' = [ s \in {} |-> 0 ] /\ Firsts' = None
           [] e.ev = "inject" -> Need(e, "cannot set up model", e.st = "OK") /\ M' = (e.m :> NewModel(e)) @@ M /\ UNCHANGED Firsts
           [] e.ev = "call" -> CallEv(e)
           \* the end of a series: the first sample was not always the same
           [] e.ev = "data" -> Series(e) /\ Firsts' = None /\ UNCHANGED M
           [] e.ev = "make" -> Need(e, "cannot make model", e.st = "OK") /\ UNCHANGED <<M, Firsts>>
           [] e.ev = "same" -> Need(e, "a fit is not an empty fit and a partial fit", e.st = "OK" /\ e.eq = 1) /\ UNCHANGED <<M, Firsts>>
           [] OTHER -> Need(e, "crashed", FALSE) /\ UNCHANGED <<M, Firsts>>
    /\ l' = l + 1
    /\ UNCHANGED vars2

Spec == Init3 /\ [][Next3]_<<l, M, Firsts, m0, d0, cur, todo, ep>>

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
