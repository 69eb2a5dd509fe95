------------------------------ MODULE ApiTrace ------------------------------
(***************************************************************************)
(* Validates recorded call histories: models with equal terms (Life.tla)   *)
(* have equal digests of learned state, generators and parameters, and     *)
(* give equal answers, in whatever history, process or slot they occur.    *)
(***************************************************************************)
EXTENDS Life, Json, IOUtils, SequencesExt

CONSTANT Props             \* properties to judge; see the uses below
CONSTANT Compare           \* digest parts compared: subset of {"l", "g", "p"}

VARIABLES l,
          slot,            \* slot -> term
          seen,            \* term -> digest
          ans,             \* <<term, query>> -> answer
          data             \* id -> [F, top, n]

vars == <<l, slot, seen, ans, data>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

On(p) == p \in Props
Bad(p, what, e) == PrintT(<<"REJECT", p, what, e.sid, l>>) /\ FALSE
Chk(p, e, what, ok) == IF On(p) THEN IF ok THEN TRUE ELSE Bad(p, what, e) ELSE TRUE
Need(e, what, ok) == IF ok THEN TRUE ELSE Bad("any", what, e)

Upd(f, k, v) == (k :> v) @@ f
Empty == [ x \in {} |-> 0 ]

(******************************* dimensions ********************************)
Num(t, k) == t.cfg[k]
IsClf(t) == t.est \in {"clf/classic", "clf/bitwise"}
IsPacked(t) == t.est \in {"clf/bitwise", "reg/bitwise"}

\* clause outputs of a fitted model: half the clauses, per label for a classifier
Outputs(t) == IF IsClf(t) THEN (Num(t, "clauses") \div 2) * t.L ELSE Num(t, "clauses") \div 2

DimsOK(t, d) ==
    IF ~t.fit THEN d.nr = 0 /\ d.nw = 0 /\ d.np = 0
    ELSE /\ d.nr = 2 * Outputs(t)
         /\ d.nc = t.F
         /\ d.nw = (IF Num(t, "weighted") = "true" THEN Outputs(t) ELSE 0)
         /\ d.np = (IF IsPacked(t) THEN 2 * Outputs(t) ELSE 0)
         /\ d.pf = t.F
         /\ IsClf(t) => d.pl = t.L

(******************************** digests **********************************)
Pick(d) == [ k \in Compare |-> d[k] ]

\* slots of a digest event and their terms after it
DigestsOK(e, slots) ==
    IF "dig" \notin DOMAIN e THEN TRUE
    \* a thread sees the models it uses
    ELSE /\ Need(e, "slots", IF "lane" \in DOMAIN e THEN DOMAIN e.dig \subseteq DOMAIN slots ELSE DOMAIN e.dig = DOMAIN slots)
         /\ Chk("same", e, "state differs from that of an equal history",
                \A s \in DOMAIN e.dig : slots[s] \in DOMAIN seen => seen[slots[s]] = Pick(e.dig[s]))
         \* two slots of one event with equal terms
         /\ Chk("same", e, "states of equal histories differ",
                \A s, t \in DOMAIN e.dig : slots[s] = slots[t] => Pick(e.dig[s]) = Pick(e.dig[t]))
         /\ Chk("C18", e, "dimensions",
                \A s \in DOMAIN e.dig : DimsOK(slots[s], e.dig[s]))

RECURSIVE Absorb(_, _, _)
Absorb(S, e, slots) ==
    IF S = {} THEN seen
    ELSE LET s == CHOOSE s \in S : TRUE
             r == Absorb(S \ {s}, e, slots)
         IN IF slots[s] \in DOMAIN r THEN r ELSE Upd(r, slots[s], Pick(e.dig[s]))

SeenAfter(e, slots) == IF "dig" \in DOMAIN e THEN Absorb(DOMAIN e.dig, e, slots) ELSE seen

(******************************** answers **********************************)
\* what is asked, apart from the model
Question(e) ==
    CASE "d" \in DOMAIN e /\ "ix" \in DOMAIN e -> <<e.fn, e.d, e.ix>>
      [] "d" \in DOMAIN e /\ "ix" \notin DOMAIN e -> <<e.fn, e.d>>
      [] OTHER -> <<e.fn>>

Answer(e) == [ k \in {"st", "r", "rep", "hash"} \cap DOMAIN e |-> e[k] ]

AnswerOK(e, t) ==
    LET q == <<t, Question(e)>>
    IN q \in DOMAIN ans => ans[q] = Answer(e)

(* C05: the parts of one answer against other answers of the same model.
   A sweep asks every sample alone; `ans` keeps its answers per sample. *)
Known(t, fn, d, i) == <<t, <<"one", fn, d, i>>>> \in DOMAIN ans
Single(t, fn, d, i) == ans[<<t, <<"one", fn, d, i>>>>]

FirstMax(s) == (CHOOSE a \in DOMAIN s : (\A b \in DOMAIN s : s[b] <= s[a]) /\ \A b \in 1 .. a - 1 : s[b] < s[a]) - 1

RECURSIVE Learn(_, _, _, _)
\* remember the answers of a sweep
Learn(a, e, t, k) ==
    IF k > Len(e.ix) THEN a
    ELSE Learn(Upd(a, <<t, <<"one", e.fn, e.d, e.ix[k]>>>>, e.r[k]), e, t, k + 1)

SweepOK(e, t) ==
    /\ Need(e, "sweep refused", e.st = "OK" /\ Len(e.r) = Len(e.ix))
    /\ Chk("C05", e, "answer to a single sample changed",
           \A k \in DOMAIN e.ix : Known(t, e.fn, e.d, e.ix[k]) => Single(t, e.fn, e.d, e.ix[k]) = e.r[k])
    /\ Chk("C05", e, "prediction is not the first maximum of the scores",
           IsClf(t) =>
           \A k \in DOMAIN e.ix :
              /\ (e.fn = "predict" /\ Known(t, "dec", e.d, e.ix[k])) => e.r[k] = FirstMax(Single(t, "dec", e.d, e.ix[k]))
              /\ (e.fn = "dec" /\ Known(t, "predict", e.d, e.ix[k])) => Single(t, "predict", e.d, e.ix[k]) = FirstMax(e.r[k]))

Ixs(e) == IF "ix" \in DOMAIN e THEN e.ix ELSE [ i \in 1 .. data[e.d].n |-> i - 1 ]

BatchOK(e, t) ==
    LET ix == Ixs(e)
        one == IF e.fn = "decN" THEN "dec" ELSE "predict"
    IN IF ~(\A k \in DOMAIN ix : Known(t, one, e.d, ix[k])) THEN TRUE
       ELSE IF e.fn = "eval" /\ IsClf(t)
       THEN Chk("C05", e, "accuracy",
                LET good == Cardinality({ k \in DOMAIN ix : Single(t, one, e.d, ix[k]) = data[e.d].y[ix[k] + 1] })
                    diff == e.r - 1000 * good
                    \* accuracy is a single precision number
                    slack == 1 + Len(ix) \div 8000
                IN e.st = "OK" /\ -slack <= diff /\ diff <= slack)
       ELSE Chk("C05", e, "batch differs from single samples",
                e.st = "OK" /\ e.r = [ k \in DOMAIN ix |-> Single(t, one, e.d, ix[k]) ])

(******************************* next state ********************************)
TermOf(s) == slot[s]
DataKey(e) == IF "ix" \in DOMAIN e THEN <<e.d, e.ix>> ELSE <<e.d>>

TopLabel(y) == IF y = <<>> THEN -1 ELSE CHOOSE m \in ToSet(y) : \A k \in ToSet(y) : k <= m

Only(f, S) == [ k \in S |-> f[k] ]

Finish(e, slots, a) ==
    /\ DigestsOK(e, slots)
    /\ slot' = slots
    /\ seen' = SeenAfter(e, slots)
    /\ ans' = a

Begin(e) ==
    /\ slot' = Empty /\ data' = Empty
    /\ UNCHANGED <<seen, ans>>

DataEv(e) ==
    /\ data' = Upd(data, e.id, IF "F" \in DOMAIN e THEN [ F |-> e.F, top |-> e.top, n |-> e.n, y |-> <<>> ] ELSE [ F |-> Len(e.X[1]), top |-> TopLabel(e.y), n |-> Len(e.X), y |-> e.y ])
    /\ UNCHANGED <<slot, seen, ans>>

MakeEv(e) ==
    /\ Need(e, "cannot make model", e.st = "OK")
    /\ Finish(e, Upd(slot, e.m, New(e.est, e.pk)), ans)
    /\ UNCHANGED data

\* a model given a learned state: as if trained on that
InjectEv(e) ==
    /\ Need(e, "cannot set up model", e.st = "OK")
    /\ Finish(e, Upd(slot, e.m, [ New(e.est, e.pk) EXCEPT !.fit = TRUE, !.F = e.F, !.L = e.L, !.tr = <<Rec("given", <<e.inj>>, 0, 0)>> ]), ans)
    /\ UNCHANGED data

\* a refused call is no training; whether it should be refused is C11's subject
TrainEv(e) ==
    LET t == slot[e.m]
        dd == data[e.d]
        t2 == IF e.st # "OK" THEN t
              ELSE IF e.fn = "fit" THEN AfterFit(t, DataKey(e), e.ep, e.ml, dd.F, dd.top)
              ELSE AfterPartial(t, DataKey(e), e.ep, e.ml, dd.F, dd.top)
    IN /\ Need(e, "crashed or threw", e.st \in {"OK", "VALUE_ERROR", "NOT_FITTED"})
       /\ Chk("C18", e, "well-formed training refused", "good" \in DOMAIN e => e.st = "OK")
       /\ Chk("C18", e, "training with other dimensions accepted", "bad" \in DOMAIN e => e.st # "OK")
       /\ Chk("C07", e, "not at the start after a fit of no epochs",
              (e.st = "OK" /\ e.ep = 0 /\ "rows" \in DOMAIN e /\ (e.fn = "fit" \/ ~t.fit)) =>
                 /\ \A r \in DOMAIN e.rows : \A j \in DOMAIN e.rows[r] : e.rows[r][j] \in {-1, 0}
                 /\ \A i \in DOMAIN e.w : e.w[i] = 0)
       /\ Finish(e, [ slot EXCEPT ![e.m] = t2 ], ans)
       /\ UNCHANGED data

QueryEv(e) ==
    LET t == slot[e.m] IN
    /\ Need(e, "crashed or threw", e.st \in {"OK", "VALUE_ERROR", "NOT_FITTED"})
    /\ Chk("same", e, "answer differs from that of an equal history", AnswerOK(e, t))
    /\ IF e.fn \in {"predictN", "decN", "eval"} /\ On("C05") THEN BatchOK(e, t) ELSE TRUE
    /\ Chk("C18", e, "number of scores",
           (e.fn = "decN" /\ IsClf(t) /\ e.st = "OK") => \A k \in DOMAIN e.r : Len(e.r[k]) = t.L)
    /\ Chk("C18", e, "query of an untrained model", e.fn \in {"predictN", "decN", "eval"} /\ ~t.fit => e.st = "NOT_FITTED")
    /\ Finish(e, slot, Upd(ans, <<t, Question(e)>>, Answer(e)))
    /\ UNCHANGED data

SweepEv(e) ==
    LET t == slot[e.m] IN
    /\ SweepOK(e, t)
    /\ Finish(e, slot, Learn(ans, e, t, 1))
    /\ UNCHANGED data

CopyEv(e) ==
    /\ Need(e, "copy failed", e.st = "OK")
    /\ Chk("C10", e, "restored model not equal", e.ev = "restore" => e.eq = 1 /\ e.txt = 1 /\ e.parq = 1)
    /\ Finish(e, Upd(slot, e.to, slot[e.m]), ans)
    /\ UNCHANGED data

MoveEv(e) ==
    /\ Need(e, "move failed", e.st = "OK")
    /\ LET s2 == Upd(slot, e.to, slot[e.m])
       IN Finish(e, Only(s2, DOMAIN s2 \ {e.m}), ans)
    /\ UNCHANGED data

DestroyEv(e) ==
    /\ Need(e, "destroy failed", e.st = "OK")
    /\ Finish(e, Only(slot, DOMAIN slot \ {e.m}), ans)
    /\ UNCHANGED data

SameEv(e) ==
    /\ Need(e, "comparison failed", e.st = "OK")
    /\ Chk("eq", e, "library says models of equal histories differ", slot[e.m] = slot[e.b] => e.eq = 1)
    /\ Finish(e, slot, ans)
    /\ UNCHANGED data

\* a model of the parameters another one reports
RemakeEv(e) ==
    /\ Chk("C07", e, "reported parameters refused", e.st = "OK")
    /\ Finish(e, Upd(slot, e.to, New(slot[e.m].est, slot[e.m].cfg)), ans)
    /\ UNCHANGED data

\* seeds drawn for models created without one
DrawnEv(e) ==
    /\ Need(e, "cannot make model", e.st = "OK" /\ Len(e.r) = e.n)
    /\ Chk("C07", e, "the same seed drawn again", \A i, j \in DOMAIN e.r : i < j => e.r[i] # e.r[j])
    /\ UNCHANGED <<slot, seen, ans, data>>

\* compared with models that differ in one place
VariantsEv(e) ==
    /\ Chk("C10", e, <<"comparison of states that differ, or text saved of them", e.r>>,
           \A k \in DOMAIN e.r : IF e.r[k][1] = "copy" THEN e.r[k][2] = 2 /\ e.r[k][3] = 1 ELSE e.r[k][2] = 0 /\ e.r[k][3] = 0)
    /\ Finish(e, slot, ans)
    /\ UNCHANGED data

Init == l = 1 /\ slot = Empty /\ seen = Empty /\ ans = Empty /\ data = Empty

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         CASE e.ev = "begin" -> Begin(e)
           [] e.ev = "data" -> DataEv(e)
           [] e.ev = "make" -> MakeEv(e)
           [] e.ev = "inject" -> InjectEv(e)
           [] e.ev = "call" /\ e.fn \in {"fit", "pfit"} -> TrainEv(e)
           [] e.ev = "call" /\ e.fn \notin {"fit", "pfit"} -> QueryEv(e)
           [] e.ev = "sweep" -> SweepEv(e)
           [] e.ev \in {"clone", "clone2", "restore"} -> CopyEv(e)
           [] e.ev \in {"move", "massign"} -> MoveEv(e)
           [] e.ev = "destroy" -> DestroyEv(e)
           [] e.ev = "same" -> SameEv(e)
           [] e.ev = "remake" -> RemakeEv(e)
           [] e.ev = "drawn" -> DrawnEv(e)
           [] e.ev = "variants" -> VariantsEv(e)
           [] OTHER -> Bad("any", "crash", e)
    /\ l' = l + 1

Spec == Init /\ [][Next]_vars

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
