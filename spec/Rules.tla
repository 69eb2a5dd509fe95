------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* What one training sample or query may do to a model, property by        *)
(* property. `m` is the model before (NewModel), `d` the observed change:  *)
(* the changed rows, the new weights and, if packed, the changed flags.    *)
(* Machine.tla checks that the constructive machine only makes steps these *)
(* predicates allow; StepTrace.tla applies them to recorded executions.    *)
(***************************************************************************)
EXTENDS Tsetlin, SequencesExt

CONSTANT Props            \* the properties to be judged

On(p) == p \in Props

\* a predicate of property p; says so when it is what rejects the trace
Chk(p, e, what, ok) ==
    IF On(p) THEN IF ok THEN TRUE ELSE PrintT(<<"REJECT", p, what, e.sid>>) /\ FALSE ELSE TRUE

Need(e, what, ok) ==
    IF ok THEN TRUE ELSE PrintT(<<"REJECT", "any", what, e.sid>>) /\ FALSE

(******************************* the model *********************************)
\* what inject events say about the configuration
NewModel(e) ==
    LET c == e.cfg IN
    [ fam |-> c.fam, clf |-> c.clf = 1, F |-> e.F, L |-> c.L, per |-> c.per,
      outs |-> IF c.clf = 1 THEN c.L * c.per ELSE c.per,
      N |-> c.N, T |-> c.T, boost |-> c.boost = 1, wt |-> c.wt = 1, maxw |-> c.maxw,
      H |-> HitSet(e.F, c.sn, c.sd), loss |-> c.loss, ca |-> c.ca, cb |-> c.cb, bm |-> c.bm = 1,
      rows |-> e.rows, w |-> e.w, pol |-> IF "pol" \in DOMAIN e THEN e.pol ELSE <<>> ]

Apply(rows, chg) ==
    FoldLeft(LAMBDA acc, c : [acc EXCEPT ![c[1]] = c[2]], rows, chg)

ClauseOfRow(r) == (r - 1) \div 2
LabelOf(m, o) == o \div m.per

\* an effect lists the rows it changed or, if they are many, all rows
RowsAfter(m, d) == IF "rows" \in DOMAIN d THEN d.rows ELSE Apply(m.rows, d.chg)

FlagsAfter(m, d) == IF "pol" \in DOMAIN d THEN d.pol ELSE Apply(m.pol, d.pchg)

ChangedRows(m, d) ==
    IF "rows" \in DOMAIN d THEN { r \in 1 .. Max2(Len(m.rows), Len(d.rows)) :
                                    IF r > Len(m.rows) \/ r > Len(d.rows) THEN TRUE ELSE m.rows[r] # d.rows[r] }
    ELSE { d.chg[i][1] : i \in DOMAIN d.chg }

ChangedFlags(m, d) ==
    IF "pol" \in DOMAIN d THEN { r \in DOMAIN d.pol : IF r > Len(m.pol) THEN TRUE ELSE d.pol[r] # m.pol[r] }
    ELSE { d.pchg[i][1] : i \in DOMAIN d.pchg }

TouchedClauses(m, d) ==
    LET ch == ChangedRows(m, d)
    IN { o \in 0 .. m.outs - 1 : PosRow(o) \in ch \/ NegRow(o) \in ch }

ChangedClauses(m, d) ==
    LET touched == TouchedClauses(m, d)
    IN { o \in 0 .. m.outs - 1 : o \in touched \/ WeightOf(m.w, o) # WeightOf(d.w, o) }

(**************************** state invariants *****************************)
RowInRange(row, N) == \A j \in DOMAIN row : row[j] >= -N /\ row[j] <= N - 1

RowsInRange(rows, N) == \A r \in DOMAIN rows : RowInRange(rows[r], N)

FlagsAgree(row, pol) ==
    /\ DOMAIN pol = DOMAIN row
    /\ \A j \in DOMAIN row : (pol[j] = 1) <=> Included(row[j])

AllFlagsAgree(m) ==
    m.fam = "bitwise" =>
       /\ DOMAIN m.pol = DOMAIN m.rows
       /\ \A r \in DOMAIN m.rows : FlagsAgree(m.rows[r], m.pol[r])

WeightsInRange(m, w) ==
    IF m.wt THEN /\ Len(w) = m.outs
                 /\ \A i \in DOMAIN w : w[i] >= 0 /\ w[i] <= m.maxw - 1
    ELSE w = <<>>

Dimensions(m) == Len(m.rows) = 2 * m.outs /\ \A r \in DOMAIN m.rows : Len(m.rows[r]) = m.F

StateOK(e, m) ==
    /\ Chk("C01", e, "state out of range", RowsInRange(m.rows, m.N))
    /\ Chk("C02", e, "flags disagree", AllFlagsAgree(m))
    /\ Chk("C03", e, "weights out of range", WeightsInRange(m, m.w))

(***************************** training step *******************************)
FiresT(m, x, o) == FiresInTraining(m.rows[PosRow(o)], m.rows[NegRow(o)], x)

ClausesOf(m, label) == label * m.per .. (label + 1) * m.per - 1

TrainScore(m, x, label) ==
    LabelScore({ o \in ClausesOf(m, label) : FiresT(m, x, o) }, m.w, m.per, label, m.T)

\* role of a clause for a sample of label y: positive clauses of the own label
\* and negative clauses of the other one are reinforced
Reinforced(m, y, o) == IF LabelOf(m, o) = y THEN o % 2 = 0 ELSE o % 2 = 1

\* could row change a -> b come from reinforcing at all
OnlyReinforced(fires, neg, a, b, x) ==
    \A j \in DOMAIN a :
        IF fires /\ Lit(neg, x[j]) = 1 THEN b[j] >= a[j] ELSE b[j] <= a[j]

OnlyPenalised(fires, neg, a, b, x) ==
    IF fires THEN \A j \in DOMAIN a : b[j] >= a[j] ELSE a = b

\* would one feedback on clause o leave a visible mark, whatever was drawn?
LeavesMark(m, x, o, reinf) ==
    LET fires == FiresT(m, x, o)
        p == m.rows[PosRow(o)]
        n == m.rows[NegRow(o)]
        u == WeightOf(m.w, o)
        open(row, neg) == Cardinality({ j \in DOMAIN row : Lit(neg, x[j]) = 1 /\ row[j] < m.N - 1 })
    IN IF reinf
       THEN IF fires
            THEN \/ m.wt /\ u < m.maxw - 1
                 \/ m.boost /\ (open(p, 0) > 0 \/ open(n, 1) > 0)
                 \/ open(p, 0) > SetMax(m.H) \/ open(n, 1) > SetMax(m.H)
            ELSE SetMin(m.H) >= 1 /\ (\A j \in DOMAIN p : p[j] > -m.N)
       ELSE fires /\ \/ m.wt /\ u > 0
                     \/ \E j \in DOMAIN p : Lit(0, x[j]) = 0 /\ p[j] < 0
                     \/ \E j \in DOMAIN n : Lit(1, x[j]) = 0 /\ n[j] < 0

ClassifierStep(e, m, d, x, y) ==
    \E nrows \in { RowsAfter(m, d) }, cc \in { ChangedClauses(m, d) }, touched \in { TouchedClauses(m, d) } :
    \E labels \in { { LabelOf(m, o) : o \in cc } }, vy \in { TrainScore(m, x, y) } :
    \* possible other labels, and those of them at the threshold or beyond
    \E Q \in { { q \in (0 .. m.L - 1) \ {y} : labels \subseteq {y, q} } } :
    \E high \in { { q \in Q : TrainScore(m, x, q) >= m.T } } :
    \* clauses that received feedback for certain
    \E must \in { { o \in 0 .. m.outs - 1 :
                      \/ LabelOf(m, o) = y /\ vy <= -m.T
                      \/ LabelOf(m, o) \in high /\ Cardinality(Q) = 1 } } :
    \E mine \in { { o \in 0 .. m.outs - 1 : (o \in cc \/ o \in must) /\ Reinforced(m, y, o) } },
       theirs \in { { o \in 0 .. m.outs - 1 : (o \in cc \/ o \in must) /\ ~Reinforced(m, y, o) } } :
    LET pa(o) == m.rows[PosRow(o)]
        na(o) == m.rows[NegRow(o)]
        pb(o) == nrows[PosRow(o)]
        nb(o) == nrows[NegRow(o)]
        rowsChanged(o) == o \in touched
        dw(o) == WeightOf(d.w, o) - WeightOf(m.w, o)
        typeI(o) == TypeIRel(m.fam, FiresT(m, x, o), pa(o), na(o), pb(o), nb(o), m.N, m.H, 1, m.boost, x)
        typeII(o) == TypeIIRel(FiresT(m, x, o), pa(o), na(o), pb(o), nb(o), 1, x)
        wUp(o) == WeightUp(WeightOf(m.w, o), 1, m.maxw)
        wDown(o) == WeightDown(WeightOf(m.w, o), 1)
    IN /\ Chk("C13", e, "type I feedback",
              \A o \in mine : (rowsChanged(o) \/ o \in must) => typeI(o))
       /\ Chk("C14", e, "type II feedback",
              \A o \in theirs : (rowsChanged(o) \/ o \in must) => typeII(o))
       /\ Chk("C03", e, "weight step",
              m.wt => \A o \in mine \cup theirs :
                 LET f == FiresT(m, x, o)
                     u == WeightOf(m.w, o)
                     v == WeightOf(d.w, o)
                     moved == IF Reinforced(m, y, o) THEN wUp(o) ELSE wDown(o)
                 IN IF ~f THEN v = u
                    ELSE IF rowsChanged(o) \/ o \in must THEN v = moved
                    ELSE v \in {u, moved})
       /\ Chk("C15", e, "labels trained", Q # {})
       /\ Chk("C15", e, "own label at threshold", vy >= m.T => y \notin labels)
       /\ Chk("C15", e, "other label at minus threshold",
              \A q \in labels \ {y} : TrainScore(m, x, q) > -m.T)
       /\ Chk("C15", e, "roles",
              \A o \in cc :
                 IF Reinforced(m, y, o)
                 THEN /\ OnlyReinforced(FiresT(m, x, o), 0, pa(o), pb(o), x)
                      /\ OnlyReinforced(FiresT(m, x, o), 1, na(o), nb(o), x)
                      /\ dw(o) >= 0
                 ELSE /\ OnlyPenalised(FiresT(m, x, o), 0, pa(o), pb(o), x)
                      /\ OnlyPenalised(FiresT(m, x, o), 1, na(o), nb(o), x)
                      /\ dw(o) <= 0)
       /\ Chk("C15", e, "every clause gets feedback",
              /\ vy <= -m.T =>
                    \A o \in ClausesOf(m, y) : LeavesMark(m, x, o, o % 2 = 0) => o \in cc
              /\ Cardinality(Q) = 1 =>
                    \A q \in high : \A o \in ClausesOf(m, q) : LeavesMark(m, x, o, o % 2 = 1) => o \in cc
              /\ Q # {} =>
                    \* some label got its certain feedback
                    \E q \in Q : q \in high =>
                       \A o \in ClausesOf(m, q) : LeavesMark(m, x, o, o % 2 = 1) => o \in cc)

\* (values bound by \E over a singleton are computed once; TLC evaluates the
\* definitions of a LET inside an action at each use)
RegressorStep(e, m, d, x, y) ==
    \E nrows \in { RowsAfter(m, d) }, cc \in { ChangedClauses(m, d) }, touched \in { TouchedClauses(m, d) },
       fire \in { { o \in 0 .. m.outs - 1 : FiresT(m, x, o) } } :
    \E err \in { RegressorScore(fire, m.w, m.outs, m.T) - y } :
    \E hits \in { RegressorHits(m.loss, m.ca, m.cb, err, m.T, m.outs, m.bm) } :
    \* how often one clause may have been updated; known if there is no other
    \E many \in { IF m.outs = 1 THEN hits
                  ELSE IF m.wt
                  THEN 1 .. Max2(SetMax(hits), SumOver([ o \in cc |-> Abs(WeightOf(d.w, o) - WeightOf(m.w, o)) ]))
                  ELSE 1 .. m.outs } :
    LET hmax == SetMax(hits)
        pa(o) == m.rows[PosRow(o)]
        na(o) == m.rows[NegRow(o)]
        pb(o) == nrows[PosRow(o)]
        nb(o) == nrows[NegRow(o)]
        rowsChanged(o) == o \in touched
        u(o) == WeightOf(m.w, o)
        v(o) == WeightOf(d.w, o)
        dw(o) == v(o) - u(o)
        typeI(o) == \E k \in many :
            TypeIRel(m.fam, o \in fire, pa(o), na(o), pb(o), nb(o), m.N, m.H, k, m.boost, x)
        typeII(o) == \E k \in many :
            TypeIIRel(o \in fire, pa(o), na(o), pb(o), nb(o), k, x)
        all == IF m.outs = 1 THEN {0} ELSE cc
        \* clauses whose weight shows how often they were updated
        shown(o) == m.wt /\ o \in fire /\ IF err < 0 THEN v(o) < m.maxw - 1 ELSE v(o) > 0
        seen == [ o \in { c \in 0 .. m.outs - 1 : shown(c) } |-> Abs(dw(o)) ]
        atLeast == SumOver(seen)
                   + SumOver([ o \in { c \in cc : ~shown(c) } |-> Max2(1, Abs(dw(o))) ])
        allShown == \A o \in 0 .. m.outs - 1 : shown(o)
    IN /\ Chk("C13", e, "type I feedback",
              err < 0 => \A o \in all : (rowsChanged(o) \/ m.outs = 1) => typeI(o))
       /\ Chk("C14", e, "type II feedback",
              err > 0 => \A o \in all : (rowsChanged(o) \/ m.outs = 1) => typeII(o))
       /\ Chk("C03", e, "weight step",
              m.wt =>
                /\ \A o \in cc :
                     /\ o \notin fire => v(o) = u(o)
                     /\ err < 0 => v(o) >= u(o)
                     /\ err > 0 => v(o) <= u(o)
                     /\ err = 0 => v(o) = u(o)
                     /\ (rowsChanged(o) /\ o \in fire) =>
                           IF err < 0 THEN v(o) > u(o) \/ v(o) = m.maxw - 1
                           ELSE v(o) < u(o) \/ v(o) = 0
                \* one step per update
                /\ SumOver([ o \in cc |-> Abs(dw(o)) ]) <= hmax
                /\ (allShown /\ err # 0) => SumOver(seen) \in hits)
       /\ Chk("C16", e, "no error, no change", err = 0 => cc = {})
       /\ Chk("C16", e, "direction",
              \A o \in cc :
                 IF err < 0
                 THEN /\ OnlyReinforced(o \in fire, 0, pa(o), pb(o), x)
                      /\ OnlyReinforced(o \in fire, 1, na(o), nb(o), x)
                      /\ dw(o) >= 0
                 ELSE /\ OnlyPenalised(o \in fire, 0, pa(o), pb(o), x)
                      /\ OnlyPenalised(o \in fire, 1, na(o), nb(o), x)
                      /\ dw(o) <= 0)
       /\ Chk("C16", e, "number of updates",
              IF allShown THEN SumOver(seen) \in hits ELSE atLeast <= hmax)

\* no automaton jumps: a step away by as many steps as feedback can be given
MaxJump(m) ==
    LET hm == Max2(1, SetMax(m.H)) IN IF m.clf THEN hm ELSE hm * m.outs

\* one training sample with recorded effect d
StepOK(e, m, d, st) ==
    \E nrows \in { RowsAfter(m, d) }, ch \in { ChangedRows(m, d) } :
       /\ Need(e, "training refused or failed", st = "OK" /\ d.nr = Len(m.rows))
       /\ Chk("C01", e, "state out of range", \A r \in ch : RowInRange(nrows[r], m.N))
       /\ Chk("C01", e, "state wrapped around",
              \A r \in ch : \A j \in DOMAIN nrows[r] : Abs(nrows[r][j] - m.rows[r][j]) <= MaxJump(m))
       /\ Chk("C03", e, "weights out of range", WeightsInRange(m, d.w))
       /\ Chk("C02", e, "flags disagree",
              m.fam = "bitwise" =>
                 \E npol \in { FlagsAfter(m, d) } : \A r \in ch \cup ChangedFlags(m, d) : FlagsAgree(nrows[r], npol[r]))
       /\ IF Props \cap {"C03", "C13", "C14", "C15", "C16"} = {} THEN TRUE
          ELSE IF m.clf THEN ClassifierStep(e, m, d, e.x, e.y) ELSE RegressorStep(e, m, d, e.x, e.y)

After(m, d) ==
    [ m EXCEPT !.rows = RowsAfter(m, d), !.w = d.w,
               !.pol = IF DOMAIN d \cap {"pol", "pchg"} # {} THEN FlagsAfter(m, d) ELSE @ ]

(******************************** queries **********************************)
Result(m, x) ==
    IF m.clf THEN Scores(m.rows, m.w, x, m.L, m.per, m.T)
    ELSE RegressorPredict(m.rows, m.w, x, m.outs, m.T)

Predicted(m, x) == IF m.clf THEN ArgMax(Result(m, x)) ELSE Result(m, x)

QueryOK(e, m) ==
    CASE e.fn = "predict"  -> e.r = Predicted(m, e.x)
      [] e.fn = "predictN" -> e.r = [ i \in DOMAIN e.X |-> Predicted(m, e.X[i]) ]
      [] e.fn = "dec"      -> e.r = Result(m, e.x)
      [] e.fn = "decN"     -> e.r = [ i \in DOMAIN e.X |-> Result(m, e.X[i]) ]
      [] e.fn = "eval"     ->
           LET good == Cardinality({ i \in DOMAIN e.X : Predicted(m, e.X[i]) = e.y[i] })
           IN Abs(e.r - 1000 * good) <= 1
=============================================================================
