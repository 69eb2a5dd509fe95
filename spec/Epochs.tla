------------------------------- MODULE Epochs -------------------------------
(***************************************************************************)
(* A training call: e epochs, each presenting every sample once, in some   *)
(* order. Whole calls are decided on models in which every presentation    *)
(* leaves a mark and no mark disturbs another:                             *)
(*  - all literals so far from inclusion that clauses stay empty, and      *)
(*    fire; nothing is forgotten; true literals always reinforced;         *)
(*  - votes held beyond the threshold by heavy clauses, so that feedback   *)
(*    is certain for one label and out of the question for the other.      *)
(* Then the learned state after the call is a function of how often each   *)
(* sample was presented, with which target (Own, Other, Reg).              *)
(*                                                                         *)
(* TLC explores all orders on small data sets (Spec) and checks that the   *)
(* state at the end of a call is the one these operators give.             *)
(***************************************************************************)
EXTENDS Rules

Count(S, n) == Cardinality({ i \in 1 .. n : i \in S })

Kind(r) == IF r % 2 = 1 THEN 0 ELSE 1
X(d, i) == d.X[i]
Has(d, i, r, j, b) == Lit(Kind(r), d.X[i][j]) = b

\* number of samples from S for which literal j of row kind r has value b
Num(d, S, r, j, b) == Cardinality({ i \in S : Has(d, i, r, j, b) })
OfLabel(d, l) == { i \in DOMAIN d.y : d.y[i] = l }

\* the marks are exact if nothing gets near inclusion
Deep(m, d, e) == \A r \in DOMAIN m.rows : \A j \in DOMAIN m.rows[r] : m.rows[r][j] + e * Len(d.y) * (IF m.clf THEN 1 ELSE m.outs) < 0
Quiet(m) == m.H = {0} /\ m.boost

LabelSum(m, l, parity) == SumOver([ o \in { c \in ClausesOf(m, l) : c % 2 = parity } |-> 1 + WeightOf(m.w, o) ])
Heavy(m, d, e, parity) ==
    \A l \in 0 .. m.L - 1 : LabelSum(m, l, parity) - LabelSum(m, l, 1 - parity) - m.per * e * Len(d.y) >= m.T
\* and no weight reaches an end
Free(m, d, e) == \A o \in 0 .. m.outs - 1 : WeightOf(m.w, o) + e * Len(d.y) < m.maxw - 1

(************* every score at -T: only the own label gets feedback *********)
OwnReady(m, d, e) == Quiet(m) /\ Deep(m, d, e) /\ m.wt /\ Heavy(m, d, e, 1) /\ Free(m, d, e)
                       /\ \A o \in 0 .. m.outs - 1 : o % 2 = 1 => WeightOf(m.w, o) >= e * Len(d.y)

OwnRow(m, d, e, r) ==
    LET o == ClauseOfRow(r)
        S == OfLabel(d, LabelOf(m, o))
    IN [ j \in DOMAIN m.rows[r] |-> m.rows[r][j] + e * Num(d, S, r, j, IF o % 2 = 0 THEN 1 ELSE 0) ]
OwnWeight(m, d, e, o) ==
    LET n == Cardinality(OfLabel(d, LabelOf(m, o))) IN WeightOf(m.w, o) + (IF o % 2 = 0 THEN e * n ELSE -e * n)

Own(m, d, e, rows, w) ==
    /\ \A r \in DOMAIN m.rows : rows[r] = OwnRow(m, d, e, r)
    /\ \A o \in 0 .. m.outs - 1 : w[o + 1] = OwnWeight(m, d, e, o)

(************ every score at T: only the other label gets feedback *********)
OtherReady(m, d, e) == Quiet(m) /\ Deep(m, d, e) /\ m.wt /\ Heavy(m, d, e, 0) /\ Free(m, d, e)
                         /\ \A o \in 0 .. m.outs - 1 : o % 2 = 0 => WeightOf(m.w, o) >= e * Len(d.y)

Other(m, d, e, rows, w) ==
    LET mark(r, j) == rows[r][j] - m.rows[r][j]
        dw(o) == w[o + 1] - WeightOf(m.w, o)
        row(l, k, t) == 2 * (l * m.per + k) + t          \* t = 1: positive, 2: negated literals
        b(k) == IF k % 2 = 0 THEN 0 ELSE 1
        labels == 0 .. m.L - 1
    IN \A k \in 0 .. m.per - 1 :
         /\ \A t \in {1, 2} : \A j \in 1 .. m.F :
              \* once per sample and epoch in all, and never in the own label
              /\ SumOver([ l \in labels |-> mark(row(l, k, t), j) ]) = e * Num(d, DOMAIN d.y, t, j, b(k))
              /\ \A l \in labels : LET v == mark(row(l, k, t), j) IN v >= 0 /\ v <= e * Num(d, DOMAIN d.y \ OfLabel(d, l), t, j, b(k))
         /\ SumOver([ l \in labels |-> Abs(dw(l * m.per + k)) ]) = e * Len(d.y)
         /\ \A l \in labels : LET v == dw(l * m.per + k) IN IF k % 2 = 1 THEN v >= 0 ELSE v <= 0

(********** a regressor of equal votes: marks add up over its clauses ******)
RegHits(m, yi) ==
    LET votes == Min2(m.outs, m.T)
        h == RegressorHits(m.loss, m.ca, m.cb, votes - yi, m.T, m.outs, FALSE)
    IN h
RegReady(m, d, e) == Quiet(m) /\ Deep(m, d, e) /\ ~m.wt /\ ~m.bm /\ \A i \in DOMAIN d.y : Cardinality(RegHits(m, d.y[i])) = 1
Reg(m, d, e, rows) ==
    LET votes == Min2(m.outs, m.T)
        one(i) == SetMax(RegHits(m, d.y[i]))
        want(t, j) == SumOver([ i \in DOMAIN d.y |->
                          IF votes < d.y[i] THEN (IF Has(d, i, t, j, 1) THEN one(i) ELSE 0)
                          ELSE IF Has(d, i, t, j, 0) THEN one(i) ELSE 0 ])
    IN \A t \in {1, 2} : \A j \in 1 .. m.F :
         /\ SumOver([ o \in 0 .. m.outs - 1 |-> rows[2 * o + t][j] - m.rows[2 * o + t][j] ]) = e * want(t, j)
         /\ \A o \in 0 .. m.outs - 1 : rows[2 * o + t][j] >= m.rows[2 * o + t][j]

(*********************** which sample came first ***************************)
\* one clause that learns: literal j is true in sample j alone and c short of
\* inclusion. In epoch c the first sample's literal gets in, and from then on
\* the clause does not match the others.
FirstRow == 1
FirstOf(m, rows, c) == { j \in 1 .. m.F : rows[FirstRow][j] = 0 }
FirstReady(m, d, c) ==
    /\ Quiet(m)
    /\ \A i \in DOMAIN d.y : \A j \in 1 .. m.F : d.X[i][j] = (IF i = j THEN 1 ELSE 0)
    /\ \A j \in 1 .. m.F : m.rows[FirstRow][j] = -c
OneFirst(m, rows, c) ==
    /\ Cardinality(FirstOf(m, rows, c)) = 1
    /\ \A j \in 1 .. m.F : rows[FirstRow][j] \in {-1, 0}

(***************************************************************************)
(* The call as a process: samples in any order. Variables of TLC's check.  *)
(***************************************************************************)
CONSTANTS Which, Ne, Mutant2     \* Mutant2: "none", "skip", "replace", "label"

VARIABLES m0, d0, cur, todo, ep

vars2 == <<m0, d0, cur, todo, ep>>

C0 == [ fam |-> "classic", F |-> 2, N |-> 100, boost |-> TRUE, maxw |-> 1000, H |-> {0}, loss |-> "MAE", ca |-> 0, cb |-> 1, bm |-> FALSE, pol |-> <<>> ]
M0 == CASE Which \in {"own", "other"} ->
             C0 @@ [ clf |-> TRUE, L |-> 3, per |-> 2, outs |-> 6, T |-> 2, wt |-> TRUE,
                     rows |-> [ r \in 1 .. 12 |-> <<-100, -100>> ],
                     w |-> [ o \in 1 .. 6 |-> IF (o % 2 = 0) = (Which = "own") THEN 80 ELSE 1 ] ]
        [] Which = "reg" ->
             C0 @@ [ clf |-> FALSE, L |-> 1, per |-> 2, outs |-> 2, T |-> 4, wt |-> FALSE, rows |-> [ r \in 1 .. 4 |-> <<-100, -100>> ], w |-> <<>> ]
        [] Which = "first" ->
             C0 @@ [ clf |-> FALSE, L |-> 1, per |-> 1, outs |-> 1, T |-> 20, wt |-> FALSE, rows |-> << <<-Ne, -Ne>>, <<-100, -100>> >>, w |-> <<>> ]

XS == [ 1 .. 2 -> {0, 1} ]
DataSets ==
    IF Which = "first" THEN { [ X |-> << <<1, 0>>, <<0, 1>> >>, y |-> <<20, 20>> ] }
    ELSE { [ X |-> <<a, b>>, y |-> <<p, q>> ] : a, b \in XS, p, q \in (IF Which = "reg" THEN {0, 2, 4} ELSE 0 .. 2) }

Init2 == m0 = M0 /\ d0 \in DataSets /\ cur = M0 /\ todo = {1, 2} /\ ep = 1

\* the one deterministic outcome of one feedback here
RowUp(row, t, x, b) == [ j \in DOMAIN row |-> IF Lit(Kind(t), x[j]) = b THEN row[j] + 1 ELSE row[j] ]
Update(m, os, x, reinf(_)) ==
    [ m EXCEPT !.rows = [ r \in DOMAIN m.rows |->
                            LET o == ClauseOfRow(r) IN
                            IF o \in os /\ FiresT(m, x, o) THEN RowUp(m.rows[r], r, x, IF reinf(o) THEN 1 ELSE 0) ELSE m.rows[r] ],
               !.w = IF m.wt THEN [ i \in DOMAIN m.w |-> IF (i - 1) \in os /\ FiresT(m, x, i - 1) THEN IF reinf(i - 1) THEN m.w[i] + 1 ELSE m.w[i] - 1 ELSE m.w[i] ] ELSE m.w ]

RECURSIVE RegUpdates(_, _, _, _)
RegUpdates(S, x, up, h) ==
    IF h = 0 THEN S
    ELSE RegUpdates({ Update(m, {o}, x, LAMBDA oo : up) : m \in S, o \in 0 .. cur.outs - 1 }, x, up, h - 1)

Present(i) ==
    LET x == d0.X[i]
        y == IF Mutant2 = "label" THEN d0.y[3 - i] ELSE d0.y[i]
    IN IF cur.clf
       THEN \E q \in (0 .. cur.L - 1) \ {y} :
              LET vy == TrainScore(cur, x, y)
                  vq == TrainScore(cur, x, q)
                  os == (IF vy <= -cur.T THEN ClausesOf(cur, y) ELSE {}) \cup (IF vq >= cur.T THEN ClausesOf(cur, q) ELSE {})
              IN cur' = Update(cur, os, x, LAMBDA o : Reinforced(cur, y, o))
       ELSE LET fire == { o \in 0 .. cur.outs - 1 : FiresT(cur, x, o) }
                err == RegressorScore(fire, cur.w, cur.outs, cur.T) - y
            IN \E h \in RegressorHits(cur.loss, 0, 1, err, cur.T, cur.outs, FALSE) :
                 cur' \in RegUpdates({cur}, x, err < 0, h)

Next2 ==
    /\ ep <= Ne
    /\ \E i \in todo :
         /\ IF Mutant2 = "skip" /\ i = 2 /\ ep = Ne THEN UNCHANGED cur ELSE IF Mutant2 = "replace" THEN \E k \in {1, 2} : Present(k) ELSE Present(i)
         /\ IF todo = {i} THEN ep' = ep + 1 /\ todo' = {1, 2} ELSE ep' = ep /\ todo' = todo \ {i}
    /\ UNCHANGED <<m0, d0>>

Spec2 == Init2 /\ [][Next2]_vars2

Done == ep = Ne + 1
Ready ==
    CASE Which = "own" -> OwnReady(m0, d0, Ne)
      [] Which = "other" -> OtherReady(m0, d0, Ne)
      [] Which = "reg" -> RegReady(m0, d0, Ne)
      [] Which = "first" -> FirstReady(m0, d0, Ne)
Marks ==
    Done => CASE Which = "own" -> Own(m0, d0, Ne, cur.rows, cur.w)
              [] Which = "other" -> Other(m0, d0, Ne, cur.rows, cur.w)
              [] Which = "reg" -> Reg(m0, d0, Ne, cur.rows)
              [] Which = "first" -> OneFirst(m0, cur.rows, Ne)
=============================================================================
