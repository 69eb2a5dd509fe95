------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The training machine, constructively: how one sample changes a model,   *)
(* for every outcome of the random draws. TLC explores all learned states  *)
(* reachable for small constants and checks the invariants, and that every *)
(* step is one that Rules.tla allows (StepsAllowed).                       *)
(***************************************************************************)
EXTENDS Rules

CONSTANTS Fam, Clf, Feat, NStates, Labels, Per, Thresh, Boost, Weighted,
          MaxWeight, Sn, Sd, Loss, Ca, Cb, BoxM,
          Mutant          \* "none", or a deliberate fault (bin/selftest.py)

VARIABLES rows, w, pol,        \* learned state; pol only in the packed family
          last                 \* the model before, and the sample (hidden by VIEW)

vars == <<rows, w, pol, last>>

Outs == IF Clf THEN Labels * Per ELSE Per
F1 == 1 .. Feat

Model ==
    [ fam |-> Fam, clf |-> Clf, F |-> Feat, L |-> Labels, per |-> Per, outs |-> Outs,
      N |-> NStates, T |-> Thresh, boost |-> Boost, wt |-> Weighted, maxw |-> MaxWeight,
      H |-> HitSet(Feat, Sn, Sd), loss |-> Loss, ca |-> Ca, cb |-> Cb, bm |-> BoxM,
      rows |-> rows, w |-> w, pol |-> pol ]

H == HitSet(Feat, Sn, Sd)

Up(v) == IF Mutant = "wrap" /\ v = NStates - 1 THEN -NStates ELSE Min2(v + 1, NStates - 1)
Down(v) == IF Mutant = "fall" THEN v - 1 ELSE Max2(v - 1, -NStates)

(************************ draws: literal -> times drawn *********************)
RECURSIVE WithReplacement(_)
WithReplacement(k) ==
    IF k = 0 THEN { [ j \in F1 |-> 0 ] }
    ELSE { [ f EXCEPT ![j] = @ + 1 ] : f \in WithReplacement(k - 1), j \in F1 }

Distinct(k) == { f \in [ F1 -> {0, 1} ] : Cardinality({ j \in F1 : f[j] = 1 }) = k }

DistinctDraws == UNION { Distinct(k) : k \in H }
PackedDraws == UNION { WithReplacement(k) : k \in H }

(******************** one feedback to one clause: outcomes ******************)
\* an automaton moved down v times
RECURSIVE DownBy(_, _)
DownBy(v, k) == IF k = 0 THEN v ELSE DownBy(Down(v), k - 1)

ForgetRow(a) ==
    { [ j \in F1 |-> DownBy(a[j], f[j]) ] : f \in (IF Fam = "classic" THEN DistinctDraws ELSE PackedDraws) }

ReinforceRow(a, neg, x) ==
    { [ j \in F1 |-> IF Lit(neg, x[j]) = 1
                     THEN IF Boost \/ f[j] = 0 THEN Up(a[j]) ELSE a[j]
                     ELSE IF f[j] = 1 THEN Down(a[j]) ELSE a[j] ] : f \in DistinctDraws }

PenaliseRow(a, neg, x) ==
    [ j \in F1 |-> IF Lit(neg, x[j]) = 0 /\ (a[j] < 0 \/ (Mutant = "penaliseAll" /\ a[j] < NStates - 1)) THEN a[j] + 1 ELSE a[j] ]

\* a clause is <<positive row, negative row, weight - 1>>
TypeI(c, x) ==
    IF FiresInTraining(c[1], c[2], x)
    THEN { <<p, n, IF Weighted /\ c[3] + 1 < MaxWeight + (IF Mutant = "weight" THEN 1 ELSE 0) THEN c[3] + 1 ELSE c[3]>> :
             p \in ReinforceRow(c[1], 0, x), n \in ReinforceRow(c[2], 1, x) }
    ELSE { <<p, n, c[3]>> : p \in ForgetRow(c[1]), n \in ForgetRow(c[2]) }

TypeII(c, x) ==
    IF FiresInTraining(c[1], c[2], x)
    THEN { <<PenaliseRow(c[1], 0, x), PenaliseRow(c[2], 1, x), IF Weighted /\ c[3] > 0 THEN c[3] - 1 ELSE c[3]>> }
    ELSE { c }

(****************************** whole samples *******************************)
ClauseAt(o) == <<rows[PosRow(o)], rows[NegRow(o)], WeightOf(w, o)>>
Clauses == [ i \in 1 .. Outs |-> ClauseAt(i - 1) ]

RECURSIVE Product(_)
\* all sequences with the i-th element from the i-th set
Product(ss) == IF ss = <<>> THEN {<<>>} ELSE { <<c>> \o r : c \in Head(ss), r \in Product(Tail(ss)) }

\* probability that a clause of a label receives feedback: never / always / sometimes
Chance(v, own) ==
    IF own THEN IF v >= Thresh /\ Mutant # "margin" THEN "never" ELSE IF v <= -Thresh THEN "always" ELSE "maybe"
    ELSE IF v <= -Thresh THEN "never" ELSE IF v >= Thresh THEN "always" ELSE "maybe"

ClassifierOutcomes(x, y, q) ==
    LET cs == Clauses
        Of(o) == LET lab == o \div Per
                     own == IF Mutant = "role" THEN lab # y ELSE lab = y
                     out == IF (o % 2 = 0) = own THEN TypeI(cs[o + 1], x) ELSE TypeII(cs[o + 1], x)
                 IN IF lab \notin {y, q} THEN {cs[o + 1]}
                    ELSE CASE Chance(TrainScore(Model, x, lab), own) = "never" -> {cs[o + 1]}
                           [] Chance(TrainScore(Model, x, lab), own) = "always" -> out
                           [] OTHER -> out \cup {cs[o + 1]}
    IN Product([ i \in 1 .. Outs |-> Of(i - 1) ])

RegType(c, fires, err, x) ==
    IF (err < 0) # (Mutant = "direction")
    THEN IF fires
         THEN { <<p, n, IF Weighted /\ c[3] + 1 < MaxWeight + (IF Mutant = "weight" THEN 1 ELSE 0) THEN c[3] + 1 ELSE c[3]>> :
                  p \in ReinforceRow(c[1], 0, x), n \in ReinforceRow(c[2], 1, x) }
         ELSE { <<p, n, c[3]>> : p \in ForgetRow(c[1]), n \in ForgetRow(c[2]) }
    ELSE IF fires
         THEN { <<PenaliseRow(c[1], 0, x), PenaliseRow(c[2], 1, x), IF Weighted /\ c[3] > 0 THEN c[3] - 1 ELSE c[3]>> }
         ELSE { c }

RECURSIVE RegSteps(_, _, _, _, _)
RegSteps(S, fire, err, x, k) ==
    IF k = 0 THEN S
    ELSE RegSteps(UNION { { [ cs EXCEPT ![o] = c ] : o \in {o1}, c \in RegType(cs[o1], (o1 - 1) \in fire, err, x) } :
                            cs \in S, o1 \in 1 .. Outs },
                  fire, err, x, k - 1)

RegressorOutcomes(x, y) ==
    LET fire == FiringSetTraining(rows, x, Outs)
        err == RegressorScore(fire, w, Outs, Thresh) - y
        hits == RegressorHits(Loss, Ca, Cb, err, Thresh, Outs, BoxM)
    IN UNION { RegSteps({Clauses}, fire, err, x, IF Mutant = "amount" /\ k > 0 THEN k + 1 ELSE k) : k \in hits }

Put(cs, x, y) ==
    /\ rows' = [ r \in 1 .. 2 * Outs |-> cs[((r - 1) \div 2) + 1][IF r % 2 = 1 THEN 1 ELSE 2] ]
    /\ w' = IF Weighted THEN [ i \in 1 .. Outs |-> cs[i][3] ] ELSE <<>>
    \* a flag is flipped when its automaton crosses the boundary
    /\ pol' = IF Fam = "bitwise"
              THEN [ r \in 1 .. 2 * Outs |-> [ j \in F1 |->
                       LET a == rows[r][j]
                           b == rows'[r][j]
                       IN IF a < 0 /\ b >= 0 THEN IF Mutant = "flag" THEN 0 ELSE 1 ELSE IF a >= 0 /\ b < 0 THEN 0 ELSE pol[r][j] ] ]
              ELSE <<>>
    /\ last' = [ m |-> Model, x |-> x, y |-> y ]

Samples == [ F1 -> {0, 1} ]

Train ==
    \E x \in Samples :
       IF Clf
       THEN \E y \in 0 .. Labels - 1 : \E q \in (0 .. Labels - 1) \ {y} :
              \E cs \in ClassifierOutcomes(x, y, q) : Put(cs, x, y)
       ELSE \E y \in 0 .. Thresh : \E cs \in RegressorOutcomes(x, y) : Put(cs, x, y)

\* a full fit starts at the decision boundary
Init ==
    /\ rows \in { [ r \in 1 .. 2 * Outs |-> [ j \in F1 |-> c[r] ] ] : c \in { [ r \in 1 .. 2 * Outs |-> IF r % 2 = k THEN -1 ELSE 0 ] : k \in {0, 1} } }
                \cup { [ r \in 1 .. 2 * Outs |-> [ j \in F1 |-> -1 ] ] }
    /\ w = IF Weighted THEN [ i \in 1 .. Outs |-> 0 ] ELSE <<>>
    /\ pol = IF Fam = "bitwise" THEN [ r \in 1 .. 2 * Outs |-> [ j \in F1 |-> IF rows[r][j] >= 0 THEN 1 ELSE 0 ] ] ELSE <<>>
    /\ last = [ m |-> <<>> ]

Next == Train

Spec == Init /\ [][Next]_vars

LearnedState == <<rows, w, pol>>

(******************************* properties ********************************)
InRange == RowsInRange(rows, NStates)
FlagsOK == AllFlagsAgree(Model)
WeightsOK == WeightsInRange(Model, w)
ShapeOK == Dimensions(Model)

E0 == [ sid |-> "machine" ]

Delta ==
    LET ch == { r \in 1 .. 2 * Outs : rows[r] # rows'[r] }
        pch == IF Fam = "bitwise" THEN { r \in 1 .. 2 * Outs : pol[r] # pol'[r] } ELSE {}
    IN [ nr |-> 2 * Outs,
         chg |-> [ i \in 1 .. Cardinality(ch) |-> LET r == SetToSortSeq(ch, <)[i] IN <<r, rows'[r]>> ],
         pchg |-> [ i \in 1 .. Cardinality(pch) |-> LET r == SetToSortSeq(pch, <)[i] IN <<r, pol'[r]>> ],
         w |-> w' ]

\* every step of the machine is allowed by the rules the traces are judged by
StepsAllowed == [][ StepOK([ sid |-> "machine", x |-> last'.x, y |-> last'.y ], Model, Delta, "OK") ]_vars
=============================================================================
