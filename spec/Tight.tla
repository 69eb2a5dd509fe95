------------------------------- MODULE Tight -------------------------------
(***************************************************************************)
(* The relations the traces are judged by are not only satisfied by the    *)
(* constructive feedback but, for one feedback, allow nothing else: for    *)
(* all rows over small constants, {b : Rel(a, b)} = outcomes of a.         *)
(***************************************************************************)
EXTENDS Machine

Rows == [ F1 -> -NStates .. NStates - 1 ]

TightForget ==
    \A a \in Rows :
        { b \in Rows : IF Fam = "classic" THEN ForgetDistinctRel(a, b, NStates, H, 1)
                       ELSE ForgetRel(a, b, NStates, H, 1) }
        = ForgetRow(a)

TightReinforce ==
    \A a \in Rows : \A neg \in {0, 1} : \A x \in Samples :
        { b \in Rows : ReinforceRel(a, b, NStates, H, 1, Boost, neg, x) } = ReinforceRow(a, neg, x)

TightPenalise ==
    \A a \in Rows : \A neg \in {0, 1} : \A x \in Samples :
        { b \in Rows : PenaliseRel(a, b, 1, neg, x) } = { PenaliseRow(a, neg, x) }

\* Repeated feedback (regressor): everything constructible is allowed.
Twice(S(_), a) == UNION { S(b) : b \in S(a) }
Thrice(S(_), a) == UNION { S(b) : b \in Twice(S, a) }

RepeatedForget ==
    \A a \in Rows :
        /\ \A b \in Twice(ForgetRow, a) :
              IF Fam = "classic" THEN ForgetDistinctRel(a, b, NStates, H, 2) ELSE ForgetRel(a, b, NStates, H, 2)
        /\ \A b \in Thrice(ForgetRow, a) :
              IF Fam = "classic" THEN ForgetDistinctRel(a, b, NStates, H, 3) ELSE ForgetRel(a, b, NStates, H, 3)

RepeatedReinforce ==
    \A a \in Rows : \A neg \in {0, 1} : \A x \in Samples :
        LET S(r) == ReinforceRow(r, neg, x) IN
        /\ \A b \in Twice(S, a) : ReinforceRel(a, b, NStates, H, 2, Boost, neg, x)
        /\ \A b \in Thrice(S, a) : ReinforceRel(a, b, NStates, H, 3, Boost, neg, x)

RepeatedPenalise ==
    \A a \in Rows : \A neg \in {0, 1} : \A x \in Samples :
        LET S(r) == { PenaliseRow(r, neg, x) } IN
        /\ \A b \in Twice(S, a) : PenaliseRel(a, b, 2, neg, x)
        /\ \A b \in Thrice(S, a) : PenaliseRel(a, b, 3, neg, x)

\* without draws the families agree (C17)
RandomFree ==
    (H = {0} /\ Boost) =>
      \A a \in Rows : \A neg \in {0, 1} : \A x \in Samples :
         /\ ReinforceRow(a, neg, x) = { [ j \in F1 |-> IF Lit(neg, x[j]) = 1 THEN Up(a[j]) ELSE a[j] ] }
         /\ ForgetRow(a) = {a}

CONSTANT Which
Holds ==
    CASE Which = "typeI"  -> TightForget /\ TightReinforce /\ RepeatedForget /\ RepeatedReinforce
      [] Which = "typeII" -> TightPenalise /\ RepeatedPenalise
      [] Which = "free"   -> RandomFree
ASSUME Holds

TInit == rows = <<>> /\ w = <<>> /\ pol = <<>> /\ last = <<>>
TNext == UNCHANGED vars
TSpec == TInit /\ [][TNext]_vars
=============================================================================
