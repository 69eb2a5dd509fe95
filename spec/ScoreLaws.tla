----------------------------- MODULE ScoreLaws -----------------------------
(***************************************************************************)
(* The scoring operators the traces are judged by, against their plain     *)
(* meaning, for all learned states of two labels over small constants.     *)
(***************************************************************************)
EXTENDS Rules

CONSTANTS Feat, NStates, Per, MaxT, Weights
VARIABLES rows, w, x, T

F1 == 1 .. Feat
Outs == 2 * Per
Row == [ F1 -> {-NStates, -1, 0, NStates - 1} \cap (-NStates .. NStates - 1) ]

\* few clause shapes per output: empty, one literal each way, contradictory
Shapes == { <<[ j \in F1 |-> -1 ], [ j \in F1 |-> -1 ]>>,
            <<[ j \in F1 |-> IF j = 1 THEN 0 ELSE -1 ], [ j \in F1 |-> -1 ]>>,
            <<[ j \in F1 |-> -1 ], [ j \in F1 |-> IF j = Feat THEN NStates - 1 ELSE -NStates ]>>,
            <<[ j \in F1 |-> 0 ], [ j \in F1 |-> 0 ]>> }

Init ==
    /\ rows \in { [ r \in 1 .. 2 * Outs |-> f[(r - 1) \div 2][IF r % 2 = 1 THEN 1 ELSE 2] ] : f \in [ 0 .. Outs - 1 -> Shapes ] }
    /\ w \in [ 1 .. Outs -> Weights ] \cup { <<>> }
    /\ x \in [ F1 -> {0, 1} ]
    /\ T \in 1 .. MaxT
Next == UNCHANGED <<rows, w, x, T>>
Spec == Init /\ [][Next]_<<rows, w, x, T>>

\* the plain meaning, by sets
Literals(o) == { <<j, 0>> : j \in { k \in F1 : rows[2 * o + 1][k] >= 0 } } \cup { <<j, 1>> : j \in { k \in F1 : rows[2 * o + 2][k] >= 0 } }
PlainFires(o) == Literals(o) # {} /\ \A t \in Literals(o) : (x[t[1]] = 1) # (t[2] = 1)
Weight(o) == IF w = <<>> THEN 1 ELSE 1 + w[o + 1]
RECURSIVE PlainSum(_, _)
PlainSum(S, sgn) == IF S = {} THEN 0 ELSE LET o == CHOOSE o \in S : TRUE
                    IN (IF sgn /\ o % 2 = 1 THEN -Weight(o) ELSE Weight(o)) + PlainSum(S \ {o}, sgn)
PlainScore(l) == Clamp(PlainSum({ o \in l * Per .. (l + 1) * Per - 1 : PlainFires(o) }, TRUE), -T, T)

Laws ==
    LET s == Scores(rows, w, x, 2, Per, T)
        p == ArgMax(s)
    IN /\ \A l \in {0, 1} : s[l + 1] = PlainScore(l)
       /\ p = IF PlainScore(1) > PlainScore(0) THEN 1 ELSE 0
       /\ RegressorPredict(rows, w, x, Outs, T) = Clamp(PlainSum({ o \in 0 .. Outs - 1 : PlainFires(o) }, FALSE), 0, T)
=============================================================================
