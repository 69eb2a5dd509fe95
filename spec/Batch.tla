------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Queries as the library works them out: one scratch list of clause       *)
(* outputs per model, filled and summed sample after sample, kept between  *)
(* calls. TLC checks, for all small models, histories of queries and       *)
(* leftovers in the scratch, that every answer is the plain function of    *)
(* learned state and sample (Tsetlin.tla), element by element, and that a  *)
(* prediction is the first maximum of the scores.                          *)
(***************************************************************************)
EXTENDS Rules

CONSTANTS Mutant3,      \* "none", "stale", "last", "shift", "short"
          Depth

VARIABLES rows, w, scratch, asked, answer, n

vars == <<rows, w, scratch, asked, answer, n>>

Per == 2
L == 2
T == 2
Outs == Per * L
Samples == { <<0>>, <<1>> }
\* clauses over one feature: empty, x, not x, both
Shapes == { <<<<-1>>, <<-1>>>>, <<<<0>>, <<-1>>>>, <<<<-1>>, <<0>>>>, <<<<0>>, <<0>>>> }
Models == { [ r \in 1 .. 2 * Outs |-> f[(r - 1) \div 2][IF r % 2 = 1 THEN 1 ELSE 2] ] : f \in [ 0 .. Outs - 1 -> Shapes ] }

Batches == { <<a>> : a \in Samples } \cup { <<a, b>> : a, b \in Samples }

Init ==
    /\ rows \in Models
    /\ w \in { <<>>, <<0, 1, 0, 0>>, <<1, 0, 2, 0>> }
    /\ scratch \in { [ o \in 1 .. Outs |-> 0 ], [ o \in 1 .. Outs |-> 1 ] }
    /\ asked = <<>> /\ answer = <<>> /\ n = 0

\* outputs of clauses for x, written over the scratch
Fill(s, x) ==
    [ o \in 1 .. Outs |->
        LET p == rows[PosRow(o - 1)]
            q == rows[NegRow(o - 1)]
        IN IF Mutant3 = "stale" /\ ~AnyIncluded(p, q) THEN s[o]
           ELSE IF Fires(p, q, x) THEN 1 ELSE 0 ]
Sum(s, l) == Clamp(SumOver([ o \in l * Per + 1 .. (l + 1) * Per |-> (IF o % 2 = 1 THEN 1 ELSE -1) * s[o] * (1 + WeightOf(w, o - 1)) ]), -T, T)
Pick(v) == IF Mutant3 = "last" THEN (IF v[2] >= v[1] THEN 1 ELSE 0) ELSE IF v[2] > v[1] THEN 1 ELSE 0

\* walk over the batch: scratch and answers
RECURSIVE Walk(_, _, _, _)
Walk(kind, xs, s, acc) ==
    IF xs = <<>> THEN <<s, acc>>
    ELSE LET s2 == Fill(s, Head(xs))
             v == [ l \in 1 .. L |-> Sum(s2, l - 1) ]
             a == IF kind = "scores" THEN v ELSE Pick(v)
         IN Walk(kind, Tail(xs), s2, IF Mutant3 = "shift" /\ acc # <<>> THEN <<a>> \o acc ELSE IF Mutant3 = "short" /\ Len(acc) = 1 THEN acc ELSE Append(acc, a))

Ask(kind, xs) ==
    LET r == Walk(kind, xs, scratch, <<>>)
    IN scratch' = r[1] /\ answer' = r[2] /\ asked' = <<kind, xs>>

Next ==
    /\ n < Depth /\ n' = n + 1
    /\ \E kind \in {"predict", "scores"} : \E xs \in Batches : Ask(kind, xs)
    /\ UNCHANGED <<rows, w>>
Spec == Init /\ [][Next]_vars

Plain(kind, x) == LET v == Scores(rows, w, x, L, Per, T) IN IF kind = "scores" THEN v ELSE ArgMax(v)
Elementwise == asked # <<>> => answer = [ i \in DOMAIN asked[2] |-> Plain(asked[1], asked[2][i]) ]
=============================================================================
