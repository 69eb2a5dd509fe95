-------------------------------- MODULE Draws --------------------------------
(***************************************************************************)
(* The laws of chance used by StatTrace.tla, derived from the draws that   *)
(* training makes by counting all equally likely outcomes for small sizes. *)
(* One state per case.                                                     *)
(***************************************************************************)
EXTENDS Tsetlin

VARIABLE k

MaxT == 4
MaxF == 4

Cases ==
    [ law : {"feedback"}, T : 1 .. MaxT, v : -MaxT .. MaxT, G : {1, 3} ]
    \cup [ law : {"other"}, L : 2 .. 6, y : 0 .. 5 ]
    \cup [ law : {"forget", "replace"}, F : 1 .. MaxF, sn : 1 .. 6, sd : 1 .. 3 ]
    \cup [ law : {"pick"}, N : 1 .. 3, h : 0 .. 3 ]

Legal(c) ==
    CASE c.law = "feedback" -> c.v >= -c.T /\ c.v <= c.T
      [] c.law = "other" -> c.y < c.L
      [] c.law \in {"forget", "replace"} -> c.sn >= c.sd
      [] OTHER -> TRUE

Init == k \in { c \in Cases : Legal(c) }
Next == UNCHANGED k
Spec == Init /\ [][Next]_k

\* a draw from a grid of G*2T numbers in (0, 1), each the middle of its part:
\* feedback when it does not exceed (T - v)/2T
Feedback(c) ==
    LET g == c.G * 2 * c.T
        \* (2i+1)/2g <= (T-v)/2T
        given == { i \in 0 .. g - 1 : (2 * i + 1) * 2 * c.T <= (c.T - c.v) * 2 * g }
        \* of the other label: (T + v)/2T
        other == { i \in 0 .. g - 1 : (2 * i + 1) * 2 * c.T <= (c.T + c.v) * 2 * g }
        both == { p \in (0 .. g - 1) \X (0 .. g - 1) : p[1] \in given /\ p[2] \in given }
    IN /\ Cardinality(given) * 2 * c.T = g * (c.T - c.v)
       /\ Cardinality(other) * 2 * c.T = g * (c.T + c.v)
       \* two clauses, a draw each
       /\ Cardinality(both) * 4 * c.T * c.T = g * g * (c.T - c.v) * (c.T - c.v)
       /\ c.v = c.T => given = {}
       /\ c.v = -c.T => given = 0 .. g - 1

\* the other label: (y + 1 + draw mod (L-1)) mod L
Other(c) ==
    LET n == 3 * (c.L - 1)
        q(i) == (c.y + 1 + (i % (c.L - 1))) % c.L
    IN \A l \in 0 .. c.L - 1 :
         Cardinality({ i \in 0 .. n - 1 : q(i) = l }) * (c.L - 1) = IF l = c.y THEN 0 ELSE n

\* number of draws: floor(F/s), and one more for (F/s - floor) of sn outcomes
HitsFor(c, i) == LET q == (c.F * c.sd) \div c.sn
                     r == (c.F * c.sd) % c.sn
                 IN q + (IF i < r THEN 1 ELSE 0)

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)

\* distinct draws: every ordered choice of hits literals is as likely; given
\* the coarse outcome i, weighted to a common denominator F!
Forget(c) ==
    LET chosen(h) == { f \in [ 1 .. h -> 1 .. c.F ] : \A a, b \in 1 .. h : a # b => f[a] # f[b] }
        share(h, j) == Cardinality({ f \in chosen(h) : j \in { f[a] : a \in 1 .. h } }) * Fact(c.F - h)
        sum(j) == SumOver([ i \in 0 .. c.sn - 1 |-> share(HitsFor(c, i), j) ])
    IN /\ \A i \in 0 .. c.sn - 1 : HitsFor(c, i) <= c.F /\ HitsFor(c, i) \in HitSet(c.F, c.sn, c.sd)
       \* each literal is hit with probability 1/s
       /\ \A j \in 1 .. c.F : sum(j) * c.sn = c.sd * c.sn * Fact(c.F)
       \* and features/s of them on average
       /\ SumOver([ i \in 0 .. c.sn - 1 |-> HitsFor(c, i) ]) = c.F * c.sd

\* draws with replacement: the expected number of hits of a literal is 1/s too
Replace(c) ==
    LET hits(h, j) == SumOver([ f \in [ 1 .. h -> 1 .. c.F ] |-> Cardinality({ a \in 1 .. h : f[a] = j }) ])
        \* to a common denominator F^F
        scaled(h, j) == hits(h, j) * c.F ^ (c.F - h)
    IN \A j \in 1 .. c.F : SumOver([ i \in 0 .. c.sn - 1 |-> scaled(HitsFor(c, i), j) ]) * c.F = c.F * c.sd * c.F ^ c.F

\* a regressor's h picks of N clauses
Pick(c) ==
    LET all == [ 1 .. c.h -> 0 .. c.N - 1 ]
    IN \A o \in 0 .. c.N - 1 :
         SumOver([ f \in all |-> Cardinality({ a \in 1 .. c.h : f[a] = o }) ]) * c.N = c.h * Cardinality(all)

Laws ==
    CASE k.law = "feedback" -> Feedback(k)
      [] k.law = "other" -> Other(k)
      [] k.law = "forget" -> Forget(k)
      [] k.law = "replace" -> Replace(k)
      [] k.law = "pick" -> Pick(k)
=============================================================================
