------------------------------ MODULE Tsetlin ------------------------------
(***************************************************************************)
(* The Tsetlin machine of the library: learned state, clause evaluation,   *)
(* scoring, and the effect of Type I / Type II feedback.                   *)
(*                                                                         *)
(* A learned state is a sequence `rows` of automaton rows and a sequence   *)
(* `w` of weights (effective weight minus one; empty when unweighted).     *)
(* Clause output o (counted from 0) owns rows 2o+1 (literals x_j) and 2o+2 *)
(* (literals 1-x_j), in TLA+'s counting from 1.                            *)
(*                                                                         *)
(* Operators named ...Rel relate a row before and after `m` applications   *)
(* of a kind of feedback, for every choice the random draws may make.      *)
(* Machine.tla defines the same feedback constructively and TLC checks     *)
(* that the two agree.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

LOCAL INSTANCE FiniteSetsExt

SetMin(S) == FoldSet(Min2, CHOOSE x \in S : TRUE, S)
SetMax(S) == FoldSet(Max2, CHOOSE x \in S : TRUE, S)

PosRow(o) == 2 * o + 1
NegRow(o) == 2 * o + 2

(************************** literals and clauses ***************************)
Included(v) == v >= 0

\* value of the literal of row kind `neg` (0: x_j, 1: negated) for input bit b
Lit(neg, b) == IF neg = 0 THEN b ELSE 1 - b

AnyIncluded(pos, neg) ==
    \E j \in DOMAIN pos : pos[j] >= 0 \/ neg[j] >= 0

AllIncludedTrue(pos, neg, x) ==
    \A j \in DOMAIN x : IF x[j] = 0 THEN pos[j] < 0 ELSE neg[j] < 0

\* during training a clause without literals fires
FiresInTraining(pos, neg, x) == AllIncludedTrue(pos, neg, x)

\* when predicting it does not
Fires(pos, neg, x) == AllIncludedTrue(pos, neg, x) /\ AnyIncluded(pos, neg)

(******************************** scores ***********************************)
\* TLC's integers have 32 bits, sums of weights do not: sums are kept as
\* <<high, low>> in base 2^16 and compared with the threshold at the end.
WeightOf(w, o) == IF w = <<>> THEN 0 ELSE w[o + 1]      \* minus one

SumOver(f) == FoldFunction(LAMBDA a, b : a + b, 0, f)

\* fire: set of firing clauses; sum of +-(1+w) over begin..end-1
SumHL(fire, w, begin, end) ==
    LET S == { o \in begin .. end - 1 : o \in fire }
        sg(o) == IF o % 2 = 0 THEN 1 ELSE -1
    IN << SumOver([ o \in S |-> sg(o) * (WeightOf(w, o) \div 65536) ]),
          SumOver([ o \in S |-> sg(o) * ((WeightOf(w, o) % 65536) + 1) ]) >>

\* regressor: every clause votes for
SumAllHL(fire, w) ==
    << SumOver([ o \in fire |-> WeightOf(w, o) \div 65536 ]),
       SumOver([ o \in fire |-> (WeightOf(w, o) % 65536) + 1 ]) >>

\* clamp hi*2^16+lo to lb..ub (lb, ub within 32 bits)
ClampHL(hl, lb, ub) ==
    LET h == hl[1] + (hl[2] \div 65536)
        l == hl[2] % 65536
    IN IF h > 32767 THEN ub
       ELSE IF h < -32768 THEN lb
       ELSE Clamp(h * 65536 + l, lb, ub)

\* per: number of clause outputs per label; label counted from 0
LabelScore(fire, w, per, label, T) ==
    ClampHL(SumHL(fire, w, label * per, (label + 1) * per), -T, T)

RegressorScore(fire, w, outputs, T) ==
    ClampHL(SumAllHL(fire, w), 0, T)

FiringSet(rows, x, outputs) ==
    { o \in 0 .. outputs - 1 : Fires(rows[PosRow(o)], rows[NegRow(o)], x) }

FiringSetTraining(rows, x, outputs) ==
    { o \in 0 .. outputs - 1 : FiresInTraining(rows[PosRow(o)], rows[NegRow(o)], x) }

Scores(rows, w, x, labels, per, T) ==
    LET fire == FiringSet(rows, x, labels * per)
    IN TLCEval([ l \in 1 .. labels |-> LabelScore(fire, w, per, l - 1, T) ])

\* lowest-numbered label (from 0) of maximal score; the sequence is from 1
ArgMax(s) ==
    LET best == SetMax({ s[k] : k \in DOMAIN s })
    IN (CHOOSE l \in DOMAIN s : s[l] = best /\ \A k \in 1 .. l - 1 : s[k] # best) - 1

RegressorPredict(rows, w, x, outputs, T) ==
    RegressorScore(FiringSet(rows, x, outputs), w, outputs, T)

(*************************** forgetting draws ******************************)
IsPow2(n) == \E k \in 0 .. 30 : 2 ^ k = n

\* s is the rational sn/sd; sn = 0 stands for an s so large that nothing is
\* ever drawn. The set of possible numbers of draws per literal polarity.
\* features/s is computed in single precision: where it is an integer but s
\* no power of two, rounding may push it to either side.
HitSet(F, sn, sd) ==
    IF sn = 0 THEN {0}
    ELSE LET q == (F * sd) \div sn
             r == (F * sd) % sn
         IN IF r # 0 THEN {q, q + 1}
            ELSE IF sd = 1 /\ IsPow2(sn) THEN {q}
            ELSE {Max2(q - 1, 0), q, Min2(q + 1, F)}


(******************************* feedback **********************************)
\* All relations: N number of states, H set of possible hits, m number of
\* times the feedback was given, a / b the row before / after.

\* Type I, clause does not match: forgetting draws only.
\* Distinct draws (classic estimators): a literal is drawn once at most.
ForgetDistinctRel(a, b, N, H, m) ==
    LET vis == [ j \in DOMAIN a |-> a[j] - b[j] ]
        \* draws that cannot be seen because the literal is at its last state
        hid == [ j \in DOMAIN a |-> IF b[j] = -N THEN m - vis[j] ELSE 0 ]
        sv == SumOver(vis)
    IN /\ \A j \in DOMAIN a : vis[j] >= 0 /\ vis[j] <= m /\ b[j] >= -N
       /\ sv <= m * SetMax(H)
       /\ sv + SumOver(hid) >= m * SetMin(H)

\* Draws with replacement (bit-packed estimators).
ForgetRel(a, b, N, H, m) ==
    LET vis == [ j \in DOMAIN a |-> a[j] - b[j] ]
        sv == SumOver(vis)
    IN /\ \A j \in DOMAIN a : vis[j] >= 0 /\ b[j] >= -N
       /\ sv <= m * SetMax(H)
       /\ (sv >= m * SetMin(H) \/ \E j \in DOMAIN a : b[j] = -N)

\* Type I, clause matches. neg tells which polarity the row has.
ReinforceRel(a, b, N, H, m, boost, neg, x) ==
    LET true(j) == Lit(neg, x[j]) = 1
        \* least and largest number of times literal j may have been drawn
        lo == [ j \in DOMAIN a |->
                  IF true(j)
                  THEN IF boost \/ b[j] = N - 1 THEN 0 ELSE m - (b[j] - a[j])
                  ELSE a[j] - b[j] ]
        hi == [ j \in DOMAIN a |->
                  IF true(j)
                  THEN IF boost THEN m ELSE m - (b[j] - a[j])
                  ELSE IF b[j] = -N THEN m ELSE a[j] - b[j] ]
    IN /\ \A j \in DOMAIN a :
             /\ b[j] >= -N /\ b[j] <= N - 1
             /\ IF true(j)
                THEN IF boost THEN b[j] = Min2(a[j] + m, N - 1)
                     ELSE b[j] >= a[j] /\ b[j] - a[j] <= m
                ELSE b[j] <= a[j] /\ a[j] - b[j] <= m
       /\ SumOver(lo) <= m * SetMax(H)
       /\ SumOver(hi) >= m * SetMin(H)

\* Type II, clause matches: excluded false literals move towards inclusion.
PenaliseRel(a, b, m, neg, x) ==
    \A j \in DOMAIN a :
        b[j] = IF Lit(neg, x[j]) = 0 /\ a[j] < 0 THEN Min2(a[j] + m, 0) ELSE a[j]

WeightUp(u, m, maxw) == IF u < maxw - 1 THEN Min2(u + m, maxw - 1) ELSE u
WeightDown(u, m) == Max2(u - m, 0)

\* Both rows of a clause after m rounds of reinforcing feedback
TypeIRel(fam, fires, pa, na, pb, nb, N, H, m, boost, x) ==
    IF m = 0 THEN pa = pb /\ na = nb
    ELSE IF fires
    THEN /\ ReinforceRel(pa, pb, N, H, m, boost, 0, x)
         /\ ReinforceRel(na, nb, N, H, m, boost, 1, x)
    ELSE IF fam = "classic"
    THEN /\ ForgetDistinctRel(pa, pb, N, H, m)
         /\ ForgetDistinctRel(na, nb, N, H, m)
    ELSE /\ ForgetRel(pa, pb, N, H, m)
         /\ ForgetRel(na, nb, N, H, m)

TypeIIRel(fires, pa, na, pb, nb, m, x) ==
    IF m = 0 \/ ~fires THEN pa = pb /\ na = nb
    ELSE /\ PenaliseRel(pa, pb, m, 0, x)
         /\ PenaliseRel(na, nb, m, 1, x)

(************************* number of regressor hits ************************)
\* loss of err/T times `outputs`, as rationals <<num, den>>; C1 = ca/cb.
\* Where |err|/T is just C1 either branch of berHu may be taken (rounding).
LossTimes(loss, ca, cb, err, T, outputs) ==
    LET e == Abs(err)
        lin == <<outputs * e, T>>
        ber == <<outputs * (e * e * cb * cb - (ca * ca + ca * cb) * T * T), T * T * cb * cb>>
    IN CASE loss \in {"MAE", "L1"} -> {lin}
         [] loss \in {"MSE", "L2"} -> {<<outputs * e * e, T * T>>}
         [] loss = "berHu" ->
              IF e * cb < ca * T THEN {lin} ELSE IF e * cb > ca * T THEN {ber} ELSE {lin, ber}
         [] loss = "L1+2" ->
              {<<outputs * (ca * e * T + (cb - ca) * e * e), cb * T * T>>}

\* possible numbers of clause updates for the product q of clause count and loss
HitsOf(q, outputs, boxMuller, exact) ==
    LET num == q[1]
        den == q[2]
        r == (2 * num + den) % (2 * den)
        rounded == (2 * num + den) \div (2 * den)
        \* near a tie single precision may round either way, unless its numbers
        \* (divided by small powers of two) are exact
        cand == IF exact THEN {rounded}
                ELSE IF r * 1000 < 2 * den THEN {rounded - 1, rounded}
                ELSE IF (2 * den - r) * 1000 < 2 * den THEN {rounded, rounded + 1}
                ELSE {rounded}
    IN IF num <= 0 THEN {0}
       ELSE IF boxMuller
       THEN IF num >= den * outputs THEN {outputs} ELSE 0 .. outputs
       ELSE UNION { IF c <= 0 THEN {0, 1} ELSE {Min2(c, outputs)} : c \in cand }

\* for |err| and T that fit the products above
HitsNear(loss, ca, cb, e, T, outputs, boxMuller) ==
    LET exact == IsPow2(T) /\ IsPow2(cb) /\ T <= 64 /\ cb <= 4 /\ outputs <= 256
    IN UNION { HitsOf(q, outputs, boxMuller, exact) : q \in LossTimes(loss, ca, cb, e, T, outputs) }

\* Greater numbers: halve both while that is exact; what is still too great is
\* cut to ten bits and the loss, growing with the error, is enclosed (berHu is
\* not growing and is given multiples only).
HalvedBy(e, T) == SetMin({ i \in 0 .. 29 : /\ e % (2^i) = 0 /\ T % (2^i) = 0
                                        /\ \/ T \div (2^i) <= 64
                                           \/ e % (2 * 2^i) # 0 \/ T % (2 * 2^i) # 0 } )
CutBy(T) == SetMin({ i \in 0 .. 30 : T \div (2^i) <= 1000 })

\* (values bound over a singleton are computed once)
RegressorHits(loss, ca, cb, err, T, outputs, boxMuller) ==
    UNION { IF d = 0 THEN {0}
            ELSE IF T <= 1000 THEN HitsNear(loss, ca, cb, d, T, outputs, boxMuller)
            ELSE UNION { IF T \div p <= 1000 THEN HitsNear(loss, ca, cb, d \div p, T \div p, outputs, boxMuller)
                         ELSE IF loss = "berHu" THEN 0 .. outputs
                         ELSE UNION { SetMin(HitsNear(loss, ca, cb, d \div q, (T \div q) + 1, outputs, boxMuller))
                                      .. SetMax(HitsNear(loss, ca, cb, (d \div q) + 1, T \div q, outputs, boxMuller)) : q \in { p * 2^CutBy(T \div p) } }
                         : p \in { 2^HalvedBy(d, T) } }
            : d \in { Abs(err) } }
=============================================================================
