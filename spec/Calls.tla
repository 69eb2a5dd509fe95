------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Which calls of an estimator are well-formed, and what every call must   *)
(* return and leave behind. A model is, for this purpose, what it accepts: *)
(* whether it is trained, its row length, number of labels and threshold.  *)
(*                                                                         *)
(* A row of data is a sequence of values or, for bit-packed samples, a     *)
(* record [v, pad, cap, cappad]: pad tells of stray bits behind the last   *)
(* feature, cap of spare blocks, cappad of stray bits in those.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* the model, as far as acceptance goes
New(clf, packed, T) == [ clf |-> clf, packed |-> packed, T |-> T, fit |-> FALSE, F |-> 0, L |-> 0 ]

(********************************** data ***********************************)
Field(r, k, dflt) == IF k \in DOMAIN r THEN r[k] ELSE dflt

Values(r) == r.v
Stray(r) ==
    \/ Field(r, "pad", 0) = 1 /\ Len(r.v) % 64 # 0
    \/ Field(r, "cappad", 0) = 1 /\ Field(r, "cap", 0) > 0

BitsOnly(r) == \A j \in DOMAIN r.v : r.v[j] \in {0, 1}

Uniform(X) == \A i \in DOMAIN X : Len(X[i].v) = Len(X[1].v)

GoodRows(m, X) ==
    \* a bit-packed row cannot hold anything but bits
    \A i \in DOMAIN X : (m.packed \/ BitsOnly(X[i])) /\ (m.packed => ~Stray(X[i]))

Top(y) == CHOOSE t \in ToSet(y) : \A u \in ToSet(y) : u <= t
Nonnegative(y) == \A i \in DOMAIN y : y[i] >= 0
Larger(a, b) == IF a > b THEN a ELSE b

(********************************* verdicts ********************************)
\* the defects of a training call, by name
TrainDefects(m, partial, X, y, ml) ==
    LET onTrained == partial /\ m.fit IN
    (IF X = <<>> THEN {"empty X"} ELSE {})
    \cup (IF y = <<>> THEN {"empty y"} ELSE {})
    \cup (IF Len(X) # Len(y) THEN {"lengths"} ELSE {})
    \cup (IF X # <<>> /\ ~Uniform(X) THEN {"ragged"} ELSE {})
    \cup (IF ~GoodRows(m, X) THEN {"values"} ELSE {})
    \cup (IF onTrained /\ X # <<>> /\ Len(X[1].v) # m.F THEN {"features"} ELSE {})
    \cup (IF y = <<>> THEN {}
          ELSE IF m.clf
          THEN (IF ~Nonnegative(y) THEN {"negative label"} ELSE {})
               \cup (IF onTrained /\ Top(y) >= m.L THEN {"unknown label"} ELSE {})
               \cup (IF ~onTrained /\ Larger(Top(y) + 1, ml) < 2 THEN {"single label"} ELSE {})
          ELSE IF \E i \in DOMAIN y : y[i] < 0 \/ y[i] > m.T THEN {"response"} ELSE {})

\* of a query; single samples are given as X of one row
QueryDefects(m, fn, X, y) ==
    (IF X = <<>> THEN {"empty X"} ELSE {})
    \cup (IF X # <<>> /\ ~Uniform(X) THEN {"ragged"} ELSE {})
    \cup (IF \E i \in DOMAIN X : Len(X[i].v) # m.F THEN {"features"} ELSE {})
    \cup (IF ~GoodRows(m, X) THEN {"values"} ELSE {})
    \cup (IF fn = "eval" /\ m.clf /\ Len(X) # Len(y) THEN {"lengths"} ELSE {})

Queries == {"predict", "predictN", "dec", "decN", "eval"}

Defects(m, fn, X, y, ml) ==
    IF fn \in {"fit", "pfit"} THEN TrainDefects(m, fn = "pfit", X, y, ml)
    ELSE IF ~m.fit THEN {"untrained"}
    ELSE QueryDefects(m, fn, X, y)

Status(m, fn, X, y, ml) ==
    IF fn \in Queries /\ ~m.fit THEN "NOT_FITTED"
    ELSE IF Defects(m, fn, X, y, ml) = {} THEN "OK" ELSE "VALUE_ERROR"

After(m, fn, X, y, ml) ==
    IF fn \in Queries \/ Defects(m, fn, X, y, ml) # {} THEN m
    ELSE IF fn = "fit" \/ ~m.fit
    THEN [ m EXCEPT !.fit = TRUE, !.F = Len(X[1].v), !.L = IF m.clf THEN Larger(Top(y) + 1, ml) ELSE 0 ]
    ELSE m
=============================================================================
