------------------------------ MODULE CallsGen ------------------------------
(***************************************************************************)
(* Enumerates the calls of C11 over abstract data: every entry point, on   *)
(* an untrained and a trained model, with every set of up to MaxDefects    *)
(* defects in the data. Every call is printed with the defects to put into *)
(* its data; bin/check.py makes concrete data and replays them. TLC checks *)
(* on small concrete data that Calls.tla refuses exactly the defective.    *)
(***************************************************************************)
EXTENDS Calls, Json

CONSTANTS Clf, Packed, MaxDefects, Depth

VARIABLES m, hist

Fns == IF Clf THEN {"fit", "pfit"} \cup Queries ELSE {"fit", "pfit", "predict", "predictN"}

\* defects that the caller can put into the data of a call
Possible(fn) ==
    LET one == fn \in {"predict", "dec"} IN
    (IF one THEN {} ELSE {"empty X", "ragged"})
    \cup (IF Packed THEN {"pad", "cappad"} ELSE {"value"})
    \cup (IF fn = "fit" THEN {} ELSE {"features"})
    \cup (IF fn \in {"fit", "pfit", "eval"} THEN {"empty y", "short y", "long y"} ELSE {})
    \cup (IF fn \in {"fit", "pfit"}
          THEN IF Clf THEN {"negative", "single"} \cup (IF fn = "pfit" THEN {"unknown"} ELSE {})
               ELSE {"below", "above"}
          ELSE {})

\* concrete data, three rows of three features, with defects d
Row(d, i) ==
    [ v |-> (IF "features" \in d THEN <<1, 0, 1, 0>> ELSE <<1, 0, 1>>) \o (IF "ragged" \in d /\ i = 2 THEN <<1>> ELSE <<>>) ]
      @@ (IF "pad" \in d /\ i = 3 THEN [ pad |-> 1 ] ELSE <<>>)
      @@ (IF "cappad" \in d /\ i = 1 THEN [ cap |-> 1, cappad |-> 1 ] ELSE <<>>)
Rows(fn, d) ==
    LET n == IF "empty X" \in d THEN 0 ELSE IF fn \in {"predict", "dec"} THEN 1 ELSE 3
        k == IF fn \in {"predict", "dec"} THEN {1} ELSE 1 .. n
    IN [ i \in 1 .. n |->
           LET r == IF fn \in {"predict", "dec"} THEN Row(d, 1) @@ Row(d, 3) ELSE Row(d, i)
           IN IF "value" \in d /\ i = 1 THEN [ r EXCEPT !.v[2] = 2 ] ELSE r ]
Targets(d) ==
    LET y == <<IF "single" \in d THEN 0 ELSE 1, 0, 0>>
        z == IF "negative" \in d \/ "below" \in d THEN [ y EXCEPT ![3] = -1 ]
             ELSE IF "unknown" \in d THEN [ y EXCEPT ![2] = 2 ]
             ELSE IF "above" \in d THEN [ y EXCEPT ![2] = 6 ] ELSE y
    IN IF "empty y" \in d THEN <<>>
       ELSE IF "short y" \in d THEN SubSeq(z, 1, 2)
       ELSE IF "long y" \in d THEN Append(z, 0) ELSE z

\* what of it is a defect in the situation
Real(mm, fn, d) ==
    LET first == fn = "fit" \/ (fn = "pfit" /\ ~mm.fit)
    IN { x \in d :
           /\ x = "single" => first /\ "unknown" \notin d
           /\ x = "features" => ~(fn \in {"fit", "pfit"} /\ first)
           /\ x = "unknown" => ~first }

ShouldRefuse(mm, fn, d) == (fn \in Queries /\ ~mm.fit) \/ Real(mm, fn, d) # {}

Init == m = New(Clf, Packed, 5) /\ hist = <<>>

Next ==
    /\ Len(hist) < Depth
    /\ \E fn \in Fns : \E d \in SUBSET Possible(fn) :
         /\ Cardinality(d) <= (IF Len(hist) + 1 = Depth THEN MaxDefects ELSE 1)
         \* before the last call, only what changes acceptance or is refused
         /\ (Len(hist) + 1 < Depth) => (fn \in {"fit", "pfit"} /\ d \in {{}, {"single"}, {"ragged"}})
         /\ ~({"short y", "long y"} \subseteq d)
         /\ m' = After(m, fn, Rows(fn, d), Targets(d), 0)
         /\ hist' = Append(hist, [ fn |-> fn, d |-> d, ok |-> ~ShouldRefuse(m, fn, d) ])

Spec == Init /\ [][Next]_<<m, hist>>

\* the verdict of Calls.tla is that of the defects put in
Agrees ==
    [][ LET h == hist'[Len(hist')] IN
        LET X == Rows(h.fn, h.d)
            y == Targets(h.d)
            want == Status(m, h.fn, X, y, 0)
            \* some defects hide others: no rows, no defects in rows
            hides == "empty X" \in h.d \/ "empty y" \in h.d
        IN /\ (want = "OK") <=> h.ok
           /\ (want = "NOT_FITTED") <=> (h.fn \in Queries /\ ~m.fit)
           /\ (~hides /\ want = "VALUE_ERROR") => Defects(m, h.fn, X, y, 0) # {}
           /\ want # "OK" => m' = m
           /\ h.fn \in Queries => m' = m
           /\ (want = "OK" /\ h.fn = "fit") => m'.fit ]_<<m, hist>>

Emitted == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
=============================================================================
