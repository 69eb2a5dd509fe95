---------------------------- MODULE ContainersGen ---------------------------
(***************************************************************************)
(* Enumerates histories over up to three objects of one kind: making,      *)
(* writing, copying, moving, assigning, comparing and dropping them. Cells *)
(* are abstract (first, last); bin/check.py picks sizes, kinds, positions. *)
(* TLC checks the laws of independence on the way.                         *)
(***************************************************************************)
EXTENDS Containers, Json

CONSTANTS Depth, Vector

VARIABLES C, hist

Names == {"a", "b", "c"}
Live == DOMAIN C
Next0 == CHOOSE n \in Names \ Live : \A m \in Names \ Live : n = m \/ (n = "a") \/ (n = "b" /\ m # "a")

Do(h, D) == C' = D /\ hist' = Append(hist, h)
Without(f, k) == [ s \in DOMAIN f \ {k} |-> f[s] ]
T == IF Vector THEN "bv8a8" ELSE "bm8a8"

Init == C = ("a" :> MadeSize(T, 1, 2)) /\ hist = << [ k |-> "make", a |-> "a", b |-> "", sz |-> 1, p |-> 0 ] >>

Ev(k, a, b, sz, p) == [ k |-> k, a |-> a, b |-> b, sz |-> sz, p |-> p ]

Next ==
    /\ Len(hist) < Depth
    /\ \/ /\ Names \ Live # {}
          /\ \E sz \in {1, 2} : Do(Ev("make", Next0, "", sz, 0), (Next0 :> MadeSize(T, 1, 1 + sz)) @@ C)
       \/ \E a \in Live : \E p \in {0, 1} : Do(Ev("write", a, "", 0, p), [ C EXCEPT ![a] = Put(@, "flip", 0, p, 0) ])
       \/ /\ Names \ Live # {}
          /\ \E b \in Live : \E k \in {"copy", "reuse", "move"} :
               Do(Ev(k, Next0, b, 0, 0), (Next0 :> C[b]) @@ (IF k = "move" THEN Without(C, b) ELSE C))
       \/ \E a, b \in Live : \E k \in {"assign", "massign"} :
               /\ a # b \/ k = "assign"
               /\ Do(Ev(k, a, b, 0, 0), (a :> C[b]) @@ (IF k = "massign" THEN Without(C, b) ELSE C))
       \/ \E a, b \in Live : ~Vector /\ Do(Ev("eq", a, b, 0, 0), C)

Spec == Init /\ [][Next]_<<C, hist>>

\* no operation touches the cells of an object it is not about
Independent ==
    [][ LET h == hist'[Len(hist')] IN
        /\ \A s \in DOMAIN C \cap DOMAIN C' : s # h.a => C'[s] = C[s]
        /\ (h.k \in {"copy", "assign", "reuse", "move", "massign"}) => C'[h.a] = C[h.b]
        /\ (h.k = "write") => \A i \in DOMAIN C[h.a].cells : (i # h.p + 1) => C'[h.a].cells[i] = C[h.a].cells[i] ]_<<C, hist>>

Emitted == (Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))
=============================================================================
