-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* The life of an estimator, seen from its public interface.               *)
(*                                                                         *)
(* What a model is at any moment is captured by a term: its semantic       *)
(* parameters and the training it owes its state to, in a normal form. Two *)
(* models with equal terms must be indistinguishable. The rewriting below  *)
(* - what leaves a term alone, what resets it, what merges - is the        *)
(* content of the properties:                                              *)
(*   queries, refused calls     leave the term alone            (C06, C11) *)
(*   fit                        resets it                             (C07) *)
(*   job count, tile, verbosity, counter width are no part of it      (C08) *)
(*   epochs on the same data add up, zero epochs vanish,                   *)
(*   partial fit of a new model is a fit                              (C09) *)
(*   saving and restoring, copying, moving carry it over         (C10, C19) *)
(*   its dimensions change by fit only                                (C18) *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Rules            \* {"compose", "perf"}: which identifications to make

MaxOf(a, b) == IF a > b THEN a ELSE b

Perf == {"n_jobs", "clause_output_tile_size", "verbose", "counting_type"}

Semantic(pk) ==
    IF "perf" \in Rules THEN [ k \in (DOMAIN pk) \ Perf |-> pk[k] ] ELSE pk

New(est, pk) ==
    [ est |-> est, cfg |-> Semantic(pk), fit |-> FALSE, F |-> 0, L |-> 0, tr |-> <<>> ]

\* a training record: data (with the selection made of it) and epochs
Rec(kind, d, ep, ml) == [ kind |-> kind, d |-> d, ep |-> ep, ml |-> ml ]

\* F: features of the data, top: highest label in it, ml: maximum given
AfterFit(t, d, ep, ml, F, top) ==
    [ t EXCEPT !.fit = TRUE, !.F = F, !.L = MaxOf(top + 1, ml),
               !.tr = IF "compose" \in Rules
                      THEN IF ep = 0 THEN <<>> ELSE <<Rec("train", d, ep, 0)>>
                      ELSE <<Rec("fit", d, ep, ml)>> ]

AfterPartial(t, d, ep, ml, F, top) ==
    IF "compose" \in Rules
    THEN IF ~t.fit THEN AfterFit(t, d, ep, ml, F, top)
         ELSE IF ep = 0 THEN t
         ELSE LET n == Len(t.tr)
              IN IF n > 0 /\ t.tr[n].d = d
                 THEN [ t EXCEPT !.tr[n].ep = @ + ep ]
                 ELSE [ t EXCEPT !.tr = Append(@, Rec("train", d, ep, 0)) ]
    ELSE IF ~t.fit
         THEN [ t EXCEPT !.fit = TRUE, !.F = F, !.L = MaxOf(top + 1, ml), !.tr = <<Rec("first", d, ep, ml)>> ]
         ELSE [ t EXCEPT !.tr = Append(@, Rec("more", d, ep, ml)) ]
=============================================================================
