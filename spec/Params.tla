------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Parameters of the estimators: names, types, legal values, defaults, and *)
(* what a created estimator reports.                                       *)
(*                                                                         *)
(* A given value is a record [k, n, d, t, f, u]: its kind in JSON or as an *)
(* argument; if numeric its value n/d; its text as an integer, as a single *)
(* precision number, and as an unsigned 32-bit number. n/d is clipped to   *)
(* 32 bits; d = 0 says that single precision cannot hold the value.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

IntKeys(clf) ==
    {"number_of_states", "threshold", "n_jobs", "clause_output_tile_size", "max_weight", "boost_true_positive_feedback"}
    \cup (IF clf THEN {"number_of_clauses_per_label"} ELSE {"number_of_regressor_clauses"})
RealKeys(clf) == {"s"} \cup (IF clf THEN {} ELSE {"loss_fn_C1"})
BoolKeys(clf) == {"weighted", "verbose"} \cup (IF clf THEN {} ELSE {"box_muller"})
StrKeys(clf) == {"counting_type"} \cup (IF clf THEN {} ELSE {"loss_fn"})
Keys(clf) == IntKeys(clf) \cup RealKeys(clf) \cup BoolKeys(clf) \cup StrKeys(clf) \cup {"random_state"}

\* set by training, not by the user
Internal == {"number_of_labels", "number_of_features"}

\* numbers are converted as C++ does: towards zero
Trunc(v) == IF v.n >= 0 THEN v.n \div v.d ELSE -((-v.n) \div v.d)

Numeric == {"int", "real"}

TypeOK(clf, key, v) ==
    CASE key \in IntKeys(clf) -> v.k \in Numeric
      [] key \in RealKeys(clf) -> v.k \in Numeric
      [] key \in BoolKeys(clf) -> v.k = "bool"
      [] key \in StrKeys(clf) -> v.k = "str"
      [] key = "random_state" -> v.k \in Numeric \cup {"null"}
      [] OTHER -> FALSE

LegalInt(key, i) ==
    CASE key = "number_of_clauses_per_label" -> i >= 1 /\ (i % 4) = 0
      [] key = "number_of_regressor_clauses" -> i >= 1 /\ (i % 2) = 0
      [] key \in {"number_of_states", "threshold", "max_weight"} -> i >= 1
      [] key = "n_jobs" -> i = -1 \/ i >= 1
      [] key = "clause_output_tile_size" -> i \in {16, 32, 64, 128}
      [] key = "boost_true_positive_feedback" -> i \in {0, 1}

LegalValue(clf, key, v) ==
    CASE key \in IntKeys(clf) -> LegalInt(key, Trunc(v))
      [] key = "s" -> v.d # 0 /\ v.n >= v.d
      [] key = "counting_type" -> v.t \in {"auto", "int8", "int16", "int32"}
      [] key = "loss_fn" -> v.t \in {"MSE", "L2", "MAE", "L1", "berHu", "L1+2"}
      [] OTHER -> TRUE

Known(clf, key) == key \in Keys(clf)

Acceptable(clf, given) ==
    \A key \in DOMAIN given :
        /\ Known(clf, key)
        /\ TypeOK(clf, key, given[key])
        /\ LegalValue(clf, key, given[key])

(******************************** reports **********************************)
Default(clf, key) ==
    CASE key = "number_of_clauses_per_label" -> <<"int", "12">>
      [] key = "number_of_regressor_clauses" -> <<"int", "20">>
      [] key = "number_of_states" -> <<"int", "100">>
      [] key = "s" -> <<"real", "2">>
      [] key = "threshold" -> <<"int", "15">>
      [] key = "weighted" -> <<"bool", IF clf THEN "false" ELSE "true">>
      [] key = "max_weight" -> <<"int", "2147483647">>
      [] key = "boost_true_positive_feedback" -> <<"int", "0">>
      [] key = "n_jobs" -> <<"int", "-1">>
      [] key = "verbose" -> <<"bool", "false">>
      [] key = "counting_type" -> <<"str", "auto">>
      [] key = "clause_output_tile_size" -> <<"int", "16">>
      [] key = "loss_fn" -> <<"str", "MSE">>
      [] key = "loss_fn_C1" -> <<"real", "0">>
      [] key = "box_muller" -> <<"bool", "false">>
      [] key = "random_state" -> <<"none", "">>

Given(clf, key, v) ==
    CASE key \in IntKeys(clf) -> <<"int", IF v.k = "int" THEN v.t ELSE ToString(Trunc(v))>>
      [] key \in RealKeys(clf) -> <<"real", v.f>>
      [] key \in BoolKeys(clf) -> <<"bool", v.t>>
      [] key \in StrKeys(clf) -> <<"str", v.t>>
      [] key = "random_state" -> IF v.k = "null" THEN <<"none", "">> ELSE <<"uint", v.u>>

Value(clf, key, given) ==
    IF key \in DOMAIN given THEN Given(clf, key, given[key]) ELSE Default(clf, key)

\* n_jobs of -1 stands for the processors of the machine (`hw`), an absent
\* random state for any
Reported(clf, key, given, hw, rep) ==
    LET w == Value(clf, key, given)
    IN CASE key = "n_jobs" /\ w = <<"int", "-1">> -> rep = <<"int", hw>>
         [] key = "random_state" /\ w[1] = "none" -> rep[1] = "uint"
         [] OTHER -> rep = w

ReportOK(clf, given, hw, rep) ==
    /\ Keys(clf) \subseteq DOMAIN rep
    /\ DOMAIN rep \subseteq Keys(clf) \cup Internal
    /\ \A key \in Keys(clf) : Reported(clf, key, given, hw, rep[key])
    /\ \A key \in Internal \cap DOMAIN rep : rep[key][1] = "none"
=============================================================================
