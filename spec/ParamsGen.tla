----------------------------- MODULE ParamsGen -----------------------------
(***************************************************************************)
(* Enumerates assignments of up to MaxGiven parameters over boundary and   *)
(* interior values and values of wrong type, and prints each with the      *)
(* verdict; bin/check.py creates estimators from them.                     *)
(***************************************************************************)
EXTENDS Params, Json

CONSTANTS Clf, MaxGiven

VARIABLE given

I(n) == [ k |-> "int", n |-> n, d |-> 1, t |-> ToString(n), f |-> ToString(n), u |-> ToString(n) ]
\* text as JSON, numerator, denominator, text as single precision
R(j, n, d, f) == [ k |-> "real", n |-> n, d |-> d, t |-> j, f |-> f, u |-> IF d = 0 THEN "" ELSE ToString(n \div d) ]
S(t) == [ k |-> "str", n |-> 0, d |-> 1, t |-> t, f |-> t, u |-> t ]
B(t) == [ k |-> "bool", n |-> 0, d |-> 1, t |-> t, f |-> t, u |-> t ]
J(k, t) == [ k |-> k, n |-> 0, d |-> 1, t |-> t, f |-> t, u |-> t ]

MaxInt == 2147483647

Odd == {J("null", "null"), J("list", "[]"), J("list", "[12]"), J("obj", "{}")}
NotNumber == Odd \cup {S("12"), S("")}
NotBool == Odd \cup {I(1), I(0), S("true"), S("False"), R("1.0", 1, 1, "1")}
NotStr == Odd \cup {I(8), B("true"), R("0.5", 1, 2, "0.5")}

IntValues(key) ==
    CASE key = "number_of_clauses_per_label" ->
             { I(i) : i \in {4, 8, 12, 16, 400, 0, 1, 2, 3, 6, 10, 13, -1, -4, -8} } \cup {R("8.9", 89, 10, ""), R("4.0", 4, 1, ""), R("7.99", 799, 100, "")}
      [] key = "number_of_regressor_clauses" ->
             { I(i) : i \in {2, 4, 6, 20, 22, 1000, 0, 1, 3, 7, 21, -1, -2, -4} } \cup {R("2.5", 5, 2, ""), R("1.99", 199, 100, "")}
      [] key = "number_of_states" -> { I(i) : i \in {1, 2, 100, 127, 128, 32767, 32768, MaxInt, 0, -1, -100} } \cup {R("0.9", 9, 10, ""), R("1.1", 11, 10, "")}
      [] key = "threshold" -> { I(i) : i \in {1, 2, 15, 10000, MaxInt, 0, -1, -MaxInt} } \cup {R("0.5", 1, 2, ""), R("15.7", 157, 10, "")}
      [] key = "max_weight" -> { I(i) : i \in {1, 2, 7, MaxInt - 1, MaxInt, 0, -1, -7} } \cup {R("0.99", 99, 100, ""), R("3.5", 7, 2, "")}
      [] key = "n_jobs" -> { I(i) : i \in {-1, 1, 2, 3, 8, 100, 0, -2, -100} } \cup {R("2.5", 5, 2, ""), R("-0.5", -1, 2, "")}
      [] key = "clause_output_tile_size" -> { I(i) : i \in {16, 32, 64, 128, 0, 1, 8, 15, 17, 24, 48, 96, 127, 256, -16} } \cup {R("16.5", 33, 2, "")}
      [] key = "boost_true_positive_feedback" -> { I(i) : i \in {0, 1, 2, -1, 10} } \cup {R("1.9", 19, 10, ""), R("2.1", 21, 10, "")}

Values(key) ==
    CASE key \in IntKeys(Clf) -> IntValues(key) \cup NotNumber
      [] key = "s" ->
             { I(i) : i \in {1, 2, 100, 0, -1} }
             \cup {R("1.0", 1, 1, "1"), R("1.5", 3, 2, "1.5"), R("2.25", 9, 4, "2.25"), R("3.9", 39, 10, "3.9000001"), R("1000000.5", 2000001, 2, "1000000.5"),
                   R("1e10", MaxInt, 1, "1e+10"), R("1e30", MaxInt, 1, "1.00000002e+30"), R("0.999", 999, 1000, "0.999000013"),
                   R("0.5", 1, 2, "0.5"), R("0.0", 0, 1, "0"), R("-1.5", -3, 2, "-1.5"), R("-1e30", -MaxInt, 1, "-1.00000002e+30"), R("1e39", 1, 0, "inf"), R("1e300", 1, 0, "inf")}
             \cup NotNumber
      [] key = "loss_fn_C1" ->
             { I(0), I(1), I(2), R("0.25", 1, 4, "0.25"), R("0.5", 1, 2, "0.5"), R("0.1", 1, 10, "0.100000001"), R("1.0", 1, 1, "1") } \cup NotNumber
      [] key \in BoolKeys(Clf) -> {B("true"), B("false")} \cup NotBool
      [] key = "counting_type" -> { S(t) : t \in {"auto", "int8", "int16", "int32", "int64", "", "INT8", "int", "int8 ", "uint8", "Auto"} } \cup NotStr
      [] key = "loss_fn" -> { S(t) : t \in {"MSE", "L2", "MAE", "L1", "berHu", "L1+2", "mse", "", "L3", "L1+", "berhu", "RMSE", "L1+2 "} } \cup NotStr
      [] key = "random_state" ->
             { I(i) : i \in {0, 1, 42, MaxInt} }
             \cup { [ I(0) EXCEPT !.n = MaxInt, !.t = "4294967295", !.f = "", !.u = "4294967295" ],
                    [ I(0) EXCEPT !.n = MaxInt, !.t = "2147483648", !.f = "", !.u = "2147483648" ],
                    [ I(-1) EXCEPT !.u = "4294967295" ], [ I(-5) EXCEPT !.u = "4294967291" ], R("3.7", 37, 10, "") }
             \cup (NotNumber \ {J("null", "null")}) \cup {J("null", "null")}
      [] OTHER -> {I(1), S("x"), J("null", "null"), B("true")}

Strange == {"", "S", "threshold ", "number_of_clauses", "Threshold", "n_job", "seed", "number_of_labels", "number_of_features", "boost"}

Init == given = [ k \in {} |-> 0 ]

Next ==
    /\ Cardinality(DOMAIN given) < MaxGiven
    /\ \E key \in Keys(Clf) \cup Strange :
         /\ key \notin DOMAIN given
         /\ \E v \in Values(key) : given' = (key :> v) @@ given

Spec == Init /\ [][Next]_given

Emitted == PrintT("CASE " \o ToJson([ g |-> given, ok |-> Acceptable(Clf, given) ]))

(* the laws of acceptance *)
\* a set is acceptable iff each of its members is
PerKey ==
    Acceptable(Clf, given) <=> \A k \in DOMAIN given : Acceptable(Clf, k :> given[k])
\* defaults are acceptable values themselves
DefaultsLegal ==
    \A key \in Keys(Clf) \ {"random_state"} :
      \E v \in Values(key) : Acceptable(Clf, key :> v) /\ Given(Clf, key, v) = Default(Clf, key)
StrangeRefused == \A k \in DOMAIN given : k \in Strange => ~Acceptable(Clf, given)
=============================================================================
