-------------------------------- MODULE Enum --------------------------------
(***************************************************************************)
(* Writes every clause (pair of rows) over small constants, with every     *)
(* sample, as JSON: the learned states from which the library is stepped   *)
(* so that each small transition of Machine.tla is replayed in the code.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, SequencesExt, IOUtils, FiniteSets

CONSTANTS Feat, NStates
VARIABLE done

Row == [ 1 .. Feat -> -NStates .. NStates - 1 ]
Clause == { <<p, n>> : p \in Row, n \in Row }
Sample == [ 1 .. Feat -> {0, 1} ]

ASSUME ndJsonSerialize(IOEnv.OUT, <<[ clauses |-> SetToSeq(Clause), samples |-> SetToSeq(Sample) ]>>)

Init == done = TRUE
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
