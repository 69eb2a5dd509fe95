------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Models used from different threads, each by one thread at a time. A     *)
(* call is not atomic: it works out clause outputs into a working list,    *)
(* draws from a generator, and only then moves the counters or answers.    *)
(* TLC checks all interleavings of these steps: with working list and      *)
(* generator owned by each model, every model does what it does alone.     *)
(* `Mutant4` shares one of them among the models; then it does not.        *)
(***************************************************************************)
EXTENDS Rules

CONSTANTS Mutant4,        \* "none", "scratch", "generator"
          Users,          \* the threads; thread t uses model t
          Depth           \* calls per thread

VARIABLES pc,             \* thread -> "idle", "filled", "drawn"
          call,           \* thread -> the call under way
          row,            \* model -> automata of its one clause, positive and negative
          out,            \* owner -> working list: output of the clause
          gen,            \* owner -> position of the generator
          drew,           \* thread -> number drawn
          answer,         \* thread -> last answer
          n,              \* thread -> calls made
          alone           \* model -> what it would be, used alone

vars == <<pc, call, row, out, gen, drew, answer, n, alone>>

N == 2
Xs == { <<0>>, <<1>> }
Calls == { <<k, x>> : k \in {"reward", "oppose", "ask"}, x \in Xs }

OutOf(t) == IF Mutant4 = "scratch" THEN 0 ELSE t
GenOf(t) == IF Mutant4 = "generator" THEN 0 ELSE t

\* numbers of the generator: one bit, not periodic over short histories
Number(g) == (g * g + g \div 2) % 2

Output(r, x, training) ==
    IF ~AnyIncluded(r[1], r[2]) THEN IF training THEN 1 ELSE 0
    ELSE IF Fires(r[1], r[2], x) THEN 1 ELSE 0

Up(v) == IF v < N - 1 THEN v + 1 ELSE v
Down(v) == IF v > -N THEN v - 1 ELSE v

\* Type I with a tossed forgetting, Type II
Fed(r, k, x, fired, d) ==
    CASE k = "reward" /\ fired = 1 ->
            [ i \in 1 .. 2 |-> [ j \in 1 .. 1 |-> IF x[j] = (IF i = 1 THEN 1 ELSE 0) THEN Up(r[i][j]) ELSE IF d = 1 THEN Down(r[i][j]) ELSE r[i][j] ] ]
      [] k = "reward" /\ fired = 0 ->
            [ i \in 1 .. 2 |-> [ j \in 1 .. 1 |-> IF d = 1 THEN Down(r[i][j]) ELSE r[i][j] ] ]
      [] k = "oppose" /\ fired = 1 ->
            [ i \in 1 .. 2 |-> [ j \in 1 .. 1 |-> IF x[j] # (IF i = 1 THEN 1 ELSE 0) /\ r[i][j] < 0 THEN Up(r[i][j]) ELSE r[i][j] ] ]
      [] OTHER -> r

\* a call done at once, on a record [row, gen, answer]
AtOnce(m, c) ==
    LET o == Output(m.row, c[2], c[1] # "ask")
    IN IF c[1] = "ask" THEN [ m EXCEPT !.answer = o ]
       ELSE [ m EXCEPT !.row = Fed(m.row, c[1], c[2], o, Number(m.gen)), !.gen = @ + 1 ]

Owners == {0} \cup Users
Start == <<<<-1>>, <<0>>>>

Init ==
    /\ pc = [ t \in Users |-> "idle" ]
    /\ call = [ t \in Users |-> <<>> ]
    /\ row = [ t \in Users |-> Start ]
    /\ out = [ o \in Owners |-> 0 ]
    /\ gen = [ o \in Owners |-> 0 ]
    /\ drew = [ t \in Users |-> 0 ]
    /\ answer = [ t \in Users |-> 0 ]
    /\ n = [ t \in Users |-> 0 ]
    /\ alone = [ t \in Users |-> [ row |-> Start, gen |-> 0, answer |-> 0 ] ]

Enter(t) ==
    /\ pc[t] = "idle" /\ n[t] < Depth
    /\ \E c \in Calls :
         /\ call' = [ call EXCEPT ![t] = c ]
         /\ out' = [ out EXCEPT ![OutOf(t)] = Output(row[t], c[2], c[1] # "ask") ]
         /\ alone' = [ alone EXCEPT ![t] = AtOnce(@, c) ]
    /\ pc' = [ pc EXCEPT ![t] = "filled" ]
    /\ n' = [ n EXCEPT ![t] = @ + 1 ]
    /\ UNCHANGED <<row, gen, drew, answer>>

Draw(t) ==
    /\ pc[t] = "filled" /\ call[t][1] # "ask"
    /\ drew' = [ drew EXCEPT ![t] = Number(gen[GenOf(t)]) ]
    /\ gen' = [ gen EXCEPT ![GenOf(t)] = @ + 1 ]
    /\ pc' = [ pc EXCEPT ![t] = "drawn" ]
    /\ UNCHANGED <<call, row, out, answer, n, alone>>

Feed(t) ==
    /\ pc[t] = "drawn"
    /\ row' = [ row EXCEPT ![t] = Fed(@, call[t][1], call[t][2], out[OutOf(t)], drew[t]) ]
    /\ pc' = [ pc EXCEPT ![t] = "idle" ]
    /\ UNCHANGED <<call, out, gen, drew, answer, n, alone>>

Reply(t) ==
    /\ pc[t] = "filled" /\ call[t][1] = "ask"
    /\ answer' = [ answer EXCEPT ![t] = out[OutOf(t)] ]
    /\ pc' = [ pc EXCEPT ![t] = "idle" ]
    /\ UNCHANGED <<call, row, out, gen, drew, n, alone>>

Next == \E t \in Users : Enter(t) \/ Draw(t) \/ Feed(t) \/ Reply(t)
Spec == Init /\ [][Next]_vars

\* between calls every model is what it is without the others
NoInterference ==
    \A t \in Users : pc[t] = "idle" => row[t] = alone[t].row /\ answer[t] = alone[t].answer
=============================================================================
