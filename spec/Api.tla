-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* Histories of calls on up to three estimators. TLC enumerates all        *)
(* histories over an alphabet up to a depth, checks what the properties    *)
(* say about terms, and prints every maximal history; bin/check.py replays *)
(* each of them on the library, ApiTrace.tla judges what happens.          *)
(***************************************************************************)
EXTENDS Life, Json, SequencesExt

CONSTANTS Alphabet,        \* names of the calls used
          Depth,           \* length of histories
          Epochs,          \* numbers of epochs
          Datasets,        \* 1..k
          FeaturesOf, TopOf,   \* per dataset
          MaxLabels,       \* values given as maximum number of labels
          Slots,
          Emit             \* print histories?

VARIABLES slot, hist       \* slot name -> term; calls so far

NoModel == [ est |-> "none" ]
Live(s) == slot[s] # NoModel

TheCfg == [ seed |-> "1" ]
Fresh == New("est", TheCfg)

Call(name, s, rest) == [ op |-> name, m |-> s ] @@ rest

Log(c) == hist' = Append(hist, c)

Make(s) ==
    /\ "make" \in Alphabet
    /\ ~Live(s)
    /\ slot' = [ slot EXCEPT ![s] = Fresh ]
    /\ Log(Call("make", s, <<>>))

Train(s, name, d, ep, ml) ==
    /\ name \in Alphabet
    /\ Live(s)
    /\ slot' = [ slot EXCEPT ![s] = IF name = "fit" THEN AfterFit(@, d, ep, ml, FeaturesOf[d], TopOf[d])
                                    ELSE AfterPartial(@, d, ep, ml, FeaturesOf[d], TopOf[d]) ]
    \* a partial fit with other dimensions is a refused call, see Refused
    /\ (name = "pfit" /\ slot[s].fit) => FeaturesOf[d] = slot[s].F /\ TopOf[d] < slot[s].L
    /\ Log(Call(name, s, [ d |-> d, ep |-> ep, ml |-> ml ]))

\* training a trained model on data of other dimensions: refused
PartialRefused(s, d, ep, ml) ==
    /\ "pfitbad" \in Alphabet
    /\ Live(s) /\ slot[s].fit
    /\ FeaturesOf[d] # slot[s].F \/ TopOf[d] >= slot[s].L
    /\ UNCHANGED slot
    /\ Log(Call("pfitbad", s, [ d |-> d, ep |-> ep, ml |-> ml ]))

\* changes nothing
Idle(s, name) ==
    /\ name \in Alphabet
    /\ Live(s)
    /\ UNCHANGED slot
    /\ Log(Call(name, s, <<>>))

\* s's model also in slot t (replacing nothing)
Copy(s, t, name) ==
    /\ name \in Alphabet
    /\ Live(s) /\ ~Live(t)
    /\ slot' = [ slot EXCEPT ![t] = slot[s] ]
    /\ Log(Call(name, s, [ to |-> t ]))

Move(s, t) ==
    /\ "move" \in Alphabet
    /\ Live(s) /\ ~Live(t)
    /\ slot' = [ slot EXCEPT ![t] = slot[s], ![s] = NoModel ]
    /\ Log(Call("move", s, [ to |-> t ]))

MoveAssign(s, t) ==
    /\ "massign" \in Alphabet
    /\ s # t /\ Live(s) /\ Live(t)
    /\ slot' = [ slot EXCEPT ![t] = slot[s], ![s] = NoModel ]
    /\ Log(Call("massign", s, [ to |-> t ]))

Destroy(s) ==
    /\ "destroy" \in Alphabet
    /\ Live(s)
    /\ slot' = [ slot EXCEPT ![s] = NoModel ]
    /\ Log(Call("destroy", s, <<>>))

IdleCalls == {"predict", "predictN", "dec", "decN", "eval", "params", "save", "copy",
              "badfit", "badpfit", "badquery", "badeval"}

Init == /\ slot = [ s \in Slots |-> IF s = "a" THEN Fresh ELSE NoModel ]
        /\ hist = <<>>

Next ==
    /\ Len(hist) < Depth
    /\ \E s \in Slots :
         \/ Make(s)
         \/ \E name \in {"fit", "pfit"}, d \in Datasets, ep \in Epochs, ml \in MaxLabels : Train(s, name, d, ep, ml)
         \/ \E d \in Datasets, ep \in Epochs, ml \in MaxLabels : PartialRefused(s, d, ep, ml)
         \/ \E name \in IdleCalls : Idle(s, name)
         \/ \E t \in Slots \ {s}, name \in {"clone", "clone2", "restore"} : Copy(s, t, name)
         \/ \E t \in Slots \ {s} : Move(s, t)
         \/ \E t \in Slots : MoveAssign(s, t)
         \/ Destroy(s)

Spec == Init /\ [][Next]_<<slot, hist>>

\* stop where another call could tell nothing new: queries at the end
Emitted == (Emit /\ Len(hist) = Depth /\ (hist[Depth].op \notin IdleCalls \/ Alphabet \subseteq IdleCalls)) => PrintT("HIST " \o ToJson(hist))

\* the same for random behaviours, with the terms they lead to
EmittedT == (Emit /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson(
    [ h |-> hist, t |-> [ i \in 1 .. Cardinality({ s \in Slots : Live(s) }) |->
                            LET s == SetToSeq({ u \in Slots : Live(u) })[i] IN [ s |-> s, fit |-> slot[s].fit, tr |-> slot[s].tr ] ] ]))

(***************************** the properties ******************************)
\* the term of slot `s` recomputed from the calls that concern it alone
RECURSIVE Follow(_, _)
Follow(h, s) ==
    IF h = <<>> THEN IF s = "a" THEN Fresh ELSE NoModel
    ELSE LET c == h[Len(h)]
             r == SubSeq(h, 1, Len(h) - 1)
         IN CASE c.op = "make" /\ c.m = s -> Fresh
              [] c.op = "fit" /\ c.m = s -> AfterFit(Follow(r, s), c.d, c.ep, c.ml, FeaturesOf[c.d], TopOf[c.d])
              [] c.op = "pfit" /\ c.m = s -> AfterPartial(Follow(r, s), c.d, c.ep, c.ml, FeaturesOf[c.d], TopOf[c.d])
              [] c.op \in {"clone", "clone2", "restore", "move", "massign"} /\ c.to = s -> Follow(r, c.m)
              [] c.op \in {"move", "massign", "destroy"} /\ c.m = s -> NoModel
              [] OTHER -> Follow(r, s)

\* C19: what happens elsewhere does not matter; C10: a restored model is its original
Independent == \A s \in Slots : slot[s] = Follow(hist, s)

\* C06: a history without its idle calls leads to the same terms
Unobtrusive ==
    LET h == SelectSeq(hist, LAMBDA c : c.op \notin IdleCalls \cup {"pfitbad"})
    IN \A s \in Slots : slot[s] = Follow(h, s)

\* C07: after a full fit nothing remains of the past
FromScratch ==
    hist # <<>> /\ hist[Len(hist)].op = "fit" =>
        LET c == hist[Len(hist)]
        IN slot[c.m] = AfterFit(Fresh, c.d, c.ep, c.ml, FeaturesOf[c.d], TopOf[c.d])

\* C09: training twice on the same data is training once for the sum
Composes ==
    "compose" \in Rules =>
      \A s \in Slots : Live(s) =>
        \A d \in Datasets : \A a, b \in Epochs :
          AfterPartial(AfterFit(Fresh, d, a, 0, FeaturesOf[d], TopOf[d]), d, b, 0, FeaturesOf[d], TopOf[d])
            = AfterFit(Fresh, d, a + b, 0, FeaturesOf[d], TopOf[d])

\* C18: only a fit (or the first partial fit) sets dimensions
DimensionsFixed ==
    [][ \A s \in Slots :
          (slot[s] # NoModel /\ slot'[s] # NoModel /\ slot[s].fit /\ slot'[s] # slot[s]
             /\ hist'[Len(hist')].op = "pfit")
            => slot'[s].F = slot[s].F /\ slot'[s].L = slot[s].L ]_<<slot, hist>>
=============================================================================
