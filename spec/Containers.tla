----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* Bit vectors, bit matrices and numeric matrices as what they stand for:  *)
(* a named object with r rows of c independent cells. Cells are numbered   *)
(* from 1, row by row. Blocks, masks, padding and alignment do not appear  *)
(* here; Packed.tla shows that the packed form implements this.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* kinds of containers: family and bits per block (or item)
Kinds == [ bv8a64 |-> <<"bv", 8>>, bv16a64 |-> <<"bv", 16>>, bv32a64 |-> <<"bv", 32>>, bv64a64 |-> <<"bv", 64>>,
           bv8a8 |-> <<"bv", 8>>, bv16a16 |-> <<"bv", 16>>, bv32a32 |-> <<"bv", 32>>, bv64a8 |-> <<"bv", 64>>,
           bm8a64 |-> <<"bm", 8>>, bm16a64 |-> <<"bm", 16>>, bm32a64 |-> <<"bm", 32>>, bm64a64 |-> <<"bm", 64>>,
           bm8a8 |-> <<"bm", 8>>, bm16a16 |-> <<"bm", 16>>, bm32a32 |-> <<"bm", 32>>, bm64a8 |-> <<"bm", 64>>,
           nm8a64 |-> <<"nm", 8>>, nm16a64 |-> <<"nm", 16>>, nm32a64 |-> <<"nm", 32>>,
           nm8a8 |-> <<"nm", 8>>, nm16a16 |-> <<"nm", 16>>, nm32a32 |-> <<"nm", 32>> ]
Family(t) == Kinds[t][1]
BlockBits(t) == Kinds[t][2]

Obj(t, r, c, cells) == [ t |-> t, r |-> r, c |-> c, cells |-> cells ]
Zeros(n) == [ i \in 1 .. n |-> 0 ]

\* what writing does to one cell that holds `old`
Write(how, old, v) ==
    CASE how \in {"set", "rset", "vset"} -> 1
      [] how \in {"clear", "rclear", "vclear"} -> 0
      [] how \in {"flip", "rflip", "vflip"} -> 1 - old
      [] how \in {"assign", "put", "dput"} -> v
      [] how = "exor" -> (old + v) % 2

At(o, r, c) == r * o.c + c + 1
Put(o, how, r, c, v) == [ o EXCEPT !.cells[At(o, r, c)] = Write(how, @, v) ]

\* construction
MadeSize(t, r, c) == Obj(t, r, c, Zeros(r * c))
MadeRange(t, vals) == Obj(t, 1, Len(vals), [ i \in DOMAIN vals |-> IF vals[i] # 0 THEN 1 ELSE 0 ])
\* from given blocks; a length beyond them is cut to what they hold
MadeBlocks(t, c, blocks, ones) ==
    LET n == IF c > blocks * BlockBits(t) THEN blocks * BlockBits(t) ELSE c
    IN Obj(t, 1, n, [ i \in 1 .. n |-> IF i - 1 \in ones THEN 1 ELSE 0 ])

Equal(a, b) == a.r = b.r /\ a.c = b.c /\ a.cells = b.cells

DimsOK(o, d) ==
    /\ d.r = o.r /\ d.c = o.c
    /\ CASE Family(o.t) = "bv" ->
              /\ d.blocks = (o.c + BlockBits(o.t) - 1) \div BlockBits(o.t)
              /\ d.tail = (o.c % BlockBits(o.t))
              /\ d.cap >= d.blocks
         [] Family(o.t) = "bm" -> d.shape = 1 /\ d.rb * BlockBits(o.t) >= o.c
         [] OTHER -> d.shape = 1 /\ d.rb >= o.c
=============================================================================
