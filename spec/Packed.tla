------------------------------- MODULE Packed -------------------------------
(***************************************************************************)
(* Packed storage of cells: blocks of W bits, rows padded to a multiple of *)
(* A blocks. Writing masks one bit of one block. Refines the flat array of *)
(* Containers.tla: for every reachable storage, every cell reads as in the *)
(* array and every other bit is zero, so equality of storage is equality   *)
(* of cells.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

CONSTANTS W, A, Rows, Cols

VARIABLES store, flat

RowBlocks == ((Cols + A * W - 1) \div (A * W)) * A
Pow2(k) == 2 ^ k

Init == store = [ b \in 1 .. Rows * RowBlocks |-> 0 ] /\ flat = [ p \in (0 .. Rows - 1) \X (0 .. Cols - 1) |-> 0 ]

Block(r, c) == r * RowBlocks + (c \div W) + 1
Mask(c) == Pow2(c % W)
Full == Pow2(W) - 1

Set(r, c) == store' = [ store EXCEPT ![Block(r, c)] = @ | Mask(c) ] /\ flat' = [ flat EXCEPT ![<<r, c>>] = 1 ]
Clear(r, c) == store' = [ store EXCEPT ![Block(r, c)] = @ & (Full - Mask(c)) ] /\ flat' = [ flat EXCEPT ![<<r, c>>] = 0 ]
Flip(r, c) == store' = [ store EXCEPT ![Block(r, c)] = @ ^^ Mask(c) ] /\ flat' = [ flat EXCEPT ![<<r, c>>] = 1 - @ ]
Exor(r, c, v) == store' = [ store EXCEPT ![Block(r, c)] = @ ^^ (v * Mask(c)) ] /\ flat' = [ flat EXCEPT ![<<r, c>>] = (@ + v) % 2 ]

Next == \E r \in 0 .. Rows - 1 : \E c \in 0 .. Cols - 1 :
            Set(r, c) \/ Clear(r, c) \/ Flip(r, c) \/ \E v \in {0, 1} : Exor(r, c, v)

Spec == Init /\ [][Next]_<<store, flat>>

Bit(b, i) == (store[b] \div Pow2(i)) % 2
Read(r, c) == IF (store[Block(r, c)] & Mask(c)) # 0 THEN 1 ELSE 0

Refines == \A r \in 0 .. Rows - 1 : \A c \in 0 .. Cols - 1 : Read(r, c) = flat[<<r, c>>]
NoStray ==
    \A r \in 0 .. Rows - 1 : \A k \in 0 .. RowBlocks * W - 1 :
        k >= Cols => Bit(r * RowBlocks + (k \div W) + 1, k % W) = 0
\* the flat array is a plain array: an action changes one cell at most
OneCell == [][ Cardinality({ p \in DOMAIN flat : flat'[p] # flat[p] }) <= 1 ]_<<store, flat>>
=============================================================================
