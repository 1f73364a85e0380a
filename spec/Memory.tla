------------------------------- MODULE Memory -------------------------------
(* Which memory an operation touches (C09).  An append of n bytes that lie  *)
(* at address base (mod 32), by an object with `fill` pending bytes:        *)
(*   head   - the bytes that complete the pending packet are copied         *)
(*   blocks - whole packets are loaded straight from the caller's slice     *)
(*   tail   - what is left is copied to the object's packet buffer          *)
(* A finalisation reads the pending bytes from the object's buffer, in the  *)
(* way of its backend (bytes, 4-byte masked lanes, 8 + 4 bytes).            *)
(* Accesses are <<region, offset, size, alignment demanded>>; the caller's  *)
(* slice is at any address, the object's buffer at an aligned one.          *)
(* InBounds: inside the slice or inside the buffer.  Aligned: no access     *)
(* demands more than the address gives.  LiveOnly: what reaches the result  *)
(* are pending bytes, never stale or neighbouring ones.                     *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS MaxLen,        \* longest append
          Bases,         \* addresses mod 32 of the slices
          Backends,      \* subset of {"bytes", "lanes"}: how a remainder is read
          TailBlock,     \* negative: the tail is loaded as a whole packet
          TailBack16,    \* negative: the last 16 bytes before the end are loaded
          AlignedBlocks, \* negative: blocks demand 16-byte alignment
          UnmaskedLoad   \* negative: the remainder uses whole 16-byte lanes unmasked

P == 32
VARIABLES fill, base, acc, live, n
vars == <<fill, base, acc, live, n>>

Acc(r, o, s, a) == <<r, o, s, a>>
Min(a, b) == IF a < b THEN a ELSE b

Init == /\ fill = 0 /\ base = 0 /\ n = 0
        /\ acc = {} /\ live = {}

BlockAlign == IF AlignedBlocks THEN 16 ELSE 1
Blocks(from, to) == {Acc("slice", i, P, BlockAlign) : i \in {x \in from..to : (x - from) % P = 0 /\ x + P <= to}}
Left(from, to) ==
  LET left == to - from IN
  IF left = 0 THEN {}
  ELSE (IF TailBlock THEN {Acc("slice", from, P, 1)}
        ELSE IF TailBack16 THEN {Acc("slice", to - 16, 16, 1)}
        ELSE {Acc("slice", from, left, 1)})
       \cup {Acc("buf", 0, left, 1)}

Appending(len, b) ==
  /\ n' = len /\ base' = b
  /\ live' = {}
  /\ LET head == Min(IF fill = 0 THEN 0 ELSE P - fill, len)
         full == fill > 0 /\ fill + head = P
         from == head
         rest == len - head
         kept == IF fill > 0 /\ ~full THEN fill + len ELSE rest % P
     IN /\ fill' = kept
        /\ acc' = (IF head > 0 THEN {Acc("slice", 0, head, 1), Acc("buf", fill, head, 1)} ELSE {})
                  \cup (IF full THEN {Acc("buf", 0, P, 16)} ELSE {})
                  \cup (IF fill > 0 /\ ~full THEN {} ELSE
                          Blocks(from, len) \cup Left(len - (rest % P), len))

(* the last one to three bytes, in any order *)
Last3(f) == LET k == f % 4 IN IF k = 0 THEN {} ELSE {f - k, f - k + k \div 2, f - 1}
Quads(f, from) == {i \in {from + 4 * j : j \in 0..3} : i + 4 <= f}
(* accesses and the bytes that reach the state *)
Reading(be, f) ==
  IF be = "bytes" THEN [a |-> {Acc("buf", i, 1, 1) : i \in 0..(f - 1)}, l |-> 0..(f - 1)]
  ELSE IF f >= 16 THEN
       LET lo == {Acc("buf", 0, 16, 16)}
           hi == IF UnmaskedLoad THEN {Acc("buf", 16, 16, 16)} ELSE {Acc("buf", i, 4, 4) : i \in Quads(f, 16)}
           last == {Acc("buf", f - 4, 4, 1)}
       IN [a |-> lo \cup hi \cup last,
           l |-> 0..15 \cup UNION {i..(i + 3) : i \in Quads(f, 16)} \cup (f - 4)..(f - 1) \cup (IF UnmaskedLoad THEN 16..31 ELSE {})]
  ELSE [a |-> (IF UnmaskedLoad THEN {Acc("buf", 0, 16, 16)} ELSE {Acc("buf", i, 4, 4) : i \in Quads(f, 0)}) \cup {Acc("buf", i, 1, 1) : i \in Last3(f)},
        l |-> UNION {i..(i + 3) : i \in Quads(f, 0)} \cup Last3(f) \cup (IF UnmaskedLoad THEN 0..15 ELSE {})]

Finalising ==
  /\ fill > 0
  /\ \E backend \in Backends:
       LET r == Reading(backend, fill) IN acc' = r.a /\ live' = r.l
  /\ UNCHANGED <<fill, base, n>>

Next == \/ \E len \in 0..MaxLen, b \in Bases: Appending(len, b)
        \/ Finalising
Spec == Init /\ [][Next]_vars

TypeOK == fill \in 0..(P - 1) /\ base \in 0..(P - 1) /\ n \in 0..MaxLen
InBounds == \A a \in acc: a[2] >= 0 /\ a[2] + a[3] <= (IF a[1] = "slice" THEN n ELSE P)
Aligned == \A a \in acc: (IF a[1] = "slice" THEN base + a[2] ELSE a[2]) % a[4] = 0
LiveOnly == \A i \in live: i < fill
(* everything the hash depends on is read: all pending bytes *)
AllRead == live # {} => live = 0..fill - 1
=============================================================================
