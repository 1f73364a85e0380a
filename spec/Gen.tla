-------------------------------- MODULE Gen --------------------------------
(* Behaviours for the real code, generated from PacketImpl.                 *)
(* COVER mode (BFS): one behaviour per transition of the quotient by GView, *)
(* i.e. every action from every (pending count, some packets absorbed yet?) *)
(* state.  WALK mode (simulation): random behaviours of DEPTH operations.   *)
EXTENDS PacketImpl
CONSTANTS DEPTH, Walk, OneObject
VARIABLE hist

GInit == Init /\ hist = <<>>
Rec(a) == hist' = Append(hist, a)

GStep ==
  \/ On("N") /\ \E s \in Slots, k \in Keys : New(s, k) /\ Rec(<<"N", s, k>>)
  \/ On("d") /\ \E s \in Slots : Default(s) /\ Rec(<<"d", s>>)
  \/ On("X") /\ \E s \in Slots, n \in RawCounts : RawRestore(s, n) /\ Rec(<<"X", s, n>>)
  \/ On("A") /\ \E s \in Slots, n \in Lens : DoAppend(s, n) /\ Rec(<<"A", s, n>>)
  \/ On("F") /\ \E s \in Slots : Finish(s) /\ Rec(<<"F", s>>)
  \/ On("G") /\ \E s \in Slots : Live(s) /\ UNCHANGED vars /\ Rec(<<"G", s>>)
  \/ On("Z") /\ \E s \in Slots, w \in Widths : Finalize(s, w) /\ Rec(<<"Z", s, w>>)
  \/ On("C") /\ \E s, t \in Slots : CloneTo(s, t) /\ Rec(<<"C", s, t>>)
  \/ On("K") /\ \E s \in Slots, c \in CkSlots : Checkpoint(s, c) /\ Rec(<<"K", s, c>>)
  \/ On("R") /\ \E s \in Slots, c \in CkSlots : Restore(s, c) /\ Rec(<<"R", s, c>>)
  \/ On("H") /\ \E s \in Slots, c \in CkSlots :   \* checkpoint and restore in place
        /\ Live(s)
        /\ ck' = [ck EXCEPT ![c] = CkptOf(obj[s])]
        /\ obj' = [obj EXCEPT ![s] = FromCk(ck'[c])]
        /\ UNCHANGED <<obs, pan, scr>>
        /\ Rec(<<"H", s, c>>)
  \/ On("D") /\ \E s \in Slots : Drop(s) /\ Rec(<<"D", s>>)
  \/ On("V") /\ \E s \in Slots : Diverge(s) /\ Rec(<<"V", s>>)

Emit(h) == PrintT("BEH " \o ToString(h))
Stop == Len(hist) = DEPTH /\ Emit(hist) /\ UNCHANGED vars /\ hist' = Append(hist, <<"end">>)
GNext == IF Walk
         THEN IF Len(hist) < DEPTH THEN GStep ELSE Stop
         ELSE /\ Len(hist) < DEPTH
              /\ GStep
              /\ Emit(hist')

(* walks need no bytes: what is enabled does not depend on them *)
NoBytes(p, from, n) == IF p = 50 THEN [i \in 1..n |-> 0] ELSE <<>>

Cap(n) == IF n > 2 THEN 2 ELSE n
(* the quotient the transition cover is taken over *)
GView == << [s \in Slots |-> IF Live(s) THEN <<obj[s].root[1], obj[s].idx, Cap(Len(obj[s].acc))>> ELSE <<>>],
            [c \in CkSlots |-> ck[c].root[1] # "none"] >>
=============================================================================
