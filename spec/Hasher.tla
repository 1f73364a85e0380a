------------------------------- MODULE Hasher -------------------------------
(* The hasher API as its users understand it: an object is a root (a key,   *)
(* or a raw checkpoint) and the stream of bytes it has consumed, nothing    *)
(* else.  Results are an uninterpreted function of (root, stream, width).   *)
EXTENDS Integers, Sequences

CONSTANTS Slots, CkSlots
VARIABLES obj,  \* slot -> <<>> or <<root, stream>>
          ck,   \* slot -> <<>> or <<root, stream>>
          obs   \* <<>> or <<kind, root, stream, width>>
vars == <<obj, ck, obs>>

Init == /\ obj = [s \in Slots |-> <<>>]
        /\ ck = [c \in CkSlots |-> <<>>]
        /\ obs = <<>>

Live(s) == obj[s] # <<>>

(* The actions are written with the parameters existentially free, so that  *)
(* any bounded implementation model can be checked to refine them.          *)
Create == \E s \in Slots : obj[s] = <<>> /\ obj'[s] # <<>>
             /\ obj' = [obj EXCEPT ![s] = obj'[s]]
             /\ (obj'[s][1][1] = "k" => obj'[s][2] = <<>>)
             /\ obj'[s][1][1] \in {"k", "r"}
             /\ obs' = <<>> /\ UNCHANGED ck
Extend == \E s \in Slots : Live(s)
             /\ obj'[s] # <<>> /\ obj'[s][1] = obj[s][1]
             /\ Len(obj'[s][2]) >= Len(obj[s][2])
             /\ SubSeq(obj'[s][2], 1, Len(obj[s][2])) = obj[s][2]
             /\ obj' = [obj EXCEPT ![s] = obj'[s]]
             /\ obs' = <<>> /\ UNCHANGED ck
Result(s, w) == <<"hash", obj[s][1], obj[s][2], w>>
Observe == \E s \in Slots : Live(s) /\ obs' = Result(s, 64) /\ UNCHANGED <<obj, ck>>
Finalize == \E s \in Slots, w \in {64, 128, 256} :
             Live(s) /\ obs' = Result(s, w) /\ obj' = [obj EXCEPT ![s] = <<>>] /\ UNCHANGED ck
Clone == \E s, t \in Slots : Live(s) /\ obj' = [obj EXCEPT ![t] = obj[s]] /\ obs' = <<>> /\ UNCHANGED ck
Checkpoint == \E s \in Slots, c \in CkSlots :
             Live(s) /\ ck' = [ck EXCEPT ![c] = obj[s]] /\ obs' = <<"ckpt", obj[s][1], obj[s][2]>> /\ UNCHANGED obj
Restore == \E s \in Slots, c \in CkSlots :
             ck[c] # <<>> /\ obj' = [obj EXCEPT ![s] = ck[c]] /\ obs' = <<>> /\ UNCHANGED ck
Drop == \E s \in Slots : Live(s) /\ obj' = [obj EXCEPT ![s] = <<>>] /\ obs' = <<>> /\ UNCHANGED ck

Next == Create \/ Extend \/ Observe \/ Finalize \/ Clone \/ Checkpoint \/ Restore \/ Drop
Spec == Init /\ [][Next]_vars
=============================================================================
