------------------------------ MODULE Neutral ------------------------------
(* Byte order and word size (C17), at a small scale: the same operations on *)
(* targets that differ in both.  A byte has BASE values, a word of the      *)
(* state is two bytes, a pointer is one or two.  The hasher loads packets   *)
(* of one word, keeps pending bytes, and encodes checkpoints; a target's    *)
(* native conversions depend on its byte order, its usize on its pointers.  *)
(* Same: whatever can be observed - result, checkpoint - is equal on all    *)
(* targets; also after Carry, where each restores another's checkpoint.     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS BASE,         \* values of a byte
          MaxOps,
          NativeLoad,   \* negative: packets are loaded in the target's order
          NativeTail,   \* negative: pending bytes are packed in the target's order
          NativeStore,  \* negative: the checkpoint stores words in the target's order
          UsizeCount,   \* negative: the checkpoint's count is a usize
          UsizeMul      \* negative: the multiplication is done on usize

Byte == 0..(BASE - 1)
W == BASE * BASE
Targets == {"le", "be"} \X {1, 2}
Usize(t) == IF t[2] = 1 THEN BASE ELSE W

VARIABLES v, pend, ops
vars == <<v, pend, ops>>

Little(s) == s[1] + (BASE * s[2])
Big(s) == s[2] + (BASE * s[1])
Native(t, s) == IF t[1] = "le" THEN Little(s) ELSE Big(s)
Load(t, s) == IF NativeLoad THEN Native(t, s) ELSE Little(s)
Pad(s) == IF Len(s) = 0 THEN <<0, 0>> ELSE <<s[1], 0>>
TailOf(t, s) == IF NativeTail THEN Native(t, Pad(s)) ELSE Little(Pad(s))
Split(x) == <<x % BASE, x \div BASE>>
Swap(s) == <<s[2], s[1]>>
Store(t, x) == IF NativeStore /\ t[1] = "be" THEN Swap(Split(x)) ELSE Split(x)

(* a full word product, of which the low and the high half are added *)
Mul(t, x, y) == LET p == x * y IN IF UsizeMul THEN p % Usize(t) ELSE ((p % W) + (p \div W)) % W
Mix(t, x, w) == (Mul(t, (x + w) % W, 7) + 3) % W

CountBytes(t, n) == IF UsizeCount THEN (IF t[2] = 1 THEN <<n>> ELSE IF t[1] = "le" THEN <<n, 0>> ELSE <<0, n>>) ELSE <<n, 0>>
Encode(t) == Store(t, v[t]) \o Pad(pend[t]) \o CountBytes(t, Len(pend[t]))
(* the reader takes the count where its own writer puts it *)
CountAt(t, s) == IF UsizeCount THEN (IF t[2] = 1 \/ t[1] = "le" THEN s[5] ELSE IF Len(s) > 5 THEN s[6] ELSE 0) ELSE s[5]
Decode(t, s) == [v |-> IF NativeStore /\ t[1] = "be" THEN Big(s) ELSE Little(s), p |-> SubSeq(s, 3, 2 + (CountAt(t, s) % 2))]

Result(t) == IF pend[t] = <<>> THEN Mix(t, v[t], 0) ELSE Mix(t, (v[t] + Len(pend[t])) % W, TailOf(t, pend[t]))

Init == /\ \E k \in 0..(W - 1): v = [t \in Targets |-> k]
        /\ pend = [t \in Targets |-> <<>>]
        /\ ops = 0

AppendByte(b) ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ v' = [t \in Targets |-> IF Len(pend[t]) = 1 THEN Mix(t, v[t], Load(t, Append(pend[t], b))) ELSE v[t]]
  /\ pend' = [t \in Targets |-> IF Len(pend[t]) = 1 THEN <<>> ELSE <<b>>]
(* every target restores what another one wrote *)
Carry ==
  /\ ops < MaxOps /\ ops' = ops + 1
  /\ \E f \in [Targets -> Targets]:
       /\ Cardinality({f[t] : t \in Targets}) = 4
       /\ v' = [t \in Targets |-> Decode(t, Encode(f[t])).v]
       /\ pend' = [t \in Targets |-> Decode(t, Encode(f[t])).p]
Next == (\E b \in Byte: AppendByte(b)) \/ Carry
Spec == Init /\ [][Next]_vars

Same == \A t, u \in Targets: Result(t) = Result(u)
SameCheckpoint == \A t, u \in Targets: Encode(t) = Encode(u)
=============================================================================
