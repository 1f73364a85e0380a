----------------------------- MODULE PacketImpl -----------------------------
(* The buffering design of every backend: absorbed packets, a PACKET-byte   *)
(* buffer that keeps stale bytes beyond its count, fill/set_to, append with *)
(* its fast path, checkpoint and restore, Default, raw restores.            *)
(* The compression function is free: the absorbed state *is* the root and   *)
(* the sequence of packets compressed into it, so two states are equal      *)
(* exactly when the real ones must be.  Bytes are tokens.                   *)
(*                                                                          *)
(* The flags reproduce designs that break a property; MC models with a flag *)
(* set must produce a counterexample, the design as specified must not.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS PACKET,         \* 32 in the code; smaller for deep multi-object models
          Slots, CkSlots, \* object and checkpoint slots
          Keys,           \* key identities; 0 is the all-zero key
          Lens,           \* chunk lengths an append may have
          MaxLen,         \* bound on the length of a stream
          RawCounts,      \* pending counts of raw checkpoints
          Widths,
          Ops,            \* the enabled actions, by letter
          StaleCheckpoint, FullRestore, UnkeyedDefault, FillOffByOne, ObserverMutates, SharedScratch

VARIABLES obj,   \* slot -> NoObj or [root, acc, buf, idx, st, pool]
          ck,    \* slot -> NoCk or what a checkpoint holds
          obs,   \* the last observation: <<kind, root, stream, value>>
          pan,   \* a debug assertion of the implementation failed
          scr    \* (SharedScratch only) a packet buffer shared by all objects
vars == <<obj, ck, obs, pan, scr>>

NoObj == [root |-> <<"none">>]
NoCk == [root |-> <<"none">>]
NoObs == <<"none">>
Live(s) == obj[s].root # <<"none">>

Z == 0                                     \* the zero byte of a fresh buffer
Blank == [i \in 1..PACKET |-> Z]
Root(k) == <<"k", k>>
RawRoot(n) == <<"r", n>>

(* input bytes are tokens: which pool, which position *)
Chunk(p, from, n) == [i \in 1..n |-> p * 1000 + from + i]

(***************************************************************************)
(* The buffer, as internal.rs has it                                       *)
(***************************************************************************)
Put(buf, at, data) == [i \in 1..PACKET |-> IF i > at /\ i <= at + Len(data) THEN data[i - at] ELSE buf[i]]
(* set_to keeps the old bytes beyond the new count *)
SetTo(o, data) == [o EXCEPT !.buf = Put(o.buf, 0, data), !.idx = Len(data)]
Slice(s, a, b) == SubSeq(s, a, b)

RECURSIVE Packets(_)
Packets(d) == IF Len(d) < PACKET THEN <<>> ELSE <<Slice(d, 1, PACKET)>> \o Packets(Slice(d, PACKET + 1, Len(d)))
Rest(d) == Slice(d, PACKET * (Len(d) \div PACKET) + 1, Len(d))

AppendImpl(o, d) ==
  IF o.idx = 0
  THEN SetTo([o EXCEPT !.acc = @ \o Packets(d)], Rest(d))
  ELSE LET room == IF FillOffByOne THEN PACKET - o.idx - 1 ELSE PACKET - o.idx IN
       IF room > Len(d)
       THEN [o EXCEPT !.buf = Put(o.buf, o.idx, d), !.idx = @ + Len(d)]
       ELSE LET take == IF PACKET - o.idx > Len(d) THEN Len(d) ELSE PACKET - o.idx
                full == Put(o.buf, o.idx, Slice(d, 1, take))
                tail == Slice(d, take + 1, Len(d))
            IN SetTo([o EXCEPT !.acc = Append(@, full) \o Packets(tail), !.buf = full], Rest(tail))

Pending(o) == Slice(o.buf, 1, o.idx)
(* what finalisation computes from: the absorbed packets and the pending bytes *)
Result(o, w) == <<o.root, o.acc, Pending(o), w>>
CkptOf(o) == [root |-> o.root, acc |-> o.acc, cnt |-> o.idx, st |-> o.st, pool |-> o.pool,
              buf |-> IF StaleCheckpoint THEN o.buf ELSE Put(Blank, 0, Pending(o))]
FromCk(c) ==
  LET n == IF c.cnt > PACKET THEN PACKET ELSE c.cnt
      base == [root |-> c.root, acc |-> c.acc, buf |-> Blank, idx |-> 0, st |-> c.st, pool |-> c.pool]
  IN IF FullRestore THEN [base EXCEPT !.buf = Put(Blank, 0, Slice(c.buf, 1, n)), !.idx = n]
     ELSE AppendImpl(base, Slice(c.buf, 1, n))

(***************************************************************************)
(* What the abstract hasher (Hasher.tla) says about a stream               *)
(***************************************************************************)
HashOf(root, st, w) == <<root, Packets(st), Rest(st), w>>
Canonical(root, st) == [root |-> root, acc |-> Packets(st), cnt |-> Len(st) % PACKET, buf |-> Put(Blank, 0, Rest(st))]

(***************************************************************************)
(* Transitions                                                             *)
(***************************************************************************)
Fresh(k) == [root |-> Root(k), acc |-> <<>>, buf |-> Blank, idx |-> 0, st |-> <<>>, pool |-> k]
Init == /\ obj = [s \in Slots |-> NoObj]
        /\ ck = [c \in CkSlots |-> NoCk]
        /\ obs = NoObs
        /\ pan = FALSE
        /\ scr = Blank

New(s, k) == /\ ~Live(s)
             /\ obj' = [obj EXCEPT ![s] = Fresh(k)]
             /\ obs' = NoObs
             /\ UNCHANGED <<ck, pan, scr>>
Default(s) == /\ ~Live(s)
              /\ obj' = [obj EXCEPT ![s] = IF UnkeyedDefault THEN [Fresh(0) EXCEPT !.root = <<"zerostate">>] ELSE Fresh(0)]
              /\ obs' = NoObs
              /\ UNCHANGED <<ck, pan, scr>>
DoAppend(s, n) ==
  /\ Live(s)
  /\ LET o == obj[s]
         d == Chunk(o.pool, Len(o.st), n)
         o1 == IF SharedScratch THEN [o EXCEPT !.buf = scr] ELSE o
         o2 == AppendImpl(o1, d)
     IN /\ Len(o.st) + n <= MaxLen
        /\ obj' = [obj EXCEPT ![s] = [o2 EXCEPT !.st = o.st \o d]]
        /\ scr' = IF SharedScratch THEN o2.buf ELSE scr
  /\ obs' = NoObs
  /\ UNCHANGED <<ck, pan>>
View(o) == IF SharedScratch THEN [o EXCEPT !.buf = scr] ELSE o
Finish(s) ==
  /\ Live(s)
  /\ obs' = <<"hash", obj[s].root, obj[s].st, 64, Result(View(obj[s]), 64)>>
  /\ pan' = (pan \/ obj[s].idx >= PACKET)      \* shift by the pending count
  /\ obj' = IF ObserverMutates /\ obj[s].idx > 0 THEN [obj EXCEPT ![s].acc = Append(@, Pending(obj[s]))] ELSE obj
  /\ UNCHANGED <<ck, scr>>
Finalize(s, w) ==
  /\ Live(s)
  /\ obs' = <<"hash", obj[s].root, obj[s].st, w, Result(View(obj[s]), w)>>
  /\ pan' = (pan \/ obj[s].idx >= PACKET)
  /\ obj' = [obj EXCEPT ![s] = NoObj]
  /\ UNCHANGED <<ck, scr>>
CloneTo(s, t) ==
  /\ Live(s) /\ s # t
  \* the clone may be fed other bytes: it gets a pool of its own when the slots differ
  /\ obj' = [obj EXCEPT ![t] = obj[s]]
  /\ obs' = NoObs
  /\ UNCHANGED <<ck, pan, scr>>
Diverge(s) == \* from here on this object is fed other data
  /\ Live(s) /\ obj[s].pool < 10
  /\ obj' = [obj EXCEPT ![s].pool = @ + 10]
  /\ obs' = NoObs
  /\ UNCHANGED <<ck, pan, scr>>
Checkpoint(s, c) ==
  /\ Live(s)
  /\ ck' = [ck EXCEPT ![c] = CkptOf(View(obj[s]))]
  /\ obs' = <<"ckpt", obj[s].root, obj[s].st, CkptOf(View(obj[s]))>>
  /\ UNCHANGED <<obj, pan, scr>>
Restore(s, c) ==
  /\ ck[c].root # <<"none">>
  /\ obj' = [obj EXCEPT ![s] = FromCk(ck[c])]
  /\ obs' = NoObs
  /\ UNCHANGED <<ck, pan, scr>>
RawRestore(s, n) ==
  /\ ~Live(s)
  /\ LET m == IF n > PACKET THEN PACKET ELSE n
         b == Chunk(50, 0, PACKET)
         c == [root |-> RawRoot(0), acc |-> <<>>, cnt |-> n, buf |-> b, pool |-> 50, st |-> Slice(b, 1, m)]
     IN obj' = [obj EXCEPT ![s] = FromCk(c)]
  /\ obs' = NoObs
  /\ UNCHANGED <<ck, pan, scr>>
Drop(s) == /\ Live(s)
           /\ obj' = [obj EXCEPT ![s] = NoObj]
           /\ obs' = NoObs
           /\ UNCHANGED <<ck, pan, scr>>

On(op) == op \in Ops
Next == \/ On("N") /\ \E s \in Slots, k \in Keys : New(s, k)
        \/ On("d") /\ \E s \in Slots : Default(s)
        \/ On("F") /\ \E s \in Slots : Finish(s)
        \/ On("D") /\ \E s \in Slots : Drop(s)
        \/ On("V") /\ \E s \in Slots : Diverge(s)
        \/ On("A") /\ \E s \in Slots, n \in Lens : DoAppend(s, n)
        \/ On("Z") /\ \E s \in Slots, w \in Widths : Finalize(s, w)
        \/ On("C") /\ \E s, t \in Slots : CloneTo(s, t)
        \/ On("K") /\ \E s \in Slots, c \in CkSlots : Checkpoint(s, c)
        \/ On("R") /\ \E s \in Slots, c \in CkSlots : Restore(s, c)
        \/ On("X") /\ \E s \in Slots, n \in RawCounts : RawRestore(s, n)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
TypeOK == \A s \in Slots : Live(s) => obj[s].idx \in 0..PACKET /\ Len(obj[s].buf) = PACKET
(* C05 C11: between calls fewer than PACKET bytes are pending *)
PendingShort == \A s \in Slots : Live(s) => obj[s].idx < PACKET
(* C01 C05: the buffer and the absorbed packets are exactly the stream *)
Represents == \A s \in Slots : Live(s) =>
                /\ obj[s].acc = Packets(obj[s].st)
                /\ (~SharedScratch => Pending(obj[s]) = Rest(obj[s].st))
(* C05 C06 C07 C13 C15: every result is the hash of (root, stream, width) and nothing else *)
ResultIsHash == (obs[1] = "hash") => obs[5] = HashOf(obs[2], obs[3], obs[4])
(* C07: no root but keys and raw checkpoints *)
RootsKeyed == \A s \in Slots : Live(s) => obj[s].root[1] \in {"k", "r"}
(* C14: checkpoints are a function of (root, stream) *)
CkptCanonical == (obs[1] = "ckpt") =>
                   [root |-> obs[4].root, acc |-> obs[4].acc, cnt |-> obs[4].cnt, buf |-> obs[4].buf] = Canonical(obs[2], obs[3])
(* C14: no absorbed byte in it *)
CkptNoStale == (obs[1] = "ckpt") =>
                 \A i \in 1..PACKET : obs[4].buf[i] # Z => \E j \in 1..Len(Rest(obs[3])) : Rest(obs[3])[j] = obs[4].buf[i]
(* C14: restoring and checkpointing again gives the same bytes *)
CkptIdempotent == \A c \in CkSlots : ck[c].root # <<"none">> => CkptOf(FromCk(ck[c])) = ck[c]
(* C08 C11 *)
NoPanic == ~pan

(* C13: observers leave every object as it is (action property) *)
ObserversPure == [][obs'[1] \in {"hash", "ckpt"} =>
                     \A s \in Slots : obj'[s] = obj[s] \/ obj'[s] = NoObj]_vars
(* C15: a step changes at most one object *)
Isolation == [][\A s, t \in Slots : (s # t) => (obj'[s] = obj[s] \/ obj'[t] = obj[t])]_vars
=============================================================================
