----------------------------- MODULE TraceHash -----------------------------
(* Byte-accurate trace validation.  Every recorded behaviour of the real    *)
(* code is an initial state; each event must be a step of the concrete      *)
(* HighwayHash machine: an object is <<state, pending bytes>>, append       *)
(* absorbs, a checkpoint is Encode(state, pending), restore is total, and   *)
(* the results are the HighwayHash function.                                *)
EXTENDS HighwayHash, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)

VARIABLES b, l, obj, bad
vars == <<b, l, obj, bad>>

None == <<>>
Init == /\ b \in 1..Len(Trace)
        /\ l = 1
        /\ obj = [i \in 1..12 |-> None]
        /\ bad = ""

Ev == Trace[b].ev
Absorb(o, data) == LET all == o[2] \o data IN <<AbsorbFull(o[1], all), Leftover(all)>>
Expect(e, o) ==
  CASE e.op = "fin" -> Final(o[1], o[2], e.w)
    [] e.op = "ckpt" -> Encode(o[1], o[2])
    [] OTHER -> ""
After(e, o) ==
  CASE e.op = "new" -> <<InitState(e.key), <<>>>>
    [] e.op = "append" -> Absorb(o, e.data)
    [] e.op = "restore" -> Absorb(<<DecodeState(e.data), <<>>>>, DecodeBuffer(e.data))
    [] e.op = "clone" -> obj[e.from]
    [] OTHER -> o

Step ==
  /\ l <= Len(Ev)
  /\ bad = ""
  /\ LET e == Ev[l]  o == obj[e.s] IN
     /\ obj' = [obj EXCEPT ![e.s] = After(e, o)]
     /\ bad' = IF e.op = "panic" THEN "panic at event " \o ToString(l) \o " of " \o Trace[b].id
               ELSE IF e.op \in {"fin", "ckpt"} /\ e.val # Expect(e, o)
               THEN "event " \o ToString(l) \o " of " \o Trace[b].id ELSE ""
  /\ l' = l + 1
  /\ b' = b

Done == l > Len(Ev) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* each object always has fewer than 32 pending bytes *)
PendingShort == \A i \in 1..12 : obj[i] = None \/ Len(obj[i][2]) < 32
Accepted == bad = ""
=============================================================================
