---------------------------- MODULE TraceMemory ----------------------------
(* Recorded memory accesses of the real code against Memory: every access   *)
(* of an operation is in its own frame, in the program's image, inside the  *)
(* object, or - loads only - inside the slice it was given.                 *)
(* An event: [op, len, size, acc]; acc: sequence of <<region, offset, size, *)
(* kind>> with region in {"slice", "obj", "frame", "image", "else"} and     *)
(* kind "L" (load), "S" (store) or "M" (both); offsets are relative to the  *)
(* start of the region, and may lie outside of it.                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES b, l, bad
vars == <<b, l, bad>>

Inside(a, n) == a[2] >= 0 /\ a[2] + a[3] <= n
Fine(e, a) == CASE a[1] = "slice" -> Inside(a, e.len) /\ a[4] = "L"
                [] a[1] = "obj" -> Inside(a, e.size)
                [] a[1] \in {"frame", "image"} -> TRUE
                [] OTHER -> FALSE
Wrong(e) == {i \in DOMAIN e.acc : ~Fine(e, e.acc[i])}

Init == b \in DOMAIN Trace /\ l = 1 /\ bad = ""
Next == /\ bad = "" /\ l <= Len(Trace[b].ev)
        /\ LET e == Trace[b].ev[l]
               w == Wrong(e)
           IN bad' = IF w = {} THEN "" ELSE
                LET a == e.acc[CHOOSE i \in w: TRUE]
                IN e.op \o " touches " \o a[1] \o " at " \o ToString(a[2]) \o ", " \o ToString(a[3]) \o " bytes, slice " \o ToString(e.len) \o " object " \o ToString(e.size) \o " at event " \o ToString(l) \o " of " \o Trace[b].id
        /\ l' = l + 1 /\ b' = b
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
