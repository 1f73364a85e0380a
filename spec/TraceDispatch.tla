--------------------------- MODULE TraceDispatch ---------------------------
(* Selections observed in real builds on real and emulated CPUs, judged by  *)
(* Dispatch.  A trace is a configuration and what was seen in it:           *)
(*   [c |-> "sel", how, tag, b]   a hasher obtained that way: its tag and   *)
(*                                backend as Debug shows them (? : unknown) *)
(*   [c |-> "opt", b, some]       an explicit constructor of backend b      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

D == INSTANCE Dispatch WITH RestoreSse <- FALSE, RestoreDetects <- FALSE, BuilderPortable <- FALSE, CloneRetags <- FALSE, ExplicitUnchecked <- FALSE,
                            conf <- <<>>, objs <- <<>>, ran <- <<>>, some <- {}
Traces == JsonDeserialize(IOEnv.TRACE)
Range(s) == {s[i] : i \in DOMAIN s}
Conf(t) == [arch |-> t.arch, std |-> t.std, ct |-> Range(t.ct) \cap D!X86Feats, cpu |-> Range(t.cpu) \cap D!X86Feats]

VARIABLES b, i, chosen, bad
vars == <<b, i, chosen, bad>>

Init == b \in DOMAIN Traces /\ i = 0 /\ chosen = <<"?", "?">> /\ bad = ""
T == Traces[b]
E == T.ev[i + 1]
(* unknown parts agree with everything *)
Agrees(x, y) == x = "?" \/ y = "?" \/ x = y
Judge ==
  CASE E.c = "sel" -> IF E.b # "?" /\ E.b \notin D!Permitted(Conf(T)) THEN "selects a backend this configuration does not permit"
                      ELSE IF ~Agrees(E.tag, chosen[1]) \/ ~Agrees(E.b, chosen[2]) THEN "selects another backend than the first hasher did"
                      ELSE ""
    [] E.c = "opt" -> IF E.some /\ \E f \in D!Needs(E.b) : ~D!Detected(Conf(T), f) THEN "an explicit constructor returns a hasher although its feature is not detected" ELSE ""
    [] OTHER -> "unknown event"
Next == /\ bad = "" /\ i < Len(T.ev)
        /\ i' = i + 1 /\ b' = b
        /\ bad' = Judge
        /\ chosen' = IF E.c = "sel" THEN <<IF chosen[1] = "?" THEN E.tag ELSE chosen[1], IF chosen[2] = "?" THEN E.b ELSE chosen[2]>> ELSE chosen
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
