------------------------------ MODULE Dispatch ------------------------------
(* C10: which backend the auto-selecting hasher runs on.                    *)
(*                                                                          *)
(* A configuration is what a build and a CPU are: the architecture, whether *)
(* std is there, the features enabled at compile time, the features of the  *)
(* CPU.  A program obtains hashers in every way there is and uses them; a   *)
(* hasher is a tag and a union member, and every operation goes by the tag. *)
EXTENDS Integers, FiniteSets, Sequences, TLC

X86Feats == {"sse4.1", "avx2"}
(* avx2 comes with everything below it, in compilers and CPUs *)
FeatSets == {{}, {"sse4.1"}, {"sse4.1", "avx2"}}
Configs == {c \in [arch : {"x86_64"}, std : BOOLEAN, ct : FeatSets, cpu : FeatSets] : c.ct \subseteq c.cpu}
             \cup [arch : {"aarch64", "wasm_simd", "other"}, std : BOOLEAN, ct : {{}}, cpu : {{}}]

(* is_x86_feature_detected answers yes for what is enabled at compile time *)
Detected(c, f) == c.arch = "x86_64" /\ (f \in c.ct \/ (c.std /\ f \in c.cpu))
(* "a SIMD backend only when it is enabled at compile time or (with std)    *)
(* detected at run time, otherwise the portable one"                        *)
Permitted(c) == CASE c.arch = "aarch64"   -> {"N", "P"}
                  [] c.arch = "wasm_simd" -> {"W", "P"}
                  [] c.arch = "other"     -> {"P"}
                  [] OTHER -> {"P"} \cup (IF Detected(c, "sse4.1") THEN {"S"} ELSE {})
                                    \cup (IF Detected(c, "avx2") THEN {"A"} ELSE {})
(* what the instructions of a backend need *)
Needs(b) == CASE b = "A" -> {"avx2"} [] b = "S" -> {"sse4.1"} [] OTHER -> {}
Tag(b) == CASE b = "P" -> 0 [] b = "A" -> 1 [] b = "S" -> 2 [] b = "N" -> 3 [] OTHER -> 4
Member(t) == CASE t = 0 -> "P" [] t = 1 -> "A" [] t = 2 -> "S" [] t = 3 -> "N" [] OTHER -> "W"

CONSTANTS
  RestoreSse,       \* negative: restore takes the avx2 branch when sse4.1 is enabled
  RestoreDetects,   \* negative: restore detects without looking whether avx2 is usable (asks for avx)
  BuilderPortable,  \* negative: the builder's hashers are always portable
  CloneRetags,      \* negative: a clone of an SSE hasher carries the tag of the AVX one
  ExplicitUnchecked \* negative: the explicit constructor returns a hasher without looking

(* the ladder: compile-time features first, then (with std) detection *)
Ladder(c, how) ==
  IF c.arch = "aarch64" THEN "N"
  ELSE IF c.arch = "wasm_simd" THEN "W"
  ELSE IF c.arch = "other" THEN "P"
  ELSE LET ctAvx == ("avx2" \in c.ct) \/ (how = "restore" /\ RestoreSse /\ "sse4.1" \in c.ct)
           rtAvx == ("avx2" \in c.cpu) \/ (how = "restore" /\ RestoreDetects)
       IN IF ctAvx THEN "A"
          ELSE IF "sse4.1" \in c.ct THEN "S"
          ELSE IF c.std /\ rtAvx THEN "A"
          ELSE IF c.std /\ "sse4.1" \in c.cpu THEN "S"
          ELSE "P"

VARIABLES
  conf,     \* the configuration
  objs,     \* the hashers there are: [tag, member, stream]
  ran,      \* what the last operation executed: [backend, member, stream, result] or none
  some      \* which explicit constructors have returned a hasher
vars == <<conf, objs, ran, some>>

MaxObjs == 3
MaxLen == 2
Mk(b, s) == [tag |-> Tag(b), member |-> b, stream |-> s]
None == [on |-> "-", member |-> "-", stream |-> 0, result |-> 0]
(* the result is a function of the stream: the portable one *)
Ref(s) == 7 * s + 1

Init == /\ conf \in Configs
        /\ objs = <<>> /\ ran = None /\ some = {}
Add(h) == /\ Len(objs) < MaxObjs
          /\ objs' = Append(objs, h)
          /\ UNCHANGED conf

New == Add(Mk(Ladder(conf, "new"), 0)) /\ UNCHANGED <<ran, some>>
Default == New
Build == Add(Mk(IF BuilderPortable THEN "P" ELSE Ladder(conf, "new"), 0)) /\ UNCHANGED <<ran, some>>
Restore == \E s \in 0..MaxLen : Add(Mk(Ladder(conf, "restore"), s)) /\ UNCHANGED <<ran, some>>
Clone == \E i \in DOMAIN objs :
  LET h == objs[i] IN Add(IF CloneRetags /\ h.tag = 2 THEN [h EXCEPT !.tag = 1] ELSE h) /\ UNCHANGED <<ran, some>>
(* any operation: the tag says whose code runs, on whatever the union holds *)
Use == \E i \in DOMAIN objs :
  LET h == objs[i] IN
  /\ ran' = [on |-> Member(h.tag), member |-> h.member, stream |-> h.stream, result |-> IF Member(h.tag) = h.member THEN Ref(h.stream) ELSE 0]
  /\ \/ objs' = objs
     \/ /\ h.stream < MaxLen
        /\ objs' = [objs EXCEPT ![i].stream = @ + 1]
  /\ UNCHANGED <<conf, some>>
Explicit == \E b \in {"S", "A"} :
  /\ conf.arch = "x86_64"
  /\ \E f \in Needs(b) : IF (conf.std /\ Detected(conf, f)) \/ ExplicitUnchecked THEN some' = some \cup {b} ELSE some' = some
  /\ UNCHANGED <<conf, objs, ran>>

Next == New \/ Default \/ Build \/ Restore \/ Clone \/ Use \/ Explicit
Spec == Init /\ [][Next]_vars

OnlyPermitted == \A i \in DOMAIN objs : objs[i].member \in Permitted(conf)
OneSelection == \A i, j \in DOMAIN objs : objs[i].member = objs[j].member /\ objs[i].tag = objs[j].tag
TagTells == \A i \in DOMAIN objs : Member(objs[i].tag) = objs[i].member
(* nothing executes an instruction the CPU does not have *)
Executable == ran # None /\ conf.arch = "x86_64" => Needs(ran.on) \subseteq conf.cpu
SameResults == ran # None => ran.result = Ref(ran.stream)
OnlyDetected == \A b \in some : \A f \in Needs(b) : Detected(conf, f)
(* not demanded by C10, but how it is: a SIMD backend whenever one may be used *)
Best == \A i \in DOMAIN objs : Permitted(conf) = {"P"} \/ objs[i].member # "P"
=============================================================================
