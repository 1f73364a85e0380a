----------------------------- MODULE TraceHasher -----------------------------
(* Relational trace validation.  Recorded behaviours of the real code are   *)
(* checked against the abstract hasher: an object is a root and what it has *)
(* consumed; the hash is an uninterpreted function, so all that is demanded *)
(* is that equal identities give equal observations (the memo), that        *)
(* nothing panics, that io::Write::write reports the full length, ...       *)
(*                                                                          *)
(* Identity of what was consumed:                                           *)
(*   CONCAT  - the concatenated bytes, as normalised ranges of input pools  *)
(*   ~CONCAT - the exact history of calls (C09, C13, C15)                   *)
(* SHARED: one memo for all types and lanes; otherwise one per type.        *)
(* CKPT:   checkpoint bytes are observations, too (C14).                    *)
(* TAIL:   the buffer part of a checkpoint is a function of the pending     *)
(*         bytes alone (C14: nothing already absorbed is in there).         *)
(* ALLOC:  no operation may allocate (C18).                                 *)
(* ~VALUES: only panics and crashes matter, whatever is computed (C08).     *)
(* An event carries in v the distinct values all lanes and types observed.  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

CONSTANTS CONCAT, SHARED, CKPT, TAIL, ALLOC, VALUES

Trace == JsonDeserialize(IOEnv.TRACE)

VARIABLES b, l, obj, ck, bld, memo, bad
vars == <<b, l, obj, ck, bld, memo, bad>>

NSLOT == 12
None == <<>>
Empty == [i \in 1..NSLOT |-> None]
NoMemo == [x \in {} |-> ""]

Init == /\ b \in 1..Len(Trace)
        /\ l = 1
        /\ obj = Empty /\ ck = Empty /\ bld = Empty
        /\ memo = NoMemo
        /\ bad = ""

(* an object is <<type, root, consumed>> *)
Ty(o) == o[1]
RootOf(o) == o[2]
Consumed(o) == o[3]

(* ranges are <<pool, from, to>>; adjacent ones are merged, empty ones dropped *)
AddRange(st, r) ==
  IF r[2] = r[3] THEN st
  ELSE IF st # <<>> /\ st[Len(st)][1] = r[1] /\ st[Len(st)][3] = r[2]
       THEN [st EXCEPT ![Len(st)] = <<r[1], @[2], r[3]>>]
       ELSE Append(st, r)
Consume(st, e) ==
  IF CONCAT THEN FoldLeft(AddRange, st, e.r) ELSE Append(st, <<e.r, e.how>>)

Scope(o) == IF SHARED THEN "*" ELSE Ty(o)
Key(kind, o) == <<kind, Scope(o), RootOf(o), Consumed(o)>>

(* the last (length % 32) bytes of the stream, as ranges *)
StreamLen(st) == FoldLeft(LAMBDA n, r: n + (r[3] - r[2]), 0, st)
TakeLast(st, n) ==
  LET step(acc, r) ==  \* acc = <<left, ranges>>; ranges from the back
        IF acc[1] = 0 THEN acc
        ELSE LET k == IF r[3] - r[2] < acc[1] THEN r[3] - r[2] ELSE acc[1]
             IN <<acc[1] - k, << <<r[1], r[3] - k, r[3]>> >> \o acc[2]>>
  IN FoldLeft(step, <<n, <<>>>>, Reverse(st))[2]
PendingOf(o) == TakeLast(Consumed(o), StreamLen(Consumed(o)) % 32)
(* checkpoints are logged as 328 hex digits; the lanes are the first 256 *)
TailHex(v) == SubSeq(v, 257, 328)

Ev == Trace[b].ev
E == Ev[l]
The(e) == e.v[1]

Where(what) == what \o " at event " \o ToString(l) \o " of " \o Trace[b].id

(* an operation on an empty slot is skipped by the driver, and is here *)
Skipped(e) == Len(e.v) = 1 /\ The(e) = "-"
Due(e) == CASE e.c \in {"A", "F", "Z", "O", "K", "G"} -> obj[e.s] # None
            [] e.c = "R" -> ck[e.t] # None
            [] OTHER -> FALSE

(* What is wrong with the values themselves *)
Flaw(e) ==
  IF ~VALUES THEN
    IF \E i \in DOMAIN e.v: e.v[i] = "!" THEN "panic" ELSE IF \E i \in DOMAIN e.v: e.v[i] = "X" THEN "crash" ELSE ""
  ELSE IF Len(e.v) # 1 THEN "lanes or types disagree"
  ELSE IF Skipped(e) THEN IF Due(e) THEN "not executed" ELSE ""
  ELSE IF The(e) = "!" THEN "panic"
  ELSE IF The(e) = "X" THEN "crash"
  ELSE IF The(e) = "H" THEN "does not return"
  ELSE IF The(e) = "err" THEN "an adapter failed"
  ELSE IF ALLOC /\ e.al # 0 THEN "heap allocation"
  ELSE IF e.c = "A" /\ The(e) # "ok" /\ The(e) # e.full THEN "write did not take everything"
  ELSE ""

(* The memo entries an event contributes: a sequence of <<key, value>> *)
Claims(e) ==
  CASE e.c = "F" -> << <<Key(64, obj[e.s]), The(e)>> >>
    [] e.c = "Z" -> << <<Key(e.w, obj[e.s]), The(e)>> >>
    [] e.c = "O" -> << <<Key(e.w, <<Ty(obj[e.s]), RootOf(obj[e.s]), Consume(Consumed(obj[e.s]), e)>>), The(e)>> >>
    [] e.c = "J" -> << <<Key(64, <<"D", bld[e.t], Consume(<<>>, e)>>), The(e)>> >>
    [] e.c = "K" /\ CKPT ->
         << <<Key(1, obj[e.s]), The(e)>> >>
         \o (IF TAIL /\ RootOf(obj[e.s])[1] = "k" THEN << << <<2, "*", "*", PendingOf(obj[e.s])>>, TailHex(The(e))>> >> ELSE <<>>)
    [] OTHER -> <<>>

Agrees(m, c) == c[1] \in DOMAIN m => m[c[1]] = c[2]
Learn(m, c) == IF c[1] \in DOMAIN m THEN m ELSE m @@ (c[1] :> c[2])

Step ==
  /\ l <= Len(Ev)
  /\ bad = ""
  /\ LET e == E
         flaw == Flaw(e)
         skip == Skipped(e)
         claims == IF flaw = "" /\ ~skip /\ VALUES THEN Claims(e) ELSE <<>>
         wrong == SelectSeq(claims, LAMBDA c: ~Agrees(memo, c))
         go == flaw = "" /\ ~skip
     IN
     /\ bad' = IF flaw # "" THEN Where(flaw) ELSE IF wrong # <<>> THEN Where("differs from an equal computation") ELSE ""
     /\ memo' = FoldLeft(Learn, memo, claims)
     /\ obj' = IF ~go THEN obj ELSE
          CASE e.c = "N" -> [obj EXCEPT ![e.s] = IF The(e) = "ok" THEN <<e.ty, e.root, IF CONCAT THEN <<>> ELSE <<e.how>>>> ELSE None]
            [] e.c = "Q" -> [obj EXCEPT ![e.s] = <<"D", bld[e.t], IF CONCAT THEN <<>> ELSE <<"b">>>>]
            [] e.c = "A" -> [obj EXCEPT ![e.s] = <<Ty(@), RootOf(@), Consume(Consumed(@), e)>>]
            [] e.c \in {"Z", "O", "D"} -> [obj EXCEPT ![e.s] = None]
            [] e.c = "C" -> [obj EXCEPT ![e.t] = obj[e.s]]
            [] e.c = "M" -> [obj EXCEPT ![e.t] = obj[e.s], ![e.s] = obj[e.t]]
            [] e.c = "R" -> [obj EXCEPT ![e.s] = IF The(e) # "ok" THEN None ELSE
                               <<e.ty, ck[e.t][2], IF CONCAT THEN ck[e.t][3] ELSE Append(ck[e.t][3], << <<>>, "R" \o e.how >>)>>]
            [] e.c = "X" -> [obj EXCEPT ![e.s] = IF The(e) = "ok" THEN <<e.ty, e.root, <<>>>> ELSE None]
            [] OTHER -> obj
     /\ ck' = IF go /\ e.c = "K" THEN [ck EXCEPT ![e.t] = obj[e.s]] ELSE ck
     /\ bld' = IF go /\ e.c = "b" THEN [bld EXCEPT ![e.t] = e.root] ELSE bld
  /\ l' = l + 1
  /\ b' = b

Done == (l > Len(Ev) \/ bad # "") /\ UNCHANGED vars
Next == Step \/ Done

Accepted == bad = ""

(* behaviours are deterministic: where one is tells which state it is in *)
View == <<b, l>>
=============================================================================
