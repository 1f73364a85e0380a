------------------------------- MODULE Reach -------------------------------
(* What an operation can get to.  The graph comes from the code: nodes are  *)
(* the functions and globals of a compiled program (or the items of the     *)
(* source), an edge is a mention of one in the other, so that whatever is   *)
(* called, directly or through a pointer taken somewhere, is reached.       *)
(* The operations of the hashers are the roots; nothing of the kind         *)
(* forbidden may be reachable (C08 panic entry points, C18 allocation       *)
(* functions, C15 mutable statics, C16 items that use unsafe).              *)
(*                                                                          *)
(* Facts: a sequence of [name, roots, edges, bad], one per configuration;   *)
(* edges: node -> sequence of nodes (nodes without edges are absent).       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Facts == JsonDeserialize(IOEnv.FACTS)

VARIABLES c, at, from
vars == <<c, at, from>>

Range(s) == {s[i] : i \in DOMAIN s}
Edges(g, n) == IF n \in DOMAIN g.edges THEN Range(g.edges[n]) ELSE {}

Init == /\ c \in DOMAIN Facts
        /\ at \in Range(Facts[c].roots)
        /\ from = at
Next == /\ at' \in Edges(Facts[c], at)
        /\ c' = c
        /\ UNCHANGED from
(* one path per node is enough: the root it came from does not tell nodes apart *)
View == <<c, at>>

Clean == at \notin Range(Facts[c].bad)
(* the roots are really there: a configuration whose operations are missing proves nothing *)
Rooted == Facts[c].roots # <<>>
=============================================================================
