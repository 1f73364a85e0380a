------------------------------ MODULE Threads ------------------------------
(* C15: threads feed hashers of their own, step by step.  A call is not     *)
(* atomic: it stages the caller's bytes in a packet, absorbs the packet     *)
(* into the lanes, and only then returns.  Every object owns its packet     *)
(* and its lanes; SharedPacket / SharedLanes are designs with hidden state  *)
(* (a static scratch buffer, a cached hasher handed out to everyone).       *)
(* A builder shared by the threads hands out one hasher per request.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Rounds, SharedPacket, SharedLanes, BuilderCaches

VARIABLES pc,      \* thread -> where it is in its current call
          made,    \* thread -> its hasher's identity (a request number)
          packet,  \* packet owner -> bytes staged
          lanes,   \* lanes owner -> what was absorbed
          fed,     \* thread -> bytes its hasher was given, per the thread
          n,       \* thread -> calls made
          req      \* hashers handed out so far
vars == <<pc, made, packet, lanes, fed, n, req>>

Owner(shared, id) == IF shared THEN 0 ELSE id
Ids == 0..Cardinality(Threads)
Init == /\ pc = [t \in Threads |-> "build"]
        /\ made = [t \in Threads |-> 0]
        /\ packet = [i \in Ids |-> <<>>]
        /\ lanes = [i \in Ids |-> <<>>]
        /\ fed = [t \in Threads |-> <<>>]
        /\ n = [t \in Threads |-> 0]
        /\ req = 0

(* the shared BuildHasher: by reference, from any thread *)
Build(t) == /\ pc[t] = "build"
            /\ req' = req + 1
            /\ made' = [made EXCEPT ![t] = IF BuilderCaches THEN 1 ELSE req + 1]
            /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ UNCHANGED <<packet, lanes, fed, n>>
Stage(t) == /\ pc[t] = "idle" /\ n[t] < Rounds
            /\ packet' = [packet EXCEPT ![Owner(SharedPacket, made[t])] = <<t, n[t]>>]
            /\ pc' = [pc EXCEPT ![t] = "staged"]
            /\ UNCHANGED <<made, lanes, fed, n, req>>
Absorb(t) == /\ pc[t] = "staged"
             /\ lanes' = [lanes EXCEPT ![Owner(SharedLanes, made[t])] = Append(@, packet[Owner(SharedPacket, made[t])])]
             /\ fed' = [fed EXCEPT ![t] = Append(@, <<t, n[t]>>)]
             /\ n' = [n EXCEPT ![t] = @ + 1]
             /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ UNCHANGED <<made, packet, req>>
Next == \E t \in Threads : Build(t) \/ Stage(t) \/ Absorb(t)
Spec == Init /\ [][Next]_vars

(* whenever a thread is between calls, its hasher has absorbed its bytes and nothing else *)
OwnBytesOnly == \A t \in Threads : pc[t] = "idle" => lanes[Owner(SharedLanes, made[t])] = fed[t]
(* no two hashers handed out are the same object *)
Distinct == \A t, u \in Threads : t # u /\ made[t] # 0 => made[t] # made[u]
=============================================================================
