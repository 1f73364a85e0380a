------------------------------ MODULE MCPacket ------------------------------
(* PacketImpl refines Hasher: the buffer and the absorbed packets are an    *)
(* implementation of "the bytes consumed so far".                           *)
EXTENDS PacketImpl

AbsObj(o) == IF o.root = <<"none">> THEN <<>> ELSE <<o.root, FlattenSeq(o.acc) \o Pending(o)>>
AbsCk(c) == IF c.root = <<"none">> THEN <<>>
            ELSE <<c.root, FlattenSeq(c.acc) \o Slice(c.buf, 1, IF c.cnt > PACKET THEN PACKET ELSE c.cnt)>>
AbsObs == CASE obs[1] = "none" -> <<>>
            [] obs[1] = "hash" -> <<"hash", obs[5][1], FlattenSeq(obs[5][2]) \o obs[5][3], obs[5][4]>>
            [] obs[1] = "ckpt" -> <<"ckpt", obs[4].root, FlattenSeq(obs[4].acc) \o Slice(obs[4].buf, 1, obs[4].cnt)>>
A == INSTANCE Hasher WITH obj <- [s \in Slots |-> AbsObj(obj[s])],
                          ck <- [c \in CkSlots |-> AbsCk(ck[c])],
                          obs <- AbsObs
Refines == A!Spec
=============================================================================
