------------------------------ MODULE ShaTrace ------------------------------
(***************************************************************************)
(* Recorded hashing with an emulated kernel socket.                        *)
(*   init rc, drv   the backend was asked for; what it was asked for works *)
(*   open           a socket for digests came to be                        *)
(*   call len       a digest is asked for                                  *)
(*   send off n more  the socket took n bytes, those at off (-1: others)   *)
(*   recv n         it gave a digest, or a part of it                      *)
(*   intr, fail     an operation was interrupted, failed                   *)
(*   ret rc, right  what came of the call                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Raw == JsonDeserialize(IOEnv.TRACES)
VARIABLES sid, l, mode, kern, cur, phase, dig
vars == <<sid, l, mode, kern, cur, phase, dig>>
B == INSTANCE ShaBackend WITH Lens <- {0}, MaxCalls <- 0, MaxFaults <- 0, sent <- 0, outs <- <<>>, faults <- 0, hist <- <<>>
T == Raw[sid]
Ln == T.ev[l]

\* phase: "idle" | "busy"; dig: what the digest that was received last is of, Nothing if there is none
Nothing == << <<0, 0, 0>> >>
Init == /\ sid \in 1..Len(Raw) /\ l = 1 /\ mode = "soft" /\ kern = B!Fresh /\ cur = [n |-> 0, len |-> 0]
        /\ phase = "idle" /\ dig = Nothing
Ev(e) == l <= Len(T.ev) /\ Ln.e = e /\ l' = l + 1 /\ UNCHANGED sid

\* a backend that cannot be had is refused, and what there was stays
Asked == /\ Ev("init") /\ phase = "idle"
         /\ (Ln.rc = 0) = Ln.works
         /\ Ln.rc = 0 => mode = "kernel"
         /\ UNCHANGED <<mode, kern, cur, phase, dig>>
Open == /\ Ev("open") /\ phase = "idle" /\ mode' = "kernel" /\ kern' = B!Fresh /\ UNCHANGED <<cur, phase, dig>>
Close == /\ Ev("deinit") /\ phase = "idle" /\ mode' = "soft" /\ UNCHANGED <<kern, cur, phase, dig>>

Call == /\ Ev("call") /\ phase = "idle" /\ phase' = "busy" /\ cur' = [n |-> cur.n + 1, len |-> Ln.len] /\ dig' = Nothing
        /\ UNCHANGED <<mode, kern>>
Send == /\ Ev("send") /\ phase = "busy" /\ mode = "kernel"
        /\ kern' = B!KSend(kern, IF Ln.off < 0 THEN <<0, 0, Ln.n>> ELSE <<cur.n, Ln.off, Ln.n>>, Ln.more)
        /\ dig' = Nothing
        /\ UNCHANGED <<mode, cur, phase>>
Recv == /\ Ev("recv") /\ phase = "busy" /\ mode = "kernel"
        /\ IF Ln.n = 32 THEN dig' = B!KDigest(kern) /\ UNCHANGED mode ELSE dig' = Nothing /\ mode' = "soft"
        /\ kern' = B!Fresh
        /\ UNCHANGED <<cur, phase>>
Intr == Ev("intr") /\ phase = "busy" /\ mode = "kernel" /\ UNCHANGED <<mode, kern, cur, phase, dig>>
Fail == Ev("fail") /\ phase = "busy" /\ mode = "kernel" /\ mode' = "soft" /\ dig' = Nothing /\ UNCHANGED <<kern, cur, phase>>
Ret == /\ Ev("ret") /\ phase = "busy" /\ Ln.rc = 0 /\ Ln.right
       /\ dig # Nothing => dig = B!Whole(cur.n, cur.len)
       \* what stays behind must not get into the next message: the socket is of no use any more
       /\ mode' = IF kern = B!Fresh THEN mode ELSE "soft"
       /\ phase' = "idle" /\ UNCHANGED <<kern, cur, dig>>

Next == Asked \/ Open \/ Close \/ Call \/ Send \/ Recv \/ Intr \/ Fail \/ Ret
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(T.ev) + 1 => PrintT(<<"ACC", sid>>))
          /\ ("DBG" \in DOMAIN IOEnv => PrintT(<<"AT", sid, l, mode>>))
=============================================================================
