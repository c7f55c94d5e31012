----------------------------- MODULE ShaBackend -----------------------------
(***************************************************************************)
(* Hashing with the kernel's help: a socket takes the data piece by piece  *)
(* and then gives the digest. Pieces can be taken partly, and every        *)
(* operation can be interrupted or fail; after a failure the digest is     *)
(* computed in software, then and from then on.                            *)
(* Data is represented by where it is from: <<call, offset, length>>.      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Lens, MaxCalls, MaxFaults
VARIABLES mode,    \* "kernel" | "soft"
          kern,    \* the socket: what has been added, whether the message goes on, a digest that is ready
          cur,     \* the call: [n, len]; n = 0: none yet
          sent,    \* how much of it the socket has taken
          phase,   \* "idle" | "send" | "recv" | "soft"
          outs,    \* what the digests returned are digests of
          faults, hist
vars == <<mode, kern, cur, sent, phase, outs, faults, hist>>

\* ------------------------------------------------------------ the socket
Fresh == [acc |-> <<>>, more |-> FALSE, has |-> FALSE, res |-> <<>>]
Add(a, p) == IF p[3] = 0 THEN a
             ELSE IF a # <<>> /\ a[Len(a)][1] = p[1] /\ a[Len(a)][2] + a[Len(a)][3] = p[2]
                  THEN [a EXCEPT ![Len(a)] = <<@[1], @[2], @[3] + p[3]>>]
                  ELSE Append(a, p)
\* a piece is added; if no more is to come, the digest is made ready
KSend(k, p, more) == LET a == Add(IF k.more THEN k.acc ELSE <<>>, p)
                     IN [acc |-> a, more |-> more, has |-> ~more, res |-> IF more THEN <<>> ELSE a]
KDigest(k) == IF k.has THEN k.res ELSE IF k.more THEN k.acc ELSE <<>>

Whole(n, len) == IF len = 0 THEN <<>> ELSE << <<n, 0, len>> >>

\* ------------------------------------------------------------ the calls
Init == /\ mode \in {"kernel", "soft"} /\ kern = Fresh /\ cur = [n |-> 0, len |-> 0] /\ sent = 0
        /\ phase = "idle" /\ outs = <<>> /\ faults = 0 /\ hist = <<>>

Call == /\ phase = "idle" /\ cur.n < MaxCalls
        /\ \E len \in Lens : /\ cur' = [n |-> cur.n + 1, len |-> len]
                             /\ hist' = Append(hist, <<"call", len>>)
                             /\ phase' = IF mode = "soft" THEN "soft" ELSE IF len = 0 THEN "recv" ELSE "send"
        /\ sent' = 0
        /\ UNCHANGED <<mode, kern, outs, faults>>

Soft == /\ phase = "soft"
        /\ outs' = Append(outs, Whole(cur.n, cur.len)) /\ phase' = "idle"
        /\ UNCHANGED <<mode, kern, cur, sent, faults, hist>>

\* the socket takes k of what is left
Send == /\ phase = "send"
        /\ \E k \in 1..(cur.len - sent) :
              /\ k < cur.len - sent => faults < MaxFaults
              /\ faults' = faults + (IF k < cur.len - sent THEN 1 ELSE 0)
              /\ kern' = KSend(kern, <<cur.n, sent, k>>, TRUE)
              /\ sent' = sent + k
              /\ phase' = IF sent' = cur.len THEN "recv" ELSE "send"
              /\ hist' = Append(hist, <<"send", k>>)
        /\ UNCHANGED <<mode, cur, outs>>

Recv == /\ phase = "recv"
        /\ outs' = Append(outs, KDigest(kern)) /\ kern' = Fresh /\ phase' = "idle"
        /\ hist' = Append(hist, <<"recv", 32>>)
        /\ UNCHANGED <<mode, cur, sent, faults>>

Fault == phase \in {"send", "recv"} /\ faults < MaxFaults /\ faults' = faults + 1
Interrupted == /\ Fault /\ hist' = Append(hist, <<"eintr", phase>>)
               /\ UNCHANGED <<mode, kern, cur, sent, phase, outs>>
\* a failure, or fewer bytes than a digest has: the socket is given up
Fails == /\ Fault /\ mode' = "soft" /\ phase' = "soft" /\ kern' = Fresh
         /\ \/ hist' = Append(hist, <<"err", phase>>)
            \/ phase = "recv" /\ hist' = Append(hist, <<"short", phase>>)
         /\ UNCHANGED <<cur, sent, outs>>

Next == Call \/ Soft \/ Send \/ Recv \/ Interrupted \/ Fails
Spec == Init /\ [][Next]_vars /\ WF_vars(Soft \/ Send \/ Recv \/ Fails)

\* every digest is that of exactly the data given, also of what comes after a failure
Right == \A i \in 1..Len(outs) : \E len \in Lens : outs[i] = Whole(i, len) /\ (i = cur.n => len = cur.len)
\* a socket in the middle of a message is never left for the next one
Clean == phase = "idle" => kern = Fresh
GivenUp == [][mode = "soft" => mode' = "soft"]_vars
Ends == \A n \in 1..MaxCalls : (cur.n = n) ~> (Len(outs) >= n)
=============================================================================
