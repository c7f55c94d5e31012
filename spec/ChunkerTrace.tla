---------------------------- MODULE ChunkerTrace ----------------------------
(***************************************************************************)
(* Recordings of the real chunker checked against Chunker, with casync's   *)
(* buzhash over 48 bytes.  32-bit words are pairs of 16-bit halves.        *)
(*                                                                         *)
(* Two kinds of traces: "api" records calls of the incremental interface   *)
(* (feed, id, reset), "cut" a division of the data into chunks.            *)
(* Ids appear as the piece of the data they are the hash of.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC, Json, IOUtils, BuzTable

Half == 65536
\* rotation to the left by one
Rol(h) == << ((2 * h[1]) % Half) + (h[2] \div 32768), ((2 * h[2]) % Half) + (h[1] \div 32768) >>
BIn(h, b) == LET r == Rol(h)  t == Buz[b + 1] IN << r[1] ^^ t[1], r[2] ^^ t[2] >>
\* what leaves was rotated 48 times in total: by half a word
BRoll(h, o, b) == LET r == Rol(h)  t == Buz[b + 1]  u == Buz[o + 1]
                  IN << (r[1] ^^ t[1]) ^^ u[2], (r[2] ^^ t[2]) ^^ u[1] >>
\* h modulo disc, a byte at a time to stay within TLC's integers (disc < 2^23)
Push(r, b, disc) == (r * 256 + b) % disc
Mod(h, disc) == Push(Push(h[1] % disc, h[2] \div 256, disc), h[2] % 256, disc)
BHit(h, disc) == Mod(h, disc) = disc - 1

C == INSTANCE Chunker WITH W <- 48, H0 <- <<0, 0>>, In <- BIn, Roll <- BRoll, Hit <- BHit

(* The discriminator is the integer part of avg / (1.33237515 - 1.42888852e-7 avg). *)
(* D is checked by multiplying out, in digits of 4 decimals.                        *)
RECURSIVE Digits(_)
Digits(x) == IF x = 0 THEN <<>> ELSE <<x % 10000>> \o Digits(x \div 10000)
At(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
RECURSIVE Norm(_, _)
Norm(a, carry) == IF a = <<>> THEN Digits(carry)
                  ELSE <<(Head(a) + carry) % 10000>> \o Norm(Tail(a), (Head(a) + carry) \div 10000)
Big(a, b) == IF a > b THEN a ELSE b
Add(a, b) == Norm([k \in 1..Big(Len(a), Len(b)) |-> At(a, k) + At(b, k)], 0)
Mul1(a, x) == Norm([k \in 1..Len(a) |-> a[k] * x], 0)
RECURSIVE Mul(_, _)
Mul(a, b) == IF b = <<>> THEN <<>> ELSE Add(Mul1(a, Head(b)), <<0>> \o Mul(a, Tail(b)))
Trim(a) == LET RECURSIVE T(_)
               T(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN T(SubSeq(x, 1, Len(x) - 1)) ELSE x IN T(a)
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, k) == IF k = 0 THEN TRUE ELSE a[k] < b[k] \/ (a[k] = b[k] /\ LeqFrom(a, b, k - 1))
Leq(x, y) == LET a == Trim(x)  b == Trim(y) IN
             Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LeqFrom(a, b, Len(a)))
\* times 10^15: avg, the constant part, the linear part
Num(avg) == Mul(Digits(avg), <<0, 0, 0, 1000>>)
Const == <<0, 5000, 3751, 1332>>    \* 1332 3751 5000 0000
Linear(avg) == Mul(Digits(avg), <<8852, 4288, 1>>)   \* 142888852 avg
\* q * (Const - Linear) <= Num, that is q * Const <= Num + q * Linear
QuotOk(q, avg) == Leq(Mul(Digits(q), Const), Add(Num(avg), Mul(Digits(q), Linear(avg))))
DiscOk(disc, avg) == QuotOk(disc, avg) /\ ~QuotOk(disc + 1, avg)

Raw == JsonDeserialize(IOEnv.TRACES)

VARIABLES sid, l, start, pos, due, part

vars == <<sid, l, start, pos, due, part>>

T == Raw[sid]
\* an api trace may go through its data again with a reset or a new chunker in between
D == T.d
Ev == T.ev
P == [min |-> T.min, max |-> T.max, disc |-> T.disc]
Ln == Ev[l]
Is(e) == l <= Len(Ev) /\ Ln.e = e /\ l' = l + 1

Init == /\ sid \in 1..Len(Raw)
        /\ DiscOk(T.disc, T.avg)
        /\ l = 1 /\ start = 0 /\ pos = 0
        /\ due = C!ChunkLen(D, 0, P)
        /\ part = IF T.kind = "cut" THEN C!Cut(D, 0, P) ELSE <<>>

Feed == /\ Is("feed")
        /\ Ln.ret = C!FeedResult(start, pos, due, Ln.n)
        /\ pos' = C!FeedPos(start, pos, due, Ln.n)
        /\ UNCHANGED <<sid, start, due, part>>
\* the id is the hash of all that was taken since the start of the chunk
Id == /\ Is("id")
      /\ Ln.from = start /\ Ln.to = pos
      /\ UNCHANGED <<sid, start, pos, due, part>>
\* a reset (or a new chunker): a chunk starts at the current position, wherever that is
Reset == /\ Is("reset")
         /\ start' = pos /\ due' = C!ChunkLen(D, pos, P)
         /\ UNCHANGED <<sid, pos, part>>
Cut == /\ Is("cut")
       /\ part # <<>> /\ <<Ln.off, Ln.len>> = Head(part)
       /\ part' = Tail(part)
       /\ UNCHANGED <<sid, start, pos, due>>
\* an entry of an index: a piece of the data of the local store; it is found there
\* (and not asked for elsewhere) if and only if one of its chunks is that piece
\* (contents of different pieces differ by construction, except as told by same)
Find == /\ Is("find")
        /\ Ln.found = \E k \in 1..Len(part) : \E s \in 1..Len(Ln.same) : part[k] = <<Ln.same[s], Ln.len>>
        /\ UNCHANGED <<sid, start, pos, due, part>>
End == /\ Is("end")
       /\ T.kind = "cut" => part = <<>>
       /\ T.kind = "scan" => Ln.rc = 0
       /\ UNCHANGED <<sid, start, pos, due, part>>
ScanAll == /\ T.kind = "scan" /\ part = <<>> /\ D # <<>> /\ l = 1
           /\ part' = C!Cut(D, 0, P)
           /\ UNCHANGED <<sid, l, start, pos, due>>
Next == \/ T.kind = "api" /\ (Feed \/ Id \/ Reset \/ End)
        \/ T.kind = "cut" /\ (Cut \/ End)
        \/ T.kind = "scan" /\ IF part = <<>> /\ D # <<>> /\ l = 1 THEN ScanAll ELSE (Find \/ End)
Spec == Init /\ [][Next]_vars

Report == /\ (l = Len(Ev) + 1 => PrintT(<<"ACC", sid>>))
          /\ ("DBG" \in DOMAIN IOEnv => PrintT(<<"AT", sid, l, start, pos, due, part>>))
=============================================================================
