------------------------------ MODULE HttpBody ------------------------------
(***************************************************************************)
(* One download: attempts that break off, pieces of the body as the        *)
(* transport happens to deliver them, the buffer in front of the decoder   *)
(* (filled with what the decoder has left over and, for encrypted stores,  *)
(* with everything), and a decoder that stops at the end of every frame.   *)
(*                                                                         *)
(* The decoder is an executable definition of the part of the zstd format  *)
(* that is needed to say what a body stands for: frames with and without   *)
(* content size, raw and RLE blocks, skippable frames.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Bodies,     \* sequence of [b: bytes, st: HTTP status]
          Want,       \* the data of the chunk asked for
          OutMax,     \* room for decoded data
          MaxBreaks,  \* attempts that may break off
          Again       \* the decoder is called again until nothing is left (the code does)

VARIABLES body, enc,              \* what is delivered, and whether it is encrypted
          pc, del, kpos,          \* delivered bytes, position in the key stream
          st, buf, dec, used, out, breaks, res
vars == <<body, enc, pc, del, kpos, st, buf, dec, used, out, breaks, res>>

-----------------------------------------------------------------------------
(* the zstd format *)
ZMagic == <<40, 181, 47, 253>>
Dec0 == [ph |-> "magic", v |-> <<>>, left |-> 0, last |-> FALSE, fcs |-> -1, cnt |-> 0]
Err == [Dec0 EXCEPT !.ph = "err"]

BlockEnd(d) == IF ~d.last THEN [d EXCEPT !.ph = "bh", !.v = <<>>]
               ELSE IF d.fcs # -1 /\ d.fcs # d.cnt THEN Err
               ELSE [Dec0 EXCEPT !.ph = "end"]

\* one byte: [d: state behind it, o: data that comes out]
Byte(d, x) ==
    LET v == Append(d.v, x)
        To(ph) == [d EXCEPT !.ph = ph, !.v = <<>>]
        R(e) == [d |-> e, o |-> <<>>]
    IN CASE d.ph = "magic" ->
              IF Len(v) < 4 THEN R([d EXCEPT !.v = v])
              ELSE IF v = ZMagic THEN R(To("fhd"))
              ELSE IF v[1] \in 80..95 /\ v[2] = 42 /\ v[3] = 77 /\ v[4] = 24 THEN R(To("sklen"))
              ELSE R(Err)
         [] d.ph = "sklen" ->
              IF Len(v) < 4 THEN R([d EXCEPT !.v = v])
              ELSE LET n == v[1] + 256 * v[2] + 65536 * v[3]
                   IN R(IF n = 0 THEN [Dec0 EXCEPT !.ph = "end"] ELSE [To("skip") EXCEPT !.left = n])
         [] d.ph = "skip" ->
              R(IF d.left = 1 THEN [Dec0 EXCEPT !.ph = "end"] ELSE [d EXCEPT !.left = @ - 1])
         [] d.ph = "fhd" ->
              R(IF x = 32 THEN To("fcs") ELSE IF x = 0 THEN To("wd") ELSE Err)
         [] d.ph = "fcs" -> R([To("bh") EXCEPT !.fcs = x])
         [] d.ph = "wd" -> R(To("bh"))
         [] d.ph = "bh" ->
              IF Len(v) < 3 THEN R([d EXCEPT !.v = v])
              ELSE LET h == v[1] + 256 * v[2] + 65536 * v[3]
                       b == [d EXCEPT !.last = (h % 2 = 1), !.left = h \div 8, !.v = <<>>]
                       t == (h \div 2) % 4
                   IN R(CASE t = 0 -> IF b.left = 0 THEN BlockEnd(b) ELSE [b EXCEPT !.ph = "raw"]
                          [] t = 1 -> [b EXCEPT !.ph = "rle"]
                          [] OTHER -> Err)
         [] d.ph = "raw" ->
              LET e == [d EXCEPT !.left = @ - 1, !.cnt = @ + 1]
              IN [d |-> IF e.left = 0 THEN BlockEnd(e) ELSE e, o |-> <<x>>]
         [] d.ph = "rle" ->
              [d |-> BlockEnd([d EXCEPT !.cnt = @ + d.left]), o |-> [k \in 1..d.left |-> x]]
         [] d.ph = "end" -> R([Dec0 EXCEPT !.v = <<x>>])

\* the decoder, called once: takes bytes up to the end of a frame, an error, or the end of the input
RECURSIVE Call(_, _, _)
Call(d, o, in) ==
    IF in = <<>> \/ d.ph = "err" THEN [d |-> d, o |-> o, rest |-> in]
    ELSE LET r == Byte(d, Head(in))
         IN IF r.d.ph = "end" THEN [d |-> r.d, o |-> o \o r.o, rest |-> Tail(in)]
            ELSE Call(r.d, o \o r.o, Tail(in))

\* all of the input
RECURSIVE All(_, _, _)
All(d, o, in) == LET r == Call(d, o, in)
                 IN IF r.rest = <<>> \/ r.d.ph = "err" THEN r ELSE All(r.d, r.o, r.rest)

-----------------------------------------------------------------------------
(* what an answer stands for *)
HasMagic(b) == Len(b) >= 4 /\ SubSeq(b, 1, 4) = ZMagic
Outcome(x) ==
    IF x.st \in {404, 410} THEN {"miss"}
    ELSE IF x.st >= 400 THEN {"err"}
    ELSE IF x.st # 200 \/ ~HasMagic(x.b) THEN {"baddata"}
    ELSE LET r == All(Dec0, <<>>, x.b)
         IN IF r.d.ph = "err" THEN {"baddata"}
            ELSE IF Len(r.o) > OutMax THEN {"baddata", "badsum"}
            ELSE IF r.o = Want THEN {"ok"} ELSE {"badsum"}

-----------------------------------------------------------------------------
Garbled(x) == (x + 128) % 256
\* byte k of the body, after decryption with the key stream at position p
Plain(k, p) == IF ~enc \/ p = k THEN Bodies[body].b[k] ELSE Garbled(Bodies[body].b[k])

Init == /\ body \in 1..Len(Bodies) /\ enc \in BOOLEAN
        /\ pc = "xfer" /\ del = 0 /\ kpos = 0 /\ st = "started" /\ buf = <<>> /\ dec = Dec0 /\ used = 0
        /\ out = <<>> /\ breaks = 0 /\ res = "none"

Failed == /\ st' = "failed" /\ pc' = "end" /\ UNCHANGED <<buf, dec, used, out, kpos>>

\* the next n bytes arrive
Piece(n) ==
    /\ pc = "xfer" /\ n \in 1..(Len(Bodies[body].b) - del)
    /\ del' = del + n
    /\ UNCHANGED <<body, enc, breaks, res>>
    /\ IF st = "started" /\ Bodies[body].st # 200 THEN Failed
       ELSE LET data == [k \in 1..n |-> Plain(del + k, kpos + k)]
                in == buf \o data
            IN IF st = "started" /\ Len(in) < 4
               THEN buf' = in /\ kpos' = kpos + n /\ UNCHANGED <<pc, st, dec, used, out>>
               ELSE IF st = "started" /\ SubSeq(in, 1, 4) # ZMagic THEN Failed
               ELSE LET r == IF Again THEN All(dec, <<>>, in) ELSE Call(dec, <<>>, in)
                        full == Len(out \o r.o) > OutMax
                    IN IF r.d.ph = "err" \/ full
                       THEN Failed
                       ELSE /\ st' = "streaming" /\ dec' = r.d /\ out' = out \o r.o /\ buf' = r.rest
                            /\ used' = used + Len(in) - Len(r.rest) /\ kpos' = kpos + n /\ UNCHANGED pc

\* the attempt breaks off and is made again
Break == /\ pc = "xfer" /\ breaks < MaxBreaks /\ breaks' = breaks + 1
         /\ del' = 0 /\ kpos' = 0 /\ st' = "started" /\ buf' = <<>> /\ dec' = Dec0 /\ used' = 0 /\ out' = <<>>
         /\ UNCHANGED <<body, enc, pc, res>>

End == pc = "xfer" /\ del = Len(Bodies[body].b) /\ pc' = "end"
       /\ UNCHANGED <<body, enc, del, kpos, st, buf, dec, used, out, breaks, res>>

Verdict == LET s == Bodies[body].st
           IN IF s \in {404, 410} THEN "miss" ELSE IF s >= 400 THEN "err"
              ELSE IF st \in {"started", "failed"} THEN "baddata"
              ELSE IF out = Want THEN "ok" ELSE "badsum"
Judge == pc = "end" /\ pc' = "done" /\ res' = Verdict
         /\ UNCHANGED <<body, enc, del, kpos, st, buf, dec, used, out, breaks>>

Next == (\E n \in 1..Len(Bodies[body].b) : Piece(n)) \/ Break \/ End \/ Judge
Spec == Init /\ [][Next]_vars /\ WF_vars(End \/ Judge \/ (\E n \in 1..Len(Bodies[body].b) : Piece(n)))

-----------------------------------------------------------------------------
\* the chunk is a function of the answer alone
Faithful == pc = "done" => res \in Outcome(Bodies[body])
\* nothing that has arrived gets lost or is looked at twice
Conserved == st # "failed" => /\ used + Len(buf) = del /\ kpos = del
                              /\ (st = "streaming" => del >= 4 /\ out = All(Dec0, <<>>, SubSeq(Bodies[body].b, 1, used)).o)
\* only the start of the body ever waits in the buffer
Waiting == Again /\ st = "streaming" => buf = <<>>
Ends == <>(pc = "done")
=============================================================================
