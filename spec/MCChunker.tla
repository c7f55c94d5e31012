----------------------------- MODULE MCChunker -----------------------------
(***************************************************************************)
(* The incremental algorithm at the granularity of its implementation      *)
(* (bytes collected until the window is full, then a ring buffer indexed   *)
(* by the chunk size, the test for a boundary at the start of each call    *)
(* and behind each byte), against the definition in Chunker: for all data  *)
(* over a small alphabet, all ways of feeding it including empty pieces    *)
(* and calls at a boundary, and all resets at boundaries, the same         *)
(* results.  The window has 3 bytes here and its hash is its content.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Alphabet, MaxLen, MaxPiece

Win == 3
MIn(h, b) == (h * 4 + b) % 64
MRoll(h, o, b) == (h * 4 + b) % 64
MHit(h, disc) == h % disc = disc - 1

C == INSTANCE Chunker WITH W <- Win, H0 <- 0, In <- MIn, Roll <- MRoll, Hit <- MHit

Params == { [min |-> mn, max |-> mx, disc |-> di] :
              mn \in {0, 3, 4, 5}, mx \in {1, 3, 4, 6, 7}, di \in {1, 2, 3, 5} }

VARIABLES data, p,
          start, pos,              \* chunk starts behind start, bytes taken so far
          fill, ring, size, h,     \* the implementation's state
          ret                      \* result of the last call

vars == <<data, p, start, pos, fill, ring, size, h, ret>>

Data == UNION { [1..n -> Alphabet] : n \in 0..MaxLen }

Fresh == /\ fill = 0 /\ size = 0 /\ h = 0 /\ ring = [k \in 0..(Win-1) |-> 0]
Init == /\ data \in Data /\ p \in { x \in Params : x.min < x.max }
        /\ start = 0 /\ pos = 0 /\ ret = C!None
        /\ Fresh

ShallBreak(n, x) == IF n >= p.max THEN TRUE ELSE IF n < p.min THEN FALSE ELSE MHit(x, p.disc)

\* bytes of the piece behind the filling of the window: <<consumed or None, ring, size, h>>
RECURSIVE Rolling(_, _, _, _, _)
Rolling(rest, r, n, x, used) ==
    IF rest = <<>> THEN <<C!None, r, n, x>>
    ELSE LET x2 == MRoll(x, r[n % Win], Head(rest))
             r2 == [r EXCEPT ![n % Win] = Head(rest)]
         IN IF ShallBreak(n + 1, x2) THEN <<used + 1, r2, n + 1, x2>>
            ELSE Rolling(Tail(rest), r2, n + 1, x2, used + 1)

Feed(n) ==
    LET piece == SubSeq(data, pos + 1, pos + n)
        take == IF fill < Win THEN C!Least(n, Win - fill) ELSE 0
        ring1 == [k \in 0..(Win-1) |-> IF k >= fill /\ k < fill + take THEN piece[k - fill + 1] ELSE ring[k]]
        full == fill + take = Win
        h1 == IF fill < Win /\ full THEN MIn(MIn(MIn(0, ring1[0]), ring1[1]), ring1[2]) ELSE h
        res == IF ShallBreak(size + take, h1) THEN <<take, ring1, size + take, h1>>
               ELSE Rolling(SubSeq(piece, take + 1, n), ring1, size + take, h1, take)
    IN IF ~full
       THEN /\ fill' = fill + take /\ ring' = ring1 /\ size' = size + take
            /\ ret' = C!None /\ pos' = pos + n
            /\ UNCHANGED <<data, p, start, h>>
       ELSE /\ fill' = Win /\ ring' = res[2] /\ size' = res[3] /\ h' = res[4]
            /\ ret' = res[1]
            /\ pos' = IF res[1] = C!None THEN pos + n ELSE pos + res[1]
            /\ UNCHANGED <<data, p, start>>

Due == C!ChunkLen(data, start, p)

\* the interface says what the call has to return
FeedOk(n) == /\ ret' = C!FeedResult(start, pos, Due, n)
             /\ pos' = C!FeedPos(start, pos, Due, n)

\* only at a boundary: then nothing of the previous chunk must be left
Reset == /\ ret # C!None
         /\ start' = pos /\ ret' = C!None
         /\ fill' = 0 /\ size' = 0 /\ h' = 0 /\ UNCHANGED <<ring, data, p, pos>>

Step == \E n \in 0..C!Least(MaxPiece, Len(data) - pos) : Feed(n)
CheckedStep == \E n \in 0..C!Least(MaxPiece, Len(data) - pos) :
                  Feed(n) /\ Assert(FeedOk(n), <<"differs", data, p, start, pos, n>>)
Next == CheckedStep \/ Reset
Spec == Init /\ [][Next]_vars

\* the pieces put together are the data, in order, and boundaries are where the definition puts them
Starts == LET cs == C!Cut(data, 0, p) IN { cs[k][1] : k \in 1..Len(cs) } \cup {Len(data)}
StartOk == start \in Starts
RingOk == fill = Win => \A k \in 0..(Win-1) :
             LET q == size - 1 - ((size - 1 - k) % Win)   \* last index of the chunk that is k modulo Win
             IN ring[k] = data[start + q + 1]
SizeOk == size = pos - start
=============================================================================
