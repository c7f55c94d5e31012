------------------------------ MODULE Chunker ------------------------------
(***************************************************************************)
(* Content defined chunking, as a definition (where a chunk ends is a      *)
(* function of the data from its start on) and as the interface of the     *)
(* incremental chunker: data is fed in pieces, each call reports a         *)
(* boundary or that the whole piece was taken.                             *)
(*                                                                         *)
(* The rolling hash is a parameter: MCChunker uses a small perfect one to  *)
(* explore all data and all ways of feeding it, ChunkerTrace casync's.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS W,               \* size of the window
          H0,              \* hash of nothing
          In(_, _),        \* hash after a byte has entered a window that is not full
          Roll(_, _, _),   \* hash after a byte has left and another has entered
          Hit(_, _)        \* hash, discriminator: is this a boundary?

Least(a, b) == IF a < b THEN a ELSE b

\* p: [min, max, disc].  Is a chunk of n >= W bytes whose window hashes to h complete?
Break(p, n, h) == n >= p.max \/ (n >= p.min /\ Hit(h, p.disc))

\* Length of the chunk that starts behind the first s bytes of d, 0 if the data
\* ends first.  No chunk but the last is shorter than the window.
ChunkLen(d, s, p) ==
    LET rest == Len(d) - s
        fill == FoldLeft(LAMBDA h, k : In(h, d[s + k]), H0, [k \in 1..W |-> k])
        step(acc, k) ==     \* acc: <<length found or 0, hash of the window ending at k - 1>>
            IF acc[1] # 0 THEN acc
            ELSE LET h == Roll(acc[2], d[s + k - W], d[s + k])
                 IN <<IF Break(p, k, h) THEN k ELSE 0, h>>
    IN IF rest < W THEN 0
       ELSE IF Break(p, W, fill) THEN W
       ELSE FoldLeft(step, <<0, fill>>, [k \in 1..(Least(rest, IF p.max > W THEN p.max ELSE W) - W) |-> W + k])[1]

\* all of them: the remainder is the last chunk
RECURSIVE Cut(_, _, _)
Cut(d, s, p) ==
    IF s = Len(d) THEN <<>>
    ELSE LET n == ChunkLen(d, s, p)
             m == IF n = 0 THEN Len(d) - s ELSE n
         IN <<<<s, m>>>> \o Cut(d, s + m, p)

(***************************************************************************)
(* The interface.  A chunker has taken the bytes start+1..pos of its data  *)
(* since it was created or reset; due is where the chunk ends (0: not      *)
(* within the data).                                                       *)
(***************************************************************************)
None == -1

\* result of feeding the n next bytes
FeedResult(start, pos, due, n) ==
    IF due # 0 /\ start + due <= pos + n THEN start + due - pos ELSE None
FeedPos(start, pos, due, n) ==
    IF FeedResult(start, pos, due, n) = None THEN pos + n ELSE start + due
=============================================================================
