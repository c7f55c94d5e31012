------------------------------ MODULE Patchdd ------------------------------
(***************************************************************************)
(* patchdd: copies a source over the beginning of a destination, block by  *)
(* block, starting each block's write at its first difference.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Lesser(a, b) == IF a < b THEN a ELSE b
NBlocks(n, bs) == (n + (bs - 1)) \div bs
BlockEnd(b, n, bs) == Lesser((b + 1) * bs, n)
\* first: block -> offset of its first difference from the source (its end if there is none), n: size of the source.
\* A write of len bytes at off is confined to one block from its first difference on, or to several blocks if that
\* leaves out nothing in place before a first difference
InBlock(b, off, len, first, n, bs) == \/ len = 0
                                      \/ off >= first[b] /\ off + len <= BlockEnd(b, n, bs)
\* the part of a write that falls into block b
Allowed(off, len, first, n, bs) ==
    /\ off >= 0 /\ off + len <= n
    /\ \A b \in (off \div bs)..((off + len - 1) \div bs) :
         LET lo == IF off > b * bs THEN off ELSE b * bs
             hi == Lesser(off + len, (b + 1) * bs)
         IN lo < hi => lo >= first[b]

(***************************************************************************)
(* The algorithm, on bytes, with everything that can happen to it.         *)
(***************************************************************************)
CONSTANTS BS, Val, MaxSrc, MaxDst
VARIABLES src, dst, dst0, off, done, pc, synced, rc, last
vars == <<src, dst, dst0, off, done, pc, synced, rc, last>>

N == Len(src)
Seqs(m) == UNION { [1..k -> Val] : k \in 0..m }
End == BlockEnd(off \div BS, N, BS)
FirstIn(a, b, d) == LET D == { i \in (a + 1)..b : src[i] # d[i] }
                    IN IF D = {} THEN b ELSE (CHOOSE i \in D : \A j \in D : i <= j) - 1
First == [b \in 0..(NBlocks(N, BS) - 1) |-> IF Len(dst0) < N THEN N ELSE FirstIn(b * BS, BlockEnd(b, N, BS), dst0)]

Init == /\ src \in Seqs(MaxSrc) /\ dst \in Seqs(MaxDst) /\ dst0 = dst
        /\ off = 0 /\ done = 0 /\ pc = "open" /\ synced = FALSE /\ rc = -1 /\ last = <<0, 0>>

End1(r) == rc' = r /\ pc' = "end"
Open == /\ pc = "open"
        /\ IF Len(dst) < Len(src) THEN End1(1) ELSE pc' = "block" /\ UNCHANGED rc
        /\ UNCHANGED <<src, dst, dst0, off, done, synced, last>>
\* both pieces are read (short reads and interruptions do not show), and compared
Block == /\ pc = "block"
         /\ IF off < N THEN done' = FirstIn(off, End, dst) /\ pc' = "write"
            ELSE pc' = "sync" /\ UNCHANGED done
         /\ UNCHANGED <<src, dst, dst0, off, synced, rc, last>>
Write == /\ pc = "write" /\ done < End
         /\ \E k \in 1..(End - done) :
              /\ dst' = [i \in 1..Len(dst) |-> IF i > done /\ i <= done + k THEN src[i] ELSE dst[i]]
              /\ last' = <<done, k>>
              /\ done' = done + k
         /\ synced' = FALSE
         /\ UNCHANGED <<src, dst0, off, pc, rc>>
Advance == /\ pc = "write" /\ done >= End
           /\ off' = End /\ pc' = "block"
           /\ UNCHANGED <<src, dst, dst0, done, synced, rc, last>>
Sync == pc = "sync" /\ synced' = TRUE /\ pc' = "exit" /\ UNCHANGED <<src, dst, dst0, off, done, rc, last>>
Exit == pc = "exit" /\ End1(0) /\ UNCHANGED <<src, dst, dst0, off, done, synced, last>>
\* read, write and flush errors
Fail == pc \in {"block", "write", "sync"} /\ End1(1) /\ UNCHANGED <<src, dst, dst0, off, done, synced, last>>
Kill == pc # "end" /\ End1(137) /\ UNCHANGED <<src, dst, dst0, off, done, synced, last>>
Next == Open \/ Block \/ Write \/ Advance \/ Sync \/ Exit \/ Fail \/ Kill
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* C20                                                                     *)
(***************************************************************************)
Same(a, b, n) == \A i \in 1..n : a[i] = b[i]
SuccessMeansCopied == rc = 0 => Len(dst) >= N /\ Same(src, dst, N) /\ synced
RestUntouched == Len(dst) = Len(dst0) /\ \A i \in 1..Len(dst) : i > N => dst[i] = dst0[i]
OnlySource == \A i \in 1..Len(dst) : dst[i] = dst0[i] \/ (i <= N /\ dst[i] = src[i])
TooSmall == Len(dst0) < N => dst = dst0 /\ rc # 0
NothingInPlaceWritten == last[2] > 0 => Allowed(last[1], last[2], First, N, BS)
=============================================================================
