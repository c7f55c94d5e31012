------------------------------- MODULE Caibx -------------------------------
(***************************************************************************)
(* The reader of .caibx files, from bytes to the list of entries handed to *)
(* the extraction, and what a run does with it.  64-bit words are tuples   *)
(* of four 16-bit limbs, most significant first: TLC's integers are small  *)
(* and the arithmetic that matters is modulo 2^64.                         *)
(*                                                                         *)
(* A file is a sequence of bytes.  The chunks the (only) store can deliver *)
(* are given as pairs of an id and a length.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Sids,         \* names of the cases
          Bytes(_),     \* the file
          Chunks(_)     \* sequence of [id, len]: what the store has

VARIABLES sid, pc, n, i, last, got, prev, asked

vars == <<sid, pc, n, i, last, got, prev, asked>>

(* ------------------------------ words ------------------------------ *)
Limb == 65536
Zero == <<0, 0, 0, 0>>
FromInt(x) == <<0, 0, x \div Limb, x % Limb>>       \* x < 2^31
Small(w) == w[1] = 0 /\ w[2] = 0 /\ w[3] < 32768    \* fits a TLC integer
ToInt(w) == w[3] * Limb + w[4]
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, k) == IF k > 4 THEN FALSE
                     ELSE a[k] < b[k] \/ (a[k] = b[k] /\ LessFrom(a, b, k + 1))
Less(a, b) == LessFrom(a, b, 1)
\* a - b modulo 2^64
Minus(a, b) ==
    LET d4 == a[4] - b[4]
        d3 == a[3] - b[3] - (IF d4 < 0 THEN 1 ELSE 0)
        d2 == a[2] - b[2] - (IF d3 < 0 THEN 1 ELSE 0)
        d1 == a[1] - b[1] - (IF d2 < 0 THEN 1 ELSE 0)
    IN <<d1 % Limb, d2 % Limb, d3 % Limb, d4 % Limb>>
Max32 == <<0, 0, 65535, 65535>>

\* the little-endian word at byte offset o
Word(b, o) == << b[o+7] + 256*b[o+8], b[o+5] + 256*b[o+6], b[o+3] + 256*b[o+4], b[o+1] + 256*b[o+2] >>

(* ------------------------------ format ------------------------------ *)
HeaderLen == 48
TableHeaderLen == 16
EntryLen == 40
MinLen == HeaderLen + TableHeaderLen + EntryLen

IndexMagic == <<38530, 19868, 31506, 40953>>    \* 96824d9c7b129ff9
TableMagic == <<59227, 40465, 12055, 16765>>    \* e75b9e112f17417d
TailMagic  == <<19279, 1294, 21833, 60625>>     \* 4b4f050e5549ecd1

\* only the bits d000000000000000 may be set
FlagsOk(w) == /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0
              /\ w[1] % 4096 = 0
              /\ (w[1] \div 8192) % 2 = 0

B == Bytes(sid)

SizeOk == Len(B) >= MinLen /\ (Len(B) - MinLen) % EntryLen = 0
Entries == (Len(B) - MinLen) \div EntryLen

HeaderOk == /\ Word(B, 8) = IndexMagic
            /\ ~Less(Word(B, 0), FromInt(HeaderLen))
            /\ FlagsOk(Word(B, 16))
ParamsOk == LET mn == Word(B, 24)  av == Word(B, 32)  mx == Word(B, 40) IN
            Less(mn, av) /\ Less(av, mx) /\ ~Less(Max32, mx)
TableOk == Word(B, 56) = TableMagic
FooterOk == LET o == HeaderLen + TableHeaderLen + EntryLen * n IN
            /\ Word(B, o) = Zero
            /\ Word(B, o + 8) = Zero
            /\ Word(B, o + 16) = FromInt(HeaderLen)
            /\ Word(B, o + 24) = FromInt(TableHeaderLen + (n + 1) * EntryLen)
            /\ Word(B, o + 32) = TailMagic

EntryAt(k) == HeaderLen + TableHeaderLen + EntryLen * (k - 1)
EndOf(k) == Word(B, EntryAt(k))
IdOf(k) == SubSeq(B, EntryAt(k) + 9, EntryAt(k) + 40)
LenOf(k) == Minus(EndOf(k), last)
LenOk(w) == w # Zero /\ ~Less(Max32, w)

(* ------------------------------ the run ------------------------------ *)
BufSize == FromInt(262144)
C == Chunks(sid)
\* the length of what the store delivers for this id; -1: it does not have it
Stored(id) == IF \E k \in 1..Len(C) : C[k].id = id
              THEN C[CHOOSE k \in 1..Len(C) : C[k].id = id].len ELSE -1

Init == /\ sid \in Sids
        /\ pc = "size" /\ n = 0 /\ i = 1 /\ last = Zero
        /\ got = <<>> /\ prev = <<>> /\ asked = FALSE

Keep == UNCHANGED <<sid, i, last, got, prev, asked>>

Reject == pc' = "rejected" /\ UNCHANGED n /\ Keep

CheckSize == /\ pc = "size"
             /\ IF SizeOk THEN pc' = "header" /\ n' = Entries /\ Keep ELSE Reject
CheckHeader == /\ pc = "header"
               /\ IF HeaderOk THEN pc' = "params" /\ UNCHANGED n /\ Keep ELSE Reject
CheckParams == /\ pc = "params"
               /\ IF ParamsOk THEN pc' = "table" /\ UNCHANGED n /\ Keep ELSE Reject
CheckTable == /\ pc = "table"
              /\ IF TableOk THEN pc' = "footer" /\ UNCHANGED n /\ Keep ELSE Reject
CheckFooter == /\ pc = "footer"
               /\ IF FooterOk THEN pc' = "entry" /\ UNCHANGED n /\ Keep ELSE Reject

\* The runs modelled here have a local store, and an average size of 1 gives no
\* discriminator to scan it with: the run fails while setting up its stores.
Scannable == Word(B, 32) # FromInt(1)
CannotScan == /\ pc = "entry" /\ ~Scannable
              /\ pc' = "failed" /\ UNCHANGED <<sid, n, i, last, got, prev, asked>>

\* the next entry, if its length can be that of a chunk at all
ReadEntry ==
    /\ pc = "entry" /\ Scannable
    /\ IF i > n THEN pc' = "done" /\ UNCHANGED <<sid, n, i, last, got, prev, asked>>
       ELSE IF ~LenOk(LenOf(i))
       THEN pc' = "failed" /\ UNCHANGED <<sid, n, i, last, got, prev, asked>>
       ELSE pc' = "fetch" /\ asked' = FALSE /\ UNCHANGED <<sid, n, i, last, got, prev>>

\* the chunk is requested, unless it is the one just written
Ask == /\ pc = "fetch" /\ ~asked
       /\ prev # <<IdOf(i), LenOf(i)>>
       /\ asked' = TRUE
       /\ UNCHANGED <<sid, pc, n, i, last, got, prev>>

Deliverable == /\ ~Less(BufSize, LenOf(i))
               /\ Stored(IdOf(i)) = ToInt(LenOf(i))

\* the target holds nothing of the image to begin with: every chunk is written
Deliver ==
    /\ pc = "fetch" /\ (asked \/ prev = <<IdOf(i), LenOf(i)>>)
    /\ Deliverable
    /\ got' = Append(got, [off |-> last, len |-> LenOf(i), id |-> IdOf(i)])
    /\ prev' = <<IdOf(i), LenOf(i)>>
    /\ last' = EndOf(i) /\ i' = i + 1 /\ pc' = "entry"
    /\ UNCHANGED <<sid, n, asked>>

\* no such chunk; one that cannot be buffered may be refused without asking
GiveUp == /\ pc = "fetch" /\ ~Deliverable
          /\ asked \/ Less(BufSize, LenOf(i))
          /\ pc' = "failed"
          /\ UNCHANGED <<sid, n, i, last, got, prev, asked>>

Final == pc \in {"done", "failed", "rejected"}
Next == CheckSize \/ CheckHeader \/ CheckParams \/ CheckTable \/ CheckFooter
        \/ CannotScan \/ ReadEntry \/ Ask \/ Deliver \/ GiveUp
        \/ (Final /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
\* a rejected index leads to nothing
RejectedIsInert == pc = "rejected" => got = <<>> /\ ~asked

\* what is delivered lies end to end from 0, each piece of a representable length
Contiguous == \A k \in 1..Len(got) :
    /\ LenOk(got[k].len)
    /\ got[k].off = IF k = 1 THEN Zero ELSE EndOf(k - 1)
    /\ Minus(EndOf(k), got[k].off) = got[k].len
    /\ ~Less(EndOf(k), got[k].off)

\* success means all of the entries, as the format requires them
DoneIsAll == pc = "done" => /\ Len(got) = n
                            /\ SizeOk /\ HeaderOk /\ ParamsOk /\ TableOk /\ FooterOk
                            /\ \A k \in 1..n : got[k].id = IdOf(k)

\* nothing but the stages in order
TypeOk == pc \in {"size", "header", "params", "table", "footer", "entry", "fetch", "done", "failed", "rejected"}
=============================================================================
