------------------------------ MODULE CaibxGen ------------------------------
(***************************************************************************)
(* Index files derived from well-formed ones: words replaced (one or two   *)
(* at a time), bytes cut off or added, entries removed or repeated without *)
(* the footer following suit.  TLC runs the reader on all of them, checks  *)
(* the properties, and prints each file with the outcome for replay.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

VARIABLES sid, pc, n, i, last, got, prev, asked

\* chunk k has length 40 + 8 k and an id of 32 equal bytes
ChunkLen(k) == 40 + 8 * k
Le(w) == << w[4] % 256, w[4] \div 256, w[3] % 256, w[3] \div 256,
            w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256 >>
I(x) == <<0, 0, x \div 65536, x % 65536>>
IdBytes(k) == [j \in 1..32 |-> k]

IndexM == <<38530, 19868, 31506, 40953>>
TableM == <<59227, 40465, 12055, 16765>>
TailM == <<19279, 1294, 21833, 60625>>
Ones == <<65535, 65535, 65535, 65535>>

RECURSIVE EndSum(_)
EndSum(k) == IF k = 0 THEN 0 ELSE EndSum(k - 1) + ChunkLen(k)

\* the words of a well-formed index with m entries
BaseWords(m) ==
    << I(48), IndexM, <<45056 - 8192, 0, 0, 0>>, I(64), I(256), I(1024), Ones, TableM >>
    \o [k \in 1..m |-> I(EndSum(k))]
    \o << I(0), I(0), I(48), I(16 + (m + 1) * 40), TailM >>

\* 1..8 header and table header, 9..8+m ends of entries, then the footer
NWords(m) == 13 + m

Values == { I(0), I(1), I(47), I(48), I(49), I(64), I(255), I(256), I(257), I(1024), I(1025),
            I(56), I(96), I(136), I(176), I(40), I(88), I(89), I(104), I(152), I(153), I(262144), I(262145),
            <<0, 0, 32768, 0>>, <<0, 0, 65535, 65535>>, <<0, 1, 0, 0>>, <<0, 1, 0, 1>>, <<0, 1, 0, 48>>, <<0, 1, 0, 56>>,
            <<0, 1, 0, 96>>, <<0, 1, 0, 256>>, <<0, 1, 0, 257>>, <<0, 65535, 65535, 65535>>,
            <<1, 0, 0, 0>>, <<4096, 0, 0, 0>>, <<8192, 0, 0, 0>>, <<16384, 0, 0, 0>>, <<32768, 0, 0, 0>>,
            <<53248, 0, 0, 0>>, <<53248, 0, 0, 1>>, <<53248, 0, 1, 0>>, <<53248, 1, 0, 0>>, <<61440, 0, 0, 0>>,
            Ones, <<65535, 65535, 65535, 65534>>,
            IndexM, TableM, TailM,
            <<38530, 19868, 31506, 40952>>, <<38531, 19868, 31506, 40953>>,
            <<59227, 40465, 12055, 16764>>, <<59226, 40465, 12055, 16765>>,
            <<19279, 1294, 21833, 60624>>, <<19278, 1294, 21833, 60625>> }

\* a case: m entries, up to two words replaced, c bytes cut off (c < 0: added), d: entry removed (negative) or repeated
Case(m, ws, c, d) == [m |-> m, ws |-> ws, c |-> c, d |-> d]
None == <<>>

Singles == { Case(m, << <<w, v>> >>, 0, 0) : m \in 0..3, w \in 1..16, v \in Values }
Valid(x) == \A k \in 1..Len(x.ws) : x.ws[k][1] <= NWords(x.m)
Sizes == { Case(m, None, c, 0) : m \in 0..3, c \in -80..223 } \cup { Case(m, None, c, d) : m \in 1..3, c \in {0, 40, -40}, d \in {1, 2, 3, -1, -2, -3} }
SizeOkCase(x) == x.c <= 8 * NWords(x.m) + 32 * x.m /\ (x.d > 0 => x.d <= x.m) /\ (x.d < 0 => -x.d <= x.m)
Pairs == { Case(2, << <<w, v>>, <<u, z>> >>, 0, 0) : w \in {4, 5, 6, 9, 10}, u \in {5, 6, 10, 14}, v \in Values, z \in Values }

Part == IF "PART" \in DOMAIN IOEnv THEN IOEnv.PART ELSE "small"
Cases == { x \in Singles \cup Sizes \cup (IF Part = "all" THEN Pairs ELSE {}) : Valid(x) /\ SizeOkCase(x) }

RECURSIVE Put(_, _)
Put(q, ws) == IF ws = <<>> THEN q ELSE Put([q EXCEPT ![ws[1][1]] = ws[1][2]], Tail(ws))

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

FileOf(x) ==
    LET w == Put(BaseWords(x.m), x.ws)
        head == Flat([k \in 1..8 |-> Le(w[k])])
        ent(k) == Le(w[8 + k]) \o IdBytes(k)
        ks == IF x.d < 0 THEN SubSeq([k \in 1..x.m |-> k], 1, -x.d - 1) \o SubSeq([k \in 1..x.m |-> k], -x.d + 1, x.m)
              ELSE IF x.d > 0 THEN SubSeq([k \in 1..x.m |-> k], 1, x.d) \o SubSeq([k \in 1..x.m |-> k], x.d, x.m)
              ELSE [k \in 1..x.m |-> k]
        foot == Flat([k \in 1..5 |-> Le(w[8 + x.m + k])])
        all == head \o Flat([k \in 1..Len(ks) |-> ent(ks[k])]) \o foot
    IN IF x.c >= 0 THEN SubSeq(all, 1, Len(all) - x.c) ELSE all \o [k \in 1..(-x.c) |-> 0]

GenSids == TLCEval({ FileOf(x) : x \in Cases })
GenBytes(x) == x
GenChunks(x) == TLCEval([k \in 1..3 |-> [id |-> TLCEval(IdBytes(k)), len |-> ChunkLen(k)]])

M == INSTANCE Caibx WITH Sids <- GenSids, Bytes <- GenBytes, Chunks <- GenChunks

Spec == M!Spec
RejectedIsInert == M!RejectedIsInert
Contiguous == M!Contiguous
DoneIsAll == M!DoneIsAll
TypeOk == M!TypeOk
Out == M!Final => PrintT("CASE" \o ToJson([pc |-> pc, got |-> Len(got), n |-> n, b |-> sid]))
=============================================================================
