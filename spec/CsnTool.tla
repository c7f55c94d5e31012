------------------------------ MODULE CsnTool ------------------------------
(***************************************************************************)
(* csn-tool crypt: a directory tree and what invocations do to it.  Paths  *)
(* are sequences of bytes.  A content is some base content, XORed with the *)
(* key streams of a set of <<key, chunk id>> pairs; base 0 is empty.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Slash == 47
LastSlash(p) == FoldLeft(LAMBDA a, k : IF p[k] = Slash THEN k ELSE a, 0, [k \in 1..Len(p) |-> k])
BaseName(p) == SubSeq(p, LastSlash(p) + 1, Len(p))
DirName(p) == SubSeq(p, 1, LastSlash(p))                    \* with the slash; empty: the working directory
Cacnk == <<46, 99, 97, 99, 110, 107>>                       \* .cacnk
Enc == <<46, 101, 110, 99>>                                 \* .enc
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1

\* IdLen: number of digits of a chunk id
IsChunk(p, IdLen) == LET n == BaseName(p)
              IN /\ Len(n) \in {IdLen + Len(Cacnk), IdLen + Len(Cacnk \o Enc)}
                 /\ \A k \in 1..IdLen : Digit(n[k]) >= 0
                 /\ SubSeq(n, IdLen + 1, Len(n)) \in {Cacnk, Cacnk \o Enc}
\* only the first three quarters of an id select the key stream
NonceLen(IdLen) == (IdLen * 3 + 3) \div 4
IdOf(p, IdLen) == LET n == BaseName(p) IN [k \in 1..NonceLen(IdLen) |-> Digit(n[k])]
Derived(p) == IF SubSeq(p, (Len(p) - Len(Enc)) + 1, Len(p)) = Enc THEN SubSeq(p, 1, Len(p) - Len(Enc)) ELSE p \o Enc

Conv(c, key, id) == IF c.b = 0 THEN c
                    ELSE IF <<key, id>> \in c.k THEN [c EXCEPT !.k = @ \ {<<key, id>>}]
                    ELSE [c EXCEPT !.k = @ \cup {<<key, id>>}]

Derive == <<0>>     \* given in place of an output: it is derived
Stdout == <<45>>    \* -

\* one conversion in file system fs (path -> content) with directories dirs
\* -> [ok, fs, out (what appeared on standard output)]
OutOf(inp, outp) == IF outp = Derive THEN Derived(inp) ELSE outp
Fails(fs, out) == [ok |-> FALSE, fs |-> fs, out |-> out]
One(fs, dirs, key, inp, outp, out, IdLen) ==
    LET o == OutOf(inp, outp)
        c == Conv(fs[inp], key, IdOf(inp, IdLen))
    IN IF ~IsChunk(inp, IdLen) THEN Fails(fs, out)
       ELSE IF o # Stdout /\ (o \in DOMAIN fs \/ {o, o \o <<Slash>>} \cap dirs # {}) THEN [ok |-> TRUE, fs |-> fs, out |-> out]
       ELSE IF inp \notin DOMAIN fs THEN Fails(fs, out)
       ELSE IF o = Stdout THEN [ok |-> TRUE, fs |-> fs, out |-> Append(out, c)]
       ELSE IF DirName(o) \notin dirs \cup {<<>>} THEN Fails(fs, out)
       ELSE [ok |-> TRUE, fs |-> [p \in DOMAIN fs \cup {o} |-> IF p = o THEN c ELSE fs[p]], out |-> out]

\* items: <<input, output>> in order; bad: the items something goes wrong with at which they fail
All(fs, dirs, key, items, bad, IdLen) ==
    FoldLeft(LAMBDA r, n : IF ~r.ok THEN r
                           ELSE IF n \in bad THEN Fails(r.fs, r.out)
                           ELSE One(r.fs, dirs, key, items[n][1], items[n][2], r.out, IdLen),
             [ok |-> TRUE, fs |-> fs, out |-> <<>>], [n \in 1..Len(items) |-> n])
\* key 0: not a key; cut: the list of items cannot be read to its end
Invoke(fs, dirs, key, items, bad, cut, IdLen) ==
    LET r == All(fs, dirs, key, items, bad, IdLen)
    IN IF key = 0 THEN Fails(fs, <<>>) ELSE IF cut THEN Fails(r.fs, r.out) ELSE r
=============================================================================
