-------------------------------- MODULE Url --------------------------------
(***************************************************************************)
(* HTTP stores: what the argument naming one means, and which URL a chunk  *)
(* has there.  Strings are sequences of bytes.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Hash == 35
Slash == 47
Comma == 44

\* position of the last c in s, 0 if there is none
LastOf(s, c) == FoldLeft(LAMBDA a, k : IF s[k] = c THEN k ELSE a, 0, [k \in 1..Len(s) |-> k])
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Fragment(arg) == LET k == LastOf(arg, Hash) IN IF k = 0 THEN <<>> ELSE SubSeq(arg, k + 1, Len(arg))
NoFragment(arg) == LET k == LastOf(arg, Hash) IN IF k = 0 THEN arg ELSE SubSeq(arg, 1, k - 1)
Base(arg) == LET b == NoFragment(arg)
             IN IF b # <<>> /\ b[Len(b)] = Slash THEN SubSeq(b, 1, Len(b) - 1) ELSE b

Encrypt == <<101, 110, 99, 114, 121, 112, 116, 61>>     \* encrypt=
\* parameters are separated by commas (there may be one at the end), and encrypt= is the only one there is.
\* Given several times, the last one counts.
FirstOf(s, c) == FoldRight(LAMBDA k, a : IF s[k] = c THEN k ELSE a, [k \in 1..Len(s) |-> k], 0)
RECURSIVE ParamsOk(_)
ParamsOk(f) == \/ f = <<>>
               \/ /\ Starts(f, Encrypt)
                  /\ LET k == FirstOf(f, Comma) IN k > 0 => ParamsOk(SubSeq(f, k + 1, Len(f)))
Encrypted(arg) == Starts(Fragment(arg), Encrypt)

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(id) == FlattenSeq([k \in 1..Len(id) |-> <<HexDigit(id[k] \div 16), HexDigit(id[k] % 16)>>])

Cacnk == <<46, 99, 97, 99, 110, 107>>                   \* .cacnk
Enc == <<46, 101, 110, 99>>                             \* .enc

Url(arg, id) == Base(arg) \o <<Slash>> \o Hex(SubSeq(id, 1, 2)) \o <<Slash>> \o Hex(id) \o Cacnk
                \o (IF Encrypted(arg) THEN Enc ELSE <<>>)

(***************************************************************************)
(* No two chunks share a URL, and the store a chunk belongs to shows: for  *)
(* all short bases and ids (of two bytes here).                            *)
(***************************************************************************)
Ids == { <<a, b>> : a, b \in {0, 1, 9, 10, 15, 16, 171, 255} }
Bases == { <<104>> \o s : s \in UNION { [1..n -> {97, Slash, Hash}] : n \in 0..3 } }
Injective == \A i, j \in Ids : i # j => Url(<<104>>, i) # Url(<<104>>, j)
OneSlash == \A b \in Bases : LET u == Url(b, <<18, 52>>) IN
    u = Base(b) \o <<47, 49, 50, 51, 52, 47, 49, 50, 51, 52>> \o Cacnk
ASSUME \A s \in UNION { [1..n -> {Comma, 120}] : n \in 0..4 } :
    ParamsOk(s) <=> s = <<>>
ASSUME \A s \in UNION { [1..n -> {Comma, 120}] : n \in 0..4 } :
    ParamsOk(Encrypt \o s) <=> \A k \in 1..Len(s) : s[k] = Comma => k = Len(s)
ASSUME ParamsOk(Encrypt \o <<120, Comma>> \o Encrypt) /\ ~ParamsOk(Encrypt \o <<120, Comma, Comma>> \o Encrypt)
ASSUME Injective
ASSUME OneSlash
=============================================================================
