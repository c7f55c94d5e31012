--------------------------- MODULE HttpBodyCases ----------------------------
(* The bodies that are considered: a chunk <<65, 66>> in all its disguises. *)
EXTENDS Integers, Sequences

A == 65
B == 66
Z == <<40, 181, 47, 253>>
Raw(d) == Z \o <<32, Len(d)>> \o <<8 * Len(d) + 1, 0, 0>> \o d        \* one frame, one raw block, content size
Wd(d) == Z \o <<0, 0>> \o <<8 * Len(d) + 1, 0, 0>> \o d               \* no content size
Two == Z \o <<32, 2, 8, 0, 0, A, 9, 0, 0, B>>                          \* two blocks
Rle == Z \o <<32, 2, 10, 0, 0, A, 11, 0, 0, B>>                        \* two RLE blocks of one byte
Lazy == Z \o <<32, 2, 16, 0, 0, A, B, 1, 0, 0>>                        \* an empty last block
Skip(n) == <<80 + n, 42, 77, 24, n, 0, 0, 0>> \o [k \in 1..n |-> 7]
Empty == Z \o <<32, 0, 1, 0, 0>>
X(b) == [b |-> b, st |-> 200]

Right == << X(Raw(<<A, B>>)), X(Wd(<<A, B>>)), X(Two), X(Rle), X(Lazy),
            X(Raw(<<A>>) \o Raw(<<B>>)), X(Wd(<<A>>) \o Raw(<<B>>)),
            X(Raw(<<A, B>>) \o Skip(0)), X(Raw(<<A, B>>) \o Skip(2)), X(Raw(<<A>>) \o Skip(1) \o Raw(<<B>>)),
            X(Empty \o Raw(<<A, B>>)), X(Raw(<<A, B>>) \o Empty) >>
Wrong == << X(Raw(<<A, A>>)), X(Raw(<<A>>)), X(Raw(<<A, B, B>>)), X(Raw(<<A, B>>) \o Raw(<<A, B>>)), X(Raw(<<A, B>>) \o Raw(<<B>>)),
            X(Raw(<<A, B>>) \o <<0, 0, 0, 0, 0, 0>>), X(Raw(<<A, B>>) \o <<40, 181, 47, 252, 0, 0>>),
            X(Z \o <<32, 3, 17, 0, 0, A, B>>), X(Z \o <<32, 2, 23, 0, 0, A, B>>), X(Z \o <<40, 2, 17, 0, 0, A, B>>),
            X(Empty), X(Empty \o Empty), X(<<>>), X(<<40>>), X(<<40, 181, 47>>), X(Z), X(<<A, B>>), X(<<A, B, A, B>>), X(<<40, 181, 47, 252, 32, 2, 17, 0, 0, A, B>>),
            X(<<0>> \o Raw(<<A, B>>)) >>
Cut == [k \in 1..9 |-> X(SubSeq(Raw(<<A, B>>), 1, k))] \o [k \in 1..13 |-> X(SubSeq(Two, 1, k))]
           \o [k \in 1..9 |-> X(SubSeq(Raw(<<A>>) \o Raw(<<B>>), 1, 10 + k - 1))]
Refused == [k \in 1..9 |-> [b |-> Raw(<<A, B>>), st |-> <<201, 204, 206, 304, 404, 410, 403, 500, 503>>[k]]]

AllBodies == Right \o Wrong \o Cut \o Refused
=============================================================================
