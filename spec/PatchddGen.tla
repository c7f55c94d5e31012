---------------------------- MODULE PatchddGen -----------------------------
(***************************************************************************)
(* Situations for patchdd: contents in units of a quarter of a block (BS=4)*)
(* and one thing that happens.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS MaxSrc
\* a unit of the destination: the same as the source's, or different
Dsts == UNION { [1..k -> {0, 1}] : k \in 0..MaxSrc }
Acts == {<<"none", "w", 1, 0>>} \cup
        { <<a, o, n, k>> : a \in {"short", "eintr", "err", "kill"}, o \in {"s", "d", "w"}, n \in 1..3, k \in {0, 1, 2} }
Sensible(x) == (x[1] = "short" => x[4] > 0) /\ (x[1] \in {"eintr", "err"} => x[4] = 0) /\ (x[1] = "kill" => x[2] = "w")
VARIABLES d, a, s, x
\* s: units of the source, x: units the destination has more (or less)
Init == d \in Dsts /\ a \in { y \in Acts : Sensible(y) } /\ s = Len(d) /\ x \in {0, 1, -1}
Next == UNCHANGED <<d, a, s, x>>
Spec == Init /\ [][Next]_<<d, a, s, x>>
Emit == PrintT("CASE" \o ToJson([d |-> d, a |-> a, x |-> x]))
=============================================================================
