----------------------------- MODULE CsnToolGen -----------------------------
(***************************************************************************)
(* Prints random histories of MCCsnTool for replay.                        *)
(***************************************************************************)
EXTENDS MCCsnTool, Json
VARIABLE hist, first
gvars == <<vars, hist, first>>

GInit == Init /\ hist = <<>> /\ first = fs
GRun(key, it, bad, cut) == /\ Run(key, it, bad, cut)
                           /\ hist' = Append(hist, [key |-> key, items |-> it, bad |-> bad, cut |-> cut])
                           /\ UNCHANGED first
GNext == \/ \E key \in Keys \cup {0}, i \in Ins, o \in Outs, bad \in SUBSET {1} : GRun(key, <<<<i, o>>>>, bad, FALSE)
         \/ \E key \in Keys, i, j \in Ins, bad \in {{}, {2}}, cut \in BOOLEAN : GRun(key, <<<<i, Derive>>, <<j, Derive>>>>, bad, cut)
GSpec == GInit /\ [][GNext]_gvars
Files(f) == [n \in 1..Cardinality(DOMAIN f) |-> LET p == SetToSeq(DOMAIN f)[n] IN [p |-> p, b |-> f[p].b]]
Emit == runs = MaxRuns => PrintT("CASE" \o ToJson([first |-> Files(first), hist |-> hist]))
=============================================================================
