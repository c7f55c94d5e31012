------------------------------- MODULE MCCli -------------------------------
(***************************************************************************)
(* All command lines of casync up to some length over some words; what     *)
(* they mean is printed for replay.                                        *)
(***************************************************************************)
EXTENDS Cli, FiniteSets, TLC, Json
CONSTANTS Words, MaxLen
VARIABLES args
vars == <<args>>

Core == {"--store", "--seed", "--store=S3", "--seed-output", "--seed-output=no", "S1", "extract", "I", "T", "--", "--help"}
Odd == {"--st", "--sto=S3", "--se", "--see=S1", "--seed-", "--s", "--h", "--help=x", "-x", "-", "--foo", "", "--seed-o=no", "--store="}
All == Core \cup Odd

Init == args = <<>>
Next == Len(args) < MaxLen /\ \E w \in Words : args' = Append(args, w)
Spec == Init /\ [][Next]_vars

M == Casync(args)
\* word i is neither the argument of an option nor behind --
Plain(i) == \A j \in 1..(i - 1) : ~Starts(args[j], "--") \/ Equals(args[j]) # 0
\* an option in one word or in two
Joins == \A i \in 1..(Len(args) - 1) :
            (args[i] \in {"--store", "--seed", "--seed-output"} /\ M.v = "run" /\ Plain(i))
            => Casync(SubSeq(args, 1, i - 1) \o <<args[i] \o "=" \o args[i + 1]>> \o SubSeq(args, i + 2, Len(args))) = M
\* --seed-output does not matter
Ignored == \A i \in 1..Len(args) :
            (args[i] = "--seed-output=no" /\ M.v = "run" /\ Plain(i))
            => Casync(SubSeq(args, 1, i - 1) \o SubSeq(args, i + 1, Len(args))) = M
\* what runs has an extract, an index and a target, which come last; equivalent to csn
Runs == M.v = "run" => /\ \E i \in 1..Len(args) : args[i] = "extract"
                       /\ M.index = args[Len(args) - 1] /\ M.target = args[Len(args)]
                       /\ (M.stores # <<>> => Csn(<<M.index, M.target>> \o M.stores) = M)
Emit == PrintT("CASE" \o ToJson([args |-> args, m |-> M]))
=============================================================================
