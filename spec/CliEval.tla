------------------------------ MODULE CliEval ------------------------------
(***************************************************************************)
(* What the command lines of a file mean.                                  *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils
VARIABLE n
Raw == JsonDeserialize(IOEnv.TRACES)
Init == n \in 1..Len(Raw)
Spec == Init /\ [][UNCHANGED n]_n
Emit == PrintT("CASE" \o ToJson([n |-> n, m |-> Meaning(Raw[n].argv0, Raw[n].args)]))
=============================================================================
