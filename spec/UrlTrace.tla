------------------------------ MODULE UrlTrace ------------------------------
(***************************************************************************)
(* Recorded runs with one HTTP store: the URLs asked for are those of the  *)
(* entries, in order; entries that need not be retrieved may be left out,  *)
(* and a URL may be asked for several times in a row (retries).            *)
(***************************************************************************)
EXTENDS Url, TLC, Json, IOUtils

Raw == JsonDeserialize(IOEnv.TRACES)
VARIABLES sid, l, at
vars == <<sid, l, at>>
T == Raw[sid]
Ln == T.ev[l]

Init == sid \in 1..Len(Raw) /\ l = 1 /\ at = 0

\* the next URL is the same again or that of the next entry that is another chunk (or not)
Req == /\ l <= Len(T.ev) /\ Ln.e = "req" /\ ParamsOk(Fragment(T.arg))
       /\ \E k \in (IF at = 0 THEN {1} ELSE at..Len(T.ids)) :
              /\ \A j \in (at + 1)..(k - 1) : T.ids[j] = T.ids[at]
              /\ Ln.url = Url(T.arg, T.ids[k]) /\ at' = k
       /\ l' = l + 1 /\ UNCHANGED sid
\* with good parameters (and keys) the run succeeds if the store has the chunks
Exit == /\ l <= Len(T.ev) /\ Ln.e = "exit"
        /\ Ln.rc = IF ParamsOk(Fragment(T.arg)) /\ T.have THEN 0 ELSE 1
        /\ ~ParamsOk(Fragment(T.arg)) => at = 0
        /\ l' = l + 1 /\ UNCHANGED <<sid, at>>
Next == Req \/ Exit
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(T.ev) + 1 => PrintT(<<"ACC", sid>>))
          /\ ("DBG" \in DOMAIN IOEnv => PrintT(<<"AT", sid, l, at>>))
=============================================================================
