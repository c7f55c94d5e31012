------------------------------- MODULE MCSha -------------------------------
(* ShaBackend, and its complete histories for replay *)
EXTENDS ShaBackend, TLC, Json
Emit == (mode = mode /\ phase = "idle" /\ cur.n = MaxCalls) => PrintT("CASE" \o ToJson([h |-> hist]))
=============================================================================
