---------------------------- MODULE HttpBodyGen -----------------------------
(* Every way to cut the bodies into pieces, printed for replay: 0 stands    *)
(* for an attempt that breaks off after the pieces before.                  *)
EXTENDS HttpBody, HttpBodyCases, Json, IOUtils
WantAB == <<A, B>>
Full == IF "FULLLEN" \in DOMAIN IOEnv THEN atoi(IOEnv.FULLLEN) ELSE 10
Cuts == IF "CUTS" \in DOMAIN IOEnv THEN atoi(IOEnv.CUTS) ELSE 2

VARIABLE h
GInit == Init /\ ~enc /\ h = <<>>
L == Len(Bodies[body].b)
Parts(s) == Len(SelectSeq(s, LAMBDA x : x # 0))
Room == IF breaks = 0 THEN L <= Full \/ Len(h) <= Cuts ELSE Parts(h) <= Cuts
GPiece(n) == /\ breaks = 0 /\ L > Full /\ Len(h) >= Cuts => del + n = L
             /\ breaks > 0 /\ Parts(h) >= Cuts => del + n = L
             /\ Piece(n) /\ h' = Append(h, n)
\* where the decoder reports an error may be earlier than here: no attempt breaks off in such a body
Sound == HasMagic(Bodies[body].b) /\ All(Dec0, <<>>, Bodies[body].b).d.ph # "err"
GBreak == Break /\ Sound /\ Len(h) \in 1..Cuts /\ h' = Append(h, 0)
Say == PrintT("CASE" \o ToJson([body |-> body, h |-> h, o |-> res']))
GNext == \/ \E n \in 1..L : GPiece(n)
         \/ GBreak
         \/ (End /\ UNCHANGED h)
         \/ (Judge /\ Say /\ UNCHANGED h)
GSpec == GInit /\ [][GNext]_<<vars, h>>
BodiesOut == PrintT("BODIES" \o ToJson([k \in 1..Len(AllBodies) |-> [b |-> AllBodies[k].b, st |-> AllBodies[k].st, o |-> Outcome(AllBodies[k])]]))
ASSUME BodiesOut
=============================================================================
