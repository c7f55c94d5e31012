------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* The same invocation, recorded with different log levels and standard    *)
(* output being a terminal or not.  The first recording shows everything   *)
(* (debug); what the others show must follow from it, and they must do the *)
(* same.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
L == INSTANCE Log WITH N <- 0, MaxMsgs <- 0, lvl <- 0, made <- <<>>, shown <- <<>>, done <- 0, disp <- <<>>, end <- ""
Raw == JsonDeserialize(IOEnv.TRACES)
VARIABLES sid, l
vars == <<sid, l>>
T == Raw[sid]
Ref == T.ev[1]
Init == sid \in 1..Len(Raw) /\ l = 1

\* every failure is reported, with an error or an explanation of the usage
Told(e) == e.rc \notin {0, 137} => \E k \in 1..Len(e.msgs) : e.msgs[k].sev = "ERR" \/ e.msgs[k].text
\* T.later: it can still fail once everything has been dealt with
Display(e) == IF ~e.tty \/ L!Level(e.level) = 4 THEN e.pcts = <<>> ELSE L!ProgressOk(e.pcts, T.n, e.rc = 0) \/ e.rc = 137 \/ T.n < 0 \/ (T.later /\ L!ProgressOk(e.pcts, T.n, TRUE))
Select(e) == LET lv == L!Level(e.level)
                 want == SelectSeq(Ref.msgs, LAMBDA m : m.text \/ L!Rank(m.sev) <= lv)
             IN IF L!Known(e.level) THEN e.msgs = want
                ELSE Len(e.msgs) > 0 /\ e.msgs[1].sev = "WRN" /\ Tail(e.msgs) = want
Same(e) == e.rc = Ref.rc /\ e.beh = Ref.beh
\* the statistics: what was asked for was answered by someone, and no more was asked for than necessary
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Stats(e) == \A k \in 1..Len(e.sum) :
              LET s == e.sum[k] IN /\ e.rc = 0
                                   /\ s.q + s.skipped <= T.n /\ Sum(s.hits) = s.q
                                   /\ Len(s.hits) = T.stores
\* amounts reported and the true ones
True(e) == \A k \in 1..Len(e.done) : e.done[k][1] = e.done[k][2]
Run == /\ l <= Len(T.ev)
       /\ LET e == T.ev[l] IN e.e = "run" /\ e.rc \in {0, 1, 137} /\ Told(e) /\ Display(e) /\ Select(e) /\ Same(e) /\ Stats(e) /\ True(e)
       /\ l' = l + 1 /\ UNCHANGED sid
Next == Run
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(T.ev) + 1 => PrintT(<<"ACC", sid>>))
          /\ ("DBG" \in DOMAIN IOEnv => PrintT(<<"AT", sid, l>>))
=============================================================================
