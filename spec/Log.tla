-------------------------------- MODULE Log ---------------------------------
(***************************************************************************)
(* What a run reports.  The program makes messages, each with a severity;  *)
(* the log level (LOGLEVEL) selects the ones that are shown.  On a         *)
(* terminal, and unless everything is shown anyway, it displays how many   *)
(* of the entries it has dealt with.  Neither has an influence on what it  *)
(* does, and whoever sees it fail is told so.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Sevs == <<"ERR", "WRN", "INF", "DBG">>
Rank(s) == CHOOSE k \in 1..4 : Sevs[k] = s

\* what a value of LOGLEVEL ("unset": none) stands for
Level(v) == CASE v = "debug" -> 4
              [] v \in {"info", "unset"} -> 3
              [] v \in {"warn", "warning"} -> 2
              [] v \in {"err", "error"} -> 1
              [] OTHER -> 3
Known(v) == v \in {"debug", "info", "unset", "warn", "warning", "err", "error"}

Visible(lvl, m) == Rank(m.sev) <= lvl
Shown(lvl, ms) == SelectSeq(ms, LAMBDA m : Visible(lvl, m))

\* the display of progress: percentages, in the order shown, of a run over n entries
ProgressOk(ps, n, ok) ==
    /\ \A k \in 1..Len(ps) : ps[k] \in 0..100
    /\ \A k \in 1..Len(ps) - 1 : ps[k] <= ps[k + 1]
    /\ Len(ps) <= n
    /\ IF ok THEN Len(ps) = n /\ (n > 0 => ps[n] = 100)
       ELSE \A k \in 1..Len(ps) : ps[k] < 100

-----------------------------------------------------------------------------
(* a program: deals with n entries, making messages as it goes, and ends *)
CONSTANTS N, MaxMsgs
VARIABLES lvl, made, shown, done, disp, end
vars == <<lvl, made, shown, done, disp, end>>
Init == lvl \in 1..4 /\ made = <<>> /\ shown = <<>> /\ done = 0 /\ disp = <<>> /\ end = "no"
Make(m) == /\ end = "no" /\ Len(made) < MaxMsgs
           /\ made' = Append(made, m)
           /\ shown' = IF Visible(lvl, m) THEN Append(shown, m) ELSE shown
           /\ UNCHANGED <<lvl, done, disp, end>>
Deal == /\ end = "no" /\ done < N /\ done' = done + 1
        /\ disp' = IF lvl < 4 THEN Append(disp, (100 * (done + 1)) \div N) ELSE disp
        /\ UNCHANGED <<lvl, made, shown, end>>
Succeed == end = "no" /\ done = N /\ end' = "ok" /\ UNCHANGED <<lvl, made, shown, done, disp>>
Fail == /\ end = "no" /\ done < N /\ end' = "failed"
        /\ made' = Append(made, [sev |-> "ERR", id |-> 0])
        /\ shown' = Append(shown, [sev |-> "ERR", id |-> 0])
        /\ UNCHANGED <<lvl, done, disp>>
Next == (\E s \in {"ERR", "WRN", "INF", "DBG"} : Make([sev |-> s, id |-> Len(made) + 1])) \/ Deal \/ Succeed \/ Fail
Spec == Init /\ [][Next]_vars

Filtered == shown = Shown(lvl, made)
Told == end = "failed" => \E k \in 1..Len(shown) : shown[k].sev = "ERR"
Progress == end # "no" /\ lvl < 4 => ProgressOk(disp, N, end = "ok")
=============================================================================
