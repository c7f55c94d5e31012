------------------------------ MODULE CsnTrace ------------------------------
(***************************************************************************)
(* Trace validation: is every recorded run of the real program a behaviour *)
(* of Csn?  The file named by the environment variable TRACES holds a JSON *)
(* array of [scn, ev]: the scenario that was set up and the events that    *)
(* were observed.  A trace is accepted if all of its events can be taken   *)
(* in order by actions of Csn, with only silent steps in between.          *)
(* Accepted traces are printed as ACC; DBG=1 also prints progress.         *)
(***************************************************************************)
EXTENDS Csn, TLC, Json, IOUtils

Raw == JsonDeserialize(IOEnv.TRACES)

ToSet(q) == { q[i] : i \in 1..Len(q) }

\* JSON has no sets: brk arrives as a sequence
FixPlaces(m) == [i \in 1..Len(m) |-> [o \in 1..Len(m[i]) |->
                    [st |-> m[i][o].st, brk |-> ToSet(m[i][o].brk)]]]
FixStore(s) == [t |-> s.t, sl |-> s.sl, scanerr |-> s.scanerr, shr |-> s.shr,
                claims |-> FixPlaces(s.claims), occ |-> FixPlaces(s.occ)]
FixRun(r) == [initfail |-> r.initfail, mayfail |-> r.mayfail, idxerr |-> r.idxerr, idxmay |-> r.idxmay, trd |-> ToSet(r.trd),
              stores |-> [k \in 1..Len(r.stores) |-> FixStore(r.stores[k])]]
TraceScenarios ==
    [n \in 1..Len(Raw) |->
        [entries |-> Raw[n].scn.entries,
         prior   |-> Raw[n].scn.prior,
         runs    |-> [r \in 1..Len(Raw[n].scn.runs) |-> FixRun(Raw[n].scn.runs[r])]]]

TraceSids == 1..Len(Raw)
TraceScn(n) == TraceScenarios[n]

VARIABLE l      \* next event

Ev == Raw[sid].ev
More == l <= Len(Ev)
Ln == Ev[l]
Is(e) == More /\ Ln.e = e /\ l' = l + 1

\* stores whose data was read for the chunk of this event must have been asked
LooksOk == ToSet(Ln.lk) \subseteq asked

TReq == /\ Is("req") /\ Ln.k = si /\ pc = "ask" /\ Ln.id = E.id
        /\ \E o \in IF Ln.o = "badany" THEN {"badsum", "baddata"} ELSE {Ln.o} \cap Outcomes :
              Attempt(o)
TSleep == Is("sleep") /\ pc = "pause" /\ Ln.ms = Backoff(tries) /\ Pause
\* a pause nothing depends on any more need not happen
TNoSleep == /\ pc = "pause" /\ tries = Tries /\ ~(More /\ Ln.e = "sleep")
            /\ Pause /\ UNCHANGED l
TWrite == Is("write") /\ Ln.s = pos /\ Ln.v = last /\ LooksOk /\ Write
TWriteErr == Is("werr") /\ Ln.s = pos /\ LooksOk /\ WriteError(Ln.v)
TTorn == Is("torn") /\ Ln.s = pos /\ LooksOk /\ KillWriting(Ln.v)
TKill == Is("kill") /\ IF status = "killed" THEN UNCHANGED vars ELSE Kill
TMutT == Is("mutT") /\ TargetChanges(Ln.s, Ln.v)
TMutS == Is("mutS") /\ StoreChanges({ <<p[1], p[2], p[3], p[4]>> : p \in ToSet(Ln.pl) })
\* the end of a run: exit status, final content of the target, nothing else touched
TExit == /\ Is("exit")
         /\ \/ status = "ok" /\ Ln.rc = 0
            \/ status = "fail" /\ Ln.rc = 1
            \/ status = "killed" /\ Ln.rc = 137
         /\ status = "killed" \/ LooksOk
         /\ tgt = Ln.fin
         /\ Ln.clean
         /\ IF run < Len(S.runs) THEN Restart ELSE UNCHANGED vars

TraceInit == Init /\ l = 1
TraceNext == \/ TReq \/ TSleep \/ TNoSleep \/ TWrite \/ TWriteErr \/ TTorn \/ TKill
             \/ TMutT \/ TMutS \/ TExit
             \/ Silent /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>

Report == /\ (l = Len(Ev) + 1 => PrintT(<<"ACC", sid>>))
          /\ ("DBG" \in DOMAIN IOEnv => PrintT(<<"AT", sid, l, pc, status, pos, si, tries>>))

\* the properties, in every state of every recorded run
SafeExit == status = "ok" => \A p \in 1..N : IsPresent(tgt, p) \/ \E q \in 1..Len(Ev) : Ev[q].e = "mutT"
=============================================================================
