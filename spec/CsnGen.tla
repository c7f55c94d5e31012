------------------------------- MODULE CsnGen -------------------------------
(***************************************************************************)
(* Behaviours of Csn as test cases.  Every complete behaviour - scenario,  *)
(* choices of the environment, and what the program is bound to do - is    *)
(* printed (GEN).  The choices are then imposed on the real program and    *)
(* what it does is compared with the behaviour.                            *)
(***************************************************************************)
EXTENDS MCCsn, Json, Randomization

CONSTANTS
    SimLens, SimStores, SimCount    \* for random scenarios

VARIABLES h     \* what can be seen from outside, so far

gvars == <<allvars, h>>

GScn(es, p, ss) == [entries |-> es, prior |-> p, names |-> <<ss, SecondRun>>,
                    runs |-> Scn(es, p, ss).runs]

HistInit == /\ asks = {} /\ dropped = {} /\ wrote = {} /\ meddled = FALSE
            /\ dl = [i \in AllIds |-> 0]
            /\ prefix0 = 0 /\ h = <<>>

\* all scenarios of the catalogue
GenInit == /\ \E es \in EntSeqs : \E p \in Priors(es) : \E ss \in StoreSeqs : InitWith(GScn(es, p, ss))
           /\ HistInit

\* random ones, larger
SimInit ==
    /\ \E q \in 1..SimCount : \E n \in {RandomElement(SimLens)} :
         \E es \in {TLCEval([i \in 1..n |-> MkE(RandomElement(Ent))])} :
         \E c \in {RandomElement(0..n)} : \E z \in {TLCEval({i \in 1..n : RandomElement({1, 2, 3}) = 1})} :
         \E m \in {RandomElement(SimStores)} :
         \E ss \in {TLCEval([k \in 1..m |-> RandomElement(StoreCat)])} :
           InitWith(GScn(es, [i \in 1..n |-> IF es[i].fits /\ es[i].k = "ok" /\ (i <= c \/ i \in z)
                                             THEN es[i].id ELSE 0],
                         [k \in 1..(m + 1) |-> IF k <= m THEN ss[k] ELSE "good"]))
    /\ HistInit

Note(e) == h' = Append(h, e)
Quiet == UNCHANGED <<asks, dl, prefix0, dropped, wrote, meddled>>

\* kills only at moments that can be hit from outside
GenNext == Quiet /\
    \/ Silent /\ (IF status' # status THEN Note(<<"end", status'>>) ELSE UNCHANGED h)
    \/ \E o \in Outcomes : pc = "ask" /\ si <= NS /\ o \in St(si).can /\ Attempt(o)
            /\ h' = Append(h, <<"req", si, E.id, o>>) \o (IF status' # status THEN <<<<"end", status'>>>> ELSE <<>>)
    \/ Pause /\ Note(<<"sleep", Backoff(tries)>>)
    \/ Write /\ Note(<<"write", pos, last>>)
    \/ Restart /\ Note(<<"restart">>)
    \/ "kill" \in Faults /\ run = 1 /\ Writing /\ \E c \in TornContent : KillWriting(c) /\ Note(<<"torn", pos, c>>)
    \/ "kill" \in Faults /\ run = 1 /\ AskingOf("http") /\ Kill /\ Note(<<"kill">>)
    \/ "werr" \in Faults /\ run = 1 /\ Writing /\ \E c \in TornContent : WriteError(c) /\ Note(<<"werr", pos, c>>)

GenSpec == GenInit /\ [][GenNext]_gvars
SimSpec == SimInit /\ [][GenNext]_gvars

Done == status # "run" /\ run = Len(S.runs)
Out == Done => PrintT(<<"GEN", ToJson([entries |-> S.entries, prior |-> S.prior, names |-> S.names, h |-> h,
                                       status |-> status, fin |-> tgt])>>)
=============================================================================
