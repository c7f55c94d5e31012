------------------------------- MODULE MCCsn -------------------------------
(***************************************************************************)
(* Exhaustive checking of Csn: every scenario built from a small catalogue *)
(* of indices, prior target contents and stores, with every behaviour of   *)
(* the environment the stores allow.  History variables only record what   *)
(* the properties talk about.                                              *)
(***************************************************************************)
EXTENDS Csn, TLC, SequencesExt, FiniteSetsExt

CONSTANTS
    Ent,        \* set of entry tuples <<id, kind, fits>> indices are made of
    MaxLen,     \* longest index
    StoreCat,   \* set of names of stores
    MaxStores,
    SecondRun,  \* names of the stores of a second run (<<>>: no second run)
    Faults      \* what may happen: subset of {"kill","werr","mutT","mutS","trd"}

VARIABLES
    asks,       \* <<store, entry>> pairs: requests and look-ups in this run
    dl,         \* id -> completed downloads in this run
    prefix0,    \* length of the prefix when the run started
    dropped,    \* stores given up in this run
    wrote,      \* slots written in this run
    meddled     \* somebody else has written to the target

hist == <<asks, dl, prefix0, dropped, wrote, meddled>>
allvars == <<vars, hist>>

\* values for the constants above
EntPlain == {<<1, "ok", TRUE>>, <<2, "ok", TRUE>>}
EntThree == {<<1, "ok", TRUE>>, <<2, "ok", TRUE>>, <<3, "ok", TRUE>>}
EntSim   == {<<i, "ok", TRUE>> : i \in 1..4}
EntOne   == {<<1, "ok", TRUE>>}
EntOdd   == {<<1, "ok", TRUE>>, <<1, "ok", FALSE>>, <<2, "big", TRUE>>, <<2, "bad", TRUE>>}
NoRun    == <<>>
BadOnly  == <<"weird">>
GoodRun  == <<"target", "good">>

MkE(t) == [id |-> t[1], k |-> t[2], fits |-> t[3]]
EntSeqs == UNION { [1..n -> {MkE(t) : t \in Ent}] : n \in 0..MaxLen }
AllIds == {t[1] : t \in Ent}
MaxId == Max(AllIds)

None == [i \in 1..MaxId |-> <<>>]
P(st) == <<[st |-> st, brk |-> {}]>>
Only(i, x) == [None EXCEPT ![i] = x]

\* catalogue of stores; "sure": ids this store certainly delivers when asked
Base == [t |-> "local", sl |-> FALSE, scanerr |-> FALSE, shr |-> FALSE, claims |-> None, occ |-> None,
         can |-> {}, sure |-> {}]
Cat == [
  good   |-> [Base EXCEPT !.t = "http", !.can = {"ok"}, !.sure = AllIds],
  late   |-> [Base EXCEPT !.t = "http", !.can = {"ok", "conn"}],
  flaky  |-> [Base EXCEPT !.t = "http", !.can = {"ok", "err", "conn"}],
  weird  |-> [Base EXCEPT !.t = "http", !.can = {"miss", "badsum", "baddata", "fatal"}],
  counts |-> [Base EXCEPT !.t = "http", !.can = {"ok", "err", "conn", "miss", "badsum", "baddata"}],
  errs   |-> [Base EXCEPT !.t = "http", !.can = {"err"}],
  shaky  |-> [Base EXCEPT !.t = "http", !.can = {"ok", "err"}],
  empty  |-> [Base EXCEPT !.t = "http", !.can = {"miss"}],
  target |-> [Base EXCEPT !.t = "target"],
  seed1  |-> [Base EXCEPT !.occ = Only(1, P("ok")), !.sure = {1}],
  seedio |-> [Base EXCEPT !.occ = [Only(1, P("eio")) EXCEPT ![MaxId] = P("ok")]],
  both   |-> [Base EXCEPT !.occ = [i \in 1..MaxId |-> P("ok")], !.sure = AllIds],
  side   |-> [Base EXCEPT !.sl = TRUE, !.claims = Only(1, P("ok")),
                          !.occ = Only(1, P("ok"))],
  stale  |-> [Base EXCEPT !.sl = TRUE, !.claims = [i \in 1..MaxId |-> P("wrong")],
                          !.occ = [i \in 1..MaxId |-> P("ok")], !.sure = AllIds],
  liar   |-> [Base EXCEPT !.sl = TRUE, !.claims = Only(1, P("big")), !.scanerr = TRUE],
  shared |-> [Base EXCEPT !.occ = Only(1, <<[st |-> "ok", brk |-> {1}], [st |-> "ok", brk |-> {2}]>>)]
]

StoreSeqs == UNION { [1..n -> StoreCat] : n \in 1..MaxStores }
MkRun(ss) == [initfail |-> FALSE, mayfail |-> FALSE, idxerr |-> 0, idxmay |-> FALSE, trd |-> {}, stores |-> [k \in 1..Len(ss) |-> Cat[ss[k]]]]

Priors(es) == { p \in [1..Len(es) -> {0} \cup AllIds] :
                  \A i \in 1..Len(es) : p[i] = 0 \/ (p[i] = es[i].id /\ es[i].fits /\ es[i].k = "ok") }

\* an index in which 1 and 2 alternate, for counting failures
Alternate == { [n \in 1..MaxLen |-> MkE(<<IF n % 2 = 0 THEN 2 ELSE 1, "ok", TRUE>>)] }
StopSeqs == { <<x, "good">> : x \in StoreCat } \cup { <<x>> : x \in StoreCat }

Scn(es, p, ss) == [entries |-> es, prior |-> p,
                   runs |-> IF SecondRun = <<>> THEN <<MkRun(ss)>> ELSE <<MkRun(ss), MkRun(SecondRun)>>]
NoSids == {}
Itself(s) == s

-----------------------------------------------------------------------------
NewRun == run' # run

MCInit == /\ \E es \in EntSeqs : \E p \in Priors(es) : \E ss \in StoreSeqs :
             \E td \in (IF "trd" \in Faults THEN SUBSET (1..Len(es)) ELSE {{}}) :
                InitWith([Scn(es, p, ss) EXCEPT !.runs[1].trd = td])
          /\ asks = {} /\ dropped = {} /\ wrote = {} /\ meddled = FALSE
          /\ dl = [i \in AllIds |-> 0]
          /\ prefix0 = PrefixLen(tgt)

\* fixed long index, nothing in place
CountInit == /\ \E es \in Alternate : \E ss \in StopSeqs : InitWith(Scn(es, [i \in 1..Len(es) |-> 0], ss))
             /\ asks = {} /\ dropped = {} /\ wrote = {} /\ meddled = FALSE
             /\ dl = [i \in AllIds |-> 0]
             /\ prefix0 = 0
View == vars

Env == \/ \E o \in Outcomes : pc = "ask" /\ si <= NS /\ o \in St(si).can /\ Attempt(o)
       \/ Pause
       \/ Write
       \/ Restart
       \/ "kill" \in Faults /\ (Kill \/ (Writing /\ \E c \in TornContent : KillWriting(c)))
       \/ "werr" \in Faults /\ run = 1 /\ Writing /\ \E c \in TornContent : WriteError(c)
       \/ "mutT" \in Faults /\ ~meddled /\ \E s \in 1..N : tgt[s] # 0 /\ TargetChanges(s, 0)
       \/ "mutS" \in Faults /\ broken = {} /\ \E k \in 1..NS, i \in AllIds :
              St(k).t = "local" /\ StoreChanges({<<x, k, i, 1>> : x \in {"c", "o"}})

\* requests are what counts as asking an http store; looks for the others
AskedNow == pc = "ask" /\ si <= NS /\ active[si]
            /\ (St(si).t # "http" \/ tries' # tries \/ si' # si \/ pc' # pc \/ status' # status)

MCNext ==
    /\ Silent \/ Env
    /\ asks' = IF NewRun THEN {} ELSE IF AskedNow THEN asks \cup {<<si, pos>>} ELSE asks
    /\ dl' = IF NewRun THEN [i \in AllIds |-> 0]
             ELSE IF AskedNow /\ St(si).t = "http" /\ (pc' = "write" \/ status' = "fail")
                  THEN [dl EXCEPT ![E.id] = @ + 1] ELSE dl
    /\ prefix0' = IF NewRun THEN PrefixLen(tgt') ELSE prefix0
    /\ dropped' = IF NewRun THEN {} ELSE {k \in 1..NS : ~active'[k]}
    /\ wrote' = IF NewRun THEN {} ELSE written'
    /\ meddled' = (meddled \/ (tgt' # tgt /\ pos' = pos /\ status' = "run"))

MCSpec == MCInit /\ [][MCNext]_allvars /\ WF_allvars(MCNext)
CountSpec == CountInit /\ [][MCNext]_allvars
MCSpecQ == MCInit /\ [][MCNext]_allvars

-----------------------------------------------------------------------------
(* The properties *)

TypeOK ==
    /\ status \in {"run", "ok", "fail", "killed"}
    /\ pc \in {"init", "entry", "ask", "pause", "write"}
    /\ pos \in 1..(N + 1) /\ si \in 1..(NS + 1) /\ tries \in 0..Tries
    /\ \A k \in 1..NS : errs[k] \in 0..(ErrMax + 1)

\* C01
SuccessMeansImage == status = "ok" /\ ~meddled => \A p \in 1..N : IsPresent(tgt, p)

\* C02: the only change a run makes to a slot is to the chunk of its entry,
\* or part of such a write
OnlyVerified ==
    [][\A p \in 1..Len(tgt) : (tgt'[p] # tgt[p] /\ ~meddled') =>
          \/ tgt'[p] = S.entries[p].id /\ S.entries[p].fits /\ p = pos /\ pc = "write"
          \/ tgt'[p] = 0 /\ p = pos /\ pc = "write" /\ status' # "run"]_allvars

\* C03: the prefix never shrinks, whatever happens; and grows with every obtained chunk
PrefixGrows == [][~meddled' => PrefixLen(tgt') >= PrefixLen(tgt)]_allvars
WriteExtends == [][(Writing /\ pos' = pos + 1 /\ ~meddled) => PrefixLen(tgt') >= pos]_allvars
E0(p) == S.entries[p].k = "ok" /\ S.entries[p].fits
\* a second run with good stores completes whatever the first one left
Completed == (run = 2 /\ status # "run" /\ ~meddled /\ \A p \in 1..N : E0(p)) => status \in {"ok", "killed"}

\* C04
Unreadable(p) == \E q \in R.trd : q <= p
PrefixUntouched == /\ \A a \in asks : a[2] > prefix0 \/ meddled \/ Unreadable(a[2])
                   /\ \A w \in wrote : w > prefix0 \/ meddled \/ Unreadable(w)

\* C05
AskInOrder ==
    \A a \in asks : \A k \in 1..(a[1] - 1) :
        \* an earlier store was asked for this entry too, unless it was dropped by then
        <<k, a[2]>> \in asks \/ k \in dropped
NeverAfterDrop ==
    [][(AskedNow /\ ~NewRun) => si \notin dropped]_allvars
StaysDropped == [][~NewRun => dropped \subseteq dropped']_allvars
FirstWins == [][(pc = "ask" /\ pc' = "write") => si' = si]_allvars

\* C06: if every chunk has a store that is sure to have it, nothing else can fail the run
Obtainable == \A p \in 1..N : E0(p) /\ \E k \in 1..NS : E.id \in Ids /\ S.entries[p].id \in St(k).sure
NoNeedToFail == (status = "fail" /\ broken = {} /\ "werr" \notin Faults) => ~Obtainable

\* C07
TargetBefore == \E k \in 1..NS : St(k).t = "target" /\ \A j \in 1..(k - 1) : St(j).t # "http"
NoRepeatedDownload == (TargetBefore /\ ~meddled /\ R.trd = {}) => \A i \in AllIds : dl[i] <= 1
RepeatsReused ==
    \* a run of repetitions is retrieved once
    \A a, b \in asks : (a[2] < b[2] /\ \A q \in a[2]..b[2] : E0(q) /\ S.entries[q].id = S.entries[a[2]].id)
        => FALSE

\* C23: every step of the program brings the end of the run nearer
Terminates ==
    [][run' = run => \/ Rank' < Rank
                     \/ Rank' = Rank /\ UNCHANGED <<status, pc, pos, resuming, si, tries, sl, active>>]_vars

\* C11
GivenUpOnlyAfterErrors ==
    \A k \in 1..NS : (k \in dropped /\ St(k).t = "http") => (errs[k] > ErrMax \/ "fatal" \in St(k).can)
KeptUntilThen == \A k \in 1..NS : errs[k] > ErrMax => k \in dropped

\* C03, liveness: with restarts and good stores the image gets completed
EventuallyDone == <>[](status # "run")
=============================================================================
