-------------------------------- MODULE Csn --------------------------------
(***************************************************************************)
(* The extraction engine of casync-nano (csn / casync): a run walks over   *)
(* the entries of a blob index, skips the prefix that is already present   *)
(* in the target, obtains every other chunk from the first store of the    *)
(* store chain that has it, and writes it.  Runs can end at any point and  *)
(* be followed by another run on what they left behind.                    *)
(*                                                                         *)
(* Abstraction.  A chunk id is a number >= 1; the content of a target slot *)
(* (the byte range of an index entry) is the id its bytes hash to when it  *)
(* is the id of that entry, and 0 ("junk") otherwise.  One action is one   *)
(* step of the program that can be told apart from outside: a request, a   *)
(* pause, a write, an exit - plus silent steps for the decisions between.  *)
(*                                                                         *)
(* A scenario S is a record                                                *)
(*   entries : Seq([id, k, fits])   k = "ok"  : length the buffer can hold *)
(*                                      "big" : longer than the buffer     *)
(*                                      "bad" : length 0 or >= 2^32        *)
(*                                  fits = declared length is the length   *)
(*                                         of the chunk with this id       *)
(*   prior   : Seq(content)         slots before the first run             *)
(*   runs    : Seq([stores, initfail, mayfail, idxerr, idxmay, trd])       *)
(*     stores: Seq([t, sl, scanerr, shr, claims, occ])                     *)
(*       t = "http" | "target" | "local"                                   *)
(*       sl      = a usable side-loaded index is given                     *)
(*       claims  = id -> Seq([st, brk]) what the side-loaded index says    *)
(*       occ     = id -> Seq([st, brk]) what a scan finds                  *)
(*         st  = "ok" | "wrong" | "eio" | "big" | "maybe" (ok or not seen) *)
(*               | "cut" (the file may have shrunk and lost it)            *)
(*         brk = slots of the target which share storage with this place   *)
(*               and destroy it when written                               *)
(*       scanerr = scanning again fails                                    *)
(*       shr     = the file shrinks meanwhile: scanning again may fail     *)
(*     initfail = the run cannot be set up (bad index, store, usage...)    *)
(*     mayfail  = it may be refused, but need not (a store that cannot be  *)
(*                scanned to its end)                                      *)
(*     idxerr   = entry at which reading the index fails (0: never)        *)
(*     idxmay   = the index shrinks meanwhile: reading it may fail         *)
(*     trd      = slots of the target that cannot be read                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS
    Sids,           \* names of scenarios
    ScnOf(_),       \* name -> scenario
    ErrMax,         \* failures of a store that are tolerated in a row
    Tries           \* attempts per download

VARIABLES
    sid,            \* which scenario
    run,            \* number of the current run
    status,         \* "run" | "ok" | "fail" | "killed"
    pc,             \* "init" | "entry" | "ask" | "pause" | "write"
    pos,            \* entry being dealt with
    resuming,       \* still within the prefix that is already in place
    last,           \* id the chunk buffer holds verified data for (0: none)
    si,             \* store being asked
    tries,          \* failed attempts of the current download
    asked,          \* local stores asked for the current entry
    active,         \* store -> still in use
    errs,           \* store -> failures in a row
    sl,             \* store -> still on its side-loaded index
    known,          \* id -> slot the target is known to have it at (0: none)
    written,        \* slots written in this run
    broken,         \* places in local stores that have changed since the scan
    tgt             \* slot -> content

vars == <<sid, run, status, pc, pos, resuming, last, si, tries, asked,
          active, errs, sl, known, written, broken, tgt>>

S == ScnOf(sid)
N == Len(S.entries)
E == S.entries[pos]
R == S.runs[run]
NS == Len(R.stores)
St(k) == R.stores[k]

Ids == { S.entries[p].id : p \in 1..N }
Outcomes == {"ok", "miss", "err", "badsum", "baddata", "conn", "fatal"}

\* pause after the t-th failed attempt, in ms
RECURSIVE Backoff(_)
Backoff(t) == IF t <= 1 THEN 200
              ELSE LET b == 2 * Backoff(t - 1) IN IF b > 10000 THEN 10000 ELSE b

TargetIsStore == \E k \in 1..NS : St(k).t = "target"

IsPresent(t, p) == S.entries[p].k = "ok" /\ S.entries[p].fits /\ t[p] = S.entries[p].id
PrefixLen(t) == CHOOSE n \in 0..N :
                   /\ \A p \in 1..n : IsPresent(t, p)
                   /\ n = N \/ ~IsPresent(t, n + 1)

-----------------------------------------------------------------------------
\* values of the volatile variables at the start of run r of scenario s
Fresh(s, r) ==
    LET sts == ScnOf(s).runs[r].stores
        ids == { ScnOf(s).entries[p].id : p \in 1..Len(ScnOf(s).entries) }
    IN [ active |-> [k \in 1..Len(sts) |-> TRUE],
         errs   |-> [k \in 1..Len(sts) |-> 0],
         sl     |-> [k \in 1..Len(sts) |-> sts[k].sl],
         known  |-> [i \in ids |-> 0] ]

InitWith(s) ==
    /\ sid = s
    /\ run = 1
    /\ status = "run" /\ pc = "init"
    /\ pos = 1 /\ resuming = TRUE /\ last = 0
    /\ si = 1 /\ tries = 0 /\ asked = {}
    /\ LET f == Fresh(s, 1) IN
         active = f.active /\ errs = f.errs /\ sl = f.sl /\ known = f.known
    /\ written = {} /\ broken = {}
    /\ tgt = ScnOf(s).prior

Init == \E s \in Sids : InitWith(s)

\* A later run starts from nothing but the target.
Restart ==
    /\ status # "run"
    /\ run < Len(S.runs)
    /\ run' = run + 1
    /\ status' = "run" /\ pc' = "init"
    /\ pos' = 1 /\ resuming' = TRUE /\ last' = 0
    /\ si' = 1 /\ tries' = 0 /\ asked' = {}
    /\ LET f == Fresh(sid, run + 1) IN
         active' = f.active /\ errs' = f.errs /\ sl' = f.sl /\ known' = f.known
    /\ written' = {} /\ broken' = {}
    /\ UNCHANGED <<sid, tgt>>

-----------------------------------------------------------------------------
(* Setting up, and walking over the entries *)

SetUp ==
    /\ status = "run" /\ pc = "init"
    /\ \/ (R.initfail \/ R.mayfail) /\ status' = "fail" /\ pc' = pc
       \/ ~R.initfail /\ status' = status /\ pc' = "entry"
    /\ UNCHANGED <<sid, run, pos, resuming, last, si, tries, asked, active,
                   errs, sl, known, written, broken, tgt>>

AtEntry == status = "run" /\ pc = "entry" /\ pos <= N
Readable == R.idxerr = 0 \/ pos < R.idxerr

Learn(p) == IF TargetIsStore /\ known[S.entries[p].id] = 0
            THEN [known EXCEPT ![S.entries[p].id] = p] ELSE known

\* part of the prefix: nothing to do
Skip ==
    /\ AtEntry /\ Readable
    /\ resuming /\ IsPresent(tgt, pos) /\ pos \notin R.trd
    /\ pos' = pos + 1
    /\ known' = Learn(pos)
    /\ UNCHANGED <<sid, run, status, pc, resuming, last, si, tries, asked,
                   active, errs, sl, written, broken, tgt>>

\* first entry that is not in place: from now on, do not even look
EndPrefix ==
    /\ AtEntry /\ Readable
    /\ resuming /\ E.k = "ok" /\ (~IsPresent(tgt, pos) \/ pos \in R.trd)
    /\ resuming' = FALSE
    /\ UNCHANGED <<sid, run, status, pc, pos, last, si, tries, asked,
                   active, errs, sl, known, written, broken, tgt>>

\* entries that cannot be dealt with end the run when they are reached
Reject ==
    /\ AtEntry /\ Readable
    /\ E.k = "bad" \/ (E.k = "big" /\ resuming)
    /\ status' = "fail"
    /\ UNCHANGED <<sid, run, pc, pos, resuming, last, si, tries, asked,
                   active, errs, sl, known, written, broken, tgt>>

IndexError ==
    /\ status = "run" /\ pc = "entry"
    /\ (R.idxerr > 0 /\ pos <= R.idxerr) \/ (R.idxmay /\ pos <= N)
    /\ status' = "fail"
    /\ UNCHANGED <<sid, run, pc, pos, resuming, last, si, tries, asked,
                   active, errs, sl, known, written, broken, tgt>>

\* the same chunk again: it is still in the buffer
CanReuse == last = E.id /\ E.fits
Reuse ==
    /\ AtEntry /\ Readable
    /\ ~resuming /\ E.k # "bad" /\ CanReuse
    /\ pc' = "write"
    /\ asked' = {}
    /\ UNCHANGED <<sid, run, status, pos, resuming, last, si, tries,
                   active, errs, sl, known, written, broken, tgt>>

LookUp ==
    /\ AtEntry /\ Readable
    /\ ~resuming /\ E.k # "bad" /\ ~CanReuse
    /\ pc' = "ask"
    /\ si' = 1 /\ tries' = 0 /\ asked' = {}
    /\ UNCHANGED <<sid, run, status, pos, resuming, last, active, errs, sl,
                   known, written, broken, tgt>>

-----------------------------------------------------------------------------
(* Asking the stores *)

Asking == status = "run" /\ pc = "ask"
AskingOf(type) == Asking /\ si <= NS /\ active[si] /\ St(si).t = type

\* the current store supplies verified data for the current id
Supplies ==
    /\ IF E.fits /\ E.k = "ok"
       THEN pc' = "write" /\ last' = E.id /\ status' = status
       ELSE pc' = pc /\ last' = last /\ status' = "fail"   \* wrong length declared
    /\ si' = si /\ tries' = 0
Passes ==
    /\ si' = si + 1 /\ tries' = 0 /\ pc' = "ask"
    /\ UNCHANGED <<status, last>>

SkipDropped ==
    /\ Asking /\ si <= NS /\ ~active[si]
    /\ Passes
    /\ UNCHANGED <<sid, run, pos, resuming, asked, active, errs, sl, known,
                   written, broken, tgt>>

NotFound ==
    /\ Asking /\ si > NS
    /\ status' = "fail"
    /\ UNCHANGED <<sid, run, pc, pos, resuming, last, si, tries, asked,
                   active, errs, sl, known, written, broken, tgt>>

AskTarget ==
    /\ AskingOf("target")
    /\ LET at == known[E.id] IN
         IF at # 0 /\ at \in R.trd THEN Passes /\ active' = [active EXCEPT ![si] = FALSE]
         ELSE /\ IF at # 0 /\ tgt[at] = E.id THEN Supplies ELSE Passes
              /\ UNCHANGED active
    /\ UNCHANGED <<sid, run, pos, resuming, asked, errs, sl, known,
                   written, broken, tgt>>

\* state of a place [st, brk] in a local store; src tells claims from scan results
Place(src, k, i, o, pl) ==
    IF pl.st \in {"ok", "cut"} /\ (pl.brk \cap written # {} \/ <<src, k, i, o>> \in broken)
    THEN "wrong" ELSE pl.st

\* a side-loaded index is believed only as far as the data confirms it
AskSideloaded ==
    /\ AskingOf("local") /\ sl[si]
    /\ asked' = asked \cup {si}
    /\ LET cl == St(si).claims[E.id] IN
         \/ /\ cl = <<>>
            /\ Passes
            /\ UNCHANGED <<active, sl>>
         \/ \E o \in 1..Len(cl) :
              \/ /\ Place("c", si, E.id, o, cl[o]) \in {"ok", "cut"}
                 /\ Supplies /\ UNCHANGED <<active, sl>>
              \/ /\ Place("c", si, E.id, o, cl[o]) # "ok"
                 /\ sl' = [sl EXCEPT ![si] = FALSE]
                 /\ \/ /\ St(si).scanerr \/ St(si).shr
                       /\ Passes /\ active' = [active EXCEPT ![si] = FALSE]
                    \/ /\ ~St(si).scanerr
                       /\ UNCHANGED <<active, si, tries, pc, status, last>>
    /\ UNCHANGED <<sid, run, pos, resuming, errs, known, written, broken, tgt>>

AskScanned ==
    /\ AskingOf("local") /\ ~sl[si]
    /\ asked' = asked \cup {si}
    /\ LET oc == St(si).occ[E.id] IN
         \/ /\ oc = <<>>
            /\ Passes
            /\ UNCHANGED active
         \/ \E o \in 1..Len(oc) :
              CASE Place("o", si, E.id, o, oc[o]) = "ok"    -> Supplies /\ UNCHANGED active
                [] Place("o", si, E.id, o, oc[o]) = "wrong" -> Passes /\ UNCHANGED active
                [] Place("o", si, E.id, o, oc[o]) = "maybe" -> (Supplies \/ Passes) /\ UNCHANGED active
                [] Place("o", si, E.id, o, oc[o]) = "cut" ->
                     (Supplies /\ UNCHANGED active) \/ (Passes /\ active' \in {active, [active EXCEPT ![si] = FALSE]})
                [] OTHER -> Passes /\ active' = [active EXCEPT ![si] = FALSE]
    /\ UNCHANGED <<sid, run, pos, resuming, errs, sl, known, written, broken, tgt>>

\* one failure more; too many in a row and the store is given up
CountFailure ==
    /\ errs' = [errs EXCEPT ![si] = @ + 1]
    /\ active' = [active EXCEPT ![si] = errs[si] + 1 <= ErrMax]

Attempt(o) ==
    /\ AskingOf("http")
    /\ CASE o = "ok"      -> /\ Supplies
                             /\ errs' = [errs EXCEPT ![si] = 0] /\ UNCHANGED active
         [] o = "miss"    -> Passes /\ UNCHANGED <<errs, active>>
         [] o = "err"     -> Passes /\ CountFailure
         [] o = "badsum"  -> /\ Passes
                             /\ errs' = [errs EXCEPT ![si] = 0] /\ UNCHANGED active
         [] o = "baddata" -> Passes /\ UNCHANGED <<errs, active>>
         [] o = "fatal"   -> Passes /\ active' = [active EXCEPT ![si] = FALSE] /\ UNCHANGED errs
         [] o = "conn"    -> /\ tries' = tries + 1 /\ pc' = "pause"
                             /\ UNCHANGED <<si, status, last, errs, active>>
    /\ UNCHANGED <<sid, run, pos, resuming, asked, sl, known, written, broken, tgt>>

Pause ==
    /\ status = "run" /\ pc = "pause"
    /\ IF tries < Tries
       THEN pc' = "ask" /\ UNCHANGED <<si, tries, status, last, errs, active>>
       ELSE Passes /\ CountFailure
    /\ UNCHANGED <<sid, run, pos, resuming, asked, sl, known, written, broken, tgt>>

-----------------------------------------------------------------------------
(* Writing, and the end of runs *)

Writing == status = "run" /\ pc = "write"

Write ==
    /\ Writing
    /\ tgt' = [tgt EXCEPT ![pos] = last]
    /\ written' = written \cup {pos}
    /\ known' = Learn(pos)
    /\ pos' = pos + 1 /\ pc' = "entry"
    /\ UNCHANGED <<sid, run, status, resuming, last, si, tries, asked, active,
                   errs, sl, broken>>

\* Part of the chunk has reached the target. What the slot amounts to then
\* depends on what was there before; writing what is there already harms nothing.
TornContent == IF tgt[pos] = last THEN {last} ELSE {0, last}

WriteError(c) ==
    /\ Writing /\ c \in TornContent
    /\ tgt' = [tgt EXCEPT ![pos] = c]
    /\ status' = "fail"
    /\ UNCHANGED <<sid, run, pc, pos, resuming, last, si, tries, asked, active,
                   errs, sl, known, written, broken>>

Kill ==
    /\ status = "run"
    /\ status' = "killed"
    /\ UNCHANGED <<sid, run, pc, pos, resuming, last, si, tries, asked, active,
                   errs, sl, known, written, broken, tgt>>

KillWriting(c) ==
    /\ Writing /\ c \in TornContent
    /\ tgt' = [tgt EXCEPT ![pos] = c]
    /\ status' = "killed"
    /\ UNCHANGED <<sid, run, pc, pos, resuming, last, si, tries, asked, active,
                   errs, sl, known, written, broken>>

Finish ==
    /\ status = "run" /\ pc = "entry" /\ pos > N
    /\ R.idxerr = 0
    /\ status' = "ok"
    /\ UNCHANGED <<sid, run, pc, pos, resuming, last, si, tries, asked, active,
                   errs, sl, known, written, broken, tgt>>

-----------------------------------------------------------------------------
(* What others do meanwhile *)

TargetChanges(s, c) ==
    /\ status = "run"
    /\ tgt' = [tgt EXCEPT ![s] = c]
    /\ UNCHANGED <<sid, run, status, pc, pos, resuming, last, si, tries, asked,
                   active, errs, sl, known, written, broken>>

StoreChanges(places) ==
    /\ status = "run"
    /\ broken' = broken \cup places
    /\ UNCHANGED <<sid, run, status, pc, pos, resuming, last, si, tries, asked,
                   active, errs, sl, known, written, tgt>>

-----------------------------------------------------------------------------
(* Every run ends: what is left to do, as a number every step of the        *)
(* program makes smaller, whatever the stores answer                        *)

PerStore == 2 * Tries + 4
PerEntry == (NS + 1) * PerStore + Cardinality({k \in 1..NS : sl[k]}) + 4
LeftToAsk ==
    CASE pc = "ask"   -> (IF si <= NS THEN (NS + 1 - si) * PerStore + 2 * (Tries - tries) + 1 ELSE 1) + 1
                         + Cardinality({k \in 1..NS : sl[k]})
      [] pc = "pause" -> (NS + 1 - si) * PerStore + 2 * (Tries - tries) + 3 + Cardinality({k \in 1..NS : sl[k]})
      [] pc = "write" -> 1
      [] pc = "entry" -> PerEntry - (IF resuming THEN 1 ELSE 2)
      [] OTHER        -> PerEntry
Rank == IF status # "run" THEN 0 ELSE 1 + (N + 1 - pos) * PerEntry + LeftToAsk

-----------------------------------------------------------------------------
\* steps of the program that leave no mark outside
Silent == SetUp \/ Skip \/ EndPrefix \/ Reject \/ IndexError \/ Reuse \/ LookUp
          \/ SkipDropped \/ NotFound \/ AskTarget \/ AskSideloaded \/ AskScanned
          \/ Finish
=============================================================================
