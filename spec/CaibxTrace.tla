----------------------------- MODULE CaibxTrace -----------------------------
(***************************************************************************)
(* Recorded runs with arbitrary index files, checked against Caibx.  Each  *)
(* trace: the bytes of the file, the chunks the store has, and the events: *)
(* requests, writes to the target and the exit.  With side = TRUE the file *)
(* was side-loaded for a local store that has all of the image: then,      *)
(* whatever the file says, the run succeeds without asking anyone else.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES sid, pc, n, i, last, got, prev, asked, l

Raw == JsonDeserialize(IOEnv.TRACES)
TSids == 1..Len(Raw)
TBytes(x) == Raw[x].b
TChunks(x) == Raw[x].chunks

M == INSTANCE Caibx WITH Sids <- TSids, Bytes <- TBytes, Chunks <- TChunks

mvars == <<sid, pc, n, i, last, got, prev, asked>>
Ev == Raw[sid].ev
More == l <= Len(Ev)
Ln == Ev[l]
Is(e) == More /\ Ln.e = e /\ l' = l + 1
Side == Raw[sid].side

TReq == Is("req") /\ M!Ask /\ Ln.id = M!IdOf(i)
TWrite == Is("write") /\ M!Deliver
          /\ Ln.off = M!ToInt(last) /\ Ln.len = M!ToInt(M!LenOf(i)) /\ Ln.id = M!IdOf(i)
Silent == /\ UNCHANGED l
          /\ \/ M!CheckSize \/ M!CheckHeader \/ M!CheckParams \/ M!CheckTable \/ M!CheckFooter
             \/ M!CannotScan \/ M!ReadEntry \/ M!GiveUp

\* a rejected index: no store is even opened, and the target keeps what it had
TExit == /\ Is("exit") /\ UNCHANGED mvars
         /\ Ln.clean
         /\ \/ pc = "done" /\ Ln.rc = 0
            \/ pc = "failed" /\ Ln.rc = 1
            \/ pc = "rejected" /\ Ln.rc = 1 /\ ~Ln.access
\* the file was only a hint
TSide == /\ Side /\ Is("exit") /\ Ln.rc = 0 /\ Ln.clean /\ Ln.full
         /\ UNCHANGED mvars

TInit == M!Init /\ l = 1
TNext == IF Side THEN TSide ELSE TReq \/ TWrite \/ Silent \/ TExit
TSpec == TInit /\ [][TNext]_<<sid, pc, n, i, last, got, prev, asked, l>>

RejectedIsInert == ~Side => M!RejectedIsInert
Contiguous == ~Side => M!Contiguous
DoneIsAll == ~Side => M!DoneIsAll

Report == /\ (l = Len(Ev) + 1 => PrintT(<<"ACC", sid>>))
          /\ ("DBG" \in DOMAIN IOEnv => PrintT(<<"AT", sid, l, pc, i, n>>))
=============================================================================
