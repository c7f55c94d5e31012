---------------------------- MODULE PatchddTrace ----------------------------
(***************************************************************************)
(* Recorded runs of patchdd.  T.first: first difference of every block of  *)
(* 1 MiB, T.n, T.m: sizes of source and destination (-1: there is none).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
INSTANCE Patchdd WITH BS <- 0, Val <- {}, MaxSrc <- 0, MaxDst <- 0, src <- 0, dst <- 0, dst0 <- 0, off <- 0,
    done <- 0, pc <- 0, synced <- 0, rc <- 0, last <- 0

Raw == JsonDeserialize(IOEnv.TRACES)
MiB == 1048576
VARIABLES sid, l, flushed, fault
tvars == <<sid, l, flushed, fault>>
T == Raw[sid]
Ln == T.ev[l]
FirstOf == [b \in 0..(Len(T.first) - 1) |-> T.first[b + 1]]

TInit == sid \in 1..Len(Raw) /\ l = 1 /\ flushed = FALSE /\ fault = FALSE
Ev(e) == l <= Len(T.ev) /\ Ln.e = e /\ l' = l + 1 /\ UNCHANGED sid
Usable == T.n >= 0 /\ T.m >= T.n /\ T.args

\* data: the bytes written are those of the source there
TWrite == /\ Ev("w") /\ Usable /\ Ln.data /\ Allowed(Ln.off, Ln.len, FirstOf, T.n, MiB)
          /\ flushed' = FALSE /\ UNCHANGED fault
TFault == Ev("fault") /\ fault' = TRUE /\ UNCHANGED flushed
TSync == Ev("sync") /\ flushed' = Ln.ok /\ fault' = (fault \/ ~Ln.ok)
TKill == Ev("kill") /\ UNCHANGED <<flushed, fault>>
TExit == /\ Ev("exit")
         /\ Ln.rest /\ Ln.src
         /\ \/ Ln.rc = 0 /\ Usable /\ Ln.copied /\ flushed
            \/ Ln.rc = 1 /\ (fault \/ ~Usable)
            \/ Ln.rc = 137 /\ Ln.killed
         /\ (~Usable => Ln.same)
         /\ UNCHANGED <<flushed, fault>>
TNext == TWrite \/ TFault \/ TSync \/ TKill \/ TExit
TSpec == TInit /\ [][TNext]_tvars
Report == /\ (l = Len(T.ev) + 1 => PrintT(<<"ACC", sid>>))
          /\ ("DBG" \in DOMAIN IOEnv => PrintT(<<"AT", sid, l, flushed, fault>>))
=============================================================================
