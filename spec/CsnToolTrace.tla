---------------------------- MODULE CsnToolTrace ----------------------------
(***************************************************************************)
(* Recorded histories of invocations of csn-tool crypt in a directory.     *)
(***************************************************************************)
EXTENDS CsnTool, TLC, Json, IOUtils

Raw == JsonDeserialize(IOEnv.TRACES)
VARIABLES sid, l, fs
tvars == <<sid, l, fs>>
T == Raw[sid]
Ln == T.ev[l]

Content(c) == [b |-> c.b, k |-> ToSet(c.k)]
ToFs(s) == [p \in { s[n].p : n \in 1..Len(s) } |-> Content(s[CHOOSE n \in 1..Len(s) : s[n].p = p])]
Items == [n \in 1..Len(Ln.items) |-> <<Ln.items[n].in, Ln.items[n].out>>]
Dirs == ToSet(T.dirs)

TInit == sid \in 1..Len(Raw) /\ l = 1 /\ fs = ToFs(Raw[sid].fs)
\* Ln.fault: something went wrong underneath; then one of the items may fail
\* An empty file is no chunk: converting it may be refused
Empty(n) == Ln.items[n].in \in DOMAIN fs /\ fs[Ln.items[n].in].b = 0
Bads == {{}} \cup { {n} : n \in { m \in 1..Len(Ln.items) : Ln.fault \/ Empty(m) } }
Run == /\ l <= Len(T.ev) /\ Ln.e = "run"
       /\ fs' = ToFs(Ln.fs)
       /\ \E bad \in Bads :
            LET r == IF Ln.usage THEN Fails(fs, <<>>) ELSE Invoke(fs, Dirs, Ln.key, Items, bad, Ln.cut, 64)
            IN /\ fs' = r.fs
               /\ (Ln.rc = (IF r.ok THEN 0 ELSE 1)) \/ (Ln.help /\ Ln.rc = 0)
               /\ r.ok => [n \in 1..Len(Ln.stdout) |-> Content(Ln.stdout[n])] = r.out
       /\ l' = l + 1 /\ UNCHANGED sid
TSpec == TInit /\ [][Run]_tvars
Report == /\ (l = Len(T.ev) + 1 => PrintT(<<"ACC", sid>>))
          /\ ("DBG" \in DOMAIN IOEnv => PrintT(<<"AT", sid, l, Cardinality(DOMAIN fs)>>))
=============================================================================
