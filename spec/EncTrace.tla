------------------------------ MODULE EncTrace ------------------------------
(***************************************************************************)
(* Recorded uses of the encryption: of the functions themselves, of        *)
(* csn-tool, and of csn with an encrypted store.                           *)
(***************************************************************************)
EXTENDS XChaCha20, TLC, Json, IOUtils

Raw == JsonDeserialize(IOEnv.TRACES)
VARIABLES sid, l, sub, n8, pos
vars == <<sid, l, sub, n8, pos>>
T == Raw[sid]
Ln == T.ev[l]
TKey == KeyOf(T.form, T.text, T.there)

Init == sid \in 1..Len(Raw) /\ l = 1 /\ sub = <<>> /\ n8 = <<>> /\ pos = -1
Ev(e) == l <= Len(T.ev) /\ Ln.e = e /\ l' = l + 1 /\ UNCHANGED sid

XorB(a, b) == [k \in 1..Len(a) |-> a[k] ^^ b[k]]
\* samples [p, in, out]: what was at p (relative to base) and what became of it; each within one block
Good(sk, nn, base, samples) ==
    \A k \in 1..Len(samples) : samples[k].out = XorB(samples[k].in, Piece(sk, nn, base + samples[k].p, Len(samples[k].in)))

\* ------------------------------------------------------------ the functions
Restart == /\ Ev("restart") /\ Ln.rc = 0
           /\ sub' = Subkey(T.key, Ln.id) /\ n8' = Rest(Ln.id) /\ pos' = 0
\* agree: all the bytes agree with the transcription of this specification in C
Do == /\ Ev("do") /\ Ln.rc = 0 /\ pos >= 0
      /\ Ln.agree /\ Good(sub, n8, pos, Ln.s)
      /\ pos' = pos + Ln.n /\ UNCHANGED <<sub, n8>>

\* ------------------------------------------------------------ csn-tool: one or several files
File == /\ Ev("file") /\ TKey # NoKey
        /\ Ln.made /\ Ln.same /\ Ln.agree /\ Good(Subkey(TKey, Ln.id), Rest(Ln.id), 0, Ln.s)
        /\ UNCHANGED <<sub, n8, pos>>
NoFile == /\ Ev("file") /\ TKey = NoKey /\ ~Ln.made /\ Ln.same /\ UNCHANGED <<sub, n8, pos>>
Exit == /\ Ev("exit") /\ Ln.rc = (IF TKey = NoKey THEN 1 ELSE 0) /\ UNCHANGED <<sub, n8, pos>>

\* a file beyond 4 GiB; samples [b, o, in, out] by number of the block and offset in it
Large == /\ Ev("large") /\ TKey # NoKey /\ Ln.made /\ Ln.same /\ Ln.agree
         /\ LET sk == Subkey(TKey, Ln.id)
            IN \A k \in 1..Len(Ln.s) : LET q == Ln.s[k]
                                      IN q.out = XorB(q.in, SubSeq(ChaBlock(sk, q.b, Rest(Ln.id)), q.o + 1, q.o + Len(q.in)))
         /\ UNCHANGED <<sub, n8, pos>>

\* ------------------------------------------------------------ csn: store encrypted with T.key
Csn == /\ Ev("csn")
       /\ LET good == TKey = T.key
          IN /\ Ln.rc = (IF good THEN 0 ELSE 1)
             /\ TKey = NoKey => ~Ln.asked
             /\ Ln.held = good
       /\ UNCHANGED <<sub, n8, pos>>

\* a store behind one that has everything: the key is accepted, or the run does not start
Gate == /\ Ev("gate")
        /\ IF TKey = NoKey THEN Ln.rc = 1 /\ ~Ln.asked /\ Ln.same ELSE Ln.rc = 0 /\ Ln.done
        /\ UNCHANGED <<sub, n8, pos>>

Next == Restart \/ Do \/ File \/ Large \/ NoFile \/ Exit \/ Csn \/ Gate
Spec == Init /\ [][Next]_vars
Report == /\ (l = Len(T.ev) + 1 => PrintT(<<"ACC", sid>>))
          /\ ("DBG" \in DOMAIN IOEnv => PrintT(<<"AT", sid, l, pos>>))
=============================================================================
