----------------------------- MODULE MCCsnTool -----------------------------
(***************************************************************************)
(* Histories of invocations on a small tree: ids of one digit, two         *)
(* directories.                                                            *)
(***************************************************************************)
EXTENDS CsnTool, TLC
CONSTANTS MaxRuns, Ids, Keys, Big
VARIABLES fs, fs0, runs, prev, items, r
vars == <<fs, fs0, runs, prev, items, r>>

IdL == 1
Dirs == { <<>>, <<97, 47>> }
Names == { d \o <<i>> \o Cacnk \o e : d \in Dirs, i \in Ids, e \in { <<>>, Enc } }
BadNames == { <<48, 48>> \o Cacnk, <<120>> \o Cacnk, <<48>> \o Enc }
Outs == {Derive, Stdout, <<111>>, <<98, 47, 111>>} \cup (IF Big THEN Names ELSE {})
Contents == { [b |-> 1, k |-> {}], [b |-> 2, k |-> {}], [b |-> 0, k |-> {}] }

Init == /\ \E D \in SUBSET Names : Cardinality(D) <= 2 /\ fs \in [D -> Contents]
        /\ fs0 = fs /\ runs = 0 /\ prev = fs /\ items = <<>> /\ r = [ok |-> TRUE, fs |-> fs, out |-> <<>>]
Ins == Names \cup BadNames
Run(key, it, bad, cut) == /\ runs < MaxRuns /\ runs' = runs + 1
                     /\ r' = Invoke(fs, Dirs, key, it, bad, cut, IdL)
                     /\ fs' = r'.fs /\ prev' = fs /\ items' = it /\ UNCHANGED fs0
Next == \/ \E key \in Keys \cup {0}, i \in Ins, o \in Outs, bad \in SUBSET {1} : Run(key, <<<<i, o>>>>, bad, FALSE)
        \/ \E key \in Keys, i, j \in Ins, bad \in {{}, {2}}, cut \in BOOLEAN : ~(cut /\ bad # {}) /\ Run(key, <<<<i, Derive>>, <<j, Derive>>>>, bad, cut)
Spec == Init /\ [][Next]_vars

\* no file is ever changed or removed
NeverOverwritten == \A p \in DOMAIN prev : p \in DOMAIN fs /\ fs[p] = prev[p]
\* success: every output is the converted input or was there before
Faithful == runs > 0 /\ r.ok =>
    \A n \in 1..Len(items) : LET o == OutOf(items[n][1], items[n][2])
        IN o # Stdout => \/ o \in DOMAIN prev
                         \/ /\ o \in DOMAIN fs
                            /\ \/ \E key \in Keys : fs[o] = Conv(fs[items[n][1]], key, IdOf(items[n][1], IdL))
\* every new file is complete: the conversion of some input with one of the keys
NewComplete == \A p \in DOMAIN fs \ DOMAIN prev :
    \E n \in 1..Len(items), key \in Keys : OutOf(items[n][1], items[n][2]) = p
                                           /\ fs[p] = Conv(fs[items[n][1]], key, IdOf(items[n][1], IdL))
TwiceIsOriginal == \A c \in Contents, key \in Keys, i \in Ids : Conv(Conv(c, key, i), key, i) = c
DerivedTwice == \A p \in Names : Derived(Derived(p)) = p
=============================================================================
