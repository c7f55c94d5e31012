-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* Command lines of csn and casync: what an argument list asks for.        *)
(* Arguments are strings, i.e. sequences of characters.                    *)
(*   Meaning(app, args) = [v, index, target, stores]                       *)
(*   v = "run"   extract index to target from these stores, in this order  *)
(*       "bad"   nothing can be made of it: failure                        *)
(*       "help"  help was asked for: no extraction                         *)
(*       "open"  not settled (more words than there are places for)        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Ch(s, i) == SubSeq(s, i, i)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
From(s, i) == SubSeq(s, i, Len(s))

\* the last component of a path
RECURSIVE NoSlashes(_)
NoSlashes(s) == IF s # "" /\ Ch(s, Len(s)) = "/" THEN NoSlashes(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE LastPart(_)
LastPart(s) == IF \E i \in 1..Len(s) : Ch(s, i) = "/"
               THEN LastPart(From(s, (CHOOSE i \in 1..Len(s) : Ch(s, i) = "/") + 1)) ELSE s
App(argv0) == LastPart(NoSlashes(argv0))

LongOptions == {"help", "store", "seed", "seed-output"}
TakesArg(o) == o # "help"

\* position of the first = in s, 0 if there is none
Equals(s) == IF \E i \in 1..Len(s) : Ch(s, i) = "="
             THEN CHOOSE i \in 1..Len(s) : Ch(s, i) = "=" /\ \A j \in 1..(i - 1) : Ch(s, j) # "=" ELSE 0
NameOf(w) == IF Equals(w) = 0 THEN w ELSE SubSeq(w, 1, Equals(w) - 1)
\* the options a (possibly shortened) name stands for
Meant(n) == IF n \in LongOptions THEN {n} ELSE { o \in LongOptions : Starts(o, n) }

Nothing == [v |-> "bad", index |-> "", target |-> "", stores |-> <<>>]

\* state while reading casync's arguments from left to right
\*   mode  "opts" | "rest" (after --) | "arg" (the argument of opt comes next) | "stop" (help or something wrong: v)
Start == [mode |-> "opts", opt |-> "", v |-> "run", words |-> <<>>, stores |-> <<>>]
Stop(st, v) == [st EXCEPT !.mode = "stop", !.v = v]
Option(st, o, val) == IF o \in {"store", "seed"} THEN [st EXCEPT !.mode = "opts", !.stores = Append(@, val)]
                      ELSE [st EXCEPT !.mode = "opts"]
Long(st, w) ==
    LET m == Meant(NameOf(w))
        o == CHOOSE x \in m : TRUE
    IN IF \/ m = {} \/ \E x, y \in m : x # y THEN Stop(st, "bad")
       ELSE IF ~TakesArg(o) THEN Stop(st, IF Equals(w) = 0 THEN "help" ELSE "bad")
       ELSE IF Equals(w) = 0 THEN [st EXCEPT !.mode = "arg", !.opt = o]
       ELSE Option(st, o, From(w, Equals(w) + 1))
\* n: number of the argument
Read(st, a, n) ==
    CASE st.mode = "stop" -> st
      [] st.mode = "arg" -> Option(st, st.opt, a)
      [] st.mode = "rest" -> [st EXCEPT !.words = Append(@, n)]
      [] st.mode = "opts" ->
           IF a = "--" THEN [st EXCEPT !.mode = "rest"]
           ELSE IF Starts(a, "--") THEN Long(st, From(a, 3))
           ELSE IF Starts(a, "-") /\ a # "-" THEN Stop(st, IF Ch(a, 2) = "h" THEN "help" ELSE "bad")
           ELSE [st EXCEPT !.words = Append(@, n)]
RECURSIVE ReadAll(_, _, _)
ReadAll(st, args, n) == IF n > Len(args) THEN st ELSE ReadAll(Read(st, args[n], n), args, n + 1)

Casync(args) ==
    LET st == ReadAll(Start, args, 1)
        w == st.words
        L == Len(w)
    IN IF st.mode = "stop" THEN [Nothing EXCEPT !.v = st.v]
       ELSE IF st.mode = "arg" THEN Nothing
       ELSE IF L < 3 THEN Nothing
       ELSE IF args[w[1]] # "extract" THEN Nothing
       \* index and target come last
       ELSE IF w[L - 1] # Len(args) - 1 \/ w[L] # Len(args) THEN Nothing
       ELSE [v |-> IF L = 3 THEN "run" ELSE "open", index |-> args[w[L - 1]], target |-> args[w[L]], stores |-> st.stores]

Csn(args) == IF Len(args) < 3 THEN Nothing
             ELSE [v |-> "run", index |-> args[1], target |-> args[2], stores |-> From(args, 3)]

Meaning(argv0, args) == CASE App(argv0) = "csn" -> Csn(args)
                          [] App(argv0) = "casync" -> Casync(args)
                          [] OTHER -> Nothing
=============================================================================
