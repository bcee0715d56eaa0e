----------------------------- MODULE Bootstrap -----------------------------
(***************************************************************************)
(* What a compiler produces depends on its own options and on what it      *)
(* reads, and on nothing else: not on who compiled the compiler, nor on    *)
(* the shell that runs it, nor on what was compiled before.                *)
(*                                                                         *)
(* A compiler is the source of pnut built with some options by somebody:   *)
(* by a host compiler, or by a compiler that exists already.  The machine  *)
(* reads a history of recorded events:                                     *)
(*   [k |-> "host", n, opt]        compiler n was built by a host compiler *)
(*   [k |-> "self", c, opt, d, n]  compiler c compiled the source of pnut  *)
(*            with options opt; the result has digest d, and is compiler n *)
(*   [k |-> "run", c, i, d]        compiler c read input i; its output and *)
(*            exit status have digest d                                    *)
(* and keeps what is known about every pair of options and input.  An      *)
(* event that contradicts what is known is not a step of the machine.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.CASES_FILE)
Builds == Data.builds          \* one history: the construction of the compilers
Runs == Data.runs              \* many histories, each about some inputs

VARIABLES h, i, opt, known, made, bad
vars == <<h, i, opt, known, made, bad>>

(* Options of the compilers that the first history constructs *)
OptOf(n) == LET e == CHOOSE x \in 1..Len(Builds) : Builds[x].n = n IN Builds[e].opt
Made == {Builds[x].n : x \in 1..Len(Builds)}

Init == /\ h \in 0..Len(Runs) /\ i = 0 /\ known = <<>> /\ bad = 0
        /\ made = (IF h = 0 THEN {} ELSE Made)
        /\ opt = (IF h = 0 THEN <<>> ELSE [n \in Made |-> OptOf(n)])
History == IF h = 0 THEN Builds ELSE Runs[h]
E == History[i + 1]

Learn(key, d) == IF key \in DOMAIN known
                 THEN /\ known' = known
                      /\ bad' = (IF known[key] = d THEN 0 ELSE i + 1)
                 ELSE known' = (key :> d) @@ known /\ bad' = 0
Host == /\ E.k = "host" /\ E.n \notin made
        /\ made' = made \cup {E.n} /\ opt' = (E.n :> E.opt) @@ opt /\ UNCHANGED <<known, bad>>
Self == /\ E.k = "self" /\ E.c \in made /\ E.n \notin made
        /\ Learn(<<opt[E.c], "source", E.opt>>, E.d)
        /\ made' = made \cup {E.n} /\ opt' = (E.n :> E.opt) @@ opt
Run == /\ E.k = "run" /\ E.c \in made
       /\ Learn(<<opt[E.c], "input", E.i>>, E.d) /\ UNCHANGED <<made, opt>>
Next == /\ i < Len(History) /\ bad = 0 /\ i' = i + 1 /\ UNCHANGED h /\ (Host \/ Self \/ Run)
Spec == Init /\ [][Next]_vars

Ended == i = Len(History) \/ bad # 0 \/ ~ENABLED Next
(* What is known is a function: nothing that was learned is ever forgotten or changed *)
Remembers == [][\A key \in DOMAIN known : key \in DOMAIN known' /\ known'[key] = known[key]]_vars
Report == Ended => PrintT("@@" \o ToJson([h |-> h, ok |-> (bad = 0 /\ i = Len(History)), at |-> i, keys |-> Cardinality(DOMAIN known)]))
=============================================================================
