------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A run of the compiler, as seen from outside: it starts, it writes       *)
(* output, and it ends by accepting the input or by refusing it.           *)
(*   [k |-> "start"]                                                       *)
(*   [k |-> "product", form]   the output is complete and of this form     *)
(*                             ("script": the shell can parse it, "elf":   *)
(*                             the headers describe the file)              *)
(*   [k |-> "message"]         the output ends with a diagnostic           *)
(*   [k |-> "exit", s]                                                     *)
(* Other events are recorded by builds that watch the accesses to memory   *)
(* and the internal checks of the compiler:                                *)
(*   "memory"  an access outside of the objects of the compiler            *)
(*   "check"   a failed check of the syntax tree                           *)
(*   "signal"  the run was ended by a signal                               *)
(*   "spin"    it didn't end                                               *)
(*   "broken"  the output isn't a program                                  *)
(* The machine has no step for these.                                      *)
(*                                                                         *)
(* Some histories consist of several runs: the same text with n copies of  *)
(* a part, for several n.  Every table of the compiler has a capacity, so  *)
(* what is refused for n is refused for more; lo is the greatest n known   *)
(* to be accepted and hi the least known to be refused.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.CASES_FILE)    \* [form, ev]
None == 1000000000

VARIABLES c, i, st, n, lo, hi
vars == <<c, i, st, n, lo, hi>>
H == Data[c].ev
E == H[i + 1]

Init == c \in 1..Len(Data) /\ i = 0 /\ st = "idle" /\ n = 0 /\ lo = -1 /\ hi = None
Start == st = "idle" /\ E.k = "start" /\ st' = "running" /\ n' = E.s /\ UNCHANGED <<lo, hi>>
Product == st = "running" /\ E.k = "product" /\ E.form = Data[c].form /\ st' = "complete" /\ UNCHANGED <<n, lo, hi>>
Message == st = "running" /\ E.k = "message" /\ st' = "diagnosed" /\ UNCHANGED <<n, lo, hi>>
Accept == /\ st = "complete" /\ E.k = "exit" /\ E.s = 0 /\ n < hi
          /\ st' = "idle" /\ lo' = (IF n > lo THEN n ELSE lo) /\ UNCHANGED <<n, hi>>
Refuse == /\ st = "diagnosed" /\ E.k = "exit" /\ E.s = 1 /\ (Data[c].mono => n > lo)
          /\ st' = "idle" /\ hi' = (IF Data[c].mono /\ n < hi THEN n ELSE hi) /\ UNCHANGED <<n, lo>>
Next == i < Len(H) /\ i' = i + 1 /\ UNCHANGED c /\ (Start \/ Product \/ Message \/ Accept \/ Refuse)
Spec == Init /\ [][Next]_vars

Capacity == lo < hi
(* a run that ended was either complete or diagnosed, never both *)
Ends == [][(st' = "idle") => (st \in {"complete", "diagnosed"})]_vars
Report == ~ENABLED Next => PrintT("@@" \o ToJson([c |-> c, i |-> i, ok |-> (i = Len(H) /\ st = "idle"), lo |-> lo, hi |-> hi]))
=============================================================================
