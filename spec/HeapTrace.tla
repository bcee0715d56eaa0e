------------------------------ MODULE HeapTrace -----------------------------
(* Checks histories recorded from compiled programs against Heap.tla.      *)
(* CASES_FILE: sequence of sequences of operations                         *)
EXTENDS Heap, TLC, Json, IOUtils
ASSUME "CASES_FILE" \in DOMAIN IOEnv
Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLES c, i, s, mode
vars == <<c, i, s, mode>>
Ops == Cases[c]
Init == c \in 1..Len(Cases) /\ i = 1 /\ mode = "run" /\ s = [vars |-> [x \in {} |-> 0], objs |-> <<>>]
Next == /\ mode = "run"
        /\ IF i > Len(Ops) THEN mode' = "done" /\ UNCHANGED <<c, i, s>>
           ELSE IF ~Legal(s, Ops[i]) THEN mode' = "illegal" /\ UNCHANGED <<c, i, s>>
           ELSE IF ~Allows(s, Ops[i]) THEN mode' = "bad" /\ UNCHANGED <<c, i, s>>
           ELSE s' = After(s, Ops[i]) /\ i' = i + 1 /\ UNCHANGED <<c, mode>>
Spec == Init /\ [][Next]_vars
Inv == WellFormed(s)
Step == [][Frame(s, s')]_vars
Report == mode # "run" => PrintT("@@" \o ToJson([c |-> c, m |-> mode, i |-> i]))
=============================================================================
