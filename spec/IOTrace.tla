------------------------------ MODULE IOTrace -------------------------------
(* Checks histories recorded from compiled programs: each must be a        *)
(* behaviour of IO.tla.  CASES_FILE: sequence of [in, files, ops, end, out]*)
EXTENDS IO, TLC, Json, IOUtils
ASSUME "CASES_FILE" \in DOMAIN IOEnv
Cases == JsonDeserialize(IOEnv.CASES_FILE)
VARIABLES c, i, s, mode
vars == <<c, i, s, mode>>
Fun(x) == [k \in DOMAIN x |-> x[k]]
Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ mode = "run"
        /\ s = [in |-> Cases[c].in, pos |-> 0, files |-> Fun(Cases[c].files), tab |-> [x \in {} |-> 0], bufs |-> [x \in {} |-> 0], out |-> <<>>]
Ops == Cases[c].ops
Next == /\ mode = "run"
        /\ IF i > Len(Ops)
           THEN /\ mode' = IF s.files # Fun(Cases[c].end) THEN "files" ELSE IF s.out # Cases[c].out THEN "out" ELSE "done"
                /\ UNCHANGED <<c, i, s>>
           ELSE IF ~Legal(s, Ops[i]) THEN mode' = "illegal" /\ UNCHANGED <<c, i, s>>
           ELSE IF ~Allows(s, Ops[i]) THEN mode' = "bad" /\ UNCHANGED <<c, i, s>>
           ELSE s' = After(s, Ops[i]) /\ i' = i + 1 /\ UNCHANGED <<c, mode>>
Spec == Init /\ [][Next]_vars
Inv == WellFormed(s)
Step == [][Independent(s, s')]_vars
Report == mode # "run" => PrintT("@@" \o ToJson([c |-> c, m |-> mode, i |-> i]))
=============================================================================
