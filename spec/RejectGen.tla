----------------------------- MODULE RejectGen -----------------------------
(***************************************************************************)
(* Reads programs by Reject.tla and reports their verdicts.  Without       *)
(* CASES_FILE the programs are all functions of at most DEPTH operations,  *)
(* of which the last may be missing closes; a program that every backend   *)
(* refuses is not continued.                                               *)
(***************************************************************************)
EXTENDS Reject, TLC, Json, IOUtils

Cases == IF "CASES_FILE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.CASES_FILE) ELSE <<>>
Given == Len(Cases) > 0
Max == IF "DEPTH" \in DOMAIN IOEnv THEN atoi(IOEnv.DEPTH) ELSE 4

VARIABLES c, i, s, ops, done
vars == <<c, i, s, ops, done>>

O(k) == [k |-> k]
N(k, n) == [k |-> k, n |-> n]
Alphabet == {O("loop"), O("if"), O("else"), O("block"), O("switch"), O("close"), O("case"), O("default"),
             O("break"), O("continue"), O("ret"), O("stmt"), N("decl", "a"), [k |-> "goto", l |-> "l"], [k |-> "label", l |-> "l"]}
Begin == N("fn", "p")

Init == /\ i = 0 /\ done = FALSE
        /\ IF Given THEN c \in 1..Len(Cases) /\ ops = <<>> /\ s = Start
                    ELSE c = 0 /\ ops = <<>> /\ s = Step(Start, Begin)
Hopeless == \A b \in Backends : s.v[b] = "bad"

Read == /\ Given /\ ~done /\ i < Len(Cases[c])
        /\ i' = i + 1 /\ s' = Step(s, Cases[c][i + 1]) /\ UNCHANGED <<c, ops, done>>
Grow == /\ ~Given /\ ~done /\ Len(ops) < Max /\ ~Hopeless
        /\ \E o \in Alphabet :
             /\ Allowed(s, o)
             /\ (o.k = "close" => Depth(s) > 1)
             /\ ops' = Append(ops, o) /\ s' = Step(s, o) /\ i' = i + 1 /\ UNCHANGED <<c, done>>
(* what is open is closed *)
RECURSIVE Closed(_)
Closed(t) == IF Depth(t) = 0 THEN t ELSE Closed(Step(t, O("close")))
Stop == /\ ~done /\ (Given => i = Len(Cases[c]))
        /\ done' = TRUE /\ s' = Closed(s) /\ UNCHANGED <<c, i, ops>>
Next == Read \/ Grow \/ Stop
Spec == Init /\ [][Next]_vars

(* A verdict never gets better, and a program that keeps to the simple statements is accepted by all *)
Monotone == [][\A b \in Backends : Worse(s.v[b], s'.v[b]) = s'.v[b]]_vars
Plain == done /\ ~Given /\ (\A j \in 1..Len(ops) : ops[j].k \in {"loop", "if", "else", "block", "close", "stmt", "ret", "label"})
           /\ Cardinality({j \in 1..Len(ops) : ops[j].k = "label"}) < 2 => \A b \in Backends : s.v[b] = "ok"
(* safe mode refuses what the other mode refuses *)
Stricter == s.v["exe"] = "bad" => s.v["safe"] = "bad"
Report == done => PrintT("@@" \o ToJson([c |-> c, o |-> [j \in 1..Len(ops) |-> ops[j].k], v |-> <<s.v["sh"], s.v["exe"], s.v["safe"]>>]))
=============================================================================
