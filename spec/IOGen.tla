------------------------------- MODULE IOGen --------------------------------
(* Every history of up to DEPTH operations on two small files, to be run   *)
(* by compiled programs.                                                   *)
EXTENDS IO, TLC, Json, IOUtils
Depth == CHOOSE d \in 1..9 : ToString(d) = IOEnv.DEPTH
VARIABLES s, script
vars == <<s, script>>
Names == {"A", "B"}
Init == /\ script = <<>>
        /\ s = [in |-> <<120, 10, 121>>, pos |-> 0, files |-> [x \in Names |-> IF x = "A" THEN <<97, 10, 10, 98>> ELSE <<99, 100, 10>>],
                tab |-> [x \in {} |-> 0], bufs |-> [x \in {1} |-> <<1, 2, 3>>], out |-> <<>>]
Free(h) == h \notin DOMAIN s.tab /\ \A g \in 1..(h - 1) : g \in DOMAIN s.tab
Op(o, h, f, n) == [o |-> o, h |-> h, f |-> f, m |-> "r", n |-> n, k |-> 1, d |-> 0, b |-> <<>>, v |-> 0]
Ops == {Op("open", h, f, 0) : h \in {x \in 1..3 : Free(x)}, f \in Names} \cup {Op("fopen", h, f, 0) : h \in {x \in 1..3 : Free(x)}, f \in Names}
       \cup {Op("close", h, "A", 0) : h \in DOMAIN s.tab} \cup {Op("fclose", h, "A", 0) : h \in DOMAIN s.tab}
       \cup {Op("read", h, "A", n) : h \in DOMAIN s.tab, n \in {1, 3}} \cup {Op("fgetc", h, "A", 0) : h \in DOMAIN s.tab}
       \cup {Op("getchar", 0, "A", 0)}
\* with the result that it must have (descriptors and streams are named by their variable)
Res(o) == CASE o.o \in {"open", "fopen"} -> [o EXCEPT !.v = 10 + o.h]
            [] o.o = "read" -> LET r == Rest(s, o.h) IN [o EXCEPT !.v = Min(o.n, Len(r)), !.b = SubSeq(r, 1, Min(o.n, Len(r)))]
            [] o.o = "fgetc" -> LET r == Rest(s, o.h) IN [o EXCEPT !.v = IF r = <<>> THEN -1 ELSE r[1]]
            [] o.o = "getchar" -> [o EXCEPT !.v = IF s.pos < Len(s.in) THEN s.in[s.pos + 1] ELSE -1]
            [] OTHER -> o
Next == /\ Len(script) < Depth
        /\ \E o \in Ops : /\ Legal(s, o)
                          /\ Assert(Allows(s, Res(o)), "the result is not allowed")
                          /\ s' = After(s, Res(o)) /\ script' = Append(script, <<o.o, o.h, o.f, o.n>>)
Spec == Init /\ [][Next]_vars
Inv == WellFormed(s)
Step == [][Independent(s, s')]_vars
Report == Len(script) = Depth => PrintT("@@" \o ToJson(script))
=============================================================================
