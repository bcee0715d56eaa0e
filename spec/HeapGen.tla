------------------------------- MODULE HeapGen ------------------------------
(* All behaviours of Heap.tla of DEPTH operations over two int pointers    *)
(* p, q and the objects they are given; printed as scripts that compiled   *)
(* programs then perform.                                                  *)
EXTENDS Heap, TLC, Json, IOUtils
VARIABLES s, sc
vars == <<s, sc>>
Depth == IF IOEnv.DEPTH = "4" THEN 4 ELSE IF IOEnv.DEPTH = "5" THEN 5 ELSE 3
Z == <<"u">>
Op(o, d, a, b, k, f) == [o |-> o, d |-> d, a |-> a, b |-> b, k |-> k, f |-> f, v |-> 0]
V(n) == <<"v", n>>
I(n) == <<"i", n>>
P == {"p", "q"}
Cands == {Op("new", d, Z, Z, I(n), "undef") : d \in P, n \in {1, 2}}
         \cup {Op("free", "", V(d), Z, Z, "") : d \in P}
         \cup {Op("mov", "p", V("q"), Z, Z, ""), Op("mov", "q", V("p"), Z, Z, "")}
         \cup {Op("add", d, V(d), Z, I(n), "") : d \in P, n \in {1, -1}}
         \cup {Op("st", "", V(d), I(Len(sc) + 5), I(n), "") : d \in P, n \in {0, 1}}
Init == s = [vars |-> [x \in {} |-> 0], objs |-> <<>>] /\ sc = <<>>
Next == /\ Len(sc) < Depth
        /\ \E o \in Cands : Legal(s, o) /\ s' = After(s, o) /\ sc' = Append(sc, o)
Spec == Init /\ [][Next]_vars
Inv == WellFormed(s)
Step == [][Frame(s, s')]_vars
Report == Len(sc) = Depth => PrintT("@@" \o ToJson(sc))
=============================================================================
