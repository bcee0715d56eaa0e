------------------------------ MODULE PrintfGen ------------------------------
(* Every single conversion: all sets of flags, widths, precisions and        *)
(* conversions, with constants or *, for representative values.              *)
EXTENDS Printf
Str2(x) == IF x < 10 THEN <<48 + x>> ELSE <<48 + (x \div 10), 48 + (x % 10)>>
Widths == {[s |-> <<>>, a |-> <<>>]} \cup {[s |-> Str2(n), a |-> <<>>] : n \in {1, 4, 11}}
          \cup {[s |-> <<STAR>>, a |-> <<[t |-> "i", v |-> n, s |-> <<>>]>>] : n \in {0, 5, -6}}
Precs == {[s |-> <<>>, a |-> <<>>], [s |-> <<DOT>>, a |-> <<>>]} \cup {[s |-> <<DOT>> \o Str2(n), a |-> <<>>] : n \in {0, 1, 3, 12}}
          \cup {[s |-> <<DOT, STAR>>, a |-> <<[t |-> "i", v |-> n, s |-> <<>>]>>] : n \in {0, 4, -2}}
Ints == {0, 7, -9, 12345, 2147483647, -2147483647}
Strs == {<<>>, <<97>>, <<104, 101, 108, 108, 111>>, <<97, 10>>, <<10, 37, 92, 10, 98>>}
Order == <<MINUS, PLUS, SPACE, HASH, ZERO>>
FlagText(F) == SelectSeq(Order, LAMBDA x : x \in F)
Convs(S) == {<<x>> : x \in S}
GenInit ==
  \E F \in SUBSET Flags, W \in Widths, Q \in Precs, cv \in Specs, ln \in {<<>>, <<ll>>} :
   \E a \in (IF cv = ss THEN {[t |-> "s", v |-> 0, s |-> x] : x \in Strs}
             ELSE IF cv = cc THEN {[t |-> "i", v |-> x, s |-> <<>>] : x \in {0, 10, 65, 92, 255}}
             ELSE {[t |-> "i", v |-> x, s |-> <<>>] : x \in Ints}) :
     /\ (HASH \in F => cv \in {oo, xx, XX}) /\ (ZERO \in F => cv \notin {cc, ss}) /\ ((PLUS \in F \/ SPACE \in F) => cv \in {dd, ii})
     /\ (ln # <<>> => cv \notin {cc, ss} /\ W.s \in {<<>>, <<52>>} /\ Q.s \in {<<>>, <<DOT, 51>>})
     /\ (cv = cc => Q.s = <<>>)
     /\ Start(0, <<PCT>> \o FlagText(F) \o W.s \o Q.s \o ln \o <<cv>>, W.a \o Q.a \o <<a>>)
GenSpec == GenInit /\ [][Next]_vars
GenReport == (st = "end") => PrintT("@@" \o ToJson([c |-> c, f |-> fmt, a |-> args, o |-> out, m |-> st, y |-> why]))
=============================================================================
