----------------------------- MODULE LiteralGen -----------------------------
(* Every literal of at most MAXLEN source characters over a small alphabet  *)
(* that has a character of each class of the machine                        *)
EXTENDS Literal
ASSUME "MAXLEN" \in DOMAIN IOEnv
(* a f n x 0 1 7 8 A \ ' " % $ ` space *)
Alphabet == {97, 102, 110, 120, 48, 49, 55, 56, 65, 92, 39, 34, 37, 36, 96, 32}
Words == UNION {[1..n -> Alphabet] : n \in 0..atoi(IOEnv.MAXLEN)}
(* a quote must be escaped *)
RECURSIVE Ok(_, _, _)
Ok(w, i, esc) == IF i > Len(w) THEN ~esc
                 ELSE IF w[i] = 34 /\ ~esc THEN FALSE ELSE Ok(w, i + 1, w[i] = 92 /\ ~esc)
GenInit == \E w \in Words : Ok(w, 1, FALSE) /\ Start(0, <<w>>)
GenSpec == GenInit /\ [][Next]_vars
=============================================================================
