------------------------------ MODULE LexGen ------------------------------
(* Every text of at most MAXLEN characters over an alphabet, read by the   *)
(* lexer of Lex.tla.  ALPHA selects the alphabet: the operators, or the    *)
(* characters that start, end or look like comments, literals and lines.   *)
EXTENDS Lex
ASSUME "MAXLEN" \in DOMAIN IOEnv /\ "ALPHA" \in DOMAIN IOEnv
Alphabet == CASE IOEnv.ALPHA = "ops" -> {"+", "-", "*", "&", "|", "<", ">", "=", "!", ".", "#", "%", "^", "/", "a"}
              [] IOEnv.ALPHA = "com" -> {"/", "*", "\"", "'", "\\", "\n", " ", "a", "0"}
              [] OTHER -> {"a", "0", "_", "Z", "9", " ", "\t", "\n", "\f", "\r", "(", "x"}
Words == UNION {[1..n -> Alphabet] : n \in 0..atoi(IOEnv.MAXLEN)}
GenInit == \E w \in Words : Start(0, w)
GenSpec == GenInit /\ [][Next]_vars
=============================================================================
