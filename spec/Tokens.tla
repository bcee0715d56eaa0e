------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* Every short sequence of tokens in every kind of place of a program.     *)
(* A place has its own tokens: those that mean something there, and some   *)
(* that don't.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Depth == IF "DEPTH" \in DOMAIN IOEnv THEN atoi(IOEnv.DEPTH) ELSE 3
Common == {"(", ")", "{", "}", ";", ",", "x", "0", "*", "="}
Of == [statement |-> Common \cup {"if", "else", "for", "while", "do", "switch", "case 1 :", "default :", "break ;", "return", "goto", "int", "++", ":", "f", "struct S"},
       expression |-> Common \cup {"sizeof", "+", "&", "!", "[", "]", ".", "->", "?", ":", "&&", "<<=", "--", "int", "'a'", "\"s\"", "f", "p", "a"},
       declaration |-> Common \cup {"int", "char", "struct", "union", "enum", "typedef", "const", "static", "unsigned", "void", "[", "]", "x9", "T", "S", "\"s\"", "..."},
       member |-> Common \cup {"int", "char", "struct", "union", "enum", "[", "]", "y9", "T", "S", "void", ":"},
       initializer |-> Common \cup {"[", "]", ".", "\"s\"", "'a'", "&", "f", "-", "+", "sizeof", "1"},
       parameter |-> Common \cup {"int", "char", "void", "...", "[", "]", "const", "struct S", "T", "y9"},
       condition |-> {"(", ")", "0", "1", "A", "F", "defined", "!", "-", "/", "%", "&&", "||", "==", "?", ":", ",", "\"s\"", "'a'", "<<", "*", "#", "x"},
       directive |-> {"define", "undef", "if", "ifdef", "ifndef", "elif", "else", "endif", "include", "error", "line", "A", "(", ")", ",", "0", "\"s\"", "<", "\n#", "##", "int", "x"},
       macro |-> {"(", ")", ",", "#", "##", "a", "b", "A", "F", "M", "0", "x", "int", "+", "\"s\"", "__LINE__", "__FILE__", ";"},
       invocation |-> {"(", ")", ",", "F", "G", "A", "0", "x", "+", "\n", "\n#if 1\n", "\n#endif\n", ";", "\"s\"", "G2"}]
VARIABLES place, toks
vars == <<place, toks>>
Init == place \in DOMAIN Of /\ toks = <<>>
Next == /\ Len(toks) < Depth /\ UNCHANGED place
        /\ \E t \in Of[place] : toks' = Append(toks, t)
Spec == Init /\ [][Next]_vars
Short == Len(toks) <= Depth
Report == toks # <<>> => PrintT("@@" \o ToJson(<<place, toks>>))
=============================================================================
