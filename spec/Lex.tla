------------------------------- MODULE Lex -------------------------------
(***************************************************************************)
(* The lexical structure of C (C99 5.1.1.2, 6.4): a machine that reads the *)
(* characters of a source text and groups them into preprocessing tokens.  *)
(*                                                                         *)
(*  - a backslash directly before a newline disappears (phase 2)           *)
(*  - comments and white space only separate tokens (phase 3)              *)
(*  - a token is as long as possible                                       *)
(*  - a # that begins a line begins a directive, which ends with the line  *)
(*                                                                         *)
(* CASES_FILE holds cases: t, the characters of the text, and optionally   *)
(* tk, the tokens it must have (the machine then only reports whether it   *)
(* found these).                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == IF "CASES_FILE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.CASES_FILE) ELSE <<>>

VARIABLES
  c, txt,   \* the case
  pos,      \* position of the next character, after splices
  st,       \* "gap", "word", "num", "str", "chr", "line", "block", then "done" or an error
  cur,      \* characters of the token being read
  out,      \* tokens: <<spelling, does it follow the previous token without a gap>>
  bol,      \* only white space was seen on this line
  dir,      \* in a directive
  spl       \* a line was spliced somewhere else than between two tokens
vars == <<c, txt, pos, st, cur, out, bol, dir, spl>>

Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upper == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Letter == Lower \cup Upper \cup {"_"}
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Blank == {" ", "\t", "\f", "\r"}
Punct1 == {"[", "]", "(", ")", "{", "}", ".", "&", "*", "+", "-", "~", "!", "/", "%", "<", ">", "^", "|", "?", ":", ";", "=", ",", "#"}
Punct2 == {"->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##"}
Punct3 == {"...", "<<=", ">>="}

(* Phase 2: the position of the first character at or after i that isn't spliced away *)
RECURSIVE Sp(_, _)
Sp(s, i) == IF i < Len(s) /\ s[i] = "\\" /\ s[i + 1] = "\n" THEN Sp(s, i + 2) ELSE i
At(s, i) == IF i <= Len(s) THEN s[i] ELSE "EOF"

P1 == Sp(txt, pos)
P2 == Sp(txt, P1 + 1)
P3 == Sp(txt, P2 + 1)
C1 == At(txt, P1)
C2 == At(txt, P2)
C3 == At(txt, P3)

Start(n, s) == /\ c = n /\ txt = s /\ pos = 1 /\ st = "gap" /\ cur = "" /\ out = <<>>
               /\ bol = TRUE /\ dir = FALSE /\ spl = FALSE
Init == \E n \in 1..Len(Cases) : Start(n, Cases[n].t)

Live == st \in {"gap", "word", "num", "str", "chr", "line", "block"}
(* Is there no gap between the end of the last token and here? *)
Adjacent == pos > 1 /\ out # <<>> /\ cur = "adj"
Emit(t) == out' = Append(out, <<t, Adjacent>>)
Go(i) == pos' = i + 1 /\ spl' = (spl \/ (P1 # pos /\ st # "gap"))
Case == UNCHANGED <<c, txt>>

(* White space ends a directive at the end of the line *)
Space == /\ st = "gap" /\ C1 \in Blank
         /\ Go(P1) /\ cur' = "" /\ UNCHANGED <<st, out, bol, dir>> /\ Case
NewLine == /\ st = "gap" /\ C1 = "\n"
           /\ Go(P1) /\ cur' = "" /\ bol' = TRUE /\ dir' = FALSE
           /\ out' = (IF dir THEN Append(out, <<"<eol>", FALSE>>) ELSE out)
           /\ UNCHANGED st /\ Case
(* Comments *)
LineComment == /\ st = "gap" /\ C1 = "/" /\ C2 = "/"
               /\ pos' = P2 + 1 /\ spl' = (spl \/ P2 # P1 + 1) /\ st' = "line" /\ cur' = ""
               /\ UNCHANGED <<out, bol, dir>> /\ Case
InLine == /\ st = "line" /\ C1 # "\n" /\ C1 # "EOF"
          /\ Go(P1) /\ UNCHANGED <<st, cur, out, bol, dir>> /\ Case
LineEnd == /\ st = "line" /\ C1 \in {"\n", "EOF"}
           /\ st' = "gap" /\ pos' = P1 /\ spl' = (spl \/ P1 # pos)
           /\ UNCHANGED <<cur, out, bol, dir>> /\ Case
BlockComment == /\ st = "gap" /\ C1 = "/" /\ C2 = "*"
                /\ pos' = P2 + 1 /\ spl' = (spl \/ P2 # P1 + 1) /\ st' = "block" /\ cur' = ""
                /\ UNCHANGED <<out, bol, dir>> /\ Case
InBlock == /\ st = "block" /\ C1 # "EOF" /\ ~(C1 = "*" /\ C2 = "/")
           /\ pos' = P1 + 1 /\ UNCHANGED <<st, cur, out, bol, dir, spl>> /\ Case
BlockEnd == /\ st = "block" /\ C1 = "*" /\ C2 = "/"
            /\ pos' = P2 + 1 /\ spl' = (spl \/ P2 # P1 + 1) /\ st' = "gap"
            /\ UNCHANGED <<cur, out, bol, dir>> /\ Case

(* Words and numbers: as long as possible *)
Begin(k) == /\ st' = k /\ cur' = C1 /\ bol' = FALSE /\ Go(P1)
            /\ out' = Append(out, <<"", Adjacent>>) /\ UNCHANGED dir /\ Case
Word == st = "gap" /\ C1 \in Letter /\ Begin("word")
Number == st = "gap" /\ C1 \in Digit /\ Begin("num")
More == /\ st \in {"word", "num"} /\ C1 \in Letter \cup Digit \cup (IF st = "num" THEN {"."} ELSE {})
        /\ Go(P1) /\ cur' = cur \o C1 /\ UNCHANGED <<st, out, bol, dir>> /\ Case
EndWord == /\ st \in {"word", "num"} /\ C1 \notin Letter \cup Digit \cup (IF st = "num" THEN {"."} ELSE {})
           /\ out' = [out EXCEPT ![Len(out)][1] = cur]
           /\ st' = "gap" /\ cur' = (IF P1 = pos THEN "adj" ELSE "") /\ UNCHANGED <<pos, bol, dir, spl>> /\ Case

(* String literals and character constants end at the first quote that isn't escaped *)
Quote == /\ st = "gap" /\ C1 \in {"\"", "'"} /\ Begin(IF C1 = "'" THEN "chr" ELSE "str")
End == IF st = "chr" THEN "'" ELSE "\""
InQuote == /\ st \in {"str", "chr"} /\ C1 \notin {"\n", "EOF", "\\", End}
           /\ Go(P1) /\ cur' = cur \o C1 /\ UNCHANGED <<st, out, bol, dir>> /\ Case
Escape == /\ st \in {"str", "chr"} /\ C1 = "\\" /\ C2 \notin {"\n", "EOF"}
          /\ pos' = P2 + 1 /\ spl' = (spl \/ P1 # pos \/ P2 # P1 + 1)
          /\ cur' = cur \o C1 \o C2 /\ UNCHANGED <<st, out, bol, dir>> /\ Case
EndQuote == /\ st \in {"str", "chr"} /\ C1 = End
            /\ Go(P1) /\ st' = "gap" /\ cur' = "adj"
            /\ out' = [out EXCEPT ![Len(out)][1] = cur \o C1] /\ UNCHANGED <<bol, dir>> /\ Case

(* Operators: the longest one; a # at the beginning of a line starts a directive *)
Op == IF C1 \o C2 \o C3 \in Punct3 THEN C1 \o C2 \o C3
      ELSE IF C1 \o C2 \in Punct2 THEN C1 \o C2 ELSE C1
OpEnd == IF C1 \o C2 \o C3 \in Punct3 THEN P3 ELSE IF C1 \o C2 \in Punct2 THEN P2 ELSE P1
Punctuator == /\ st = "gap" /\ C1 \in Punct1 /\ ~(C1 = "/" /\ C2 \in {"/", "*"})
              /\ Emit(Op) /\ pos' = OpEnd + 1 /\ cur' = "adj" /\ bol' = FALSE
              /\ dir' = (dir \/ (bol /\ Op = "#"))
              /\ spl' = (spl \/ OpEnd # P1 + Len(Op) - 1)
              /\ UNCHANGED st /\ Case

(* What isn't a token *)
Stop(s) == st' = s /\ UNCHANGED <<pos, cur, out, bol, dir, spl>> /\ Case
Bad == \/ st = "gap" /\ C1 \notin Blank \cup Letter \cup Digit \cup Punct1 \cup {"\n", "\"", "'", "EOF"} /\ Stop("stray")
       \/ st = "block" /\ C1 = "EOF" /\ Stop("comment")
       \/ st \in {"str", "chr"} /\ (C1 \in {"\n", "EOF"} \/ (C1 = "\\" /\ C2 \in {"\n", "EOF"})) /\ Stop("quote")
Finish == /\ st = "gap" /\ C1 = "EOF" /\ st' = "done"
          /\ out' = (IF dir THEN Append(out, <<"<eol>", FALSE>>) ELSE out)
          /\ UNCHANGED <<pos, cur, bol, dir, spl>> /\ Case

Next == \/ Space \/ NewLine \/ LineComment \/ InLine \/ LineEnd \/ BlockComment \/ InBlock \/ BlockEnd
        \/ Word \/ Number \/ More \/ EndWord \/ Quote \/ InQuote \/ Escape \/ EndQuote \/ Punctuator \/ Bad \/ Finish
Spec == Init /\ [][Next]_vars

(* Nothing that was grouped is ever regrouped, and no token could have been longer *)
OutGrows == [][Len(out') >= Len(out) /\ \A i \in 1..(Len(out) - 1) : out'[i] = out[i]]_vars
Wide == Punct2 \cup Punct3
MaxMunch == \A i \in 2..Len(out) : (out[i][2] /\ out[i][1] # "") =>
              \A w \in Wide : LET t == out[i - 1][1] \o out[i][1] IN
                Len(w) <= Len(out[i - 1][1]) \/ Len(w) > Len(t) \/ SubSeq(t, 1, Len(w)) # w
(* there is always exactly one step to take *)
Progress == Live => ENABLED(Next)
Advances == [][pos' > pos \/ st' # st]_vars
Tokens == [i \in 1..Len(out) |-> out[i][1]]
Given == c \in 1..Len(Cases) /\ "tk" \in DOMAIN Cases[c]
Report == ~Live => PrintT("@@" \o ToJson(
            IF Given THEN [c |-> c, eq |-> st = "done" /\ Tokens = Cases[c].tk, m |-> st, sp |-> spl]
            ELSE [c |-> c, t |-> txt, o |-> Tokens, m |-> st, sp |-> spl, d |-> dir]))
=============================================================================
