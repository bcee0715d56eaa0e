------------------------------ MODULE Literal ------------------------------
(***************************************************************************)
(* String literals and character constants: a machine that reads the       *)
(* source characters between the quotes of adjacent string literals and    *)
(* produces the bytes they denote (C99 6.4.4.4, 6.4.5, 5.1.1.2).           *)
(*                                                                         *)
(* CASES_FILE holds cases, each a sequence of adjacent literals, each a    *)
(* sequence of character codes.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == IF "CASES_FILE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.CASES_FILE) ELSE <<>>

VARIABLES
  c, src,   \* the case
  k, pos,   \* literal and position of the next source character
  st,       \* "plain", "esc" (after a backslash), "o1", "o2" (octal digits read), "x0", "x1", "x2" (hexadecimal),
            \* "end", "refused" (not an escape sequence), "undef" (no defined value)
  acc,      \* value of the escape being read
  out       \* bytes
vars == <<c, src, k, pos, st, acc, out>>

Backslash == 92
IsOct(x) == x \in 48..55
IsHex(x) == x \in 48..57 \/ x \in 65..70 \/ x \in 97..102
HexVal(x) == IF x <= 57 THEN x - 48 ELSE IF x <= 70 THEN x - 55 ELSE x - 87
(* a b f n r t v \ ' " ? *)
Simple == (97 :> 7) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9) @@ (118 :> 11)
          @@ (92 :> 92) @@ (39 :> 39) @@ (34 :> 34) @@ (63 :> 63)

Start(n, s) == c = n /\ src = s /\ k = 1 /\ pos = 1 /\ st = "plain" /\ acc = 0 /\ out = <<>>
Init == \E n \in 1..Len(Cases) : Start(n, Cases[n])

Live == st \notin {"end", "refused", "undef"}
InLit == k <= Len(src) /\ pos <= Len(src[k])
Cur == src[k][pos]
Take == pos' = pos + 1 /\ UNCHANGED <<c, src, k>>
Stay == UNCHANGED <<c, src, k, pos>>
Stop(s) == st' = s /\ UNCHANGED <<c, src, k, pos, acc, out>>

Plain == /\ st = "plain" /\ InLit /\ Cur # Backslash
         /\ Take /\ out' = Append(out, Cur) /\ UNCHANGED <<st, acc>>
Escape == /\ st = "plain" /\ InLit /\ Cur = Backslash
          /\ Take /\ st' = "esc" /\ UNCHANGED <<acc, out>>
SimpleEscape == /\ st = "esc" /\ InLit /\ Cur \in DOMAIN Simple
                /\ Take /\ st' = "plain" /\ out' = Append(out, Simple[Cur]) /\ UNCHANGED acc
(* At most three octal digits *)
Octal1 == /\ st = "esc" /\ InLit /\ IsOct(Cur)
          /\ Take /\ st' = "o1" /\ acc' = Cur - 48 /\ UNCHANGED out
OctalMore == /\ st \in {"o1", "o2"} /\ InLit /\ IsOct(Cur)
             /\ LET v == acc * 8 + Cur - 48 IN
                IF st = "o1" THEN Take /\ st' = "o2" /\ acc' = v /\ UNCHANGED out
                ELSE IF v > 255 THEN Stop("undef")
                ELSE Take /\ st' = "plain" /\ acc' = 0 /\ out' = Append(out, v)
(* A hexadecimal escape ends at the first character that isn't a digit; its value must fit *)
HexStart == /\ st = "esc" /\ InLit /\ Cur = 120
            /\ Take /\ st' = "x0" /\ acc' = 0 /\ UNCHANGED out
Hex == /\ st \in {"x0", "x1", "x2"} /\ InLit /\ IsHex(Cur)
       /\ IF acc * 16 + HexVal(Cur) > 255 \/ st = "x2" THEN Stop("undef")
          ELSE Take /\ st' = (IF st = "x0" THEN "x1" ELSE "x2") /\ acc' = acc * 16 + HexVal(Cur) /\ UNCHANGED out
(* The end of a numeric escape: another character or the end of the literal *)
NumEnd == /\ \/ st \in {"o1", "o2"} /\ (InLit => ~IsOct(Cur))
             \/ st \in {"x1", "x2"} /\ (InLit => ~IsHex(Cur))
          /\ Stay /\ st' = "plain" /\ acc' = 0 /\ out' = Append(out, acc)
(* What is not an escape sequence of C has no meaning; compilers must not guess *)
BadEscape == \/ st = "esc" /\ InLit /\ Cur \notin DOMAIN Simple /\ ~IsOct(Cur) /\ Cur # 120 /\ Stop("refused")
             \/ st = "x0" /\ (InLit => ~IsHex(Cur)) /\ Stop("refused")
(* a literal cannot end after a backslash: the quote would be escaped *)
NotALiteral == st = "esc" /\ ~InLit /\ Stop("undef")
(* Escapes never continue in the next literal *)
NextLiteral == /\ st = "plain" /\ ~InLit /\ k < Len(src)
               /\ k' = k + 1 /\ pos' = 1 /\ UNCHANGED <<c, src, st, acc, out>>
Terminate == /\ st = "plain" /\ ~InLit /\ k = Len(src)
             /\ st' = "end" /\ out' = Append(out, 0) /\ UNCHANGED <<c, src, k, pos, acc>>
Next == \/ Plain \/ Escape \/ SimpleEscape \/ Octal1 \/ OctalMore \/ HexStart \/ Hex \/ NumEnd
        \/ BadEscape \/ NotALiteral \/ NextLiteral \/ Terminate
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in 1..Len(out) : out[i] \in 0..255
(* no literal is longer than its source, and there is always exactly one step to take *)
Bounded == k = 1 => Len(out) <= pos
OutGrows == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
Progress == Live => ENABLED(Next)
Report == ~Live => PrintT("@@" \o ToJson([c |-> c, s |-> src, o |-> out, m |-> st]))
=============================================================================
