------------------------------- MODULE Printf -------------------------------
(***************************************************************************)
(* What printf writes: a machine that reads a format one character at a    *)
(* time (C99 7.19.6.1), restricted to conversions of int and of strings.   *)
(*                                                                         *)
(* CASES_FILE holds a sequence of calls [f: character codes of the format, *)
(* a: arguments [t: "i" or "s", v: value, s: character codes]].            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == IF "CASES_FILE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.CASES_FILE) ELSE <<>>

NONE == -1
VARIABLES
  c,      \* the call
  fmt, args,
  pos,    \* next character of the format
  arg,    \* next argument
  st,     \* "text", "flags", "width", "dot", "prec", "len", or "end"
  fl, w, p, l,   \* conversion being read: flags, width, precision (NONE if absent), length modifiers
  out,    \* characters written
  why     \* features of the conversions met, by which the driver recognises documented restrictions
vars == <<c, fmt, args, pos, arg, st, fl, w, p, l, out, why>>

(* Characters *)
PCT == 37   DOT == 46   STAR == 42   MINUS == 45   PLUS == 43   SPACE == 32   HASH == 35   ZERO == 48
Flags == {MINUS, PLUS, SPACE, HASH, ZERO}
IsDigit(x) == x \in 48..57
dd == 100  ii == 105  uu == 117  oo == 111  xx == 120  XX == 88  cc == 99  ss == 115  ll == 108

(***************************************************************************)
(* Conversions                                                             *)
(***************************************************************************)
RECURSIVE Digits(_, _, _)
Digits(v, b, upper) == LET k == v % b
                           ch == IF k < 10 THEN 48 + k ELSE (IF upper THEN 55 ELSE 87) + k
                       IN IF v < b THEN <<ch>> ELSE Append(Digits(v \div b, b, upper), ch)
Rep(x, n) == [j \in 1..(IF n < 0 THEN 0 ELSE n) |-> x]
(* pads s with spaces to the width *)
Pad(s, width, left) == IF left THEN s \o Rep(SPACE, width - Len(s)) ELSE Rep(SPACE, width - Len(s)) \o s
(* sign or prefix, then digits, padded between both with zeros when the flag says so *)
PadNum(pre, ds, f, width, prec) ==
  IF ZERO \in f /\ MINUS \notin f /\ prec = NONE
  THEN pre \o Rep(ZERO, width - Len(pre) - Len(ds)) \o ds
  ELSE Pad(pre \o ds, width, MINUS \in f)
(* at least prec digits; none for the value 0 with precision 0 *)
Prec(v, b, upper, prec) ==
  IF v = 0 /\ prec = 0 THEN <<>>
  ELSE LET ds == Digits(v, b, upper) IN Rep(ZERO, prec - Len(ds)) \o ds
Signed(v, f, width, prec) ==
  LET ds == Prec(IF v < 0 THEN -v ELSE v, 10, FALSE, prec)
      sign == IF v < 0 THEN <<MINUS>> ELSE IF PLUS \in f THEN <<PLUS>> ELSE IF SPACE \in f THEN <<SPACE>> ELSE <<>>
  IN PadNum(sign, ds, f, width, prec)
Unsigned(v, cv, f, width, prec) ==
  CASE cv = uu -> PadNum(<<>>, Prec(v, 10, FALSE, prec), f, width, prec)
    [] cv = oo -> LET ds == Prec(v, 8, FALSE, prec)      \* "#": the first digit is made a zero
                      d2 == IF HASH \in f /\ (ds = <<>> \/ ds[1] # ZERO) THEN <<ZERO>> \o ds ELSE ds
                  IN PadNum(<<>>, d2, f, width, prec)
    [] OTHER -> LET ds == Prec(v, 16, cv = XX, prec)
                    pre == IF HASH \in f /\ v # 0 THEN <<ZERO, cv>> ELSE <<>>
                IN PadNum(pre, ds, f, width, prec)
Min(a, b) == IF a < b THEN a ELSE b
Str(s, width, prec, f) == Pad(IF prec = NONE THEN s ELSE SubSeq(s, 1, Min(prec, Len(s))), width, MINUS \in f)

(* Combinations that C leaves undefined *)
Undefined(cv, v) ==
  \/ HASH \in fl /\ cv \notin {oo, xx, XX}
  \/ ZERO \in fl /\ cv \in {cc, ss}
  \/ (PLUS \in fl \/ SPACE \in fl) /\ cv \notin {dd, ii}
  \/ cv \in {uu, oo, xx, XX} /\ v < 0
  \/ cv = cc /\ (v \notin 0..255 \/ p # NONE)
  \/ l > 0 /\ cv \in {cc, ss}
  \/ l > 2
Convert(cv, a) == CASE cv \in {dd, ii} -> Signed(a.v, fl, w, p)
                    [] cv \in {uu, oo, xx, XX} -> Unsigned(a.v, cv, fl, w, p)
                    [] cv = cc -> Pad(<<a.v>>, w, MINUS \in fl)
                    [] cv = ss -> Str(a.s, w, p, fl)
Kind(cv) == IF cv = ss THEN "s" ELSE "i"

(* Features *)
Feat(cv, a) ==
     (IF cv = cc /\ w > 0 THEN {"cwidth"} ELSE {})
  \cup (IF ZERO \in fl /\ p # NONE THEN {"zero-prec"} ELSE {})
  \cup (IF HASH \in fl THEN {"hash"} ELSE {})
  \cup (IF l > 0 THEN {"long"} ELSE {})
  \cup (IF cv = ss /\ (LET s == Str(a.s, 0, p, {}) IN Len(s) > 0 /\ s[Len(s)] = 10) THEN {"newline"} ELSE {})
  \cup (IF cv = ss /\ (w > 0 \/ p # NONE \/ "star" \in why) /\ (LET s == Str(a.s, 0, p, {}) IN Len(s) > 0 /\ s[Len(s)] = 10) THEN {"newline-width"} ELSE {})
  \cup (IF cv = ss /\ (w > 0 \/ p # NONE \/ "star" \in why) /\ (\E j \in 1..Len(a.s) : a.s[j] > 127) THEN {"multibyte"} ELSE {})

(***************************************************************************)
(* The machine                                                             *)
(***************************************************************************)
Start(k, f, a) ==
  /\ c = k /\ fmt = f /\ args = a
  /\ pos = 1 /\ arg = 1 /\ st = "text" /\ fl = {} /\ w = 0 /\ p = NONE /\ l = 0 /\ out = <<>> /\ why = {}
Init == \E k \in 1..Len(Cases) : Start(k, Cases[k].f, Cases[k].a)

Ch == fmt[pos]
More == pos <= Len(fmt)
Live == st \notin {"end", "bad", "unsupported"}
In(S) == Live /\ More /\ st \in S
Adv == pos' = pos + 1
Same(v) == UNCHANGED v
HaveArg(t) == arg <= Len(args) /\ args[arg].t = t

Text == /\ In({"text"}) /\ Ch # PCT
        /\ Adv /\ out' = Append(out, Ch) /\ Same(<<c, fmt, args, arg, st, fl, w, p, l, why>>)
Percent == /\ In({"text"}) /\ Ch = PCT
           /\ Adv /\ st' = "flags" /\ fl' = {} /\ w' = 0 /\ p' = NONE /\ l' = 0 /\ Same(<<c, fmt, args, arg, out, why>>)
Flag == /\ In({"flags"}) /\ Ch \in Flags
        /\ Adv /\ fl' = fl \cup {Ch} /\ Same(<<c, fmt, args, arg, st, w, p, l, out, why>>)
(* a literal width starts with a digit other than 0, which is a flag *)
Width == /\ In({"flags", "width"}) /\ IsDigit(Ch) /\ (st = "flags" => Ch # ZERO)
         /\ Adv /\ st' = "width" /\ w' = 10 * w + Ch - 48 /\ Same(<<c, fmt, args, arg, fl, p, l, out, why>>)
StarWidth == /\ In({"flags"}) /\ Ch = STAR /\ HaveArg("i")
             /\ LET v == args[arg].v IN      \* a negative width is the flag - and a width
                /\ w' = (IF v < 0 THEN -v ELSE v) /\ fl' = (IF v < 0 THEN fl \cup {MINUS} ELSE fl)
                /\ why' = why \cup {"star"} \cup (IF v < 0 THEN {"negwidth"} ELSE {})
             /\ Adv /\ arg' = arg + 1 /\ st' = "dot" /\ Same(<<c, fmt, args, p, l, out>>)
Dot == /\ In({"flags", "width", "dot"}) /\ Ch = DOT
       /\ Adv /\ st' = "prec" /\ p' = 0
       /\ why' = why \cup (IF pos < Len(fmt) /\ fmt[pos + 1] = ZERO THEN {"prec0"} ELSE {})
                     \cup (IF pos < Len(fmt) /\ ~IsDigit(fmt[pos + 1]) /\ fmt[pos + 1] # STAR THEN {"emptyprec"} ELSE {})
       /\ Same(<<c, fmt, args, arg, fl, w, l, out>>)
Precision == /\ In({"prec"}) /\ IsDigit(Ch)
             /\ Adv /\ p' = 10 * p + Ch - 48 /\ Same(<<c, fmt, args, arg, st, fl, w, l, out, why>>)
StarPrec == /\ In({"prec"}) /\ Ch = STAR /\ fmt[pos - 1] = DOT /\ HaveArg("i")
            /\ LET v == args[arg].v IN       \* a negative precision is as if absent
               p' = (IF v < 0 THEN NONE ELSE v) /\ why' = why \cup {"star"} \cup (IF v < 0 THEN {"negprec"} ELSE {})
            /\ Adv /\ arg' = arg + 1 /\ st' = "len" /\ Same(<<c, fmt, args, fl, w, l, out>>)
Long == /\ In({"flags", "width", "dot", "prec", "len"}) /\ Ch = ll
        /\ Adv /\ st' = "len" /\ l' = l + 1 /\ Same(<<c, fmt, args, arg, fl, w, p, out, why>>)
Specs == {dd, ii, uu, oo, xx, XX, cc, ss}
InSpec == {"flags", "width", "dot", "prec", "len"}
Do == /\ In(InSpec) /\ Ch \in Specs /\ HaveArg(Kind(Ch)) /\ ~Undefined(Ch, args[arg].v)
      /\ LET r == Convert(Ch, args[arg]) IN
         /\ Assert(Len(r) >= w, "shorter than the width")
         /\ out' = out \o r
      /\ why' = why \cup Feat(Ch, args[arg])
      /\ Adv /\ arg' = arg + 1 /\ st' = "text" /\ Same(<<c, fmt, args, fl, w, p, l>>)
PctPct == /\ In({"flags"}) /\ Ch = PCT /\ fmt[pos - 1] = PCT
          /\ Adv /\ out' = Append(out, PCT) /\ st' = "text" /\ Same(<<c, fmt, args, arg, fl, w, p, l, why>>)
(* The conversions that pnut doesn't know, and %% with flags, width or precision *)
Others == {PCT, 97, 101, 102, 103, 104, 106, 110, 112, 113, 116, 122, 65, 67, 68, 69, 70, 71, 76, 83, 121, 107}
Unsupported == /\ In(InSpec) /\ Ch \in Others /\ ~(Ch = PCT /\ fmt[pos - 1] = PCT) /\ l = 0
               /\ st' = "unsupported" /\ Same(<<c, fmt, args, pos, arg, fl, w, p, l, out, why>>)
Defined == \/ Text \/ Percent \/ Flag \/ Width \/ StarWidth \/ Dot \/ Precision \/ StarPrec \/ Long \/ Do \/ PctPct \/ Unsupported
End == /\ Live /\ ~More /\ st = "text"
       /\ st' = "end" /\ Same(<<c, fmt, args, pos, arg, fl, w, p, l, out, why>>)
(* everything else (missing or mismatching arguments, unfinished or unknown conversions) is undefined *)
Bad == /\ Live /\ ~ENABLED(Defined) /\ ~ENABLED(End)
       /\ st' = "bad" /\ Same(<<c, fmt, args, pos, arg, fl, w, p, l, out, why>>)
Next == Defined \/ End \/ Bad
Spec == Init /\ [][Next]_vars

TypeOK == /\ st \in {"text", "flags", "width", "dot", "prec", "len", "end", "bad", "unsupported"}
          /\ fl \subseteq Flags /\ w >= 0 /\ p >= NONE /\ \A j \in 1..Len(out) : out[j] \in 0..255
(* What has been written is never taken back *)
OutGrows == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
Report == ~Live => PrintT("@@" \o ToJson([c |-> c, f |-> fmt, a |-> args, o |-> out, m |-> st, y |-> why]))
=============================================================================
