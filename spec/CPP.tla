-------------------------------- MODULE CPP --------------------------------
(***************************************************************************)
(* The C preprocessor as a state machine over logical lines.  A state is   *)
(* the stack of files being read (with the position in each), the stack of *)
(* conditionals, the macro table and the tokens produced so far; each      *)
(* transition handles one directive or one run of text lines.              *)
(*                                                                         *)
(* CASES_FILE: a sequence of cases, each with                              *)
(*   f   files, sequences of items [k, ln, ...] (ln: line of the item)     *)
(*   fs  the file system: path -> index in f                               *)
(*   top path of the main file                                             *)
(* items: t (toks)  def (name, fn, ps, body)  undef (name)  ifdef ifndef   *)
(*        (name)  if elif (toks)  else  endif  inc (sub, name)  err        *)
(*        inca (sub, name: looked up in the search path)                   *)
(*        raw (any other directive, only meaningful in skipped groups)     *)
(*        bad (text that no program may contain, for error locations)      *)
(* tokens: [k, s] with k one of "id", "int", "p" (punctuator), "str"       *)
(***************************************************************************)
EXTENDS CInt, Sequences, FiniteSets, TLC, Json, IOUtils

ASSUME "CASES_FILE" \in DOMAIN IOEnv
Cases == JsonDeserialize(IOEnv.CASES_FILE)

VARIABLES
  c,       \* case
  hm,      \* how the hide set of a function-like macro is formed where C leaves it unspecified
  stack,   \* files being read: [f, i, path, dir], the innermost last
  conds,   \* open conditionals: [active (of the enclosing text), taken, live, depth (files open)]
  macros,  \* name -> [fn, ps, body]
  out,     \* tokens produced
  mode     \* "run", "done", "err" (#error reached), "U" (outside the specification)

vars == <<c, hm, stack, conds, macros, out, mode>>

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

Tk(k, s, h) == [k |-> k, s |-> s, h |-> h]
Fresh(ts) == [i \in DOMAIN ts |-> Tk(ts[i].k, ts[i].s, {})]
IsP(t, s) == t.k = "p" /\ t.s = s

(***************************************************************************)
(* Macro expansion (C 6.10.3), with hide sets.  M: macro table, L and F:   *)
(* values of __LINE__ and __FILE__.  Results: o tokens, b what makes the   *)
(* text invalid or leaves it outside this specification ("" if nothing).   *)
(***************************************************************************)
MaxOut == 400

RECURSIVE ArgsOf(_, _, _, _)
ArgsOf(ts, depth, cur, acc) ==
  IF ts = <<>> THEN [a |-> <<>>, r |-> <<>>, h |-> {}, b |-> "unterminated"]
  ELSE LET t == Head(ts) IN
       IF IsP(t, ")") /\ depth = 0 THEN [a |-> Append(acc, cur), r |-> Tail(ts), h |-> t.h, b |-> ""]
       ELSE IF IsP(t, ",") /\ depth = 0 THEN ArgsOf(Tail(ts), 0, <<>>, Append(acc, cur))
       ELSE ArgsOf(Tail(ts), depth + (IF IsP(t, "(") THEN 1 ELSE IF IsP(t, ")") THEN -1 ELSE 0), Append(cur, t), acc)

\* The token written a##b; other combinations are outside this specification
Paste(a, b) ==
  IF a.k = "id" /\ b.k \in {"id", "int"} THEN Tk("id", a.s \o b.s, a.h \cap b.h)
  ELSE IF a.k = "int" /\ b.k = "int" /\ SubSeq(a.s, 1, 1) # "0" THEN Tk("int", a.s \o b.s, a.h \cap b.h)
  ELSE Tk("bad", "paste", {})
Glue(l, r) == IF l = <<>> THEN r ELSE IF r = <<>> THEN l
              ELSE Front(l) \o <<Paste(Last(l), Head(r))>> \o Tail(r)

ParamIx(d, t) == IF d.fn /\ t.k = "id" /\ \E i \in DOMAIN d.ps : d.ps[i] = t.s
                 THEN CHOOSE i \in DOMAIN d.ps : d.ps[i] = t.s ELSE 0
\* # applied to an argument that is a single token
Str(a) == IF Len(a) = 1 /\ a[1].k = "id" THEN Tk("str", a[1].s, {}) ELSE Tk("bad", "stringify", {})

\* raw: the arguments as written; full: completely expanded
RECURSIVE Subst(_, _, _, _, _)
Operand(d, i, raw) ==
  LET p == ParamIx(d, d.body[i]) IN IF p > 0 THEN raw[p] ELSE <<Tk(d.body[i].k, d.body[i].s, {})>>
RECURSIVE Chain(_, _, _, _)
Chain(d, i, raw, cur) ==       \* body[i] is the token after an operand of ##
  IF i < Len(d.body) /\ IsP(d.body[i], "##") THEN Chain(d, i + 2, raw, Glue(cur, Operand(d, i + 1, raw)))
  ELSE [i |-> i, o |-> cur]
Subst(d, i, raw, full, o) ==
  IF i > Len(d.body) THEN o
  ELSE IF d.fn /\ IsP(d.body[i], "#") THEN
         IF i < Len(d.body) /\ ParamIx(d, d.body[i + 1]) > 0
         THEN Subst(d, i + 2, raw, full, Append(o, Str(raw[ParamIx(d, d.body[i + 1])])))
         ELSE <<Tk("bad", "#", {})>>
  ELSE IF i < Len(d.body) /\ IsP(d.body[i + 1], "##")
       THEN LET ch == Chain(d, i + 1, raw, Operand(d, i, raw)) IN Subst(d, ch.i, raw, full, o \o ch.o)
  ELSE LET p == ParamIx(d, d.body[i]) IN
       Subst(d, i + 1, raw, full, IF p > 0 THEN o \o full[p] ELSE Append(o, Tk(d.body[i].k, d.body[i].s, {})))

Hide(ts, h) == [i \in DOMAIN ts |-> [ts[i] EXCEPT !.h = @ \cup h]]

\* ctx: H how hide sets are formed, M macros, L line, F file
RECURSIVE Expand(_, _, _, _)
Expand(ts, o, ctx, fuel) ==
  IF fuel = 0 \/ Len(o) > MaxOut \/ Len(ts) > MaxOut THEN [o |-> o, b |-> "big"]
  ELSE IF ts = <<>> THEN [o |-> o, b |-> IF \E i \in DOMAIN o : o[i].k = "bad" THEN "bad" ELSE ""]
  ELSE LET t == Head(ts)
           r == Tail(ts)
       IN
  IF t.k # "id" THEN Expand(r, Append(o, t), ctx, fuel)
  ELSE IF t.s \in t.h THEN Expand(r, Append(o, t), ctx, fuel)
  ELSE IF t.s \notin DOMAIN ctx.M
  THEN IF t.s = "__LINE__" THEN Expand(r, Append(o, Tk("int", ToString(ctx.L), {})), ctx, fuel)
       ELSE IF t.s = "__FILE__" THEN Expand(r, Append(o, Tk("str", ctx.F, {})), ctx, fuel)
       ELSE Expand(r, Append(o, t), ctx, fuel)
  ELSE LET d == ctx.M[t.s] IN
  IF ~d.fn THEN Expand(Hide(Subst(d, 1, <<>>, <<>>, <<>>), t.h \cup {t.s}) \o r, o, ctx, fuel - 1)
  ELSE IF r = <<>> \/ ~IsP(Head(r), "(") THEN Expand(r, Append(o, t), ctx, fuel)
  ELSE LET a == ArgsOf(Tail(r), 0, <<>>, <<>>)
           none == Len(d.ps) = 0 /\ a.a = << <<>> >>
       IN
  IF a.b # "" THEN [o |-> o, b |-> a.b]
  ELSE IF ~none /\ Len(a.a) # Len(d.ps) THEN [o |-> o, b |-> "arity"]
  ELSE LET e == [i \in DOMAIN d.ps |-> Expand(a.a[i], <<>>, ctx, fuel - 1)]
           used == {ParamIx(d, d.body[i]) : i \in DOMAIN d.body}
           full == [i \in DOMAIN d.ps |-> IF i \in used THEN e[i].o ELSE <<>>]
           h == IF ctx.H = "name" THEN t.h ELSE t.h \cap a.h
       IN
  IF \E i \in DOMAIN d.ps : i \in used /\ e[i].b # "" THEN [o |-> o, b |-> e[CHOOSE i \in DOMAIN d.ps : i \in used /\ e[i].b # ""].b]
  ELSE Expand(Hide(Subst(d, 1, a.a, full, <<>>), h \cup {t.s}) \o a.r, o, ctx, fuel - 1)

(***************************************************************************)
(* Conditions (C 6.10.1): defined, macro expansion, remaining identifiers  *)
(* are 0, constant expression by precedence climbing.                      *)
(***************************************************************************)
RECURSIVE Defineds(_, _, _)
Defineds(ts, o, M) ==
  IF ts = <<>> THEN o
  ELSE IF Head(ts).k = "id" /\ Head(ts).s = "defined" THEN
     LET par == Len(ts) >= 4 /\ IsP(ts[2], "(")
         nm == IF par THEN ts[3].s ELSE ts[2].s
         v == Tk("int", IF nm \in DOMAIN M \cup {"__LINE__", "__FILE__"} THEN "1" ELSE "0", {})
     IN Defineds(SubSeq(ts, IF par THEN 5 ELSE 3, Len(ts)), Append(o, v), M)
  ELSE Defineds(Tail(ts), Append(o, Head(ts)), M)

Prec(t) == IF t.k # "p" THEN 0 ELSE
  CASE t.s = "||" -> 1 [] t.s = "&&" -> 2 [] t.s = "|" -> 3 [] t.s = "^" -> 4 [] t.s = "&" -> 5
    [] t.s \in {"==", "!="} -> 6 [] t.s \in {"<", "<=", ">", ">="} -> 7 [] t.s \in {"<<", ">>"} -> 8
    [] t.s \in {"+", "-"} -> 9 [] t.s \in {"*", "/", "%"} -> 10 [] OTHER -> 0

Digits == "0123456789abcdefABCDEF"
DigitVal == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
             CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
               [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
RECURSIVE NumVal(_, _, _)
NumVal(s, i, v) == IF i > Len(s) THEN v
                   ELSE NumVal(s, i + 1, Add(Mul(v, 10), DigitVal[SubSeq(s, i, i)]))

Err == <<"err">>
RECURSIVE PCond(_)
RECURSIVE PBin(_, _)
RECURSIVE PBinRest(_, _, _)
RECURSIVE PUn(_)
PUn(ts) ==
  IF ts = <<>> THEN [a |-> Err, r |-> <<>>]
  ELSE LET t == Head(ts) IN
  IF t.k = "int" THEN [a |-> <<"n", NumVal(t.s, 1, 0)>>, r |-> Tail(ts)]
  ELSE IF t.k = "id" THEN [a |-> <<"n", 0>>, r |-> Tail(ts)]
  ELSE IF t.k = "p" /\ t.s \in {"-", "~", "!", "+"} THEN LET x == PUn(Tail(ts)) IN [a |-> <<"u", t.s, x.a>>, r |-> x.r]
  ELSE IF IsP(t, "(") THEN LET x == PCond(Tail(ts)) IN
       IF x.r # <<>> /\ IsP(Head(x.r), ")") THEN [a |-> x.a, r |-> Tail(x.r)] ELSE [a |-> Err, r |-> <<>>]
  ELSE [a |-> Err, r |-> <<>>]
PBinRest(l, ts, p) ==
  IF ts = <<>> \/ Prec(Head(ts)) = 0 \/ Prec(Head(ts)) < p THEN [a |-> l, r |-> ts]
  ELSE LET x == PBin(Tail(ts), Prec(Head(ts)) + 1)
       IN PBinRest(<<"b", Head(ts).s, l, x.a>>, x.r, p)
PBin(ts, p) == LET x == PUn(ts) IN PBinRest(x.a, x.r, p)
PCond(ts) ==
  LET x == PBin(ts, 1) IN
  IF x.r # <<>> /\ IsP(Head(x.r), "?") THEN
    LET y == PCond(Tail(x.r)) IN
    IF y.r # <<>> /\ IsP(Head(y.r), ":") THEN LET z == PCond(Tail(y.r)) IN [a |-> <<"?", x.a, y.a, z.a>>, r |-> z.r]
    ELSE [a |-> Err, r |-> <<>>]
  ELSE x

RECURSIVE EvalC(_)
EvalC(a) ==
  CASE a[1] = "err" -> BAD
    [] a[1] = "n" -> a[2]
    [] a[1] = "u" -> UnOp(a[2], EvalC(a[3]))
    [] a[1] = "?" -> LET v == EvalC(a[2]) IN IF v = BAD THEN BAD ELSE IF v # 0 THEN EvalC(a[3]) ELSE EvalC(a[4])
    [] a[1] = "b" ->
       LET v == EvalC(a[3]) IN
       IF a[2] = "&&" THEN (IF v = BAD THEN BAD ELSE IF v = 0 THEN 0 ELSE LET w == EvalC(a[4]) IN IF w = BAD THEN BAD ELSE Bool(w # 0))
       ELSE IF a[2] = "||" THEN (IF v = BAD THEN BAD ELSE IF v # 0 THEN 1 ELSE LET w == EvalC(a[4]) IN IF w = BAD THEN BAD ELSE Bool(w # 0))
       ELSE BinOp(a[2], v, EvalC(a[4]))

RECURSIVE WellFormed(_)
WellFormed(a) ==
  CASE a[1] = "err" -> FALSE [] a[1] = "n" -> TRUE
    [] a[1] = "u" -> WellFormed(a[3])
    [] a[1] = "b" -> WellFormed(a[3]) /\ WellFormed(a[4])
    [] a[1] = "?" -> WellFormed(a[2]) /\ WellFormed(a[3]) /\ WellFormed(a[4])

Condition(ts, ctx) ==     \* value, BAD when there is none
  LET e == Expand(Defineds(Fresh(ts), <<>>, ctx.M), <<>>, ctx, 60)
      x == PCond(e.o)
  IN IF e.b # "" \/ x.r # <<>> \/ ~WellFormed(x.a) THEN BAD ELSE EvalC(x.a)

(***************************************************************************)
(* Directives                                                              *)
(***************************************************************************)
Init == /\ c \in 1..Len(Cases)
        /\ hm \in {"cap", "name"}
        /\ stack = <<[f |-> Cases[c].fs[Cases[c].top], i |-> 1, path |-> Cases[c].top, dir |-> Cases[c].dir]>>
        /\ conds = <<>> /\ macros = [s \in {} |-> 0] /\ out = <<>> /\ mode = "run"

Top == Last(stack)
Items == Cases[c].f[Top.f]
It == Items[Top.i]
Live == \A i \in DOMAIN conds : conds[i].live
Advanced == [stack EXCEPT ![Len(stack)].i = @ + 1]
Ctx == [H |-> hm, M |-> macros, L |-> It.ln, F |-> Top.path]
Keep(v) == UNCHANGED v

Stop(m) == mode' = m /\ UNCHANGED <<c, hm, stack, conds, macros, out>>

Text ==
  IF ~Live THEN stack' = Advanced /\ UNCHANGED <<c, hm, conds, macros, out, mode>>
  ELSE LET e == Expand(Fresh(It.toks), <<>>, Ctx, 60) IN
       IF e.b # "" THEN Stop(e.b)
       ELSE /\ out' = out \o [i \in DOMAIN e.o |-> <<e.o[i].k, e.o[i].s>>]
            /\ stack' = Advanced /\ UNCHANGED <<c, hm, conds, macros, mode>>

Define == /\ macros' = IF Live THEN [s \in DOMAIN macros \cup {It.name} |->
                                     IF s = It.name THEN [fn |-> It.fn, ps |-> It.ps, body |-> It.body] ELSE macros[s]] ELSE macros
          /\ stack' = Advanced /\ UNCHANGED <<c, hm, conds, out, mode>>
Undef == /\ macros' = IF Live THEN [s \in DOMAIN macros \ {It.name} |-> macros[s]] ELSE macros
         /\ stack' = Advanced /\ UNCHANGED <<c, hm, conds, out, mode>>

Open(v) == /\ conds' = Append(conds, [taken |-> v, live |-> v, els |-> FALSE, depth |-> Len(stack)])
           /\ stack' = Advanced /\ UNCHANGED <<c, hm, macros, out, mode>>
IfDef == Open(Live /\ (It.name \in DOMAIN macros \cup {"__LINE__", "__FILE__"}) = (It.k = "ifdef"))
If == IF ~Live THEN Open(FALSE)
      ELSE LET v == Condition(It.toks, Ctx) IN IF v = BAD THEN Stop("U") ELSE Open(v # 0)
Outer == \A i \in 1..(Len(conds) - 1) : conds[i].live
Own == conds # <<>> /\ Last(conds).depth = Len(stack)     \* the conditional was opened in this file
Elif ==
  IF ~Own \/ Last(conds).els THEN Stop("unbalanced")
  ELSE IF ~Outer \/ Last(conds).taken
  THEN /\ conds' = [conds EXCEPT ![Len(conds)].live = FALSE]
       /\ stack' = Advanced /\ UNCHANGED <<c, hm, macros, out, mode>>
  ELSE LET v == Condition(It.toks, Ctx) IN
       IF v = BAD THEN Stop("U")
       ELSE /\ conds' = [conds EXCEPT ![Len(conds)].live = (v # 0), ![Len(conds)].taken = (v # 0)]
            /\ stack' = Advanced /\ UNCHANGED <<c, hm, macros, out, mode>>
Else ==
  IF ~Own \/ Last(conds).els THEN Stop("unbalanced")
  ELSE /\ conds' = [conds EXCEPT ![Len(conds)].live = Outer /\ ~Last(conds).taken, ![Len(conds)].taken = TRUE, ![Len(conds)].els = TRUE]
       /\ stack' = Advanced /\ UNCHANGED <<c, hm, macros, out, mode>>
Endif ==
  IF ~Own THEN Stop("unbalanced")
  ELSE /\ conds' = Front(conds) /\ stack' = Advanced /\ UNCHANGED <<c, hm, macros, out, mode>>

Include ==
  IF ~Live \/ (It.k = "inca" /\ Cases[c].search = "") THEN stack' = Advanced /\ UNCHANGED <<c, hm, conds, macros, out, mode>>
  ELSE LET dir == (IF It.k = "inca" THEN Cases[c].search ELSE Top.dir) \o It.sub
           path == dir \o It.name
       IN IF path \notin DOMAIN Cases[c].fs THEN Stop("nofile")
          ELSE IF Len(stack) > 12 THEN Stop("U")
          ELSE /\ stack' = Append(Advanced, [f |-> Cases[c].fs[path], i |-> 1, path |-> path, dir |-> dir])
               /\ UNCHANGED <<c, hm, conds, macros, out, mode>>
Error == IF Live THEN Stop("err") ELSE stack' = Advanced /\ UNCHANGED <<c, hm, conds, macros, out, mode>>

\* #warning and the null directive: nothing
Inert == stack' = Advanced /\ UNCHANGED <<c, hm, conds, macros, out, mode>>

Other == IF Live THEN Stop("U") ELSE stack' = Advanced /\ UNCHANGED <<c, hm, conds, macros, out, mode>>

\* text that no program may contain
Bad == IF Live THEN Stop("bad") ELSE stack' = Advanced /\ UNCHANGED <<c, hm, conds, macros, out, mode>>

EndOfFile ==
  IF \E i \in DOMAIN conds : conds[i].depth = Len(stack) THEN Stop("unbalanced")
  ELSE IF Len(stack) = 1 THEN Stop("done")
  ELSE stack' = Front(stack) /\ UNCHANGED <<c, hm, conds, macros, out, mode>>

Next ==
  /\ mode = "run"
  /\ IF Top.i > Len(Items) THEN EndOfFile
     ELSE CASE It.k = "t" -> Text
            [] It.k = "def" -> Define [] It.k = "undef" -> Undef
            [] It.k \in {"ifdef", "ifndef"} -> IfDef [] It.k = "if" -> If
            [] It.k = "elif" -> Elif [] It.k = "else" -> Else [] It.k = "endif" -> Endif
            [] It.k \in {"inc", "inca"} -> Include [] It.k = "err" -> Error
            [] It.k \in {"null", "warn"} -> Inert [] It.k = "raw" -> Other [] It.k = "bad" -> Bad

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the specification                                         *)
(***************************************************************************)
TypeOK == /\ mode \in {"run", "done", "err", "U", "unbalanced", "nofile", "unterminated", "arity", "bad", "big"}
          /\ \A i \in DOMAIN conds : conds[i].live => conds[i].taken
          /\ \A i \in DOMAIN conds : conds[i].depth \in 1..Len(stack)
\* Text is only added, and only when every open conditional is live
OutGrows == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out /\ (out' # out => Live)]_vars
\* At most one group of a conditional is ever taken
OneGroup == [][(Len(conds') = Len(conds) /\ conds # <<>> /\ Last(conds).taken) => (Last(conds').live => Last(conds).live)]_vars
\* Skipped directives change nothing
SkipInert == [][~Live => (macros' = macros /\ out' = out)]_vars

Report == mode # "run" => PrintT("@@" \o ToJson([c |-> c, m |-> mode, o |-> out, p |-> Top.path, l |-> IF Top.i <= Len(Items) THEN It.ln ELSE 0]))
=============================================================================
