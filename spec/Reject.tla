------------------------------- MODULE Reject -------------------------------
(***************************************************************************)
(* Which programs the compiler refuses.  A program is a sequence of        *)
(* operations, read once from left to right with a stack of the constructs *)
(* that are open; for every backend the verdict is                         *)
(*    "ok"    the program must be accepted                                 *)
(*    "may"   the program may be refused or accepted                       *)
(*    "bad"   the program must be refused                                  *)
(* Backends: "sh" the shell, "exe" the native ones, "safe" the native ones *)
(* built in safe mode.                                                     *)
(*                                                                         *)
(* Operations (records with a field k):                                    *)
(*   fn n            a function whose parameter is called n                *)
(*   loop if block switch       an open construct, until close             *)
(*   else            the else branch of the if that has just been closed   *)
(*   close                                                                 *)
(*   case default    labels                                                *)
(*   break continue ret stmt goto l, label l                               *)
(*   decl n          a variable called n                                   *)
(*   pp0 pp1 ppelse ppend     #if 0, #if 1, #else, #endif                  *)
(*   haz v w s       a construct with the verdicts v (by backend), found   *)
(*                   by the syntax analysis when s, that stands in the     *)
(*                   expression contexts w ("" when it is no expression)   *)
(*   calls w         a conjunction or disjunction with a call, in the      *)
(*                   expression contexts w, outermost first                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Backends == {"sh", "exe", "safe"}
Native == {"exe", "safe"}
Worse(x, y) == IF "bad" \in {x, y} THEN "bad" ELSE IF "may" \in {x, y} THEN "may" ELSE "ok"
Fine == [b \in Backends |-> "ok"]

(* A frame: kind; names declared in it; t: do its statements leave the enclosing clause or function for *)
(* certain ("yes", "no", "maybe": for certain only for some readers); d: can the next statement not be   *)
(* reached; then: t of the first branch; brk: is the loop left by a break; first: in a switch, has       *)
(* nothing but labels been read since the last label; lab: has a label been read; def: number of default *)
(* labels; all: do all clauses leave the function                                                        *)
Frame(k) == [k |-> k, names |-> {}, t |-> "no", d |-> FALSE, then |-> "", brk |-> FALSE, first |-> FALSE, lab |-> FALSE, def |-> 0]

Start == [stack |-> <<>>, v |-> Fine, pp |-> <<>>, labels |-> {}, gotos |-> {}, ifed |-> ""]

Push(f, s) == [s EXCEPT !.stack = Append(@, f)]
Depth(s) == Len(s.stack)
Inner(s) == s.stack[Depth(s)]
Mark(b, x, s) == [s EXCEPT !.v[b] = Worse(@, x)]
Both(x, s) == Mark("exe", x, Mark("safe", x, s))
InFunction(s) == Depth(s) > 0 /\ \E i \in 1..Depth(s) : s.stack[i].k = "fn"

(* the frame to which break belongs, and continue *)
Owner(s, kinds) == LET S == {i \in 1..Depth(s) : s.stack[i].k \in kinds} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
BreakOwner(s) == Owner(s, {"loop", "switch"})
LoopOwner(s) == Owner(s, {"loop"})
SwitchOwner(s) == Owner(s, {"switch"})

(* The shell backend does not look at statements that follow one that leaves *)
RECURSIVE Unread(_, _)
Unread(s, i) == IF i = 0 THEN "no"
                ELSE IF s.stack[i].t # "no" THEN s.stack[i].t ELSE Unread(s, i - 1)
Dead(s) == Unread(s, Depth(s))
(* a rule of the shell backend is broken here *)
ShBad(s) == Mark("sh", IF Dead(s) = "no" THEN "bad" ELSE "may", s)

(* a statement is read: in the body of a switch it must belong to a clause *)
Statement(s) ==
  IF Depth(s) > 0 /\ Inner(s).k = "switch"
  THEN LET n == Depth(s)
           f == Inner(s)
           q == [s EXCEPT !.stack[n].first = FALSE] IN
       IF ~f.lab THEN ShBad(q) ELSE IF f.t # "no" THEN Mark("sh", "may", q) ELSE q
  ELSE s
Leave(s, t) == [s EXCEPT !.stack[Depth(s)].t = (IF @ = "yes" \/ t = "yes" THEN "yes" ELSE IF @ = "maybe" \/ t = "maybe" THEN "maybe" ELSE "no"), !.stack[Depth(s)].d = TRUE]

Pop(s) == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]

(* An if ends, with the branches t and e.  Inside of a clause of a switch both must leave, or none *)
Certain(x) == x \in {"yes", "no"}
EndIf(s, t, e) ==
  LET n == BreakOwner(s)
      mixed == Certain(t) /\ Certain(e) /\ t # e
      unsure == ~Certain(t) \/ ~Certain(e)
      q == IF SwitchOwner(s) = 0 \/ (~mixed /\ ~unsure) THEN s
           ELSE IF mixed /\ s.stack[n].k = "switch" THEN ShBad(s) ELSE Mark("sh", "may", s)
      r == IF t = "yes" /\ e = "yes" THEN "yes" ELSE IF "no" \in {t, e} THEN "no" ELSE "maybe"
  IN IF r = "no" THEN q ELSE Leave(q, r)

(* the first branch of an if was closed and no else follows *)
Settle(s) == IF s.ifed = "" THEN s ELSE EndIf([s EXCEPT !.ifed = ""], s.ifed, "no")

Close(s0) ==
  LET f == Inner(s0)
      s == Pop(s0) IN
  CASE f.k = "fn" -> [(IF \E l \in s0.gotos : l \notin s0.labels THEN Mark("safe", "bad", Mark("exe", "may", s)) ELSE s) EXCEPT !.labels = {}, !.gotos = {}]
    [] f.k = "if" -> [s EXCEPT !.ifed = f.t]
    [] f.k = "else" -> EndIf(s, f.then, f.t)
    [] f.k = "block" -> IF f.t = "no" THEN [s EXCEPT !.stack[Depth(s)].d = @ \/ f.d] ELSE Leave(s, f.t)
    [] f.k = "loop" -> IF f.t # "no" /\ ~f.brk THEN [Leave(s, "maybe") EXCEPT !.stack[Depth(s)].d = Inner(s).d] ELSE s
    [] f.k = "switch" -> LET q == IF ~f.lab THEN Mark("sh", "may", s) ELSE s IN
                         \* no statement between the last label and the brace: a null statement is written there
                         IF f.def > 0 THEN [Leave(q, "maybe") EXCEPT !.stack[Depth(q)].d = Inner(q).d] ELSE q

Label(s, def) ==
  LET n == SwitchOwner(s) IN
  IF n = 0 THEN Both("bad", ShBad(s))
  ELSE IF n # Depth(s)
       THEN LET q == ShBad(s) IN
            IF def /\ s.stack[n].def > 0 THEN Both("bad", q) ELSE IF def THEN [q EXCEPT !.stack[n].def = @ + 1] ELSE q
  ELSE LET f == Inner(s)
           q == CASE ~f.lab \/ f.first \/ f.t = "yes" -> s
                  [] OTHER -> IF f.d \/ f.t = "maybe" THEN Mark("sh", "may", s)
                              ELSE Mark("sh", IF Unread(s, Depth(s) - 1) = "no" THEN "bad" ELSE "may", s)
           r == [q EXCEPT !.stack[n].lab = TRUE, !.stack[n].first = TRUE, !.stack[n].t = "no", !.stack[n].d = FALSE]
       IN IF def THEN (IF f.def > 0 THEN [Both("bad", Mark("sh", "may", r)) EXCEPT !.stack[n].def = @ + 1] ELSE [r EXCEPT !.stack[n].def = 1]) ELSE r

Break(s) ==
  LET n == BreakOwner(s) IN
  IF n = 0 THEN Both("bad", ShBad(s))
  ELSE Leave([s EXCEPT !.stack[n].brk = TRUE], "yes")
Continue(s) ==
  IF LoopOwner(s) = 0 THEN Both("bad", ShBad(s)) ELSE [s EXCEPT !.stack[Depth(s)].d = TRUE]

Decl(s, n) ==
  LET q == [s EXCEPT !.stack[Depth(s)].names = @ \cup {n}]
      r == IF n \in Inner(s).names THEN Both("may", q) ELSE q IN
  IF \E i \in 1..Depth(s) : n \in s.stack[i].names THEN ShBad(r) ELSE r

(* verdict of a conjunction with a call *)
CallsVerdict(w) ==
  IF w[1] = "test" /\ \A i \in 2..Len(w) : w[i] \in {"par", "and", "or"} THEN "ok"
  ELSE IF w[1] = "stmt" \/ (w[1] = "test" /\ \A i \in 2..Len(w) : w[i] \in {"par", "and", "or", "not", "cast"}) THEN "may"
  ELSE "bad"

Haz(s, o) ==
  LET d == Dead(s)
      sh == IF o.v.sh = "bad" /\ ~o.s /\ d # "no" THEN "may" ELSE o.v.sh
  IN [s EXCEPT !.v = [b \in Backends |-> Worse(@[b], IF b = "sh" THEN sh ELSE o.v[b])]]

(* One operation *)
Live(s, o) ==
  CASE o.k = "fn" -> Push([Frame("fn") EXCEPT !.names = {o.n}], s)
    [] o.k \in {"loop", "if", "block", "switch"} -> Push(Frame(o.k), Statement(Settle(s)))
    [] o.k = "else" -> Push([Frame("else") EXCEPT !.then = s.ifed], [s EXCEPT !.ifed = ""])
    [] o.k = "close" -> Close(Settle(s))
    [] o.k = "case" -> Label(Settle(s), FALSE)
    [] o.k = "default" -> Label(Settle(s), TRUE)
    [] o.k = "break" -> Break(Statement(Settle(s)))
    [] o.k = "continue" -> Continue(Statement(Settle(s)))
    [] o.k = "ret" -> Leave(Statement(Settle(s)), "yes")
    [] o.k = "stmt" -> Statement(Settle(s))
    [] o.k = "decl" -> Decl(Statement(Settle(s)), o.n)
    [] o.k = "goto" -> [ShBad(Statement(Settle(s))) EXCEPT !.gotos = @ \cup {o.l}]
    [] o.k = "label" -> LET q == Statement(Settle(s)) IN
                        [(IF o.l \in q.labels THEN Both("bad", Mark("sh", "may", q)) ELSE q) EXCEPT !.labels = @ \cup {o.l}]
    [] o.k = "haz" -> Haz(Statement(Settle(s)), o)
    [] o.k = "calls" -> LET q == Statement(Settle(s))
                            x == CallsVerdict(o.w) IN
                        IF x = "bad" THEN ShBad(q) ELSE Mark("sh", x, q)

(* the groups of conditional directives: which of them are read *)
Reading(s) == \A i \in 1..Len(s.pp) : s.pp[i]
Step(s, o) ==
  CASE o.k = "pp0" -> [s EXCEPT !.pp = Append(@, FALSE)]
    [] o.k = "pp1" -> [s EXCEPT !.pp = Append(@, TRUE)]
    [] o.k = "ppelse" -> [s EXCEPT !.pp[Len(s.pp)] = ~@]
    [] o.k = "ppend" -> [s EXCEPT !.pp = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> IF Reading(s) THEN Live(s, o) ELSE s

(* the constructs of the language nest *)
Allowed(s, o) ==
  CASE o.k = "fn" -> Depth(s) = 0
    [] o.k = "else" -> s.ifed # ""
    [] o.k = "close" -> Depth(s) > 0
    [] OTHER -> InFunction(s)
=============================================================================
