------------------------------- MODULE Const -------------------------------
(***************************************************************************)
(* Integer constant expressions (C99 6.6, 6.7.2.2, 6.10.1, 6.8.4.2): a     *)
(* machine that reads a sequence of declarations and directives, keeps the *)
(* values of the enumerators, and says what each constant expression is    *)
(* worth where it is used.                                                 *)
(*                                                                         *)
(* CASES_FILE holds cases, each a sequence of items:                       *)
(*   [t |-> "enum", l |-> <<[n, e]..>>]  enumerators; e.k = "none": implicit *)
(*   [t |-> "val",  l |-> <<[e]>>]       the value of an expression        *)
(*   [t |-> "size", l |-> <<[e]..>>]     dimensions of an array            *)
(*   [t |-> "if",   l |-> <<[e]..>>]     #if, #elif ..; out is the group   *)
(*                                       selected, 0 when there is none    *)
(*   [t |-> "sw",   v, l |-> <<[e]..>>]  switch (v) with these case labels *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CInt

Cases == IF "CASES_FILE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.CASES_FILE) ELSE <<>>

VARIABLES
  c,      \* the case
  i, j,   \* item, and expression of the item, to be read next
  env,    \* enumerator -> value
  nxt,    \* value of the next enumerator when it is implicit
  sel,    \* what the current item has selected (if, sw)
  out,    \* one value for each value that can be observed
  m       \* "run", "end", "undef"
vars == <<c, i, j, env, nxt, sel, out, m>>

(* Operands that C doesn't evaluate may be anything. pp: in a directive, where all identifiers are worth 0 *)
RECURSIVE Eval(_, _, _)
Eval(e, en, pp) ==
  CASE e.k = "num" -> e.v
    [] e.k = "def" -> e.v
    [] e.k = "id"  -> 0
    [] e.k = "en"  -> IF pp THEN 0 ELSE IF e.n \in DOMAIN en THEN en[e.n] ELSE BAD
    [] e.k = "un"  -> UnOp(e.o, Eval(e.a, en, pp))
    [] e.k = "and" -> LET x == Eval(e.a, en, pp) IN
                      IF x = BAD THEN BAD ELSE IF x = 0 THEN 0
                      ELSE LET y == Eval(e.b, en, pp) IN IF y = BAD THEN BAD ELSE Bool(y # 0)
    [] e.k = "or"  -> LET x == Eval(e.a, en, pp) IN
                      IF x = BAD THEN BAD ELSE IF x # 0 THEN 1
                      ELSE LET y == Eval(e.b, en, pp) IN IF y = BAD THEN BAD ELSE Bool(y # 0)
    [] e.k = "cnd" -> LET x == Eval(e.a, en, pp) IN
                      IF x = BAD THEN BAD ELSE IF x # 0 THEN Eval(e.b, en, pp) ELSE Eval(e.c, en, pp)
    [] e.k = "bin" -> BinOp(e.o, Eval(e.a, en, pp), Eval(e.b, en, pp))

Items == Cases[c]
Item == Items[i]
N == Len(Item.l)
Live == m = "run"
HasItem == Live /\ i <= Len(Items)
More == HasItem /\ j <= N
V == Eval(Item.l[j].e, env, Item.t = "if")

Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ j = 1 /\ env = << >> /\ nxt = 0 /\ sel = 0 /\ out = <<>> /\ m = "run"

Undefined == /\ m' = "undef" /\ UNCHANGED <<c, i, j, env, nxt, sel, out>>
Step == j' = j + 1 /\ UNCHANGED <<c, i, m>>

Enumerate(v) == IF v = BAD THEN Undefined
                ELSE /\ env' = (Item.l[j].n :> v) @@ env
                     /\ nxt' = (IF v = MAXI THEN BAD ELSE v + 1)
                     /\ out' = Append(out, v)
                     /\ Step /\ UNCHANGED sel
Explicit == More /\ Item.t = "enum" /\ Item.l[j].e.k # "none" /\ Enumerate(V)
Implicit == More /\ Item.t = "enum" /\ Item.l[j].e.k = "none" /\ Enumerate(IF j = 1 THEN 0 ELSE nxt)
Value == /\ More /\ Item.t = "val"
         /\ IF V = BAD THEN Undefined ELSE out' = Append(out, V) /\ Step /\ UNCHANGED <<env, nxt, sel>>
(* sizes must be positive *)
Dimension == /\ More /\ Item.t = "size"
             /\ IF V = BAD \/ V <= 0 THEN Undefined ELSE out' = Append(out, V) /\ Step /\ UNCHANGED <<env, nxt, sel>>
(* conditions that follow a selected group are not evaluated *)
Condition == /\ More /\ Item.t = "if"
             /\ IF sel # 0 THEN Step /\ UNCHANGED <<env, nxt, sel, out>>
                ELSE IF V = BAD THEN Undefined
                ELSE Step /\ sel' = (IF V # 0 THEN j ELSE 0) /\ UNCHANGED <<env, nxt, out>>
(* the labels of a switch must be different *)
Label == /\ More /\ Item.t = "sw"
         /\ IF V = BAD \/ (\E k \in 1..(j - 1) : Eval(Item.l[k].e, env, FALSE) = V) THEN Undefined
            ELSE Step /\ sel' = (IF V = Item.v THEN j ELSE sel) /\ UNCHANGED <<env, nxt, out>>
NextItem == /\ HasItem /\ j > N
            /\ i' = i + 1 /\ j' = 1 /\ sel' = 0
            /\ out' = (IF Item.t \in {"if", "sw"} THEN Append(out, sel) ELSE out)
            /\ UNCHANGED <<c, env, nxt, m>>
Finish == /\ Live /\ i > Len(Items) /\ m' = "end" /\ UNCHANGED <<c, i, j, env, nxt, sel, out>>
Next == Explicit \/ Implicit \/ Value \/ Dimension \/ Condition \/ Label \/ NextItem \/ Finish
Spec == Init /\ [][Next]_vars

TypeOK == /\ m \in {"run", "end", "undef"}
          /\ \A k \in 1..Len(out) : out[k] > BAD /\ out[k] <= MAXI
(* an enumerator keeps its value, and only one group of a conditional can be selected *)
EnumeratorsConstant == [][\A x \in DOMAIN env : x \in DOMAIN env' /\ env'[x] = env[x]]_vars
SelectOnce == [][(i' = i /\ sel # 0 /\ Live) => sel' = sel]_vars
OutGrows == [][SubSeq(out', 1, Len(out)) = out]_vars
Progress == Live => ENABLED(Next)
Report == ~Live => PrintT("@@" \o ToJson([c |-> c, o |-> out, m |-> m]))
=============================================================================
