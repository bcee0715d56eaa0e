------------------------------ MODULE IntTypes ------------------------------
(***************************************************************************)
(* Objects of the integer types of C, and the conversions and operators on *)
(* them (C99 6.2.5, 6.3.1, 6.5).  Values are sequences of bits, least      *)
(* significant first, so that nothing depends on the integers of TLC.      *)
(*                                                                         *)
(* CASES_FILE holds programs: [objs |-> <<[t, v]..>>, prog |-> <<stmt..>>] *)
(* where a value is written in 16-bit pieces, least significant first.     *)
(*   [t |-> "out", e]          h(e): show e converted to int               *)
(*   [t |-> "cond", e]         show whether e is true                      *)
(*   [t |-> "set", o, op, e, w] evaluate w, in which "hole" is the value   *)
(*                             of the expression  o op= e  (or ++, --)     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == IF "CASES_FILE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.CASES_FILE) ELSE <<>>

VARIABLES c, pc, objs, out, m
vars == <<c, pc, objs, out, m>>

Types == {"sc", "uc", "ss", "us", "si", "ui", "sl", "ul"}
Width == [sc |-> 8, uc |-> 8, ss |-> 16, us |-> 16, si |-> 32, ui |-> 32, sl |-> 64, ul |-> 64]
Signed(t) == t \in {"sc", "ss", "si", "sl"}
Bits == {0, 1}

------------------------------------------------------------------------------
(* Bit sequences *)
Pow2 == [i \in 0..15 |-> 2^i]
(* TLC evaluates function constructors lazily, again at each application: Strict makes them tuples *)
Strict(f) == f \o <<>>
OfLimbs(l, w) == Strict([i \in 1..w |-> LET k == (i - 1) \div 16 + 1 IN
                   IF k > Len(l) THEN 0 ELSE (l[k] \div Pow2[(i - 1) % 16]) % 2])
RECURSIVE LimbOf(_, _, _)
LimbOf(b, from, n) == IF n = 0 THEN 0 ELSE b[from] + 2 * LimbOf(b, from + 1, n - 1)
Const(w, x) == Strict([i \in 1..w |-> x])
One(w) == Strict([i \in 1..w |-> IF i = 1 THEN 1 ELSE 0])
IsZero(b) == \A i \in DOMAIN b : b[i] = 0
Msb(b) == b[Len(b)]
(* the value b of type t on w bits *)
Ext(b, s, w) == Strict([i \in 1..w |-> IF i <= Len(b) THEN b[i] ELSE IF s THEN Msb(b) ELSE 0])

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, carry) == IF i > Len(a) THEN <<>>
                        ELSE LET x == a[i] + b[i] + carry IN <<x % 2>> \o AddC(a, b, i + 1, x \div 2)
AddB(a, b) == AddC(a, b, 1, 0)
NotB(a) == Strict([i \in DOMAIN a |-> 1 - a[i]])
NegB(a) == AddB(NotB(a), One(Len(a)))
SubB(a, b) == AddC(a, NotB(b), 1, 1)
ShlB(a, n) == Strict([i \in DOMAIN a |-> IF i > n THEN a[i - n] ELSE 0])
ShrB(a, n, fill) == Strict([i \in DOMAIN a |-> IF i + n <= Len(a) THEN a[i + n] ELSE fill])
RECURSIVE MulC(_, _, _)
MulC(a, b, i) == IF i > Len(b) THEN Const(Len(a), 0)
                 ELSE IF b[i] = 1 THEN AddB(ShlB(a, i - 1), MulC(a, b, i + 1)) ELSE MulC(a, b, i + 1)
MulB(a, b) == MulC(a, b, 1)
(* unsigned order *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i - 1)
ULess(a, b) == LessFrom(a, b, Len(a))
SLess(a, b) == IF Msb(a) # Msb(b) THEN Msb(a) = 1 ELSE ULess(a, b)
(* long division: quotient and remainder of unsigned numbers *)
RECURSIVE DivC(_, _, _, _, _)
DivC(a, b, i, q, r) == IF i = 0 THEN [q |-> q, r |-> r]
                       ELSE LET w == Len(a)
                                r1 == Strict([k \in 1..(w + 1) |-> IF k = 1 THEN a[i] ELSE IF k - 1 <= Len(r) THEN r[k - 1] ELSE 0])
                                b1 == Ext(b, FALSE, w + 1)
                                ge == ~ULess(r1, b1)
                                r2 == IF ge THEN SubB(r1, b1) ELSE r1
                            IN DivC(a, b, i - 1, Strict([q EXCEPT ![i] = IF ge THEN 1 ELSE 0]), SubSeq(r2, 1, w))
UDivMod(a, b) == DivC(a, b, Len(a), Const(Len(a), 0), Const(Len(a), 0))
AbsB(a) == IF Msb(a) = 1 THEN NegB(a) ELSE a
SDivMod(a, b) == LET x == UDivMod(AbsB(a), AbsB(b)) IN
                 [q |-> IF Msb(a) # Msb(b) THEN NegB(x.q) ELSE x.q, r |-> IF Msb(a) = 1 THEN NegB(x.r) ELSE x.r]
And1(x, y) == IF x = 1 /\ y = 1 THEN 1 ELSE 0
Or1(x, y) == IF x = 1 \/ y = 1 THEN 1 ELSE 0
Xor1(x, y) == IF x # y THEN 1 ELSE 0

(* The operations on bits are those of numbers: checked for all numbers of 4 bits *)
N4(x) == OfLimbs(<<x>>, 4)
U4(b) == LimbOf(b, 1, 4)
S4(b) == IF b[4] = 1 THEN U4(b) - 16 ELSE U4(b)
ASSUME \A x, y \in 0..15 : LET a == N4(x) b == N4(y) IN
         /\ U4(a) = x /\ U4(AddB(a, b)) = (x + y) % 16 /\ U4(SubB(a, b)) = (x + 16 - y) % 16
         /\ U4(MulB(a, b)) = (x * y) % 16 /\ ULess(a, b) = (x < y) /\ SLess(a, b) = (S4(a) < S4(b))
         /\ S4(Ext(a, TRUE, 4)) = S4(a) /\ LimbOf(Ext(a, FALSE, 6), 1, 6) = x
         /\ y > 0 => LET d == UDivMod(a, b) e == SDivMod(a, b) IN
                      /\ U4(d.q) = x \div y /\ U4(d.r) = x % y
                      /\ (S4(a) # -8 \/ S4(b) # -1) => S4(e.q) * S4(b) + S4(e.r) = S4(a)
         /\ y < 4 => U4(ShlB(a, y)) = (x * Pow2[y]) % 16 /\ U4(ShrB(a, y, 0)) = x \div Pow2[y]

------------------------------------------------------------------------------
(* Values: [t, b]; BAD when C doesn't define the result *)
BAD == [t |-> "bad", b |-> <<>>]
Val(t, b) == [t |-> t, b |-> b]
IntOf(p) == Val("si", IF p THEN One(32) ELSE Const(32, 0))
Conv(v, t) == IF v = BAD THEN BAD ELSE Val(t, Ext(v.b, Signed(v.t), Width[t]))
Promoted(t) == IF Width[t] < 32 THEN "si" ELSE t
Common(t1, t2) == LET p == Promoted(t1) q == Promoted(t2) IN
                  IF Width[p] > Width[q] THEN p ELSE IF Width[q] > Width[p] THEN q
                  ELSE IF Signed(p) THEN q ELSE p
True(v) == ~IsZero(v.b)
SmallInt(b) == IF \E i \in 7..Len(b) : b[i] = 1 THEN 64 ELSE LimbOf(b, 1, 6)      \* 64 or more is out of range for all shifts

Arith(op, a, b, t) ==
  LET s == Signed(t) w == Width[t] x == a.b y == b.b IN
  CASE op = "+" -> LET z == AddB(x, y) IN IF s /\ Msb(x) = Msb(y) /\ Msb(z) # Msb(x) THEN BAD ELSE Val(t, z)
    [] op = "-" -> LET z == SubB(x, y) IN IF s /\ Msb(x) # Msb(y) /\ Msb(z) # Msb(x) THEN BAD ELSE Val(t, z)
    [] op = "*" -> IF s THEN LET z == MulB(Ext(x, TRUE, 2 * w), Ext(y, TRUE, 2 * w)) IN
                             IF Ext(SubSeq(z, 1, w), TRUE, 2 * w) # z THEN BAD ELSE Val(t, SubSeq(z, 1, w))
                   ELSE Val(t, MulB(x, y))
    [] op \in {"/", "%"} ->
         IF IsZero(y) \/ (s /\ Msb(x) = 1 /\ NegB(x) = x /\ \A i \in 1..w : y[i] = 1) THEN BAD
         ELSE LET d == IF s THEN SDivMod(x, y) ELSE UDivMod(x, y) IN Val(t, IF op = "/" THEN d.q ELSE d.r)
    [] op = "&" -> Val(t, Strict([i \in 1..w |-> And1(x[i], y[i])]))
    [] op = "|" -> Val(t, Strict([i \in 1..w |-> Or1(x[i], y[i])]))
    [] op = "^" -> Val(t, Strict([i \in 1..w |-> Xor1(x[i], y[i])]))
    [] op = "==" -> IntOf(x = y)
    [] op = "!=" -> IntOf(x # y)
    [] op = "<"  -> IntOf(IF s THEN SLess(x, y) ELSE ULess(x, y))
    [] op = ">"  -> IntOf(IF s THEN SLess(y, x) ELSE ULess(y, x))
    [] op = "<=" -> IntOf(~(IF s THEN SLess(y, x) ELSE ULess(y, x)))
    [] op = ">=" -> IntOf(~(IF s THEN SLess(x, y) ELSE ULess(x, y)))
(* the type of a shift is that of its left operand *)
Shift(op, v, n) ==
  LET t == Promoted(v.t) a == Conv(v, t).b k == IF Signed(n.t) /\ Msb(n.b) = 1 THEN 64 ELSE SmallInt(n.b) IN
  IF k >= Width[t] THEN BAD
  ELSE IF op = "<<" THEN LET z == ShlB(a, k) IN
         IF Signed(t) /\ (Msb(a) = 1 \/ Msb(z) = 1 \/ ShrB(z, k, 0) # a) THEN BAD ELSE Val(t, z)
  ELSE Val(t, ShrB(a, k, IF Signed(t) THEN Msb(a) ELSE 0))
Bin(op, a, b) == IF a = BAD \/ b = BAD THEN BAD
                 ELSE IF op \in {"<<", ">>"} THEN Shift(op, a, b)
                 ELSE LET t == Common(a.t, b.t) IN Arith(op, Conv(a, t), Conv(b, t), t)
Un(op, a) == IF a = BAD THEN BAD ELSE
             LET t == Promoted(a.t) x == Conv(a, t) IN
             CASE op = "-" -> IF Signed(t) /\ Msb(x.b) = 1 /\ NegB(x.b) = x.b THEN BAD ELSE Val(t, NegB(x.b))
               [] op = "~" -> Val(t, NotB(x.b))
               [] op = "!" -> IntOf(IsZero(a.b))
               [] op = "+" -> x

RECURSIVE TypeOf(_, _, _)
TypeOf(e, ob, h) ==
  CASE e.k = "num" -> e.t
    [] e.k = "obj" -> ob[e.o].t
    [] e.k = "hole" -> h.t
    [] e.k = "un" -> IF e.op = "!" THEN "si" ELSE Promoted(TypeOf(e.a, ob, h))
    [] e.k = "bin" -> IF e.op \in {"==", "!=", "<", ">", "<=", ">="} THEN "si"
                      ELSE IF e.op \in {"<<", ">>"} THEN Promoted(TypeOf(e.a, ob, h))
                      ELSE Common(TypeOf(e.a, ob, h), TypeOf(e.b, ob, h))
    [] e.k \in {"and", "or"} -> "si"
    [] e.k = "cnd" -> Common(TypeOf(e.b, ob, h), TypeOf(e.c, ob, h))
    [] e.k = "cast" -> e.t
    [] e.k = "call" -> e.t
RECURSIVE Eval(_, _, _)
Eval(e, ob, h) ==
  CASE e.k = "num" -> Val(e.t, OfLimbs(e.v, Width[e.t]))
    [] e.k = "obj" -> ob[e.o]
    [] e.k = "hole" -> h
    [] e.k = "un" -> Un(e.op, Eval(e.a, ob, h))
    [] e.k = "bin" -> Bin(e.op, Eval(e.a, ob, h), Eval(e.b, ob, h))
    [] e.k = "and" -> LET x == Eval(e.a, ob, h) IN IF x = BAD THEN BAD ELSE IF ~True(x) THEN IntOf(FALSE)
                      ELSE LET y == Eval(e.b, ob, h) IN IF y = BAD THEN BAD ELSE IntOf(True(y))
    [] e.k = "or" -> LET x == Eval(e.a, ob, h) IN IF x = BAD THEN BAD ELSE IF True(x) THEN IntOf(TRUE)
                     ELSE LET y == Eval(e.b, ob, h) IN IF y = BAD THEN BAD ELSE IntOf(True(y))
    [] e.k = "cnd" -> LET x == Eval(e.a, ob, h) IN IF x = BAD THEN BAD
                      ELSE Conv(Eval(IF True(x) THEN e.b ELSE e.c, ob, h), TypeOf(e, ob, h))
    [] e.k = "cast" -> Conv(Eval(e.a, ob, h), e.t)
    [] e.k = "call" -> Conv(Conv(Eval(e.a, ob, h), e.p), e.t)      \* e.t f(e.p x) { return x; }

------------------------------------------------------------------------------
Prog == Cases[c].prog
S == Prog[pc]
NoHole == BAD
Shown(v) == LET b == Conv(v, "si").b IN <<LimbOf(b, 1, 16), LimbOf(b, 17, 16)>>

Init == /\ c \in 1..Len(Cases) /\ pc = 1 /\ out = <<>> /\ m = "run"
        /\ objs = [i \in 1..Len(Cases[c].objs) |-> LET o == Cases[c].objs[i] IN Val(o.t, OfLimbs(o.v, Width[o.t]))]
Live == m = "run"
Here == Live /\ pc <= Len(Prog)
Undefined == m' = "undef" /\ UNCHANGED <<c, pc, objs, out>>
Show(v) == IF v = BAD THEN Undefined
           ELSE out' = out \o Shown(v) /\ pc' = pc + 1 /\ UNCHANGED <<c, objs, m>>
Out == Here /\ S.t = "out" /\ Show(Eval(S.e, objs, NoHole))
Cond == /\ Here /\ S.t = "cond"
        /\ LET v == Eval(S.e, objs, NoHole) IN
           IF v = BAD THEN Undefined
           ELSE out' = Append(out, IF True(v) THEN 1 ELSE 0) /\ pc' = pc + 1 /\ UNCHANGED <<c, objs, m>>
(* the value of an assignment is that of the object afterwards, of x++ and x-- before *)
Set == /\ Here /\ S.t = "set"
       /\ LET old == objs[S.o]
              r == IF S.op = "=" THEN Eval(S.e, objs, NoHole)
                   ELSE IF S.op \in {"p++", "++p"} THEN Bin("+", old, IntOf(TRUE))
                   ELSE IF S.op \in {"p--", "--p"} THEN Bin("-", old, IntOf(TRUE))
                   ELSE Bin(S.op, old, Eval(S.e, objs, NoHole))
              new == Conv(r, old.t)
              hole == IF S.op \in {"p++", "p--"} THEN old ELSE new
              ob2 == [objs EXCEPT ![S.o] = new]
              w == IF r = BAD THEN BAD ELSE Eval(S.w, ob2, hole)
          IN IF r = BAD \/ w = BAD THEN Undefined
             ELSE objs' = ob2 /\ out' = out \o Shown(w) /\ pc' = pc + 1 /\ UNCHANGED <<c, m>>
Finish == Live /\ pc > Len(Prog) /\ m' = "end" /\ UNCHANGED <<c, pc, objs, out>>
Next == Out \/ Cond \/ Set \/ Finish
Spec == Init /\ [][Next]_vars

(* every object keeps its type and holds a value of that type *)
TypeOK == /\ \A i \in DOMAIN objs : objs[i].t = Cases[c].objs[i].t /\ DOMAIN objs[i].b = 1..Width[objs[i].t]
          /\ \A i \in DOMAIN objs : \A k \in DOMAIN objs[i].b : objs[i].b[k] \in Bits
(* conversions through a type at least as wide lose nothing *)
WidenKeeps == \A i \in DOMAIN objs : LET v == objs[i] IN
                \A t \in {"si", "ui", "sl", "ul"} : Width[t] >= Width[v.t] => Conv(Conv(v, t), v.t) = v
OneObject == [][pc' = pc + 1 /\ S.t = "set" => \A i \in DOMAIN objs : i # S.o => objs'[i] = objs[i]]_vars
ShowOnly == [][pc' = pc + 1 /\ S.t # "set" => objs' = objs]_vars
Progress == Live => ENABLED(Next)
Report == ~Live => PrintT("@@" \o ToJson([c |-> c, o |-> out, m |-> m]))
=============================================================================
