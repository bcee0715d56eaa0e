-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Memory of compiled programs: objects (arrays and allocated objects),    *)
(* the pointers into them and the variables that hold these pointers.      *)
(* A state is                                                              *)
(*   vars  values of the variables, by name                                *)
(*   objs  sequence of objects [alive, cells]: array elements or members   *)
(* A value is <<"i", n>> an integer, <<"p", k, j>> a pointer to cell j     *)
(* (from 0) of object k, <<"0">> the null pointer, <<"u">> indeterminate.  *)
(*                                                                         *)
(* Operations are records [o, d, a, b, k, f, v]: d names a variable, a, b  *)
(* and k are operands (a value or <<"v", name>>):                          *)
(*   new d k      d := new object of k cells (f: "zero", "null" or "undef")        *)
(*   free a                                                                *)
(*   mov d a      d := a                                                   *)
(*   add d a k    d := a + k (pointer a, integer k)                        *)
(*   ld d a k     d := cell a + k                                          *)
(*   st a k b     cell a + k := b                                          *)
(*   op d a b f   d := a f b (integers)                                    *)
(*   out a        the program has printed v, the integer a                 *)
(*   cmp a b f    it has printed v, the outcome of a f b (pointers)        *)
(*   diff a b     it has printed v = a - b (pointers into the same object) *)
(***************************************************************************)
EXTENDS Integers, Sequences, CInt

Put(t, k, v) == [x \in DOMAIN t \cup {k} |-> IF x = k THEN v ELSE t[x]]
Val(s, a) == IF a[1] = "v" THEN IF a[2] \in DOMAIN s.vars THEN s.vars[a[2]] ELSE <<"u">> ELSE a
IsInt(x) == x[1] = "i"
IsPtr(x) == x[1] = "p"
Live(s, x) == IsPtr(x) /\ s.objs[x[2]].alive
Shift(x, n) == <<"p", x[2], x[3] + n>>
InObj(s, x) == x[3] >= 0 /\ x[3] <= Len(s.objs[x[2]].cells)      \* one past the end is a valid pointer
Access(s, x) == Live(s, x) /\ x[3] >= 0 /\ x[3] < Len(s.objs[x[2]].cells)
Cell(s, x) == s.objs[x[2]].cells[x[3] + 1]

Legal(s, o) ==
  LET A == Val(s, o.a) B == Val(s, o.b) K == Val(s, o.k) IN
  CASE o.o = "new" -> IsInt(K) /\ K[2] >= 0
    [] o.o = "free" -> Live(s, A) /\ A[3] = 0
    [] o.o = "mov" -> A # <<"u">>
    [] o.o = "add" -> Live(s, A) /\ IsInt(K) /\ InObj(s, Shift(A, K[2]))
    [] o.o = "ld" -> IsPtr(A) /\ IsInt(K) /\ Access(s, Shift(A, K[2])) /\ Cell(s, Shift(A, K[2])) # <<"u">>
    [] o.o = "st" -> IsPtr(A) /\ IsInt(K) /\ Access(s, Shift(A, K[2])) /\ B # <<"u">>
    [] o.o = "op" -> IsInt(A) /\ IsInt(B) /\ BinOp(o.f, A[2], B[2]) # BAD
    [] o.o = "out" -> IsInt(A)
    [] o.o = "cmp" -> \/ o.f \in {"==", "!="} /\ (Live(s, A) \/ A = <<"0">>) /\ (Live(s, B) \/ B = <<"0">>)
                         \* one past an object may be the address of the next one
                         /\ (IsPtr(A) /\ IsPtr(B) /\ A[2] # B[2] => Access(s, A) /\ Access(s, B))
                      \/ Live(s, A) /\ IsPtr(B) /\ A[2] = B[2]
    [] o.o = "diff" -> Live(s, A) /\ IsPtr(B) /\ A[2] = B[2]

Rel(f, x, y) == Bool(CASE f = "==" -> x = y [] f = "!=" -> x # y [] f = "<" -> x[3] < y[3] [] f = ">" -> x[3] > y[3]
                       [] f = "<=" -> x[3] <= y[3] [] f = ">=" -> x[3] >= y[3])
(* may the program have printed o.v? *)
Allows(s, o) ==
  LET A == Val(s, o.a) B == Val(s, o.b) IN
  CASE o.o = "out" -> o.v = A[2]
    [] o.o = "cmp" -> o.v = Rel(o.f, A, B)
    [] o.o = "diff" -> o.v = A[3] - B[3]
    [] OTHER -> TRUE

After(s, o) ==
  LET A == Val(s, o.a) B == Val(s, o.b) K == Val(s, o.k) IN
  CASE o.o = "new" -> [vars |-> Put(s.vars, o.d, <<"p", Len(s.objs) + 1, 0>>),
                       objs |-> Append(s.objs, [alive |-> TRUE, cells |-> [i \in 1..K[2] |-> CASE o.f = "zero" -> <<"i", 0>> [] o.f = "null" -> <<"0">> [] OTHER -> <<"u">>]])]
    [] o.o = "free" -> [s EXCEPT !.objs[A[2]].alive = FALSE]
    [] o.o = "mov" -> [s EXCEPT !.vars = Put(@, o.d, A)]
    [] o.o = "add" -> [s EXCEPT !.vars = Put(@, o.d, Shift(A, K[2]))]
    [] o.o = "ld" -> [s EXCEPT !.vars = Put(@, o.d, Cell(s, Shift(A, K[2])))]
    [] o.o = "st" -> [s EXCEPT !.objs[A[2]].cells[A[3] + K[2] + 1] = B]
    [] o.o = "op" -> [s EXCEPT !.vars = Put(@, o.d, <<"i", BinOp(o.f, A[2], B[2])>>)]
    [] OTHER -> s

(***************************************************************************)
(* Properties of the specification                                         *)
(***************************************************************************)
GoodVal(s, x) == IsPtr(x) => x[2] \in 1..Len(s.objs) /\ x[3] \in 0..Len(s.objs[x[2]].cells)
WellFormed(s) == /\ \A n \in DOMAIN s.vars : GoodVal(s, s.vars[n])
                 /\ \A k \in 1..Len(s.objs) : \A j \in 1..Len(s.objs[k].cells) : GoodVal(s, s.objs[k].cells[j])
(* An operation changes one variable, or one cell of one object, or the status of one object *)
Changes(s, t) == {<<n>> : n \in {n \in DOMAIN s.vars : s.vars[n] # t.vars[n]}}
                 \cup {<<k, 0>> : k \in {k \in 1..Len(s.objs) : s.objs[k].alive # t.objs[k].alive}}
                 \cup UNION {{<<k, j>> : j \in {j \in 1..Len(s.objs[k].cells) : s.objs[k].cells[j] # t.objs[k].cells[j]}} : k \in 1..Len(s.objs)}
Frame(s, t) == /\ Len(t.objs) >= Len(s.objs)
               /\ \A k \in 1..Len(s.objs) : Len(t.objs[k].cells) = Len(s.objs[k].cells) /\ (t.objs[k].alive => s.objs[k].alive)
               /\ \A x, y \in Changes(s, t) : x = y
=============================================================================
