------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Objects of structure, union, array, pointer and integer types: where    *)
(* their members are, and what initializers, stores and copies do to their *)
(* bytes (C99 6.2.6, 6.5.2.1, 6.5.2.3, 6.5.16, 6.7.2.1, 6.7.8).            *)
(*                                                                         *)
(* CASES_FILE holds cases                                                  *)
(*   [word |-> bytes of a pointer,                                         *)
(*    types |-> <<type..>>     types refer to earlier ones by number       *)
(*    objs |-> <<[t, zero, init]..>>   zero: of static storage duration    *)
(*    prog |-> <<stmt..>>]                                                 *)
(* A type is [k |-> "int", w, s] (s = 1: signed), [k |-> "ptr"],           *)
(* [k |-> "arr", of, n], [k |-> "str", ms |-> <<[n, t]..>>] or "uni"; a    *)
(* member with the name "" is anonymous and lends its members.             *)
(*                                                                         *)
(* The memory of an object is a sequence of cells: a byte, or a part of a  *)
(* pointer.  A pointer to the byte off of object o is the cell             *)
(* 256 + 65536 * o + off followed by cells 256 (o = 0: null).  Bytes whose *)
(* value C leaves unspecified hold None; statements that need the value of *)
(* such a byte have no effect here and are left out of the real program.   *)
(*                                                                         *)
(* A place is [o, s |-> <<selector..>>]: the object, and the selectors     *)
(*   [k |-> "m", n]  member     [k |-> "i", i]  element                    *)
(*   [k |-> "d", t]  what the pointer points to, which has type t          *)
(* An initializer is [k |-> "list", e |-> <<..>>], [k |-> "num", v],       *)
(* [k |-> "chars", v |-> bytes], [k |-> "copy", p] or [k |-> "addr", p].   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == IF "CASES_FILE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.CASES_FILE) ELSE <<>>

VARIABLES c, pc, mem, out, last
vars == <<c, pc, mem, out, last>>

None == -1
Case == Cases[c]
Types == Case.types
Ty(t) == Types[t]
Strict(f) == f \o <<>>
Max(a, b) == IF a > b THEN a ELSE b
Up(x, a) == ((x + a - 1) \div a) * a

------------------------------------------------------------------------------
(* Sizes and places *)
RECURSIVE Size(_), Align(_), OffsetOf(_, _), MaxAlign(_, _), MaxSize(_, _)
MaxAlign(ms, i) == IF i = 0 THEN 1 ELSE Max(Align(ms[i].t), MaxAlign(ms, i - 1))
MaxSize(ms, i) == IF i = 0 THEN 0 ELSE Max(Size(ms[i].t), MaxSize(ms, i - 1))
Align(t) == CASE Ty(t).k = "int" -> Ty(t).w
              [] Ty(t).k = "ptr" -> Case.word
              [] Ty(t).k = "arr" -> Align(Ty(t).of)
              [] OTHER -> MaxAlign(Ty(t).ms, Len(Ty(t).ms))
(* the offset of the i-th member of a structure or union *)
OffsetOf(t, i) == IF Ty(t).k = "uni" \/ i = 1 THEN 0
                  ELSE Up(OffsetOf(t, i - 1) + Size(Ty(t).ms[i - 1].t), Align(Ty(t).ms[i].t))
Size(t) == CASE Ty(t).k = "int" -> Ty(t).w
             [] Ty(t).k = "ptr" -> Case.word
             [] Ty(t).k = "arr" -> Ty(t).n * Size(Ty(t).of)
             [] Ty(t).k = "uni" -> Up(MaxSize(Ty(t).ms, Len(Ty(t).ms)), Align(t))
             [] OTHER -> LET n == Len(Ty(t).ms) IN Up(OffsetOf(t, n) + Size(Ty(t).ms[n].t), Align(t))

NotFound == [off |-> -1, t |-> 0, un |-> <<>>]
(* The member called n: its offset, its type and the unions <<off, size>> it lies in *)
RECURSIVE Member(_, _), MemberFrom(_, _, _)
Member(t, n) == LET r == MemberFrom(t, n, 1) IN
                IF r.off >= 0 /\ Ty(t).k = "uni" THEN [r EXCEPT !.un = <<[a |-> 0, z |-> Size(t)]>> \o @] ELSE r
MemberFrom(t, n, i) ==
  IF i > Len(Ty(t).ms) THEN NotFound
  ELSE LET x == Ty(t).ms[i]
           sub == IF x.n = "" THEN Member(x.t, n) ELSE NotFound
       IN IF x.n = n /\ n # "" THEN [off |-> OffsetOf(t, i), t |-> x.t, un |-> <<>>]
          ELSE IF sub.off >= 0 THEN [off |-> OffsetOf(t, i) + sub.off, t |-> sub.t,
                                     un |-> [j \in DOMAIN sub.un |-> [sub.un[j] EXCEPT !.a = @ + OffsetOf(t, i)]]]
          ELSE MemberFrom(t, n, i + 1)

(* Where a place is: [ok, o, off, t, un]; un are the unions around it in the object *)
IsPtrAt(m, o, off) == /\ off + Case.word <= Len(m[o])
                      /\ m[o][off + 1] >= 256 /\ \A k \in 2..Case.word : m[o][off + k] = 256
PtrObj(x) == (x - 256) \div 65536
PtrOff(x) == (x - 256) % 65536
Bad == [ok |-> FALSE, o |-> 0, off |-> 0, t |-> 0, un |-> <<>>]
RECURSIVE Walk(_, _, _)
Walk(m, a, s) ==
  IF ~a.ok \/ Len(s) = 0 THEN a
  ELSE LET x == s[1]
           r == Tail(s)
       IN CASE x.k = "m" ->
                 LET d == Member(a.t, x.n) IN
                 Walk(m, [a EXCEPT !.off = @ + d.off, !.t = d.t,
                                   !.un = @ \o [j \in DOMAIN d.un |-> [d.un[j] EXCEPT !.a = @ + a.off]]], r)
            [] x.k = "i" ->
                 IF x.i < Ty(a.t).n THEN Walk(m, [a EXCEPT !.off = @ + x.i * Size(Ty(a.t).of), !.t = Ty(a.t).of], r) ELSE Bad
            [] OTHER ->
                 IF ~IsPtrAt(m, a.o, a.off) THEN Bad
                 ELSE LET p == m[a.o][a.off + 1]
                          o2 == PtrObj(p)
                          f2 == PtrOff(p) + x.i * Size(x.t)
                      IN IF o2 = 0 THEN Bad
                         ELSE IF f2 < 0 \/ f2 + Size(x.t) > Len(m[o2]) THEN Bad
                         ELSE Walk(m, [ok |-> TRUE, o |-> o2, off |-> f2, t |-> x.t, un |-> <<>>], r)
At(m, p) == Walk(m, [ok |-> TRUE, o |-> p.o, off |-> 0, t |-> Case.objs[p.o].t, un |-> <<>>], p.s)

Dangling(x) == IF PtrObj(x) = 0 THEN FALSE ELSE mem[PtrObj(x)] = <<>>
Cells(m, a) == SubSeq(m[a.o], a.off + 1, a.off + Size(a.t))
(* Storing cells at a place leaves the other bytes of the unions around it unspecified *)
Put(m, a, cells) ==
  [m EXCEPT ![a.o] = Strict([i \in DOMAIN @ |->
     IF i > a.off /\ i <= a.off + Len(cells) THEN cells[i - a.off]
     ELSE IF \E j \in DOMAIN a.un : i > a.un[j].a /\ i <= a.un[j].a + a.un[j].z THEN None
     ELSE @[i]])]

------------------------------------------------------------------------------
(* Values *)
Fill(n, x) == Strict([i \in 1..n |-> x])
RECURSIVE Bytes(_, _)
Bytes(v, w) == IF w = 0 THEN <<>> ELSE <<v % 256>> \o Bytes((v - (v % 256)) \div 256, w - 1)
Pointer(a) == <<256 + 65536 * a.o + a.off>> \o Fill(Case.word - 1, 256)
Null == <<256>> \o Fill(Case.word - 1, 256)

(* the members of zero: padding is unspecified *)
RECURSIVE Zero(_), ZeroMembers(_, _, _), Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
Pad(s, n) == s \o Fill(n - Len(s), None)
Zero(t) == CASE Ty(t).k = "int" -> Fill(Ty(t).w, 0)
             [] Ty(t).k = "ptr" -> Null
             [] Ty(t).k = "arr" -> Rep(Zero(Ty(t).of), Ty(t).n)
             [] Ty(t).k = "uni" -> Pad(Zero(Ty(t).ms[1].t), Size(t))
             [] OTHER -> ZeroMembers(t, 1, <<>>)
ZeroMembers(t, i, s) == IF i > Len(Ty(t).ms) THEN Pad(s, Size(t))
                        ELSE ZeroMembers(t, i + 1, Pad(s, OffsetOf(t, i)) \o Zero(Ty(t).ms[i].t))

(* the cells of an object of type t initialized by x; <<>>: not defined *)
RECURSIVE Init(_, _, _), InitElems(_, _, _, _, _), InitMembers(_, _, _, _, _)
Init(m, t, x) ==
  CASE x.k = "list" ->
         (CASE Ty(t).k = "arr" -> InitElems(m, t, x.e, 1, <<>>)
            [] Ty(t).k = "str" -> InitMembers(m, t, x.e, 1, <<>>)
            [] Ty(t).k = "uni" -> LET d == Init(m, Ty(t).ms[1].t, x.e[1]) IN IF d = <<>> THEN d ELSE Pad(d, Size(t))
            [] OTHER -> Init(m, t, x.e[1]))
    [] x.k = "num" -> IF Ty(t).k = "int" THEN Bytes(x.v, Ty(t).w) ELSE Null
    [] x.k = "chars" -> x.v \o Fill(Size(t) - Len(x.v), 0)
    [] x.k = "addr" -> LET a == At(m, x.p) IN IF a.ok THEN Pointer(a) ELSE <<>>
    [] OTHER -> LET a == At(m, x.p) IN IF a.ok THEN Cells(m, a) ELSE <<>>
InitElems(m, t, e, i, s) ==
  IF i > Ty(t).n THEN s
  ELSE LET d == IF i <= Len(e) THEN Init(m, Ty(t).of, e[i]) ELSE Zero(Ty(t).of)
       IN IF d = <<>> THEN d ELSE InitElems(m, t, e, i + 1, s \o d)
InitMembers(m, t, e, i, s) ==
  IF i > Len(Ty(t).ms) THEN Pad(s, Size(t))
  ELSE LET d == IF i <= Len(e) THEN Init(m, Ty(t).ms[i].t, e[i]) ELSE Zero(Ty(t).ms[i].t)
       IN IF d = <<>> THEN d ELSE InitMembers(m, t, e, i + 1, Pad(s, OffsetOf(t, i)) \o d)

Defined(s) == \A i \in DOMAIN s : s[i] # None
(* an integer as the two halves of the int it is converted to *)
Number(s) == Defined(s) /\ \A i \in DOMAIN s : s[i] < 256
Halves(s, t) == LET fill == IF Ty(t).s = 1 /\ s[Len(s)] >= 128 THEN 255 ELSE 0
                    b == Strict([i \in 1..4 |-> IF i <= Len(s) THEN s[i] ELSE fill])
                IN <<b[1] + 256 * b[2], b[3] + 256 * b[4]>>

------------------------------------------------------------------------------
Stmt == Case.prog[pc]
Skip == [o |-> 0, from |-> 0, to |-> 0]
(* One statement: what it writes, and what it shows (<<-1>>: it must be left out) *)
Effect ==
  LET s == Stmt IN
  CASE s.t = "init" ->
         LET d == Init(mem, Case.objs[s.o].t, s.x) IN
         IF d = <<>> THEN [m |-> mem, o |-> <<-1>>, l |-> Skip]
         ELSE [m |-> [mem EXCEPT ![s.o] = d], o |-> <<>>, l |-> [o |-> s.o, from |-> 0, to |-> Len(d)]]
    [] s.t = "set" ->
         LET a == At(mem, s.p) IN
         IF ~a.ok THEN [m |-> mem, o |-> <<-1>>, l |-> Skip]
         ELSE [m |-> Put(mem, a, Bytes(s.v, Size(a.t))), o |-> <<>>, l |-> [o |-> a.o, from |-> a.off, to |-> a.off + Size(a.t)]]
    [] s.t = "copy" ->
         LET a == At(mem, s.p)
             b == At(mem, s.q) IN
         IF ~a.ok \/ ~b.ok THEN [m |-> mem, o |-> <<-1>>, l |-> Skip]
         ELSE IF Ty(a.t).k \in {"int", "ptr"} /\ ~Defined(Cells(mem, b)) THEN [m |-> mem, o |-> <<-1>>, l |-> Skip]
         ELSE IF a.o = b.o /\ a.off # b.off /\ a.off < b.off + Size(b.t) /\ b.off < a.off + Size(a.t) THEN [m |-> mem, o |-> <<-1>>, l |-> Skip]
         ELSE [m |-> Put(mem, a, Cells(mem, b)), o |-> <<>>, l |-> [o |-> a.o, from |-> a.off, to |-> a.off + Size(a.t)]]
    [] s.t = "addr" ->
         LET a == At(mem, s.p)
             b == At(mem, s.q) IN
         IF ~a.ok \/ ~b.ok THEN [m |-> mem, o |-> <<-1>>, l |-> Skip]
         ELSE [m |-> Put(mem, a, Pointer(b)), o |-> <<>>, l |-> [o |-> a.o, from |-> a.off, to |-> a.off + Size(a.t)]]
    [] s.t = "get" ->
         LET a == At(mem, s.p) IN
         IF ~a.ok THEN [m |-> mem, o |-> <<-1>>, l |-> Skip]
         ELSE IF ~Number(Cells(mem, a)) THEN [m |-> mem, o |-> <<-1>>, l |-> Skip]
         ELSE [m |-> mem, o |-> Halves(Cells(mem, a), a.t), l |-> Skip]
    [] s.t = "is" ->        \* does the pointer p point to q?
         LET a == At(mem, s.p)
             b == At(mem, s.q) IN
         IF ~a.ok \/ ~b.ok THEN [m |-> mem, o |-> <<-1>>, l |-> Skip]
         ELSE IF ~IsPtrAt(mem, a.o, a.off) THEN [m |-> mem, o |-> <<-1>>, l |-> Skip]
         ELSE IF Dangling(mem[a.o][a.off + 1]) THEN [m |-> mem, o |-> <<-1>>, l |-> Skip]
         ELSE [m |-> mem, o |-> <<IF mem[a.o][a.off + 1] = Pointer(b)[1] THEN 1 ELSE 0>>, l |-> Skip]
    [] s.t = "end" -> [m |-> [mem EXCEPT ![s.o] = <<>>], o |-> <<>>, l |-> Skip]     \* the object is gone
    [] s.t = "size" -> [m |-> mem, o |-> <<Size(s.ty)>>, l |-> Skip]
    [] OTHER ->             \* "dist": how far is p behind q, in elements of u bytes?
         LET a == At(mem, s.p)
             b == At(mem, s.q) IN
         IF ~a.ok \/ ~b.ok \/ a.o # b.o \/ a.off < b.off THEN [m |-> mem, o |-> <<-1>>, l |-> Skip]
         ELSE [m |-> mem, o |-> <<(a.off - b.off) \div (IF s.u = 0 THEN 1 ELSE Size(s.u))>>, l |-> Skip]

CInit == /\ c \in DOMAIN Cases
         /\ pc = 0 /\ mem = <<>> /\ out = <<>> /\ last = Skip
(* objects of static storage duration start with zeros, the others with unspecified bytes *)
Begin == /\ pc = 0
         /\ mem' = Strict([i \in DOMAIN Case.objs |->
                     IF Case.objs[i].zero THEN Zero(Case.objs[i].t) ELSE Fill(Size(Case.objs[i].t), None)])
         /\ pc' = 1 /\ UNCHANGED <<c, out, last>>
Step == /\ pc >= 1 /\ pc <= Len(Case.prog)
        /\ LET e == Effect IN /\ mem' = e.m
                              /\ out' = Append(out, e.o)
                              /\ last' = e.l
        /\ pc' = pc + 1 /\ UNCHANGED c
Spec == CInit /\ [][Begin \/ Step]_vars

------------------------------------------------------------------------------
(* What C promises about the layout, whatever the types are *)
Done == pc > Len(Case.prog)
MembersApart == pc = 0 =>
  \A t \in DOMAIN Types :
    /\ Size(t) > 0 /\ Size(t) % Align(t) = 0
    /\ Ty(t).k \in {"str", "uni"} =>
         \A i \in DOMAIN Ty(t).ms :
           /\ OffsetOf(t, i) % Align(Ty(t).ms[i].t) = 0
           /\ OffsetOf(t, i) + Size(Ty(t).ms[i].t) <= Size(t)
           /\ Ty(t).k = "str" => \A j \in DOMAIN Ty(t).ms : j < i => OffsetOf(t, j) + Size(Ty(t).ms[j].t) <= OffsetOf(t, i)
           /\ Ty(t).k = "uni" => OffsetOf(t, i) = 0
    /\ Len(Zero(t)) = Size(t)
SizesKept == pc > 0 => \A o \in DOMAIN mem : Len(mem[o]) \in {0, Size(Case.objs[o].t)}
(* A statement changes the bytes it designates; others at most become unspecified, and no other object changes *)
OwnBytes == [][(pc >= 1) =>
   \A o \in DOMAIN mem : \A i \in DOMAIN mem'[o] :
     (mem'[o][i] # mem[o][i] /\ mem'[o][i] # None) => (o = last'.o /\ i > last'.from /\ i <= last'.to)]_vars
Report == Done => PrintT("@@" \o ToJson([c |-> c, o |-> out]))
=============================================================================
