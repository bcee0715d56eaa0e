--------------------------------- MODULE IO ---------------------------------
(***************************************************************************)
(* The input/output library of compiled programs: standard input, files,   *)
(* descriptors, streams and the buffers they are read into.  A state is    *)
(*   in, pos  bytes of standard input, number delivered by getchar         *)
(*   files    contents, by name                                            *)
(*   tab      open files, by the program variable that holds the           *)
(*            descriptor or stream: [v, f, p, m, s] (its value, the file,  *)
(*            the position, mode "r" "w" "a", stream or descriptor)        *)
(*   bufs     buffers (arrays and allocated objects) of the program        *)
(*   out      bytes written to standard output                             *)
(*                                                                         *)
(* An operation is a record [o, h, f, m, n, k, d, b, v]:                   *)
(*   open h f m / fopen h f m    v: value returned                         *)
(*   openx h f / fopenx h f      the same for a file that does not exist   *)
(*   close h / fclose h          v                                         *)
(*   read h n k d                v: count, b: bytes stored in buffer k at  *)
(*                               d, counted from 0                         *)
(*   write h n k d               v: count (n bytes of buffer k from d)     *)
(*   fgetc h / getchar           v: byte or -1                             *)
(*   fgetcs h n / getchars n     b: the results of n such calls            *)
(*   putchar n / putcharv n      v (putcharv observes the value returned)  *)
(*   alloc k n                   a new buffer k of n bytes, filled with b  *)
(*   store k d n                 buffer k, byte d := n                     *)
(*   peek k                      b: the bytes of buffer k                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Min(a, b) == IF a < b THEN a ELSE b
Dom(t) == DOMAIN t
Put(t, k, v) == [x \in DOMAIN t \cup {k} |-> IF x = k THEN v ELSE t[x]]
Del(t, k) == [x \in DOMAIN t \ {k} |-> t[x]]
Rest(s, h) == LET e == s.tab[h] IN SubSeq(s.files[e.f], e.p + 1, Len(s.files[e.f]))
Over(q, d, b) == [i \in DOMAIN q |-> IF i > d /\ i <= d + Len(b) THEN b[i - d] ELSE q[i]]
Isopen(s, h, stream) == h \in DOMAIN s.tab /\ s.tab[h].s = stream

(* may the program perform the operation? *)
Legal(s, o) ==
  CASE o.o \in {"open", "fopen"} -> /\ o.h \notin DOMAIN s.tab /\ o.f \in DOMAIN s.files
                                    /\ \A x \in DOMAIN s.tab : s.tab[x].f = o.f => (o.m = "r" /\ s.tab[x].m = "r")
                                    /\ (o.m = "w" => s.files[o.f] = <<>>)
    [] o.o \in {"openx", "fopenx"} -> o.h \notin DOMAIN s.tab /\ o.f \notin DOMAIN s.files
    [] o.o = "close" -> Isopen(s, o.h, FALSE)
    [] o.o = "fclose" -> Isopen(s, o.h, TRUE)
    [] o.o = "read" -> Isopen(s, o.h, FALSE) /\ s.tab[o.h].m = "r" /\ o.k \in DOMAIN s.bufs /\ o.d + o.n <= Len(s.bufs[o.k])
    [] o.o = "write" -> Isopen(s, o.h, FALSE) /\ s.tab[o.h].m # "r" /\ o.k \in DOMAIN s.bufs /\ o.d + o.n <= Len(s.bufs[o.k])
    [] o.o \in {"fgetc", "fgetcs"} -> Isopen(s, o.h, TRUE) /\ s.tab[o.h].m = "r"
    [] o.o = "alloc" -> Len(o.b) = o.n
    [] o.o = "store" -> o.k \in DOMAIN s.bufs /\ o.d < Len(s.bufs[o.k])
    [] o.o = "peek" -> o.k \in DOMAIN s.bufs
    [] o.o \in {"getchar", "getchars", "putchar", "putcharv"} -> TRUE

(* may it return v and deliver the bytes b? *)
Allows(s, o) ==
  CASE o.o = "open" -> o.v > 2 /\ \A x \in DOMAIN s.tab : ~s.tab[x].s => s.tab[x].v # o.v
    [] o.o = "fopen" -> o.v # 0 /\ \A x \in DOMAIN s.tab : s.tab[x].s => s.tab[x].v # o.v
    [] o.o = "openx" -> o.v < 0
    [] o.o = "fopenx" -> o.v = 0
    [] o.o \in {"close", "fclose"} -> o.v = 0
    [] o.o = "read" -> LET r == Rest(s, o.h) IN
                       \* a file delivers as many bytes as are asked for and left
                       o.v = Min(o.n, Len(r)) /\ o.b = SubSeq(r, 1, o.v)
    [] o.o = "write" -> o.v = o.n
    [] o.o = "fgetc" -> LET r == Rest(s, o.h) IN o.v = IF r = <<>> THEN -1 ELSE r[1]
    [] o.o = "fgetcs" -> o.b = LET r == Rest(s, o.h) IN [i \in 1..o.n |-> IF i <= Len(r) THEN r[i] ELSE -1]
    [] o.o = "getchars" -> o.b = [i \in 1..o.n |-> IF s.pos + i <= Len(s.in) THEN s.in[s.pos + i] ELSE -1]
    [] o.o = "getchar" -> o.v = IF s.pos < Len(s.in) THEN s.in[s.pos + 1] ELSE -1
    [] o.o = "peek" -> o.b = s.bufs[o.k]
    [] o.o = "putcharv" -> o.v = o.n % 256
    [] OTHER -> TRUE

After(s, o) ==
  CASE o.o \in {"open", "fopen"} ->
         [s EXCEPT !.tab = Put(s.tab, o.h, [v |-> o.v, f |-> o.f, p |-> 0, m |-> o.m, s |-> o.o = "fopen"])]
    [] o.o \in {"close", "fclose"} -> [s EXCEPT !.tab = Del(s.tab, o.h)]
    [] o.o = "read" -> [s EXCEPT !.tab[o.h].p = @ + Len(o.b), !.bufs[o.k] = Over(@, o.d, o.b)]
    [] o.o = "write" -> [s EXCEPT !.files[s.tab[o.h].f] = @ \o SubSeq(s.bufs[o.k], o.d + 1, o.d + o.n)]
    [] o.o = "fgetc" -> [s EXCEPT !.tab[o.h].p = @ + (IF o.v = -1 THEN 0 ELSE 1)]
    [] o.o = "fgetcs" -> [s EXCEPT !.tab[o.h].p = Min(@ + o.n, Len(s.files[s.tab[o.h].f]))]
    [] o.o = "getchars" -> [s EXCEPT !.pos = Min(@ + o.n, Len(s.in))]
    [] o.o = "getchar" -> [s EXCEPT !.pos = @ + (IF o.v = -1 THEN 0 ELSE 1)]
    [] o.o \in {"putchar", "putcharv"} -> [s EXCEPT !.out = Append(@, o.n % 256)]
    [] o.o = "alloc" -> [s EXCEPT !.bufs = Put(s.bufs, o.k, o.b)]
    [] o.o = "store" -> [s EXCEPT !.bufs[o.k] = Over(@, o.d, <<o.n>>)]
    [] OTHER -> s

(***************************************************************************)
(* What the specification guarantees; checked on its behaviours            *)
(***************************************************************************)
WellFormed(s) ==
  /\ s.pos \in 0..Len(s.in)
  /\ \A h \in DOMAIN s.tab : s.tab[h].f \in DOMAIN s.files /\ s.tab[h].p \in 0..Len(s.files[s.tab[h].f])
  /\ \A h, g \in DOMAIN s.tab : h # g /\ s.tab[h].s = s.tab[g].s => s.tab[h].v # s.tab[g].v
\* an operation on one descriptor doesn't move the others, and only writes change files
Independent(s, t) ==
  /\ \A h \in DOMAIN s.tab \cap DOMAIN t.tab : t.tab[h] = s.tab[h] \/ \A g \in DOMAIN s.tab \cap DOMAIN t.tab : g # h => t.tab[g] = s.tab[g]
  /\ \A f \in DOMAIN s.files : Len(t.files[f]) >= Len(s.files[f]) /\ SubSeq(t.files[f], 1, Len(s.files[f])) = s.files[f]
  /\ (t.pos # s.pos => t.pos > s.pos /\ t.tab = s.tab)
=============================================================================
