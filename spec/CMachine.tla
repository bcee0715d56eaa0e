------------------------------ MODULE CMachine ------------------------------
(***************************************************************************)
(* Small-step abstract machine of the C subset pnut compiles: one state is *)
(* the configuration of a running C program, one transition is one         *)
(* evaluation step.  Where C leaves the order of evaluation unspecified    *)
(* (operands, arguments) the machine is nondeterministic, and where C      *)
(* leaves the behaviour undefined it stops in mode "U".                    *)
(*                                                                         *)
(* The programs are data: CASES_FILE holds a sequence of programs, each a  *)
(* record with                                                             *)
(*   n  node table (see lib/cgen.py: flatten), children are indices        *)
(*   f  functions [np, nl, b]: parameters, slots, body node                *)
(*   g  initial values of the globals                                      *)
(*   m  initial contents of the memory objects (global arrays)             *)
(*   lb labels: for each, the frames between its function and the label    *)
(* A behaviour runs one of them from its function 1 (main).                *)
(***************************************************************************)
EXTENDS CInt, Sequences, TLC, Json, IOUtils

ASSUME "CASES_FILE" \in DOMAIN IOEnv
Progs == JsonDeserialize(IOEnv.CASES_FILE)

Uninit == -2147483646      \* value of an uninitialised local
ObjBase == 1000000         \* pointer to element k of object o: ObjBase * o + k
Fuel == 6000

VARIABLES
  c,      \* the program run by this behaviour
  mode,   \* what the machine does next:
          \*   "E" evaluate expression n          "X" go on evaluating an expression
          \*   "V" give value x to the top frame
          \*   "S" execute statement n            "N" statement completed normally
          \*   "B" break  "C" continue            "R" return x
          \*   "D" program finished with status x "U" undefined behaviour
  n, x,
  env,    \* locals of the current activation
  gl,     \* globals
  mem,    \* memory objects
  ks,     \* continuation: frames, the innermost last
  tr,     \* values emitted so far (the observable behaviour)
  st      \* number of steps

vars == <<c, mode, n, x, env, gl, mem, ks, tr, st>>

P == Progs[c]
Nd(i) == P.n[i]
Last(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Push(s, f) == Append(s, f)

(***************************************************************************)
(* Frames.  t: kind, n: node, i: position, x: first value, xs: values      *)
(* (arguments evaluated so far, or the locals saved by a call).            *)
(***************************************************************************)
Fr(t, nn, i, xx, xs) == [t |-> t, n |-> nn, i |-> i, x |-> xx, xs |-> xs]
F1(t, nn) == Fr(t, nn, 0, 0, <<>>)

Init ==
  /\ c \in 1..Len(Progs)
  /\ mode = "S" /\ n = Progs[c].f[1].b /\ x = 0
  /\ env = [i \in 1..Progs[c].f[1].nl |-> Uninit]
  /\ gl = Progs[c].g /\ mem = Progs[c].m
  /\ ks = <<>> /\ tr = <<>> /\ st = 0

(***************************************************************************)
(* Memory                                                                  *)
(***************************************************************************)
ValidPtr(a) == /\ a > 0 /\ a \div ObjBase \in 1..Len(mem)
               /\ (a % ObjBase) < Len(mem[a \div ObjBase])
Load(a) == IF ~ValidPtr(a) THEN BAD
           ELSE LET v == mem[a \div ObjBase][(a % ObjBase) + 1] IN IF v = Uninit THEN BAD ELSE v

(***************************************************************************)
(* Expressions without calls and side effects are evaluated in one step.   *)
(***************************************************************************)
RECURSIVE Pure(_)
Pure(i) ==
  LET e == Nd(i) IN
  CASE e.k = "num" -> e.v
    [] e.k = "loc" -> IF env[e.v] = Uninit THEN BAD ELSE env[e.v]
    [] e.k = "glo" -> gl[e.v]
    [] e.k = "idx" -> LET a == Pure(e.d) IN IF a = BAD THEN BAD ELSE Load(a)
    [] e.k = "un"  -> UnOp(e.o, Pure(e.a))
    [] e.k = "bin" -> BinOp(e.o, Pure(e.a), Pure(e.b))
    [] e.k = "and" -> LET a == Pure(e.a) IN
         IF a = BAD THEN BAD ELSE IF a = 0 THEN 0 ELSE
         LET b == Pure(e.b) IN IF b = BAD THEN BAD ELSE Bool(b # 0)
    [] e.k = "or"  -> LET a == Pure(e.a) IN
         IF a = BAD THEN BAD ELSE IF a # 0 THEN 1 ELSE
         LET b == Pure(e.b) IN IF b = BAD THEN BAD ELSE Bool(b # 0)
    [] e.k = "cnd" -> LET a == Pure(e.a) IN
         IF a = BAD THEN BAD ELSE IF a # 0 THEN Pure(e.b) ELSE Pure(e.c)
    [] e.k = "com" -> LET a == Pure(e.a) IN IF a = BAD THEN BAD ELSE Pure(e.b)
IsPure(i) == Nd(i).p = 1

(* What a transition that only moves control leaves unchanged *)
Data == UNCHANGED <<c, env, gl, mem, tr>>

GoE(i, kk) == mode' = "E" /\ n' = i /\ x' = 0 /\ ks' = kk
GoS(i, kk) == mode' = "S" /\ n' = i /\ x' = 0 /\ ks' = kk
GoN(kk)    == mode' = "N" /\ n' = 0 /\ x' = 0 /\ ks' = kk
GoV(v, kk) == IF v = BAD THEN mode' = "U" /\ n' = n /\ x' = 0 /\ ks' = <<>>
              ELSE mode' = "V" /\ n' = 0 /\ x' = v /\ ks' = kk
Undef      == mode' = "U" /\ n' = n /\ x' = 0 /\ ks' = <<>>

(***************************************************************************)
(* Evaluation of a full expression with side effects.  C does not order    *)
(* the operands of an operator or the arguments of a call, and does not    *)
(* even require one operand to be finished before another is started: the  *)
(* evaluation is a set of ready actions (loads, stores, calls) from which  *)
(* one is chosen at each step.  Only the first operand of && || ?: and the *)
(* comma is evaluated before the rest.  A function body runs as a whole.   *)
(*                                                                         *)
(* d: the values known so far (node -> value) for the actions performed    *)
(* and the first operands of && || ?: and comma.                           *)
(* z: whether the expression contains calls.  If not, the moment when a    *)
(* variable is read does not matter (or the behaviour is undefined).       *)
(***************************************************************************)
Acts == {"call", "emit", "mal", "exit", "asg", "inc"}
Seqs == {"and", "or", "cnd", "com"}
RECURSIVE RVal(_, _, _), Av(_, _, _), Norm(_, _, _), Ready(_, _, _)
(* Is the value of i known? *)
Av(i, d, z) ==
  IF i \in DOMAIN d \/ (IsPure(i) /\ ~z) THEN TRUE ELSE
  LET e == Nd(i) IN
  CASE e.k \in {"num", "loc"} -> TRUE
    [] e.k = "glo" -> ~z
    [] e.k = "idx" -> ~z /\ Av(e.d, d, z)
    [] e.k \in Acts -> FALSE
    [] e.k = "un" -> Av(e.a, d, z)
    [] e.k = "bin" -> Av(e.a, d, z) /\ Av(e.b, d, z)
    [] e.k = "and" -> e.a \in DOMAIN d /\ (d[e.a] \in {0, BAD} \/ Av(e.b, d, z))
    [] e.k = "or" -> e.a \in DOMAIN d /\ (d[e.a] # 0 \/ Av(e.b, d, z))
    [] e.k = "cnd" -> e.a \in DOMAIN d /\ (d[e.a] = BAD \/ Av(IF d[e.a] # 0 THEN e.b ELSE e.c, d, z))
    [] e.k = "com" -> e.a \in DOMAIN d /\ Av(e.b, d, z)
(* The value of i, which is known *)
RVal(i, d, z) ==
  IF i \in DOMAIN d THEN d[i] ELSE
  LET e == Nd(i) IN
  IF (IsPure(i) /\ ~z) \/ e.k \in {"num", "loc"} THEN Pure(i) ELSE
  CASE e.k = "idx" -> LET a == RVal(e.d, d, z) IN IF a = BAD THEN BAD ELSE Load(a)
    [] e.k = "un" -> UnOp(e.o, RVal(e.a, d, z))
    [] e.k = "bin" -> BinOp(e.o, RVal(e.a, d, z), RVal(e.b, d, z))
    [] e.k = "and" -> IF d[e.a] \in {0, BAD} THEN d[e.a] ELSE LET b == RVal(e.b, d, z) IN IF b = BAD THEN BAD ELSE Bool(b # 0)
    [] e.k = "or" -> IF d[e.a] = BAD THEN BAD ELSE IF d[e.a] # 0 THEN 1 ELSE LET b == RVal(e.b, d, z) IN IF b = BAD THEN BAD ELSE Bool(b # 0)
    [] e.k = "cnd" -> IF d[e.a] = BAD THEN BAD ELSE RVal(IF d[e.a] # 0 THEN e.b ELSE e.c, d, z)
    [] e.k = "com" -> IF d[e.a] = BAD THEN BAD ELSE RVal(e.b, d, z)
(* Nodes whose values node i needs, in the current state of its evaluation *)
Kids(i, d) ==
  LET e == Nd(i) IN
  CASE e.k \in {"un", "emit", "mal", "exit"} -> {e.a}
    [] e.k = "bin" -> {e.a, e.b}
    [] e.k = "idx" -> {e.d}
    [] e.k \in {"num", "loc", "glo"} -> {}
    [] e.k = "call" -> {e.l[j] : j \in 1..Len(e.l)}
    [] e.k = "asg" -> IF Nd(e.a).k = "idx" THEN {Nd(e.a).d, e.b} ELSE {e.b}
    [] e.k = "inc" -> IF Nd(e.a).k = "idx" THEN {Nd(e.a).d} ELSE {}
    [] e.k \in Seqs -> IF e.a \notin DOMAIN d THEN {e.a}
                       ELSE IF d[e.a] = BAD THEN {}
                       ELSE CASE e.k = "and" -> IF d[e.a] = 0 THEN {} ELSE {e.b}
                              [] e.k = "or" -> IF d[e.a] # 0 THEN {} ELSE {e.b}
                              [] e.k = "cnd" -> IF d[e.a] # 0 THEN {e.b} ELSE {e.c}
                              [] e.k = "com" -> {e.b}
(* First operands that have become known are recorded before the evaluation proceeds *)
RECURSIVE NormAll(_, _, _)
NormAll(S, d, z) == IF S = {} THEN d ELSE LET j == CHOOSE j \in S : TRUE IN NormAll(S \ {j}, Norm(j, d, z), z)
Norm(i, d, z) ==
  IF i \in DOMAIN d \/ (IsPure(i) /\ ~z) THEN d ELSE
  LET e == Nd(i)
      d1 == NormAll(Kids(i, d), d, z)
  IN IF e.k \in Seqs /\ e.a \notin DOMAIN d1 /\ Av(e.a, d1, z)
     THEN Norm(i, (e.a :> RVal(e.a, d1, z)) @@ d1, z)
     ELSE d1
(* The actions that can be performed now *)
Ready(i, d, z) ==
  IF i \in DOMAIN d THEN {} ELSE
  LET K == Kids(i, d)
      sub == UNION {Ready(j, d, z) : j \in K}
  IN IF Nd(i).k \in Acts \/ (z /\ Nd(i).k \in {"glo", "idx"})
     THEN IF \A j \in K : Av(j, d, z) THEN {i} ELSE sub
     ELSE sub
HasCall(i) == Nd(i).q = 1

(* Enter function e.v: its parameters are the arguments, its other slots are fresh *)
Enter(i, args, kk) ==
  LET f == P.f[Nd(i).v] IN
  /\ mode' = "S" /\ n' = f.b /\ x' = 0
  /\ env' = [j \in 1..f.nl |-> IF j <= f.np THEN args[j] ELSE Uninit]
  /\ ks' = Push(kk, Fr("call", i, 0, 0, env))
  /\ UNCHANGED <<c, gl, mem, tr>>

Eval ==      \* start the evaluation of a full expression
  /\ mode = "E"
  /\ IF IsPure(n) THEN GoV(Pure(n), ks) /\ Data
     ELSE mode' = "X" /\ n' = 0 /\ x' = 0 /\ ks' = Push(ks, F1("reg", n)) /\ Data

(***************************************************************************)
(* Stores.  lv: node of the lvalue, a: its address when it is in memory    *)
(***************************************************************************)
LvRead(lv, a) == CASE Nd(lv).k = "loc" -> IF env[Nd(lv).v] = Uninit THEN BAD ELSE env[Nd(lv).v]
                   [] Nd(lv).k = "glo" -> gl[Nd(lv).v]
                   [] Nd(lv).k = "idx" -> Load(a)
LvWrite(lv, a, v) ==
  CASE Nd(lv).k = "loc" -> env' = [env EXCEPT ![Nd(lv).v] = v] /\ UNCHANGED <<gl, mem>>
    [] Nd(lv).k = "glo" -> gl' = [gl EXCEPT ![Nd(lv).v] = v] /\ UNCHANGED <<env, mem>>
    [] Nd(lv).k = "idx" -> mem' = [mem EXCEPT ![a \div ObjBase][(a % ObjBase) + 1] = v] /\ UNCHANGED <<env, gl>>
Store(lv, a, v, res, kk) ==
  IF v = BAD \/ res = BAD \/ (Nd(lv).k = "idx" /\ ~ValidPtr(a))
  THEN Undef /\ Data
  ELSE GoV(res, kk) /\ LvWrite(lv, a, v) /\ UNCHANGED <<c, tr>>

Region ==
  /\ mode = "X"
  /\ LET f == Last(ks) k == Pop(ks) z == HasCall(f.n)
         d == Norm(f.n, f.xs, z)
     IN
     IF Av(f.n, d, z) THEN GoV(RVal(f.n, d, z), k) /\ Data
     ELSE \E i \in Ready(f.n, d, z) :
       LET e == Nd(i)
           kk == Push(k, Fr("reg", f.n, i, 0, d))      \* waits for the value of i
           v(j) == RVal(j, d, z)
       IN
       IF \E j \in Kids(i, d) : v(j) = BAD THEN Undef /\ Data ELSE
       CASE e.k = "call" -> Enter(i, [j \in 1..Len(e.l) |-> v(e.l[j])], kk)
         [] e.k = "glo" -> GoV(gl[e.v], kk) /\ Data
         [] e.k = "idx" -> GoV(Load(v(e.d)), kk) /\ Data
         [] e.k = "emit" -> GoV(v(e.a), kk) /\ tr' = Append(tr, v(e.a)) /\ UNCHANGED <<c, env, gl, mem>>
         [] e.k = "mal" -> /\ GoV(ObjBase * (Len(mem) + 1), kk)
                           /\ mem' = Append(mem, [j \in 1..v(e.a) |-> Uninit])
                           /\ UNCHANGED <<c, env, gl, tr>>
         [] e.k = "exit" -> mode' = "D" /\ n' = 0 /\ x' = v(e.a) /\ ks' = <<>> /\ Data
         [] e.k = "asg" ->
              LET a == IF Nd(e.a).k = "idx" THEN v(Nd(e.a).d) ELSE 0
                  w == v(e.b) IN
              IF e.o = "=" THEN Store(e.a, a, w, w, kk)
              ELSE IF Nd(e.a).k = "idx" /\ ~ValidPtr(a) THEN Undef /\ Data
              ELSE LET u == BinOp(e.o, LvRead(e.a, a), w) IN Store(e.a, a, u, u, kk)
         [] e.k = "inc" ->
              LET a == IF Nd(e.a).k = "idx" THEN v(Nd(e.a).d) ELSE 0 IN
              IF Nd(e.a).k = "idx" /\ ~ValidPtr(a) THEN Undef /\ Data
              ELSE LET old == LvRead(e.a, a) new == BinOp(e.o, old, 1) IN
                   Store(e.a, a, new, IF e.v = 0 THEN new ELSE old, kk)

(***************************************************************************)
(* A value reaches the innermost frame                                     *)
(***************************************************************************)
Value ==
  /\ mode = "V" /\ ks # <<>>
  /\ LET f == Last(ks) k == Pop(ks) e == Nd(f.n) IN
     CASE f.t = "reg" -> mode' = "X" /\ n' = 0 /\ x' = 0 /\ Data
                         /\ ks' = Push(k, Fr("reg", f.n, 0, 0, (f.i :> x) @@ f.xs))
       \* statements waiting for the value of an expression
       [] f.t = "ex"  -> GoN(k) /\ Data
       [] f.t = "dec" -> /\ GoN(k) /\ env' = [env EXCEPT ![e.v] = x] /\ UNCHANGED <<c, gl, mem, tr>>
       [] f.t = "if"  -> IF x # 0 THEN GoS(e.b, k) /\ Data
                         ELSE IF e.c # 0 THEN GoS(e.c, k) /\ Data ELSE GoN(k) /\ Data
       [] f.t = "whc" -> IF x # 0 THEN GoS(e.b, Push(k, F1("loop", f.n))) /\ Data ELSE GoN(k) /\ Data
       [] f.t = "doc" -> IF x # 0 THEN GoS(e.a, Push(k, F1("loop", f.n))) /\ Data ELSE GoN(k) /\ Data
       [] f.t = "foi" -> /\ Data      \* for: the initialisation is done
                         /\ IF e.b = 0 THEN GoS(e.d, Push(k, F1("loop", f.n)))
                            ELSE GoE(e.b, Push(k, F1("foc", f.n)))
       [] f.t = "foc" -> IF x # 0 THEN GoS(e.d, Push(k, F1("loop", f.n))) /\ Data ELSE GoN(k) /\ Data
       [] f.t = "sw"  -> \* jump to the matching case, or else to default
            LET l == Nd(e.b).l
                hit == {j \in 1..Len(l) : Nd(l[j]).k = "case" /\ Nd(l[j]).v = x}
                def == {j \in 1..Len(l) : Nd(l[j]).k = "dflt"}
                go(j) == mode' = "N" /\ n' = 0 /\ x' = 0 /\
                         ks' = Push(Push(k, F1("swi", f.n)), Fr("blk", e.b, j, 0, <<>>))
            IN /\ Data
               /\ IF hit # {} THEN go(CHOOSE j \in hit : TRUE)
                  ELSE IF def # {} THEN go(CHOOSE j \in def : TRUE) ELSE GoN(k)
       [] f.t = "ret" -> mode' = "R" /\ n' = 0 /\ x' = x /\ ks' = k /\ Data

(***************************************************************************)
(* Statements                                                              *)
(***************************************************************************)
(* Continuation of the activation: everything up to its call frame *)
RECURSIVE CallPart(_)
CallPart(s) == IF s = <<>> \/ Last(s).t = "call" THEN s ELSE CallPart(Pop(s))

Exec ==
  LET e == Nd(n) IN
  /\ mode = "S"
  /\ IF e.k = "darr" THEN mem' = Append(mem, [j \in 1..e.a |-> Uninit]) /\ UNCHANGED <<c, env, gl, tr>> ELSE Data
  /\ CASE e.k = "nop" \/ e.k = "case" \/ e.k = "dflt" \/ e.k = "lbl" -> GoN(ks)
       [] e.k = "ex"  -> GoE(e.a, Push(ks, F1("ex", n)))
       [] e.k = "dec" -> IF e.a = 0 THEN GoN(ks) ELSE GoE(e.a, Push(ks, F1("dec", n)))
       [] e.k = "darr" -> \* a local array is an object of its own
            /\ GoV(ObjBase * (Len(mem) + 1), Push(ks, F1("dec", n)))
       [] e.k = "if"  -> GoE(e.a, Push(ks, F1("if", n)))
       [] e.k = "wh"  -> GoE(e.a, Push(ks, F1("whc", n)))
       [] e.k = "do"  -> GoS(e.a, Push(ks, F1("loop", n)))
       [] e.k = "for" -> IF e.a # 0 THEN GoE(e.a, Push(ks, F1("foi", n)))
                         ELSE GoV(0, Push(ks, F1("foi", n)))
       [] e.k = "sw"  -> GoE(e.a, Push(ks, F1("sw", n)))
       [] e.k = "blk" -> mode' = "N" /\ n' = 0 /\ x' = 0 /\ ks' = Push(ks, Fr("blk", n, 0, 0, <<>>))
       [] e.k = "brk" -> mode' = "B" /\ n' = 0 /\ x' = 0 /\ ks' = ks
       [] e.k = "cnt" -> mode' = "C" /\ n' = 0 /\ x' = 0 /\ ks' = ks
       [] e.k = "ret" -> IF e.a = 0 THEN mode' = "R" /\ n' = 0 /\ x' = 0 /\ ks' = ks
                         ELSE GoE(e.a, Push(ks, F1("ret", n)))
       [] e.k = "goto" -> LET l == P.lb[e.v] IN GoN(CallPart(ks) \o l)

(* The body of loop f has completed (normally or by continue) *)
LoopEnd(f, k) ==
  LET e == Nd(f.n) IN
  CASE e.k = "wh" -> GoE(e.a, Push(k, F1("whc", f.n)))
    [] e.k = "do" -> GoE(e.b, Push(k, F1("doc", f.n)))
    [] e.k = "for" -> IF e.c # 0 THEN GoE(e.c, Push(k, F1("foi", f.n)))
                      ELSE GoV(0, Push(k, F1("foi", f.n)))

(* Function body finished: restore the caller's locals *)
LeaveCall(f, v, k) == GoV(v, k) /\ env' = f.xs /\ UNCHANGED <<c, gl, mem, tr>>

Normal ==
  /\ mode = "N"
  /\ IF ks = <<>> THEN mode' = "D" /\ n' = 0 /\ x' = 0 /\ ks' = <<>> /\ Data
     ELSE LET f == Last(ks) k == Pop(ks) IN
     CASE f.t = "blk" -> /\ Data
                         /\ IF f.i < Len(Nd(f.n).l)
                            THEN GoS(Nd(f.n).l[f.i + 1], Push(k, Fr("blk", f.n, f.i + 1, 0, <<>>)))
                            ELSE GoN(k)
       [] f.t = "loop" -> LoopEnd(f, k) /\ Data
       [] f.t = "swi" -> GoN(k) /\ Data
       [] f.t = "call" -> LeaveCall(f, 0, k)

Break ==
  /\ mode = "B" /\ Data
  /\ LET f == Last(ks) k == Pop(ks) IN
     IF f.t \in {"loop", "swi"} THEN GoN(k)
     ELSE mode' = "B" /\ n' = 0 /\ x' = 0 /\ ks' = k

Continue ==
  /\ mode = "C" /\ Data
  /\ LET f == Last(ks) k == Pop(ks) IN
     IF f.t = "loop" THEN LoopEnd(f, k)
     ELSE mode' = "C" /\ n' = 0 /\ x' = 0 /\ ks' = k

Return ==
  /\ mode = "R"
  /\ LET k == CallPart(ks) IN
     IF k = <<>> THEN mode' = "D" /\ n' = 0 /\ x' = x /\ ks' = <<>> /\ Data
     ELSE LeaveCall(Last(k), x, Pop(k))

OutOfFuel == mode \notin {"D", "U"} /\ st = Fuel /\ Undef /\ Data

Next == /\ st' = st + 1
        /\ \/ st < Fuel /\ (Eval \/ Region \/ Value \/ Exec \/ Normal \/ Break \/ Continue \/ Return)
           \/ OutOfFuel
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the machine itself                                        *)
(***************************************************************************)
TypeOK == /\ mode \in {"E", "X", "V", "S", "N", "B", "C", "R", "D", "U"}
          /\ \A i \in DOMAIN env : env[i] # BAD
          /\ \A i \in DOMAIN gl : gl[i] # BAD
          /\ mode = "D" => ks = <<>>
(* What has been output is never taken back *)
TraceGrows == [][Len(tr') >= Len(tr) /\ SubSeq(tr', 1, Len(tr)) = tr]_vars
(* The locals of suspended activations are not touched until they resume *)
CallFrames(s) == SelectSeq(s, LAMBDA f : f.t = "call")
ActivationsPrivate ==
  [][mode' \notin {"U", "D"} =>
       LET a == CallFrames(ks) b == CallFrames(ks')
           m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
       IN /\ \A i \in 1..m : a[i] = b[i]
          /\ Len(b) = Len(a) + 1 => b[Len(b)].xs = env
          /\ Len(b) = Len(a) - 1 => env' = a[Len(a)].xs]_vars

(* Evaluated once for each distinct state: reports how each program can end *)
Report == mode \in {"D", "U"} =>
            PrintT("@@" \o ToJson([c |-> c, m |-> mode, t |-> tr, x |-> x]))
=============================================================================
