------------------------------ MODULE Process ------------------------------
(***************************************************************************)
(* A process: what main receives, how it ends (C99 5.1.2.2, 7.20.4.3).     *)
(*                                                                         *)
(* CASES_FILE holds cases                                                  *)
(*   [args |-> <<bytes..>>  the arguments, argv[0] first                   *)
(*    input |-> bytes of the standard input                                *)
(*    void |-> does main return nothing                                    *)
(*    fs |-> <<body..>>]    the functions, the first one is main           *)
(* A body is a sequence of                                                 *)
(*   [k |-> "out", v]       write the byte v                               *)
(*   [k |-> "lit", s]       write the bytes s of a string or a table       *)
(*   [k |-> "in"]           read a byte of the input and write it, or E at *)
(*                          its end                                        *)
(*   [k |-> "argc"]         write argc                                     *)
(*   [k |-> "arg", v]       write the bytes of argv[v], when v < argc      *)
(*   [k |-> "args"]         write the bytes of every argument until the    *)
(*                          null pointer                                   *)
(*   [k |-> "set", v, j, x] argv[v][j] = x, when there is such a byte      *)
(*   [k |-> "swap", v, j]   exchange argv[v] and argv[j], when they exist  *)
(*   [k |-> "call", f, x]   call function f with the argument x            *)
(*   [k |-> "self"]         when the parameter is positive, the function   *)
(*                          calls itself with one less                     *)
(*   [k |-> "when", v, n]   skip n statements unless argc > v              *)
(*   [k |-> "exit", v]      exit(v)                                        *)
(*   [k |-> "exitarg", v]   exit(argv[v][0]), when v < argc                *)
(*   [k |-> "exitp"]        exit(parameter)                                *)
(*   [k |-> "ret", v]       return v                                       *)
(* Functions return their parameter at their end; main returns 0.          *)
(* "val" writes the value of the last call.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == IF "CASES_FILE" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.CASES_FILE) ELSE <<>>

VARIABLES
  c,
  argv,    \* the argument vector: <<argument..>>
  out,     \* what was written: a sequence of <<"b", byte>>, <<"n", number>>
  stack,   \* activations [f, pc, x], innermost last
  last,    \* value of the last call
  rd,      \* bytes of the input that were read
  status,  \* -1 while the process runs
  raw      \* the value that was given to exit or returned by main
vars == <<c, argv, out, stack, last, rd, status, raw>>

Init == \E n \in 1..Len(Cases) :
          /\ c = n /\ argv = Cases[n].args /\ out = <<>> /\ stack = <<[f |-> 1, pc |-> 1, x |-> 0]>>
          /\ last = 0 /\ rd = 0 /\ status = -1 /\ raw = 0

Running == status = -1
Top == stack[Len(stack)]
Code == Cases[c].fs[Top.f]
Op == Code[Top.pc]
At(k) == Running /\ Top.pc <= Len(Code) /\ Op.k = k
Argc == Len(argv)
Has(i) == i < Argc
Arg(i) == argv[i + 1]
Skip(n) == stack' = [stack EXCEPT ![Len(stack)].pc = @ + n]
Write(s) == out' = out \o s
Bytes(s) == [i \in 1..Len(s) |-> <<"b", s[i]>>]
RECURSIVE AllBytes(_)
AllBytes(v) == IF v = <<>> THEN <<>> ELSE Bytes(v[1]) \o <<<<"n", Len(v[1])>>>> \o AllBytes(SubSeq(v, 2, Len(v)))

Out == At("out") /\ Write(<<<<"b", Op.v>>>>) /\ Skip(1) /\ UNCHANGED <<c, argv, last, rd, status, raw>>
Lit == At("lit") /\ Write(Bytes(Op.s)) /\ Skip(1) /\ UNCHANGED <<c, argv, last, rd, status, raw>>
Val == At("val") /\ Write(<<<<"n", last>>>>) /\ Skip(1) /\ UNCHANGED <<c, argv, last, rd, status, raw>>
Count == At("argc") /\ Write(<<<<"n", Argc>>>>) /\ Skip(1) /\ UNCHANGED <<c, argv, last, rd, status, raw>>
One == At("arg") /\ Write(IF Has(Op.v) THEN Bytes(Arg(Op.v)) ELSE <<>>) /\ Skip(1) /\ UNCHANGED <<c, argv, last, rd, status, raw>>
All == At("args") /\ Write(AllBytes(argv)) /\ Skip(1) /\ UNCHANGED <<c, argv, last, rd, status, raw>>
Set == /\ At("set") /\ Skip(1) /\ UNCHANGED <<c, out, last, rd, status, raw>>
       /\ argv' = (IF Has(Op.v) /\ Op.j < Len(Arg(Op.v)) THEN [argv EXCEPT ![Op.v + 1][Op.j + 1] = Op.x] ELSE argv)
Swap == /\ At("swap") /\ Skip(1) /\ UNCHANGED <<c, out, last, rd, status, raw>>
        /\ argv' = (IF Has(Op.v) /\ Has(Op.j) THEN [argv EXCEPT ![Op.v + 1] = Arg(Op.j), ![Op.j + 1] = Arg(Op.v)] ELSE argv)
(* the caller continues after the call *)
Push(f, x) == stack' = Append([stack EXCEPT ![Len(stack)].pc = @ + 1], [f |-> f, pc |-> 1, x |-> x])
Call == At("call") /\ Push(Op.f, Op.x) /\ UNCHANGED <<c, argv, out, last, rd, status, raw>>
Self == /\ At("self") /\ UNCHANGED <<c, argv, out, last, rd, status, raw>>
        /\ IF Top.x > 0 THEN Push(Top.f, Top.x - 1) ELSE Skip(1)
When == At("when") /\ Skip(IF Argc > Op.v THEN 1 ELSE 1 + Op.n) /\ UNCHANGED <<c, argv, out, last, rd, status, raw>>
(* The process ends at once, whatever activations there are *)
End(v) == status' = v % 256 /\ raw' = v /\ stack' = <<>> /\ UNCHANGED <<c, argv, out, last, rd>>
Exit == At("exit") /\ End(Op.v)
ExitP == At("exitp") /\ End(Top.x)
ExitArg == At("exitarg") /\ IF Has(Op.v) /\ Len(Arg(Op.v)) > 0 THEN End(Arg(Op.v)[1]) ELSE Skip(1) /\ UNCHANGED <<c, argv, out, last, rd, status, raw>>
Leave(v) == IF Len(stack) = 1 THEN End(v)
            ELSE stack' = SubSeq(stack, 1, Len(stack) - 1) /\ last' = v /\ UNCHANGED <<c, argv, out, rd, status, raw>>
Return == At("ret") /\ Leave(IF Len(stack) = 1 /\ Cases[c].void THEN 0 ELSE Op.v)
Fall == Running /\ Top.pc > Len(Code) /\ Leave(IF Len(stack) = 1 THEN 0 ELSE Top.x)

Read == /\ At("in") /\ Skip(1) /\ UNCHANGED <<c, argv, last, status, raw>>
        /\ IF rd < Len(Cases[c].input) THEN rd' = rd + 1 /\ Write(Bytes(<<Cases[c].input[rd + 1]>>))
           ELSE rd' = rd /\ Write(<<<<"b", 69>>>>)
Next == Lit \/ Read \/ Out \/ Val \/ Count \/ One \/ All \/ Set \/ Swap \/ Call \/ Self \/ When \/ Exit \/ ExitP \/ ExitArg \/ Return \/ Fall
Spec == Init /\ [][Next]_vars

TypeOK == status \in -1..255 /\ Len(argv) = Len(Cases[c].args) /\ (Running => Len(stack) > 0)
(* What was written stays written, and nothing is written after the end *)
OutGrows == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
EndsOnce == [][Running]_vars
Progress == Running => ENABLED(Next)
Report == ~Running => PrintT("@@" \o ToJson([c |-> c, o |-> out, x |-> status, r |-> raw]))
=============================================================================
