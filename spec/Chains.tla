------------------------------- MODULE Chains -------------------------------
(***************************************************************************)
(* The chains of builds that end in a compiler: a host, then the options   *)
(* of the compilers that were built one by the other. Chains end in the    *)
(* compilers that are scripts, since these take minutes to compile pnut.   *)
(* On the way the fixpoint theorem is checked on an abstract compiler:     *)
(* when the result of a compilation is a function of the options of the    *)
(* compiler and of the text, then after one self-compilation the artefact  *)
(* no longer remembers the host, and after n of them only the last two     *)
(* options.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Hosts == {"gcc", "clang"}
Fast == {"x64", "i386"}
Slow == {"sh", "shset", "shrel"}
Others == {"shcompact", "shsafe", "shparam", "i386safe", "x64safe", "i386rel", "x64rel"}
Options == Fast \cup Slow \cup Others
Max == IF "DEPTH" \in DOMAIN IOEnv THEN atoi(IOEnv.DEPTH) ELSE 3

VARIABLE chain
Last(s) == s[Len(s)]
Init == chain \in {<<a>> : a \in Hosts}
Shell == Slow \cup {"shcompact", "shsafe", "shparam"}
(* the artefact at the end of a chain is a script when the compiler before it was one for the shell *)
Script(c) == Len(c) > 2 /\ c[Len(c) - 1] \in Shell
Next == /\ Len(chain) <= Max /\ ~Script(chain)
        /\ \E o \in Options :
             /\ (Len(chain) = Max => Last(chain) \in Fast /\ o \in Fast)
             /\ (Len(chain) > 2 => Last(chain) \in Fast \cup Slow)
             /\ (Len(chain) = 2 /\ chain[1] # "gcc" => Last(chain) \in Fast)
             /\ (Len(chain) = 2 => Last(chain) \in Fast \cup Slow)
             /\ chain' = Append(chain, o)
Spec == Init /\ [][Next]_chain

(* The abstract compiler: an artefact of it is a pair (what the text is, how it was translated) *)
Behaviour(artefact) == artefact[1]                         \* the options it was built with
Compile(artefact, text) == <<text, Behaviour(artefact)>>   \* the translation depends on nothing else
RECURSIVE Artefact(_)
Artefact(c) == IF Len(c) = 2 THEN <<c[2], c[1]>> ELSE Compile(Artefact(SubSeq(c, 1, Len(c) - 1)), Last(c))
Collapse == Len(chain) > 2 => Artefact(chain) = <<Last(chain), chain[Len(chain) - 1]>>
Report == Len(chain) > 1 => PrintT("@@" \o ToJson(chain))
=============================================================================
