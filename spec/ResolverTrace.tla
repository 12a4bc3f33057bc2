---------------------------- MODULE ResolverTrace ----------------------------
(***************************************************************************)
(* Recorded operations of processes against the memoryless classification  *)
(* of Resolver: the outcome of an operation is a function of the operation *)
(* alone.                                                                  *)
(*                                                                         *)
(* A trace is the history of one process: events <<operation, outcome>>.   *)
(* fresh[o] is the outcome of operation o as the first one of a process.   *)
(* The verdict is END when every outcome is the fresh one, BAD otherwise.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces
Fresh == Data.fresh

VARIABLES tr, l
vars == <<tr, l>>

Ev(t) == Traces[t]

Init == tr \in 1..Len(Traces) /\ l = 1

Step == /\ l <= Len(Ev(tr))
        /\ Ev(tr)[l][2] = Fresh[Ev(tr)[l][1]]
        /\ l' = l + 1 /\ UNCHANGED tr

Differs == /\ l <= Len(Ev(tr))
           /\ Ev(tr)[l][2] # Fresh[Ev(tr)[l][1]]
           /\ PrintT(<<"BAD", tr, l>>)
           /\ l' = 0 /\ UNCHANGED tr

End == /\ l = Len(Ev(tr)) + 1
       /\ PrintT(<<"END", tr, l>>)
       /\ l' = 0 /\ UNCHANGED tr

Next == l > 0 /\ (Step \/ Differs \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
