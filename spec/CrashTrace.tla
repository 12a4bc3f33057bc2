----------------------------- MODULE CrashTrace -----------------------------
(***************************************************************************)
(* What is left of the files when a process stops (C08), abstracting from  *)
(* how they are written (CrashFS): every operation makes a new version of  *)
(* a file's content; the file itself moves from one version to a later one *)
(* in a single step, and has no other content in between.                  *)
(*                                                                         *)
(* Events:                                                                 *)
(*   op    an operation is called: its outcome is a version that the file  *)
(*         may have from now on (but need not have, it may be buffered)    *)
(*   snap  fs are the contents of the files at this instant, as another    *)
(*         process would find them, <<presence, content>>                  *)
(*   crash the process has stopped; open are the contents that new         *)
(*         collection objects of a new process have                        *)
(*   end                                                                   *)
(* Content that cannot be serialized is not a version.                     *)
(***************************************************************************)
EXTENDS DictList, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
TraceAtoms == Data.atoms
Traces == Data.traces

VARIABLES tr, l, ver, at
vars == <<tr, l, ver, at>>

Hdr(t) == Traces[t].hdr
Ev(t) == Traces[t].ev

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ ver = [f \in DOMAIN Hdr(tr).disk |-> <<Hdr(tr).disk[f]>>]
        /\ at = [f \in DOMAIN Hdr(tr).disk |-> 1]

Now == Ev(tr)[l]
Files == DOMAIN ver

Content(v) == IF v = <<>> THEN EmptyOf(Hdr(tr).kind) ELSE v[1]

(* A missing file may be created with empty content. *)
Is(v, x) == IF v = <<>> THEN x[1] = 0 \/ (x[1] = 1 /\ Same(Content(v), x[2]))
            ELSE x[1] = 1 /\ Same(v[1], x[2])

Op == /\ Now.a = "op"
      /\ LET e == Now.e
             vs == ver[e.f]
             c == Content(vs[Len(vs)])
         IN IF ~HasPath(c, e.p) \/ ~IsC(GetAt(c, e.p))
               \/ e.op \notin (IF IsD(GetAt(c, e.p)) THEN DictOps ELSE ListOps)
            THEN PrintT(<<"END", tr, l>>) /\ l' = 0 /\ UNCHANGED <<tr, ver, at>>
            ELSE \E a \in Apply(GetAt(c, e.p), e, Hdr(tr).nodot, FALSE) :
                   /\ ver' = IF a.m THEN [ver EXCEPT ![e.f] = Append(@, <<PutAt(c, e.p, a.n)>>)] ELSE ver
                   /\ l' = l + 1 /\ UNCHANGED <<tr, at>>

(* The first version from the present one on that the file can be. *)
Found(f, x) == {i \in at[f]..Len(ver[f]) : Is(ver[f][i], x)}
First(is) == CHOOSE i \in is : \A j \in is : i <= j

Look == /\ \A f \in Files : Found(f, Now.fs[f]) # {}
        /\ at' = [f \in Files |-> First(Found(f, Now.fs[f]))]
        /\ UNCHANGED <<tr, ver>>

Snap == /\ Now.a = "snap" /\ Look /\ l' = l + 1

Crash == /\ Now.a = "crash" /\ Look
         /\ \A f \in Files : LET x == Now.open[f] IN
               x[1] = 1 /\ Same(Content(ver[f][at'[f]]), x[2])
         /\ PrintT(<<"END", tr, l>>)
         /\ l' = 0

End == /\ Now.a = "end" /\ PrintT(<<"END", tr, l>>)
       /\ l' = 0 /\ UNCHANGED <<tr, ver, at>>

Next == l > 0 /\ l <= Len(Ev(tr)) /\ (Op \/ Snap \/ Crash \/ End)

Spec == Init /\ [][Next]_vars
=============================================================================
