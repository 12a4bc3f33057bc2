------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Validation of concurrent histories: is there an order of the operations *)
(* - each at one moment between its call and its return - in which the     *)
(* sequential specification gives the recorded results and the final       *)
(* contents?                                                               *)
(*                                                                         *)
(* A trace is [hdr, ev].  hdr.disk are the initial contents of the files.  *)
(* Events:                                                                 *)
(*   inv    thread t calls operation e on the container at path e.p of     *)
(*          file e.f                                                       *)
(*   ret    thread t got res                                               *)
(*   stuck  the threads that have not returned never will                  *)
(*   end    all threads are gone; fs are the contents of the files,        *)
(*          <<presence, content>>; xr is the outcome of leaving the        *)
(*          buffered context, sz the buffer size afterwards                *)
(* The verdict of a trace is END when it can be explained.  Being able to  *)
(* explain requires that every call returned.                              *)
(*                                                                         *)
(* A returned child is recorded by its kind only, <<9, kind>>: reading its *)
(* content would be another operation.                                     *)
(***************************************************************************)
EXTENDS DictList, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
TraceAtoms == Data.atoms
Traces == Data.traces

VARIABLES tr, l, disk, pend
vars == <<tr, l, disk, pend>>

Hdr(t) == Traces[t].hdr
Ev(t) == Traces[t].ev

Idle == <<"idle">>
Called(e) == <<"called", e>>
Done(r) == <<"done", r>>

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ disk = Hdr(tr).disk
        /\ pend = [t \in 1..Hdr(tr).nt |-> Idle]

RECURSIVE SameK(_, _)
SameK(exp, got) ==
    IF got[1] = 9 THEN Kind(exp) = got[2]
    ELSE IF got[1] = 1 /\ IsL(exp)
    THEN Len(exp[2]) = Len(got[2]) /\ \A i \in 1..Len(exp[2]) : SameK(exp[2][i], got[2][i])
    ELSE got[1] = Kind(exp) /\ Same(exp, got)

RECURSIVE BagK(_, _)
BagK(s, t) ==
    IF s = <<>> THEN t = <<>>
    ELSE \E i \in 1..Len(t) : SameK(s[1], t[i]) /\ BagK(Tail(s), DropAt(t, i))

LinMatch(exp, got) ==
    IF exp[1] = "v" /\ got[1] = "v" THEN SameK(exp[2], got[2])
    ELSE IF exp[1] = "seq" /\ got[1] = "seq"
    THEN /\ Len(got[2]) = Len(exp[2])
         /\ IF exp[3] THEN \A i \in 1..Len(exp[2]) : SameK(exp[2][i], got[2][i])
            ELSE BagK(exp[2], got[2])
    ELSE ResMatch(exp, got)

Content(f) == IF disk[f] = <<>> THEN EmptyOf(Hdr(tr).kind) ELSE disk[f][1]

Now == Ev(tr)[l]

Call == /\ Now.a = "inv"
        /\ pend' = [pend EXCEPT ![Now.t] = Called(Now.e)]
        /\ l' = l + 1 /\ UNCHANGED <<tr, disk>>

(* The operation of thread t takes effect.  There is no point in doing so  *)
(* before some thread is about to return.                                  *)
Effect(t) ==
    /\ Now.a = "ret" /\ pend[t][1] = "called"
    /\ LET e == pend[t][2]
           c == Content(e.f)
       IN IF ~HasPath(c, e.p) \/ ~IsC(GetAt(c, e.p))
             \/ e.op \notin (IF IsD(GetAt(c, e.p)) THEN DictOps ELSE ListOps)
          THEN \* the handle is detached: nothing is specified from here on
               /\ PrintT(<<"END", tr, l>>)
               /\ l' = 0 /\ UNCHANGED <<tr, disk, pend>>
          ELSE \E a \in Apply(GetAt(c, e.p), e, Hdr(tr).nodot, FALSE) :
                 /\ pend' = [pend EXCEPT ![t] = Done(a.r)]
                 /\ disk' = IF a.m THEN [disk EXCEPT ![e.f] = <<PutAt(c, e.p, a.n)>>] ELSE disk
                 /\ UNCHANGED <<tr, l>>

Return == /\ Now.a = "ret" /\ pend[Now.t][1] = "done"
          /\ LinMatch(pend[Now.t][2], Now.res)
          /\ pend' = [pend EXCEPT ![Now.t] = Idle]
          /\ l' = l + 1 /\ UNCHANGED <<tr, disk>>

FileOk(f) == LET x == Now.fs[f] IN
    \/ disk[f] = <<>> /\ x[1] = 0
    \/ disk[f] # <<>> /\ x[1] = 1 /\ Same(disk[f][1], x[2])
    \* operations that leave a missing file's content empty need not create it
    \/ /\ Hdr(tr).disk[f] = <<>>
       /\ Same(Content(f), EmptyOf(Hdr(tr).kind))
       /\ x[1] = 0 \/ (x[1] = 1 /\ Same(Content(f), x[2]))

End == /\ Now.a = "end"
       /\ \A t \in DOMAIN pend : pend[t] = Idle
       /\ \A f \in 1..Len(disk) : FileOk(f)
       /\ Now.xr[1] = "ok"
       /\ Has(Now, "sz") => Now.sz = 0
       /\ PrintT(<<"END", tr, l>>)
       /\ l' = 0 /\ UNCHANGED <<tr, disk, pend>>

Next == l > 0 /\ l <= Len(Ev(tr)) /\ (Call \/ Return \/ End \/ \E t \in DOMAIN pend : Effect(t))

Spec == Init /\ [][Next]_vars
=============================================================================
