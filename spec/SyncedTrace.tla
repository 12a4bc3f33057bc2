---------------------------- MODULE SyncedTrace ----------------------------
(***************************************************************************)
(* Validation of recorded executions against Synced.  The file named by    *)
(* the environment variable TRACE holds                                    *)
(*     atoms    the table of scalars                                       *)
(*     traces   a sequence of [hdr, ev]: the configuration and the events  *)
(* Every event carries its arguments, its recorded result res, and the     *)
(* observed changes of the resources: fs is a sequence of                  *)
(* <<file, presence, content, touched>> with presence 0 (missing), 1 or 2  *)
(* (unreadable).  hdr.rel names the clauses that are judged:               *)
(*     res    the result of the call                                       *)
(*     disk   the content of every resource                                *)
(*     touch  resources are only written when the specification writes     *)
(*     size   the reported buffer size                                     *)
(*     bound  the reported buffer size does not exceed the capacity        *)
(*     cap    the reported buffer capacity                                 *)
(* An event with nj is not judged: if it fails a clause the rest of the    *)
(* trace is not judged either.                                             *)
(* The verdict is total: every trace ends with END (a behaviour of the     *)
(* specification explains it), BAD (with the clauses that fail), CUT (the  *)
(* rest cannot be judged since a clause that is not judged here failed     *)
(* before) or DIS (an event is not enabled; a defect of the driver).       *)
(***************************************************************************)
EXTENDS Synced, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
TraceAtoms == Data.atoms
Traces == Data.traces

VARIABLES tr, l, st, seen, wn
vars == <<tr, l, st, seen, wn>>

Hdr(t) == Traces[t].hdr
Ev(t) == Traces[t].ev

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1
        /\ st = InitState(Hdr(tr).strat, Hdr(tr).nodot, Hdr(tr).disk, Hdr(tr).cap)
        /\ seen = [f \in 1..Len(Hdr(tr).disk) |->
                      IF Hdr(tr).disk[f] = <<>> THEN <<0, Null, FALSE>>
                      ELSE <<1, Hdr(tr).disk[f][1], FALSE>>]
        /\ wn = FALSE

SeenAfter(e) ==
    [f \in DOMAIN seen |->
        LET js == IF Has(e, "fs") THEN {j \in 1..Len(e.fs) : e.fs[j][1] = f} ELSE {}
        IN IF js = {} THEN <<seen[f][1], seen[f][2], FALSE>>
           ELSE LET x == e.fs[CHOOSE j \in js : TRUE] IN <<x[2], x[3], x[4]>>]

DiskOk(x, sn, f) ==
    IF x.st.disk[f] = <<>> THEN sn[f][1] = 0
    ELSE sn[f][1] = 1 /\ Same(x.st.disk[f][1], sn[f][2])

(* the clauses candidate x fails for event e when sn was observed *)
Fails(x, e, sn) ==
    {c \in {"res", "disk", "touch", "size", "bound", "cap"} :
        CASE c = "res"   -> ~ResMatch(x.r, e.res)
          [] c = "disk"  -> \E f \in DOMAIN sn : ~DiskOk(x, sn, f)
          [] c = "touch" -> \E f \in DOMAIN sn : sn[f][3] /\ f \notin x.w
          [] c = "size"  -> Has(e, "sz") /\ e.sz # Size(x.st)
          [] c = "bound" -> Has(e, "sz") /\ (e.sz > e.cap \/ (~AnyContext(x.st) /\ e.sz # 0))
          [] c = "cap"   -> Has(e, "cap") /\ e.cap # x.st.cap}

(* A constructor that raises is never right.                               *)
Rel(e) == {Hdr(tr).rel[i] : i \in 1..Len(Hdr(tr).rel)} \cup (IF e.a = "open" THEN {"res"} ELSE {})

Next ==
    /\ l > 0 /\ l <= Len(Ev(tr))
    /\ LET e == Ev(tr)[l] IN
       IF ~Enabled(st, e)
       THEN /\ IF wn \/ Hdr(tr).lax THEN PrintT(<<"CUT", tr, l>>) ELSE PrintT(<<"DIS", tr, l>>)
            /\ l' = 0 /\ UNCHANGED <<tr, st, seen, wn>>
       ELSE LET sn == SeenAfter(e)
                cands == {<<x, Fails(x, e, sn)>> : x \in Step(st, e)}
                good == {c \in cands : c[2] \cap Rel(e) = {}}
                few(C) == {c \in C : \A d \in C : Cardinality(c[2]) <= Cardinality(d[2])}
                best == {c \in cands : \A d \in cands :
                            Cardinality(c[2] \cap Rel(e)) <= Cardinality(d[2] \cap Rel(e))}
            IN IF good = {} /\ Has(e, "nj")
               THEN PrintT(<<"CUT", tr, l>>) /\ l' = 0 /\ UNCHANGED <<tr, st, seen, wn>>
               ELSE IF good = {}
               THEN /\ PrintT(<<"BAD", tr, l, UNION {c[2] \cap Rel(e) : c \in best}>>)
                    /\ l' = 0 /\ UNCHANGED <<tr, st, seen, wn>>
               ELSE \E c \in few(good) :
                      /\ seen' = sn /\ tr' = tr
                      /\ st' = c[1].st
                      /\ wn' = (wn \/ c[2] # {})
                      /\ IF (Has(e, "nh") /\ "res" \in c[2]) \/ l = Len(Ev(tr))
                         THEN PrintT(<<"END", tr, l>>) /\ l' = 0
                         ELSE l' = l + 1

Spec == Init /\ [][Next]_vars
=============================================================================
