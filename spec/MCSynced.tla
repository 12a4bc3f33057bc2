------------------------------ MODULE MCSynced ------------------------------
(***************************************************************************)
(* Exhaustive exploration of small configurations of Synced.  The file     *)
(* named by the environment variable MODEL holds                           *)
(*     atoms    the table of scalars                                       *)
(*     hdr      the configuration: strat, nodot, disk, cap                 *)
(*     setup    the events that open the objects and obtain handles        *)
(*     events   the events that may happen, any number of times            *)
(*     maxlen   no container grows beyond this length                      *)
(*     maxctx   how deep contexts of one kind nest                         *)
(*     maxhnd   how many handles there may be                              *)
(*     shared   TRUE when there is no outside writer: then g[f] is the     *)
(*              content that one plain structure shared by all handles     *)
(*              would have                                                 *)
(* TLC checks the properties below on all reachable states and prints      *)
(* every transition; the harness replays them into the implementation.     *)
(***************************************************************************)
EXTENDS Synced, Json, IOUtils, TLCExt

Model == JsonDeserialize(IOEnv.MODEL)
ModelAtoms == Model.atoms
Events == Model.events
Hdr == Model.hdr

VARIABLES st, g, out
vars == <<st, g, out>>

RECURSIVE After(_, _)
After(s, es) ==
    IF es = <<>> THEN s
    ELSE After((CHOOSE x \in Step(s, Head(es)) : TRUE).st, Tail(es))

Start == After(InitState(Hdr.strat, Hdr.nodot, Hdr.disk, Hdr.cap), Model.setup)

Quiet == [i |-> 0, r |-> Ok, w |-> {}, plain |-> TRUE]
Init == st = Start /\ g = Hdr.disk /\ out = Quiet

-----------------------------------------------------------------------------
(* The graph is finite once the version counters are abstracted to what    *)
(* they are compared for.                                                  *)
Abs(s) == [s EXCEPT !.ver = <<>>,
                    !.buf = [f \in Files(s) |->
                        IF s.buf[f] = <<>> THEN <<>>
                        ELSE <<[s.buf[f][1] EXCEPT !.bver = IF Conflict(s, f) THEN 1 ELSE 0]>>]]
View == <<Abs(st), g>>

Short(c) == /\ Len(c[2]) <= Model.maxlen
            /\ \A i \in 1..Len(c[2]) :
                  LET v == IF IsD(c) THEN c[2][i][2] ELSE c[2][i]
                  IN IsS(v) \/ Len(v[2]) <= Model.maxlen
Small(s) == /\ \A f \in Files(s) : /\ s.disk[f] = <<>> \/ Short(s.disk[f][1])
                                   /\ s.buf[f] = <<>> \/ Short(s.buf[f][1].c)
            /\ \A o \in Objs(s) : s.obj[o].ctx <= Model.maxctx
            /\ Len(s.cls) <= Model.maxctx
            /\ Len(s.hnd) <= Model.maxhnd

(* A new handle is only worth having when there is no such handle yet.     *)
Fresh(s, e, s2) ==
    Has(e, "nh") /\ Len(s2.hnd) > Len(s.hnd) =>
        LET n == s2.hnd[Len(s2.hnd)]
        IN ~\E h \in Hnds(s) : s2.hnd[h].ok /\ s2.hnd[h].o = n.o /\ s2.hnd[h].p = n.p

-----------------------------------------------------------------------------
(* One plain structure per file.                                           *)
Ideal(f, init) == IF g[f] = <<>> THEN init ELSE g[f][1]

(* What the operation does to it: [r, g].                                  *)
PlainOp(e) ==
    LET o == st.hnd[e.h].o
        p == st.hnd[e.h].p
        f == st.obj[o].f
        c == Ideal(f, st.obj[o].init)
        e1 == IF ~Has(e, "vh") THEN e
              ELSE LET ov == st.hnd[e.vh].o
                   IN [x \in (DOMAIN e) \cup {"v"} |->
                         IF x = "v" THEN GetAt(Ideal(st.obj[ov].f, st.obj[ov].init), st.hnd[e.vh].p)
                         ELSE e[x]]
    IN {[r |-> a.r, g |-> IF a.m THEN [g EXCEPT ![f] = <<PutAt(c, p, a.n)>>] ELSE g] :
        a \in Apply(GetAt(c, p), e1, st.nodot, st.ord[f])}

Ghost(e, x) ==
    IF ~Model.shared THEN {[g |-> g, ok |-> TRUE]}
    ELSE IF e.a # "op" THEN {[g |-> g, ok |-> x.r = Ok]}
    ELSE LET ps == {p \in PlainOp(e) : p.r = x.r}
         IN IF ps = {} THEN {[g |-> g, ok |-> FALSE]} ELSE {[g |-> p.g, ok |-> TRUE] : p \in ps}

Next ==
    \E i \in 1..Len(Events) : LET e == Events[i] IN
        /\ Enabled(st, e) = TRUE
        /\ \E x \in Step(st, e) :
             /\ (Small(x.st) /\ Fresh(st, e, x.st)) = TRUE
             /\ \E y \in Ghost(e, x) :
                  /\ st' = x.st /\ g' = y.g
                  /\ out' = [i |-> i, r |-> x.r, w |-> x.w, plain |-> y.ok]
                  /\ PrintT(<<"EDGE", TLCFP(Abs(st)), TLCFP(<<Abs(st)>>), i,
                              TLCFP(Abs(x.st)), TLCFP(<<Abs(x.st)>>)>>)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Every operation returns what it would return on the plain structure     *)
(* (C03, C05, C06), and the content of every object is that structure      *)
(* (C01, C02, C04, C05, C06).                                              *)
PlainResults == [][out'.plain]_vars
OneStructure ==
    Model.shared => \A o \in Objs(st) :
        Same(Logical(st, o), Ideal(st.obj[o].f, st.obj[o].init))

(* Without contexts the resource holds it (C01, C05, C06, C15: nothing is  *)
(* lost); a missing resource only while the content is the initial one.    *)
Durable ==
    Model.shared => \A f \in Files(st) :
        (\A o \in Objs(st) : st.obj[o].f = f => ~ObjBuffered(st, o)) =>
            IF st.disk[f] = <<>>
            THEN \A o \in Objs(st) : st.obj[o].f = f =>
                    Same(st.obj[o].init, Ideal(f, st.obj[o].init))
            ELSE g[f] # <<>> /\ Same(st.disk[f][1], g[f][1])

(* C15 *)
Bounded == Hdr.strat # "none" => Size(st) <= st.cap
EmptyOutside == ~AnyContext(st) => \A f \in Files(st) : st.buf[f] = <<>>

Ev == Events[out'.i]
Own == Ev.a # "ext"
Written == {f \in Files(st) : st'.disk[f] # st.disk[f] \/ st'.ver[f] # st.ver[f]}

(* A step that is not an outside write changes a file only if it says so.  *)
Reported == [][Own => Written \subseteq out'.w]_vars

(* C05: with room in the buffer, an operation does not write a file that   *)
(* all its objects buffer.                                                 *)
Roomy == st.cap >= (IF Hdr.strat = "mem" THEN Len(st.disk) ELSE 1000)
Deferred ==
    [][(Own /\ Ev.a = "op" /\ Roomy) => \A f \in out'.w :
          \E o \in Objs(st) : st.obj[o].f = f /\ ~ObjBuffered(st, o)]_vars

(* C07: a file that changed since it was buffered is not written, and      *)
(* when its buffered changes are given up the caller is told.              *)
Changed(f) == st.buf[f] # <<>> /\ Conflict(st, f)
NoSilentOverwrite == [][Own => \A f \in Files(st) : Changed(f) => f \notin Written]_vars
ConflictsAreReported ==
    [][Own => \A f \in Files(st) :
          \* an operation on the file itself may undo its changes
          (/\ Changed(f) /\ Dirty(st.buf[f][1]) /\ st'.buf[f] = <<>>
           /\ Ev.a = "op" => st.obj[st.hnd[Ev.h].o].f # f)
          => out'.r[1] \in {"e", "be"}]_vars
OnlyConflictsAreReported ==
    [][Own /\ out'.r[1] = "be" => \A f \in out'.r[2] : Changed(f)]_vars

(* C17: a read writes nothing but what a full buffer has to give up.       *)
ReadsDoNotWrite ==
    [][(Own /\ Ev.a = "op" /\ Ev.op \in ReadOps) =>
          \A f \in out'.w : st.buf[f] # <<>> /\ st.buf[f][1].saved]_vars

(* C15: the capacity given to a context ends with it.                      *)
CapacityRestored ==
    [][(Own /\ Ev.a = "cout" /\ st.cls[Len(st.cls)] # <<>>)
          => st'.cap = st.cls[Len(st.cls)][1]]_vars
=============================================================================
