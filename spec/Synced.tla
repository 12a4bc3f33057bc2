------------------------------- MODULE Synced -------------------------------
(***************************************************************************)
(* The state machine of synced collections: resources (files, keys,        *)
(* documents, arrays), collection objects bound to them, handles on nested *)
(* containers, the write buffer of the buffered file families, nested      *)
(* buffered contexts, buffer capacity, and outside writers.                *)
(*                                                                         *)
(* One record describes the whole state:                                   *)
(*   disk[f]   <<>> while the resource does not exist, else <<content>>    *)
(*   ver[f]    number of times the resource was written (its metadata)     *)
(*   buf[f]    <<>> or <<entry>>: the buffer entry of file f               *)
(*       c     the buffered content                                        *)
(*       base  the content the entry started from                          *)
(*       bver  the version of the file the entry started from              *)
(*       saved TRUE once an operation stored into the entry                *)
(*       mod   TRUE when the entry counts as modified                      *)
(*   obj[o]    [f, init, ctx]: the resource, the initial content (used     *)
(*             while the resource is missing), the number of per-object    *)
(*             buffered contexts entered                                   *)
(*   hnd[h]    [o, p, ok]: handle h is the container at path p of object   *)
(*             o; ok is FALSE once it is detached                          *)
(*   cls       the stack of backend-wide contexts; each element is <<>> or *)
(*             <<capacity to restore>>                                     *)
(*   cap       the buffer capacity                                         *)
(*   ord[f]    TRUE while the order of dict keys is determined             *)
(*                                                                         *)
(*   strat     "none" (never buffered), "ser" (serialized buffer, capacity *)
(*             in bytes) or "mem" (shared memory buffer, capacity in files)*)
(*   nodot     TRUE for the attribute-access families                      *)
(*                                                                         *)
(* Steps are functions: Step(st, e) is the set of [st, r, w] - the state   *)
(* afterwards, the result, and the set of files written - that event e may *)
(* lead to from st.                                                        *)
(***************************************************************************)
EXTENDS DictList

Files(st) == 1..Len(st.disk)
Objs(st) == 1..Len(st.obj)
Hnds(st) == 1..Len(st.hnd)

InitState(strat, nodot, disk, cap) ==
    [strat |-> strat, nodot |-> nodot, disk |-> disk, ver |-> [f \in 1..Len(disk) |-> 0], buf |-> [f \in 1..Len(disk) |-> <<>>],
     obj |-> <<>>, hnd |-> <<>>, cls |-> <<>>, cap |-> cap, ord |-> [f \in 1..Len(disk) |-> TRUE]]

ObjBuffered(st, o) == st.obj[o].ctx > 0 \/ st.cls # <<>>
AnyContext(st) == st.cls # <<>> \/ \E o \in Objs(st) : st.obj[o].ctx > 0

OnDisk(st, o) == IF st.disk[st.obj[o].f] = <<>> THEN st.obj[o].init
                 ELSE st.disk[st.obj[o].f][1]
(* The logical content of object o.                                        *)
Logical(st, o) ==
    IF ObjBuffered(st, o) /\ st.buf[st.obj[o].f] # <<>> THEN st.buf[st.obj[o].f][1].c
    ELSE OnDisk(st, o)

RECURSIVE SumSize(_, _)
SumSize(st, fs) ==
    IF fs = {} THEN 0
    ELSE LET f == CHOOSE x \in fs : TRUE
         IN (IF st.buf[f] = <<>> THEN 0
             ELSE IF st.strat = "ser" THEN EncLen(st.buf[f][1].c)
             ELSE IF st.buf[f][1].mod THEN 1 ELSE 0)
            + SumSize(st, fs \ {f})
Size(st) == SumSize(st, Files(st))

-----------------------------------------------------------------------------
(* Attachment of handles.                                                  *)
(*                                                                         *)
(* A handle is detached when the position it came from (or a position      *)
(* above it) stops holding a container of the same kind in the logical     *)
(* content of its object, and when its position is reassigned, removed or  *)
(* shifted through its own object.                                         *)
Reattach(st, st2) ==
    [st2 EXCEPT !.hnd = [h \in 1..Len(st2.hnd) |->
        IF h \notin Hnds(st) \/ ~st2.hnd[h].ok \/ st2.hnd[h].p = <<>> THEN st2.hnd[h]
        ELSE LET o == st2.hnd[h].o
                 p == st2.hnd[h].p
                 now == Logical(st2, o)
             IN IF HasPath(now, p) /\ KindsAlong(now, p) = KindsAlong(Logical(st, o), p)
                THEN st2.hnd[h] ELSE [st2.hnd[h] EXCEPT !.ok = FALSE]]]

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* Outcome a of an operation at path p of object o.                        *)
Detach(st, o, p, a) ==
    [st EXCEPT !.hnd = [h \in 1..Len(st.hnd) |->
        IF /\ st.hnd[h].ok /\ st.hnd[h].o = o
           /\ Len(st.hnd[h].p) > Len(p) /\ IsPrefixOf(p, st.hnd[h].p)
           /\ Touches(a, st.hnd[h].p[Len(p) + 1])
        THEN [st.hnd[h] EXCEPT !.ok = FALSE] ELSE st.hnd[h]]]

-----------------------------------------------------------------------------
(* Flushing.  An entry must be written iff its content was changed; an     *)
(* entry that was stored into without changing the data may be treated     *)
(* either way.                                                             *)

Dirty(en) == en.saved /\ ~Same(en.c, en.base)
MaybeDirty(en) == en.saved /\ Same(en.c, en.base)

(* Choices of the set of files that a flush of the entries fs treats as    *)
(* modified.                                                               *)
DirtySets(st, fs) ==
    LET es == {f \in fs : st.buf[f] # <<>>}
        must == {f \in es : Dirty(st.buf[f][1]) \/ (st.strat = "mem" /\ st.buf[f][1].mod
                                                   /\ ~Same(st.buf[f][1].c, st.buf[f][1].base))}
        may == {f \in es \ must : st.buf[f][1].saved}
    IN {must \cup x : x \in SUBSET may}

Conflict(st, f) == st.ver[f] # st.buf[f][1].bver

(* Flush the entries of the files fs, treating those in dirty as modified; *)
(* keep = TRUE leaves clean entries in the buffer (forced flush of the     *)
(* memory strategy).                                                       *)
FlushState(st, fs, dirty, keep) ==
    LET es == {f \in fs : st.buf[f] # <<>>}
        bad == {f \in dirty : Conflict(st, f)}
        wr == dirty \ bad
    IN [st |-> [st EXCEPT
            !.disk = [f \in Files(st) |-> IF f \in wr THEN <<st.buf[f][1].c>> ELSE st.disk[f]],
            !.ver = [f \in Files(st) |-> IF f \in wr THEN st.ver[f] + 1 ELSE st.ver[f]],
            !.buf = [f \in Files(st) |->
                IF f \notin es THEN st.buf[f]
                ELSE IF ~keep \/ f \in bad THEN <<>>
                ELSE IF f \in wr THEN <<[c |-> st.buf[f][1].c, base |-> st.buf[f][1].c,
                                         bver |-> st.ver[f] + 1, saved |-> FALSE, mod |-> FALSE]>>
                ELSE <<[st.buf[f][1] EXCEPT !.saved = FALSE, !.mod = FALSE]>>]],
        bad |-> bad, w |-> wr]

Flushes(st, fs, keep) == {FlushState(st, fs, d, keep) : d \in DirtySets(st, fs)}

(* Forced flush when the capacity is exceeded.                             *)
Enforce(st) ==
    IF Size(st) > st.cap THEN Flushes(st, Files(st), st.strat = "mem")
    ELSE {[st |-> st, bad |-> {}, w |-> {}]}

-----------------------------------------------------------------------------
(* Access of a buffered object to its file.                                *)
Enter(st, o) ==
    LET f == st.obj[o].f
    IN IF st.buf[f] # <<>> THEN st
       ELSE [st EXCEPT !.buf[f] = <<[c |-> OnDisk(st, o), base |-> OnDisk(st, o),
                                     bver |-> st.ver[f], saved |-> FALSE, mod |-> FALSE]>>]

(* A load: bring the file into the buffer; the serialized strategy counts  *)
(* everything that is buffered, so this may exceed the capacity.           *)
LoadOnce(st, o) ==
    IF st.strat = "ser" THEN Enforce(Enter(st, o))
    ELSE {[st |-> Enter(st, o), bad |-> {}, w |-> {}]}

(* An operation loads at least once; some operations load repeatedly.      *)
Loads(st, o) ==
    LET one == LoadOnce(st, o)
    IN one \cup UNION {IF x.bad # {} THEN {}
                       ELSE {[st |-> y.st, bad |-> y.bad, w |-> x.w \cup y.w] :
                             y \in LoadOnce(x.st, o)} : x \in one}

(* A save of content c.  The memory strategy counts modified files; a save *)
(* that does not change the data may or may not count.                     *)
Saves(st, o, c) ==
    LET s1 == Enter(st, o)
        f == st.obj[o].f
        en == s1.buf[f][1]
        mods == IF ~Same(en.c, c) \/ en.mod THEN {TRUE} ELSE {TRUE, FALSE}
    IN UNION {Enforce([s1 EXCEPT !.buf[f] = <<[en EXCEPT !.c = c, !.saved = TRUE, !.mod = m]>>]) :
              m \in mods}

-----------------------------------------------------------------------------
(* Collection operations.                                                  *)

(* Synced operands: e.vh names the handle whose current content is used as *)
(* the value argument, or as a part of it: e.vw lists the containers       *)
(* around it from the inside to the outside, 0 for a list and the atom of  *)
(* the key for a dict.                                                     *)
HndContent(st, h) == GetAt(Logical(st, st.hnd[h].o), st.hnd[h].p)
RECURSIVE Wrap(_, _)
Wrap(v, ws) ==
    IF ws = <<>> THEN v
    ELSE Wrap(IF Head(ws) = 0 THEN L(<<v>>) ELSE D(<< <<Head(ws), v>> >>), Tail(ws))
Operand(st, e) ==
    IF Has(e, "vw") THEN Wrap(HndContent(st, e.vh), e.vw) ELSE HndContent(st, e.vh)
Resolve(st, e) ==
    IF ~Has(e, "vh") THEN e
    ELSE [x \in (DOMAIN e) \cup {"v"} |-> IF x = "v" THEN Operand(st, e) ELSE e[x]]

(* The order of the keys of an operand is as unknown as that of its file.  *)
Taint(st, f, e) ==
    IF st.ord[st.obj[st.hnd[e.vh].o].f] THEN st ELSE [st EXCEPT !.ord[f] = FALSE]

(* An operation that returns a container may hand out a new handle.        *)
GiveHandle(st0, st, e, a) ==
    IF Has(e, "nh") /\ a.r[1] = "v" /\ IsC(a.r[2])
    THEN LET o == st.hnd[e.h].o
             p0 == st.hnd[e.h].p
             c == PutAt(Logical(st0, o), p0, a.n)   \* the content the operation left
             p == p0 \o <<IF IsD(a.n) THEN e.k[2] ELSE NormIdx(e.i[1], Len(a.n[2]))>>
             now == Logical(st, o)
         IN [st EXCEPT !.hnd = Append(@, [o |-> o, p |-> p,
               ok |-> HasPath(now, p) /\ KindsAlong(now, p) = KindsAlong(c, p)])]
    ELSE st

Fin(st0, st1, e, a) ==
    LET o == st0.hnd[e.h].o
        p == st0.hnd[e.h].p
        s2 == IF a.m THEN Detach(st1, o, p, a) ELSE st1
        s3 == IF a.bulk THEN [s2 EXCEPT !.ord[st0.obj[o].f] = FALSE] ELSE s2
    IN GiveHandle(st0, Reattach(st0, s3), e, a)

AssignOps == {"setitem", "aset", "clear", "reset"}

OpUnbuffered(st, e) ==
    LET o == st.hnd[e.h].o
        p == st.hnd[e.h].p
        f == st.obj[o].f
        c == Logical(st, o)
    IN UNION {
         IF ~a.m THEN {[st |-> Fin(st, st, e, a), r |-> a.r, w |-> {}]}
         ELSE LET c2 == PutAt(c, p, a.n)
              IN {[st |-> Fin(st, [st EXCEPT !.disk[f] = <<c2>>, !.ver[f] = @ + 1], e, a),
                   r |-> a.r, w |-> {f}]}
                 \* an operation that changes nothing need not create a missing
                 \* resource, unless it assigns a content
                 \cup (IF st.disk[f] = <<>> /\ Same(c, c2) /\ e.op \notin AssignOps
                       THEN {[st |-> Fin(st, st, e, a), r |-> a.r, w |-> {}]} ELSE {})
         : a \in Apply(GetAt(c, p), e, st.nodot, st.ord[f])}

BufErr(bad) == <<"be", bad>>

(* Some operations return a child, which the driver then reads (e.pk).     *)
Peeks(y, e, o) ==
    {y} \cup IF ~Has(e, "pk") \/ y.bad # {} THEN {}
            ELSE {[st |-> z.st, bad |-> z.bad, w |-> y.w \cup z.w] : z \in Loads(y.st, o)}

OpBuffered(st, e) ==
    LET o == st.hnd[e.h].o
        p == st.hnd[e.h].p
        f == st.obj[o].f
        c == Logical(st, o)
        as == Apply(GetAt(c, p), e, st.nodot, st.ord[f])
    IN UNION {
         IF x.bad # {} THEN {[st |-> Reattach(st, x.st), r |-> BufErr(x.bad), w |-> x.w]}
         ELSE UNION {
                IF ~a.m THEN {[st |-> Fin(st, x.st, e, a), r |-> a.r, w |-> x.w]}
                ELSE {[st |-> Fin(st, y.st, e, a), w |-> x.w \cup y.w,
                       r |-> IF y.bad # {} THEN BufErr(y.bad) ELSE a.r] :
                      y \in UNION {Peeks(s, e, o) : s \in Saves(x.st, o, PutAt(c, p, a.n))}}
                : a \in as}
         : x \in Loads(st, o)}
       \* arguments may be rejected before anything is loaded
       \cup {[st |-> st, r |-> a.r, w |-> {}] : a \in {b \in as : ~b.m /\ b.r[1] \in {"e", "rej"}}}

OpOne(st, e) ==
    IF ObjBuffered(st, st.hnd[e.h].o) THEN OpBuffered(st, e) ELSE OpUnbuffered(st, e)

(* A synced operand is read as well, before or after the target.           *)
OpStep(st0, e) ==
    IF ~Has(e, "vh") THEN OpOne(st0, e)
    ELSE LET st == Taint(st0, st0.obj[st0.hnd[e.h].o].f, e)
             ov == st.hnd[e.vh].o
             e1 == Resolve(st, e)
             e2 == [x \in (DOMAIN e1) \ {"vh"} |-> e1[x]]
         IN IF ~ObjBuffered(st, ov) THEN OpOne(st, e2)
            ELSE UNION {IF x.bad # {} THEN {[st |-> Reattach(st, x.st), r |-> BufErr(x.bad), w |-> x.w]}
                        ELSE {[y EXCEPT !.w = @ \cup x.w] : y \in OpOne(x.st, e2)} :
                        x \in Loads(st, ov)}
                 \cup UNION {IF y.r[1] # "b" /\ y.r[1] # "e" THEN {}
                             ELSE {y} \cup {[st |-> Reattach(st, x.st), w |-> x.w \cup y.w,
                                             r |-> IF x.bad # {} THEN BufErr(x.bad) ELSE y.r] :
                                            x \in Loads(y.st, ov)} :
                             y \in OpOne(st, e2)}

-----------------------------------------------------------------------------
(* Everything else.                                                        *)

Ok == <<"ok", 0>>
One(st, r, w) == {[st |-> st, r |-> r, w |-> w]}

(* A new object (and its root handle) on file e.f.                         *)
OpenStep(st0, e) ==
    LET st == IF Has(e, "vh") THEN Taint(st0, e.f, e) ELSE st0
        others == \E o \in Objs(st) : st.obj[o].f = e.f
        init == IF Has(e, "vh") THEN Operand(st, e) ELSE e.init
    IN IF ~Allowed(init, st.nodot) THEN One(st, Rejected, {})
       ELSE One([st EXCEPT !.obj = Append(st.obj, [f |-> e.f, init |-> init, ctx |-> 0]),
                      !.hnd = Append(st.hnd, [o |-> Len(st.obj) + 1, p |-> <<>>, ok |-> TRUE]),
                      !.ord[e.f] = @ /\ ~others /\ st.disk[e.f] = <<>>],
           Ok, {})

(* An outside writer replaces the content of a file.                       *)
ExtStep(st, e) ==
    One(Reattach(st, [st EXCEPT !.disk[e.f] = <<e.c>>, !.ver[e.f] = @ + 1, !.ord[e.f] = FALSE]),
        Ok, {e.f})

(* An outside program removes a file.  What its objects show from then on  *)
(* is not specified, until there is a file again.                          *)
DelStep(st, e) ==
    One(Reattach(st, [st EXCEPT !.disk[e.f] = <<>>, !.ver[e.f] = @ + 1, !.ord[e.f] = FALSE]), Ok, {e.f})

EnterObj(st, e) == One([st EXCEPT !.obj[e.o].ctx = @ + 1], Ok, {})

ExitObj(st, e) ==
    LET s1 == [st EXCEPT !.obj[e.o].ctx = @ - 1]
        f == st.obj[e.o].f
    IN IF ObjBuffered(s1, e.o) THEN One(s1, Ok, {})
       ELSE {[st |-> Reattach(st, x.st), w |-> x.w,
              r |-> IF x.bad # {} THEN <<"e", "MetadataError">> ELSE Ok] : x \in Flushes(s1, {f}, FALSE)}

(* Object e.o is pointed at the existing file e.f.  Buffered data of its    *)
(* old file is written, unless that can be left to another object.         *)
BindStep(st, e) ==
    LET f == st.obj[e.o].f
        others == \E o \in Objs(st) \ {e.o} : st.obj[o].f = f /\ ObjBuffered(st, o)
        moved(s) == [s EXCEPT !.obj[e.o].f = e.f, !.ord[e.f] = FALSE,
                       !.hnd = [h \in Hnds(s) |-> IF s.hnd[h].o = e.o /\ s.hnd[h].p # <<>>
                                                  THEN [s.hnd[h] EXCEPT !.ok = FALSE] ELSE s.hnd[h]]]
        stay == IF ~ObjBuffered(st, e.o) \/ st.buf[f] = <<>> \/ others
                THEN One(moved(st), Ok, {}) ELSE {}
        flush == IF ~ObjBuffered(st, e.o) \/ st.buf[f] = <<>> THEN {}
                 ELSE {IF x.bad # {} THEN [st |-> Reattach(st, x.st), w |-> x.w, r |-> <<"e", "MetadataError">>]
                       ELSE [st |-> moved(Reattach(st, x.st)), w |-> x.w, r |-> Ok] :
                       x \in Flushes(st, {f}, FALSE)}
    IN stay \cup flush

(* The contexts of several objects, one after the other.                   *)
RECURSIVE EnterAll(_, _)
EnterAll(st, os) ==
    IF os = <<>> THEN One(st, Ok, {})
    ELSE UNION {EnterAll(x.st, Tail(os)) : x \in EnterObj(st, [o |-> Head(os)])}
RECURSIVE LeaveAll(_, _)
LeaveAll(st, os) ==
    IF os = <<>> THEN One(st, Ok, {})
    ELSE UNION {{[st |-> y.st, w |-> x.w \cup y.w, r |-> IF x.r # Ok THEN x.r ELSE y.r] :
                  y \in LeaveAll(x.st, Tail(os))} :
                x \in ExitObj(st, [o |-> Head(os)])}

(* Set the capacity; exceeding it forces a flush.                          *)
SetCap(st, n) == Enforce([st EXCEPT !.cap = n])

SetCapStep(st, e) ==
    {[st |-> Reattach(st, x.st), w |-> x.w, r |-> IF x.bad # {} THEN BufErr(x.bad) ELSE Ok] :
        x \in SetCap(st, e.n)}

EnterCls(st, e) ==
    IF e.n = <<>> THEN One([st EXCEPT !.cls = Append(@, <<>>)], Ok, {})
    ELSE {IF x.bad # {}
          THEN [st |-> Reattach(st, [x.st EXCEPT !.cap = st.cap]), w |-> x.w, r |-> BufErr(x.bad)]
          ELSE [st |-> [x.st EXCEPT !.cls = Append(@, <<st.cap>>)], w |-> x.w, r |-> Ok] :
          x \in SetCap(st, e.n[1])}

ExitCls(st, e) ==
    LET top == st.cls[Len(st.cls)]
        s1 == [st EXCEPT !.cls = SubSeq(@, 1, Len(@) - 1)]
        fs == {f \in Files(st) : /\ st.buf[f] # <<>>
                                 /\ \A o \in Objs(st) : st.obj[o].f = f => ~ObjBuffered(s1, o)}
        first == IF s1.cls # <<>> THEN {[st |-> s1, bad |-> {}, w |-> {}]}
                 ELSE Flushes(s1, fs, FALSE)
    IN UNION {
         {[st |-> Reattach(st, y.st), w |-> x.w \cup y.w,
           r |-> IF y.bad # {} THEN BufErr(y.bad)
                 ELSE IF x.bad # {} THEN BufErr(x.bad) ELSE Ok] :
            y \in IF top = <<>> THEN {[st |-> x.st, bad |-> {}, w |-> {}]}
                  ELSE SetCap(x.st, top[1])}
         : x \in first}

(* An operation whose save the backend refuses: whatever the object holds  *)
(* now, the resource and with it the logical content is what it was.       *)
FailStep(st, e) == One(st, AnyError, {})

(* An observation that must not change anything: user-held containers were *)
(* mutated, time passed, another object was dropped, ...                   *)
NopStep(st, e) == One(st, Ok, {})

Step(st, e) ==
    CASE e.a = "op"    -> OpStep(st, e)
      [] e.a = "open"  -> OpenStep(st, e)
      [] e.a = "ext"   -> ExtStep(st, e)
      [] e.a = "del"   -> DelStep(st, e)
      [] e.a = "oin"   -> EnterObj(st, e)
      [] e.a = "both"  -> EnterAll(st, e.os)
      [] e.a = "leave" -> LeaveAll(st, e.os)
      [] e.a = "oout"  -> ExitObj(st, e)
      [] e.a = "cin"   -> EnterCls(st, e)
      [] e.a = "cout"  -> ExitCls(st, e)
      [] e.a = "cap"   -> SetCapStep(st, e)
      [] e.a = "bind"  -> BindStep(st, e)
      [] e.a = "fail"  -> FailStep(st, e)
      [] e.a = "nop"   -> NopStep(st, e)
      [] OTHER -> Assert(FALSE, <<"unknown event", e.a>>)

(* An event is enabled when its handle is attached and contexts nest.      *)
Enabled(st, e) ==
    CASE e.a = "op" -> /\ e.h \in Hnds(st) /\ st.hnd[e.h].ok
                       /\ IF IsD(HndContent(st, e.h))
                          THEN /\ e.op \in DictOps /\ ~Has(e, "i") /\ ~Has(e, "sl")
                               /\ e.op \in NeedKey => Has(e, "k")
                          ELSE /\ e.op \in ListOps /\ ~Has(e, "k") /\ ~Has(e, "kw")
                               /\ e.op \in NeedIdx => Has(e, "i")
                               /\ e.op \in NeedVal => Has(e, "v") \/ Has(e, "vh")
                       /\ Has(e, "vh") => e.vh \in Hnds(st) /\ st.hnd[e.vh].ok
      [] e.a = "del" -> st.disk[e.f] # <<>>
      [] e.a = "bind" -> e.f # st.obj[e.o].f /\ st.disk[e.f] # <<>>
      \* the context of a nested child is that of its object
      [] e.a = "oin" -> Has(e, "h") => e.h \in Hnds(st) /\ st.hnd[e.h].ok /\ st.hnd[e.h].o = e.o
      [] e.a = "oout" -> st.obj[e.o].ctx > 0
      [] e.a = "leave" -> \A i \in 1..Len(e.os) : st.obj[e.os[i]].ctx > 0
      [] e.a = "cout" -> st.cls # <<>>
      [] OTHER -> TRUE
=============================================================================
