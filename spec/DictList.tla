------------------------------ MODULE DictList ------------------------------
(***************************************************************************)
(* The semantics of every public operation of dict-like and list-like      *)
(* collections, as built-in dict/list define them, with the documented     *)
(* deviations of synced collections:                                       *)
(*   - dict.pop of a missing key returns the default (None if not given);  *)
(*   - the order of keys after bulk updates is unspecified;                *)
(*   - forbidden keys and values are rejected.                             *)
(*                                                                         *)
(* Apply(node, e, nodot, ord) is the set of allowed outcomes of operation  *)
(* e on the container node.  An outcome is a record                        *)
(*   r   the result (see ResMatch for its form)                            *)
(*   n   the container afterwards                                          *)
(*   m   TRUE for a mutating operation that returned normally              *)
(*   ta, ts, tf   which children were reassigned, removed or shifted:      *)
(*       all of them / the ones in the set ts / the indices >= tf          *)
(*   bulk  TRUE when the key order becomes unspecified                     *)
(***************************************************************************)
EXTENDS PyData

Has(e, f) == f \in DOMAIN e
Far == 1000000

(* ------------------------------------------------------------ results -- *)
(*   <<"v", value>>          a value (None is Null)                        *)
(*   <<"b", BOOLEAN>>        a bool                                        *)
(*   <<"n", int>>            an int                                        *)
(*   <<"seq", s, ordered>>   a sequence of values                          *)
(*   <<"pair", k, v>>        the pair returned by popitem                  *)
(*   <<"self", 0>>           the collection itself                         *)
(*   <<"e", C>>              an exception of class C (or a subclass)       *)
(*   <<"types", d, l, 0>>    a walk over the collection met d dict-like and *)
(*                           l list-like containers, all of its family     *)
RV(v) == <<"v", v>>
RB(b) == <<"b", b>>
RN(n) == <<"n", n>>
RE(c) == <<"e", c>>
RSelf == <<"self", 0>>
None == RV(Null)

RECURSIVE BagEq(_, _)
BagEq(s, t) ==
    IF s = <<>> THEN t = <<>>
    ELSE \E i \in 1..Len(t) : Same(s[1], t[i]) /\ BagEq(Tail(s), DropAt(t, i))

(* Does the recorded result got match the specified result exp?            *)
ResMatch(exp, got) ==
    CASE exp[1] = "e"    -> got[1] = "e" /\ exp[2] \in SetOfSeq(got[2])
      [] exp[1] = "rej"  -> got[1] = "e" /\ \E c \in {"TypeError", "ValueError"} : c \in SetOfSeq(got[2])
      [] exp[1] = "any"  -> got[1] \in {"e", "be"}
      [] exp[1] = "be"   -> got[1] = "be" /\ exp[2] = SetOfSeq(got[2])
      [] exp[1] = "v"    -> \/ got[1] = "v" /\ Same(exp[2], got[2])
                            \/ got[1] = "k" /\ Kind(exp[2]) = got[2]
      [] exp[1] = "b"    -> got[1] = "b" /\ exp[2] = got[2]
      [] exp[1] = "n"    -> got[1] = "n" /\ exp[2] = got[2]
      [] exp[1] = "self" -> got[1] = "self"
      [] exp[1] = "ok"   -> got[1] = "ok"
      [] exp[1] = "types" -> got = exp
      [] exp[1] = "pair" -> got[1] = "pair" /\ exp[2] = got[2]
                            /\ (got[3][1] = "v" => Same(exp[3], got[3][2]))
                            /\ (got[3][1] = "k" => Kind(exp[3]) = got[3][2])
      [] exp[1] = "seq"  -> /\ got[1] = "seq"
                            /\ Len(got[2]) = Len(exp[2])
                            /\ IF exp[3] THEN \A i \in 1..Len(exp[2]) : Same(exp[2][i], got[2][i])
                               ELSE BagEq(exp[2], got[2])
      [] OTHER -> FALSE

(* ------------------------------------------------------------ outcomes - *)
Rd(r, n) == [r |-> r, n |-> n, m |-> FALSE, ta |-> FALSE, ts |-> {}, tf |-> Far, bulk |-> FALSE]
Mu(r, n, ts) == [r |-> r, n |-> n, m |-> TRUE, ta |-> FALSE, ts |-> ts, tf |-> Far, bulk |-> FALSE]
MuAll(r, n) == [r |-> r, n |-> n, m |-> TRUE, ta |-> TRUE, ts |-> {}, tf |-> Far, bulk |-> FALSE]
MuFrom(r, n, i) == [r |-> r, n |-> n, m |-> TRUE, ta |-> FALSE, ts |-> {}, tf |-> i, bulk |-> FALSE]
MuBulk(r, n, ts) == [r |-> r, n |-> n, m |-> TRUE, ta |-> FALSE, ts |-> ts, tf |-> Far, bulk |-> TRUE]
MuBulkAll(r, n) == [r |-> r, n |-> n, m |-> TRUE, ta |-> TRUE, ts |-> {}, tf |-> Far, bulk |-> TRUE]

(* Does the outcome detach a handle on child x of the node?                *)
Touches(o, x) == o.ta \/ x \in o.ts \/ x >= o.tf

(* ------------------------------------------------- containers in a value *)
RECURSIVE CountKind(_, _)
RECURSIVE SumKind(_, _)
SumKind(vs, kd) == IF vs = <<>> THEN 0 ELSE CountKind(Head(vs), kd) + SumKind(Tail(vs), kd)
CountKind(v, kd) ==
    IF IsS(v) THEN 0
    ELSE (IF Kind(v) = kd THEN 1 ELSE 0)
         + SumKind(IF IsL(v) THEN v[2] ELSE [i \in 1..Len(v[2]) |-> v[2][i][2]], kd)

(* -------------------------------------------------------- forbidden data *)
RECURSIVE Allowed(_, _)
Allowed(v, nodot) ==
    CASE IsS(v) -> Atoms[v[2]].t # "bad"
      [] IsL(v) -> \A i \in 1..Len(v[2]) : Allowed(v[2][i], nodot)
      [] OTHER  -> \A i \in 1..Len(v[2]) :
                       /\ IsStr(v[2][i][1])
                       /\ ~(nodot /\ Atoms[v[2][i][1]].d)
                       /\ Allowed(v[2][i][2], nodot)
AllowedKey(k, nodot) == IsS(k) /\ IsStr(k[2]) /\ ~(nodot /\ Atoms[k[2]].d)

Rejected == <<"rej", 0>>
AnyError == <<"any", 0>>

(* ------------------------------------------------------------- iterables *)
Iterable(v) == IsC(v) \/ (IsS(v) /\ IsStr(v[2]))
Elems(v) == IF IsL(v) THEN v[2]
            ELSE IF IsD(v) THEN [i \in 1..Len(v[2]) |-> S(v[2][i][1])]
            ELSE [i \in 1..Len(Atoms[v[2]].ch) |-> S(Atoms[v[2]].ch[i])]

(* --------------------------------------------------------------- indices *)
NormIdx(i, n) == IF i < 0 THEN i + n ELSE i
InRange(i, n) == NormIdx(i, n) >= 0 /\ NormIdx(i, n) < n

(* Slices: sl = <<start, stop, step>>, each <<>> or <<int>>.               *)
SlStep(sl) == IF sl[3] = <<>> THEN 1 ELSE sl[3][1]
SlBound(x, n, step, dflt) ==
    LET lower == IF step > 0 THEN 0 ELSE -1
        upper == IF step > 0 THEN n ELSE n - 1
    IN IF x = <<>> THEN dflt
       ELSE IF x[1] < 0 THEN MaxInt(x[1] + n, lower) ELSE MinInt(x[1], upper)
SlStart(sl, n) ==
    LET st == SlStep(sl) IN SlBound(sl[1], n, st, IF st > 0 THEN 0 ELSE n - 1)
SlStop(sl, n) ==
    LET st == SlStep(sl) IN SlBound(sl[2], n, st, IF st > 0 THEN n ELSE -1)
RECURSIVE SlWalk(_, _, _)
SlWalk(i, stop, step) ==
    IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>>
    ELSE <<i>> \o SlWalk(i + step, stop, step)
SlPos(sl, n) == SlWalk(SlStart(sl, n), SlStop(sl, n), SlStep(sl))

(* ---------------------------------------------------------------- update *)
(* The mapping denoted by the arguments of dict.update: m is a mapping, a  *)
(* list of pairs, or absent; kw is the dict of keyword arguments.          *)
PairErr(x) ==   \* the exception class for a malformed element of a pair list
    IF ~Iterable(x) THEN "TypeError"
    ELSE IF Len(Elems(x)) # 2 THEN "ValueError"
    ELSE IF ~IsS(Elems(x)[1]) THEN "TypeError" ELSE "ok"
RECURSIVE PairsToPs(_, _)
PairsToPs(ps, xs) ==
    IF xs = <<>> THEN ps
    ELSE PairsToPs(PutKey(ps, Elems(Head(xs))[1][2], Elems(Head(xs))[2]), Tail(xs))

UpdErr(e) ==
    IF ~Has(e, "v") THEN "ok"
    ELSE IF IsD(e.v) THEN "ok"
    ELSE IF ~Iterable(e.v) THEN "TypeError"
    ELSE LET xs == Elems(e.v)
             bad == {i \in 1..Len(xs) : PairErr(xs[i]) # "ok"}
         IN IF bad = {} THEN "ok"
            ELSE PairErr(xs[CHOOSE i \in bad : \A j \in bad : i <= j])
UpdPs(e) ==
    LET a == IF ~Has(e, "v") THEN <<>>
             ELSE IF IsD(e.v) THEN e.v[2] ELSE PairsToPs(<<>>, Elems(e.v))
    IN IF Has(e, "kw") THEN PutAll(a, e.kw[2]) ELSE a

(* ----------------------------------------------------------- operations *)
SeqRes(s, ord) == <<"seq", s, ord>>

CmpRes(t) == IF t = "E" THEN RE("TypeError") ELSE RB(t = "T")

KeyOps == {"getitem", "delitem", "get", "pop", "contains"}

ApplyDict(node, e, nodot, ord) ==
    LET ps == node[2]
        n == Len(ps)
        op == e.op
        k == IF Has(e, "k") THEN e.k ELSE Null
        ka == IF IsS(k) THEN k[2] ELSE 0
        has == IsS(k) /\ HasKey(ps, ka)
        at == Child(node, ka)
        dflt == IF Has(e, "v") THEN e.v ELSE Null
    IN CASE op \in KeyOps /\ ~IsS(k) ->
              {Rd(RE("TypeError"), node)}
              \* dict.pop does not look at the key of an empty dict
              \cup (IF op = "pop" /\ n = 0 THEN {Mu(RV(dflt), node, {})} ELSE {})
         [] op = "getitem" -> {Rd(IF has THEN RV(at) ELSE RE("KeyError"), node)}
         [] op = "get" -> {Rd(RV(IF has THEN at ELSE dflt), node)}
         [] op = "contains" -> {Rd(RB(has), node)}
         [] op = "delitem" ->
              IF has THEN {Mu(None, D(DelKey(ps, ka)), {ka})}
              ELSE {Rd(RE("KeyError"), node)}
         [] op = "pop" ->
              IF has THEN {Mu(RV(at), D(DelKey(ps, ka)), {ka})}
              ELSE {Mu(RV(dflt), node, {})}
         [] op = "popitem" ->
              IF n = 0 THEN {Rd(RE("KeyError"), node)}
              ELSE {Mu(<<"pair", ps[i][1], ps[i][2]>>, D(DropAt(ps, i)), {ps[i][1]}) :
                        i \in IF ord THEN {n} ELSE 1..n}
         [] op = "setitem" ->
              IF ~AllowedKey(k, nodot) \/ ~Allowed(e.v, nodot) THEN {Rd(Rejected, node)}
              ELSE {Mu(None, D(PutKey(ps, ka, e.v)), {ka})}
         [] op = "setdefault" ->
              IF has THEN {Mu(RV(at), node, {})}
                          \cup IF Allowed(dflt, nodot) THEN {} ELSE {Rd(Rejected, node)}
              ELSE IF ~AllowedKey(k, nodot) \/ ~Allowed(dflt, nodot) THEN {Rd(Rejected, node)}
              ELSE {Mu(RV(dflt), D(PutKey(ps, ka, dflt)), {ka})}
         [] op = "update" ->
              IF UpdErr(e) # "ok" THEN {Rd(RE(UpdErr(e)), node)}
              ELSE LET us == UpdPs(e) IN
                   IF ~Allowed(D(us), nodot) THEN
                       \* nothing, or some of the permitted entries, may have been stored
                       {[Rd(Rejected, node) EXCEPT !.m = (ks # {}), !.ts = ks, !.bulk = TRUE,
                            !.n = D(PutAll(ps, SelectSeq(us, LAMBDA q : q[1] \in ks)))] :
                          ks \in SUBSET {us[i][1] : i \in
                                   {j \in 1..Len(us) : Allowed(D(<<us[j]>>), nodot)}}}
                   ELSE {MuBulk(None, D(PutAll(ps, us)), KeySet(us))}
         [] op = "reset" ->
              IF ~Allowed(e.v, nodot) THEN {Rd(Rejected, node)}
              ELSE IF ~IsD(e.v) THEN {Rd(RE("ValueError"), node)}
              ELSE {MuBulkAll(None, e.v)}
         [] op = "clear" -> {MuAll(None, D(<<>>))}
         [] op = "len" -> {Rd(RN(n), node)}
         [] op = "bool" -> {Rd(RB(n > 0), node)}
         [] op \in {"iter", "keys"} -> {Rd(SeqRes([i \in 1..n |-> S(ps[i][1])], ord), node)}
         [] op = "values" -> {Rd(SeqRes([i \in 1..n |-> ps[i][2]], ord), node)}
         [] op = "items" -> {Rd(SeqRes([i \in 1..n |-> L(<<S(ps[i][1]), ps[i][2]>>)], ord), node)}
         [] op \in {"call", "repr", "str"} -> {Rd(RV(node), node)}
         [] op = "types" -> {Rd(<<"types", CountKind(node, 2), CountKind(node, 1), 0>>, node)}
         [] op = "eq" -> {Rd(RB(PyEq(node, e.v)), node)}
         [] op = "ne" -> {Rd(RB(~PyEq(node, e.v)), node)}
         [] op \in {"lt", "le", "gt", "ge"} -> {Rd(RE("TypeError"), node)}
         \* protected names address the object itself, whatever is stored
         [] op = "pget" -> {Rd(RB(TRUE), node)}
         [] op \in {"pset", "pdel"} -> {Rd(RB(TRUE), node)}
         \* attribute syntax of the attribute-access dicts (the driver only
         \* issues it for names that are neither protected, nor dunder, nor
         \* attributes of the class)
         [] op = "aget" -> {Rd(IF has THEN RV(at) ELSE RE("AttributeError"), node)}
         [] op = "aset" ->
              IF ~AllowedKey(k, nodot) \/ ~Allowed(e.v, nodot) THEN {Rd(Rejected, node)}
              ELSE {Mu(None, D(PutKey(ps, ka, e.v)), {ka})}
         [] op = "adel" ->
              IF has THEN {Mu(None, D(DelKey(ps, ka)), {ka})}
              ELSE {Rd(RE("AttributeError"), node)}
         [] OTHER -> Assert(FALSE, <<"unknown dict operation", op>>)

ApplyList(node, e, nodot) ==
    LET s == node[2]
        n == Len(s)
        op == e.op
        badi == Has(e, "i") /\ e.i = <<>>
        i == IF Has(e, "i") /\ e.i # <<>> THEN e.i[1] ELSE 0
        at == NormIdx(i, n)
        first(v) == LET js == {j \in 1..n : PyEq(s[j], v)}
                    IN IF js = {} THEN 0 ELSE CHOOSE j \in js : \A x \in js : j <= x
    IN CASE op = "getitem" ->
              IF badi THEN {Rd(RE("TypeError"), node)}
              ELSE IF InRange(i, n) THEN {Rd(RV(s[at + 1]), node)}
              ELSE {Rd(RE("IndexError"), node)}
         [] op = "getslice" ->
              IF SlStep(e.sl) = 0 THEN {Rd(RE("ValueError"), node)}
              ELSE {Rd(RV(L([j \in 1..Len(SlPos(e.sl, n)) |-> s[SlPos(e.sl, n)[j] + 1]])), node)}
         [] op = "setitem" ->
              IF ~Allowed(e.v, nodot) THEN {Rd(Rejected, node)}
              ELSE IF badi THEN {Rd(RE("TypeError"), node)}
              ELSE IF InRange(i, n) THEN {Mu(None, L([s EXCEPT ![at + 1] = e.v]), {at})}
              ELSE {Rd(RE("IndexError"), node)}
         [] op = "setslice" ->
              IF ~Allowed(e.v, nodot) THEN {Rd(Rejected, node)}
              ELSE IF SlStep(e.sl) = 0 THEN {Rd(RE("ValueError"), node)}
              ELSE IF ~Iterable(e.v) THEN {Rd(RE("TypeError"), node)}
              ELSE IF SlStep(e.sl) = 1
              THEN LET a == SlStart(e.sl, n)
                       b == MaxInt(SlStop(e.sl, n), a)
                   IN {MuAll(None, L(SubSeq(s, 1, a) \o Elems(e.v) \o SubSeq(s, b + 1, n)))}
              ELSE LET pos == SlPos(e.sl, n)
                   IN IF Len(pos) # Len(Elems(e.v)) THEN {Rd(RE("ValueError"), node)}
                      ELSE {MuAll(None, L([j \in 1..n |->
                               IF \E x \in 1..Len(pos) : pos[x] = j - 1
                               THEN Elems(e.v)[CHOOSE x \in 1..Len(pos) : pos[x] = j - 1]
                               ELSE s[j]]))}
         [] op = "delitem" ->
              IF badi THEN {Rd(RE("TypeError"), node)}
              ELSE IF InRange(i, n) THEN {MuFrom(None, L(DropAt(s, at + 1)), at)}
              ELSE {Rd(RE("IndexError"), node)}
         [] op = "delslice" ->
              IF SlStep(e.sl) = 0 THEN {Rd(RE("ValueError"), node)}
              ELSE LET gone == SetOfSeq(SlPos(e.sl, n))
                       keep == SelectSeq([j \in 1..n |-> j], LAMBDA j : (j - 1) \notin gone)
                   IN {MuAll(None, L([j \in 1..Len(keep) |-> s[keep[j]]]))}
         [] op = "append" ->
              IF ~Allowed(e.v, nodot) THEN {Rd(Rejected, node)}
              ELSE {Mu(None, L(Append(s, e.v)), {})}
         [] op = "insert" ->
              IF ~Allowed(e.v, nodot) THEN {Rd(Rejected, node)}
              ELSE IF badi THEN {Rd(RE("TypeError"), node)}
              ELSE LET a == MaxInt(0, MinInt(at, n))
                   IN {MuFrom(None, L(SubSeq(s, 1, a) \o <<e.v>> \o SubSeq(s, a + 1, n)), a)}
         [] op \in {"extend", "iadd"} ->
              IF ~Iterable(e.v) THEN {Rd(RE("TypeError"), node)}
              ELSE IF ~Allowed(L(Elems(e.v)), nodot) THEN
                  {[Rd(Rejected, node) EXCEPT !.m = (x > 0), !.n = L(s \o SubSeq(Elems(e.v), 1, x))] :
                      x \in {y \in 0..Len(Elems(e.v)) : Allowed(L(SubSeq(Elems(e.v), 1, y)), nodot)}}
              ELSE {Mu(IF op = "iadd" THEN RSelf ELSE None, L(s \o Elems(e.v)), {})}
         [] op = "remove" ->
              IF first(e.v) = 0 THEN {Rd(RE("ValueError"), node)}
              ELSE {MuFrom(None, L(DropAt(s, first(e.v))), first(e.v) - 1)}
         [] op = "pop" ->
              IF badi THEN {Rd(RE("TypeError"), node)}
              ELSE LET a == IF Has(e, "i") THEN at ELSE n - 1
                   IN IF a < 0 \/ a >= n THEN {Rd(RE("IndexError"), node)}
                      ELSE {MuFrom(RV(s[a + 1]), L(DropAt(s, a + 1)), a)}
         [] op = "clear" -> {MuAll(None, L(<<>>))}
         [] op = "reverse" -> {MuAll(None, L(RevSeq(s)))}
         [] op = "reset" ->
              IF ~Allowed(e.v, nodot) THEN {Rd(Rejected, node)}
              ELSE IF ~IsL(e.v) THEN {Rd(RE("ValueError"), node)}
              ELSE {MuBulkAll(None, e.v)}
         [] op = "len" -> {Rd(RN(n), node)}
         [] op = "bool" -> {Rd(RB(n > 0), node)}
         [] op = "iter" -> {Rd(SeqRes(s, TRUE), node)}
         [] op = "reversed" -> {Rd(SeqRes(RevSeq(s), TRUE), node)}
         [] op \in {"call", "repr", "str"} -> {Rd(RV(node), node)}
         [] op = "contains" -> {Rd(RB(first(e.v) # 0), node)}
         [] op = "count" -> {Rd(RN(Cardinality({j \in 1..n : PyEq(s[j], e.v)})), node)}
         [] op = "index" ->
              LET a == IF Has(e, "lo") THEN (IF e.lo < 0 THEN MaxInt(n + e.lo, 0) ELSE e.lo) ELSE 0
                  b == IF Has(e, "hi") THEN (IF e.hi < 0 THEN n + e.hi ELSE e.hi) ELSE n
                  js == {j \in 1..n : PyEq(s[j], e.v) /\ j - 1 >= a /\ j - 1 < b}
              IN IF js = {} THEN {Rd(RE("ValueError"), node)}
                 ELSE {Rd(RN((CHOOSE j \in js : \A x \in js : j <= x) - 1), node)}
         [] op = "types" -> {Rd(<<"types", CountKind(node, 2), CountKind(node, 1), 0>>, node)}
         [] op = "eq" -> {Rd(RB(PyEq(node, e.v)), node)}
         [] op = "ne" -> {Rd(RB(~PyEq(node, e.v)), node)}
         [] op = "lt" -> {Rd(CmpRes(PyLess(node, e.v, FALSE)), node)}
         [] op = "le" -> {Rd(CmpRes(PyLess(node, e.v, TRUE)), node)}
         [] op = "gt" -> {Rd(CmpRes(PyLess(e.v, node, FALSE)), node)}
         [] op = "ge" -> {Rd(CmpRes(PyLess(e.v, node, TRUE)), node)}
         [] OTHER -> Assert(FALSE, <<"unknown list operation", op>>)

Apply(node, e, nodot, ord) ==
    IF IsD(node) THEN ApplyDict(node, e, nodot, ord) ELSE ApplyList(node, e, nodot)

DictOps == {"getitem", "delitem", "get", "pop", "contains", "popitem", "setitem", "setdefault",
            "update", "reset", "clear", "len", "bool", "iter", "keys", "values", "items", "call",
            "repr", "str", "eq", "ne", "lt", "le", "gt", "ge", "aget", "aset", "adel",
            "types", "pget", "pset", "pdel"}
ListOps == {"getitem", "getslice", "setitem", "setslice", "delitem", "delslice", "append", "insert",
            "extend", "iadd", "remove", "pop", "clear", "reverse", "reset", "len", "bool", "iter",
            "reversed", "call", "repr", "str", "contains", "count", "index", "eq", "ne", "lt", "le",
            "gt", "ge", "types"}

NeedKey == KeyOps \cup {"setitem", "setdefault", "aget", "aset", "adel", "pget", "pset", "pdel"}
NeedIdx == {"getitem", "setitem", "delitem", "insert"}
NeedVal == {"setitem", "setslice", "append", "insert", "extend", "iadd", "remove", "contains", "count",
            "index", "reset"}

(* The operations that are reads (C17).                                    *)
ReadOps == {"getitem", "getslice", "get", "contains", "len", "bool", "iter", "keys",
            "values", "items", "call", "repr", "str", "eq", "ne", "lt", "le", "gt",
            "ge", "reversed", "count", "index", "aget"}
=============================================================================
