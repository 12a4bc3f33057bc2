------------------------------- MODULE PyData -------------------------------
(***************************************************************************)
(* JSON-like data as handled by Python programs.                           *)
(*                                                                         *)
(* A value is a tagged tuple:                                              *)
(*     <<0, a>>        a scalar; a is an index into the table Atoms        *)
(*     <<1, s>>        a list; s is a sequence of values                   *)
(*     <<2, ps>>       a dict; ps is a sequence of pairs <<k, v>> where k  *)
(*                     is the atom of the key, in iteration order          *)
(*                                                                         *)
(* Atoms[a] is a record                                                    *)
(*     t   the JSON type of the scalar: "null" "bool" "int" "float" "str"  *)
(*         (or "bad" for an object that is not JSON-representable)         *)
(*     c   comparison class: 0 null, 1 number, 2 string, 3 bad             *)
(*     r   rank inside the class; equal ranks = equal under Python's ==    *)
(*     e   length in bytes of the JSON encoding                            *)
(*     ch  for strings: the atoms of its characters                        *)
(*     d   for strings: TRUE when the string contains a dot                *)
(* Atom 1 is null, atom 2 is TRUE and atom 3 is FALSE.                     *)
(*                                                                         *)
(* Two atoms are the same iff they have the same type and the same value;  *)
(* so 1, 1.0 and True are three atoms with one rank.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Atoms

S(a) == <<0, a>>
L(s) == <<1, s>>
D(ps) == <<2, ps>>

Kind(v) == v[1]
IsS(v) == v[1] = 0
IsL(v) == v[1] = 1
IsD(v) == v[1] = 2
IsC(v) == v[1] # 0

Null == S(1)
PyBool(b) == S(IF b THEN 2 ELSE 3)
EmptyOf(kind) == IF kind = 1 THEN L(<<>>) ELSE D(<<>>)

IsStr(a) == Atoms[a].t = "str"

-----------------------------------------------------------------------------
(* Helpers on sequences.                                                   *)

SetOfSeq(s) == {s[i] : i \in 1..Len(s)}
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
MinInt(a, b) == IF a < b THEN a ELSE b
MaxInt(a, b) == IF a > b THEN a ELSE b

(* Dict access by key atom: 0 when the key is absent.                      *)
KeyIdx(ps, k) ==
    LET js == {i \in 1..Len(ps) : ps[i][1] = k}
    IN IF js = {} THEN 0 ELSE CHOOSE i \in js : TRUE
HasKey(ps, k) == \E i \in 1..Len(ps) : ps[i][1] = k
PutKey(ps, k, v) ==
    LET i == KeyIdx(ps, k)
    IN IF i = 0 THEN Append(ps, <<k, v>>) ELSE [ps EXCEPT ![i] = <<k, v>>]
DelKey(ps, k) == DropAt(ps, KeyIdx(ps, k))
KeySet(ps) == {ps[i][1] : i \in 1..Len(ps)}
RECURSIVE PutAll(_, _)
PutAll(ps, qs) == IF qs = <<>> THEN ps
                  ELSE PutAll(PutKey(ps, Head(qs)[1], Head(qs)[2]), Tail(qs))

-----------------------------------------------------------------------------
(* Identity of data: same structure and same JSON type at every leaf; the  *)
(* order of dict keys does not matter.                                     *)
RECURSIVE Canon(_)
Canon(v) ==
    IF IsS(v) THEN v
    ELSE IF IsL(v) THEN <<1, [i \in 1..Len(v[2]) |-> Canon(v[2][i])]>>
    ELSE <<2, [k \in KeySet(v[2]) |-> Canon(v[2][KeyIdx(v[2], k)][2])]>>
Same(v, w) == v = w \/ Canon(v) = Canon(w)

(* Python's ==                                                             *)
AtomEq(a, b) == Atoms[a].c = Atoms[b].c /\ Atoms[a].r = Atoms[b].r
RECURSIVE PyEq(_, _)
PyEq(v, w) ==
    /\ Kind(v) = Kind(w)
    /\ CASE IsS(v) -> AtomEq(v[2], w[2])
         [] IsL(v) -> /\ Len(v[2]) = Len(w[2])
                      /\ \A i \in 1..Len(v[2]) : PyEq(v[2][i], w[2][i])
         [] OTHER  -> /\ KeySet(v[2]) = KeySet(w[2])
                      /\ \A i \in 1..Len(v[2]) :
                            PyEq(v[2][i][2], w[2][KeyIdx(w[2], v[2][i][1])][2])

(* Python's < and <= between two values: "T", "F" or "E" (TypeError).      *)
RECURSIVE PyLess(_, _, _)
PyLess(v, w, orEqual) ==
    IF IsS(v) /\ IsS(w)
    THEN IF Atoms[v[2]].c # Atoms[w[2]].c \/ Atoms[v[2]].c \notin {1, 2} THEN "E"
         ELSE IF Atoms[v[2]].r < Atoms[w[2]].r
                 \/ (orEqual /\ Atoms[v[2]].r = Atoms[w[2]].r) THEN "T" ELSE "F"
    ELSE IF IsL(v) /\ IsL(w)
    THEN LET n == MinInt(Len(v[2]), Len(w[2]))
             diff == {i \in 1..n : ~PyEq(v[2][i], w[2][i])}
         IN IF diff = {}
            THEN IF Len(v[2]) < Len(w[2]) \/ (orEqual /\ Len(v[2]) = Len(w[2]))
                 THEN "T" ELSE "F"
            ELSE LET i == CHOOSE i \in diff : \A j \in diff : i <= j
                 IN PyLess(v[2][i], w[2][i], orEqual)
    ELSE "E"

(* Length of the JSON encoding (separators ", " and ": ").                 *)
RECURSIVE EncLen(_)
RECURSIVE SumEnc(_, _)
SumEnc(s, i) ==
    IF i > Len(s) THEN 0 ELSE EncLen(s[i]) + SumEnc(s, i + 1)
RECURSIVE SumEncD(_, _)
SumEncD(ps, i) ==
    IF i > Len(ps) THEN 0
    ELSE Atoms[ps[i][1]].e + 2 + EncLen(ps[i][2]) + SumEncD(ps, i + 1)
EncLen(v) ==
    IF IsS(v) THEN Atoms[v[2]].e
    ELSE IF IsL(v) THEN 2 + SumEnc(v[2], 1) + 2 * MaxInt(Len(v[2]) - 1, 0)
    ELSE 2 + SumEncD(v[2], 1) + 2 * MaxInt(Len(v[2]) - 1, 0)

-----------------------------------------------------------------------------
(* Positions.  A path is a sequence of integers: the atom of the key at a  *)
(* dict, the 0-based index at a list.                                      *)
HasChild(v, x) ==
    \/ IsL(v) /\ x >= 0 /\ x < Len(v[2])
    \/ IsD(v) /\ HasKey(v[2], x)
Child(v, x) == IF IsL(v) THEN v[2][x + 1] ELSE v[2][KeyIdx(v[2], x)][2]

RECURSIVE HasPath(_, _)
HasPath(v, p) == p = <<>> \/ (HasChild(v, Head(p)) /\ HasPath(Child(v, Head(p)), Tail(p)))
RECURSIVE GetAt(_, _)
GetAt(v, p) == IF p = <<>> THEN v ELSE GetAt(Child(v, Head(p)), Tail(p))
RECURSIVE PutAt(_, _, _)
PutAt(v, p, new) ==
    IF p = <<>> THEN new
    ELSE LET c == PutAt(Child(v, Head(p)), Tail(p), new)
         IN IF IsL(v) THEN L([v[2] EXCEPT ![Head(p) + 1] = c])
            ELSE D(PutKey(v[2], Head(p), c))

(* The kinds of the containers along a path, root included; a path that    *)
(* does not exist in v gives a shorter sequence, a scalar gives kind 0.    *)
RECURSIVE KindsAlong(_, _)
KindsAlong(v, p) ==
    IF p = <<>> THEN <<Kind(v)>>
    ELSE IF HasChild(v, Head(p)) THEN <<Kind(v)>> \o KindsAlong(Child(v, Head(p)), Tail(p))
    ELSE <<Kind(v)>>

RECURSIVE Depth(_)
Depth(v) ==
    IF IsS(v) THEN 0
    ELSE LET ds == IF IsL(v) THEN {Depth(v[2][i]) : i \in 1..Len(v[2])}
                   ELSE {Depth(v[2][i][2]) : i \in 1..Len(v[2])}
         IN 1 + (IF ds = {} THEN 0 ELSE CHOOSE x \in ds : \A y \in ds : y <= x)
=============================================================================
