------------------------------ MODULE Resolver ------------------------------
(***************************************************************************)
(* Classification of values with a cache per type (C19).                   *)
(*                                                                         *)
(* Values are <<type, category>>.  The category of a value is a function   *)
(* of the value, which need not be a function of its type: types in Mixed  *)
(* have values of several categories (arrays with and without dimensions,  *)
(* objects that report another class).  Classifying a value looks up its   *)
(* type, then the value itself, and remembers the category for the type if *)
(* Cachable says so.                                                       *)
(*                                                                         *)
(* Memoryless is C19: whatever was classified before, the outcome is the   *)
(* category of the value.  It holds exactly for caches that leave the      *)
(* mixed types alone (Cachable \cap Mixed = {}).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Pure, Mixed, Cats, Cachable

Types == Pure \cup Mixed
None == "none"

(* one category for all values of a pure type *)
CatOf == CHOOSE f \in [Pure -> Cats] : \A c \in Cats : Cardinality({t \in Pure : f[t] = c}) <= 1
Values == {<<t, CatOf[t]>> : t \in Pure} \cup (Mixed \X Cats)

VARIABLES cache, last, out
vars == <<cache, last, out>>

Init == cache = [t \in Types |-> None] /\ last = <<>> /\ out = None

Classify(v) ==
    LET t == v[1]
        c == IF cache[t] # None THEN cache[t] ELSE v[2]
    IN /\ last' = v /\ out' = c
       /\ cache' = IF t \in Cachable THEN [cache EXCEPT ![t] = c] ELSE cache

Next == \E v \in Values : Classify(v)
Spec == Init /\ [][Next]_vars

Memoryless == last # <<>> => out = last[2]
=============================================================================
