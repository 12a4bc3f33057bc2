------------------------------- MODULE CrashFS -------------------------------
(***************************************************************************)
(* How files are saved, at the level of file system operations (C08).      *)
(*                                                                         *)
(* A process changes collections bound to Files and saves them: one by one *)
(* or several in one flush.  A file has the content <<v, n>>: the first n  *)
(* bytes of version v; a version has Size bytes.  The process can crash    *)
(* before and after every step and after every byte that is written.       *)
(*                                                                         *)
(* Mode "replace" writes a temporary file, which then replaces the file;   *)
(* Mode "inplace" truncates and rewrites the file itself.  Early says      *)
(* whether the content is serialized before anything is opened for         *)
(* writing; if not, serialization fails when the first bytes have already  *)
(* been written.                                                           *)
(*                                                                         *)
(* Whole is C08: after a crash, or when serialization failed, every file   *)
(* has all of its previous or all of its new content.  It holds in mode    *)
(* replace.  Without crashes and with Early it also holds in mode inplace  *)
(* (NoDamage); it is violated with crashes or without Early.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Files, Size, MaxVer, Mode, Early, Crashes

NoFile == <<0, 0>>

VARIABLES disk,   \* content of the files
          tmp,    \* content of the temporary file of each file (litter included)
          mem,    \* version in memory
          bad,    \* files whose version in memory cannot be serialized
          queue,  \* files still to be saved by the running save or flush
          pc,     \* what is to be done next for the first of the queue
          saved,  \* version of the last completed save
          alive

vars == <<disk, tmp, mem, bad, queue, pc, saved, alive>>

Init == /\ disk \in [Files -> {NoFile, <<1, Size>>}]
        /\ tmp = [f \in Files |-> NoFile]
        /\ mem = [f \in Files |-> 1]
        /\ saved = [f \in Files |-> disk[f][1]]
        /\ bad = {} /\ queue = <<>> /\ pc = "idle" /\ alive = TRUE

Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}

(* Change the collections in S in memory, then start saving them. *)
Change(S, B) ==
    /\ alive /\ pc = "idle" /\ S # {} /\ B \subseteq S
    /\ \A f \in S : mem[f] < MaxVer
    /\ mem' = [f \in Files |-> IF f \in S THEN mem[f] + 1 ELSE mem[f]]
    /\ bad' = (bad \ S) \cup B
    /\ \E q \in Perms(S) : queue' = q
    /\ pc' = "open"
    /\ UNCHANGED <<disk, tmp, saved, alive>>

F == queue[1]
Skip == /\ queue' = Tail(queue)
        /\ pc' = IF Len(queue) = 1 THEN "idle" ELSE "open"

Open == /\ alive /\ pc = "open"
        /\ IF Early /\ F \in bad
           THEN /\ Skip /\ UNCHANGED <<disk, tmp, mem, bad, saved, alive>>
           ELSE /\ IF Mode = "replace"
                   THEN tmp' = [tmp EXCEPT ![F] = <<mem[F], 0>>] /\ UNCHANGED disk
                   ELSE disk' = [disk EXCEPT ![F] = <<mem[F], 0>>] /\ UNCHANGED tmp
                /\ pc' = "write" /\ UNCHANGED <<mem, bad, queue, saved, alive>>

Write ==
    /\ alive /\ pc = "write"
    /\ LET c == IF Mode = "replace" THEN tmp[F] ELSE disk[F]
           d == <<c[1], c[2] + 1>>
       IN IF F \in bad /\ c[2] = 1
          THEN /\ Skip /\ UNCHANGED <<disk, tmp, mem, bad, saved, alive>>
          ELSE /\ c[2] < Size
               /\ IF Mode = "replace"
                  THEN tmp' = [tmp EXCEPT ![F] = d] /\ UNCHANGED disk
                  ELSE disk' = [disk EXCEPT ![F] = d] /\ UNCHANGED tmp
               /\ IF d[2] < Size THEN UNCHANGED <<pc, queue, saved>>
                  ELSE IF Mode = "replace" THEN pc' = "replace" /\ UNCHANGED <<queue, saved>>
                  ELSE Skip /\ saved' = [saved EXCEPT ![F] = mem[F]]
               /\ UNCHANGED <<mem, bad, alive>>

Replace ==
    /\ alive /\ pc = "replace"
    /\ disk' = [disk EXCEPT ![F] = tmp[F]]
    /\ tmp' = [tmp EXCEPT ![F] = NoFile]
    /\ saved' = [saved EXCEPT ![F] = mem[F]]
    /\ Skip
    /\ UNCHANGED <<mem, bad, alive>>

Crash == /\ Crashes /\ alive /\ alive' = FALSE
         /\ UNCHANGED <<disk, tmp, mem, bad, queue, pc, saved>>

(* A new process opens what is on disk; litter does not matter. *)
Restart == /\ ~alive
           /\ alive' = TRUE /\ pc' = "idle" /\ queue' = <<>> /\ bad' = {}
           /\ mem' = [f \in Files |-> IF disk[f] = NoFile THEN 1 ELSE disk[f][1]]
           /\ saved' = [f \in Files |-> disk[f][1]]
           /\ UNCHANGED <<disk, tmp>>

Next == \/ \E S \in SUBSET Files : \E B \in SUBSET S : Change(S, B)
        \/ Open \/ Write \/ Replace \/ Crash \/ Restart

Spec == Init /\ [][Next]_vars

Complete(c) == c = NoFile \/ c[2] = Size

Whole == ~alive => \A f \in Files :
            /\ Complete(disk[f])
            /\ disk[f][1] \in {saved[f], mem[f]}

NoDamage == pc = "idle" => \A f \in Files : Complete(disk[f]) /\ disk[f][1] = saved[f]
=============================================================================
