------------------------------ MODULE Progress ------------------------------
(***************************************************************************)
(* Operations come to an end (C10).                                        *)
(*                                                                         *)
(* A history consists of calls (inv) and returns (ret) of threads.  Calls  *)
(* can be hit by faults: unreadable files, rejected values, I/O errors;    *)
(* such a call ("may") may end in any way, but it has to end.  A call that *)
(* is not hit by a fault ("must") has to end normally, no matter which     *)
(* calls of other threads failed before and how the calls of the threads   *)
(* interleave.  In between, a call ("soft") may report that buffered data  *)
(* could not be written.  stuck records that the remaining threads wait    *)
(* for locks that will never be released; no behaviour of this             *)
(* specification contains it.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Traces == Data.traces

VARIABLES tr, l, pend
vars == <<tr, l, pend>>

Ev(t) == Traces[t].ev

Init == tr \in 1..Len(Traces) /\ l = 1 /\ pend = [t \in 1..Traces[tr].hdr.nt |-> "idle"]

Now == Ev(tr)[l]

Call == /\ Now.a = "inv" /\ pend[Now.t] = "idle"
        /\ pend' = [pend EXCEPT ![Now.t] = Now.must]
        /\ l' = l + 1 /\ UNCHANGED tr

Range(s) == {s[i] : i \in DOMAIN s}

(* res is <<"ok">> or <<"e", the classes of the exception>>. *)
Allowed(must, res) ==
    IF res[1] = "ok" THEN TRUE
    ELSE CASE must = "may" -> TRUE
           [] must = "soft" -> {"BufferException", "OSError"} \cap Range(res[2]) # {}
           [] OTHER -> FALSE

Return == /\ Now.a = "ret" /\ pend[Now.t] # "idle"
          /\ Allowed(pend[Now.t], Now.res)
          /\ pend' = [pend EXCEPT ![Now.t] = "idle"]
          /\ l' = l + 1 /\ UNCHANGED tr

End == /\ Now.a = "end" /\ \A t \in DOMAIN pend : pend[t] = "idle"
       /\ PrintT(<<"END", tr, l>>)
       /\ l' = 0 /\ UNCHANGED <<tr, pend>>

Next == l > 0 /\ l <= Len(Ev(tr)) /\ (Call \/ Return \/ End)

Spec == Init /\ [][Next]_vars
=============================================================================
