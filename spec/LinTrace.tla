------------------------------ MODULE LinTrace ------------------------------
(***************************************************************************)
(* Trace specification for every object with a sequential meaning: checks   *)
(* recorded call/return histories of the implementation with the monitor    *)
(* of Lin, for the object selected by Object.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, LinObjects

Traces == ndJsonDeserialize(IOEnv.VH_TRACES)

L == INSTANCE Lin WITH Step <- ObjStep, Reads <- ObjReads

VARIABLES t, l, confs, pend, bad
vars == <<t, l, confs, pend, bad>>

Init == /\ t \in 1..Len(Traces)
        /\ l = 1 /\ bad = ""
        /\ pend = L!NoOps
        /\ confs = {L!Conf(s) : s \in ObjInit(Traces[t].ev[1])}

Ev == Traces[t].ev[l]

Next ==
    /\ bad = "" /\ l <= Len(Traces[t].ev)
    /\ t' = t /\ l' = l + 1
    /\ CASE Ev.k = "h" -> UNCHANGED <<confs, pend, bad>>
         [] Ev.k = "c" -> /\ pend' = L!OnCall(pend, Ev) /\ UNCHANGED <<confs, bad>>
         [] Ev.k = "r" -> LET n == L!OnReturn(confs, pend, Ev) IN
                          /\ confs' = n /\ pend' = L!Drop(pend, Ev.id)
                          /\ bad' = IF n = {} THEN "no placement of the effects explains this result" ELSE ""
         [] Ev.k = "p" -> /\ bad' = "operation panicked: " \o Ev.msg /\ UNCHANGED <<confs, pend>>
         [] Ev.k = "x" -> /\ bad' = "run ended abnormally: " \o Ev.why /\ UNCHANGED <<confs, pend>>

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
