------------------------------ MODULE TagsTrace ------------------------------
(* Checks recorded histories of tag sets and series keys against TagsRules.       *)
EXTENDS TagsRules, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VH_TRACES)

VARIABLES t, l, bad
vars == <<t, l, m, bad>>

Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ m = M0
Ev == Traces[t].ev[l]
Next ==
    /\ bad = "" /\ l <= Len(Traces[t].ev)
    /\ t' = t /\ l' = l + 1
    /\ CASE Ev.k = "h" -> UNCHANGED <<m, bad>>
         [] Ev.k = "x" -> m' = m /\ bad' = "run ended abnormally: " \o Ev.why
         [] Ev.k = "op" -> m' = Apply(Ev) /\ bad' = Judge(Ev)

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
