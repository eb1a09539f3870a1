----------------------------- MODULE CallbackTrace -----------------------------
(* Checks recorded nested calls against Callback.                                 *)
EXTENDS Callback, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VH_TRACES)

VARIABLES t, l, w, bad
vars == <<t, l, w, bad>>

Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ w = Cb0
Ev == Traces[t].ev[l]

Next ==
    /\ bad = "" /\ l <= Len(Traces[t].ev)
    /\ t' = t /\ l' = l + 1
    /\ CASE Ev.k = "h" -> UNCHANGED <<w, bad>>
         [] Ev.k = "x" -> w' = w /\ bad' = "run ended abnormally: " \o Ev.why
         [] Ev.o = "call" -> w' = Begin(w, Ev.id, Ev.kind) /\ bad' = ""
         [] Ev.o = "visit" -> w' = Visit(w, Ev.id, Ev.x) /\ bad' = JudgeVisit(w, Ev.id, Ev.x)
         [] Ev.o = "ret" -> /\ bad' = JudgeReturn(w, Ev.id)
                            /\ w' = IF w.stack = <<>> THEN w ELSE Return(w)
         [] Ev.o = "add" -> w' = Appear(w, Ev.x, Ev.kind) /\ bad' = ""
         [] Ev.o = "del" -> w' = Vanish(w, Ev.x) /\ bad' = ""
         [] Ev.o = "touch" -> w' = Touch(w, Ev.m) /\ bad' = ""
         [] Ev.o = "count" -> w' = w /\ bad' = IF Ev.v # Count(w, Ev.m) THEN "an update made by a callback did not take effect exactly once" ELSE ""
         [] Ev.o = "end" -> w' = w /\ bad' = IF w.stack # <<>> THEN "a call never returned" ELSE ""

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
