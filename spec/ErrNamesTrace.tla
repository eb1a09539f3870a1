---------------------------- MODULE ErrNamesTrace ----------------------------
(* Checks recorded sequential registrations and failures.                       *)
EXTENDS ErrNames, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VH_TRACES)

VARIABLES t, l, m, bad
vars == <<t, l, m, bad>>

Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ m = [hs |-> <<>>, errs |-> <<>>]
Ev == Traces[t].ev[l]

\* The names counted by one failure: those of the calls the handlers made, and its
\* own.  Handlers added on the way are not asked for this failure but are for the
\* nested ones that follow.
RECURSIVE Walk(_, _, _)
Walk(asked, hs, out) ==
    IF asked = <<>> THEN [hs |-> hs, out |-> out]
    ELSE LET h == Head(asked) IN
         Walk(Tail(asked),
              IF h.adds = <<>> THEN hs ELSE Append(hs, h.adds[1]),
              IF h.nest = 0 THEN out ELSE Append(out, NameOf(hs, m.errs[h.nest])))

Next ==
    /\ bad = "" /\ l <= Len(Traces[t].ev)
    /\ t' = t /\ l' = l + 1
    /\ CASE Ev.k = "h" -> UNCHANGED <<m, bad>>
         [] Ev.k = "x" -> m' = m /\ bad' = "run ended abnormally: " \o Ev.why
         [] Ev.o = "errs" -> m' = [m EXCEPT !.errs = Ev.errs] /\ bad' = ""
         [] Ev.o = "add" -> m' = [m EXCEPT !.hs = Append(@, Ev.h)] /\ bad' = ""
         [] Ev.o = "fail" ->
              LET x == m.errs[Ev.x]
                  w == Walk(Asked(m.hs, Len(m.hs), x), m.hs, <<>>) IN
              /\ m' = [m EXCEPT !.hs = w.hs]
              /\ bad' = IF Ev.nested # w.out THEN "a call made by a handler was not counted under the right name"
                        ELSE IF Ev.names # <<NameOf(m.hs, x)>> THEN "an error was not named by the documented precedence" ELSE ""

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
