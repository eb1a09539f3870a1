------------------------------ MODULE DistTrace ------------------------------
(* Checks recorded sequential uses of distributions, values and timers.         *)
EXTENDS Dist, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VH_TRACES)

VARIABLES t, l, m, bad
vars == <<t, l, m, bad>>

\* h: what each handle has observed; tm: running timers; now: the clock
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
        /\ m = [h |-> <<>>, tm |-> <<>>, now |-> 0]
Ev == Traces[t].ev[l]

Apply(e) ==
    CASE e.o = "new" -> [m EXCEPT !.h = Append(@, None)]
      [] e.o = "ins" -> [m EXCEPT !.h[e.n] = Run(@, e.v, 1)]
      [] e.o = "bulk" -> [m EXCEPT !.h[e.n] = Run(@, e.v, e.many)]
      [] e.o = "reset" -> [m EXCEPT !.h[e.n] = None]
      [] e.o = "copy" -> [m EXCEPT !.h = Append(@, m.h[e.n])]
      [] e.o = "adv" -> [m EXCEPT !.now = @ + e.d]
      [] e.o = "start" -> [m EXCEPT !.tm = Append(@, [n |-> e.n, at |-> m.now, done |-> FALSE])]
      [] e.o = "stop" -> LET x == m.tm[e.tm] IN
           IF x.done THEN m ELSE [m EXCEPT !.tm[e.tm].done = TRUE, !.h[x.n] = Run(@, m.now - x.at, 1)]
      [] OTHER -> m

Names == <<"rmin", "r10", "r50", "r90", "r99", "rmax">>
Pct == <<0, 10, 50, 90, 99, 100>>

Judge(e) ==
    CASE e.o \in {"stop", "elapsed"} -> IF e.res # m.now - m.tm[e.tm].at THEN "a timer gave the wrong elapsed time" ELSE ""
      [] e.o = "sum" -> IF e.res # Summary(m.h[e.n]) THEN "the summary is not that of the observations" ELSE ""
      [] e.o = "quant" -> IF ~QuantOK(m.h[e.n], e.q, e.d, e.res, e.whole, 0) THEN "wrong quantile" ELSE ""
      [] e.o = "avg" -> IF ~SampleAvgOK(m.h[e.n], e.res[1], e.whole) THEN "wrong average of the sample"
                        ELSE IF ~AvgOK(m.h[e.n], e.res[2], e.whole) THEN "wrong average" ELSE ""
      [] e.o = "stats" ->
           LET q == m.h[e.n] IN
           IF q.all = <<>> THEN IF e.fields # <<"count">> \/ e.sum # <<0>> THEN "an empty summary reports values" ELSE ""
           ELSE IF Len(e.fields) # 12 \/ DRange(e.fields) # {"count", "sum", "min", "max", "recent", "rmin", "ravg", "r10", "r50", "r90", "r99", "rmax"}
           THEN "the report does not have each field once"
           ELSE IF e.sum # Summary(q) THEN "the reported summary is not that of the observations"
           ELSE IF \E i \in 1..6 : ~QuantOK(q, Pct[i], 100, e.qs[i], e.whole, 1) THEN "a reported quantile is wrong"
           ELSE IF ~Monotone(e.qs) THEN "the reported quantiles are not in order"
           ELSE IF ~SampleAvgOK(q, e.avg, e.whole) THEN "the reported average of the sample is wrong" ELSE ""
      [] e.o = "sample" -> \* the quantiles i/63, that is the whole sample
           LET q == m.h[e.n].all IN
           IF Len(q) < Keep THEN ""
           ELSE IF ~Monotone(e.res) THEN "quantiles are not monotone"
           ELSE IF ~SubBag(e.res, q) THEN "the sample is not made of observations"
           \* the chance that a sample has not been renewed by so many is nil
           ELSE IF Len(q) >= Keep + 4000 /\ \A i \in 1..Keep : \E j \in 1..(Len(q) - 4000) : q[j] = e.res[i] THEN "the sample is not renewed"
           ELSE "" 
      [] OTHER -> ""

Next ==
    /\ bad = "" /\ l <= Len(Traces[t].ev)
    /\ t' = t /\ l' = l + 1
    /\ CASE Ev.k = "h" -> UNCHANGED <<m, bad>>
         [] Ev.k = "x" -> m' = m /\ bad' = "run ended abnormally: " \o Ev.why
         [] Ev.k = "op" -> m' = Apply(Ev) /\ bad' = Judge(Ev)

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
