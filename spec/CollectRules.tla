----------------------------- MODULE CollectRules -----------------------------
(* Sequential span collection: collectors observing single traces or all of them,  *)
(* watches, finders and collections of a callback; what every operation does to     *)
(* them, and what it must show.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Collector

Range(q) == {q[i] : i \in DOMAIN q}
With(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> 0]

VARIABLE m
\* sp: tr, par, live;  co: collectors with kind, match (functions), tr (observed traces),
\* all (observes every trace), c (its Collector state), over (returned, for the blocking ones)
M0 == [sp |-> Empty, co |-> Empty]

Par == [s \in DOMAIN m.sp |-> m.sp[s].par]
LiveTraces == {m.sp[s].tr : s \in {x \in DOMAIN m.sp : m.sp[x].live}}

\* the kinds: "col" a collector, "watch" and "find" blocking calls, "work" a collected callback, "rec" a bare observer
Hears(k, tr) == ~k.over /\ tr \in k.tr
Told(co, e, tr, what) ==
    [c \in DOMAIN co |->
       LET k == co[c] IN
       IF ~Hears(k, tr) THEN k
       ELSE IF what = "start"
       THEN LET hit == e.f \in k.match IN
            CASE k.kind = "find" -> IF hit THEN [k EXCEPT !.over = TRUE] ELSE k
              [] k.kind = "rec" -> [k EXCEPT !.notes = Append(@, <<"S", e.s>>)]
              [] OTHER -> IF hit THEN [k EXCEPT !.c = CBegin(@, e.s)] ELSE k
       ELSE CASE k.kind = "find" -> k
              [] k.kind = "rec" -> [k EXCEPT !.notes = Append(@, <<"F", e.s>>)]
              [] OTHER ->
                 LET n == CFinish(k.c, [s |-> e.s, e |-> e.e, p |-> e.p, at |-> e.at],
                                  k.c.check > 0 /\ m.sp[k.c.check].tr = tr)
                 IN [k EXCEPT !.c = n, !.over = k.kind = "watch" /\ n.check = -1]]

\* observers of all traces pick up a trace that starts
Announce(co, tr) == [c \in DOMAIN co |-> IF co[c].all /\ ~co[c].over THEN [co[c] EXCEPT !.tr = @ \cup {tr}] ELSE co[c]]

New(e) == [kind |-> e.kind, match |-> Range(e.match), all |-> e.all, tr |-> IF e.all THEN LiveTraces ELSE {},
           c |-> CollectorNew, over |-> FALSE, notes |-> <<>>]

StartSpan(mm, e) ==
    LET co1 == IF e.announced THEN Announce(mm.co, e.tr) ELSE mm.co IN
    [mm EXCEPT !.sp = With(@, e.s, [tr |-> e.tr, par |-> e.par, live |-> TRUE]), !.co = Told(co1, e, e.tr, "start")]

Apply(e) ==
    CASE e.o = "start" -> StartSpan(m, e)
      [] e.o = "end" -> [m EXCEPT !.sp[e.s].live = FALSE, !.co = Told(@, e, m.sp[e.s].tr, "finish")]
      [] e.o = "new" -> [m EXCEPT !.co = With(@, e.c, New(e))]
      [] e.o = "obs" -> [m EXCEPT !.co[e.c].tr = @ \cup {e.tr}]
      [] e.o = "unobs" -> [m EXCEPT !.co[e.c].tr = @ \ {e.tr}]
      [] e.o = "unall" -> [m EXCEPT !.co[e.c].tr = {}, !.co[e.c].all = FALSE]
      [] e.o = "force" -> [m EXCEPT !.co[e.c].c = CBegin(@, e.s)]
      [] e.o = "stop" -> [m EXCEPT !.co[e.c].c = CStop(@)]
      [] e.o = "cancel" -> [m EXCEPT !.co[e.c].over = TRUE]
      \* a collected callback begins with a span of its own, which is the trigger
      [] e.o = "work" -> LET n == StartSpan(m, e) IN
                         [n EXCEPT !.co = With(@, e.c, [New(e) EXCEPT !.tr = {e.tr}, !.c = [CollectorNew EXCEPT !.check = e.s]])]
      [] e.o = "worked" -> LET n == [m EXCEPT !.sp[e.s].live = FALSE, !.co = Told(@, e, m.sp[e.s].tr, "finish")] IN
                           [n EXCEPT !.co[e.c].over = TRUE]
      [] OTHER -> m

Same(got, want) == Range(got) = want /\ Len(got) = Cardinality(want)

\* returns of blocking calls that the operation caused
Returned(n) == {c \in DOMAIN n.co : n.co[c].over /\ n.co[c].kind \in {"watch", "find"} /\ (c \in DOMAIN m.co => ~m.co[c].over)}
JudgeReturns(e, n) ==
    IF {x.c : x \in Range(e.rets)} # Returned(n) \/ Len(e.rets) # Cardinality(Returned(n)) THEN "a watch returned too early, too late or not at all"
    ELSE IF \E x \in Range(e.rets) : n.co[x.c].kind = "watch" /\ x.canceled # (e.o = "cancel") THEN "a watch returned the wrong error"
    ELSE IF \E x \in Range(e.rets) : n.co[x.c].kind = "watch" /\
              ~Same(x.spans, IF e.o = "cancel" THEN {} ELSE CSpans(n.co[x.c].c, [s \in DOMAIN n.sp |-> n.sp[s].par]))
    THEN "a watch did not return exactly the finished subtree of its trigger" ELSE ""

Judge(e, n) ==
    IF JudgeReturns(e, n) # "" THEN JudgeReturns(e, n)
    ELSE CASE e.o = "read" ->
           LET k == m.co[e.c] IN
           IF e.done # (k.c.check = -1) THEN "the done signal is wrong"
           ELSE IF ~Same(e.spans, CSpans(k.c, Par)) THEN "a collector does not hold exactly the finished subtree of its trigger" ELSE ""
      [] e.o = "notes" -> IF e.notes # m.co[e.c].notes THEN "an observer of all traces was not told exactly what happened" ELSE ""
      [] e.o = "worked" -> IF ~e.panicked /\ ~Same(e.spans, CSpans(n.co[e.c].c, Par)) THEN "collecting a callback did not return exactly its finished spans" ELSE ""
      [] e.o = "plainwork" -> IF ~e.ran \/ e.spans # <<>> THEN "collecting a callback without a span went wrong" ELSE ""
      [] e.o = "left" -> IF Len(e.held) # 0 THEN "something ended is still being observed" ELSE ""
      [] OTHER -> ""
=============================================================================
