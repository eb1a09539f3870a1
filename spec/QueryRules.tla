----------------------------- MODULE QueryRules -----------------------------
(* Trace queries.  A query is a watch (or, for remote queries, a search) with       *)
(* selectors, a client it answers to, and a keep-alive every 30 seconds until it     *)
(* has its answer or the client is gone.                                             *)
EXTENDS Present, Collector

With(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> 0]

VARIABLE m

\* sp: spans (tr, par, live);  trs: traces (id, callback);  q: queries;
\* known: functions seen;  now: seconds;  sampled: traces;  cbs: callbacks in order
M0 == [sp |-> Empty, trs |-> Empty, q |-> Empty, known |-> {}, now |-> 0, sampled |-> {}, cbs |-> <<>>]

LiveTraces(mm) == {mm.sp[s].tr : s \in {x \in DOMAIN mm.sp : mm.sp[x].live}}

Lower(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f" [] OTHER -> c
RECURSIVE LowerAll(_)
LowerAll(s) == IF Len(s) = 0 THEN "" ELSE Lower(Ch(s, 1)) \o LowerAll(SubSeq(s, 2, Len(s)))
SameID(sel, id) == TrimZero(LowerAll(sel)) = TrimZero(id)

Refused(e) == e.mode # "direct" /\ BadQuery(e @@ [matches |-> RangeOf(e.re) \cap m.known # {}])

\* the functions whose spans a query looks for
Wanted(e) == IF e.mode = "direct" THEN RangeOf(e.re)
             ELSE IF e.regex = "" THEN 0..99
             ELSE IF e.presel \in False THEN RangeOf(e.re) ELSE RangeOf(e.re) \cap m.known
Hit(k, e) == e.f \in k.fns /\ (k.tid = "" \/ SameID(k.tid, e.tid))
Finder(k) == k.kind \in {"remote", "viz"}

NewQ(m0, e) == [kind |-> e.kind, mode |-> e.mode, fns |-> Wanted(e), tid |-> IF e.mode = "direct" THEN "" ELSE e.tid, e |-> e,
            t0 |-> m0.now, tr |-> LiveTraces(m), c |-> CollectorNew, over |-> Refused(e), failed |-> FALSE, broken |-> FALSE, ans |-> 0, pings |-> 0]

Hears(k, tr) == ~k.over /\ tr \in k.tr

OnStart(k, e) ==
    IF ~Hears(k, e.tr) \/ ~Hit(k, e) THEN k
    ELSE IF Finder(k) THEN [k EXCEPT !.over = TRUE, !.failed = k.broken, !.ans = e.tr]
    ELSE [k EXCEPT !.c = CBegin(@, e.s)]

OnEnd(k, e, mm) ==
    LET tr == mm.sp[e.s].tr IN
    IF ~Hears(k, tr) \/ Finder(k) THEN k
    ELSE LET n == CFinish(k.c, [s |-> e.s, e |-> e.e, p |-> e.p, at |-> e.at], k.c.check > 0 /\ mm.sp[k.c.check].tr = tr)
         IN [k EXCEPT !.c = n, !.over = n.check = -1, !.failed = n.check = -1 /\ k.broken]

Pings(k, now) == (now - k.t0) \div 30
OnTick(k, now) ==
    IF k.over THEN k
    ELSE IF Pings(k, now) > k.pings /\ k.broken THEN [k EXCEPT !.over = TRUE, !.failed = TRUE]
    ELSE IF k.broken THEN k
    ELSE [k EXCEPT !.pings = Pings(k, now)]

Found(mm, nq) == {c \in DOMAIN nq : Finder(nq[c]) /\ nq[c].over /\ nq[c].ans # 0 /\ ~mm.q[c].over}

Op(m0, e) ==
    CASE e.o = "fn" -> [m0 EXCEPT !.known = @ \cup {e.f}]
      [] e.o = "query" -> [m0 EXCEPT !.q = With(@, e.q, NewQ(m0, e)), !.known = IF e.mode = "direct" THEN @ \cup RangeOf(e.re) ELSE @]
      [] e.o = "break" -> [m0 EXCEPT !.q[e.q].broken = TRUE]
      [] e.o = "tick" -> [m0 EXCEPT !.now = @ + e.d, !.q = [c \in DOMAIN @ |-> OnTick(@[c], m0.now + e.d)]]
      [] e.o = "start" ->
           LET q1 == [c \in DOMAIN m0.q |-> IF e.announced /\ ~m0.q[c].over THEN [m0.q[c] EXCEPT !.tr = @ \cup {e.tr}] ELSE m0.q[c]]
               q2 == [c \in DOMAIN q1 |-> OnStart(q1[c], e)]
               fnd == Found(m0, q2) IN
           [m0 EXCEPT !.sp = With(@, e.s, [tr |-> e.tr, par |-> e.par, live |-> TRUE]), !.trs = With(@, e.tr, [dec |-> e.dec, cb |-> e.cb]),
                     !.known = @ \cup {e.f}, !.q = q2,
                     !.sampled = IF fnd = {} THEN @ ELSE @ \cup {e.tr},
                     !.cbs = IF e.cb THEN @ \o [i \in 1..Cardinality(fnd) |-> e.tr] ELSE @]
      [] e.o = "end" -> LET n == [m0 EXCEPT !.sp[e.s].live = FALSE] IN [n EXCEPT !.q = [c \in DOMAIN m0.q |-> OnEnd(m0.q[c], e, m0)]]
      [] OTHER -> m0

\* an operation at the very moment of a keep-alive (rush): the two may be in either order
Apply(e) ==
    IF e.o = "burst" THEN m
    ELSE LET n == Op([m EXCEPT !.now = @ + e.rush], e) IN
    IF e.rush = 0 THEN n ELSE [n EXCEPT !.q = [c \in DOMAIN @ |-> OnTick(@[c], n.now)]]

Same(got, want) == RangeOf(got) = want /\ Len(got) = Cardinality(want)
Par(n) == [s \in DOMAIN n.sp |-> n.sp[s].par]

\* the answer of query k of the new state n
JudgeAnswer(x, k, n, rush) ==
    LET want == CSpans(k.c, Par(n)) IN
    IF k.failed THEN
       IF k.mode # "http" /\ x.err # "write" THEN "a query whose client is gone did not end with that error"
       ELSE IF ~x.empty THEN "a query whose client is gone was answered" ELSE ""
    ELSE IF x.err # "" THEN "a query ended with an error"
    ELSE IF x.wf # "" THEN "an answer is not well formed: " \o x.wf
    ELSE IF x.nl < k.pings \/ x.nl > MaxOf({k.pings, Pings(k, n.now)}) \/ (x.nl # k.pings /\ rush = 0) THEN "keep-alives were not sent as they should"
    ELSE CASE k.kind = "json" -> IF Same(x.spans, want) THEN "" ELSE "a query was not answered with the spans of its trigger"
           [] k.kind = "svg" -> IF Same(x.ids, {r.s : r \in want}) THEN "" ELSE "a query was not answered with the spans of its trigger"
           [] k.kind = "viz" /\ k.e.vizok ->
                IF x.vizbase # k.e.vizbase \/ ~(RangeOf(k.e.vizq) \subseteq RangeOf(x.vizq)) \/ Len(x.vizq) # Len(k.e.vizq) + 1 THEN "a query redirected elsewhere" ELSE
                IF <<"argv", n.trs[k.ans].dec>> \in RangeOf(x.vizq) THEN "" ELSE "a query redirected to the wrong trace"
           [] OTHER -> IF x.tid = n.trs[k.ans].dec THEN "" ELSE "a query found the wrong trace"

Done(n) == {c \in DOMAIN n.q : n.q[c].over /\ (c \in DOMAIN m.q => ~m.q[c].over) /\ ~(c \notin DOMAIN m.q)}
First0(S) == IF S = {} THEN "" ELSE CHOOSE x \in S : TRUE

\* many traces match at once: one of them is found
JudgeBurst(e) ==
    IF ~e.ended \/ e.err # "" THEN "a query was not answered: " \o e.err
    ELSE IF e.kind = "json" THEN
           IF Cardinality(RangeOf(e.ans)) # 1 \/ e.n \notin 1..2 THEN "a query was answered with spans of several traces"
           ELSE IF e.sampled # <<>> \/ e.cbs # <<>> THEN "a query marked a trace" ELSE ""
    ELSE IF e.sampled # e.ans \/ e.cbs # e.ans \/ e.ncb # 1 THEN "a remote query did not mark exactly the trace found" ELSE ""

Judge(e, n) ==
    IF e.o = "burst" THEN JudgeBurst(e) ELSE
    LET rs == RangeOf(e.rets) IN
    IF e.o = "query" /\ (e.res # "ok") # Refused(e) THEN "a query was wrongly refused or accepted"
    ELSE IF e.o = "query" /\ Refused(e) /\ e.res # "400" THEN "an invalid query was not reported as a bad request"
    ELSE IF {x.q : x \in rs} # Done(n) \/ Len(e.rets) # Cardinality(Done(n)) THEN "a query ended too early, too late or not at all"
    ELSE IF \E x \in rs : JudgeAnswer(x, n.q[x.q], n, e.rush) # "" THEN First0({JudgeAnswer(x, n.q[x.q], n, e.rush) : x \in rs} \ {""})
    ELSE IF e.o # "left" /\ \E x \in RangeOf(e.qs) : ~x.clean \/ x.nl # n.q[x.q].pings THEN "keep-alives were not sent as they should"
    ELSE IF e.o # "left" /\ (RangeOf(e.sampled) # n.sampled \/ e.cbs # n.cbs) THEN "remote queries did not mark exactly the traces found"
    ELSE IF e.o = "left" /\ Len(e.held) # 0 THEN "a query that ended is still observing"
    ELSE IF e.o = "left" /\ e.gor > 0 THEN "a query that ended is still running"
    ELSE ""
=============================================================================
