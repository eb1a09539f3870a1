------------------------------- MODULE QueryMC -------------------------------
(* Trace queries as a bounded state machine: queries that wait for spans and queries  *)
(* that look for a trace, by function and by trace id, in any overlap with spans that  *)
(* start and end, keep-alives, and clients that go away.  C22 is stated over the        *)
(* history.                                                                            *)
EXTENDS QueryRules
CONSTANTS Depth, MaxSp, MaxQ
VARIABLES h
vars == <<m, h>>

Spans == DOMAIN m.sp
Trs == DOMAIN m.trs
TID(tr) == IF tr = 1 THEN "1f" ELSE "20"
Ops ==
    (IF Cardinality(Spans) >= MaxSp THEN {} ELSE
       LET s == Cardinality(Spans) + 1
           mk(tr, par, f, ann) == [o |-> "start", rush |-> 0, s |-> s, tr |-> tr, par |-> par, f |-> f, tid |-> TID(tr), dec |-> ToString(tr), cb |-> tr = 1, announced |-> ann] IN
       {mk(m.sp[p].tr, p, f, FALSE) : p \in {x \in Spans : m.sp[x].live}, f \in {1, 2}}
       \cup (IF Cardinality(Trs) >= 2 THEN {} ELSE {mk(Cardinality(Trs) + 1, 0, f, TRUE) : f \in {1, 2}}))
    \cup {[o |-> "end", rush |-> 0, s |-> s, e |-> 0, p |-> 0, at |-> Len(h)] : s \in {x \in Spans : m.sp[x].live}}
    \cup (IF Cardinality(DOMAIN m.q) >= MaxQ THEN {} ELSE
          {[o |-> "query", rush |-> 0, q |-> Cardinality(DOMAIN m.q) + 1, kind |-> k, mode |-> "http", re |-> r[1], regex |-> r[2], reok |-> TRUE, presel |-> "false", tid |-> i]
             : k \in {"json", "remote"}, r \in {<< <<1>>, "one">>, << <<>>, "">>}, i \in {"", "01F"}})
    \cup {[o |-> "tick", rush |-> 0, d |-> d] : d \in {20, 30}}
    \cup {[o |-> "break", rush |-> 0, q |-> q] : q \in {x \in DOMAIN m.q : ~m.q[x].over /\ ~m.q[x].broken}}

Init == m = M0 /\ h = <<>>
Next == Len(h) < Depth /\ \E e \in Ops : m' = Apply(e) /\ h' = Append(h, e)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE Secs(_)
Secs(i) == IF i = 0 THEN 0 ELSE Secs(i - 1) + (IF h[i].o = "tick" THEN h[i].d ELSE 0)
QueryAt(q) == CHOOSE i \in DOMAIN h : h[i].o = "query" /\ h[i].q = q
StartAt(s) == CHOOSE i \in DOMAIN h : h[i].o = "start" /\ h[i].s = s
EndAt(s) == LET E == {i \in DOMAIN h : h[i].o = "end" /\ h[i].s = s} IN IF E = {} THEN 0 ELSE MinOf(E)
LiveAt(tr, i) == \E k \in 1..i : h[k].o = "start" /\ h[k].tr = tr /\ (EndAt(h[k].s) = 0 \/ EndAt(h[k].s) > i)
\* a span started at j is one query q (asked at i) looks for
Matches(q, i, j) ==
    /\ j > i /\ h[j].o = "start"
    /\ h[i].regex # "" => h[j].f = 1
    /\ h[i].tid # "" => h[j].tr = 1
    \* its trace was running, or began since
    /\ LiveAt(h[j].tr, i) \/ \E k \in (i + 1)..j : h[k].o = "start" /\ h[k].tr = h[j].tr /\ h[k].announced
First1(S) == IF S = {} THEN 0 ELSE MinOf(S)
Hits(q) == {j \in DOMAIN h : Matches(q, QueryAt(q), j)}
\* when it has its answer: with the first match (searches), or when that has ended (watches)
AnswerAt(q) == LET j == First1(Hits(q)) IN
               IF j = 0 THEN 0 ELSE IF h[QueryAt(q)].kind = "remote" THEN j ELSE EndAt(h[j].s)
BreakAt(q) == First1({i \in DOMAIN h : h[i].o = "break" /\ h[i].q = q})
Beats(q, i) == (Secs(i) - Secs(QueryAt(q))) \div 30
\* when a client that went away is noticed: at the next keep-alive
NoticeAt(q) == LET b == BreakAt(q) IN IF b = 0 THEN 0 ELSE First1({i \in b..Len(h) : Beats(q, i) > Beats(q, b)})
\* the query's end, 0 if it still waits
OverAt(q) == First1({AnswerAt(q), NoticeAt(q)} \ {0})
Invalid(q) == LET e == h[QueryAt(q)] IN e.regex = "" /\ e.tid = ""

(* C22: exactly the invalid queries are refused; the others end when they have their   *)
(* answer or their client is found gone; until then they were kept alive every 30        *)
(* seconds; they found the first matching trace, and marked exactly those                *)
P22 == \A q \in DOMAIN m.q :
    LET k == m.q[q] IN
    /\ k.over = (Invalid(q) \/ OverAt(q) # 0)
    /\ Invalid(q) \/ LET o == OverAt(q) IN
         /\ o # 0 => k.failed = (BreakAt(q) # 0 /\ BreakAt(q) < o)
         /\ ~k.failed => k.pings = Beats(q, IF o = 0 THEN Len(h) ELSE o) \/ BreakAt(q) # 0
         /\ (k.kind = "remote" /\ o # 0 /\ AnswerAt(q) = o) => k.ans = h[o].tr
         /\ (k.kind = "json" /\ o # 0 /\ AnswerAt(q) = o) => h[First1(Hits(q))].s \in {r.s : r \in CSpans(k.c, Par(m))}
Marks ==
    LET found == {q \in DOMAIN m.q : ~Invalid(q) /\ m.q[q].kind = "remote" /\ AnswerAt(q) # 0 /\ AnswerAt(q) = OverAt(q)} IN
    /\ m.sampled = {h[AnswerAt(q)].tr : q \in found}
    /\ Len(m.cbs) = Cardinality({q \in found : h[AnswerAt(q)].tr = 1}) /\ \A i \in DOMAIN m.cbs : m.cbs[i] = 1
=============================================================================
