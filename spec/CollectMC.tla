------------------------------ MODULE CollectMC ------------------------------
(* Sequential span collection as a bounded state machine: one collector (of one      *)
(* trace at a time, or of all of them), up to MaxSp spans in up to MaxTr traces,      *)
(* every sequence of up to Depth operations.  C09 is stated over the history alone.   *)
EXTENDS CollectRules, Json
CONSTANTS Depth, MaxSp, MaxTr, Emit
VARIABLES h
vars == <<m, h>>

C == 1
Spans == DOMAIN m.sp
Fresh == Cardinality(Spans) + 1
Trs == {m.sp[s].tr : s \in Spans}
Made == C \in DOMAIN m.co

Ops ==
    (IF Fresh > MaxSp THEN {} ELSE
        {[o |-> "start", s |-> Fresh, tr |-> m.sp[p].tr, par |-> p, f |-> f, announced |-> FALSE] : p \in Spans, f \in {1, 2}} \cup
        (IF Cardinality(Trs) >= MaxTr THEN {} ELSE
            {[o |-> "start", s |-> Fresh, tr |-> Cardinality(Trs) + 1, par |-> p, f |-> f, announced |-> TRUE] : f \in {1, 2},
                \* its parent may be said to be a span of another trace
                p \in {0} \cup {x \in Spans : m.sp[x].live}}))
    \cup {[o |-> "end", s |-> s, e |-> 0, p |-> 0, at |-> Len(h)] : s \in {x \in Spans : m.sp[x].live}}
    \cup (IF Made THEN {} ELSE {[o |-> "new", c |-> C, kind |-> "col", match |-> <<1>>, all |-> a] : a \in BOOLEAN})
    \cup (IF ~Made THEN {} ELSE
        {[o |-> "stop", c |-> C]} \cup {[o |-> "force", c |-> C, s |-> s] : s \in {x \in Spans : m.sp[x].live}}
        \cup (IF m.co[C].all THEN {[o |-> "unall", c |-> C]} ELSE {})
        \cup {[o |-> "obs", c |-> C, tr |-> x] : x \in Trs \ m.co[C].tr} \cup {[o |-> "unobs", c |-> C, tr |-> x] : x \in m.co[C].tr})

Init == m = M0 /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E e \in Ops : /\ m' = Apply(e) /\ h' = Append(h, e)
                          /\ Emit => PrintT("PROG " \o ToJson(h'))
Spec == Init /\ [][Next]_vars
\* programs that differ only in when spans ended lead to the same state
Timeless(r) == [r EXCEPT !.at = 0]
World == [m EXCEPT !.co = [c \in DOMAIN @ |-> [@[c] EXCEPT !.c.fins = [i \in DOMAIN @ |-> Timeless(@[i])], !.c.root = [i \in DOMAIN @ |-> Timeless(@[i])]]]]

----------------------------------------------------------------------------
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Pos == DOMAIN h
NewAt == MinOf({i \in Pos : h[i].o = "new"})
StartAt(s) == MinOf({i \in Pos : h[i].o = "start" /\ h[i].s = s})
EndAt(s) == IF \E i \in Pos : h[i].o = "end" /\ h[i].s = s THEN MinOf({i \in Pos : h[i].o = "end" /\ h[i].s = s}) ELSE 0
TrOf(s) == h[StartAt(s)].tr
ParOf(s) == h[StartAt(s)].par
LiveAt(tr, i) == \E s \in {h[j].s : j \in {k \in 1..i : h[k].o = "start"}} : TrOf(s) = tr /\ (EndAt(s) = 0 \/ EndAt(s) > i)
\* does the collector observe trace tr when operation i happens
Heard(tr, i) ==
    LET all == h[NewAt].all
        ons == {j \in 1..i : (h[j].o = "obs" /\ h[j].tr = tr) \/ (all /\ j = NewAt /\ LiveAt(tr, j))
                             \/ (all /\ j > NewAt /\ h[j].o = "start" /\ h[j].tr = tr /\ h[j].announced /\ \A k \in NewAt..j : h[k].o # "unall")}
        offs == {j \in 1..i : (h[j].o = "unobs" /\ h[j].tr = tr) \/ h[j].o = "unall"} IN
    NewAt < i /\ \E j \in ons : \A k \in offs : k < j
\* when collection began, if it did: the first span that matched, or was forced
Begins == {i \in Pos : i > NewAt /\ \/ h[i].o = "force"
                                    \/ h[i].o = "start" /\ h[i].f \in Range(h[NewAt].match) /\ Heard(h[i].tr, i)}
Stops == {i \in Pos : h[i].o = "stop"}
Began == Begins # {} /\ \A j \in Stops : j > MinOf(Begins)
Trig == h[MinOf(Begins)].s
\* the end of a span, if it was heard in the trigger's trace after the beginning and before any stop
Recorded(s) == /\ Began /\ EndAt(s) > MinOf(Begins) /\ TrOf(s) = TrOf(Trig) /\ Heard(TrOf(s), EndAt(s))
               /\ \A j \in Stops : j > EndAt(s)
Complete == Began /\ Recorded(Trig)
RECURSIVE Below(_)
Below(s) == s = Trig \/ (ParOf(s) # 0 /\ Recorded(ParOf(s)) /\ EndAt(ParOf(s)) <= EndAt(Trig) /\ Below(ParOf(s)))
P09 == Made =>
    LET k == m.co[C] IN
    /\ (k.c.check = -1) = (Complete \/ Stops # {})
    /\ {r.s : r \in CSpans(k.c, Par)} = IF Complete THEN {s \in Spans : Recorded(s) /\ EndAt(s) <= EndAt(Trig) /\ Below(s)} ELSE {}
    /\ \A a, b \in CSpans(k.c, Par) : a.s = b.s => a = b
\* what was collected stays collected
Stays == [][\A c \in DOMAIN m.co : LET q == CSpans(m.co[c].c, Par) IN q # {} => CSpans(m'.co[c].c, [s \in DOMAIN m'.sp |-> m'.sp[s].par]) = q]_vars
=============================================================================
