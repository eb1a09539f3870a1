-------------------------------- MODULE HopMC --------------------------------
(* A trace travelling through a chain of processes as a bounded state machine: a      *)
(* client under a span writes headers, one byte of them may be changed or lost on      *)
(* the way, a traced server reads them and runs under a span of its own.  C17 is       *)
(* stated over what was sent and served.                                              *)
EXTENDS Hop
CONSTANTS MaxHops
VARIABLES at, wire, sent, hops, broken
vars == <<at, wire, sent, hops, broken>>

Id(n) == CASE n = 1 -> [i \in 1..16 |-> 15] [] n = 2 -> [i \in 1..16 |-> IF i = 1 THEN 8 ELSE 0] [] OTHER -> [i \in 1..16 |-> IF i = 16 THEN n ELSE 0]
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Text(h) == [i \in DOMAIN h |-> Digit(h[i])]
\* leading zeros may be left out, down to eight digits
Short(h) == IF Len(h) > 8 /\ Head(h) = 0 THEN LET s == StripZeros(h) IN IF Len(s) < 8 THEN SubSeq(h, 9, 16) ELSE s ELSE h
Write(i) == IF i.tid # <<>> /\ i.pid # <<>>
            THEN [tp |-> <<48, 48, 45>> \o Text(i.tid) \o <<45>> \o Text(Short(i.pid)) \o <<45>> \o <<IF i.sampled THEN 49 ELSE 48>>, ts |-> <<>>]
            ELSE [tp |-> <<>>, ts |-> IF i.sampled THEN SampledTrue ELSE <<>>]

\* where the work is now: its trace, span, the span's parent if it has one
Init == /\ \E s \in BOOLEAN, t \in 1..2 : at = [tid |-> Id(t), sid |-> Id(1), pid |-> <<>>, sampled |-> s]
        /\ wire = <<>> /\ sent = <<>> /\ hops = <<>> /\ broken = FALSE

Send == /\ wire = <<>> /\ Len(hops) < MaxHops
        /\ \E own \in BOOLEAN :      \* with a span of its own below the current one, or not
             LET c == IF own THEN [at EXCEPT !.sid = Id(3 + 3 * Len(hops)), !.pid = at.sid] ELSE at IN
             /\ sent' = Append(sent, c)
             /\ wire' = <<Write(Sends(c))>>
        /\ UNCHANGED <<at, hops, broken>>

Change(b, i, c) == [b EXCEPT ![i] = c]
Drop(b, i) == SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
Damage == /\ wire # <<>> /\ ~broken
          /\ broken' = TRUE
          /\ \E i \in DOMAIN wire[1].tp :
               wire' = <<[wire[1] EXCEPT !.tp = Drop(@, i)]>> \/ \E c \in {48, 70, 103, 45} : wire' = <<[wire[1] EXCEPT !.tp = Change(@, i, c)]>>
          /\ UNCHANGED <<at, sent, hops>>

Serve == /\ wire # <<>>
         /\ LET i == Parse(wire[1].tp, wire[1].ts)
                n == 4 + 3 * Len(hops) IN
            /\ at' = [tid |-> IF i.has THEN i.tid ELSE Id(n), sid |-> Id(n + 1), pid |-> IF i.has THEN i.pid ELSE <<>>, sampled |-> i.sampled]
            /\ hops' = Append(hops, [at |-> at', clean |-> ~broken, info |-> i])
         /\ wire' = <<>> /\ UNCHANGED <<sent, broken>>
Next == Send \/ Damage \/ Serve
Spec == Init /\ [][Next]_vars

CallerOf(c) == IF c.pid # <<>> THEN c.pid ELSE c.sid
(* C17 *)
P17 == \A k \in DOMAIN hops :
    LET c == sent[k] s == hops[k].at i == hops[k].info IN
    \* an undamaged sampled request carries on its caller's trace, under the caller's span
    /\ hops[k].clean /\ c.sampled => s.tid = c.tid /\ s.pid = CallerOf(c) /\ s.sampled
    \* one of a trace that is not sampled carries nothing: the server begins afresh
    /\ hops[k].clean /\ ~c.sampled => s.tid # c.tid /\ s.pid = <<>> /\ ~s.sampled
    \* whatever happened to it, nothing is made up: there is no trace, or at most one of its parts is damaged
    /\ i.has => /\ c.sampled
                /\ Cardinality({x \in 1..3 : CASE x = 1 -> i.tid # c.tid [] x = 2 -> i.pid # CallerOf(c) [] x = 3 -> i.sampled # c.sampled}) <= 1
    /\ i.has => Len(i.tid) = 16 /\ Len(i.pid) = 16
    /\ ~i.has => i.tid = <<>> /\ i.pid = <<>> /\ s.tid \notin {sent[j].tid : j \in 1..k}
\* the whole undamaged chain of a sampled trace is one trace
OneTrace == (sent # <<>> /\ sent[1].sampled /\ ~broken) => \A k \in DOMAIN hops : hops[k].at.tid = sent[1].tid
=============================================================================
