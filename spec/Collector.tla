------------------------------ MODULE Collector ------------------------------
(* What one span collector holds.  check: 0 before a trigger is chosen, the     *)
(* trigger while collecting, -1 when done.  fins: what finished meanwhile, in   *)
(* order.  root: the trigger's own record once it has finished (else <<>>).      *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

CollectorNew == [check |-> 0, fins |-> <<>>, root |-> <<>>]

\* a span that matches starts, or collection is forced
CBegin(c, s) == IF c.check = 0 THEN [c EXCEPT !.check = s] ELSE c
CStop(c) == [c EXCEPT !.check = -1]
\* r: record of a finished span, of trace tr; ttr: the trace of the trigger
CFinish(c, r, same) ==
    IF c.check <= 0 \/ ~same \/ c.root # <<>> THEN c
    ELSE IF r.s = c.check THEN [c EXCEPT !.root = <<r>>, !.check = -1]
    ELSE [c EXCEPT !.fins = Append(@, r)]

\* records connected to the trigger through records; par(s): the parent of span s
RECURSIVE CGrow(_, _, _)
CGrow(c, par, have) ==
    LET more == {r \in {c.fins[i] : i \in DOMAIN c.fins} : r \notin have /\ \E x \in have : x.s = par[r.s]} IN
    IF more = {} THEN have ELSE CGrow(c, par, have \cup more)
CSpans(c, par) == IF c.root = <<>> THEN {} ELSE CGrow(c, par, {c.root[1]})
=============================================================================
