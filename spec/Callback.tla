------------------------------- MODULE Callback -------------------------------
(* Operations that call back.  While an operation visits things (the sources of   *)
(* a report, the spans of a listing, the observers of a span, ...) and hands each  *)
(* to the user's code, that code may itself do anything: open calls nest.  Every   *)
(* call that begins returns; a visit to things of one kind hands over each thing    *)
(* that was there throughout exactly once, and no thing twice or that never was.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* stack: the open calls, innermost last; things: [thing -> kind] now; n: how often
\* each metric was updated
Cb0 == [stack |-> <<>>, things |-> [x \in {} |-> ""], n |-> [x \in {} |-> 0]]

There(w, kind) == {x \in DOMAIN w.things : w.things[x] = kind}
Top(w) == w.stack[Len(w.stack)]

Begin(w, id, kind) ==
    [w EXCEPT !.stack = Append(@, [id |-> id, kind |-> kind, seen |-> <<>>,
        all |-> There(w, kind), ever |-> There(w, kind)])]

\* a thing appears or goes: open calls that visit its kind may or may not hand it over
Appear(w, x, kind) ==
    [w EXCEPT !.things = (x :> kind) @@ @,
              !.stack = [i \in DOMAIN @ |-> IF @[i].kind = kind THEN [@[i] EXCEPT !.ever = @ \cup {x}] ELSE @[i]]]
Vanish(w, x) ==
    [w EXCEPT !.things = [y \in DOMAIN @ \ {x} |-> @[y]],
              !.stack = [i \in DOMAIN @ |-> [@[i] EXCEPT !.all = @ \ {x}]]]

Visit(w, id, x) ==
    [w EXCEPT !.stack = [i \in DOMAIN @ |-> IF @[i].id = id THEN [@[i] EXCEPT !.seen = Append(@, x)] ELSE @[i]]]

Touch(w, m) == [w EXCEPT !.n = (m :> (IF m \in DOMAIN @ THEN @[m] ELSE 0) + 1) @@ @]
Count(w, m) == IF m \in DOMAIN w.n THEN w.n[m] ELSE 0

Return(w) == [w EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]

JudgeVisit(w, id, x) ==
    IF w.stack = <<>> \/ Top(w).id # id THEN "a callback came from a call that is not the innermost open one"
    ELSE IF x \in {Top(w).seen[i] : i \in DOMAIN Top(w).seen} THEN "something was handed over twice"
    ELSE IF x \notin Top(w).ever THEN "something was handed over that was not there" ELSE ""

JudgeReturn(w, id) ==
    IF w.stack = <<>> \/ Top(w).id # id THEN "calls did not return in order"
    ELSE IF ~(Top(w).all \subseteq {Top(w).seen[i] : i \in DOMAIN Top(w).seen}) THEN "something there throughout was not handed over" ELSE ""
=============================================================================
