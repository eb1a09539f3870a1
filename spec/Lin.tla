-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* A deterministic monitor for concurrent histories.  An operation is a     *)
(* call event, carrying one or more atomic effects, and a return event;     *)
(* its results (one per effect) are shown with the call, as the history is  *)
(* complete when it is checked.  A history is allowed iff every effect can  *)
(* be placed at one instant between its operation's call and return (in     *)
(* the given order within an operation if ord is set) such that the         *)
(* sequential specification Step gives exactly the recorded results.        *)
(*                                                                          *)
(* Rather than search, the monitor carries the set of all configurations    *)
(* compatible with the history so far (the subset construction), so that    *)
(* checking is deterministic and the first impossible return is reported.   *)
(* A pure read (Reads) is placed as soon as its result fits: that never     *)
(* rules anything out.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Reads(_)        \* effects that never change the state
CONSTANT Step(_, _)      \* Step(state, effect) = set of [st |-> state', res |-> result]

NoOps == [x \in {} |-> x]

\* A configuration: abstract state and the effects already placed.
Conf(st) == [st |-> st, done |-> {}]

Open(c, pend) ==
    {x \in UNION {{<<id, k>> : k \in 1..Len(pend[id].subs)} : id \in DOMAIN pend} :
        /\ x \notin c.done
        /\ pend[x[1]].ord => \A j \in 1..(x[2] - 1) : <<x[1], j>> \in c.done}

\* the states effect x may lead to, given the result it had
After(st, pend, x) ==
    LET o == pend[x[1]] IN
    {r.st : r \in {y \in Step(st, o.subs[x[2]]) : o.known => y.res = o.res[x[2]]}}

RECURSIVE Absorb(_, _)
Absorb(c, pend) ==
    LET now == {x \in Open(c, pend) : Reads(pend[x[1]].subs[x[2]]) /\ After(c.st, pend, x) # {}} IN
    IF now = {} THEN c ELSE Absorb([c EXCEPT !.done = @ \cup now], pend)

PlaceOne(c, pend) ==
    UNION { { Absorb([st |-> s, done |-> c.done \cup {x}], pend) : s \in After(c.st, pend, x) } : x \in Open(c, pend) }

RECURSIVE Closure(_, _, _)
Closure(all, new, pend) ==
    IF new = {} THEN all
    ELSE LET more == UNION { PlaceOne(c, pend) : c \in new } \ all
         IN Closure(all \cup more, more, pend)

OnCall(pend, e) == (e.id :> [subs |-> e.subs, ord |-> e.ord, known |-> e.known, res |-> e.res]) @@ pend

OnReturn(confs, pend, e) ==
    LET first == {Absorb(c, pend) : c \in confs}
        want == {<<e.id, k>> : k \in 1..Len(pend[e.id].subs)} IN
    { [c EXCEPT !.done = @ \ want] : c \in { d \in Closure(first, first, pend) : want \subseteq d.done } }

Drop(pend, id) == [x \in DOMAIN pend \ {id} |-> pend[x]]
=============================================================================
