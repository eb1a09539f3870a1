------------------------------ MODULE CallbackMC ------------------------------
(* How an operation that calls back has to work so that Callback's rules hold        *)
(* whatever the callbacks do: it takes a snapshot of what there is, holds nothing,     *)
(* and hands over the snapshot.  With Strategy "locked" it holds the lock of what it   *)
(* visits meanwhile, with "live" it walks what is there at each step: TLC finds the     *)
(* nesting that never returns, and the thing handed over twice or left out (see         *)
(* DESIGN.md; the checks run with "snapshot").                                          *)
EXTENDS Callback
CONSTANTS Strategy, MaxNest, MaxOps, Things
VARIABLES w, todo, bad, ops
vars == <<w, todo, bad, ops>>

Kinds == {"p", "q"}
KindOf(x) == IF x % 2 = 0 THEN "p" ELSE "q"
Seqs(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Busy(kind) == Strategy = "locked" /\ \E i \in DOMAIN w.stack : w.stack[i].kind = kind
Say(b) == bad' = IF bad # "" THEN bad ELSE b

Init == w = [Cb0 EXCEPT !.things = (2 :> "p") @@ (3 :> "q")] /\ todo = <<>> /\ bad = "" /\ ops = 0

\* inside the innermost callback, or outside of all of them, anything may be called
Call == /\ ops < MaxOps /\ Len(w.stack) < MaxNest
        /\ \E k \in Kinds : ~Busy(k) /\
             \E q \in Seqs(There(w, k)) :
               /\ w' = Begin(w, ops, k) /\ todo' = Append(todo, IF Strategy = "live" THEN <<>> ELSE q)
        /\ ops' = ops + 1 /\ UNCHANGED bad
Add == /\ ops < MaxOps
       /\ \E x \in Things \ DOMAIN w.things : ~Busy(KindOf(x)) /\ w' = Appear(w, x, KindOf(x))
       /\ ops' = ops + 1 /\ UNCHANGED <<todo, bad>>
Del == /\ ops < MaxOps
       /\ \E x \in DOMAIN w.things : ~Busy(KindOf(x)) /\ w' = Vanish(w, x)
       /\ ops' = ops + 1 /\ UNCHANGED <<todo, bad>>
Bump == ops < MaxOps /\ \E n \in Kinds : w' = Touch(w, n) /\ ops' = ops + 1 /\ UNCHANGED <<todo, bad>>
\* a callback that is over; the innermost operation goes on
Hand == /\ w.stack # <<>>
        /\ LET top == todo[Len(todo)] id == Top(w).id IN
           IF Strategy = "live"
           THEN \* a cursor among what is there now, in no order that lasts
                LET n == Len(Top(w).seen) IN n < Cardinality(There(w, Top(w).kind)) /\
                \E x \in There(w, Top(w).kind) : w' = Visit(w, id, x) /\ Say(JudgeVisit(w, id, x)) /\ UNCHANGED <<todo, ops>>
           ELSE /\ top # <<>>
                /\ w' = Visit(w, id, Head(top)) /\ Say(JudgeVisit(w, id, Head(top)))
                /\ todo' = [todo EXCEPT ![Len(todo)] = Tail(@)] /\ UNCHANGED ops
Ret == /\ w.stack # <<>>
       /\ IF Strategy = "live" THEN Len(Top(w).seen) >= Cardinality(There(w, Top(w).kind)) ELSE todo[Len(todo)] = <<>>
       /\ Say(JudgeReturn(w, Top(w).id))
       /\ w' = Return(w) /\ todo' = SubSeq(todo, 1, Len(todo) - 1) /\ UNCHANGED ops
Next == Call \/ Add \/ Del \/ Bump \/ Hand \/ Ret
Spec == Init /\ [][Next]_vars /\ WF_vars(Hand) /\ WF_vars(Ret)

\* C24: the rules hold, and whatever a callback may call, another operation on the same things can begin
P24 == bad = ""
Free == (ops < MaxOps /\ Len(w.stack) < MaxNest) => \A k \in Kinds : ENABLED (Call /\ w'.stack[Len(w'.stack)].kind = k)
\* every call that begins returns, once the callbacks stop calling
AllReturn == []<>(w.stack = <<>>)
=============================================================================
