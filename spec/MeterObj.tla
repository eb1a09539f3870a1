------------------------------ MODULE MeterObj ------------------------------
(* Two meters and their difference.  A meter is a base total and a window of   *)
(* MSlices slices (oldest first), each with the time it began and its count.   *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

MSlices == 24
MNew(now) == [base |-> 0, win |-> [i \in 1..MSlices |-> [n |-> 0, at |-> now]]]
MeterInit == [m |-> <<MNew(0), MNew(0)>>, now |-> 0, tmp |-> [x \in {} |-> 0]]

RECURSIVE MSum(_, _)
MSum(win, k) == IF k = 0 THEN 0 ELSE win[k].n + MSum(win, k - 1)
MWindow(x) == MSum(x.win, MSlices)
MTotal(x) == x.base + MWindow(x)
MAge(s, x) == s.now - x.win[1].at

MTick(x, now) ==
    IF x.win[MSlices].n = 0 THEN x
    ELSE [base |-> x.base + x.win[1].n,
          win |-> [i \in 1..MSlices |-> IF i = MSlices THEN [n |-> 0, at |-> now] ELSE x.win[i + 1]]]

MOne(s, r) == {[st |-> s, res |-> r]}
\* amount in the window and its age, or nothing if the window is empty of time
MRate(s, x) == IF MAge(s, x) > 0 THEN <<MWindow(x), MAge(s, x)>> ELSE <<0, 0>>
MSame(a, b) == \* equal fractions
    IF a[2] = 0 \/ b[2] = 0 THEN a[1] = b[1] ELSE a[1] * b[2] = b[1] * a[2]

\* the difference of two rates, settled when the windows are equally old (the others
\* would need larger numbers than TLC has)
MDiffRate(s, a, b, got) ==
    IF MAge(s, a) # MAge(s, b) THEN TRUE
    ELSE MSame(got, IF MAge(s, a) > 0 THEN <<MWindow(a) - MWindow(b), MAge(s, a)>> ELSE <<0, 0>>)

MeterStep(s, e) ==
    CASE e.o = "mark"   -> MOne([s EXCEPT !.m[e.m].win[MSlices].n = @ + e.v], <<0>>)
      [] e.o = "reset"  -> MOne([s EXCEPT !.m[e.m] = [MNew(s.now) EXCEPT !.base = e.v]], <<0>>)
      [] e.o = "settotal" -> MOne([s EXCEPT !.m[e.m].base = e.v], <<0>>)
      [] e.o = "tick"   -> MOne([s EXCEPT !.m[e.m] = MTick(@, s.now)], <<0>>)
      [] e.o = "adv"    -> MOne([s EXCEPT !.now = @ + e.d], <<0>>)
      [] e.o = "total?" -> MOne(s, <<MTotal(s.m[e.m])>>)
      [] e.o = "rate"   -> IF MSame(e.got, MRate(s, s.m[e.m])) THEN MOne(s, e.got) ELSE {}
      [] e.o = "drate"  -> IF MDiffRate(s, s.m[1], s.m[2], e.got) THEN MOne(s, e.got) ELSE {}
      \* the two halves of a difference: whichever comes second settles it
      [] e.o = "half"   ->
           LET v == (IF e.m = 1 THEN 1 ELSE -1) * MTotal(s.m[e.m]) IN
           IF e.op \notin DOMAIN s.tmp THEN MOne([s EXCEPT !.tmp = (e.op :> v) @@ @], <<0>>)
           ELSE IF s.tmp[e.op] + v # e.got[1] THEN {}
           ELSE MOne([s EXCEPT !.tmp = [x \in DOMAIN @ \ {e.op} |-> @[x]]], <<0>>)
=============================================================================
