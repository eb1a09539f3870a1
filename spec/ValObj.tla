------------------------------- MODULE ValObj -------------------------------
(* A distribution of observations: exact count, sum, extremes and most recent  *)
(* value, and quantiles of the observations kept.  All of them are kept while  *)
(* there are at most VKeep.                                                    *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC

VKeep == 64
ValInit == [n |-> 0, sum |-> 0, lo |-> 0, hi |-> 0, rec |-> 0, all |-> <<>>,
            t |-> 0, f |-> 0, br |-> 0, stopped |-> {}]
VaOne(s, r) == {[st |-> s, res |-> r]}

VIns(s, v) == [s EXCEPT !.n = @ + 1, !.sum = @ + v, !.rec = v,
                 !.lo = IF s.n = 0 \/ v < @ THEN v ELSE @,
                 !.hi = IF s.n = 0 \/ v > @ THEN v ELSE @,
                 !.all = IF Len(@) < VKeep THEN Append(@, v) ELSE @]

\* the k-th smallest (from 1) of q
VKth(q, k) == CHOOSE v \in {q[i] : i \in DOMAIN q} :
                 /\ Cardinality({i \in DOMAIN q : q[i] < v}) < k
                 /\ Cardinality({i \in DOMAIN q : q[i] <= v}) >= k
\* Quantile k/d of q by linear interpolation, times d; towards zero when it is an integer type
VQuant(q, k, d) ==
    IF Len(q) = 0 THEN 0
    ELSE IF k <= 0 THEN VKth(q, 1) * d
    ELSE IF k >= d THEN VKth(q, Len(q)) * d
    ELSE LET x == k * (Len(q) - 1)
             i == x \div d
             r == x % d
             a == VKth(q, i + 1)
         IN IF r = 0 THEN a * d ELSE a * d + r * (VKth(q, i + 2) - a)

ValStep(s, e) ==
    CASE e.o = "obs"   -> VaOne(VIns(s, e.v), <<0>>)
      [] e.o = "reset" -> VaOne([ValInit EXCEPT !.stopped = s.stopped], <<0>>)
      [] e.o = "sum"   -> VaOne(s, IF s.n = 0 THEN <<0, 0, 0, 0, 0>> ELSE <<s.n, s.sum, s.lo, s.hi, s.rec>>)
      [] e.o = "count" -> VaOne(s, <<s.n>>)
      \* quantile k/4: exact while everything is kept, else within the extremes
      [] e.o = "quant" -> IF s.n <= VKeep THEN VaOne(s, <<VQuant(s.all, e.q, 4)>>)
                          ELSE IF e.got[1] >= s.lo * 4 /\ e.got[1] <= s.hi * 4 THEN VaOne(s, e.got) ELSE {}
      \* booleans: two effects, and three reads
      [] e.o = "tally" -> VaOne(IF e.v = 1 THEN [s EXCEPT !.t = @ + 1] ELSE [s EXCEPT !.f = @ + 1], <<0>>)
      [] e.o = "brec"  -> VaOne([s EXCEPT !.br = e.v], <<0>>)
      [] e.o = "t?"    -> VaOne(s, <<s.t>>)
      [] e.o = "f?"    -> VaOne(s, <<s.f>>)
      [] e.o = "br?"   -> VaOne(s, <<s.br>>)
      [] e.o = "disp"  -> IF e.got[1] = e.got[2] - e.got[3] THEN VaOne(s, e.got) ELSE {}
      \* a running timer stops once
      [] e.o = "stop"  -> VaOne(IF e.tm \in s.stopped THEN s
                                ELSE [s EXCEPT !.n = @ + 1, !.stopped = @ \cup {e.tm}], <<0>>)
=============================================================================
