-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* Distributions of observations, as sequences of the observations made     *)
(* since construction or reset.  A summary (count, sum, extremes, most      *)
(* recent) is exact.  Quantiles and the sample's average are of all         *)
(* observations while there are at most Keep, and of Keep of them, each     *)
(* used at most once, beyond that.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Keep == 64
DRange(q) == {q[i] : i \in DOMAIN q}
Abs(x) == IF x < 0 THEN -x ELSE x
DMin(a, b) == IF a < b THEN a ELSE b
DMax(a, b) == IF a > b THEN a ELSE b

\* all: the observations in order
None == [all |-> <<>>, sum |-> 0, lo |-> 0, hi |-> 0]
N(s) == Len(s.all)
\* the observations v, v + 1, ..., v + n - 1
Run(s, v, n) == [all |-> s.all \o [i \in 1..n |-> v + i - 1], sum |-> s.sum + n * v + (n * (n - 1)) \div 2,
                 lo |-> IF s.all = <<>> THEN v ELSE DMin(s.lo, v),
                 hi |-> IF s.all = <<>> THEN v + n - 1 ELSE DMax(s.hi, v + n - 1)]
Summary(s) == IF s.all = <<>> THEN <<0, 0, 0, 0, 0>> ELSE <<N(s), s.sum, s.lo, s.hi, s.all[N(s)]>>

Kth(q, k) == CHOOSE v \in DRange(q) :
                 /\ Cardinality({i \in DOMAIN q : q[i] < v}) < k
                 /\ Cardinality({i \in DOMAIN q : q[i] <= v}) >= k
\* d times the quantile k/d of all of q, by linear interpolation
Quant(q, k, d) ==
    IF Len(q) = 0 THEN 0
    ELSE IF k <= 0 THEN Kth(q, 1) * d
    ELSE IF k >= d THEN Kth(q, Len(q)) * d
    ELSE LET x == k * (Len(q) - 1)
             i == x \div d
             r == x % d
             a == Kth(q, i + 1)
         IN IF r = 0 THEN a * d ELSE a * d + r * (Kth(q, i + 2) - a)

\* towards zero
Trunc(a, d) == IF a >= 0 THEN a \div d ELSE -((-a) \div d)

\* got is d times the answer; whole: answers are cut to whole numbers;
\* tol: how far (in units of 1/d) rounding of k/d itself may take it
QuantOK(s, k, d, got, whole, tol) ==
    IF N(s) > Keep THEN got >= s.lo * d /\ got <= s.hi * d
    ELSE LET x == Quant(s.all, k, d) IN
         IF ~whole THEN Abs(got - x) <= tol
         ELSE got = Trunc(x, d) * d \/ (tol > 0 /\ Abs(got - x) <= d)

\* got is 10^4 times an average of all observations
AvgOK(s, got, whole) ==
    IF N(s) = 0 THEN got = 0
    ELSE IF whole THEN got = Trunc(s.sum, N(s)) * 10000
    ELSE Abs(got * N(s) - s.sum * 10000) <= 2 * N(s)
\* ... of those that are kept
SampleAvgOK(s, got, whole) ==
    IF N(s) > Keep THEN got >= s.lo * 10000 - 2 /\ got <= s.hi * 10000 + 2 ELSE AvgOK(s, got, whole)

Monotone(q) == \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
\* c is contained in q, each element used at most once
SubBag(c, q) == \A v \in DRange(c) : Cardinality({i \in DOMAIN c : c[i] = v}) <= Cardinality({i \in DOMAIN q : q[i] = v})
=============================================================================
