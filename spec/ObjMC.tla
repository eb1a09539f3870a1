-------------------------------- MODULE ObjMC --------------------------------
(* The sequential object specifications (the ones Lin checks concurrent histories *)
(* against) as bounded state machines: every sequence of at most Depth effects    *)
(* over a small alphabet.                                                         *)
(*   - The listed properties are checked on them, stated over the recorded history *)
(*     of effects and results (h) alone.                                           *)
(*   - With Emit, every transition is printed as a program, which check.py has     *)
(*     run on the real code (driver obj.gen) and LinTrace judge.                    *)
EXTENDS LinObjects, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Emit
VARIABLES s, prog, h
vars == <<s, prog, h>>

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]

Alphabet ==
    CASE Object = "counter" -> [o : {"inc", "dec", "set"}, v : {-2, 0, 1}] \cup {[o |-> "reset"]}
      [] Object = "meter" -> [o : {"mark"}, m : {1}, v : {1, -2}] \cup {[o |-> "mark", m |-> 2, v |-> 1]} \cup [o : {"reset", "settotal"}, m : {1}, v : {5}]
                             \cup {[o |-> "tick"], [o |-> "adv", d |-> 2]}
      [] Object = "scope" -> [o : {"get"}, key : {"a", "b"}, kind : {"Counter", "Meter"}, got : {<<-1>>, <<1>>, <<2>>, <<3>>}]
                             \cup [o : {"list"}, kind : {"Counter", "Meter"}, got : Seqs(1..3, 2)]
      [] Object = "val" -> [o : {"obs"}, v : {-4, 0, 8}] \cup {[o |-> "reset"]}
      [] Object = "delta" -> [o : {"total"}, d : {1, 2}, key : {"a", "b"}, v : {0, 3}] \cup [o : {"other"}, d : {1}, key : {"a"}, field : {"count"}, v : {1}]
      [] Object = "errname" -> [o : {"add"}, claims : {<<>>, <<1>>, <<1, 2>>}, name : {"h" \o ToString(Len(h))}]
                               \cup [o : {"fail"}, x : {1, 2}, own : {"", "own"}, builtin : {"built in"}]

Do(x, e) ==
    CASE Object = "meter" /\ e.o = "tick" ->
            {[st |-> b.st, res |-> <<0>>] : b \in UNION {MeterStep(a.st, [o |-> "tick", m |-> 2]) : a \in MeterStep(x, [o |-> "tick", m |-> 1])}}
      [] OTHER -> ObjStep(x, e)

\* what effect e would show now
Ask(e) == LET r == ObjStep(s, e) IN (CHOOSE y \in r : TRUE).res

\* fewer slices, for checking the window
FewSlices == 2

Init == s \in ObjInit([k |-> "h"]) /\ prog = <<>> /\ h = <<>>
Next ==
    /\ Len(prog) < Depth
    /\ \E e \in Alphabet : \E r \in Do(s, e) :
         /\ s' = r.st
         /\ prog' = Append(prog, e)
         /\ h' = Append(h, [e |-> e, res |-> r.res])
         /\ Emit => PrintT("PROG " \o ToJson(prog'))
Spec == Init /\ [][Next]_vars

\* positions of h at which P holds; the last one, or 0
At(P(_)) == {i \in DOMAIN h : P(h[i])}

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Last(S) == IF S = {} THEN 0 ELSE MaxOf(S)
RECURSIVE Sum(_)
Sum(f) == IF DOMAIN f = {} THEN 0 ELSE LET i == CHOOSE i \in DOMAIN f : TRUE IN f[i] + Sum([j \in DOMAIN f \ {i} |-> f[j]])

----------------------------------------------------------------------------
(* C11: the value is the last one set plus all that was added since; highest and  *)
(* lowest are those of the values taken since the last reset                      *)
Resets(i) == {j \in 1..i : h[j].e.o = "reset"}
RECURSIVE ValueAfter(_)
ValueAfter(i) ==
    LET from == Last({j \in 1..i : h[j].e.o \in {"set", "reset"}})
        base == IF from = 0 \/ h[from].e.o = "reset" THEN 0 ELSE h[from].e.v
    IN base + Sum([j \in (from + 1)..i |-> IF h[j].e.o = "inc" THEN h[j].e.v ELSE -h[j].e.v])
Taken(i) == {ValueAfter(j) : j \in (Last(Resets(i)) + 1)..i}
P11 ==
    LET n == Len(h)
        hi(i) == IF Taken(i) = {} THEN 0 ELSE MaxOf(Taken(i))
        lo(i) == IF Taken(i) = {} THEN 0 ELSE MinOf(Taken(i)) IN
    /\ Ask([o |-> "cur"]) = <<ValueAfter(n)>>
    /\ Ask([o |-> "high"]) = <<hi(n)>> /\ Ask([o |-> "low"]) = <<lo(n)>>
    /\ Ask([o |-> "stats"]) = <<ValueAfter(n)>> \o (IF Taken(n) = {} THEN <<NaN, NaN>> ELSE <<lo(n), hi(n)>>)
    /\ \A i \in DOMAIN h :
         CASE h[i].e.o \in {"inc", "dec"} -> h[i].res = <<ValueAfter(i)>>
           [] h[i].e.o = "set" -> h[i].res = <<ValueAfter(i - 1)>>
           [] h[i].e.o = "reset" -> h[i].res = <<ValueAfter(i - 1), lo(i - 1), hi(i - 1)>>

(* C12: a meter's total is what it was told to start from and all that was marked  *)
(* since, whatever has left the window; its rate is what was marked in the last      *)
(* MSlices active slices, over their age                                            *)
Now(i) == Sum([j \in {k \in 1..i : h[k].e.o = "adv"} |-> h[j].e.d])
Marks(m, a, b) == Sum([j \in {k \in a..b : h[k].e.o = "mark" /\ h[k].e.m = m} |-> h[j].e.v])
LastReset(m, i) == Last({j \in 1..i : h[j].e.o = "reset" /\ h[j].e.m = m})
\* the ticks that opened a slice, in order
RECURSIVE Active(_, _)
Active(m, i) ==
    IF i = LastReset(m, i) THEN <<>>
    ELSE LET before == Active(m, i - 1)
             open == IF before = <<>> THEN LastReset(m, i) ELSE before[Len(before)] IN
         IF h[i].e.o = "tick" /\ Marks(m, open + 1, i) # 0 THEN Append(before, i) ELSE before
\* where the window begins
WinFrom(m, i) == LET a == Active(m, i) IN IF Len(a) < MSlices THEN LastReset(m, i) ELSE a[Len(a) - MSlices + 1]
Win(m, i) == Marks(m, WinFrom(m, i) + 1, i)
RECURSIVE TotalAt(_, _)
TotalAt(m, i) ==
    IF i = 0 THEN 0
    ELSE CASE h[i].e.o = "reset" /\ h[i].e.m = m -> h[i].e.v
           [] h[i].e.o = "settotal" /\ h[i].e.m = m -> h[i].e.v + Win(m, i)
           [] h[i].e.o = "mark" /\ h[i].e.m = m -> TotalAt(m, i - 1) + h[i].e.v
           [] OTHER -> TotalAt(m, i - 1)
P12 == \A m \in {1, 2} :
    LET n == Len(h)
        age == Now(n) - Now(WinFrom(m, n)) IN
    /\ Ask([o |-> "total?", m |-> m]) = <<TotalAt(m, n)>>
    /\ MWindow(s.m[m]) = Win(m, n) /\ MAge(s, s.m[m]) = age
    /\ MRate(s, s.m[m]) = IF age > 0 THEN <<Win(m, n), age>> ELSE <<0, 0>>

(* C10: one object per key, of the kind first asked for; other kinds are refused;   *)
(* a listing has every object once                                                 *)
Gets == At(LAMBDA x : x.e.o = "get")
P10 ==
    /\ \A i, j \in Gets : i < j /\ h[i].res # <<-1>> /\ h[j].e.key = h[i].e.key =>
          h[j].res = IF h[j].e.kind = h[i].e.kind THEN h[i].res ELSE <<-1>>
    /\ \A i, j \in Gets : h[i].e.key # h[j].e.key /\ h[i].res # <<-1>> => h[i].res # h[j].res
    /\ \A j \in Gets : h[j].res = <<-1>> => \E i \in Gets : i < j /\ h[i].e.key = h[j].e.key /\ h[i].e.kind # h[j].e.kind /\ h[i].res # <<-1>>
    /\ \A l \in At(LAMBDA x : x.e.o = "list") :
          /\ {h[l].res[k] : k \in DOMAIN h[l].res} = {h[i].res[1] : i \in {i \in Gets : i < l /\ h[i].e.kind = h[l].e.kind /\ h[i].res # <<-1>>}}
          /\ Distinct(h[l].res)

(* C13: exact summaries; a quantile is between the extremes, grows with its rank,    *)
(* and at least (at most) its share of the observations is not above (below) it      *)
Kept == {i \in DOMAIN h : h[i].e.o = "obs" /\ i > Last(Resets(Len(h)))}
P13 ==
    LET n == Cardinality(Kept)
        vs == {h[i].e.v : i \in Kept}
        q(k) == Ask([o |-> "quant", q |-> k, got |-> <<0>>])[1] IN
    /\ Ask([o |-> "count"]) = <<n>>
    /\ Ask([o |-> "sum"]) = IF n = 0 THEN <<0, 0, 0, 0, 0>>
          ELSE <<n, Sum([i \in Kept |-> h[i].e.v]), MinOf(vs), MaxOf(vs), h[MaxOf(Kept)].e.v>>
    /\ n > 0 => q(0) = 4 * MinOf(vs) /\ q(4) = 4 * MaxOf(vs)
    /\ \A k \in 0..3 : q(k) <= q(k + 1)
    /\ n > 0 => \A k \in 0..4 :
          \* the observations strictly below have a rank of at most k/4 of the way, those not above reach it
          /\ Cardinality({i \in Kept : 4 * h[i].e.v < q(k)}) <= 1 + (k * (n - 1)) \div 4
          /\ Cardinality({i \in Kept : 4 * h[i].e.v <= q(k)}) >= 1 + (k * (n - 1)) \div 4

(* C21: every total is passed on, and from the second on with the change since the   *)
(* previous one of that series in that transformer; the changes add up               *)
Of(d, key) == At(LAMBDA x : x.e.o = "total" /\ x.e.d = d /\ x.e.key = key)
P21 == \A d \in {1, 2}, key \in {"a", "b"} :
    LET S == Of(d, key) IN
    /\ \A i \in S : h[i].res[1] = <<"total", h[i].e.v>> /\ Len(h[i].res) = IF i = MinOf(S) THEN 1 ELSE 2
    /\ S # {} => Sum([i \in S \ {MinOf(S)} |-> h[i].res[2][2]]) = h[MaxOf(S)].e.v - h[MinOf(S)].e.v
    /\ \A i \in At(LAMBDA x : x.e.o = "other") : h[i].res = << <<h[i].e.field, h[i].e.v>> >>

(* C16: the handler added last among those that claim an error names it; then the    *)
(* error itself; then the built-in names                                            *)
P16 == \A i \in At(LAMBDA x : x.e.o = "fail") :
    LET x == h[i].e.x
        who == {j \in 1..(i - 1) : h[j].e.o = "add" /\ \E k \in DOMAIN h[j].e.claims : h[j].e.claims[k] = x} IN
    h[i].res = <<IF who # {} THEN h[MaxOf(who)].e.name ELSE IF h[i].e.own # "" THEN h[i].e.own ELSE h[i].e.builtin>>
=============================================================================
