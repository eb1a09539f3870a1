-------------------------------- MODULE EnvMC --------------------------------
(* Collections and the reports of several runtime sources as a bounded state machine. *)
EXTENDS EnvObj, Integers, Sequences, FiniteSets
CONSTANTS Depth
VARIABLES s, h
vars == <<s, h>>
Init == s = EnvInit([k |-> "h"]) /\ h = <<>>
Ops == [o : {"gc"}, got : {<<1>>, <<2>>, <<5>>}] \cup [o : {"gcs"}, src : {1, 2}] \cup {[o |-> "numgc?"]} \cup [o : {"up"}, got : {<<0>>, <<3>>, <<4>>}]
Next == Len(h) < Depth /\ \E e \in Ops : \E r \in EnvStep(s, e) : s' = r.st /\ h' = Append(h, [e |-> e, res |-> r.res])
Spec == Init /\ [][Next]_vars

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Sum(_)
Sum(f) == IF DOMAIN f = {} THEN 0 ELSE LET i == CHOOSE i \in DOMAIN f : TRUE IN f[i] + Sum([j \in DOMAIN f \ {i} |-> f[j]])
GCs(i) == {j \in 1..i : h[j].e.o = "gc"}
Reports(x, i) == {j \in 1..i : h[j].e.o = "gcs" /\ h[j].e.src = x}
(* C23: what a source summarises are the last pauses before those of its reports that *)
(* followed a collection, each collection at most once and independently of the other *)
(* sources; the number of collections is exact; uptime never goes back                 *)
P23 ==
    /\ \A x \in {1, 2} : \A i \in Reports(x, Len(h)) :
         LET new == {j \in Reports(x, i) : LET b == Reports(x, j - 1) IN GCs(j) \ (IF b = {} THEN {} ELSE GCs(MaxOf(b))) # {}}
             p == [j \in new |-> h[MaxOf(GCs(j))].e.got[1]]
             vs == {p[j] : j \in new} IN
         h[i].res = IF new = {} THEN <<0, 0, 0, 0, 0>> ELSE <<Cardinality(new), Sum(p), MinOf(vs), MaxOf(vs), p[MaxOf(new)]>>
    /\ \A i \in DOMAIN h : h[i].e.o = "numgc?" => h[i].res = <<Cardinality(GCs(i))>>
    /\ \A i, j \in DOMAIN h : i < j /\ h[i].e.o = "up" /\ h[j].e.o = "up" => h[i].res[1] <= h[j].res[1]
=============================================================================
