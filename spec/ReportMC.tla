------------------------------- MODULE ReportMC -------------------------------
(* Registering sources, chains and views as a bounded state machine.  C14 is stated  *)
(* over the history: what was registered, and which rows the report has for it.       *)
EXTENDS ReportRules
CONSTANTS Depth
VARIABLES h
vars == <<m, h>>

Scopes == {"s", "r"}
Ops ==
    {[o |-> "scope", s |-> s, b |-> <<1>>] : s \in Scopes}
    \cup UNION {LET x == [s |-> s, tags |-> <<>>, name |-> "a", kind |-> "counter"] IN
         {[o |-> "metric"] @@ x, [o |-> "metric", tags |-> << <<"k", "1">>, <<"k", "2">> >>] @@ x,
          [o |-> "gauge", name |-> "g", kind |-> "gauge", v |-> 2] @@ x, [o |-> "gauge", name |-> "g", kind |-> "gauge", v |-> 4] @@ x,
          [o |-> "chain", s |-> s, c |-> [t |-> "rows", rows |-> <<[m |-> "c", tags |-> << <<"scope", "own">> >>, f |-> "f", v |-> 6]>>]],
          [o |-> "chain", s |-> s, c |-> [t |-> "trans", ts |-> <<2>>, src |-> [t |-> "struct", m |-> "st", tags |-> <<>>,
              sub |-> <<[n |-> "x", ign |-> FALSE, t |-> "num", v |-> 8, sub |-> <<>>], [n |-> "y", ign |-> TRUE, t |-> "num", v |-> 8, sub |-> <<>>]>>]]]}
         : s \in DOMAIN m.sc}
    \cup (IF Cardinality(DOMAIN m.view) > 2 THEN {} ELSE
          {[o |-> "view", id |-> Cardinality(DOMAIN m.view), of |-> v, ts |-> q] : v \in DOMAIN m.view, q \in {<<1>>, <<0, 2>>}})

Init == m = M0 /\ h = <<>>
Next == Len(h) < Depth /\ \E e \in Ops : m' = Apply(e) /\ h' = Append(h, e)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Rep(v) == TransAll(RegistryRows(m.sc, DOMAIN m.sc), m.view[v])
Tag(r, k) == IF \E p \in r.tags : p[1] = k THEN (CHOOSE p \in r.tags : p[1] = k)[2] ELSE ""
Pos(P(_)) == {i \in DOMAIN h : P(h[i])}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

(* C14, the untransformed report *)
Plain ==
    LET rows == Rep(0)
        N(s, name, f, k) == Cardinality({i \in DOMAIN rows : rows[i].m = name /\ rows[i].f = f /\ Tag(rows[i], "scope") = s /\ Tag(rows[i], "k") = k})
        V(s, name) == {rows[i].v : i \in {j \in DOMAIN rows : rows[j].m = name /\ Tag(rows[j], "scope") = s}}
        Was(s, o, name, q) == Pos(LAMBDA e : e.o = o /\ e.s = s /\ e.name = name /\ e.tags = q)
        One(S) == IF S = {} THEN 0 ELSE 1 IN
    /\ \A s \in Scopes :
        \* a metric of a name and tags is there once, however often it was asked for
        /\ \A f \in {"high", "low", "value"} :
              /\ N(s, "a", f, "") = One(Was(s, "metric", "a", <<>>))
              /\ N(s, "a", f, "2") = One(Was(s, "metric", "a", << <<"k", "1">>, <<"k", "2">> >>))
        \* a gauge is there once, as last given
        /\ LET g == Was(s, "gauge", "g", <<>>) IN N(s, "g", "value", "") = One(g) /\ (g # {} => V(s, "g") = {h[Max(g)].v})
        \* every chained source is there as often as it was chained, under this scope's name
        /\ N(s, "c", "f", "") = Cardinality(Pos(LAMBDA e : e.o = "chain" /\ e.s = s /\ e.c.t = "rows"))
        /\ N(s, "st", "x", "") = Cardinality(Pos(LAMBDA e : e.o = "chain" /\ e.s = s /\ e.c.t = "trans"))
        /\ V(s, "st") \subseteq {8 + 4000}
    \* and nothing else
    /\ \A i \in DOMAIN rows : Tag(rows[i], "scope") \in Scopes /\ <<rows[i].m, rows[i].f>> \in {"a"} \X {"high", "low", "value"} \cup {<<"g", "value">>, <<"c", "f">>, <<"st", "x">>}

\* the transformers of a view, first one first
RECURSIVE Stack(_)
Stack(v) == IF v = 0 THEN <<>> ELSE LET e == CHOOSE x \in RangeOf(h) : x.o = "view" /\ x.id = v IN Stack(e.of) \o e.ts
Times(q, i) == Cardinality({k \in DOMAIN q : q[k] = i})
(* C14, views: every value is transformed by the view's own transformers and by no others *)
Views == \A v \in DOMAIN m.view :
    LET q == Stack(v)
        base == Rep(0)
        rows == Rep(v)
        dup == 2 ^ Times(q, 0) IN
    /\ Len(rows) = Len(base) * dup
    /\ \A i \in {1, 2} : \A k \in DOMAIN rows : rows[k].m # "st" => Tag(rows[k], Tn(i)) = IF Times(q, i) > 0 THEN "1" ELSE ""
    /\ \A x \in {"g", "c"} :
         {rows[k].v : k \in {j \in DOMAIN rows : rows[j].m = x}} = {base[k].v + 2000 * (Times(q, 1) + 2 * Times(q, 2)) : k \in {j \in DOMAIN base : base[j].m = x}}
P14 == Plain /\ Views
=============================================================================
