------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What a stats report contains: which rows (measurement, tags, field and,   *)
(* where this specification knows it, value) every kind of source gives, how  *)
(* scopes add their names and how transformers act on a view.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

With(f, k, v) == (k :> v) @@ f
Empty == [x \in {} |-> 0]
RangeOf(q) == {q[i] : i \in DOMAIN q}

RECURSIVE Flat(_)
Flat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Flat(Tail(qq))
Map(q, F(_)) == [i \in DOMAIN q |-> F(q[i])]

\* tag sets are sets of pairs with different keys
SetTag(tags, k, v) == {p \in tags : p[1] # k} \cup {<<k, v>>}
RECURSIVE SetTags(_, _)
SetTags(tags, q) == IF q = <<>> THEN tags ELSE SetTags(SetTag(tags, Head(q)[1], Head(q)[2]), Tail(q))

Row(m, tags, f, v) == [m |-> m, tags |-> tags, f |-> f, v |-> v, any |-> FALSE]
Some(m, tags, f) == [m |-> m, tags |-> tags, f |-> f, v |-> 0, any |-> TRUE]
Fields(m, tags, fs) == [i \in DOMAIN fs |-> Some(m, tags, fs[i])]

DistFields == <<"count", "sum", "min", "max", "rmin", "ravg", "r10", "r50", "r90", "r99", "rmax", "recent">>
Dist(m, tags, n) == IF n = 0 THEN <<Row(m, tags, "count", 0)>> ELSE Fields(m, tags, DistFields)

----------------------------------------------------------------------------
(* Struct sources: fields are [n, ign, t, v, sub]                             *)
RECURSIVE StructFields(_)
StructFields(fs) ==  \* sequence of <<name, value>>
    Flat([i \in DOMAIN fs |->
        LET x == fs[i] IN
        IF x.ign THEN <<>>
        ELSE CASE x.t = "num" -> << <<x.n, x.v>> >>
               [] x.t = "struct" -> LET q == StructFields(x.sub) IN [j \in DOMAIN q |-> <<x.n \o "." \o q[j][1], q[j][2]>>]
               [] OTHER -> <<>>])       \* nil pointers and everything that is neither
StructRows(m, tags, fs) == LET q == StructFields(fs) IN [i \in DOMAIN q |-> Row(m, tags, q[i][1], q[i][2])]

----------------------------------------------------------------------------
(* Transformer i adds the tag "t<i>" and 2000*i to every value (values are     *)
(* doubled to allow halves); transformer 0 repeats every row as field "_d".    *)
Tn(i) == "t" \o ToString(i)
Trans(rows, i) ==
    IF i = 0 THEN Flat([k \in DOMAIN rows |-> <<rows[k], [rows[k] EXCEPT !.f = @ \o "_d"]>>])
    ELSE [k \in DOMAIN rows |-> [rows[k] EXCEPT !.tags = SetTag(@, Tn(i), "1"), !.v = @ + 2000 * i]]
RECURSIVE TransAll(_, _)
TransAll(rows, ts) == IF ts = <<>> THEN rows ELSE TransAll(Trans(rows, Head(ts)), Tail(ts))

----------------------------------------------------------------------------
InScope(rows, s) == [i \in DOMAIN rows |-> [rows[i] EXCEPT !.tags = SetTag(@, "scope", s)]]

RECURSIVE ChainRows(_)
ChainRows(c) ==
    CASE c.t = "rows" -> [i \in DOMAIN c.rows |-> Row(c.rows[i].m, SetTags({}, c.rows[i].tags), c.rows[i].f, c.rows[i].v)]
      [] c.t = "struct" -> StructRows(c.m, SetTags({}, c.tags), c.sub)
      [] c.t = "trans" -> TransAll(ChainRows(c.src), c.ts)
      \* a whole registry, of gauges
      [] c.t = "reg" -> TransAll(Flat([i \in DOMAIN c.scopes |->
                           [j \in DOMAIN c.scopes[i].g |-> Row(c.scopes[i].g[j].n, {<<"scope", c.scopes[i].n>>}, "value", c.scopes[i].g[j].v)]]), c.ts)

\* a registered source: kind, name, tags (as given), n (observations), errs, v, sub
SourceRows(x) ==
    LET tags == SetTags({}, x.tags) IN
    CASE x.kind = "counter" -> Fields(x.name, tags, <<"high", "low", "value">>)
      [] x.kind \in {"meter", "event", "diffmeter"} -> Fields(x.name, tags, <<"rate", "total">>)
      [] x.kind = "bool" -> Fields(x.name, tags, <<"disposition", "false", "recent", "true">>)
      [] x.kind \in {"int", "float", "duration", "timer"} -> Dist(x.name, tags, x.n)
      [] x.kind = "gauge" -> <<Row(x.name, {}, "value", x.v)>>
      [] x.kind = "struct" -> StructRows(x.name, tags, x.sub)
      [] x.kind = "func" ->
           LET ft == SetTags({<<"name", x.name>>}, x.tags) IN
           Fields("function", ft, <<"current", "highwater", "successes", "errors", "panics", "failures", "total">>)
           \o [i \in DOMAIN x.errs |-> Some("function", SetTag(ft, "error_name", x.errs[i]), "count")]
           \o Dist("function_times", SetTag(ft, "kind", "success"), x.n)
           \o Dist("function_times", SetTag(ft, "kind", "failure"), x.fails)

\* a scope: src (a function from keys) and chains (a sequence)
RECURSIVE AllSources(_, _)
AllSources(src, ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE x \in ks : TRUE IN SourceRows(src[k]) \o AllSources(src, ks \ {k})
ScopeRows(s, x) == InScope(AllSources(x.src, DOMAIN x.src) \o Flat([i \in DOMAIN x.chains |-> ChainRows(x.chains[i])]), s)

RECURSIVE RegistryRows(_, _)
RegistryRows(scopes, ss) ==
    IF ss = {} THEN <<>> ELSE LET s == CHOOSE x \in ss : TRUE IN ScopeRows(s, scopes[s]) \o RegistryRows(scopes, ss \ {s})

----------------------------------------------------------------------------
Key(r) == <<r.m, r.tags, r.f>>
\* got (rows with tags as pairs) is exactly want, as a bag
SameRows(got, want) ==
    LET gk == [i \in DOMAIN got |-> <<got[i].m, RangeOf(got[i].tags), got[i].f>>]
        wk == [i \in DOMAIN want |-> Key(want[i])] IN
    /\ Len(got) = Len(want)
    /\ \A k \in RangeOf(gk) \cup RangeOf(wk) :
          Cardinality({i \in DOMAIN gk : gk[i] = k}) = Cardinality({i \in DOMAIN wk : wk[i] = k})
    /\ \A i \in {j \in DOMAIN want : ~want[j].any} :
          Cardinality({j \in DOMAIN got : gk[j] = wk[i] /\ got[j].v = want[i].v}) >=
          Cardinality({j \in DOMAIN want : wk[j] = wk[i] /\ ~want[j].any /\ want[j].v = want[i].v})

\* byte strings in order
RECURSIVE Leq(_, _)
Leq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
             ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Leq(Tail(a), Tail(b))
=============================================================================
