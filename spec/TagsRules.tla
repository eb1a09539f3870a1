------------------------------ MODULE TagsRules ------------------------------
(* Histories of tag sets and series keys: what every operation derives and what    *)
(* it must show.  What exists never changes, so the order of concurrent operations  *)
(* is of no consequence: an operation is recorded when it is over, after those that *)
(* made what it used.                                                               *)
EXTENDS Tags

RangeOf(q) == {q[i] : i \in DOMAIN q}

VARIABLE m

\* ts: tag sets (0 is the nil one); ks: series keys as [m, tags]
M0 == [ts |-> (0 :> NoTags), ks |-> [x \in {} |-> 0]]

Apply(e) ==
    CASE e.o \in {"set", "setall", "settags"} -> [m EXCEPT !.ts = (e.id :> Overlay(m.ts[e.of], e.tags)) @@ @]
      [] e.o = "key" -> [m EXCEPT !.ks = (e.id :> [m |-> e.m, tags |-> NoTags]) @@ @]
      [] e.o = "ktags" -> [m EXCEPT !.ks = (e.id :> [m |-> e.m, tags |-> m.ts[e.of]]) @@ @]
      [] e.o \in {"with", "withs"} -> [m EXCEPT !.ks = (e.id :> [m.ks[e.of] EXCEPT !.tags = Overlay(@, e.tags)]) @@ @]
      [] OTHER -> m

IsTags(got, tags) == Len(got) = Cardinality(DOMAIN tags) /\ RangeOf(got) = {<<k, tags[k]>> : k \in DOMAIN tags}

\* the value the last row with that rendering has
RECURSIVE Collected(_)
Collected(rows) ==
    IF rows = <<>> THEN [x \in {} |-> 0]
    ELSE LET r == rows[Len(rows)]
             before == Collected(SubSeq(rows, 1, Len(rows) - 1))
         IN (RenderField(m.ks[r.key].m, m.ks[r.key].tags, r.f) :> r.v) @@ before

Judge(e) ==
    CASE e.o = "str" -> IF e.got # Render(m.ts[e.of]) THEN "a tag set does not render canonically" ELSE ""
      [] e.o = "all" -> IF ~IsTags(e.got, m.ts[e.of]) \/ e.len # Cardinality(DOMAIN m.ts[e.of]) THEN "a tag set does not hold the tags set" ELSE ""
      [] e.o = "get" -> IF e.got # (IF e.key \in DOMAIN m.ts[e.of] THEN m.ts[e.of][e.key] ELSE <<>>) THEN "a tag has the wrong value" ELSE ""
      [] e.o = "kstr" -> IF e.got # RenderSeries(m.ks[e.of].m, m.ks[e.of].tags) THEN "a series key does not render canonically" ELSE ""
      [] e.o = "kfield" -> IF e.got # RenderField(m.ks[e.of].m, m.ks[e.of].tags, e.f) THEN "a field does not render canonically" ELSE ""
      [] e.o = "kall" -> IF e.m # m.ks[e.of].m \/ ~IsTags(e.got, m.ks[e.of].tags) THEN "a series key changed" ELSE ""
      [] e.o = "collect" -> LET w == Collected(e.rows) IN
                            IF Len(e.got) # Cardinality(DOMAIN w) \/ RangeOf(e.got) # {<<k, w[k]>> : k \in DOMAIN w} THEN "collected rows are not keyed by their rendering" ELSE ""
      [] OTHER -> ""
=============================================================================
