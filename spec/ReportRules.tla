----------------------------- MODULE ReportRules -----------------------------
(* Histories of registering sources, of views and chains, and what the reports in  *)
(* between must show.                                                               *)
EXTENDS Report

VARIABLE m

\* sc: scopes; b: their names as bytes; view: transformers of each view
M0 == [sc |-> Empty, b |-> Empty, view |-> (0 :> <<>>)]

Key1(e) == IF e.kind = "func" THEN <<"f", e.name, e.tags>> ELSE <<"m", e.name, e.tags>>
Src(e) == [kind |-> e.kind, name |-> e.name, tags |-> e.tags, n |-> 0, fails |-> 0, errs |-> <<>>, v |-> 0, sub |-> <<>>]
Put(e, x) == [m EXCEPT !.sc[e.s].src = With(@, Key1(e), x)]
Have(e) == m.sc[e.s].src[Key1(e)]

Apply(e) ==
    CASE e.o = "scope" -> IF e.s \in DOMAIN m.sc THEN m
                          ELSE [m EXCEPT !.sc = With(@, e.s, [src |-> Empty, chains |-> <<>>]), !.b = With(@, e.s, e.b)]
      [] e.o = "metric" -> IF Key1(e) \in DOMAIN m.sc[e.s].src THEN m ELSE Put(e, Src(e))
      [] e.o = "observe" -> Put(e, [Have(e) EXCEPT !.n = @ + 1])
      [] e.o = "call" -> Put(e, [Have(e) EXCEPT !.n = @ + (IF e.ok THEN 1 ELSE 0), !.fails = @ + (IF e.ok THEN 0 ELSE 1), !.errs = e.errs])
      [] e.o = "gauge" -> Put(e, [Src(e) EXCEPT !.v = e.v])
      [] e.o = "struct" -> Put(e, [Src(e) EXCEPT !.sub = e.sub])
      [] e.o = "chain" -> [m EXCEPT !.sc[e.s].chains = Append(@, e.c)]
      [] e.o = "view" -> [m EXCEPT !.view = With(@, e.id, m.view[e.of] \o e.ts)]
      [] OTHER -> m

ScopeOf(r) == (CHOOSE p \in RangeOf(r.tags) : p[1] = "scope")[2]
HasScope(r) == \E p \in RangeOf(r.tags) : p[1] = "scope" /\ p[2] \in DOMAIN m.sc

Judge(e) ==
    CASE e.o = "report" ->
           IF ~SameRows(e.rows, TransAll(RegistryRows(m.sc, DOMAIN m.sc), m.view[e.view]))
           THEN "a report does not contain exactly the rows of every source"
           ELSE IF \E i \in DOMAIN e.rows : ~HasScope(e.rows[i]) THEN "a row without its scope"
           ELSE IF \E i \in 1..(Len(e.rows) - 1) : ~Leq(m.b[ScopeOf(e.rows[i])], m.b[ScopeOf(e.rows[i + 1])])
           THEN "a report is not in the order of scope names" ELSE ""
      [] e.o = "sreport" -> IF ~SameRows(e.rows, ScopeRows(e.s, m.sc[e.s])) THEN "a scope's report does not contain exactly the rows of its sources" ELSE ""
      [] e.o = "source" -> IF ~SameRows(e.rows, ChainRows(e.c)) THEN "a source does not report exactly its rows" ELSE ""
      [] OTHER -> ""
=============================================================================
