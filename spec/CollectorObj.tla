----------------------------- MODULE CollectorObj -----------------------------
(* A span collector under concurrent use.  Finishing a span first looks whether   *)
(* (and what) is being collected and then adds the record, unless the collection   *)
(* is complete by then; the trigger's own finish completes it and gives the done   *)
(* signal.  Nothing that begins to finish after a stop is added.                   *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Collector

CollInit == [c |-> CollectorNew, tr |-> 0, par |-> [x \in {} |-> 0], look |-> [x \in {} |-> 0], mine |-> {}, sigs |-> {}, sig |-> 0]
CollOne(s, r) == {[st |-> s, res |-> r]}
CollBegin(s, e) == IF s.c.check = 0 THEN [s EXCEPT !.c.check = e.s, !.tr = e.tr] ELSE s

CollStep(s, e) ==
    CASE e.o = "begin" -> CollOne(IF e.match THEN CollBegin(s, e) ELSE s, <<0>>)
      \* a stop, and then the signal, given by whoever stopped it first
      [] e.o = "cstop" -> CollOne(IF s.c.check = -1 THEN s ELSE [s EXCEPT !.c = CStop(@), !.sigs = @ \cup {e.op}], <<0>>)
      [] e.o = "sig" -> CollOne(IF e.op \in s.sigs THEN [s EXCEPT !.sig = 1] ELSE s, <<0>>)
      [] e.o = "look" -> CollOne([s EXCEPT !.look = (e.op :> IF s.c.check > 0 /\ s.tr = e.tr THEN s.c.check ELSE 0) @@ @], <<0>>)
      [] e.o = "add" ->
           LET tr == s.look[e.op]
               r == [s |-> e.s, e |-> e.e, p |-> e.p]
               n == [s EXCEPT !.par = (e.s :> e.par) @@ @] IN
           CollOne(IF tr = 0 \/ s.c.root # <<>> THEN s
                   ELSE IF tr = e.s THEN [n EXCEPT !.c.root = <<r>>, !.mine = @ \cup {e.op}]
                   ELSE [n EXCEPT !.c.fins = Append(@, r)], <<0>>)
      [] e.o = "fin" -> CollOne(IF e.op \in s.mine /\ s.c.check # -1 THEN [s EXCEPT !.c = CStop(@), !.sigs = @ \cup {e.op}] ELSE s, <<0>>)
      [] e.o = "done?" -> CollOne(s, <<s.sig>>)
      [] e.o = "spans?" ->
           LET want == CSpans(s.c, s.par) IN
           IF {e.got[i] : i \in DOMAIN e.got} = want /\ Len(e.got) = Cardinality(want) THEN CollOne(s, e.got) ELSE {}
=============================================================================
