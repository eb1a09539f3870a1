------------------------------ MODULE ScopeObj ------------------------------
(* The objects of one scope (or the scopes of one registry): at most one per   *)
(* key, of the kind first asked for.  An effect carries the object its lookup  *)
(* got (e.got[1]; -1 if it was refused, 0 if it returns none).                 *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC

ScopeInit == [obj |-> [x \in {} |-> 0], chains |-> <<>>]
SOne(s, r) == {[st |-> s, res |-> r]}
SUsed(s) == {s.obj[k].n : k \in DOMAIN s.obj}
SRange(q) == {q[i] : i \in DOMAIN q}

ScopeStep(s, e) ==
    CASE e.o = "get" ->
           IF e.key \notin DOMAIN s.obj
           THEN IF e.got[1] = -1 \/ (e.got[1] # 0 /\ e.got[1] \in SUsed(s)) THEN {}
                ELSE SOne([s EXCEPT !.obj = (e.key :> [kind |-> e.kind, n |-> e.got[1]]) @@ @], e.got)
           ELSE IF s.obj[e.key].kind # e.kind THEN SOne(s, <<-1>>)
           ELSE SOne(s, <<s.obj[e.key].n>>)
      \* all objects of a kind, once each
      [] e.o = "list" ->
           LET want == {s.obj[k].n : k \in {x \in DOMAIN s.obj : s.obj[x].kind = e.kind}} IN
           IF SRange(e.got) = want /\ Len(e.got) = Cardinality(want) THEN SOne(s, e.got) ELSE {}
=============================================================================
