----------------------------- MODULE ErrNameObj -----------------------------
(* Naming an error: the handlers registered, newest last, then the error's own *)
(* name, then the built-in one.  Handler h claims the errors in its set.       *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

ErrNameInit == [hs |-> <<>>]
EClaims(h, x) == \E i \in DOMAIN h.claims : h.claims[i] = x
ErrName(s, e) ==
    IF \E i \in DOMAIN s.hs : EClaims(s.hs[i], e.x)
    THEN s.hs[CHOOSE i \in DOMAIN s.hs : EClaims(s.hs[i], e.x) /\ \A j \in (i + 1)..Len(s.hs) : ~EClaims(s.hs[j], e.x)].name
    ELSE IF e.own # "" THEN e.own ELSE e.builtin

ErrNameStep(s, e) ==
    CASE e.o = "add"  -> {[st |-> [s EXCEPT !.hs = Append(@, [claims |-> e.claims, name |-> e.name])], res |-> <<"">>]}
      [] e.o = "fail" -> {[st |-> s, res |-> <<ErrName(s, e)>>]}
=============================================================================
