------------------------------ MODULE ValsObj ------------------------------
(* A trace's key/value store and a span's annotations.                         *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

ValsInit == [kv |-> <<0, 0, 0>>, ann |-> <<>>]
VOne(s, r) == {[st |-> s, res |-> r]}
ValsStep(s, e) ==
    CASE e.o = "set"    -> VOne([s EXCEPT !.kv[e.key] = e.v], <<0>>)
      [] e.o = "get"    -> VOne(s, <<s.kv[e.key]>>)
      [] e.o = "all"    -> VOne(s, s.kv)
      [] e.o = "ann"    -> VOne([s EXCEPT !.ann = Append(@, e.v)], <<0>>)
      [] e.o = "anns"   -> VOne(s, s.ann)
      [] e.o = "stable" -> VOne(s, <<1>>)     \* nothing handed out earlier has changed
=============================================================================
