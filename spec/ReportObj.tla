------------------------------ MODULE ReportObj ------------------------------
(* Reports taken while sources are being registered: each source is there from  *)
(* the moment it is registered, once per registration of a chain, and a gauge    *)
(* shows the last one given.                                                     *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

RepInit == [x \in {} |-> <<0, 0>>]   \* key -> <<how often, value>>
ROne(s, r) == {[st |-> s, res |-> r]}
ReportStep(s, e) ==
    CASE e.o = "reg" -> ROne((e.key :> (IF e.key \in DOMAIN s THEN s[e.key] ELSE <<1, 0>>)) @@ s, <<0>>)
      [] e.o = "add" -> ROne((e.key :> (IF e.key \in DOMAIN s THEN <<s[e.key][1] + 1, 0>> ELSE <<1, 0>>)) @@ s, <<0>>)
      [] e.o = "put" -> ROne((e.key :> <<1, e.v>>) @@ s, <<0>>)
      [] e.o = "rep?" -> ROne(s, IF e.key \in DOMAIN s THEN s[e.key] ELSE <<0, 0>>)
=============================================================================
