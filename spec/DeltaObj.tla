------------------------------ MODULE DeltaObj ------------------------------
(* Delta transformers (e.d) remember the last total of every series (e.key).   *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

DeltaInit == [last |-> [x \in {} |-> 0]]
DeltaStep(s, e) ==
    LET k == <<e.d, e.key>> IN
    CASE e.o = "total" ->
        {[st |-> [s EXCEPT !.last = (k :> e.v) @@ @],
          res |-> IF k \in DOMAIN s.last THEN << <<"total", e.v>>, <<"delta", e.v - s.last[k]>> >>
                  ELSE << <<"total", e.v>> >>]}
      [] e.o = "other" -> {[st |-> s, res |-> << <<e.field, e.v>> >>]}
=============================================================================
