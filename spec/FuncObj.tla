------------------------------ MODULE FuncObj ------------------------------
(* One monitored function as its users see it.  A call is counted, and then   *)
(* the peak is raised to the count it reached; ending uncounts it, and adds    *)
(* its outcome with its duration.  These steps of one call need not be one      *)
(* atomic step, so each is an effect of its own.                               *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

FNames == 2
FuncInit == [cur |-> 0, hw |-> 0, st |-> 0, ft |-> 0, err |-> [i \in 1..FNames |-> 0], pan |-> 0,
             tmp |-> [x \in {} |-> 0]]

FMax(a, b) == IF a > b THEN a ELSE b
FDrop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
FOne(s, r) == {[st |-> s, res |-> r]}
FErrs(s) == s.err[1] + s.err[2]

FuncStep(s, e) ==
    CASE e.o = "inc"   -> FOne([s EXCEPT !.cur = @ + 1, !.tmp = (e.op :> (s.cur + 1)) @@ @], <<0>>)
      [] e.o = "load"  -> FOne([s EXCEPT !.tmp = (e.op :> s.cur) @@ @], <<0>>)
      [] e.o = "raise" -> FOne([s EXCEPT !.hw = FMax(@, s.tmp[e.op]), !.tmp = FDrop(@, e.op)], <<0>>)
      [] e.o = "hw0"   -> FOne([s EXCEPT !.hw = 0], <<0>>)
      [] e.o = "clear" -> FOne([s EXCEPT !.st = 0, !.ft = 0, !.err = FuncInit.err, !.pan = 0], <<0>>)
      [] e.o = "dec"   -> FOne([s EXCEPT !.cur = @ - 1], <<0>>)
      [] e.o = "ok"    -> FOne([s EXCEPT !.st = @ + 1], <<0>>)
      \* an outcome and its duration belong together: a reset forgets both or neither
      [] e.o = "err"   -> FOne([s EXCEPT !.ft = @ + 1, !.err[e.e] = @ + 1], <<0>>)
      [] e.o = "pan"   -> FOne([s EXCEPT !.ft = @ + 1, !.pan = @ + 1], <<0>>)
      [] e.o = "cur?"  -> FOne(s, <<s.cur>>)
      [] e.o = "hw?"   -> FOne(s, <<s.hw>>)
      [] e.o = "succ?" -> FOne(s, <<s.st>>)
      [] e.o = "err?"  -> FOne(s, <<s.err[1], s.err[2]>>)
      [] e.o = "pan?"  -> FOne(s, <<s.pan>>)
      [] e.o = "st?"   -> FOne(s, <<s.st>>)
      [] e.o = "ft?"   -> FOne(s, <<s.ft>>)
      \* successes, errors, panics, failures, total: of one moment
      [] e.o = "snap?" -> FOne(s, <<s.st, FErrs(s), s.pan, FErrs(s) + s.pan, s.st + FErrs(s) + s.pan>>)
=============================================================================
