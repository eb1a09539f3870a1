------------------------------ MODULE EnvTrace ------------------------------
(* Checks recorded sequential uses of the environment sources.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, EnvObj

Traces == ndJsonDeserialize(IOEnv.VH_TRACES)

VARIABLES t, l, m, bad
vars == <<t, l, m, bad>>

RangeOf(q) == {q[i] : i \in 1..Len(q)}
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})

\* the sources Register attaches, by the measurement they report
Sources == {"goroutines", "runtime_memstats", "runtime_gcstats", "process", "fds", "rusage", "proc_stat", "proc_statm"}

Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
        /\ m = [env |-> EnvInit(Traces[t].ev[1]), last |-> <<>>,
                regs |-> IF "regs" \in DOMAIN Traces[t].ev[1] THEN Traces[t].ev[1].regs ELSE 0]
Ev == Traces[t].ev[l]

\* several effects in turn
RECURSIVE Run(_, _)
Run(s, subs) == IF subs = <<>> THEN {s}
                ELSE UNION {Run(r.st, Tail(subs)) : r \in {x \in EnvStep(s, Head(subs)) : x.res = Head(subs).got}}

Other(e) ==
    CASE e.o = "goroutines" -> IF \E n \in e.lo - 1 .. e.hi + 1 : e.res = <<n>> THEN "" ELSE "wrong number of goroutines"
      [] e.o = "fds" -> IF e.res = <<e.want>> THEN "" ELSE "wrong number of open descriptors"
      [] e.o = "proc" -> IF e.res = e.want THEN "" ELSE "the wrong process is described"
      [] e.o = "rusage" -> IF e.res[1] = 1 /\ e.res[2] >= e.least THEN "" ELSE "resource usage is missing or too small"
      [] e.o = "numbers" -> \* name, the real number, the reported one; name, how far it grew meanwhile, how far until it was reported
           IF \E i \in 1..Len(e.same) : e.same[i][2] # e.same[i][3] THEN "a wrong number is reported: " \o e.what
           ELSE IF \E i \in 1..Len(e.grows) : e.grows[i][3] < 0 \/ e.grows[i][3] > e.grows[i][2] THEN "a number is ahead of or behind the real one: " \o e.what
           ELSE ""
      [] e.o \in {"register", "renamed"} -> ""   \* what the process is called changes none of its figures
      [] e.o = "registered" ->
           IF RangeOf(e.names) # (IF m.regs = 0 THEN {} ELSE Sources) THEN "registered sources are missing or unexpected"
           ELSE IF \E n \in Sources : Count(e.names, n) # m.regs
           THEN "a source is not reported once per registration" ELSE ""
      [] e.o = "clock" -> \* uptime moves with the clock
           IF m.last = <<>> THEN ""
           ELSE LET a == m.last[1] d == e.up - a.up IN
                IF d < e.call - a.ret - 2 \/ d > e.ret - a.call + 2 THEN "uptime does not follow the clock" ELSE ""
      [] e.o = "hammer" ->
           IF \E i \in 1..Len(e.counts) : \E j \in 1..(Len(e.counts[i]) - 1) : e.counts[i][j + 1] < e.counts[i][j] THEN "observations were lost"
           ELSE IF e.final > e.before + e.gcs THEN "a collection was observed twice"
           ELSE IF e.gcs > 0 /\ e.final = e.before THEN "no collection was observed"
           ELSE IF Cardinality(RangeOf(e.crcs)) > 1 THEN "the checksum changed" ELSE ""

Next ==
    /\ bad = "" /\ l <= Len(Traces[t].ev)
    /\ t' = t /\ l' = l + 1
    /\ CASE Ev.k = "h" -> UNCHANGED <<m, bad>>
         [] Ev.k = "x" -> bad' = "run ended abnormally: " \o Ev.why /\ UNCHANGED m
         [] Ev.k = "env" -> LET n == Run(m.env, Ev.subs) IN
              /\ bad' = IF n = {} THEN "an environment source reports the wrong thing" ELSE ""
              /\ m' = IF n = {} THEN m ELSE [m EXCEPT !.env = CHOOSE x \in n : TRUE]
         [] Ev.k = "op" ->
              /\ bad' = Other(Ev)
              /\ m' = [m EXCEPT !.last = IF Ev.o = "clock" THEN <<Ev>> ELSE @, !.regs = IF Ev.o = "register" THEN @ + 1 ELSE @]

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
