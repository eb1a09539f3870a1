------------------------------ MODULE HopTrace ------------------------------
(* Checks recorded uses of the HTTP tracing helpers.                             *)
EXTENDS Hop, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VH_TRACES)

VARIABLES t, l, bad
vars == <<t, l, bad>>

Info(x) == [has |-> x.has, tid |-> x.tid, pid |-> x.pid, sampled |-> x.sampled]

\* a traced handler run for a request with headers h; all: ids seen earlier
JudgeServe(e, h) ==
    LET i == Parse(h.tp, h.ts)
        s == e.server IN
    IF s.runs # 1 THEN "the handler did not run exactly once"
    ELSE IF i.has /\ s.tid # i.tid THEN "the handler does not run under the caller's trace"
    ELSE IF i.has /\ s.pid # i.pid THEN "the handler does not run under the caller's parent"
    ELSE IF ~i.has /\ s.tid \in RangeOf(e.seen) THEN "a request without a trace did not get a fresh one"
    ELSE IF s.sampled # i.sampled THEN "the sampled flag did not arrive"
    ELSE IF RangeOf(s.bag) # Bag(h.tp, h.ts, h.bg, RangeOf(e.allowed)) \/ Len(s.bag) # Cardinality(RangeOf(s.bag)) THEN "baggage was not admitted as allowed"
    ELSE IF ~s.ctx THEN "the handler was not given the full task context"
    ELSE IF s.status # <<e.status>> THEN "the wrong status code was recorded"
    ELSE IF s.passed # e.status THEN "the response was changed"
    ELSE IF s.uri # 1 THEN "the uri was not recorded once"
    ELSE IF s.cb # (IF e.cb THEN 1 ELSE 0) THEN "the sampling callback was not called as it should"
    ELSE IF (s.told = <<>>) # ~(~i.has /\ i.sampled) THEN "trace and span ids are announced at the wrong time"
    ELSE IF s.told # <<>> /\ (Hex(s.told[1]) # s.tid \/ Hex(s.told[2]) # s.sid) THEN "the wrong trace or span id is announced"
    ELSE ""

Judge(e) ==
    CASE e.o = "parse" ->
           IF Info(e.res) # Parse(e.tp, e.ts) THEN "headers were read wrongly"
           ELSE IF RangeOf(e.res.bag) # Bag(e.tp, e.ts, e.bg, RangeOf(e.allowed)) THEN "baggage was not admitted as allowed" ELSE ""
      [] e.o = "rt" ->
           IF Info(e.res) # Survives(e.info) THEN "trace information did not survive the headers"
           ELSE IF RangeOf(e.res.bag) # SurvivingBag(e.info, RangeOf(e.allowed)) THEN "baggage did not survive the headers"
           ELSE IF Parse(e.tp, e.ts) # Survives(e.info) THEN "trace information was written wrongly" ELSE ""
      [] e.o = "info" -> IF Info(e.res) # Sends(e.client) THEN "a span gives the wrong trace information" ELSE ""
      [] e.o = "serve" -> JudgeServe(e, e.h)
      [] e.o = "hop" ->
           IF Parse(e.h.tp, e.h.ts) # Sends(e.client) THEN "the client sent the wrong trace information"
           ELSE IF e.chained /\ (e.client.tid # e.under.tid \/ e.client.sampled # e.under.sampled) THEN "a request made by a handler does not belong to its trace"
           ELSE IF ~e.same THEN "the client changed the response or error"
           ELSE IF e.cstatus # (IF e.failed THEN <<>> ELSE <<e.status>>) \/ e.curi # 1 THEN "the client recorded the wrong status or uri"
           ELSE IF e.failed THEN ""
           ELSE JudgeServe(e, e.h)
      [] OTHER -> ""

Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Ev == Traces[t].ev[l]
Next ==
    /\ bad = "" /\ l <= Len(Traces[t].ev)
    /\ t' = t /\ l' = l + 1
    /\ CASE Ev.k = "h" -> UNCHANGED bad
         [] Ev.k = "x" -> bad' = "run ended abnormally: " \o Ev.why
         [] Ev.k = "op" -> bad' = Judge(Ev)

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
