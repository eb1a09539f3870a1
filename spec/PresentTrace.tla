---------------------------- MODULE PresentTrace ----------------------------
(* Checks recorded documents against the registry's content at that moment.      *)
EXTENDS Present, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VH_TRACES)

VARIABLES t, l, reg, bad
vars == <<t, l, reg, bad>>

DocOK(e) ==
    LET r == Traces[t].ev[reg] IN
    CASE e.kind = "index" -> TRUE
      [] e.kind = "ps.text" -> SpansTextOK(e.lines, r.spans)
      [] e.kind = "ps.dot" -> SpansDotOK(e.nodes, e.edges, r.spans)
      [] e.kind = "ps.json" -> SpansJSONOK(e.list, r.spans) /\ RangeOf(r.all) = {s.id : s \in RangeOf(r.spans)}
      [] e.kind = "funcs.text" -> FuncsTextOK(e.lines, r.funcs)
      [] e.kind = "funcs.dot" -> FuncsDotOK(e.nodes, e.edges, r.funcs)
      [] e.kind = "funcs.json" -> FuncsJSONOK(e.list, r.funcs)
      [] e.kind = "stats.text" -> StatsTextOK(e.lines, r.stats)
      [] e.kind = "stats.json" -> StatsJSONOK(e.list, r.stats)

Judge(e) ==
    CASE e.o = "reg" -> ""
      [] e.o = "doc" ->
           IF e.err # "" THEN "no document: " \o e.err
           ELSE IF e.wf # "" THEN "the document is not well formed: " \o e.kind \o ": " \o e.wf
           ELSE IF e.via # "call" /\ e.ct # DocType(e.path) THEN "wrong content type"
           ELSE IF ~DocOK(e) THEN "the document does not agree with the registry: " \o e.kind ELSE ""
      [] e.o = "fin" ->
           IF e.err # "" THEN "no document: " \o e.err
           ELSE IF e.wf # "" THEN "the document is not well formed: " \o e.kind \o ": " \o e.wf
           ELSE IF e.kind = "svg" THEN
                  IF e.spans = <<>> THEN IF e.list = <<>> /\ e.width > 0 /\ e.height > 0 THEN "" ELSE "the drawing does not agree with the spans"
                  ELSE IF SVGOK(e) THEN "" ELSE "the drawing does not agree with the spans"
           ELSE IF FinJSONOK(e.list, e.spans) THEN "" ELSE "the document does not agree with the spans"
      [] e.o = "fail" -> IF e.got THEN "" ELSE "a failing writer went unnoticed"
      [] e.o = "route" -> IF RouteOK(e) THEN "" ELSE "a request was answered wrongly"
      [] OTHER -> ""

Init == t \in 1..Len(Traces) /\ l = 1 /\ reg = 0 /\ bad = ""
Ev == Traces[t].ev[l]
Next ==
    /\ bad = "" /\ l <= Len(Traces[t].ev)
    /\ t' = t /\ l' = l + 1
    /\ reg' = IF Ev.k = "op" /\ Ev.o = "reg" THEN l ELSE reg
    /\ CASE Ev.k = "h" -> UNCHANGED bad
         [] Ev.k = "x" -> bad' = "run ended abnormally: " \o Ev.why
         [] Ev.k = "op" -> bad' = Judge(Ev)

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
