----------------------------- MODULE MonkitTrace -----------------------------
(* Checks recorded sequential histories of the real code against Monkit, for   *)
(* the observations property Prop is about.                                    *)
EXTENDS Monkit, Json, IOUtils
CONSTANT Prop

Traces == ndJsonDeserialize(IOEnv.VH_TRACES)

VARIABLES t, l, w, bad
vars == <<t, l, w, bad>>

Range(q) == {q[i] : i \in DOMAIN q}
SameSet(q, S) == Range(q) = S /\ Len(q) = Cardinality(S)

NoteKey(n) == <<n.k, n.o, n.s>>
Notes(e) == SelectSeq(e.notes, LAMBDA n : n.k # "W")
WNotes(e) == SelectSeq(e.notes, LAMBDA n : n.k = "W")

StatsOk(f, x) ==
    /\ x.cur = f.cur /\ x.succ = f.st.n /\ x.pan = f.pan /\ x.errs = [i \in 1..NE |-> f.err[i]]
    /\ x.other = 0
    /\ x.st = DistOf(f.st) /\ x.ft = DistOf(f.ft)
    /\ x.r = <<f.cur, f.st.n, Errs(f), f.pan, Errs(f) + f.pan, f.st.n + Errs(f) + f.pan>>
    /\ x.rerrs = [i \in 1..NE |-> f.err[i]]
    /\ x.rt = <<f.st.n, f.ft.n, f.st.sum, f.ft.sum>>

\* v is the world after the operation
Judge(v, e) ==
    CASE Prop = "C01" ->
           IF e.o = "fstats" /\ ~StatsOk(v.fn[e.f], e.res) THEN "statistics are not those of the calls made" ELSE ""
      [] Prop = "C02" ->
           IF e.o = "fstats" /\ ~(/\ e.res.hw = v.fn[e.f].hw /\ e.res.rhw = v.fn[e.f].hw /\ e.res.cur = v.fn[e.f].cur)
           THEN "highwater is not the peak of the current count" ELSE ""
      [] Prop = "C03" ->
           IF e.o = "list" /\ ~SameSet(e.res.tree, Shown(v)) THEN "the listing is not the running spans, once each in place"
           ELSE IF e.o = "list" /\ ~SameSet(e.res.all, LiveSpans(v)) THEN "AllSpans does not report the running spans once each"
           ELSE IF e.o = "list" /\ e.res.counts # [i \in DOMAIN v.tr |-> TraceSpans(v, i)]
           THEN "a trace's span count is wrong" ELSE ""
      [] Prop = "C04" ->
           IF e.o = "list" /\ e.res.orph # [s \in DOMAIN v.sp |-> v.sp[s].orph] THEN "a span is wrongly marked (or not marked) orphaned"
           ELSE IF e.o = "list" /\ ~SameSet(e.res.roots, Roots(v)) THEN "top level is not the running roots and orphans" ELSE ""
      [] Prop = "C05" ->
           IF e.o = "start" THEN
             LET s == Len(v.sp) IN
             IF e.res.tr # v.sp[s].tr THEN "span is in the wrong trace"
             ELSE IF e.res.par # ParentInfo(v, s) THEN "span has the wrong parent"
             ELSE IF e.res.f # v.sp[s].f THEN "span has the wrong function"
             ELSE IF ~e.res.uniq THEN "id is not unique"
             ELSE IF e.c # 0 /\ e.res.cs # v.ctx[Len(v.ctx)].span THEN "context does not carry the new span"
             ELSE IF e.res.root # (v.sp[s].par = 0 \/ ~v.sp[v.sp[s].par].live) THEN "span is wrongly (not) a root"
             ELSE IF ~e.res.unp THEN "a task without a context replaced one" ELSE ""
           ELSE ""
      [] Prop = "C06" ->
           IF e.o \in {"end", "observed", "unwind"} /\ ~e.res.same THEN "the panic value or normal return was not preserved"
           ELSE IF e.o \in {"end", "observed", "unwind"} /\ ~e.res.errsame THEN "the caller's error was changed"
           ELSE IF e.o = "probe" /\ ~(LET p == Probe(v, e.c) IN
                     /\ e.res.span = p.span /\ e.res.kv = p.kv /\ e.res.err = p.err /\ e.res.dl = p.dl
                     /\ Range(e.res.wraps) = p.wraps)
           THEN "the task's context does not behave like the one given"
           ELSE IF \E i \in DOMAIN e.notes : e.notes[i].k = "F" /\
                      ~(LET n == e.notes[i] IN n.err = (IF e.o = "end" THEN IF e.out \in {"err", "panicerr"} THEN e.e ELSE 0 ELSE 0)
                              /\ n.pan = (IF e.o = "end" THEN e.out \in {"panic", "panicerr"} ELSE TRUE)
                              /\ n.at = v.now)
           THEN "an observer was told a different outcome or finish time" ELSE ""
      [] Prop = "C07" ->
           IF ~(LET n == Notes(e) IN Len(n) = Cardinality(v.seen) /\ {NoteKey(n[i]) : i \in DOMAIN n} = v.seen)
           THEN "span observers were not told exactly once each"
           ELSE IF \E i \in DOMAIN e.notes : e.notes[i].k = "S" /\ e.notes[i].kind # 0 /\ ~e.notes[i].chain
           THEN "an observer was not shown the context returned by the one before it"
           ELSE IF \E i \in DOMAIN e.notes : e.notes[i].k = "F" /\ e.notes[i].kind # 0 /\ ~e.notes[i].chain
           THEN "an observer was shown another context on finish than the task's"
           ELSE IF e.o = "start" /\ e.c # 0 /\ ~e.res.last THEN "the task did not get the context its observers returned" ELSE ""
      [] Prop = "C08" ->
           IF ~(LET n == WNotes(e) IN Len(n) = Cardinality(v.told) /\ {<<n[i].o, n[i].s>> : i \in DOMAIN n} = v.told)
           THEN "trace observers were not told exactly once each"
           ELSE IF \E i, j \in DOMAIN e.notes : i < j /\ e.notes[i].k = "S" /\ e.notes[j].k = "W"
           THEN "a trace was announced after its first span"
           \* a span observer registered while told of the trace is told of its first span
           ELSE IF e.o = "start" /\ Len(v.obs) > Len(w.obs) /\ ~\E i \in DOMAIN e.notes : NoteKey(e.notes[i]) = <<"S", Len(v.obs), Len(v.sp)>>
           THEN "an observer registered when told of a new trace was not told of its first span" ELSE ""
      [] Prop = "C19" ->
           IF e.o = "parents" /\ ~SameSet(e.res.par, v.fn[e.f].par) THEN "callers are not exactly those seen" ELSE ""
      [] Prop = "C20" ->
           IF e.o = "anns" /\ e.res.ann # v.sp[e.s].ann THEN "annotations are not those added, in order"
           ELSE IF e.o = "anns" /\ ~e.res.stable THEN "a list of annotations already handed out changed"
           ELSE IF e.o = "tget" /\ e.res.vals # [i \in DOMAIN v.tr[e.tr].vals |-> IF v.tr[e.tr].vals[i] = Nil THEN 0 ELSE v.tr[e.tr].vals[i]] THEN "trace values are not the last ones set"
           ELSE IF e.o = "tget" /\ e.res.all # v.tr[e.tr].vals THEN "the bulk read is not the values set"
           ELSE IF e.o = "tget" /\ ~e.res.stable THEN "a bulk read already handed out changed" ELSE ""

Init == /\ t \in 1..Len(Traces)
        /\ l = 1 /\ bad = "" /\ w = World0(IF "nf" \in DOMAIN Traces[t].ev[1] THEN Traces[t].ev[1].nf ELSE 1)

Ev == Traces[t].ev[l]

Next ==
    /\ bad = "" /\ l <= Len(Traces[t].ev)
    /\ t' = t /\ l' = l + 1
    /\ CASE Ev.k = "h" -> UNCHANGED <<w, bad>>
         [] Ev.k = "x" -> w' = w /\ bad' = "run ended abnormally: " \o Ev.why
         [] Ev.k = "op" -> LET v == Apply(w, Ev) IN w' = v /\ bad' = Judge(v, Ev)

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
