------------------------------ MODULE SpanConc ------------------------------
(***************************************************************************)
(* Checks recorded concurrent histories of span, observer and watcher       *)
(* operations.  A history is a sequence of calls, returns and               *)
(* notifications; an operation takes effect somewhere between its call and  *)
(* its return, so what a reader must (or must not) see follows from which   *)
(* operations were over before it began and which began before it was over. *)
(* Positions in the history serve as times; 0 stands for "not yet".         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Prop

Traces == ndJsonDeserialize(IOEnv.VH_TRACES)
Range(q) == {q[i] : i \in DOMAIN q}

VARIABLES t, l, m, bad
vars == <<t, l, m, bad>>

\* sp[s]: f function, p parent, tr trace, sc/sr start call/return, ec/er end call/return
\* root: began a trace of its own or joined one remotely
\* ob[o]: tr (0: all traces), rc/rr registration call/return, cc/cr (first) cancellation call/return
M0 == [sp |-> <<>>, ob |-> <<>>, wa |-> <<>>, pend |-> [x \in {} |-> 0], ids |-> {}, tids |-> {}]

With(f, k, v) == (k :> v) @@ f
Live(s) == m.sp[s].sr # 0 /\ m.sp[s].er = 0
Ended(s) == m.sp[s].er # 0
Spans == DOMAIN m.sp

\* No start or end is in progress now or was at any time since position c.
QuietSince(c) == \A s \in Spans : /\ m.sp[s].sr # 0 /\ m.sp[s].sr < c
                                  /\ m.sp[s].ec = 0 \/ (m.sp[s].er # 0 /\ m.sp[s].er < c)
\* running at every moment from c until now
Throughout(s, c) == m.sp[s].sr # 0 /\ m.sp[s].sr < c /\ m.sp[s].ec = 0
GoneBefore(s, c) == m.sp[s].er # 0 /\ m.sp[s].er < c

\* s surely was at top level from c until now
TopThroughout(s, c) ==
    /\ Throughout(s, c)
    /\ m.sp[s].p = 0 \/ (m.sp[m.sp[s].p].er # 0 /\ m.sp[m.sp[s].p].er < c)
RECURSIVE ReachThroughout(_, _)
ReachThroughout(s, c) ==
    TopThroughout(s, c) \/ (Throughout(s, c) /\ m.sp[s].p # 0 /\ ReachThroughout(m.sp[s].p, c))

LiveSet == {s \in Spans : Live(s)}
ShownNow == {<<s, IF m.sp[s].p # 0 /\ Live(m.sp[s].p) THEN m.sp[s].p ELSE 0>> : s \in LiveSet}

JudgeList(e, c) ==
    LET shown == {x[1] : x \in Range(e.tree)} IN
    IF QuietSince(c) /\ ~(Range(e.tree) = ShownNow /\ Len(e.tree) = Cardinality(ShownNow))
    THEN "a listing taken at rest is not the running spans, once each in place"
    ELSE IF \E s \in shown : s \notin Spans \/ GoneBefore(s, c) THEN "a listing shows a span that had ended before"
    ELSE IF \E s \in Spans : TopThroughout(s, c) /\ s \notin Range(e.roots) THEN "a listing omits a top-level span that ran throughout"
    ELSE IF \E s \in Spans : ReachThroughout(s, c) /\ s \notin shown THEN "a listing omits a span that ran throughout"
    ELSE ""

JudgeAll(e, c) ==
    LET shown == Range(e.all) IN
    IF QuietSince(c) /\ ~(shown = LiveSet /\ Len(e.all) = Cardinality(LiveSet))
    THEN "AllSpans at rest does not report the running spans once each"
    ELSE IF \E s \in shown : s \notin Spans \/ GoneBefore(s, c) THEN "AllSpans reports a span that had ended before"
    ELSE IF \E s \in Spans : ReachThroughout(s, c) /\ s \notin shown THEN "AllSpans omits a span that ran throughout"
    ELSE ""

JudgeCount(e, c) ==
    IF QuietSince(c) /\ e.v # Cardinality({s \in LiveSet : m.sp[s].tr = e.tr})
    THEN "a trace's span count at rest is not the number of its running spans" ELSE ""

\* The parent's end and the span's start were both over before c, and the span's end
\* began after that end was over (or has not begun).
SurelyOrphan(s, c) ==
    LET p == m.sp[s].p IN
    /\ p # 0 /\ m.sp[p].er # 0 /\ m.sp[p].er < c /\ m.sp[s].sr < c
    /\ m.sp[s].ec = 0 \/ m.sp[s].ec > m.sp[p].er
\* The parent's end has not begun, or the span was over before it began.
SurelyNot(s) ==
    LET p == m.sp[s].p IN
    p = 0 \/ m.sp[p].ec = 0 \/ (m.sp[s].er # 0 /\ m.sp[s].er < m.sp[p].ec)

JudgeOrph(e, c) ==
    IF SurelyOrphan(e.s, c) /\ ~e.v THEN "a span that outlived its parent is not marked orphaned"
    ELSE IF SurelyNot(e.s) /\ e.v THEN "a span that did not outlive its parent is marked orphaned" ELSE ""

JudgeOrphList(e, c) ==
    IF \E s \in Spans : SurelyOrphan(s, c) /\ Throughout(s, c) /\ s \notin Range(e.roots)
    THEN "an orphan is not listed at top level"
    ELSE IF \E s \in Range(e.roots) : s \in Spans /\ (GoneBefore(s, c) \/ (m.sp[s].p # 0 /\ SurelyNot(s)))
    THEN "a span that is no running orphan is listed at top level" ELSE ""

----------------------------------------------------------------------------
(* Notifications: x was registered throughout [c, now], or may have been at some time in it *)
MustTell(x, c) == x.rr # 0 /\ x.rr < c /\ x.cc = 0
MayTell(x, c) == x.cr = 0 \/ x.cr > c

Of(w, id) == SelectSeq(m.pend[id].notes, LAMBDA n : n.w = w)
Who(q) == {q[i].n : i \in DOMAIN q}

JudgeSpanNotes(w, s, tr, id, c) ==
    LET q == Of(w, id) IN
    IF Cardinality(Who(q)) # Len(q) THEN "an observer was told twice"
    ELSE IF \E i \in DOMAIN q : q[i].s # s THEN "an observer was told of another span"
    ELSE IF \E o \in DOMAIN m.ob : m.ob[o].tr = tr /\ MustTell(m.ob[o], c) /\ o \notin Who(q) THEN "a registered observer was not told"
    ELSE IF \E o \in Who(q) : m.ob[o].tr # tr \/ ~MayTell(m.ob[o], c) THEN "an observer that was not registered was told"
    ELSE IF \E i \in DOMAIN q : ~q[i].chain THEN "an observer was shown the wrong context" ELSE ""

\* An observer of all traces surely is registered on trace tr: the trace started (or was joined)
\* after the registration, or had a span at top level throughout it.
Covers(o, tr, c) ==
    \E s \in Spans : LET x == m.sp[s] IN
       \/ x.root /\ x.sc > o.rr /\ ((x.tr = tr /\ x.sr # 0 /\ x.sr < c) \/ x.sc = c)
       \/ /\ x.tr = tr /\ x.sr # 0 /\ x.sr < o.rc /\ (x.ec = 0 \/ x.ec > o.rr)
          /\ x.p = 0 \/ (m.sp[x.p].er # 0 /\ m.sp[x.p].er < o.rc)
JudgeAllNotes(w, s, tr, id, c) ==
    LET q == Of(w, id) IN
    IF Cardinality(Who(q)) # Len(q) THEN "an observer of all traces was told twice"
    ELSE IF \E i \in DOMAIN q : q[i].s # s THEN "an observer was told of another span"
    ELSE IF \E o \in DOMAIN m.ob : MustTell(m.ob[o], c) /\ Covers(m.ob[o], tr, c) /\ o \notin Who(q) THEN "an observer of all traces was not told"
    ELSE IF \E o \in Who(q) : ~MayTell(m.ob[o], c) THEN "an observer of all traces was told after it was cancelled" ELSE ""

JudgeWatch(e, tr, newtrace, id, c) ==
    LET q == Of("W", id) IN
    IF ~newtrace THEN IF q # <<>> THEN "a trace was announced that did not start" ELSE ""
    ELSE IF Cardinality(Who(q)) # Len(q) THEN "a trace observer was told twice of one trace"
    ELSE IF \E i \in DOMAIN q : q[i].s # tr THEN "a trace observer was told of another trace"
    ELSE IF \E o \in DOMAIN m.wa : MustTell(m.wa[o], c) /\ o \notin Who(q) THEN "a registered trace observer was not told"
    ELSE IF \E o \in Who(q) : ~MayTell(m.wa[o], c) THEN "a trace observer that was not registered was told"
    ELSE LET a == m.pend[id].notes IN
         IF \E i, j \in DOMAIN a : i < j /\ a[i].w = "S" /\ a[j].w = "W" THEN "a trace was announced after its first span" ELSE ""

JudgeStart(e, p) ==
    LET par == IF p.kind = "task" THEN p.p ELSE 0
        fresh == p.kind = "reset" \/ (p.kind = "task" /\ p.p = 0) IN
    CASE Prop = "C05" ->
           IF e.par # (IF p.kind = "remote" THEN -1 ELSE par) THEN "span has the wrong parent"
           ELSE IF e.f # p.f THEN "span has the wrong function"
           ELSE IF ~fresh /\ e.tr # (IF p.kind = "remote" THEN p.tr ELSE m.sp[par].tr) THEN "span is in the wrong trace"
           ELSE IF fresh /\ e.tid \in m.ids \cup m.tids THEN "a fresh trace's id is not unique"
           ELSE IF e.id2 \in m.ids \cup m.tids \/ e.id2 = e.tid THEN "a span's id is not unique" ELSE ""
      [] Prop = "C07" ->
           IF Of("F", e.id) # <<>> THEN "a finish was reported during a start"
           ELSE LET j == JudgeSpanNotes("S", e.s, e.tr, e.id, p.at) IN
                IF j # "" THEN j ELSE IF ~e.last THEN "the task did not get the context its observers returned" ELSE ""
      [] Prop = "C09" -> JudgeAllNotes("S", e.s, e.tr, e.id, p.at)
      [] Prop = "C08" -> JudgeWatch(e, e.tr, fresh \/ p.kind = "remote", e.id, p.at)
      [] OTHER -> ""

JudgeEnd(e, p) ==
    CASE Prop = "C07" -> IF Of("S", e.id) # <<>> THEN "a start was reported during a finish"
                         ELSE JudgeSpanNotes("F", e.s, m.sp[e.s].tr, e.id, p.at)
      [] Prop = "C09" -> JudgeAllNotes("F", e.s, m.sp[e.s].tr, e.id, p.at)
      [] Prop = "C08" -> IF Of("W", e.id) # <<>> THEN "a trace was announced when a span ended" ELSE ""
      [] OTHER -> ""

JudgeParents(e, c) ==
    LET by(s) == IF m.sp[s].p = 0 THEN 0 ELSE m.sp[m.sp[s].p].f
        must == {by(s) : s \in {x \in Spans : m.sp[x].f = e.f /\ m.sp[x].sr # 0 /\ m.sp[x].sr < c}}
        may == {by(s) : s \in {x \in Spans : m.sp[x].f = e.f}}
    IN IF ~(must \subseteq Range(e.par)) THEN "a caller is missing"
       ELSE IF ~(Range(e.par) \subseteq may) THEN "a caller was invented"
       ELSE IF Len(e.par) # Cardinality(Range(e.par)) THEN "a caller is listed twice" ELSE ""

JudgeReturn(e) ==
    LET p == m.pend[e.id] IN
    CASE e.o = "start" -> JudgeStart(e, p)
      [] e.o = "end" -> JudgeEnd(e, p)
      [] e.o = "list" /\ Prop = "C03" -> JudgeList(e, p.at)
      [] e.o = "list" /\ Prop = "C04" -> JudgeOrphList(e, p.at)
      [] e.o = "all" /\ Prop = "C03" -> JudgeAll(e, p.at)
      [] e.o = "count" /\ Prop = "C03" -> JudgeCount(e, p.at)
      [] e.o = "orph" /\ Prop = "C04" -> JudgeOrph(e, p.at)
      [] e.o = "parents" /\ Prop = "C19" -> JudgeParents(e, p.at)
      [] OTHER -> IF p.notes # <<>> /\ Prop \in {"C07", "C08", "C09"} THEN "something was reported by an operation that starts and ends nothing" ELSE ""

----------------------------------------------------------------------------
OnCall(e) ==
    LET pend == With(m.pend, e.id, [o |-> e.o, at |-> l, notes |-> <<>>] @@ e) IN
    CASE e.o = "start" ->
           [m EXCEPT !.pend = pend,
                     !.sp = With(@, e.s, [f |-> e.f, p |-> IF e.kind = "task" THEN e.p ELSE 0, tr |-> 0, root |-> e.kind # "task" \/ e.p = 0, sc |-> l, sr |-> 0, ec |-> 0, er |-> 0])]
      [] e.o = "end" -> [m EXCEPT !.pend = pend, !.sp[e.s].ec = l]
      [] e.o = "obs" -> [m EXCEPT !.pend = pend, !.ob = With(@, e.n, [tr |-> e.tr, rc |-> l, rr |-> 0, cc |-> 0, cr |-> 0])]
      [] e.o = "watch" -> [m EXCEPT !.pend = pend, !.wa = With(@, e.n, [rc |-> l, rr |-> 0, cc |-> 0, cr |-> 0])]
      [] e.o = "unobs" -> [m EXCEPT !.pend = pend, !.ob[e.n].cc = IF @ = 0 THEN l ELSE @]
      [] e.o = "unwatch" -> [m EXCEPT !.pend = pend, !.wa[e.n].cc = IF @ = 0 THEN l ELSE @]
      [] OTHER -> [m EXCEPT !.pend = pend]

OnReturn(e) ==
    LET pend == [x \in DOMAIN m.pend \ {e.id} |-> m.pend[x]] IN
    CASE e.o = "start" -> [m EXCEPT !.pend = pend, !.sp[e.s].sr = l, !.sp[e.s].tr = e.tr,
                                    !.ids = @ \cup {e.id2}, !.tids = @ \cup {e.tid}]
      [] e.o = "end" -> [m EXCEPT !.pend = pend, !.sp[e.s].er = l]
      [] e.o = "obs" -> [m EXCEPT !.pend = pend, !.ob[e.n].rr = l]
      [] e.o = "watch" -> [m EXCEPT !.pend = pend, !.wa[e.n].rr = l]
      [] e.o = "unobs" -> [m EXCEPT !.pend = pend, !.ob[e.n].cr = IF @ = 0 THEN l ELSE @]
      [] e.o = "unwatch" -> [m EXCEPT !.pend = pend, !.wa[e.n].cr = IF @ = 0 THEN l ELSE @]
      [] OTHER -> [m EXCEPT !.pend = pend]

Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ m = M0

Ev == Traces[t].ev[l]

Next ==
    /\ bad = "" /\ l <= Len(Traces[t].ev)
    /\ t' = t /\ l' = l + 1
    /\ CASE Ev.k = "h" -> UNCHANGED <<m, bad>>
         [] Ev.k = "x" -> m' = m /\ bad' = "run ended abnormally: " \o Ev.why
         [] Ev.k = "c" -> m' = OnCall(Ev) /\ bad' = ""
         [] Ev.k = "r" -> m' = OnReturn(Ev) /\ bad' = JudgeReturn(Ev)
         [] Ev.k = "n" ->
              IF Ev.id \notin DOMAIN m.pend
              THEN m' = m /\ bad' = IF Prop \in {"C07", "C08", "C09"} THEN "a notification came from nowhere" ELSE ""
              ELSE m' = [m EXCEPT !.pend[Ev.id].notes = Append(@, [w |-> Ev.w, n |-> Ev.n, s |-> Ev.s, chain |-> Ev.chain])] /\ bad' = ""

Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
