------------------------------- MODULE Monkit -------------------------------
(***************************************************************************)
(* The sequential meaning of monkit's task, span, trace, observer, context  *)
(* and function-statistics interface: one abstract state (the world), and   *)
(* one operator that applies an operation to it.  Used                      *)
(*   - by MonkitMC, to check the listed properties on the specification,    *)
(*   - by MonkitGen, to generate programs that are run on the real code,    *)
(*   - by MonkitTrace, to check what the real code did.                     *)
(*                                                                          *)
(* Spans, traces, contexts, observers, watchers and stand-alone             *)
(* observations are numbered in order of creation; 0 means none.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NE == 20         \* kinds of errors, told apart by name
NK == 36         \* keys of a trace's values
Nil == 100       \* the value nil, set like any other

Dist0 == [n |-> 0, sum |-> 0, lo |-> 0, hi |-> 0, rec |-> 0]
Ins(d, v) == [n |-> d.n + 1, sum |-> d.sum + v, rec |-> v,
              lo |-> IF d.n = 0 \/ v < d.lo THEN v ELSE d.lo,
              hi |-> IF d.n = 0 \/ v > d.hi THEN v ELSE d.hi]

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Fn0 == [cur |-> 0, hw |-> 0, par |-> {}, st |-> Dist0, ft |-> Dist0,
        err |-> [i \in 1..NE |-> 0], pan |-> 0]
Tr0 == [vals |-> [k \in 1..NK |-> 0]]
\* span: what SpanFromCtx gives; kv: user values; can: cancellation scopes; dl: deadline (0 none)
Bg == [span |-> 0, kv |-> <<>>, can |-> {}, dl |-> 0]

World0(nf) ==
    [now |-> 0, fn |-> [i \in 1..nf |-> Fn0], sp |-> <<>>, tr |-> <<>>, ctx |-> <<Bg>>,
     obs |-> <<>>, wat |-> <<>>, so |-> <<>>, canned |-> {}, ncan |-> 0,
     told |-> {}, seen |-> {}, news |-> 0]

KV(kv, k) == IF k \in DOMAIN kv THEN kv[k] ELSE 0

Observers(w, t) == {o \in DOMAIN w.obs : w.obs[o].tr = t /\ w.obs[o].alive}
Watchers(w) == {x \in DOMAIN w.wat : w.wat[x].alive}
LiveSpans(w) == {s \in DOMAIN w.sp : w.sp[s].live}
LiveCalls(w, f) == Cardinality({s \in LiveSpans(w) : w.sp[s].f = f})
                 + Cardinality({s \in DOMAIN w.so : w.so[s].live /\ w.so[s].f = f})

----------------------------------------------------------------------------
(* Functions *)
FnStart(fn, caller) == [fn EXCEPT !.cur = @ + 1, !.hw = Max(@, fn.cur + 1), !.par = @ \cup {caller}]

\* out: "ok", "err", "panic", "panicerr"
FnEnd(fn, out, e, d) ==
    LET f1 == [fn EXCEPT !.cur = @ - 1] IN
    CASE out = "ok" -> [f1 EXCEPT !.st = Ins(@, d)]
      [] out = "err" -> [f1 EXCEPT !.ft = Ins(@, d), !.err[e] = @ + 1]
      [] OTHER -> [f1 EXCEPT !.ft = Ins(@, d), !.pan = @ + 1]

FnReset(fn) == [Fn0 EXCEPT !.cur = fn.cur, !.hw = fn.cur, !.par = fn.par]

----------------------------------------------------------------------------
(* Traces: every registered watcher is told of a trace when it starts.  A    *)
(* watcher may register a span observer on the trace it is told of (auto).   *)
Announce(w, t) ==
    LET autos == {x \in Watchers(w) : w.wat[x].auto} IN
    [w EXCEPT !.told = {<<x, t>> : x \in Watchers(w)},
              !.obs = IF autos = {} THEN @ ELSE Append(@, [tr |-> t, alive |-> TRUE, kind |-> 0])]

ApplyStart(w0, e) ==
    LET w  == [w0 EXCEPT !.told = {}, !.seen = {}]
        c  == IF e.c <= 0 THEN Bg ELSE w.ctx[e.c]
        cs == c.span
        given == e.kind = "remote" /\ e.tr # 0
        fresh == e.kind = "reset" \/ (cs = 0 /\ ~given)
        t  == IF given THEN e.tr ELSE IF fresh THEN Len(w.tr) + 1 ELSE w.sp[cs].tr
        w1 == IF fresh THEN [w EXCEPT !.tr = Append(@, Tr0)] ELSE w
        w2 == IF fresh \/ given THEN Announce(w1, t) ELSE w1
        par == IF e.kind \in {"reset", "remote"} THEN 0 ELSE cs
        s  == Len(w.sp) + 1
        span == [f |-> e.f, tr |-> t, par |-> par, rem |-> IF e.kind = "remote" THEN e.pid ELSE -1,
                 start |-> w.now, live |-> TRUE, orph |-> par # 0 /\ ~w.sp[par].live,
                 ann |-> <<>>, nargs |-> e.nargs]
        ob == Observers(w2, t)
        wraps == {o \in ob : w2.obs[o].kind = 2}
        c2 == [c EXCEPT !.span = IF \E o \in ob : w2.obs[o].kind = 3 THEN 0 ELSE s,
                        !.kv = [k \in DOMAIN @ \cup {10 + o : o \in wraps} |->
                                  IF k - 10 \in wraps THEN s ELSE c.kv[k]]]
    IN [w2 EXCEPT !.sp = Append(@, span),
                  !.fn[e.f] = FnStart(@, IF par = 0 THEN 0 ELSE w.sp[par].f),
                  !.ctx = Append(@, IF e.c = 0 THEN Bg ELSE c2),
                  !.seen = {<<"S", o, s>> : o \in ob}]

EndSpan(w, s, out, er) ==
    LET sp == w.sp[s] IN
    [w EXCEPT !.fn[sp.f] = FnEnd(@, out, er, w.now - sp.start),
              !.sp = [x \in DOMAIN @ |->
                        IF x = s THEN [@[x] EXCEPT !.live = FALSE]
                        ELSE IF @[x].par = s /\ @[x].live THEN [@[x] EXCEPT !.orph = TRUE] ELSE @[x]],
              !.seen = @ \cup {<<"F", o, s>> : o \in Observers(w, sp.tr)}]

RECURSIVE Unwind(_, _)
Unwind(w, ss) == IF ss = <<>> THEN w ELSE Unwind(EndSpan(w, Head(ss), "panic", 0), Tail(ss))

Quiet(w) == [w EXCEPT !.told = {}, !.seen = {}]

Apply(w0, e) ==
    LET w == Quiet(w0) IN
    CASE e.o = "start"   -> ApplyStart(w, e)
      [] e.o = "end"     -> EndSpan(w, e.s, e.out, e.e)
      [] e.o = "unwind"  -> Unwind(w, e.ss)
      [] e.o = "adv"     -> [w EXCEPT !.now = @ + e.d]
      [] e.o = "newtrace"-> [w EXCEPT !.tr = Append(@, Tr0)]
      [] e.o = "val"     -> [w EXCEPT !.ctx = Append(@, [w.ctx[e.c] EXCEPT !.kv = (e.key :> e.v) @@ @])]
      [] e.o = "withcancel" -> [w EXCEPT !.ncan = @ + 1,
                                 !.ctx = Append(@, [w.ctx[e.c] EXCEPT !.can = @ \cup {w.ncan + 1}])]
      [] e.o = "deadline"-> [w EXCEPT !.ctx = Append(@, [w.ctx[e.c] EXCEPT
                                 !.dl = IF @ = 0 THEN e.d ELSE Min(@, e.d)])]
      [] e.o = "detach"  -> [w EXCEPT !.ctx = Append(@, [w.ctx[e.c] EXCEPT !.span = 0])]
      [] e.o = "cancel"  -> [w EXCEPT !.canned = @ \cup {e.n}]
      [] e.o = "obs"     -> [w EXCEPT !.obs = Append(@, [tr |-> e.tr, alive |-> TRUE, kind |-> e.kind])]
      [] e.o = "unobs"   -> [w EXCEPT !.obs[e.n].alive = FALSE]
      [] e.o = "watch"   -> [w EXCEPT !.wat = Append(@, [alive |-> TRUE, auto |-> e.auto])]
      [] e.o = "unwatch" -> [w EXCEPT !.wat[e.n].alive = FALSE]
      [] e.o = "observe" -> [w EXCEPT !.fn[e.f] = FnStart(@, 0),
                                      !.so = Append(@, [f |-> e.f, start |-> w.now, live |-> TRUE])]
      [] e.o = "observed"-> [w EXCEPT !.fn[w.so[e.n].f] = FnEnd(@, e.out, e.e, w.now - w.so[e.n].start),
                                      !.so[e.n].live = FALSE]
      [] e.o = "freset"  -> [w EXCEPT !.fn[e.f] = FnReset(@)]
      [] e.o = "ann"     -> [w EXCEPT !.sp[e.s].ann = Append(@, <<e.key, e.v>>)]
      [] e.o = "tset"    -> [w EXCEPT !.tr[e.tr].vals[e.key] = e.v]
      [] OTHER           -> w     \* reads: list, fstats, parents, anns, tget, probe

----------------------------------------------------------------------------
(* What the observable results of an operation must be. *)

Parent(w, s) == w.sp[s].par
Shown(w) == {<<s, IF w.sp[s].par # 0 /\ w.sp[w.sp[s].par].live THEN w.sp[s].par ELSE 0>> : s \in LiveSpans(w)}
Roots(w) == {s \in LiveSpans(w) : w.sp[s].par = 0 \/ ~w.sp[w.sp[s].par].live}
TraceSpans(w, t) == Cardinality({s \in LiveSpans(w) : w.sp[s].tr = t})
\* (a remote parent's id may be that of a span of this process: 2000000 + its number)
ParentInfo(w, s) == IF w.sp[s].rem >= 2000000 THEN <<1, w.sp[s].rem - 2000000>>
                    ELSE IF w.sp[s].rem # -1 THEN <<2, w.sp[s].rem>>
                    ELSE IF w.sp[s].par # 0 THEN <<1, w.sp[s].par>> ELSE <<0, 0>>
DistOf(d) == <<d.n, d.sum, d.lo, d.hi, d.rec>>
Probe(w, c) == LET x == w.ctx[c] IN
    [span |-> x.span, kv |-> [k \in 1..3 |-> KV(x.kv, k)],
     wraps |-> {k - 10 : k \in {j \in DOMAIN x.kv : j > 10}},
     err |-> IF x.can \cap w.canned # {} THEN 1 ELSE 0, dl |-> x.dl]

RECURSIVE SumErr(_, _)
SumErr(f, n) == IF n = 0 THEN 0 ELSE f.err[n] + SumErr(f, n - 1)
Errs(f) == SumErr(f, NE)
=============================================================================
