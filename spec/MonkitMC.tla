------------------------------- MODULE MonkitMC -------------------------------
(* The Monkit specification as a state machine, within bounds: every program of  *)
(* at most Depth operations drawn from Kinds.  Used for two things.              *)
(*   - The listed properties are checked on the specification itself, stated     *)
(*     over an independent record of the program's history (g), not over the     *)
(*     bookkeeping that Monkit's operators keep.                                  *)
(*   - With Emit, every transition of the bounded machine is printed as a         *)
(*     program (shortest way to its source state, then the operation); check.py   *)
(*     runs them on the real code, and MonkitTrace judges what it did.            *)
EXTENDS Monkit, Json

CONSTANTS Kinds,        \* names of the operations programs are made of
          StartKinds,   \* of task, named, reset, remote
          Outs,         \* of ok, err, panic, panicerr
          NF, MaxSp, MaxTr, MaxCtx, MaxObs, MaxWat, MaxSo, MaxNow,
          Depth, Emit

VARIABLES w, prog, g
vars == <<w, prog, g>>

Fns == 1..NF
Used(x) == {x.sp[s].f : s \in DOMAIN x.sp} \cup {x.so[s].f : s \in DOMAIN x.so}
\* functions are alike: the next new one is the lowest unused
Fresh(x) == {f \in Fns : f \in Used(x) \/ f = 1 + Cardinality(Used(x))}

Room == Len(w.ctx) < MaxCtx

StartOps ==
    IF "start" \in Kinds /\ Len(w.sp) < MaxSp /\ Room THEN
      {o \in [o : {"start"}, kind : StartKinds, f : Fresh(w), c : 1..Len(w.ctx), tr : 0..Len(w.tr), pid : {0, 7}, nargs : {0}] :
          /\ o.kind = "remote" \/ (o.tr = 0 /\ o.pid = 0)
          /\ o.kind = "remote" => o.pid # 0
          /\ (o.kind = "reset" \/ (w.ctx[o.c].span = 0 /\ ~(o.kind = "remote" /\ o.tr # 0))) => Len(w.tr) < MaxTr}
    ELSE {}

Of(k, S) == IF k \in Kinds THEN S ELSE {}

Ops ==
    StartOps
    \cup Of("end", [o : {"end"}, s : LiveSpans(w), out : Outs, e : {1}])
    \cup Of("adv", IF w.now < MaxNow THEN {[o |-> "adv", d |-> 1]} ELSE {})
    \cup Of("newtrace", IF Len(w.tr) < MaxTr THEN {[o |-> "newtrace"]} ELSE {})
    \cup Of("val", IF Room THEN [o : {"val"}, c : 1..Len(w.ctx), key : {1}, v : {1, 2}] ELSE {})
    \cup Of("withcancel", IF Room THEN [o : {"withcancel"}, c : 1..Len(w.ctx)] ELSE {})
    \cup Of("deadline", IF Room THEN [o : {"deadline"}, c : 1..Len(w.ctx), d : {1, 2}] ELSE {})
    \cup Of("detach", IF Room THEN [o : {"detach"}, c : 1..Len(w.ctx)] ELSE {})
    \cup Of("cancel", [o : {"cancel"}, n : (1..w.ncan) \ w.canned])
    \cup Of("obs", IF Len(w.obs) < MaxObs THEN [o : {"obs"}, tr : 1..Len(w.tr), kind : {0, 2}] ELSE {})
    \cup Of("unobs", [o : {"unobs"}, n : {i \in DOMAIN w.obs : w.obs[i].alive}])
    \cup Of("watch", IF Len(w.wat) < MaxWat THEN [o : {"watch"}, auto : IF w.wat = <<>> /\ "auto" \in Kinds THEN {TRUE, FALSE} ELSE {FALSE}] ELSE {})
    \cup Of("unwatch", [o : {"unwatch"}, n : Watchers(w)])
    \cup Of("observe", IF Len(w.so) < MaxSo THEN [o : {"observe"}, f : Fresh(w)] ELSE {})
    \cup Of("observed", [o : {"observed"}, n : {i \in DOMAIN w.so : w.so[i].live}, out : Outs, e : {1}])
    \cup Of("freset", [o : {"freset"}, f : Used(w)])
    \cup Of("ann", {x \in [o : {"ann"}, s : DOMAIN w.sp, key : {1, 2}, v : {1, 2}] : Len(w.sp[x.s].ann) < 3})
    \cup Of("tset", [o : {"tset"}, tr : DOMAIN w.tr, key : {1, 2}, v : {1, 2}])

----------------------------------------------------------------------------
(* The history, recorded independently of Monkit's bookkeeping.               *)
(* calls: every call made: function, outcome ("" while running), duration,     *)
(* whether the function was reset since it ended; peak: highest number of      *)
(* running calls seen since the last reset; notes: all notifications ever.     *)
G0 == [calls |-> <<>>, of |-> <<>>, peak |-> [f \in Fns |-> 0], notes |-> [S |-> <<>>, W |-> <<>>], par |-> [f \in Fns |-> {}]]

RunningIn(calls, f) == Cardinality({i \in DOMAIN calls : calls[i].f = f /\ calls[i].out = ""})

IndexOf(tag, n) == CHOOSE i \in DOMAIN g.of : g.of[i] = <<tag, n>>

Begin(tag, n, f, p) ==
    LET cs == Append(g.calls, [f |-> f, out |-> "", from |-> w.now, d |-> 0, gone |-> FALSE]) IN
    [g EXCEPT !.calls = cs, !.of = Append(@, <<tag, n>>),
              !.peak[f] = LET r == RunningIn(cs, f) IN IF r > @ THEN r ELSE @,
              !.par[f] = @ \cup {p}]
Finish(tag, n, out) ==
    LET i == IndexOf(tag, n) IN
    [g EXCEPT !.calls[i].out = out, !.calls[i].d = w.now - g.calls[i].from]

Record(op, v) ==
    LET h == CASE op.o = "start" -> LET cs == w.ctx[op.c].span IN
                      Begin("s", Len(w.sp) + 1, op.f, IF op.kind \in {"reset", "remote"} \/ cs = 0 THEN 0 ELSE w.sp[cs].f)
               [] op.o = "observe" -> Begin("o", Len(w.so) + 1, op.f, 0)
               [] op.o = "end" -> Finish("s", op.s, op.out)
               [] op.o = "observed" -> Finish("o", op.n, op.out)
               [] op.o = "freset" -> [g EXCEPT !.calls = [i \in DOMAIN @ |-> IF @[i].f = op.f /\ @[i].out # "" THEN [@[i] EXCEPT !.gone = TRUE] ELSE @[i]],
                                               !.peak[op.f] = RunningIn(g.calls, op.f)]
               [] OTHER -> g
    IN [h EXCEPT !.notes = [S |-> Append(@.S, v.seen), W |-> Append(@.W, v.told)]]

Init == w = World0(NF) /\ prog = <<>> /\ g = G0

Next ==
    /\ Len(prog) < Depth
    /\ \E op \in Ops :
         LET v == Apply(w, op) IN
         /\ w' = v
         /\ prog' = Append(prog, op)
         /\ g' = Record(op, v)
         /\ Emit => PrintT("PROG " \o ToJson(prog'))

Spec == Init /\ [][Next]_vars

\* what distinguishes states when generating
World == [w EXCEPT !.told = {}, !.seen = {}]

----------------------------------------------------------------------------
(* The properties, on the specification. *)
Kept(f, P(_)) == {i \in DOMAIN g.calls : g.calls[i].f = f /\ ~g.calls[i].gone /\ P(g.calls[i])}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN g.calls[i].d + Total(S \ {i})
IsDist(d, S) ==
    /\ d.n = Cardinality(S) /\ d.sum = Total(S)
    /\ S # {} => /\ \E i \in S : g.calls[i].d = d.lo
                 /\ \E i \in S : g.calls[i].d = d.hi
                 /\ \E i \in S : g.calls[i].d = d.rec
                 /\ \A i \in S : d.lo <= g.calls[i].d /\ g.calls[i].d <= d.hi

\* C01: every call is counted exactly once, in the right place, with its duration
P01 == \A f \in Fns :
    LET ok == Kept(f, LAMBDA c : c.out = "ok")
        er == Kept(f, LAMBDA c : c.out = "err")
        pa == Kept(f, LAMBDA c : c.out \in {"panic", "panicerr"})
        ru == Kept(f, LAMBDA c : c.out = "") IN
    /\ w.fn[f].cur = Cardinality(ru)
    /\ IsDist(w.fn[f].st, ok) /\ IsDist(w.fn[f].ft, er \cup pa)
    /\ w.fn[f].err[1] = Cardinality(er) /\ w.fn[f].pan = Cardinality(pa)

\* C02
P02 == \A f \in Fns : w.fn[f].hw = g.peak[f] /\ w.fn[f].cur <= w.fn[f].hw

\* C03: the listing is a forest of exactly the running spans
RECURSIVE Up(_, _)
Up(s, n) == IF n = 0 THEN {} ELSE {s} \cup (LET p == (CHOOSE x \in Shown(w) : x[1] = s)[2] IN IF p = 0 THEN {} ELSE Up(p, n - 1))
Running == {g.of[i][2] : i \in {j \in DOMAIN g.calls : g.of[j][1] = "s" /\ g.calls[j].out = ""}}
P03 == /\ LiveSpans(w) = Running
       /\ {x[1] : x \in Shown(w)} = Running /\ Cardinality(Shown(w)) = Cardinality(Running)
       /\ \A s \in Running : Up(s, MaxSp + 1) \cap Roots(w) # {} /\ Cardinality(Up(s, MaxSp + 1) \cap Roots(w)) = 1

\* C04: a running span is orphaned exactly if its parent has finished
P04 == \A s \in Running : w.sp[s].orph <=> (w.sp[s].par # 0 /\ w.sp[s].par \notin Running)

\* C05: a span is in its parent's trace; parents precede children
P05 == \A s \in DOMAIN w.sp : w.sp[s].par # 0 => w.sp[s].par < s /\ w.sp[w.sp[s].par].tr = w.sp[s].tr

\* C07: a span starts and finishes at most once for any observer, in that order, and
\* only observers of its trace are told of it
Told(k, o, s) == {i \in DOMAIN g.notes.S : <<k, o, s>> \in g.notes.S[i]}
P07 == \A o \in DOMAIN w.obs, s \in DOMAIN w.sp :
    LET a == Told("S", o, s) b == Told("F", o, s) IN
    /\ Cardinality(a) <= 1 /\ Cardinality(b) <= 1
    /\ a # {} /\ b # {} => (CHOOSE i \in a : TRUE) < (CHOOSE i \in b : TRUE)
    /\ a \cup b # {} => w.obs[o].tr = w.sp[s].tr
    /\ a # {} /\ w.obs[o].alive /\ s \notin Running => b # {}

\* C08: when a trace gets its first span, every registered watcher is told of it
P08 == [][Len(w'.sp) > Len(w.sp) =>
            LET t == w'.sp[Len(w'.sp)].tr IN
            (~\E s \in DOMAIN w.sp : w.sp[s].tr = t) =>
               /\ \A x \in Watchers(w) : <<x, t>> \in w'.told
               /\ \A n \in w'.told : n[1] \in Watchers(w) /\ n[2] = t]_vars

\* C19
P19 == \A f \in Fns : w.fn[f].par = g.par[f]

\* C20: annotations only grow and keep their order (an action property)
P20 == [][\A s \in DOMAIN w.sp : LET a == w.sp[s].ann b == w'.sp[s].ann IN
              Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))]_vars

\* C06: a context's values never change once made; cancellation is never undone
P06 == [][\A c \in DOMAIN w.ctx : w'.ctx[c] = w.ctx[c] /\ (Probe(w, c).err = 1 => Probe(w', c).err = 1)]_vars
=============================================================================
