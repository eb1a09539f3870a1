------------------------------- MODULE EnvObj -------------------------------
(***************************************************************************)
(* The environment sources.  gc is the number of collections the process    *)
(* has completed and pause the last one's; every runtime source remembers   *)
(* the last collection it saw and summarises the pauses it observed.        *)
(* Times are in nanoseconds (pauses) and microseconds (uptime).             *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

NoPauses == [seen |-> 0, count |-> 0, sum |-> 0, min |-> 0, max |-> 0, recent |-> 0]
EnvInit(h) == [gc |-> IF "gc" \in DOMAIN h THEN h.gc ELSE 0, pause |-> IF "pause" \in DOMAIN h THEN h.pause ELSE 0,
               src |-> [i \in 1..3 |-> NoPauses], up |-> 0, crc |-> IF "crc" \in DOMAIN h THEN h.crc ELSE <<>>]

Observe(d, g, p) ==
    [seen |-> g, count |-> d.count + 1, sum |-> d.sum + p,
     min |-> IF d.count = 0 \/ p < d.min THEN p ELSE d.min,
     max |-> IF d.count = 0 \/ p > d.max THEN p ELSE d.max, recent |-> p]

\* what a report shows; nothing but the count if nothing was observed
Shown(d) == <<d.count, d.sum, d.min, d.max, d.recent>>

EnvStep(s, e) ==
    CASE e.o = "gc" -> {[st |-> [s EXCEPT !.gc = @ + 1, !.pause = e.got[1]], res |-> e.got]}
      [] e.o = "numgc?" -> {[st |-> s, res |-> <<s.gc>>]}
      [] e.o = "gcs" ->
           LET d == s.src[e.src]
               n == IF s.gc # d.seen THEN Observe(d, s.gc, s.pause) ELSE d IN
           {[st |-> [s EXCEPT !.src[e.src] = n], res |-> Shown(n)]}
      [] e.o = "control?" -> {[st |-> s, res |-> <<1>>]}
      [] e.o = "crc?" -> {[st |-> s, res |-> s.crc]}
      [] e.o = "up" -> IF e.got[1] < s.up THEN {} ELSE {[st |-> [s EXCEPT !.up = e.got[1]], res |-> e.got]}
=============================================================================
