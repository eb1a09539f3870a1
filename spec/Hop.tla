-------------------------------- MODULE Hop --------------------------------
(***************************************************************************)
(* Trace information in HTTP headers.  Header values are sequences of bytes,  *)
(* ids are sequences of 16 hexadecimal digits (0..15).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RangeOf(q) == {q[i] : i \in DOMAIN q}

RECURSIVE Split(_, _)
Split(b, c) ==
    IF \A i \in DOMAIN b : b[i] # c THEN <<b>>
    ELSE LET k == CHOOSE i \in DOMAIN b : b[i] = c /\ \A j \in 1..(i - 1) : b[j] # c
         IN <<SubSeq(b, 1, k - 1)>> \o Split(SubSeq(b, k + 1, Len(b)), c)

HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1

RECURSIVE StripZeros(_)
StripZeros(h) == IF h # <<>> /\ Head(h) = 0 THEN StripZeros(Tail(h)) ELSE h
\* the number as 16 digits, or <<>> if the text is no 64 bit hexadecimal number
Hex(b) ==
    LET h == [i \in DOMAIN b |-> HexVal(b[i])]
        s == StripZeros(h) IN
    IF b = <<>> \/ -1 \in RangeOf(h) \/ Len(s) > 16 THEN <<>> ELSE [i \in 1..(16 - Len(s)) |-> 0] \o s
Zero16 == [i \in 1..16 |-> 0]

NoInfo == [has |-> FALSE, tid |-> <<>>, pid |-> <<>>, sampled |-> FALSE]

Contains(b, w) == \E i \in 0..(Len(b) - Len(w)) : SubSeq(b, i + 1, i + Len(w)) = w
SampledTrue == <<115, 97, 109, 112, 108, 101, 100, 61, 116, 114, 117, 101>>   \* "sampled=true"

\* what the headers say: traceparent and tracestate
Parse(tp, ts) ==
    IF tp # <<>>
    THEN LET p == Split(tp, 45) IN
         IF Len(p) # 4 THEN NoInfo
         ELSE IF Hex(p[1]) # Zero16 \/ Hex(p[2]) = <<>> \/ Hex(p[3]) = <<>> \/ Hex(p[4]) = <<>> THEN NoInfo
         ELSE [has |-> TRUE, tid |-> Hex(p[2]), pid |-> Hex(p[3]), sampled |-> Hex(p[4])[16] % 2 = 1]
    ELSE [NoInfo EXCEPT !.sampled = Contains(ts, SampledTrue)]

\* the allowed baggage, as the set of <<key, value>>; the last value of a key counts
BagItem(b) == IF \A i \in DOMAIN b : b[i] # 61 THEN <<>>
              ELSE LET k == CHOOSE i \in DOMAIN b : b[i] = 61 /\ \A j \in 1..(i - 1) : b[j] # 61
                   IN << SubSeq(b, 1, k - 1), SubSeq(b, k + 1, Len(b)) >>
Bag(tp, ts, bg, allowed) ==
    IF ~Parse(tp, ts).has \/ bg = <<>> THEN {}
    ELSE LET q == Split(bg, 44)
             items == [i \in DOMAIN q |-> BagItem(q[i])]
             ok == {i \in DOMAIN q : items[i] # <<>> /\ items[i][1] \in allowed} IN
         {items[i] : i \in {j \in ok : \A k \in ok : k > j => items[k][1] # items[j][1]}}

\* what survives of information written: everything if there is a trace and a parent, else sampling
Survives(i) == IF i.tid # <<>> /\ i.pid # <<>> THEN [has |-> TRUE, tid |-> i.tid, pid |-> i.pid, sampled |-> i.sampled]
               ELSE [NoInfo EXCEPT !.sampled = i.sampled]
\* baggage goes with a trace, and is admitted if allowed
SurvivingBag(i, allowed) == IF Survives(i).has THEN {x \in RangeOf(i.bag) : x[1] \in allowed} ELSE {}
\* what a client under a span sends: nothing unless the trace is sampled
Sends(c) == IF c.sampled THEN [has |-> TRUE, tid |-> c.tid, pid |-> IF c.pid # <<>> THEN c.pid ELSE c.sid, sampled |-> TRUE] ELSE NoInfo
=============================================================================
