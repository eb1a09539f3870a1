------------------------------ MODULE ErrNames ------------------------------
(***************************************************************************)
(* Naming errors.  Handlers are asked, newest first, until one claims the   *)
(* error; then the error itself; then its kind decides.  A handler may      *)
(* itself run a monitored call that fails (nest) or add another handler     *)
(* (adds) each time it is asked.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* kind of error -> built-in name
BuiltIn == [eof |-> "EOF", ueof |-> "Unexpected EOF Error", pipe |-> "Closed Pipe Error",
    noprog |-> "No Progress Error", sbuf |-> "Short Buffer Error", swrite |-> "Short Write Error",
    cancel |-> "Canceled", dead |-> "Timeout", errno |-> "Errno", errno0 |-> "Errno",
    unknet |-> "Unknown Network Error", addr |-> "Addr Error", invaddr |-> "Invalid Addr Error",
    op |-> "Net Op Error", parse |-> "Net Parse Error", dns |-> "DNS Error", dnsconf |-> "DNS Config Error",
    net |-> "Network Error"]
KindName(k) == IF k \in DOMAIN BuiltIn THEN BuiltIn[k] ELSE "System Error"

\* an error: [kind, names (it can name itself), claim (it does), own]
Own(x) == IF x.claim THEN x.own ELSE KindName(x.kind)

Claims(h, x) == \E i \in DOMAIN h.claims : h.claims[i] = x.id
\* the handlers asked, newest first
RECURSIVE Asked(_, _, _)
Asked(hs, i, x) == IF i = 0 THEN <<>> ELSE IF Claims(hs[i], x) THEN <<hs[i]>> ELSE <<hs[i]>> \o Asked(hs, i - 1, x)
NameOf(hs, x) ==
    IF \E i \in DOMAIN hs : Claims(hs[i], x)
    THEN LET i == CHOOSE i \in DOMAIN hs : Claims(hs[i], x) /\ \A j \in (i + 1)..Len(hs) : ~Claims(hs[j], x) IN hs[i].name
    ELSE Own(x)
=============================================================================
