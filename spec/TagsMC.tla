-------------------------------- MODULE TagsMC --------------------------------
(* Histories of deriving tag sets and series keys as a bounded state machine, over  *)
(* an alphabet of bytes with every one that is escaped.                              *)
EXTENDS TagsRules, Json
CONSTANTS Depth, Emit
VARIABLES h
vars == <<m, h>>

Keys == {<<97>>, <<Equals>>, <<Comma, 97>>}
Vals == {<<97>>, <<Equals, Space>>, <<Backslash>>}

Fresh == 1 + Cardinality({i \in DOMAIN h : h[i].o \notin {"key", "ktags", "with"}})
FreshK == 1 + Cardinality({i \in DOMAIN h : h[i].o \in {"key", "ktags", "with"}})
Pairs == {<<k, v>> : k \in Keys, v \in Vals}
Ops ==
    {[o |-> "set", id |-> Fresh, of |-> i, tags |-> <<p>>] : i \in DOMAIN m.ts, p \in Pairs}
    \cup {[o |-> "settags", id |-> Fresh, of |-> i, tags |-> <<p, q>>] : i \in DOMAIN m.ts, p \in Pairs, q \in Pairs}
    \cup (IF m.ks = <<>> THEN {[o |-> "key", id |-> FreshK, m |-> <<97, Comma, Space>>]} ELSE {})
    \cup {[o |-> "with", id |-> FreshK, of |-> i, tags |-> <<p>>] : i \in DOMAIN m.ks, p \in Pairs}

Init == m = M0 /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E e \in Ops : /\ m' = Apply(e) /\ h' = Append(h, e)
                          /\ Emit => PrintT("PROG " \o ToJson(h'))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* reading a rendering back, knowing nothing but the escaping
RECURSIVE Field(_, _)
\* the bytes up to the first unescaped stop, unescaped, and what is left
Field(b, stop) ==
    IF b = <<>> THEN <<(<<>>), <<>>, FALSE>>
    ELSE IF Head(b) = Backslash /\ Len(b) > 1 /\ b[2] \in {Comma, Equals, Space}
         THEN LET r == Field(SubSeq(b, 3, Len(b)), stop) IN <<(<<b[2]>> \o r[1]), r[2], r[3]>>
    ELSE IF Head(b) = stop THEN <<(<<>>), Tail(b), TRUE>>
    ELSE LET r == Field(Tail(b), stop) IN <<(<<Head(b)>> \o r[1]), r[2], r[3]>>
RECURSIVE Read(_)
Read(b) == IF b = <<>> THEN <<>>
           ELSE LET k == Field(b, Equals) v == Field(k[2], Comma) IN << <<k[1], v[1]>> >> \o Read(v[2])
Plain(tags) == \A k \in DOMAIN tags : Backslash \notin RangeOf(k) \cup RangeOf(tags[k])

\* by the history: the pairs a set was made with, oldest first
RECURSIVE MadeWith(_)
MadeWith(id) == IF id = 0 THEN <<>>
                ELSE LET e == CHOOSE x \in RangeOf(h) : x.o \in {"set", "settags"} /\ x.id = id IN MadeWith(e.of) \o e.tags
LastOf(q, k) == q[CHOOSE i \in DOMAIN q : q[i][1] = k /\ \A j \in DOMAIN q : q[j][1] = k => j <= i][2]

(* C15: a set holds exactly what it was made with, the last of each key; a rendering *)
(* reads back as that, in the order of keys; sets with the same content render the    *)
(* same                                                                               *)
P15 == \A i \in DOMAIN m.ts :
    LET q == MadeWith(i)
        x == m.ts[i]
        r == Read(Render(x)) IN
    /\ DOMAIN x = {q[j][1] : j \in DOMAIN q} /\ \A k \in DOMAIN x : x[k] = LastOf(q, k)
    /\ Plain(x) => /\ {r[j] : j \in DOMAIN r} = {<<k, x[k]>> : k \in DOMAIN x} /\ Len(r) = Cardinality(DOMAIN x)
                   /\ \A j \in 1..(Len(r) - 1) : Less(r[j][1], r[j + 1][1])
    /\ \A j \in DOMAIN m.ts : (Plain(x) /\ Plain(m.ts[j])) => ((Render(x) = Render(m.ts[j])) = (x = m.ts[j]))
\* nothing that exists ever changes
Immutable == [][(\A i \in DOMAIN m.ts : m'.ts[i] = m.ts[i]) /\ \A i \in DOMAIN m.ks : m'.ks[i] = m.ks[i]]_vars
=============================================================================
