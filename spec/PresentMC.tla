------------------------------ MODULE PresentMC ------------------------------
(* Writing the documents of running spans, one part at a time, for every forest of    *)
(* up to MaxSp spans, with one fault at most: a part left out, written twice, or        *)
(* exchanged with another.  C18: a document written without a fault is what Present      *)
(* accepts, and one with a fault that makes a different document is not.                 *)
EXTENDS Present
CONSTANTS MaxSp
VARIABLES spans, todo, out, fault
vars == <<spans, todo, out, fault>>

\* a forest: the parent of each span, 0 or an earlier one
Forests == UNION {{p \in [1..n -> 0..(n - 1)] : \A i \in 1..n : p[i] < i} : n \in 0..MaxSp}
RECURSIVE Depth(_, _)
Depth(p, i) == IF p[i] = 0 THEN 0 ELSE 1 + Depth(p, p[i])
Mk(p, a) == [i \in DOMAIN p |-> [id |-> ToString(i), trace |-> "9", full |-> IF i = 2 THEN "pkg.f" ELSE "pkg.g", args |-> IF i = 1 THEN <<"\"x\"", "2">> ELSE <<>>,
    dur |-> "1s", orph |-> i = 3, ann |-> IF i = a THEN << <<"k", "v">>, <<"k2", "">> >> ELSE <<>>, depth |-> Depth(p, i),
    under |-> IF p[i] = 0 THEN <<>> ELSE <<ToString(p[i])>>]]

\* the text: depth first, a line for the span and each annotation, a blank after a root
RECURSIVE Write(_, _), WriteAll(_, _)
Kids(ss, id) == SelectSeq(ss, LAMBDA s : s.under = id)
Write(ss, s) == <<SpanLine(s, Spaces(s.depth))>> \o [i \in DOMAIN s.ann |-> AnnLine(s.ann[i], Spaces(s.depth))]
                \o WriteAll(ss, Kids(ss, <<s.id>>)) \o (IF s.depth = 0 THEN <<"">> ELSE <<>>)
WriteAll(ss, q) == IF q = <<>> THEN <<>> ELSE Write(ss, Head(q)) \o WriteAll(ss, Tail(q))
Doc(ss) == WriteAll(ss, Kids(ss, <<>>)) \o <<"">>

Init == /\ \E p \in Forests, a \in 0..MaxSp : spans = Mk(p, a)
        /\ todo = Doc(spans) /\ out = <<>> /\ fault = "none"
Put == todo # <<>> /\ out' = Append(out, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<spans, fault>>
Fault == /\ todo # <<>> /\ fault = "none" /\ UNCHANGED spans
         /\ \/ todo' = Tail(todo) /\ UNCHANGED out /\ fault' = "left out"
            \/ out' = Append(out, Head(todo)) /\ UNCHANGED todo /\ fault' = "twice"
            \/ \E i \in 2..Len(todo) : todo' = [todo EXCEPT ![1] = todo[i], ![i] = todo[1]] /\ fault' = "exchanged" /\ UNCHANGED out
Next == Put \/ Fault
Spec == Init /\ [][Next]_vars /\ WF_vars(Put)

\* the same spans in another order of siblings make another document that is as good
Shuffles == {Doc(q) : q \in Perms(spans)}
Nodes == [i \in DOMAIN spans |-> <<"f" \o spans[i].id, SpanLabel(spans[i])>>]
Edges == LET k == SelectSeq(spans, LAMBDA s : s.depth > 0) IN [i \in DOMAIN k |-> <<"f" \o k[i].under[1], "f" \o k[i].id>>]
P18 ==
    /\ todo = <<>> => (SpansTextOK(out, spans) = (out \in Shuffles))
    /\ SpansDotOK(Nodes, Edges, spans)
    /\ \A i \in DOMAIN Nodes : ~SpansDotOK([Nodes EXCEPT ![i][2] = @ \o "x"], Edges, spans) /\ ~SpansDotOK(Nodes \o <<Nodes[i]>>, Edges, spans)
    /\ \A i \in DOMAIN Edges : ~SpansDotOK(Nodes, Edges \o <<Edges[i]>>, spans) /\ ~SpansDotOK(Nodes, SubSeq(Edges, 2, Len(Edges)), spans)
=============================================================================
