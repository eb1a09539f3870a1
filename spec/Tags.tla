-------------------------------- MODULE Tags --------------------------------
(* Tag sets and series keys, and how they render. Strings are sequences of bytes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoTags == [x \in {} |-> <<>>]
\* q is a sequence of <<key, value>>; later ones win
RECURSIVE Overlay(_, _)
Overlay(tags, q) == IF q = <<>> THEN tags ELSE Overlay((Head(q)[1] :> Head(q)[2]) @@ tags, Tail(q))

Comma == 44
Equals == 61
Space == 32
Backslash == 92

RECURSIVE Escape(_, _)
Escape(b, special) ==
    IF b = <<>> THEN <<>>
    ELSE (IF Head(b) \in special THEN <<Backslash, Head(b)>> ELSE <<Head(b)>>) \o Escape(Tail(b), special)
EscTag(b) == Escape(b, {Comma, Equals, Space})
EscMeasurement(b) == Escape(b, {Comma, Space})

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))

RECURSIVE RenderKeys(_, _)
RenderKeys(tags, ks) ==
    IF ks = {} THEN <<>>
    ELSE LET k == CHOOSE x \in ks : \A y \in ks : x = y \/ Less(x, y)
             rest == ks \ {k} IN
         EscTag(k) \o <<Equals>> \o EscTag(tags[k]) \o (IF rest = {} THEN <<>> ELSE <<Comma>> \o RenderKeys(tags, rest))
Render(tags) == RenderKeys(tags, DOMAIN tags)

RenderSeries(m, tags) == EscMeasurement(m) \o (IF DOMAIN tags = {} THEN <<>> ELSE <<Comma>> \o Render(tags))
RenderField(m, tags, f) == RenderSeries(m, tags) \o <<Space>> \o EscTag(f)
=============================================================================
