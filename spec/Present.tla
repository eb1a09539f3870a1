------------------------------ MODULE Present ------------------------------
(* What the presented documents are, as a function of the registry's content:    *)
(* the documents' texts (strings), the graphs, lists and drawings they describe, *)
(* and which requests lead to which.                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

RangeOf(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in RangeOf(a) : Count(a, x) = Count(b, x)

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN "" ELSE s[1] \o Concat(Tail(s))
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE " " \o Spaces(n - 1)
RECURSIVE Sum(_, _)
Sum(F(_), s) == IF s = <<>> THEN 0 ELSE F(Head(s)) + Sum(F, Tail(s))

Perms(s) == {[i \in 1..Len(s) |-> s[p[i]]] : p \in {q \in [1..Len(s) -> 1..Len(s)] : \A i, j \in 1..Len(s) : i # j => q[i] # q[j]}}

(* ---- running spans ---- *)

SpanLine(s, indent) ==
    indent \o "[" \o s.id \o "," \o s.trace \o "] " \o s.full \o "(" \o Join(s.args, ", ") \o ") (elapsed: " \o s.dur
           \o (IF s.orph THEN ", orphaned" ELSE "") \o ")"
AnnLine(a, indent) == indent \o "  " \o a[1] \o ": " \o a[2]

\* where the text has span s
At(lines, s) == {i \in 1..Len(lines) : lines[i] = SpanLine(s, Spaces(s.depth))}

\* every span once, annotations below it, children below their parent and
\* indented, an empty line after every root
SpansTextOK(lines, spans) ==
    LET N == Len(spans) IN
    /\ Len(lines) = Sum(LAMBDA s : 1 + Len(s.ann) + (IF s.depth = 0 THEN 1 ELSE 0), spans) + 1
    /\ lines[Len(lines)] = ""
    /\ N > 0 => lines[1] # "" /\ lines[Len(lines) - 1] = ""
    /\ \A k \in 1..N : Cardinality(At(lines, spans[k])) = 1
    /\ LET pos == [k \in 1..N |-> CHOOSE i \in 1..Len(lines) : i \in At(lines, spans[k])] IN
       /\ \A k \in 1..N : \A a \in 1..Len(spans[k].ann) : pos[k] + a <= Len(lines) /\ lines[pos[k] + a] = AnnLine(spans[k].ann[a], Spaces(spans[k].depth))
       /\ \A k \in 1..N :
             IF spans[k].depth = 0 THEN pos[k] = 1 \/ lines[pos[k] - 1] = ""
             ELSE \E j \in 1..N : /\ spans[j].id = spans[k].under[1] /\ pos[j] < pos[k]
                                  /\ \A x \in 1..N : pos[j] < pos[x] /\ pos[x] < pos[k] => spans[x].depth > spans[j].depth

SpanLabel(s) ==
    s.full \o "(" \o Join(s.args, ", ") \o ")\nelapsed: " \o s.dur \o "\n" \o (IF s.orph THEN "orphaned\n" ELSE "")
           \o Concat([i \in 1..Len(s.ann) |-> s.ann[i][1] \o ": " \o s.ann[i][2] \o "\n"])

SpansDotOK(nodes, edges, spans) ==
    /\ SameBag(nodes, [i \in 1..Len(spans) |-> <<"f" \o spans[i].id, SpanLabel(spans[i])>>])
    /\ LET kids == SelectSeq(spans, LAMBDA s : s.depth > 0) IN
       SameBag(edges, [i \in 1..Len(kids) |-> <<"f" \o kids[i].under[1], "f" \o kids[i].id>>])

SpanRec(s) == [id |-> s.id, parent |-> s.parent, pkg |-> s.pkg, name |-> s.name, trace |-> s.trace, start |-> s.start, elapsed |-> s.elapsed,
               orph |-> s.orph, argsq |-> s.argsq, ann |-> s.ann]
SpansJSONOK(list, spans) ==
    SameBag([i \in 1..Len(list) |-> SpanRec(list[i])], [i \in 1..Len(spans) |-> SpanRec(spans[i])])

(* ---- functions ---- *)

\* r: the average of the sample, which depends on its order in the last digits
DistLines(d, r, indent) ==
    [i \in 1..Len(d.q) |-> indent \o d.q[i][1] \o ": " \o d.q[i][2]]
      \o <<indent \o "avg: " \o d.avg[1], indent \o "ravg: " \o r[1], indent \o "recent: " \o d.recent[1], indent \o "sum: " \o d.sum[1]>>

Counts(f) == "current: " \o f.cur \o ", highwater: " \o f.hw \o ", success: " \o f.succ \o ", errors: " \o f.nerr \o ", panics: " \o f.pan
ErrLine(e) == "error " \o e[1] \o ": " \o e[2]
Callers(f) == f.parents \o (IF f.entry THEN <<"entry">> ELSE <<>>)
Times(f) == {<<"  success times:">> \o DistLines(f.st, r, "    ") \o <<"  failure times:">> \o DistLines(f.ft, q, "    ") \o <<"">> :
               r \in RangeOf(f.st.ravg), q \in RangeOf(f.ft.ravg)}
BlockLen(f) == 3 + Len(f.errs) + 3 + Len(f.st.q) + 4 + Len(f.ft.q) + 4

FuncBlockOK(lines, i, f) ==
    LET n == Len(f.errs) IN
    /\ i + BlockLen(f) - 1 <= Len(lines)
    /\ lines[i + 1] \in {"  parents: " \o Join(p, ", ") : p \in Perms(Callers(f))}
    /\ lines[i + 2] = "  " \o Counts(f)
    /\ {lines[i + 2 + k] : k \in 1..n} = {"  " \o ErrLine(f.errs[k]) : k \in 1..n}
    /\ \E tm \in Times(f) : \A k \in 1..Len(tm) : lines[i + 2 + n + k] = tm[k]

FuncsTextOK(lines, funcs) ==
    /\ Len(lines) = Sum(BlockLen, funcs) + 1
    /\ lines[Len(lines)] = ""
    /\ \A k \in 1..Len(funcs) :
          LET at == {i \in 1..Len(lines) : lines[i] = "[" \o funcs[k].id \o "] " \o funcs[k].full} IN
          Cardinality(at) = 1 /\ \A i \in at : FuncBlockOK(lines, i, funcs[k])

Lines(s) == Concat([i \in 1..Len(s) |-> s[i] \o "\n"])
FuncLabelOK(label, f) ==
    \E p \in Perms(f.errs), r \in RangeOf(f.st.ravg), q \in RangeOf(f.ft.ravg) :
       label = f.full \o "\n" \o Counts(f) \o "\n" \o Concat([i \in 1..Len(p) |-> ErrLine(p[i]) \o "\n"])
               \o (IF f.succ # "0" THEN "success times:\n" \o Lines(DistLines(f.st, r, "        ")) ELSE "")
               \o (IF f.nerr # "0" \/ f.pan # "0" THEN "failure times:\n" \o Lines(DistLines(f.ft, q, "        ")) ELSE "")

FuncsDotOK(nodes, edges, funcs) ==
    LET ent == SelectSeq(funcs, LAMBDA f : f.entry) IN
    /\ Len(nodes) = Len(funcs) + Len(ent)
    /\ \A k \in 1..Len(funcs) : \E i \in 1..Len(nodes) : nodes[i][1] = "f" \o funcs[k].id /\ FuncLabelOK(nodes[i][2], funcs[k])
    /\ \A k \in 1..Len(ent) : Count(nodes, <<"r" \o ent[k].id, "entry">>) = 1
    /\ RangeOf(edges) = {<<"r" \o ent[k].id, "f" \o ent[k].id>> : k \in 1..Len(ent)}
                          \cup UNION {{<<"f" \o p, "f" \o funcs[k].id>> : p \in RangeOf(funcs[k].parents)} : k \in 1..Len(funcs)}
    /\ Len(edges) = Cardinality(RangeOf(edges))

DistRec(d) == [avg |-> d.avg[2], full |-> d.avg[2], recent |-> d.recent[2], high |-> d.high[2], low |-> d.low[2],
               q |-> {<<d.q[i][1], d.q[i][3]>> : i \in 1..Len(d.q)}]
DistDoc(d) == [avg |-> d.avg, full |-> d.full, recent |-> d.recent, high |-> d.high, low |-> d.low, q |-> RangeOf(d.q)]
FuncRec(f, st, ft) == [id |-> f.id, pkg |-> f.pkg, name |-> f.name, parents |-> RangeOf(f.parents), np |-> Len(f.parents), entry |-> f.entry,
                       errs |-> RangeOf(f.errs), cur |-> f.cur, hw |-> f.hw, succ |-> f.succ, pan |-> f.pan, st |-> st, ft |-> ft]
FuncsJSONOK(list, funcs) ==
    /\ SameBag([i \in 1..Len(list) |-> FuncRec(list[i], DistDoc(list[i].st), DistDoc(list[i].ft))],
            [i \in 1..Len(funcs) |-> FuncRec(funcs[i], DistRec(funcs[i].st), DistRec(funcs[i].ft))])
    /\ \A i \in 1..Len(list), k \in 1..Len(funcs) : list[i].id = funcs[k].id =>
          list[i].st.ravg \in {r[2] : r \in RangeOf(funcs[k].st.ravg)} /\ list[i].ft.ravg \in {r[2] : r \in RangeOf(funcs[k].ft.ravg)}

(* ---- stats ---- *)

StatsTextOK(lines, rows) == SameBag(lines, [i \in 1..Len(rows) |-> rows[i].key \o "=" \o rows[i].str] \o <<"">>) /\ lines[Len(lines)] = ""
\* JSON has no numbers that are not finite
StatsJSONOK(list, rows) ==
    SameBag(list, [i \in 1..Len(rows) |-> [m |-> rows[i].m, tags |-> rows[i].tags, f |-> rows[i].f, bits |-> IF rows[i].fin THEN rows[i].bits ELSE ""]])

(* ---- finished spans ---- *)

FinRec(s) == [id |-> s.id, parent |-> s.parent, pkg |-> s.pkg, name |-> s.name, trace |-> s.trace, start |-> s.start, finish |-> s.finish,
              orph |-> s.orph, err |-> s.err, pan |-> s.pan, argsq |-> s.argsq, ann |-> s.ann]
FinJSONOK(list, spans) == [i \in 1..Len(list) |-> FinRec(list[i])] = [i \in 1..Len(spans) |-> FinRec(spans[i])]

Colour(s) == CASE s.pan -> "rgb(255,0,0)" [] s.cancel -> "rgb(255,255,0)" [] s.iserr -> "rgb(255,144,0)" [] OTHER -> "rgb(128,128,255)"
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Near(a, b) == a - b \in -1..1

SVGOK(e) ==
    LET spans == e.spans  list == e.list  W == 1200
        lo == MinOf({s.ust : s \in RangeOf(spans)})  hi == MaxOf({s.ufi : s \in RangeOf(spans)})
        X(u) == IF hi = lo THEN 0 ELSE ((u - lo) * W) \div (hi - lo)
        Of(id) == CHOOSE s \in RangeOf(spans) : s.id = id
        Par(s) == IF s.parent # <<>> /\ \E p \in RangeOf(spans) : p.id = s.parent[1] THEN s.parent ELSE <<>> IN
    /\ e.width = W /\ e.box
    /\ SameBag([i \in 1..Len(list) |-> list[i].id], [i \in 1..Len(spans) |-> spans[i].id])
    /\ \A i \in 1..Len(list) :
          LET d == list[i]  s == Of(d.id)  p == Par(s) IN
          /\ i = 1 \/ Of(list[i - 1].id).ust <= s.ust
          /\ d.fill = Colour(s)
          /\ Near(d.x, X(s.ust)) /\ d.x >= 0 /\ d.lx = d.x
          /\ d.w >= 1 /\ Near(d.w, MaxOf({1, X(s.ufi) - X(s.ust)}))
          /\ d.h > 0 /\ d.y >= 0 /\ d.y + d.h <= e.height
          /\ d.text = s.fullx \o "(" \o s.argsx \o ") (" \o s.dur \o ")"
          /\ d.hover = s.fullx \o "(" \o s.argsx \o ") Duration:" \o s.dur \o " Started:" \o s.since
          /\ d.hid = s.id /\ d.hpid = d.pid
          /\ d.pid = (IF p = <<>> THEN "0" ELSE p[1])
          /\ p # <<>> => Near(d.px, X(Of(p[1]).ust))
          \* the label is inside of its bar, the line leads from bar to bar
          /\ <<d.cx, d.cy, d.cw, d.ch>> = <<d.x, d.y, d.w, d.h>>
          /\ d.tx = d.x /\ d.ty \in d.y .. d.y + d.h /\ d.ly \in d.y .. d.y + d.h
          /\ p # <<>> => \A j \in 1..Len(list) : list[j].id = p[1] => d.py \in list[j].y .. list[j].y + list[j].h /\ list[j].y + list[j].h <= d.y
          \* no bar covers another
          /\ \A j \in 1..(i - 1) : d.y + d.h <= list[j].y \/ list[j].y + list[j].h <= d.y
                                    \/ Of(list[j].id).ufi <= s.ust \/ s.ufi <= Of(list[j].id).ust

(* ---- requests ---- *)

Ch(s, i) == SubSeq(s, i, i)
RECURSIVE TrimSlash(_)
TrimSlash(s) == IF Len(s) > 0 /\ Ch(s, 1) = "/" THEN TrimSlash(SubSeq(s, 2, Len(s))) ELSE s
SlashAt(s) == LET I == {i \in 1..Len(s) : Ch(s, i) = "/"} IN IF I = {} THEN Len(s) + 1 ELSE MinOf(I)
First(path) == LET s == TrimSlash(path) IN SubSeq(s, 1, SlashAt(s) - 1)
Second(path) == LET s == TrimSlash(path) IN First(SubSeq(s, SlashAt(s), Len(s)))

Text == "text/plain; charset=utf-8"
JSON == "application/json; charset=utf-8"

HexDigits == {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","A","B","C","D","E","F"}
RECURSIVE TrimZero(_)
TrimZero(s) == IF Len(s) > 0 /\ Ch(s, 1) = "0" THEN TrimZero(SubSeq(s, 2, Len(s))) ELSE s
IsHex64(s) == Len(s) > 0 /\ (\A i \in 1..Len(s) : Ch(s, i) \in HexDigits) /\ Len(TrimZero(s)) <= 16
True == {"1", "t", "T", "true", "TRUE", "True"}
False == {"0", "f", "F", "false", "FALSE", "False"}

BadQuery(e) ==
    \/ e.regex = "" /\ e.tid = ""
    \/ e.tid # "" /\ ~IsHex64(e.tid)
    \/ /\ e.regex # ""
       /\ \/ ~e.reok
          \/ e.presel # "" /\ e.presel \notin True \cup False
          \/ e.presel \notin False /\ ~e.matches

\* the type of the document at a path, "" if there is none
DocType(path) ==
    LET a == First(path)  b == Second(path) IN
    CASE a = "" -> "text/html"
      [] a \in {"ps", "funcs"} /\ b \in {"", "text", "dot"} -> Text
      [] a \in {"ps", "funcs", "stats"} /\ b = "json" -> JSON
      [] a = "stats" /\ b \in {"", "text", "old"} -> Text
      [] a = "trace" /\ b = "svg" -> "image/svg+xml; charset=utf-8"
      [] a = "trace" /\ b \in {"json", "remote"} -> JSON
      [] OTHER -> ""

RouteOK(e) ==
    LET bad == First(e.path) = "trace" /\ BadQuery(e) IN
    CASE DocType(e.path) = "" -> e.status = 404 \/ (bad /\ e.status = 400)
      [] DocType(e.path) # "" /\ bad -> e.status = 400
      [] OTHER -> e.status = 200 /\ e.ct = DocType(e.path)
=============================================================================
