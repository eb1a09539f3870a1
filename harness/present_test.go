package vh

import (
	"bytes"
	"context"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// presSafe is what is left of s in a document that can only hold XML characters.
func presSafe(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == 9 || r == 10 || r == 13 || (r >= 0x20 && r <= 0xd7ff) || (r >= 0xe000 && r <= 0xfffd) || r >= 0x10000 {
			b.WriteRune(r)
		} else {
			b.WriteRune(0xfffd)
		}
	}
	return b.String()
}

func i64(v int64) string { return strconv.FormatInt(v, 10) }

type presErr struct{ name, msg string }

func (e *presErr) Error() string        { return e.msg }
func (e *presErr) Name() (string, bool) { return e.name, true }

type presWrapped struct{ err error }

func (e *presWrapped) Error() string     { return "wrapped" }
func (e *presWrapped) WrappedErr() error { return e.err }

type presWorld struct {
	most  int // live spans, in a large one
	r     *rand.Rand
	reg   *monkit.Registry
	nl    bool // names may contain line breaks
	ev    []M
	funcs []*monkit.Func
	live  []*presSpan
	fin   []*presSpan
	unit  time.Duration
}

type presSpan struct {
	ctx    context.Context
	sp     *monkit.Span
	finish func(*error)
	err    error
	pan    bool
	end    time.Time
}

func (p *presWorld) word(n int) string {
	alpha := []string{"a", "B", "3", ".", "'", "\"", "<", ">", "&", "\\", "/", "]", "[", "(", ")", "{", "}", ",", ":", ";", "=", " ", "%s", "%", "é", "日", "\t", "\x01", "\x7f", "\u2028", "😀", "-->", "]]>", "|", "`", "$", "#", "&#39;", "\\l", "\xff", "\ufffe"}
	if p.nl {
		alpha = append(alpha, "\n", "\r", "\n\n")
	}
	s := ""
	for k := p.r.Intn(n + 1); k > 0; k-- {
		s += alpha[p.r.Intn(len(alpha))]
	}
	if p.r.Intn(60) == 0 {
		s = strings.Repeat(s, 1+p.r.Intn(300))
	}
	return s
}

func (p *presWorld) arg() any {
	switch p.r.Intn(9) {
	case 0:
		return p.r.Intn(100) - 50
	case 1:
		return nil
	case 2:
		return []byte(p.word(3))
	case 3:
		return time.Unix(0, int64(p.r.Intn(1000))).UTC()
	case 4:
		return []any{p.word(2), 1, []byte{7}, time.Unix(0, int64(p.r.Intn(1000))).UTC(), nil, []any{p.word(1), 2}}[:p.r.Intn(7)]
	case 5:
		return math.Inf(1)
	case 6:
		return struct{ A, B string }{p.word(2), "b"}
	default:
		return p.word(5)
	}
}

func (p *presWorld) sleep() {
	if p.r.Intn(3) > 0 {
		time.Sleep(time.Duration(p.r.Intn(60)) * p.unit)
	}
}

func (p *presWorld) step() {
	r := p.r
	switch k := r.Intn(20); {
	case k < 3 || len(p.funcs) == 0:
		name := p.word(4)
		if r.Intn(2) == 0 {
			name = []string{"f", "g", "h"}[r.Intn(3)]
		}
		pkg := []string{"pkg", "pkg/sub", "p" + p.word(3)}[r.Intn(3)]
		sc := p.reg.ScopeNamed(pkg)
		f := sc.FuncNamed(name)
		if name != "f" && r.Intn(3) == 0 {
			f = sc.FuncNamed(name, monkit.NewSeriesTag("t", p.word(2)))
		}
		for _, g := range p.funcs {
			if g == f {
				return
			}
		}
		p.funcs = append(p.funcs, f)
		presMadeFunc[f] = [2]string{pkg, name}
	case k < 10:
		if len(p.live) > 8 && len(p.live) > p.most {
			return
		}
		ctx := context.Background()
		if len(p.live) > 0 && r.Intn(4) > 0 {
			ctx = p.live[r.Intn(len(p.live))].ctx
			if p.most > 0 && p.most%2 == 0 && r.Intn(4) > 0 {
				ctx = p.live[len(p.live)-1].ctx
			}
		} else if len(p.fin) > 0 && r.Intn(3) == 0 {
			// a child of a span that is already over
			ctx = p.fin[r.Intn(len(p.fin))].ctx
		}
		f := p.funcs[r.Intn(len(p.funcs))]
		var args []any
		for n := r.Intn(3); n > 0; n-- {
			args = append(args, p.arg())
		}
		var fin func(*error)
		switch r.Intn(6) {
		case 0:
			fin = f.RemoteTrace(&ctx, randID(r), monkit.NewTrace(randID(r)), args...)
		case 1:
			fin = f.ResetTrace(&ctx, args...)
		default:
			fin = f.Task(&ctx, args...)
		}
		s := &presSpan{ctx: ctx, sp: monkit.SpanFromCtx(ctx), finish: fin}
		presMadeSpan[s.sp] = args
		for n := r.Intn(6) - 3; n > 0; n-- {
			s.sp.Annotate(p.word(4), p.word(6))
		}
		p.live = append(p.live, s)
	case k < 15:
		if len(p.live) == 0 {
			return
		}
		i := r.Intn(len(p.live))
		s := p.live[i]
		p.live = append(p.live[:i:i], p.live[i+1:]...)
		p.end(s)
	case k < 16 && len(p.live) > 0:
		p.live[r.Intn(len(p.live))].sp.Annotate(p.word(4), p.word(6))
	case k < 19:
		sc := p.reg.ScopeNamed([]string{"pkg", "s" + p.word(2)}[r.Intn(2)])
		name := p.word(3)
		var tags []monkit.SeriesTag
		if r.Intn(2) == 0 {
			tags = append(tags, monkit.NewSeriesTag(p.word(2), p.word(2)))
		}
		v := []float64{0, 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), 1e308, -1e-320, .1, 1e21, 1e-7, math.MaxFloat64, math.Copysign(0, -1), 123456789.123456789}[r.Intn(14)]
		switch r.Intn(6) {
		case 0:
			sc.Counter("c"+name, tags...).Inc(int64(r.Intn(100) - 50))
		case 1:
			sc.FloatVal("v"+name, tags...).Observe(v)
		case 2:
			sc.IntVal("i"+name, tags...).Observe(int64(randID(r)))
		case 3:
			sc.Gauge("g"+name, func() float64 { return v })
		case 4:
			sc.DurationVal("d"+name, tags...).Observe(time.Duration(r.Intn(1000)))
		case 5:
			key := monkit.NewSeriesKey("chained" + name).WithTags(tags...)
			field := "x" + p.word(2)
			sc.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) { cb(key, field, v) }))
		}
	}
	p.sleep()
}

func (p *presWorld) end(s *presSpan) {
	r := p.r
	switch r.Intn(6) {
	case 0:
		s.err = errors.New(p.word(5))
	case 1:
		s.err = context.Canceled
	case 2:
		s.err = &presErr{name: "N" + p.word(3), msg: p.word(3)}
	case 3:
		s.err = &presWrapped{[]error{context.Canceled, io.EOF, nil, &presWrapped{context.Canceled}}[r.Intn(4)]}
	case 4:
		s.pan = r.Intn(2) == 0
	}
	s.pan = s.pan || r.Intn(8) == 0 // whatever the call's error is
	if s.pan {
		func() {
			defer func() { recover() }()
			func() {
				ep := &s.err
				if s.err == nil {
					ep = nil
				}
				defer s.finish(ep)
				panic("x")
			}()
		}()
	} else {
		s.finish(&s.err)
	}
	s.end = s.sp.Start().Add(time.Since(s.sp.Start()))
	p.fin = append(p.fin, s)
}

func presDist(d *monkit.DurationDist) M {
	q := []any{}
	// the average depends on the order of the sample in the last digits
	before := d.ReservoirAverage()
	for _, x := range monkit.ObservedQuantiles {
		v := d.Query(x)
		q = append(q, []any{fmt.Sprintf("%.2f", x), v.String(), i64(int64(v))})
	}
	two := func(v time.Duration) []any { return []any{v.String(), i64(int64(v))} }
	return M{"q": q, "avg": two(d.FullAverage()), "ravg": []any{two(before), two(d.ReservoirAverage())}, "recent": two(d.Recent), "sum": two(d.Sum), "high": two(d.High), "low": two(d.Low)}
}

func strs(s []string) []any {
	out := []any{}
	for _, x := range s {
		out = append(out, x)
	}
	return out
}

func presAnn(s *monkit.Span) []any {
	out := []any{}
	for _, a := range s.Annotations() {
		out = append(out, []any{a.Name, a.Value})
	}
	return out
}

// What the spans and functions of the present run were made with.
var presMadeSpan map[*monkit.Span][]any
var presMadeFunc map[*monkit.Func][2]string

func presArg(arg any, inner bool) string {
	switch a := arg.(type) {
	case string:
		return strconv.Quote(a)
	case []byte:
		return fmt.Sprintf("[]uint8(0x%x)", a)
	case time.Time:
		return "time.Time(" + a.Format(time.RFC3339Nano) + ")"
	case []any:
		if inner {
			break
		}
		var parts []string
		for _, x := range a {
			parts = append(parts, presArg(x, true))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	}
	return fmt.Sprintf("%#v", arg)
}

func presArgs(s *monkit.Span) []string {
	made, ok := presMadeSpan[s]
	if !ok {
		return s.Args()
	}
	out := []string{}
	for _, a := range made {
		out = append(out, presArg(a, false))
	}
	return out
}

// presNames are the full name, scope and short name of a function.
func presNames(f *monkit.Func) (string, string, string) {
	if m, ok := presMadeFunc[f]; ok {
		return m[0] + "." + m[1], m[0], m[1]
	}
	return f.FullName(), f.Scope().Name(), f.ShortName()
}

func presSpanBase(s *monkit.Span) M {
	full, pkg, name := presNames(s.Func())
	par := []any{}
	if id, ok := s.ParentId(); ok {
		par = append(par, i64(id))
	}
	quoted := []any{}
	for _, a := range presArgs(s) {
		quoted = append(quoted, fmt.Sprintf("%#v", a))
	}
	return M{"id": i64(s.Id()), "trace": i64(s.Trace().Id()), "full": full, "pkg": pkg, "name": name,
		"parent": par, "start": i64(s.Start().UnixNano()), "orph": s.Orphaned(), "args": strs(presArgs(s)), "argsq": quoted, "ann": presAnn(s)}
}

func presBits(v float64) string { return strconv.FormatUint(math.Float64bits(v), 16) }

func presTags(m map[string]string) []any {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []any{}
	for _, k := range keys {
		out = append(out, []any{k, m[k]})
	}
	return out
}

// snapshot records what the registry holds.
func (p *presWorld) snapshot(what string) {
	e := M{"k": "op", "o": "reg", "spans": []any{}, "funcs": []any{}, "stats": []any{}}
	switch what {
	case "ps":
		spans := []any{}
		var walk func(s *monkit.Span, par []any, depth int)
		walk = func(s *monkit.Span, par []any, depth int) {
			b := presSpanBase(s)
			b["dur"] = s.Duration().String()
			b["elapsed"] = i64(int64(s.Duration()))
			b["under"] = par
			b["depth"] = depth
			spans = append(spans, b)
			s.Children(func(c *monkit.Span) { walk(c, []any{b["id"]}, depth+1) })
		}
		p.reg.RootSpans(func(s *monkit.Span) { walk(s, []any{}, 0) })
		e["spans"] = spans
		all := []any{}
		p.reg.AllSpans(func(s *monkit.Span) { all = append(all, i64(s.Id())) })
		e["all"] = all
	case "funcs":
		fs := []any{}
		p.reg.Funcs(func(f *monkit.Func) {
			entry := false
			par := []any{}
			f.Parents(func(g *monkit.Func) {
				if g == nil {
					entry = true
				} else {
					par = append(par, i64(g.Id()))
				}
			})
			errs := []any{}
			total := int64(0)
			for k, n := range f.Errors() {
				errs = append(errs, []any{k, i64(n)})
				total += n
			}
			full, pkg, name := presNames(f)
			fs = append(fs, M{"id": i64(f.Id()), "full": full, "pkg": pkg, "name": name, "parents": par, "entry": entry,
				"errs": errs, "nerr": i64(total), "cur": i64(f.Current()), "hw": i64(f.Highwater()), "succ": i64(f.Success()), "pan": i64(f.Panics()),
				"st": presDist(f.SuccessTimes()), "ft": presDist(f.FailureTimes())})
		})
		e["funcs"] = fs
	case "stats":
		rows := []any{}
		p.reg.Stats(func(monkit.SeriesKey, string, float64) {})
		p.reg.Stats(func(key monkit.SeriesKey, field string, val float64) {
			rows = append(rows, M{"m": key.Measurement, "tags": presTags(key.Tags.All()), "f": field, "bits": presBits(val),
				"fin": !math.IsNaN(val) && !math.IsInf(val, 0), "key": key.WithField(field), "str": fmt.Sprintf("%f", val)})
		})
		e["stats"] = rows
	}
	p.ev = append(p.ev, e)
}

// exactKeys spoils the keys that are not in lower case, for the decoder takes
// no notice of case; the keys of some objects are data.
func exactKeys(v any, data bool) any {
	switch t := v.(type) {
	case []any:
		for i := range t {
			t[i] = exactKeys(t[i], false)
		}
	case map[string]any:
		out := map[string]any{}
		for k, x := range t {
			if !data && k != strings.ToLower(k) {
				out["~"+k] = x
				continue
			}
			out[k] = exactKeys(x, k == "errors" || k == "quantiles")
		}
		return out
	}
	return v
}

func jsonDoc(data []byte, into any) string {
	var first, more any
	pre := json.NewDecoder(bytes.NewReader(data))
	pre.UseNumber()
	if pre.Decode(&first) == nil && pre.Decode(&more) == io.EOF {
		if _, rows := into.(*[][]json.RawMessage); !rows {
			if js, err := json.Marshal(exactKeys(first, false)); err == nil {
				data = js
			}
		}
	}
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	if err := dec.Decode(into); err != nil {
		return "not JSON: " + err.Error()
	}
	if _, err := dec.Token(); err != io.EOF {
		return "more than one JSON value"
	}
	return ""
}

type jspan struct {
	Id       json.Number  `json:"id"`
	ParentId *json.Number `json:"parent_id"`
	Func     struct {
		Package, Name string
	}
	Trace struct {
		Id json.Number
	}
	Start, Elapsed, Finish json.Number
	Orphaned, Panicked     bool
	Err                    string
	Args                   []string
	Annotations            [][]string
}

func (s jspan) M() M {
	par := []any{}
	if s.ParentId != nil {
		par = append(par, string(*s.ParentId))
	}
	ann := []any{}
	for _, a := range s.Annotations {
		ann = append(ann, strs(a))
	}
	return M{"id": string(s.Id), "parent": par, "pkg": s.Func.Package, "name": s.Func.Name, "trace": string(s.Trace.Id), "start": string(s.Start),
		"elapsed": string(s.Elapsed), "finish": string(s.Finish), "orph": s.Orphaned, "err": s.Err, "pan": s.Panicked, "argsq": strs(s.Args), "ann": ann}
}

type jdist struct {
	Average, Recent, Max, Min json.Number
	Full                      json.Number            `json:"full_average"`
	Res                       json.Number            `json:"reservoir_average"`
	Quantiles                 map[string]json.Number `json:"quantiles"`
}

func (d jdist) M() M {
	q := []any{}
	for k, v := range d.Quantiles {
		q = append(q, []any{k, string(v)})
	}
	return M{"avg": string(d.Average), "full": string(d.Full), "ravg": string(d.Res), "recent": string(d.Recent), "high": string(d.Max), "low": string(d.Min), "q": q}
}

var (
	dotNode = regexp.MustCompile(`^\s*([fr]-?\d+) \[label="([^"\n]*)"\];$`)
	dotEdge = regexp.MustCompile(`^\s*([fr]-?\d+) -> ([fr]-?\d+);$`)
	dotEnt  = regexp.MustCompile(`&#\d+;`)
)

// dotParse reads a graph: the nodes' labels and the edges.
func dotParse(doc string, e M) string {
	lines := strings.Split(doc, "\n")
	nodes, edges := []any{}, []any{}
	e["nodes"], e["edges"] = nodes, edges
	if len(lines) < 4 || lines[0] != "digraph G {" || strings.TrimSpace(lines[1]) != "node [shape=box];" || lines[len(lines)-2] != "}" || lines[len(lines)-1] != "" {
		return "not a complete graph"
	}
	for _, l := range lines[2 : len(lines)-2] {
		if m := dotNode.FindStringSubmatch(l); m != nil {
			lab := m[2]
			plain := dotEnt.ReplaceAllString(lab, "")
			plain = strings.ReplaceAll(plain, `\l`, "")
			if strings.ContainsAny(plain, "\\&\"") {
				return "label not escaped"
			}
			lab = strings.ReplaceAll(lab, `\l`, "\n")
			// bytes, not runes
			lab = dotEnt.ReplaceAllStringFunc(lab, func(x string) string {
				n, _ := strconv.Atoi(x[2 : len(x)-1])
				return string([]byte{byte(n)})
			})
			nodes = append(nodes, []any{m[1], lab})
		} else if m := dotEdge.FindStringSubmatch(l); m != nil {
			edges = append(edges, []any{m[1], m[2]})
		} else {
			return "malformed statement " + l
		}
	}
	e["nodes"], e["edges"] = nodes, edges
	return ""
}

func presParse(kind string, doc []byte, e M) string {
	switch kind {
	case "ps.text", "funcs.text", "stats.text":
		e["lines"] = strs(strings.Split(string(doc), "\n"))
	case "ps.json", "fin.json":
		var l []jspan
		if why := jsonDoc(doc, &l); why != "" {
			return why
		}
		out := []any{}
		for _, s := range l {
			out = append(out, s.M())
		}
		e["list"] = out
	case "funcs.json":
		var l []struct {
			Id        json.Number
			ParentIds []json.Number `json:"parent_ids"`
			Package   string
			Name      string
			Current   json.Number
			Highwater json.Number
			Success   json.Number
			Panics    json.Number
			Entry     bool
			Errors    map[string]json.Number
			St        jdist `json:"success_times"`
			Ft        jdist `json:"failure_times"`
		}
		if why := jsonDoc(doc, &l); why != "" {
			return why
		}
		out := []any{}
		for _, f := range l {
			par := []any{}
			for _, x := range f.ParentIds {
				par = append(par, string(x))
			}
			errs := []any{}
			for k, n := range f.Errors {
				errs = append(errs, []any{k, string(n)})
			}
			out = append(out, M{"id": string(f.Id), "pkg": f.Package, "name": f.Name, "parents": par, "entry": f.Entry, "errs": errs,
				"cur": string(f.Current), "hw": string(f.Highwater), "succ": string(f.Success), "pan": string(f.Panics), "st": f.St.M(), "ft": f.Ft.M()})
		}
		e["list"] = out
	case "stats.json":
		var l [][]json.RawMessage
		if why := jsonDoc(doc, &l); why != "" {
			return why
		}
		out := []any{}
		for _, row := range l {
			var m, f string
			var tags map[string]string
			var v *float64
			if len(row) != 4 || json.Unmarshal(row[0], &m) != nil || json.Unmarshal(row[1], &tags) != nil || json.Unmarshal(row[2], &f) != nil || json.Unmarshal(row[3], &v) != nil {
				return "malformed row"
			}
			val := ""
			if v != nil {
				val = presBits(*v)
			}
			out = append(out, M{"m": m, "tags": presTags(tags), "f": f, "bits": val})
		}
		e["list"] = out
	case "ps.dot", "funcs.dot":
		return dotParse(string(doc), e)
	case "index":
		if !strings.HasPrefix(string(doc), "<!DOCTYPE html>") || !strings.HasSuffix(strings.TrimSpace(string(doc)), "</html>") {
			return "not a complete page"
		}
	case "svg":
		return svgParse(doc, e)
	}
	return ""
}

var jsHover = regexp.MustCompile(`^mouseover\('(-?\d+)', '(-?\d+)', (?:'((?:[^'\\\n\r\x{2028}\x{2029}]|\\.)*)'|"((?:[^"\\\n\r\x{2028}\x{2029}]|\\.)*)")\);?$`)

// jsUnescape reads the inside of a script string.
func jsUnescape(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '\\' || i+1 >= len(rs) {
			b.WriteRune(rs[i])
			continue
		}
		i++
		hex := func(n int) {
			if i+n < len(rs) {
				if v, err := strconv.ParseUint(string(rs[i+1:i+1+n]), 16, 32); err == nil {
					b.WriteRune(rune(v))
					i += n
				}
			}
		}
		switch rs[i] {
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 't':
			b.WriteByte('\t')
		case 'b':
			b.WriteByte('\b')
		case 'f':
			b.WriteByte('\f')
		case 'v':
			b.WriteByte('\v')
		case 'u':
			hex(4)
		case 'x':
			hex(2)
		default:
			b.WriteRune(rs[i])
		}
	}
	return b.String()
}

func svgParse(doc []byte, e M) string {
	dec := xml.NewDecoder(bytes.NewReader(doc))
	dec.Strict = true
	type elem struct {
		name string
		attr map[string]string
	}
	var stack []elem
	list := []any{}
	var cur M
	ids := map[string]bool{}
	text := ""
	roots := 0
	num := func(s string) int {
		v, err := strconv.Atoi(s)
		if err != nil || v < -1000000 || v > 1000000000 {
			return -1000000
		}
		return v
	}
	for {
		tok, err := dec.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return "not XML: " + err.Error()
		}
		switch t := tok.(type) {
		case xml.StartElement:
			a := map[string]string{}
			for _, x := range t.Attr {
				if _, dup := a[x.Name.Local]; dup && x.Name.Space == "" {
					return "duplicate attribute " + x.Name.Local
				}
				if x.Name.Space == "" {
					a[x.Name.Local] = x.Value
				}
			}
			if len(stack) == 0 {
				roots++
				if t.Name.Local != "svg" {
					return "not an SVG document"
				}
				e["width"], e["height"] = num(a["width"]), num(a["height"])
				e["box"] = a["viewBox"] == fmt.Sprintf("0 0 %s %s", a["width"], a["height"])
			}
			if id, ok := a["id"]; ok {
				if ids[id] {
					return "duplicate id " + id
				}
				ids[id] = true
			}
			stack = append(stack, elem{t.Name.Local, a})
			switch {
			case t.Name.Local == "g" && strings.HasPrefix(a["class"], "func "):
				cur = M{"id": strings.TrimPrefix(a["id"], "id-"), "pid": strings.TrimPrefix(a["class"], "func parent-"), "hover": "", "hid": "", "hpid": "", "text": ""}
				for _, k := range []string{"x", "y", "w", "h", "px", "lx", "py", "ly", "cx", "cy", "cw", "ch", "tx", "ty"} {
					cur[k] = -1000000
				}
				cur["fill"] = ""
				if m := jsHover.FindStringSubmatch(a["onmouseover"]); m != nil {
					cur["hid"], cur["hpid"] = m[1], m[2]
					cur["hover"] = presSafe(jsUnescape(m[3] + m[4]))
				} else {
					return "broken tooltip script"
				}
				list = append(list, cur)
			case cur != nil && t.Name.Local == "rect" && strings.HasPrefix(a["id"], "rect-"):
				cur["x"], cur["y"], cur["w"], cur["h"], cur["fill"] = num(a["x"]), num(a["y"]), num(a["width"]), num(a["height"]), a["fill"]
			case cur != nil && t.Name.Local == "line":
				cur["lx"], cur["px"], cur["ly"], cur["py"] = num(a["x1"]), num(a["x2"]), num(a["y1"]), num(a["y2"])
			case cur != nil && t.Name.Local == "rect" && len(stack) > 1 && stack[len(stack)-2].name == "clipPath":
				cur["cx"], cur["cy"], cur["cw"], cur["ch"] = num(a["x"]), num(a["y"]), num(a["width"]), num(a["height"])
			case cur != nil && t.Name.Local == "text" && strings.HasPrefix(a["id"], "text-"):
				cur["tx"], cur["ty"] = num(a["x"]), num(a["y"])
				text = ""
			case t.Name.Local == "text":
				text = ""
			}
		case xml.CharData:
			if len(stack) == 0 && strings.TrimSpace(string(t)) != "" {
				return "text outside of the document"
			}
			text += string(t)
		case xml.EndElement:
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if top.name == "text" && cur != nil && strings.HasPrefix(top.attr["id"], "text-") {
				cur["text"] = text
			}
		}
	}
	if len(stack) != 0 || roots != 1 {
		return "document not complete"
	}
	e["list"] = list
	return ""
}

var errPresWrite = errors.New("no more room")

// shortWriter fails once its room is used up; for good, or for one write only.
type shortWriter struct {
	room int
	once bool
	hit  bool
}

func (s *shortWriter) Write(p []byte) (int, error) {
	if s.hit && s.once {
		return len(p), nil
	}
	if len(p) > s.room {
		s.hit = true
		n := s.room
		s.room = 0
		return n, errPresWrite
	}
	s.room -= len(p)
	return len(p), nil
}

var presDocs = []struct{ path, what, kind string }{
	{"", "", "index"}, {"/", "", "index"},
	{"/ps", "ps", "ps.text"}, {"/ps/text", "ps", "ps.text"}, {"/ps/dot", "ps", "ps.dot"}, {"/ps/json", "ps", "ps.json"}, {"/ps/json", "ps", "ps.json"},
	{"/funcs", "funcs", "funcs.text"}, {"/funcs/text", "funcs", "funcs.text"}, {"/funcs/dot", "funcs", "funcs.dot"}, {"/funcs/json", "funcs", "funcs.json"},
	{"/stats", "stats", "stats.text"}, {"/stats/text", "stats", "stats.text"}, {"/stats/old", "stats", "stats.text"}, {"/stats/json", "stats", "stats.json"}, {"/stats/json", "stats", "stats.json"},
}

func (p *presWorld) direct(kind string) func(w io.Writer) error {
	f := map[string]func(*monkit.Registry, io.Writer) error{
		"ps.text": present.SpansText, "ps.dot": present.SpansDot, "ps.json": present.SpansJSON,
		"funcs.text": present.FuncsText, "funcs.dot": present.FuncsDot, "funcs.json": present.FuncsJSON,
		"stats.text": present.StatsText, "stats.json": present.StatsJSON,
	}[kind]
	if f == nil {
		return nil
	}
	return func(w io.Writer) error { return f(p.reg, w) }
}

func (p *presWorld) doc() {
	r := p.r
	d := presDocs[r.Intn(len(presDocs))]
	if p.nl && strings.HasSuffix(d.kind, ".text") {
		return
	}
	p.snapshot(d.what)
	e := M{"k": "op", "o": "doc", "kind": d.kind, "path": d.path, "err": "", "wf": "", "ct": "", "via": ""}
	var buf bytes.Buffer
	switch via := r.Intn(3); {
	case via == 0 && p.direct(d.kind) != nil:
		e["via"] = "call"
		if err := p.direct(d.kind)(&buf); err != nil {
			e["err"] = err.Error()
		}
	case via == 1:
		e["via"] = "http"
		rec := httptest.NewRecorder()
		req := httptest.NewRequest("GET", "/", nil)
		req.URL.Path = d.path
		present.HTTP(p.reg).ServeHTTP(rec, req)
		e["ct"] = rec.Result().Header.Get("Content-Type")
		if rec.Code != 200 {
			e["err"] = fmt.Sprint("status ", rec.Code)
		}
		buf.Write(rec.Body.Bytes())
	default:
		e["via"] = "request"
		f, ct, err := present.FromRequest(p.reg, d.path, url.Values{})
		e["ct"] = ct
		if err == nil {
			err = f(&buf)
		}
		if err != nil {
			e["err"] = err.Error()
		}
	}
	e["wf"] = presParse(d.kind, buf.Bytes(), e)
	p.ev = append(p.ev, e)
	// the same document into a writer that breaks
	for k := 0; k < 4 && buf.Len() > 0; k++ {
		short := &shortWriter{room: r.Intn(buf.Len()), once: r.Intn(2) == 0}
		var err error
		if f := p.direct(d.kind); f != nil && r.Intn(2) == 0 {
			err = f(short)
		} else if f, _, ferr := present.FromRequest(p.reg, d.path, url.Values{}); ferr == nil {
			err = f(short)
		}
		if short.hit {
			p.ev = append(p.ev, M{"k": "op", "o": "fail", "got": err == errPresWrite})
		}
	}
}

func (p *presWorld) finished() {
	r := p.r
	var spans []*collect.FinishedSpan
	all := append(append([]*presSpan{}, p.fin...), p.live...)
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	switch r.Intn(6) {
	case 0, 1:
		all = all[:r.Intn(len(all)+1)]
	case 2:
		all = all[:min(1, len(all))]
	}
	// synthetic ends make the layout independent of what the clock did
	synth := r.Intn(2) == 0
	zero := r.Intn(3) == 0
	base := time.Time{}
	for _, s := range all {
		if base.IsZero() || s.sp.Start().Before(base) {
			base = s.sp.Start()
		}
	}
	units := map[*monkit.Span][2]int{}
	for _, s := range all {
		end := s.end
		if end.IsZero() || synth {
			end = s.sp.Start().Add(p.unit * time.Duration([]int{0, 0, 1, 5, 100, 1000}[r.Intn(6)]))
			if zero {
				end = s.sp.Start()
			}
		}
		units[s.sp] = [2]int{int(s.sp.Start().Sub(base) / p.unit), int(end.Sub(base) / p.unit)}
		spans = append(spans, &collect.FinishedSpan{Span: s.sp, Err: s.err, Panicked: s.pan, Finish: end})
	}
	orig := append([]*collect.FinishedSpan{}, spans...)
	truth := func(fs *collect.FinishedSpan) M {
		b := presSpanBase(fs.Span)
		b["finish"] = i64(fs.Finish.UnixNano())
		b["err"] = ""
		b["iserr"] = fs.Err != nil
		if fs.Err != nil {
			b["err"] = fs.Err.Error()
		}
		b["pan"] = fs.Panicked
		b["fullx"] = presSafe(b["full"].(string))
		b["argsx"] = presSafe(strings.Join(presArgs(fs.Span), " "))
		b["dur"] = fs.Finish.Sub(fs.Span.Start()).String()
		b["since"] = fs.Span.Start().Sub(base).String()
		b["ust"], b["ufi"] = units[fs.Span][0], units[fs.Span][1]
		err := fs.Err
		for {
			w, ok := err.(*presWrapped)
			if !ok || w.err == nil {
				break
			}
			err = w.err
		}
		b["cancel"] = err == context.Canceled
		return b
	}
	kind := []string{"fin.json", "svg"}[r.Intn(2)]
	e := M{"k": "op", "o": "fin", "kind": kind, "err": "", "wf": "", "spans": []any{}}
	var buf bytes.Buffer
	write := func(w io.Writer) error {
		l := append([]*collect.FinishedSpan{}, orig...)
		if kind == "svg" {
			return present.SpansToSVG(w, l)
		}
		return present.SpansToJSON(w, l)
	}
	if err := write(&buf); err != nil {
		e["err"] = err.Error()
	}
	ts := []any{}
	for _, fs := range orig {
		ts = append(ts, truth(fs))
	}
	e["spans"] = ts
	e["wf"] = presParse(kind, buf.Bytes(), e)
	p.ev = append(p.ev, e)
	for k := 0; k < 4 && buf.Len() > 0; k++ {
		// a drawing may come out shorter the next time: rows come in any order
		short := &shortWriter{room: r.Intn(buf.Len()), once: r.Intn(2) == 0}
		if err := write(short); short.hit {
			p.ev = append(p.ev, M{"k": "op", "o": "fail", "got": err == errPresWrite})
		}
	}
}

func (p *presWorld) route() {
	r := p.r
	segs := []string{"", "ps", "text", "dot", "json", "funcs", "stats", "old", "trace", "svg", "remote", "x", "PS", "ps ", "psx", "index.html"}
	path := ""
	if r.Intn(10) > 0 {
		path = "/"
	}
	if r.Intn(4) > 0 {
		// mostly sensible
		path += strings.Repeat("/", r.Intn(8)/6) + []string{"", "ps", "funcs", "stats", "trace", "trace"}[r.Intn(6)]
		if r.Intn(4) > 0 {
			path += strings.Repeat("/", 1+r.Intn(8)/7) + []string{"", "text", "dot", "json", "svg", "remote", "old", "nope"}[r.Intn(8)]
		}
		if r.Intn(6) == 0 {
			path += "/" + segs[r.Intn(len(segs))]
		}
	} else {
		for n := r.Intn(4); n > 0; n-- {
			path += segs[r.Intn(len(segs))] + "/"
		}
	}
	q := url.Values{}
	regex := []string{"", "", ".", "pkg", "nothing like this$^x", "(", "[", "^pkg\\.f$", ".*"}[r.Intn(9)]
	presel := []string{"", "", "true", "false", "0", "1", "T", "f", "yes", "2", "False", "FALSE", "TRUE", "tRUE"}[r.Intn(14)]
	tid := []string{"", "", "", "0", "1f", "FF", "xyz", "-1", "+1", "0x1", " 1", "ffffffffffffffff", "10000000000000000", "00000000000000000001", "1_0", "e"}[r.Intn(16)]
	for k, v := range map[string]string{"regex": regex, "preselect": presel, "trace_id": tid} {
		if v != "" || r.Intn(4) == 0 {
			q.Set(k, v)
		}
	}
	re, rerr := regexp.Compile(regex)
	matches := false
	if rerr == nil {
		p.reg.Funcs(func(f *monkit.Func) { matches = matches || re.MatchString(f.FullName()) })
	}
	e := M{"k": "op", "o": "route", "path": path, "regex": regex, "reok": rerr == nil, "matches": matches, "presel": presel, "tid": tid, "status": 200, "ct": "", "hst": 0}
	f, ct, err := present.FromRequest(p.reg, path, q)
	e["ct"] = ct
	handle := func() int {
		rec := httptest.NewRecorder()
		req := httptest.NewRequest("GET", "/", nil)
		req.URL.Path = path
		req.URL.RawQuery = q.Encode()
		present.HTTP(p.reg).ServeHTTP(rec, req)
		if rec.Code != 200 && rec.Body.Len() == 0 {
			return -1
		}
		return rec.Code
	}
	if err != nil {
		e["status"] = handle()
		if f != nil || e["status"] == 200 {
			e["status"] = -2
		}
	}
	p.ev = append(p.ev, e)
}

var presElapsed time.Duration

// grow makes the spans of one deep trace, which end in any order.
func (p *presWorld) grow() {
	r := p.r
	var fs []*monkit.Func
	for _, n := range []string{"a", "b", "c" + p.word(2)} {
		fs = append(fs, p.reg.ScopeNamed("pkg").FuncNamed(n))
	}
	deep := r.Intn(3)
	for k := 4 + r.Intn(18); k > 0; k-- {
		if len(p.live) > 0 && r.Intn(5) < 2 {
			i := r.Intn(len(p.live))
			s := p.live[i]
			p.live = append(p.live[:i:i], p.live[i+1:]...)
			p.end(s)
		} else if len(p.live)+len(p.fin) < 14 {
			ctx := context.Background()
			all := append(append([]*presSpan{}, p.fin...), p.live...)
			switch n := len(p.live); {
			case n > 0 && r.Intn(3) < deep:
				ctx = p.live[n-1].ctx
			case n > 0 && r.Intn(8) > 0:
				ctx = p.live[r.Intn(n)].ctx
			case len(all) > 0 && r.Intn(4) > 0:
				ctx = all[r.Intn(len(all))].ctx
			}
			var fin func(*error)
			if r.Intn(12) == 0 {
				fin = fs[0].RemoteTrace(&ctx, randID(r), monkit.NewTrace(randID(r)))
			} else {
				fin = fs[r.Intn(3)].Task(&ctx)
			}
			p.live = append(p.live, &presSpan{ctx: ctx, sp: monkit.SpanFromCtx(ctx), finish: fin})
		}
		p.sleep()
	}
}

func init() {
	reg("present.seq", func(d *Drv) {
		inBubble(d, func() {
			for i := 0; i < d.N && !d.OverReal(); i++ {
				if i%d.Shards != d.Shard {
					continue
				}
				ps := d.Seed*1000000 + int64(i)
				r := rand.New(rand.NewSource(ps))
				presMadeSpan, presMadeFunc = map[*monkit.Span][]any{}, map[*monkit.Func][2]string{}
				p := &presWorld{r: r, reg: monkit.NewRegistry(), nl: r.Intn(3) == 0, ev: []M{{"k": "h"}}, unit: []time.Duration{1, 1, time.Microsecond, time.Millisecond, time.Second}[r.Intn(5)]}
				if r.Intn(30) == 0 && presElapsed < 30*365*24*time.Hour {
					p.unit = 24 * time.Hour
				}
				t0 := time.Now()
				if msg := try(func() {
					if i%4 == 3 {
						p.grow()
						for k := 1 + r.Intn(3); k > 0; k-- {
							p.finished()
						}
						return
					}
					steps := 4 + r.Intn(16)
					if r.Intn(40) == 0 {
						// many functions, many spans, often deep
						p.most, steps = 20+r.Intn(40), 60+r.Intn(90)
					}
					for ; steps > 0; steps-- {
						p.step()
					}
					for k := 2 + r.Intn(4); k > 0; k-- {
						switch r.Intn(6) {
						case 0:
							p.route()
							p.route()
							p.route()
						case 1:
							p.finished()
						default:
							p.doc()
						}
						p.step()
					}
				}); msg != "" {
					p.ev = append(p.ev, M{"k": "x", "why": msg})
				}
				presElapsed += time.Since(t0)
				d.Emit(M{"driver": "present.seq", "seed": ps}, p.ev)
			}
		})
	})
}
