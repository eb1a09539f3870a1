package vh

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
)

// ---------------------------------------------------------------- rows

func pairs(tags []monkit.SeriesTag) []any {
	out := []any{}
	for _, t := range tags {
		out = append(out, []any{t.Key, t.Val})
	}
	return out
}

// twice encodes a value as twice itself, so that halves are whole.
func twice(v float64) any {
	q := 2 * v
	if math.IsNaN(q) || q != math.Trunc(q) || math.Abs(q) > 1e8 {
		return 999999999
	}
	return int64(q)
}

func rowsOf(s monkit.StatSource) []any {
	rows := []any{}
	s.Stats(func(key monkit.SeriesKey, field string, val float64) {
		tags := []any{}
		all := key.Tags.All()
		ks := make([]string, 0, len(all))
		for k := range all {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			tags = append(tags, []any{k, all[k]})
		}
		rows = append(rows, M{"m": key.Measurement, "tags": tags, "f": field, "v": twice(val)})
	})
	return rows
}

func repTransformer(i int) monkit.CallbackTransformer {
	return monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
		return func(key monkit.SeriesKey, field string, val float64) {
			if i == 0 {
				cb(key, field, val)
				cb(key, field+"_d", val)
				return
			}
			cb(key.WithTag(fmt.Sprintf("t%d", i), "1"), field, val+float64(1000*i))
		}
	})
}

func repTransformers(ts []any) []monkit.CallbackTransformer {
	var out []monkit.CallbackTransformer
	for _, i := range ts {
		out = append(out, repTransformer(i.(int)))
	}
	return out
}

func randTs(r *rand.Rand) []any {
	ts := []any{}
	for n := r.Intn(3); n > 0; n-- {
		ts = append(ts, []int{0, 1, 2, 3}[r.Intn(4)])
	}
	return ts
}

// ---------------------------------------------------------------- structs

type myInt int16
type myBool bool
type myFloat float32

// structTree makes a random struct value and its description.
func structTree(r *rand.Rand, depth int) (reflect.Value, []any) {
	n := r.Intn(5)
	if depth == 0 {
		n = 1 + r.Intn(5)
	}
	var fields []reflect.StructField
	var vals []reflect.Value
	desc := []any{}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%c%d", "ABCXYZ"[r.Intn(6)], i)
		ign := false
		var tag reflect.StructTag
		switch r.Intn(10) {
		case 0:
			tag, ign = `monkit:"ignore"`, true
		case 1:
			tag, ign = `monkit:"foo,ignore"`, true
		case 2:
			tag = `monkit:"ignored"`
		case 3:
			tag = `json:"ignore"`
		case 4:
			tag, ign = `json:"x" monkit:"ignore,omitempty"`, true
		case 5:
			tag = `monkit:"foo"`
		}
		var v reflect.Value
		d := M{"n": name, "ign": ign, "t": "num", "v": 0, "sub": []any{}}
		x := r.Intn(100)
		num := func(y any, twiceVal int) { v, d["v"] = reflect.ValueOf(y), twiceVal }
		switch k := r.Intn(24); k {
		case 0:
			num(x, 2*x)
		case 1:
			num(int8(-x), -2*x)
		case 2:
			num(int16(x), 2*x)
		case 3:
			num(int32(-x), -2*x)
		case 4:
			num(int64(x), 2*x)
		case 5:
			num(uint(x), 2*x)
		case 6:
			num(uint8(x+100), 2*x+200)
		case 7:
			num(uint16(x), 2*x)
		case 8:
			num(uint32(x), 2*x)
		case 9:
			num(uint64(x), 2*x)
		case 10:
			num(float32(x)+.5, 2*x+1)
		case 11:
			num(float64(-x)-.5, -2*x-1)
		case 12:
			num(myInt(x), 2*x)
		case 13:
			num(myFloat(x), 2*x)
		case 14:
			num(time.Duration(x), 2*x)
		case 15:
			num(x%2 == 0, 2*(1-x%2))
		case 16:
			num(myBool(x%2 == 1), 2*(x%2))
		case 17:
			d["t"] = "other"
			v = reflect.ValueOf([]any{"text", []int{1}, map[string]int{"a": 1}, complex(1, 2), [2]int{1, 2}, errors.New, []byte("b")}[r.Intn(7)])
		case 18:
			d["t"] = "nil"
			v = reflect.ValueOf([]any{(*int)(nil), (**int)(nil), (*struct{ A int })(nil), (*string)(nil), new(*int), new(*struct{ B int })}[r.Intn(6)])
		default:
			if depth >= 3 {
				num(x, 2*x)
				break
			}
			d["t"] = "struct"
			v, d["sub"] = structTree(r, depth+1)
		}
		// through pointers
		if d["t"] != "nil" {
			for p := r.Intn(8); p > 5; p-- {
				q := reflect.New(v.Type())
				q.Elem().Set(v)
				v = q
			}
		}
		fields = append(fields, reflect.StructField{Name: name, Type: v.Type(), Tag: tag})
		vals = append(vals, v)
		desc = append(desc, d)
	}
	s := reflect.New(reflect.StructOf(fields)).Elem()
	for i, v := range vals {
		s.Field(i).Set(v)
	}
	return s, desc
}

type repEmbedded struct {
	In  int
	Out *bool
}
type repFixed struct {
	repEmbeddedNot int
	A              float64
	*repFixedInner
	Emb RepEmb
	RepEmb
	private bool
	Next    *repFixed
}
type repFixedInner struct{ Z int }
type RepEmb struct {
	Q uint8
	P **int
}

func randStruct(r *rand.Rand) (any, []any) {
	if r.Intn(12) == 0 {
		// a fixed one: embedded, unexported and recursive fields
		f := func(n, t string, v int, sub ...any) M {
			return M{"n": n, "ign": false, "t": t, "v": v, "sub": append([]any{}, sub...)}
		}
		i := 7
		pi := &i
		x := repFixed{repEmbeddedNot: 3, A: 1.5, Emb: RepEmb{Q: 4, P: &pi}, private: true, Next: &repFixed{RepEmb: RepEmb{Q: 9}}}
		return x, []any{f("repEmbeddedNot", "num", 6), f("A", "num", 3), f("repFixedInner", "nil", 0),
			f("Emb", "struct", 0, f("Q", "num", 8), f("P", "num", 14)), f("RepEmb", "struct", 0, f("Q", "num", 0), f("P", "nil", 0)),
			f("private", "num", 2),
			f("Next", "struct", 0, f("repEmbeddedNot", "num", 0), f("A", "num", 0), f("repFixedInner", "nil", 0),
				f("Emb", "struct", 0, f("Q", "num", 0), f("P", "nil", 0)), f("RepEmb", "struct", 0, f("Q", "num", 18), f("P", "nil", 0)),
				f("private", "num", 0), f("Next", "nil", 0))}
	}
	switch r.Intn(14) {
	case 0:
		return []any{3, "no struct", (*struct{ A int })(nil), (**struct{ A int })(nil), []int{1}}[r.Intn(5)], []any{}
	}
	v, d := structTree(r, 0)
	switch r.Intn(4) {
	case 0:
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return p.Interface(), d
	}
	return v.Interface(), d
}

// ---------------------------------------------------------------- chains

func randTags(r *rand.Rand) []monkit.SeriesTag {
	var out []monkit.SeriesTag
	for n := r.Intn(3); n > 0; n-- {
		out = append(out, monkit.NewSeriesTag([]string{"a", "b", "kind", "scope", "name", "t1", "x y", ""}[r.Intn(8)], []string{"1", "2", "", "v,w", "é"}[r.Intn(5)]))
	}
	return out
}

var repNames = []string{"n1", "n2", "n3", "a b", "a,b", "a=b", "", "function", "func:n1"}

// chainTree makes a random source and its description.
func chainTree(r *rand.Rand, depth int) (monkit.StatSource, M) {
	k := r.Intn(6)
	if depth > 2 {
		k = r.Intn(3)
	}
	switch k {
	case 0, 1:
		rows := []any{}
		type row struct {
			key monkit.SeriesKey
			f   string
			v   float64
		}
		var rs []row
		for n := r.Intn(4); n > 0; n-- {
			m, f, v, tags := repNames[r.Intn(len(repNames))], []string{"total", "x", "value", ""}[r.Intn(4)], r.Intn(50), randTags(r)
			key := monkit.NewSeriesKey(m)
			if len(tags) > 0 {
				key = key.WithTags(tags...)
			}
			rs = append(rs, row{key, f, float64(v) / 2})
			rows = append(rows, M{"m": m, "tags": pairs(tags), "f": f, "v": v})
		}
		return monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
			for _, x := range rs {
				cb(x.key, x.f, x.v)
			}
		}), M{"t": "rows", "rows": rows}
	case 2, 3:
		m, tags := repNames[r.Intn(len(repNames))], randTags(r)
		x, d := randStruct(r)
		return monkit.StatSourceFromStruct(monkit.NewSeriesKey(m).WithTags(tags...), x), M{"t": "struct", "m": m, "tags": pairs(tags), "sub": d}
	case 4:
		s, d := chainTree(r, depth+1)
		ts := randTs(r)
		return monkit.TransformStatSource(s, repTransformers(ts)...), M{"t": "trans", "ts": ts, "src": d}
	default:
		reg := monkit.NewRegistry()
		ts := randTs(r)
		view := reg.WithTransformers(repTransformers(ts)...)
		scopes := []any{}
		for i, n := 0, r.Intn(3); i < n; i++ {
			name := fmt.Sprint("in", i)
			g := []any{}
			for j, n := 0, r.Intn(3); j < n; j++ {
				v := r.Intn(50)
				gn := fmt.Sprint("g", j)
				reg.ScopeNamed(name).Gauge(gn, func() float64 { return float64(v) / 2 })
				g = append(g, M{"n": gn, "v": v})
			}
			reg.ScopeNamed(name)
			scopes = append(scopes, M{"n": name, "g": g})
		}
		return view, M{"t": "reg", "scopes": scopes, "ts": ts}
	}
}

// ---------------------------------------------------------------- sequential

type repKey struct{ scope, ns, name, tags string }

func reportSeq(r *rand.Rand) []M {
	evs := []M{{"k": "h"}}
	add := func(m M) { m["k"] = "op"; evs = append(evs, m) }
	reg := monkit.NewRegistry()
	views := []*monkit.Registry{reg}
	kinds := map[repKey]string{}
	scopes := []string{"a", "a/b", "a.b", "B", "é", "", "ab", "a b", "z", "ÿ", "\x7f"}
	r.Shuffle(len(scopes), func(i, j int) { scopes[i], scopes[j] = scopes[j], scopes[i] })
	scopes = scopes[:1+r.Intn(5)]
	steps := 6 + r.Intn(20)
	big, crowd := r.Intn(150) == 0, false
	if big {
		// many scopes, many of everything
		for i := 5 + r.Intn(30); i > 0; i-- {
			scopes = append(scopes, fmt.Sprintf("%c%s", "aZ/~\u00e9"[r.Intn(5)], strings.Repeat("s", r.Intn(40))))
		}
		steps = 30 + r.Intn(30)
		if r.Intn(2) == 0 {
			scopes, steps, crowd = scopes[:1], 70, true
		}
	}
	opened := map[string]*monkit.Scope{}
	open := func(n string) *monkit.Scope {
		if s := opened[n]; s != nil && r.Intn(4) > 0 {
			return s
		}
		bytes := []any{}
		for _, b := range []byte(n) {
			bytes = append(bytes, int(b))
		}
		add(M{"o": "scope", "s": n, "b": bytes})
		opened[n] = views[r.Intn(len(views))].ScopeNamed(n)
		return opened[n]
	}
	var dummy1, dummy2 = monkit.NewMeter(monkit.NewSeriesKey("x")), monkit.NewMeter(monkit.NewSeriesKey("y"))
	view := func(of int, ts []any) int {
		add(M{"o": "view", "id": len(views), "of": of, "ts": ts})
		views = append(views, views[of].WithTransformers(repTransformers(ts)...))
		return len(views) - 1
	}
	msg := try(func() {
		for n := steps; n > 0; n-- {
			sn := scopes[r.Intn(len(scopes))]
			s := open(sn)
			name, tags := repNames[r.Intn(len(repNames))], randTags(r)
			if crowd && n > 10 {
				// many sources in one scope
				name = fmt.Sprint("source ", n)
			}
			switch k := r.Intn(12); k {
			case 0, 1, 2, 3, 4, 5, 6:
				kind := []string{"counter", "meter", "diffmeter", "bool", "int", "float", "duration", "timer", "struct", "func", "func"}[r.Intn(11)]
				ns := ""
				if kind == "func" {
					ns = "func"
				}
				key := repKey{sn, ns, name, fmt.Sprintf("%q", tags)}
				if old := kinds[key]; old != "" {
					kind = old
				}
				if kind == "gauge" {
					continue
				}
				kinds[key] = kind
				ev := M{"o": "metric", "s": sn, "kind": kind, "name": name, "tags": pairs(tags)}
				obs := r.Intn(2) == 0
				more := M{"o": "observe", "s": sn, "kind": kind, "name": name, "tags": pairs(tags)}
				add(ev)
				switch kind {
				case "counter":
					s.Counter(name, tags...)
					if obs {
						s.Counter(name, tags...).Inc(3)
					}
				case "meter":
					if obs {
						s.Event(name, tags...)
					} else {
						s.Meter(name, tags...)
					}
				case "diffmeter":
					s.DiffMeter(name, dummy1, dummy2, tags...)
				case "bool":
					s.BoolVal(name, tags...).Observe(true)
				case "int":
					v := s.IntVal(name, tags...)
					if obs {
						v.Observe(3)
						add(more)
					}
				case "float":
					v := s.FloatVal(name, tags...)
					if obs {
						v.Observe(3)
						add(more)
					}
				case "duration":
					v := s.DurationVal(name, tags...)
					if obs {
						v.Observe(3)
						add(more)
					}
				case "timer":
					v := s.Timer(name, tags...)
					if obs {
						v.Start().Stop()
						add(more)
					}
				case "struct":
					v := s.StructVal(name, tags...)
					if obs {
						x, d := randStruct(r)
						v.Observe(x)
						add(M{"o": "struct", "s": sn, "kind": kind, "name": name, "tags": pairs(tags), "sub": d})
					}
				case "func":
					f := s.FuncNamed(name, tags...)
					if obs {
						ctx := context.Background()
						exit := f.Task(&ctx)
						ok := false
						switch r.Intn(4) {
						case 0:
							err := errors.New("e")
							exit(&err)
						case 1:
							func() {
								defer func() { recover() }()
								defer exit(nil)
								panic("p")
							}()
						case 2:
							var err error = &namedErr{"x"}
							exit(&err)
						default:
							ok = true
							exit(nil)
						}
						names := []any{}
						for n := range f.Errors() {
							names = append(names, n)
						}
						add(M{"o": "call", "s": sn, "kind": kind, "name": name, "tags": pairs(tags), "ok": ok, "errs": names})
					}
				}
			case 7:
				key := repKey{sn, "", name, "[]"}
				if kinds[key] != "" && kinds[key] != "gauge" {
					continue
				}
				kinds[key] = "gauge"
				v := r.Intn(50)
				add(M{"o": "gauge", "s": sn, "kind": "gauge", "name": name, "tags": []any{}, "v": v})
				s.Gauge(name, func() float64 { return float64(v) / 2 })
			case 8:
				c, d := chainTree(r, 0)
				add(M{"o": "source", "c": d, "rows": rowsOf(c)})
				add(M{"o": "chain", "s": sn, "c": d})
				s.Chain(c)
				more := 0
				if r.Intn(5) == 0 {
					more = 1
				} else if r.Intn(12) == 0 && !big {
					more = 8 + r.Intn(30)
				}
				for k := more; k > 0; k-- {
					if k > 1 {
						c, d = chainTree(r, 9)
					}
					add(M{"o": "chain", "s": sn, "c": d})
					s.Chain(c)
				}
			case 9:
				if big && len(views) > 2 {
					continue
				}
				view(r.Intn(len(views)), randTs(r))
			case 10:
				v := r.Intn(len(views))
				add(M{"o": "report", "view": v, "rows": rowsOf(views[v])})
			default:
				add(M{"o": "sreport", "s": sn, "rows": rowsOf(s)})
			}
		}
		if !big && r.Intn(3) == 0 {
			// a line of views, each of the one before, and siblings along it
			of := r.Intn(len(views))
			for n := 1 + r.Intn(5); n > 0; n-- {
				of = view(of, []any{r.Intn(4)})
				if r.Intn(3) == 0 {
					view(of, []any{r.Intn(4)})
				}
			}
			view(of, []any{r.Intn(4)})
			view(of, randTs(r))
		}
		for v := range views {
			add(M{"o": "report", "view": v, "rows": rowsOf(views[v])})
		}
	})
	if msg != "" {
		evs = append(evs, M{"k": "x", "why": msg})
	}
	return evs
}

// ---------------------------------------------------------------- concurrent

func genReport(r *rand.Rand, h *Hist) *Prog {
	reg := monkit.NewRegistry()
	nsc := 1 + r.Intn(2)
	type src struct {
		key  int
		kind string
		sc   int
		name string
	}
	var all []src
	for i, n := 0, 2+r.Intn(4); i < n; i++ {
		all = append(all, src{i + 1, []string{"counter", "gauge", "chain", "int", "func"}[r.Intn(5)], r.Intn(nsc), fmt.Sprintf("k%d", i+1)})
	}
	put := func(s src) Op {
		v := 1 + r.Intn(9)
		sc := func() *monkit.Scope { return reg.ScopeNamed(fmt.Sprint("s", s.sc)) }
		e := M{"o": "reg", "key": s.key}
		op := Op{Subs: []M{e}}
		switch s.kind {
		case "counter":
			op.Run = func() []any { sc().Counter(s.name); return one(0) }
		case "int":
			op.Run = func() []any { sc().IntVal(s.name); return one(0) }
		case "func":
			op.Run = func() []any { sc().FuncNamed(s.name); return one(0) }
		case "gauge":
			e["o"], e["v"] = "put", v
			op.Run = func() []any { sc().Gauge(s.name, func() float64 { return float64(v) }); return one(0) }
		case "chain":
			e["o"] = "add"
			op.Run = func() []any {
				sc().Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
					cb(monkit.NewSeriesKey(s.name), "value", 0)
				}))
				return one(0)
			}
		}
		return op
	}
	report := func() Op {
		op := Op{}
		for _, s := range all {
			op.Subs = append(op.Subs, M{"o": "rep?", "key": s.key})
		}
		op.Run = func() []any {
			count, val := map[string]int{}, map[string]int{}
			reg.Stats(func(key monkit.SeriesKey, field string, v float64) {
				// one row stands for a source
				switch field {
				case "value", "count", "current":
					n := key.Measurement
					if n == "function" {
						n = key.Tags.Get("name")
					}
					if n == "function_times" || key.Tags.Get("error_name") != "" {
						return
					}
					count[n]++
					val[n] = int(v)
				}
			})
			var out []any
			for _, s := range all {
				v := val[s.name]
				if s.kind != "gauge" {
					v = 0
				}
				out = append(out, []any{count[s.name], v})
			}
			return out
		}
		return op
	}
	p := &Prog{Head: M{"k": "h"}}
	for i := r.Intn(3); i > 0; i-- {
		p.Pre = append(p.Pre, put(all[r.Intn(len(all))]))
	}
	for i := 2 + r.Intn(2); i > 0; i-- {
		var ops []Op
		for j := 1 + r.Intn(3); j > 0; j-- {
			if r.Intn(3) == 0 {
				ops = append(ops, report())
			} else {
				ops = append(ops, put(all[r.Intn(len(all))]))
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Final = append(p.Final, report())
	return p
}

func init() {
	reg("report.seq", func(d *Drv) {
		for i := 0; i < d.N && !d.Over(); i++ {
			d.Emit(M{}, reportSeq(d.R))
		}
	})
	reg("report.conc", concDriver(genReport, 24, 3, 600))
}
