package vh

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// cbWorld runs operations that call back, and from inside the callbacks more of them.
type cbWorld struct {
	r      *rand.Rand
	evs    []M
	at     []string // open calls, for a report of where it blocked
	ids    int
	things int
	budget int

	reg   *monkit.Registry
	sc    *monkit.Scope
	fn    *monkit.Func
	ctx   context.Context // of the root span
	root  *monkit.Span
	trace *monkit.Trace

	scopes map[string]string
	funcs  map[*monkit.Func]string
	spans  map[*monkit.Span]string
	kids   map[*monkit.Span]string
	exits  map[string]func(*error)
	undo   map[string]func() // observers and watchers

	m     cbMetrics
	delta *monkit.DeltaTransformer
	nd    int
}

type cbMetrics struct {
	c  *monkit.Counter
	m  *monkit.Meter
	i  *monkit.IntVal
	f  *monkit.FloatVal
	b  *monkit.BoolVal
	d  *monkit.DurationVal
	t  *monkit.Timer
	st *monkit.StructVal
}

func (w *cbWorld) ev(e M) { e["k"] = "op"; w.evs = append(w.evs, e) }

func (w *cbWorld) thing(kind string) string { w.things++; return fmt.Sprint(kind, w.things) }

// call makes a call that visits things of a kind ("" if none); in it, visit is to be called
// for each and then lets the callback do more.
func (w *cbWorld) call(what, kind string, f func(visit func(x string))) {
	w.ids++
	id := w.ids
	w.ev(M{"o": "call", "id": id, "kind": kind, "what": what})
	w.at = append(w.at, what)
	f(func(x string) {
		if x != "" {
			w.ev(M{"o": "visit", "id": id, "x": x})
		}
		if len(w.at) < 4 && w.budget > 0 && w.r.Intn(3) > 0 {
			w.budget--
			w.step()
		}
	})
	w.at = w.at[:len(w.at)-1]
	w.ev(M{"o": "ret", "id": id})
}

func (w *cbWorld) plain(what string, f func()) {
	w.at = append(w.at, what)
	f()
	w.at = w.at[:len(w.at)-1]
}

type cbObserver struct {
	w *cbWorld
	x string
}

// the visit function of the call that now tells observers or watchers
var cbTell, cbTellTrace func(x string)

// the same for the user's code inside sources
var cbInside func(x string)

func (o cbObserver) Start(s *monkit.Span) { cbTell(o.x) }
func (o cbObserver) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	cbTell(o.x)
}

type cbCtxObserver struct{ x string }

func (o cbCtxObserver) Start(ctx context.Context, s *monkit.Span) context.Context {
	cbTell(o.x)
	return ctx
}
func (o cbCtxObserver) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	cbTell(o.x)
}

func (w *cbWorld) telling(p *func(x string), visit func(x string), f func()) {
	was := *p
	*p = visit
	f()
	*p = was
}

type cbSource struct {
	w *cbWorld
	x string
}

func (s cbSource) Stats(cb func(key monkit.SeriesKey, field string, val float64)) {
	cbInside("")
	cb(monkit.NewSeriesKey(s.x), "value", 1)
}

type cbWriter struct {
	w     *cbWorld
	visit func(x string)
}

func (c cbWriter) Write(p []byte) (int, error) {
	if c.w.r.Intn(6) == 0 {
		c.visit("")
	}
	return len(p), nil
}

func (w *cbWorld) step() {
	r := w.r
	pick := func(m map[string]func(*error)) string {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		if len(l) == 0 {
			return ""
		}
		sort.Strings(l)
		return l[r.Intn(len(l))]
	}
	switch r.Intn(28) {
	case 0, 1:
		w.call("Registry.RootSpans", "span", func(visit func(string)) {
			w.reg.RootSpans(func(s *monkit.Span) { visit(w.spans[s]) })
		})
	case 2:
		w.call("Span.Children", "kid", func(visit func(string)) {
			w.root.Children(func(s *monkit.Span) { visit(w.kids[s]) })
		})
	case 3:
		w.call("Registry.AllSpans", "", func(visit func(string)) {
			w.reg.AllSpans(func(s *monkit.Span) { visit("") })
		})
	case 4:
		w.call("Registry.Scopes", "scope", func(visit func(string)) {
			w.reg.Scopes(func(s *monkit.Scope) { visit(w.scopes[s.Name()]) })
		})
	case 5:
		w.call("Funcs", "func", func(visit func(string)) {
			if r.Intn(2) == 0 {
				w.sc.Funcs(func(f *monkit.Func) { visit(w.funcs[f]) })
			} else {
				w.reg.Funcs(func(f *monkit.Func) { visit(w.funcs[f]) })
			}
		})
	case 6, 7, 8:
		w.call("Stats", "src", func(visit func(string)) {
			cb := func(key monkit.SeriesKey, field string, val float64) {
				if strings.HasPrefix(key.Measurement, "src") && field == "value" {
					visit(key.Measurement)
				} else if r.Intn(8) == 0 {
					visit("")
				}
			}
			was := cbInside
			cbInside = visit
			defer func() { cbInside = was }()
			switch r.Intn(3) {
			case 0:
				w.reg.Stats(cb)
			case 1:
				w.sc.Stats(cb)
			case 2:
				w.reg.WithTransformers(monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
					return func(k monkit.SeriesKey, f string, v float64) { cb(k, f, v) }
				})).Stats(cb)
			}
		})
	case 9:
		src := []struct {
			n string
			s monkit.StatSource
		}{{"Counter", w.m.c}, {"Meter", w.m.m}, {"IntVal", w.m.i}, {"FloatVal", w.m.f}, {"BoolVal", w.m.b}, {"DurationVal", w.m.d}, {"Timer", w.m.t},
			{"StructVal", w.m.st}, {"Func", w.fn}, {"DiffMeter", monkit.NewDiffMeter(monkit.NewSeriesKey("dm"), w.m.m, w.m.m)}}[r.Intn(10)]
		w.call(src.n+".Stats", "", func(visit func(string)) {
			src.s.Stats(func(key monkit.SeriesKey, field string, val float64) { visit("") })
		})
	case 10:
		w.call("Func.Parents", "", func(visit func(string)) { w.fn.Parents(func(*monkit.Func) { visit("") }) })
	case 11:
		docs := []struct {
			n string
			f func(*monkit.Registry, io.Writer) error
		}{{"SpansText", present.SpansText}, {"SpansDot", present.SpansDot}, {"SpansJSON", present.SpansJSON},
			{"FuncsText", present.FuncsText}, {"FuncsDot", present.FuncsDot}, {"FuncsJSON", present.FuncsJSON},
			{"StatsText", present.StatsText}, {"StatsJSON", present.StatsJSON}}
		d := docs[r.Intn(len(docs))]
		w.call("present."+d.n, "", func(visit func(string)) {
			was := cbInside
			cbInside = visit
			defer func() { cbInside = was }()
			d.f(w.reg, cbWriter{w: w, visit: visit})
		})
	case 12:
		w.call("DeltaTransformer", "", func(visit func(string)) {
			w.nd++
			w.delta.Transform(func(monkit.SeriesKey, string, float64) { visit("") })(monkit.NewSeriesKey("t"), "total", float64(w.nd))
		})
	case 13:
		w.call("collector matcher", "", func(visit func(string)) {
			var c *collect.SpanCollector
			c = collect.NewSpanCollector(func(*monkit.Span) bool {
				w.plain("the collector itself", func() {
					switch r.Intn(4) {
					case 0:
						c.Spans()
					case 1:
						c.Finish(w.root, nil, false, time.Now())
					case 2:
						c.ForceStart(w.root)
						c.Finish(w.root, nil, false, time.Now())
					}
				})
				visit("")
				return r.Intn(2) == 0
			})
			c.Start(w.root)
			c.Stop()
			c.Spans()
		})
	case 14:
		// a new trace: watchers are told
		w.call("ResetTrace", "watch", func(visit func(string)) {
			ctx := context.Background()
			var exit func(*error)
			w.telling(&cbTellTrace, visit, func() {
				w.telling(&cbTell, func(string) {}, func() { exit = w.fn.ResetTrace(&ctx) })
			})
			x := w.thing("span")
			w.spans[monkit.SpanFromCtx(ctx)] = x
			w.exits[x] = exit
			w.ev(M{"o": "add", "x": x, "kind": "span"})
		})
	case 15:
		// a child of the root: its trace's observers are told
		w.call("Task", "obs", func(visit func(string)) {
			ctx := w.ctx
			var exit func(*error)
			w.telling(&cbTell, visit, func() { exit = w.fn.Task(&ctx) })
			x := w.thing("kid")
			w.kids[monkit.SpanFromCtx(ctx)] = x
			w.exits[x] = exit
			w.ev(M{"o": "add", "x": x, "kind": "kid"})
		})
	case 16, 17:
		if x := pick(w.exits); x != "" {
			exit := w.exits[x]
			delete(w.exits, x)
			kind := "obs"
			if strings.HasPrefix(x, "span") {
				kind = ""
			}
			w.call("end of a task", kind, func(visit func(string)) {
				// it is gone from the listings by the time observers are told
				w.ev(M{"o": "del", "x": x})
				w.telling(&cbTell, visit, func() {
					err := error(nil)
					if r.Intn(2) == 0 {
						err = errors.New("x")
					}
					exit(&err)
				})
			})
		}
	case 18:
		w.plain("ScopeNamed", func() {
			x := w.thing("scope")
			w.reg.ScopeNamed(x)
			w.scopes[x] = x
			w.ev(M{"o": "add", "x": x, "kind": "scope"})
		})
	case 19:
		w.plain("FuncNamed", func() {
			x := w.thing("func")
			w.funcs[w.sc.FuncNamed(x)] = x
			w.ev(M{"o": "add", "x": x, "kind": "func"})
		})
	case 20:
		w.plain("new source", func() {
			x := w.thing("src")
			switch r.Intn(3) {
			case 0:
				w.sc.Counter(x)
			case 1:
				w.sc.Gauge(x, func() float64 { cbInside(""); return 2 })
			case 2:
				w.sc.Chain(cbSource{w, x})
			}
			w.ev(M{"o": "add", "x": x, "kind": "src"})
		})
	case 21:
		w.plain("ObserveTraces", func() {
			x := w.thing("watch")
			w.undo[x] = w.reg.ObserveTraces(func(*monkit.Trace) { cbTellTrace(x) })
			w.ev(M{"o": "add", "x": x, "kind": "watch"})
		})
	case 22:
		w.plain("ObserveSpans", func() {
			x := w.thing("obs")
			if r.Intn(2) == 0 {
				w.undo[x] = w.trace.ObserveSpans(cbObserver{w: w, x: x})
			} else {
				w.undo[x] = w.trace.ObserveSpansCtx(cbCtxObserver{x})
			}
			w.ev(M{"o": "add", "x": x, "kind": "obs"})
		})
	case 23:
		var l []string
		for x := range w.undo {
			l = append(l, x)
		}
		if len(l) > 0 {
			sort.Strings(l)
			x := l[r.Intn(len(l))]
			w.plain("cancelling "+x, func() { w.undo[x]() })
			delete(w.undo, x)
			w.ev(M{"o": "del", "x": x})
		}
	case 24, 25:
		w.touch(r.Intn(7))
	case 26:
		w.plain("Annotate", func() {
			w.root.Annotate("a", "b")
			w.root.Annotations()
			w.root.Orphaned()
			w.root.Args()
			w.trace.Set("k", 1)
			w.trace.Get("k")
			w.trace.GetAll()
			w.trace.Spans()
			w.m.st.Observe(struct{ A int }{1})
		})
		w.ev(M{"o": "touch", "m": "ann"})
	case 27:
		w.plain("statistics of a function", func() {
			w.fn.Current()
			w.fn.Highwater()
			w.fn.Success()
			w.fn.Errors()
			w.fn.Panics()
			w.fn.SuccessTimes()
			w.fn.FailureTimes()
			if r.Intn(3) == 0 {
				w.fn.Reset()
			}
		})
	}
}

func (w *cbWorld) touch(k int) {
	w.plain("updating a metric", func() {
		switch k {
		case 0:
			w.m.c.Inc(1)
		case 1:
			w.m.m.Mark(1)
		case 2:
			w.m.i.Observe(3)
		case 3:
			w.m.f.Observe(3)
		case 4:
			w.m.b.Observe(true)
		case 5:
			w.m.d.Observe(3)
		case 6:
			w.m.t.Start().Stop()
		}
	})
	w.ev(M{"o": "touch", "m": strconv.Itoa(k)})
}

func (w *cbWorld) counts() {
	for k, s := range []monkit.StatSource{w.m.c, w.m.m, w.m.i, w.m.f, w.m.b, w.m.d, w.m.t} {
		s.Stats(func(key monkit.SeriesKey, field string, val float64) {
			if field == []string{"value", "total", "count", "count", "true", "count", "count"}[k] {
				w.ev(M{"o": "count", "m": strconv.Itoa(k), "v": int(val)})
			}
		})
	}
	w.ev(M{"o": "count", "m": "ann", "v": len(w.root.Annotations())})
}

// one meter for all runs: a meter is never forgotten
var cbMeter *monkit.Meter

func cbRun(d *Drv, seed int64) bool {
	r := rand.New(rand.NewSource(seed))
	if cbMeter == nil {
		cbMeter = monkit.NewMeter(monkit.NewSeriesKey("meter"))
	}
	cbMeter.Reset(0)
	key := monkit.NewSeriesKey("m")
	w := &cbWorld{r: r, evs: []M{{"k": "h"}}, reg: monkit.NewRegistry(), ctx: context.Background(),
		scopes: map[string]string{}, funcs: map[*monkit.Func]string{}, spans: map[*monkit.Span]string{}, kids: map[*monkit.Span]string{},
		exits: map[string]func(*error){}, undo: map[string]func(){}, delta: monkit.NewDeltaTransformer(),
		m: cbMetrics{c: monkit.NewCounter(key), m: cbMeter, i: monkit.NewIntVal(key), f: monkit.NewFloatVal(key), b: monkit.NewBoolVal(key),
			d: monkit.NewDurationVal(key), t: monkit.NewTimer(key), st: monkit.NewStructVal(key)}}
	w.sc = w.reg.ScopeNamed("scope0")
	w.scopes["scope0"] = "scope0"
	w.ev(M{"o": "add", "x": "scope0", "kind": "scope"})
	w.fn = w.sc.FuncNamed("func0")
	w.funcs[w.fn] = "func0"
	w.ev(M{"o": "add", "x": "func0", "kind": "func"})
	for _, s := range []monkit.StatSource{w.m.c, w.m.i, w.m.t} {
		w.sc.Chain(s) // not judged, but they call back too
	}
	exit := w.fn.Task(&w.ctx)
	w.root = monkit.SpanFromCtx(w.ctx)
	w.trace = w.root.Trace()
	w.spans[w.root] = "span0"
	w.ev(M{"o": "add", "x": "span0", "kind": "span"})
	cbTell, cbTellTrace, cbInside = func(string) {}, func(string) {}, func(string) {}

	done := make(chan struct{})
	go func() {
		defer close(done)
		msg := try(func() {
			// something of everything
			for n := 3 + r.Intn(8); n > 0; n-- {
				w.step()
			}
			for n := 2 + r.Intn(6); n > 0; n-- {
				w.budget = 8
				w.step()
			}
			w.budget = 0
			var l []string
			for x := range w.exits {
				l = append(l, x)
			}
			sort.Strings(l)
			cbTell, cbTellTrace = func(string) {}, func(string) {}
			for _, x := range l {
				w.exits[x](nil)
				w.ev(M{"o": "del", "x": x})
			}
			exit(nil)
			w.counts()
			w.ev(M{"o": "end"})
		})
		if msg != "" {
			w.evs = append(w.evs, M{"k": "x", "why": strings.Join(w.at, " > ") + ": " + msg})
		}
	}()
	select {
	case <-done:
		d.Emit(M{"prog": seed}, w.evs)
		return true
	case <-time.After(20 * time.Second):
		d.Emit(M{"prog": seed}, []M{{"k": "h"}, {"k": "x", "why": "blocked for good: " + strings.Join(w.at, " > ")}})
		return false
	}
}

func init() {
	reg("callback.seq", func(d *Drv) {
		for i := 0; i < d.N && !d.Over(); i++ {
			if i%d.Shards == d.Shard && !cbRun(d, d.Seed*1000000+int64(i)) {
				return
			}
		}
	})
}
