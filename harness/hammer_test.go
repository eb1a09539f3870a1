package vh

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
)

// Unsynchronised use of one area by many goroutines on all processors: data races are
// the race detector's to find; what can be said once everything is over (tallies) is
// given to the specification of counting: so many expected, so many found.

type tally map[string][2]int64 // want, got

var hammers = map[string]func(d *Drv) tally{
	"C01": hamFunc,
	"C02": hamFunc,
	"C03": hamList,
	"C04": hamList,
	"C05": hamIDs,
	"C07": hamObs,
	"C08": hamWatch,
	"C09": hamCollect,
	"C10": hamScope,
	"C12": hamMeter,
	"C13": hamVal,
	"C14": hamReport,
	"C16": hamErrName,
	"C19": hamParents,
	"C20": hamVals,
	"C21": hamDelta,
}

var nostat = func(monkit.SeriesKey, string, float64) {}

func hamFunc(d *Drv) tally {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	const G, K = 6, 40
	reset := d.R.Intn(3) == 0
	var peak, cur atomic.Int64
	hammer(G, func(g int, r *rand.Rand) {
		for k := 0; k < K; k++ {
			var err error
			var end func(*error)
			c := cur.Add(1)
			for p := peak.Load(); c > p && !peak.CompareAndSwap(p, c); p = peak.Load() {
			}
			if r.Intn(2) == 0 {
				end = f.FuncStats.Observe()
			} else {
				ctx := context.Background()
				end = f.Task(&ctx)
			}
			if k%4 == 0 {
				err = errors.New("x")
			}
			func() {
				defer func() { recover() }()
				if k%8 == 1 {
					defer end(&err)
					panic(1)
				}
				end(&err)
			}()
			cur.Add(-1)
			switch r.Intn(9) {
			case 0:
				f.Stats(nostat)
			case 1:
				f.Errors()
			case 2:
				f.SuccessTimes().Query(.5)
			case 3:
				f.FailureTimes()
			case 4:
				f.Current()
				f.Highwater()
			case 5:
				f.Success()
				f.Panics()
			case 6:
				f.Parents(func(*monkit.Func) {})
			case 7:
				if reset {
					f.Reset()
				}
			}
		}
	}, d)
	out := tally{"current": {0, f.Current()}}
	if hw := f.Highwater(); hw > peak.Load() {
		out["highwater"] = [2]int64{peak.Load(), hw}
	}
	if !reset {
		out["success"] = [2]int64{G * K * 5 / 8, f.Success()}
		out["errors"] = [2]int64{G * K / 4, f.Errors()["System Error"]}
		out["panics"] = [2]int64{G * K / 8, f.Panics()}
		out["success times"] = [2]int64{G * K * 5 / 8, f.SuccessTimes().Count}
		out["failure times"] = [2]int64{G * K * 3 / 8, f.FailureTimes().Count}
	}
	return out
}

func hamList(d *Drv) tally {
	g := monkit.NewRegistry()
	f := g.ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	end := f.Task(&root)
	tr := monkit.SpanFromCtx(root).Trace()
	hammer(6, func(n int, r *rand.Rand) {
		var ends []func(*error)
		for k := 0; k < 25; k++ {
			ctx := root
			for j := 1 + r.Intn(3); j > 0; j-- {
				if r.Intn(6) == 0 {
					ctx = context.Background()
				}
				ends = append(ends, f.Task(&ctx))
			}
			switch r.Intn(4) {
			case 0:
				g.AllSpans(func(s *monkit.Span) { s.Orphaned(); s.Duration(); s.ParentId(); _ = s.String() })
			case 1:
				g.RootSpans(func(s *monkit.Span) { s.Children(func(*monkit.Span) {}) })
			case 2:
				tr.Spans()
			}
			r.Shuffle(len(ends), func(i, j int) { ends[i], ends[j] = ends[j], ends[i] })
			for len(ends) > r.Intn(4) {
				ends[0](nil)
				ends = ends[1:]
			}
		}
		for _, e := range ends {
			e(nil)
		}
	}, d)
	end(nil)
	var left int64
	g.AllSpans(func(*monkit.Span) { left++ })
	return tally{"left": {0, left}, "spans": {0, tr.Spans()}}
}

func hamIDs(d *Drv) tally {
	g := monkit.NewRegistry()
	sc := g.ScopeNamed("s")
	f := sc.FuncNamed("f")
	const G, K = 8, 60
	spans, traces, fns := make([][]int64, G), make([][]int64, G), make([][]int64, G)
	root := context.Background()
	defer f.Task(&root)(nil)
	wrong := make([]int64, G)
	hammer(G, func(n int, r *rand.Rand) {
		for k := 0; k < K; k++ {
			ctx := context.Background()
			e1 := f.ResetTrace(&ctx)
			s1 := monkit.SpanFromCtx(ctx)
			c2 := ctx
			e2 := f.Task(&c2)
			s2 := monkit.SpanFromCtx(c2)
			c3 := root
			e3 := f.Task(&c3)
			s3 := monkit.SpanFromCtx(c3)
			if s2.Trace() != s1.Trace() || s3.Trace() != monkit.SpanFromCtx(root).Trace() {
				wrong[n]++
			}
			if p, ok := s2.ParentId(); !ok || p != s1.Id() {
				wrong[n]++
			}
			spans[n] = append(spans[n], s1.Id(), s2.Id(), s3.Id(), monkit.NewId())
			traces[n] = append(traces[n], s1.Trace().Id())
			fns[n] = append(fns[n], sc.FuncNamed(fmt.Sprint(n, " ", k)).Id())
			e3(nil)
			e2(nil)
			e1(nil)
		}
	}, d)
	count := func(q [][]int64) int64 {
		m := map[int64]bool{}
		for _, x := range q {
			for _, y := range x {
				m[y] = true
			}
		}
		return int64(len(m))
	}
	var w int64
	for _, x := range wrong {
		w += x
	}
	return tally{"span ids": {G * K * 4, count(spans)}, "trace ids": {G * K, count(traces)}, "function ids": {G * K, count(fns)}, "misplaced": {0, w}}
}

type countObs struct{ starts, ends atomic.Int64 }

func (o *countObs) Start(*monkit.Span)                          { o.starts.Add(1) }
func (o *countObs) Finish(*monkit.Span, error, bool, time.Time) { o.ends.Add(1) }

type countCtxObs struct{ countObs }

func (o *countCtxObs) Start(ctx context.Context, s *monkit.Span) context.Context {
	o.starts.Add(1)
	return ctx
}
func (o *countCtxObs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.ends.Add(1)
}

func hamObs(d *Drv) tally {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	end := f.Task(&root)
	tr := monkit.SpanFromCtx(root).Trace()
	stay := &countCtxObs{}
	tr.ObserveSpansCtx(stay)
	const G, K = 6, 40
	var own [G]int64
	hammer(G, func(n int, r *rand.Rand) {
		var cs []func()
		for k := 0; k < K; k++ {
			if r.Intn(3) == 0 {
				o := &countObs{}
				cs = append(cs, tr.ObserveSpans(o))
				ctx := root
				f.Task(&ctx)(nil)
				if o.starts.Load() < 1 || o.ends.Load() < 1 {
					own[n]++
				}
			} else {
				ctx := root
				f.Task(&ctx)(nil)
			}
			if len(cs) > 0 && r.Intn(2) == 0 {
				i := r.Intn(len(cs))
				cs[i]()
				cs[i] = cs[len(cs)-1]
				cs = cs[:len(cs)-1]
			}
		}
		for _, c := range cs {
			c()
		}
	}, d)
	end(nil)
	var missed int64
	for _, x := range own {
		missed += x
	}
	return tally{"starts": {G * K, stay.starts.Load()}, "finishes": {G*K + 1, stay.ends.Load()}, "missed": {0, missed}}
}

func hamWatch(d *Drv) tally {
	g := monkit.NewRegistry()
	f := g.ScopeNamed("s").FuncNamed("f")
	var stay, missed atomic.Int64
	g.ObserveTraces(func(*monkit.Trace) { stay.Add(1) })
	const G, K = 6, 30
	hammer(G, func(n int, r *rand.Rand) {
		var cs []func()
		for k := 0; k < K; k++ {
			var mine atomic.Int64
			watch := r.Intn(2) == 0
			if watch {
				cs = append(cs, g.ObserveTraces(func(t *monkit.Trace) { t.Id(); mine.Add(1) }))
			}
			ctx := context.Background()
			switch r.Intn(3) {
			case 0:
				f.Task(&ctx)(nil)
			case 1:
				f.ResetTrace(&ctx)(nil)
			default:
				f.RemoteTrace(&ctx, 1, monkit.NewTrace(monkit.NewId()))(nil)
			}
			if watch && mine.Load() < 1 {
				missed.Add(1)
			}
			if len(cs) > 0 && r.Intn(2) == 0 {
				cs[0]()
				cs = cs[1:]
			}
		}
		for _, c := range cs {
			c()
		}
	}, d)
	return tally{"told": {G * K, stay.Load()}, "missed": {0, missed.Load()}}
}

func hamCollect(d *Drv) tally {
	g := monkit.NewRegistry()
	f := g.ScopeNamed("s").FuncNamed("f")
	other := g.ScopeNamed("s").FuncNamed("other")
	var wrong atomic.Int64
	hammer(5, func(n int, r *rand.Rand) {
		for k := 0; k < 6; k++ {
			switch (n + k) % 3 {
			case 0: // collect own work, with children on several goroutines
				want := int64(1)
				outer := context.Background()
				endOuter := f.Task(&outer)
				spans := collect.CollectSpans(outer, func(ctx context.Context) {
					ctx2 := ctx
					end := f.Task(&ctx2)
					var wg sync.WaitGroup
					for i := 0; i < 3; i++ {
						want += 1
						wg.Add(1)
						go func() {
							defer wg.Done()
							c := ctx2
							f.Task(&c)(nil)
						}()
					}
					wg.Wait()
					end(nil)
				})
				endOuter(nil)
				if int64(len(spans)) != want+1 { // and the one CollectSpans adds
					wrong.Add(1)
				}
			case 1: // watch
				ctx, cancel := context.WithCancel(context.Background())
				done := make(chan bool)
				go func() {
					defer close(done)
					spans, err := collect.WatchForSpans(ctx, g, func(s *monkit.Span) bool { return s.Func() == other })
					if err == nil && len(spans) == 0 {
						wrong.Add(1)
					}
				}()
				go func() {
					for i := 0; ; i++ {
						select {
						case <-done:
							return
						default:
							c := context.Background()
							e := other.Task(&c)
							f.Task(&c)(nil)
							e(nil)
						}
					}
				}()
				if r.Intn(2) == 0 {
					cancel()
				}
				<-done
				cancel()
			default: // one collector on several traces, stopped at any time
				g := monkit.NewRegistry()
				f := g.ScopeNamed("s").FuncNamed("f")
				col := collect.NewSpanCollector(func(s *monkit.Span) bool { return true })
				c := collect.ObserveAllTraces(g, col)
				var wg sync.WaitGroup
				for i := 0; i < 3; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						c := context.Background()
						e := f.Task(&c)
						f.Task(&c)(nil)
						e(nil)
					}()
				}
				if r.Intn(2) == 0 {
					col.Stop()
				}
				col.Spans()
				wg.Wait()
				c()
				select {
				case <-col.Done():
				case <-time.After(20 * time.Second):
					wrong.Add(1)
				}
				seen := map[int64]bool{}
				for _, s := range col.Spans() {
					if seen[s.Span.Id()] {
						wrong.Add(1)
					}
					seen[s.Span.Id()] = true
				}
			}
		}
	}, d)
	return tally{"wrong": {0, wrong.Load()}}
}

func hamScope(d *Drv) tally {
	g := monkit.NewRegistry()
	const G, N = 6, 12
	type key struct {
		kind string
		n    int
	}
	seen := make([]map[key]any, G)
	var wrong atomic.Int64
	s2 := g.ScopeNamed("kinds")
	kinds := []func(string, bool){
		func(n string, use bool) {
			c := s2.Counter(n)
			if use {
				c.Inc(1)
			}
		},
		func(n string, use bool) {
			c := s2.Meter(n)
			if use {
				c.Mark(1)
			}
		},
		func(n string, use bool) {
			c := s2.IntVal(n)
			if use {
				c.Observe(1)
			}
		},
		func(n string, use bool) {
			c := s2.FloatVal(n)
			if use {
				c.Observe(1)
			}
		},
		func(n string, use bool) {
			c := s2.BoolVal(n)
			if use {
				c.Observe(true)
			}
		},
		func(n string, use bool) {
			c := s2.DurationVal(n)
			if use {
				c.Observe(1)
			}
		},
		func(n string, use bool) {
			c := s2.Timer(n)
			if use {
				c.Start().Stop()
			}
		},
		func(n string, use bool) {
			c := s2.StructVal(n)
			if use {
				c.Observe(struct{ A, B int }{1, 2})
			}
		},
	}
	for i, k := range kinds {
		k(fmt.Sprint("k", i), true)
	}
	hammer(G, func(n int, r *rand.Rand) {
		seen[n] = map[key]any{}
		for k := 0; k < 60; k++ {
			i := r.Intn(N)
			sc := g.ScopeNamed(fmt.Sprint("scope", i%3))
			seen[n][key{"scope", i % 3}] = sc
			name := fmt.Sprint("n", i)
			tag := monkit.NewSeriesTag("k", fmt.Sprint(i%2))
			switch i % 6 {
			case 0:
				seen[n][key{"f", i}] = sc.FuncNamed(name, tag)
			case 1:
				seen[n][key{"c", i}] = sc.Counter(name)
			case 2:
				seen[n][key{"iv", i}] = sc.IntVal(name, tag)
			case 3:
				seen[n][key{"m", i}] = sc.Meter(name)
			case 4:
				seen[n][key{"t", i}] = sc.Timer(name)
			default:
				seen[n][key{"b", i}] = sc.BoolVal(name)
			}
			switch r.Intn(12) {
			case 4, 5:
				// used, asked for as another kind meanwhile, and used on
				at := r.Intn(len(kinds))
				kinds[at](fmt.Sprint("k", at), true)
				at2 := r.Intn(len(kinds))
				msg := try(func() { kinds[at2](fmt.Sprint("k", at), false) })
				if (msg == "") != (at == at2) {
					wrong.Add(1)
				}
			case 0:
				g.Scopes(func(s *monkit.Scope) { _ = s.Name() })
			case 1:
				g.Funcs(func(f *monkit.Func) { _ = f.FullName() })
			case 2:
				sc.Gauge("g", func() float64 { return 1 })
			case 3:
				sc.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {}))
			}
		}
	}, d)
	all := map[key]any{}
	var diff int64
	for _, m := range seen {
		for k, v := range m {
			if o, ok := all[k]; ok && o != v {
				diff++
			}
			all[k] = v
		}
	}
	return tally{"different": {0, diff}, "kinds": {0, wrong.Load()}}
}

func hamMeter(d *Drv) tally {
	m1, m2 := monkit.NewMeter(monkit.NewSeriesKey("m")), monkit.NewMeter(monkit.NewSeriesKey("n"))
	dm := monkit.NewDiffMeter(monkit.NewSeriesKey("d"), m1, m2)
	reset := d.R.Intn(3) == 0
	const G, K = 6, 50
	hammer(G, func(n int, r *rand.Rand) {
		for k := 0; k < K; k++ {
			m1.Mark(3)
			m2.Mark64(2)
			switch r.Intn(6) {
			case 0:
				m1.Stats(nostat)
			case 1:
				m1.Rate()
				m2.Total()
			case 2:
				dm.Stats(nostat)
			case 3:
				if reset {
					m1.Reset(int64(k))
					m2.SetTotal(int64(k))
				}
			}
		}
	}, d)
	if reset {
		return tally{}
	}
	return tally{"first": {G * K * 3, int64(m1.Total())}, "second": {G * K * 2, int64(m2.Total())}}
}

func hamVal(d *Drv) tally {
	k := monkit.NewSeriesKey("v")
	iv, fv, dv, bv, sv, tm := monkit.NewIntVal(k), monkit.NewFloatVal(k), monkit.NewDurationVal(k), monkit.NewBoolVal(k), monkit.NewStructVal(k), monkit.NewTimer(k)
	shared := tm.Start()
	const G, K = 6, 40
	hammer(G, func(n int, r *rand.Rand) {
		for k := 0; k < K; k++ {
			iv.Observe(int64(k))
			fv.Observe(float64(k))
			dv.Observe(time.Duration(k))
			bv.Observe(k%4 == 0)
			sv.Observe(struct{ A int }{k})
			tm.Start().Stop()
			if k == 7 {
				shared.Stop()
			}
			switch r.Intn(8) {
			case 0:
				iv.Stats(nostat)
			case 1:
				fv.Stats(nostat)
			case 2:
				dv.Stats(nostat)
			case 3:
				bv.Stats(nostat)
			case 4:
				sv.Stats(nostat)
			case 5:
				tm.Stats(nostat)
				tm.Values().Query(.5)
			case 6:
				iv.Quantile(.5)
				fv.Quantile(.3)
				dv.Quantile(.9)
			}
		}
	}, d)
	b := statsOf(bv)
	return tally{"int": {G * K, int64(statsOf(iv)["count"])}, "int sum": {G * K * (K - 1) / 2, int64(statsOf(iv)["sum"])},
		"float": {G * K, int64(statsOf(fv)["count"])}, "dur": {G * K, int64(statsOf(dv)["count"])},
		"true": {G * K / 4, int64(b["true"])}, "false": {G * K * 3 / 4, int64(b["false"])},
		"timer": {G*K + 1, tm.Values().Count}}
}

func hamReport(d *Drv) tally {
	g := monkit.NewRegistry()
	base := g.ScopeNamed("base")
	base.Counter("c").Inc(1)
	base.Gauge("g", func() float64 { return 2 })
	type pair struct{ A, B int }
	base.StructVal("s").Observe(&pair{1, 2})
	dt := monkit.NewDeltaTransformer()
	view := g.WithTransformers(dt)
	var short atomic.Int64
	hammer(5, func(n int, r *rand.Rand) {
		for k := 0; k < 12; k++ {
			sc := g.ScopeNamed(fmt.Sprint("s", r.Intn(4)))
			switch r.Intn(5) {
			case 0:
				sc.IntVal(fmt.Sprint("v", k)).Observe(1)
			case 1:
				sc.Gauge(fmt.Sprint("g", k), func() float64 { return 1 })
			case 2:
				sc.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) { cb(monkit.NewSeriesKey("x"), "total", 1) }))
			case 3:
				f := sc.FuncNamed(fmt.Sprint("f", k))
				ctx := context.Background()
				f.Task(&ctx)(nil)
			default:
				sc.Event("e")
			}
			from := g
			if r.Intn(2) == 0 {
				from = view
			}
			seen := 0
			from.Stats(func(key monkit.SeriesKey, field string, val float64) {
				if key.Tags.Get("scope") == "base" && field != "delta" {
					seen++
				}
				_ = key.WithField(field)
			})
			if seen != 3+1+2 {
				short.Add(1)
			}
		}
	}, d)
	return tally{"incomplete": {0, short.Load()}}
}

func hamErrName(d *Drv) tally {
	errRun++
	run := errRun
	fs := monkit.NewFuncStats(monkit.NewSeriesKey("f"))
	const G, K = 5, 6
	var wrong atomic.Int64
	hammer(G, func(n int, r *rand.Rand) {
		for k := 0; k < K; k++ {
			x := 1000 + n*100 + k
			name := fmt.Sprint("own", x)
			monkit.AddErrorNameHandler(func(err error) (string, bool) {
				t, ok := err.(*tokErr)
				return name, ok && t.run == run && t.x == x
			})
			for j := 0; j <= k; j++ {
				var err error = &tokErr{run: run, x: 1000 + n*100 + j}
				mine := monkit.NewFuncStats(monkit.NewSeriesKey("m"))
				mine.Observe()(&err)
				if mine.Errors()[fmt.Sprint("own", 1000+n*100+j)] != 1 {
					wrong.Add(1)
				}
				fs.Observe()(&err)
			}
		}
	}, d)
	var total int64
	for n, c := range fs.Errors() {
		if strings.HasPrefix(n, "own") {
			total += c
		}
	}
	return tally{"misnamed": {0, wrong.Load()}, "named": {G * K * (K + 1) / 2, total}}
}

func hamParents(d *Drv) tally {
	sc := monkit.NewRegistry().ScopeNamed("s")
	f := sc.FuncNamed("f")
	const G, K = 6, 20
	var missing atomic.Int64
	hammer(G, func(n int, r *rand.Rand) {
		for k := 0; k < K; k++ {
			p := sc.FuncNamed(fmt.Sprint("p", n, "-", k))
			ctx := context.Background()
			e := p.Task(&ctx)
			f.Task(&ctx)(nil)
			e(nil)
			seen := 0
			f.Parents(func(q *monkit.Func) {
				if q == p {
					seen++
				}
			})
			if seen != 1 {
				missing.Add(1)
			}
		}
	}, d)
	var all int64
	f.Parents(func(*monkit.Func) { all++ })
	return tally{"callers": {G * K, all}, "missing": {0, missing.Load()}}
}

func hamVals(d *Drv) tally {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	end := f.Task(&ctx, 1, "x")
	s := monkit.SpanFromCtx(ctx)
	tr := s.Trace()
	const G, K = 6, 30
	var wrong atomic.Int64
	hammer(G, func(n int, r *rand.Rand) {
		for k := 0; k < K; k++ {
			s.Annotate(fmt.Sprint("a", n), fmt.Sprint(k))
			tr.Set(n, k)
			if tr.Get(n) != k {
				wrong.Add(1)
			}
			switch r.Intn(4) {
			case 0:
				last := -1
				for _, a := range s.Annotations() {
					if a.Name == fmt.Sprint("a", n) {
						last++
						if a.Value != fmt.Sprint(last) {
							wrong.Add(1)
						}
					}
				}
				if last != k {
					wrong.Add(1)
				}
			case 1:
				all := tr.GetAll()
				if all[n] != k {
					wrong.Add(1)
				}
				all[n] = -1
			case 2:
				s.Args()
			}
		}
	}, d)
	end(nil)
	return tally{"annotations": {G * K, int64(len(s.Annotations()))}, "wrong": {0, wrong.Load()}}
}

func hamDelta(d *Drv) tally {
	dt := monkit.NewDeltaTransformer()
	const G, K = 6, 40
	var wrong, sum atomic.Int64
	shared := monkit.NewSeriesKey("shared").WithTag("a", "b")
	dt.Transform(nostat)(shared, "total", 0)
	hammer(G, func(n int, r *rand.Rand) {
		mine := monkit.NewSeriesKey("mine").WithTag("n", fmt.Sprint(n))
		for k := 0; k < K; k++ {
			v := float64(k * k)
			dt.Transform(func(key monkit.SeriesKey, f string, x float64) {
				if f == "delta" && x != v-float64((k-1)*(k-1)) {
					wrong.Add(1)
				}
			})(mine, "total", v)
			dt.Transform(func(key monkit.SeriesKey, f string, x float64) {
				if f == "delta" {
					sum.Add(int64(x))
				}
			})(shared, "total", float64(r.Intn(1000)))
		}
	}, d)
	dt.Transform(func(key monkit.SeriesKey, f string, x float64) {
		if f == "delta" {
			sum.Add(int64(x))
		}
	})(shared, "total", 777)
	return tally{"wrong": {0, wrong.Load()}, "telescoped": {777, sum.Load()}}
}

func init() {
	for p, f := range hammers {
		f := f
		reg("hammer."+p, func(d *Drv) {
			for i := 0; i < d.N && !d.Over(); i++ {
				t := tally{}
				h := &Hist{}
				h.Add(M{"k": "h"})
				if msg := try(func() { t = f(d) }); msg != "" {
					h.Add(M{"k": "x", "why": msg})
				}
				var names []string
				for n := range t {
					names = append(names, n)
				}
				sort.Strings(names)
				for _, n := range names {
					x := t[n]
					h.Do(0, Op{Subs: []M{{"o": "tally", "what": n, "want": x[0]}}, Run: func() []any { return one(x[1]) }})
				}
				d.Emit(M{"i": i}, h.Ev)
			}
		})
	}
}
