package vh

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"sync/atomic"
	"testing/synctest"
	"time"
	"weak"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	zz "github.com/spacemonkeygo/monkit/v3/zzvsched"
)

type colSpan struct {
	s    *monkit.Span
	ctx  context.Context
	exit func(*error)
	live bool
	work *colWork
}

type colWork struct {
	c      int
	finish chan string
	done   chan bool
	spans  []*collect.FinishedSpan
	pan    any
}

type colObs struct {
	kind   string
	col    *collect.SpanCollector
	rec    *colRec
	off    map[int]func() // cancel per trace
	unall  func()
	cancel context.CancelFunc
	over   bool
}

type colRec struct {
	w     *colWorld
	notes []any
}

func (r *colRec) Start(s *monkit.Span) {
	no := r.w.spanNo(s)
	if no == 999 && r.w.starting != nil && r.w.starting.s == nil {
		r.w.starting.s = s
		no = r.w.spanNo(s)
	}
	r.notes = append(r.notes, []any{"S", no})
}
func (r *colRec) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	r.notes = append(r.notes, []any{"F", r.w.spanNo(s)})
}

type colRet struct {
	c     int
	spans []*collect.FinishedSpan
	err   error
}

type colTok struct{ set map[*monkit.Func]bool }

type colWorld struct {
	reg      *monkit.Registry
	fns      []*monkit.Func
	spans    []*colSpan
	trs      []*monkit.Trace
	co       []*colObs
	rets     chan colRet
	base     time.Time
	starting *colSpan
	unit     time.Duration
	cos      int                   // how many observers there are at most
	gone     []func() (int, bool)  // the spans of collected callbacks that are over
	weak     map[int][]func() bool // per collector: is what it held still reachable?
}

func newColWorld() *colWorld {
	w := &colWorld{reg: monkit.NewRegistry(), rets: make(chan colRet, 64), weak: map[int][]func() bool{}, unit: time.Millisecond, cos: 8}
	sc := w.reg.ScopeNamed("s")
	w.fns = []*monkit.Func{nil, sc.FuncNamed("f1"), sc.FuncNamed("f2"), sc.FuncNamed("f3")}
	w.spans = []*colSpan{nil}
	w.trs = []*monkit.Trace{nil}
	w.co = []*colObs{nil}
	var ctx context.Context
	exit := monkit.NewRegistry().ScopeNamed("base").FuncNamed("base").Task(&ctx)
	w.base = monkit.SpanFromCtx(ctx).Start()
	exit(nil)
	return w
}

func (w *colWorld) spanNo(s *monkit.Span) int {
	for i, x := range w.spans {
		if x != nil && x.s == s && s != nil {
			return i
		}
	}
	return 999
}

func (w *colWorld) traceNo(t *monkit.Trace) int {
	for i, x := range w.trs {
		if i > 0 && x == t {
			return i
		}
	}
	w.trs = append(w.trs, t)
	return len(w.trs) - 1
}

func (w *colWorld) ms(t time.Time) any {
	d := t.Sub(w.base)
	if d%w.unit != 0 {
		return 999999
	}
	return int(d / w.unit)
}

func (w *colWorld) fins(spans []*collect.FinishedSpan) []any {
	out := []any{}
	for _, f := range spans {
		out = append(out, M{"s": w.spanNo(f.Span), "e": errCode(f.Err), "p": f.Panicked, "at": w.ms(f.Finish)})
	}
	return out
}

// returned gathers the blocking calls that have returned by now.
func (w *colWorld) returned() []any {
	synctest.Wait()
	out := []any{}
	for {
		select {
		case r := <-w.rets:
			w.co[r.c].over = true
			w.co[r.c].cancel = nil
			out = append(out, M{"c": r.c, "canceled": r.err == context.Canceled, "err": fmt.Sprint(r.err), "spans": w.fins(r.spans)})
			for _, f := range r.spans {
				w.watchWeak(r.c, f)
			}
		default:
			return out
		}
	}
}

func (w *colWorld) watchWeak(c int, f *collect.FinishedSpan) {
	p := weak.Make(f)
	w.weak[c] = append(w.weak[c], func() bool { return p.Value() != nil })
}

// begin describes a freshly started span.
func (w *colWorld) begin(sp *colSpan, ev M, f int, known *monkit.Trace) {
	sp.s = monkit.SpanFromCtx(sp.ctx)
	sp.live = true
	pid, ok := sp.s.ParentId()
	par := 0
	if ok {
		for i, x := range w.spans {
			if x != nil && x.s != nil && x.s.Id() == pid {
				par = i
			}
		}
	}
	ev["s"], ev["f"], ev["par"], ev["tr"] = w.spanNo(sp.s), f, par, w.traceNo(sp.s.Trace())
}

func (w *colWorld) start(f, p int, kind string, tr int, pid int64) M {
	sp := &colSpan{}
	w.spans = append(w.spans, sp)
	w.starting = sp
	ctx := context.Background()
	if p > 0 {
		ctx = w.spans[p].ctx
	}
	ev := M{"k": "op", "o": "start"}
	switch kind {
	case "task":
		sp.exit = w.fns[f].Task(&ctx)
		ev["announced"] = p == 0
	case "reset":
		sp.exit = w.fns[f].ResetTrace(&ctx)
		ev["announced"] = true
	case "remote":
		id := monkit.NewId()
		if len(w.trs) > 1 && pid != 77 && pid%2 == 0 {
			// the trace comes back to where it came from: another one, of the same id
			id = w.trs[1+int(uint64(pid)/2%uint64(len(w.trs)-1))].Id()
		}
		t := monkit.NewTrace(id)
		if tr > 0 {
			t = w.trs[tr]
		}
		sp.exit = w.fns[f].RemoteTrace(&ctx, pid, t)
		ev["announced"] = true
	}
	sp.ctx = ctx
	w.begin(sp, ev, f, nil)
	w.starting = nil
	return ev
}

func (w *colWorld) end(s int, out string, code int) M {
	sp := w.spans[s]
	sp.live = false
	at := w.ms(time.Now())
	finishWith(sp.exit, out, code, 1)
	ev := M{"k": "op", "o": "end", "s": s, "e": 0, "p": out == "panic" || out == "panicerr", "at": at}
	if out == "err" || out == "panicerr" {
		ev["e"] = code
	}
	return ev
}

func (w *colWorld) matcher(r *rand.Rand) (func(*monkit.Span) bool, []any, *colTok) {
	tok := &colTok{set: map[*monkit.Func]bool{}}
	ids := []any{}
	for i, f := range w.fns {
		if f != nil && r.Intn(3) == 0 {
			tok.set[f] = true
			ids = append(ids, i)
		}
	}
	return func(s *monkit.Span) bool { return tok.set[s.Func()] }, ids, tok
}

func (w *colWorld) tokWeak(c int, tok *colTok) {
	p := weak.Make(tok)
	w.weak[c] = append(w.weak[c], func() bool { return p.Value() != nil })
}

func (w *colWorld) newCol(r *rand.Rand) M {
	c := len(w.co)
	o := &colObs{off: map[int]func(){}}
	w.co = append(w.co, o)
	ev := M{"k": "op", "o": "new", "c": c, "all": false, "match": []any{}}
	switch k := r.Intn(7); k {
	case 0, 1, 2:
		o.kind = "col"
		m, ids, _ := w.matcher(r)
		ev["match"] = ids
		if k == 0 {
			m, ev["match"] = nil, []any{}
		}
		o.col = collect.NewSpanCollector(m)
		if r.Intn(2) == 0 {
			ev["all"] = true
			o.unall = collect.ObserveAllTraces(w.reg, o.col)
		}
	case 3, 4:
		o.kind = "watch"
		m, ids, tok := w.matcher(r)
		ev["match"], ev["all"] = ids, true
		w.tokWeak(c, tok)
		ctx, cancel := context.WithCancel(context.Background())
		o.cancel = cancel
		w.spawnWatch(ctx, c, m)
	case 5:
		o.kind = "find"
		m, ids, tok := w.matcher(r)
		ev["match"], ev["all"] = ids, true
		w.tokWeak(c, tok)
		ctx, cancel := context.WithCancel(context.Background())
		o.cancel = cancel
		go func() {
			collect.FindSpan(ctx, w.reg, m)
			w.rets <- colRet{c: c}
		}()
	default:
		o.kind = "rec"
		o.rec = &colRec{w: w}
		ev["all"] = true
		o.unall = collect.ObserveAllTraces(w.reg, o.rec)
	}
	ev["kind"] = o.kind
	return ev
}

func (w *colWorld) spawnWatch(ctx context.Context, c int, m func(*monkit.Span) bool) {
	go func() {
		spans, err := collect.WatchForSpans(ctx, w.reg, m)
		w.rets <- colRet{c, spans, err}
	}()
}

func (w *colWorld) work(p int) M {
	c := len(w.co)
	w.co = append(w.co, &colObs{kind: "work", off: map[int]func(){}})
	sp := &colSpan{}
	w.spans = append(w.spans, sp)
	w.starting = sp
	wk := &colWork{c: c, finish: make(chan string), done: make(chan bool)}
	sp.work = wk
	var pn atomic.Bool
	go func() {
		defer close(wk.done)
		defer func() {
			if rec := recover(); rec != nil {
				wk.pan = rec
				pn.Store(true)
			}
		}()
		wk.spans = collect.CollectSpans(w.spans[p].ctx, func(ctx context.Context) {
			sp.ctx = ctx
			if how := <-wk.finish; how == "panic" {
				panic("work")
			}
		})
	}()
	synctest.Wait()
	ev := M{"k": "op", "o": "work", "c": c, "kind": "work", "all": false, "match": []any{}, "announced": false}
	w.begin(sp, ev, 0, nil)
	w.starting = nil
	return ev
}

func (w *colWorld) worked(s int, how string) M {
	sp := w.spans[s]
	sp.live = false
	at := w.ms(time.Now())
	sp.work.finish <- how
	<-sp.work.done
	ev := M{"k": "op", "o": "worked", "c": sp.work.c, "s": s, "e": 0, "p": how == "panic", "at": at, "panicked": how == "panic" && sp.work.pan == "work", "spans": w.fins(sp.work.spans)}
	for _, f := range sp.work.spans {
		w.watchWeak(sp.work.c, f)
	}
	p, c := weak.Make(sp.s), sp.work.c
	w.gone = append(w.gone, func() (int, bool) { return c, p.Value() != nil })
	sp.work = nil
	w.co[ev["c"].(int)].over = true
	return ev
}

func (w *colWorld) pick(r *rand.Rand, live bool) int {
	var c []int
	for i, s := range w.spans {
		if s != nil && (s.live || !live) {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return 0
	}
	return c[r.Intn(len(c))]
}

func (w *colWorld) pickCo(r *rand.Rand, ok func(o *colObs) bool) int {
	var c []int
	for i, o := range w.co {
		if o != nil && ok(o) {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return 0
	}
	return c[r.Intn(len(c))]
}

func (w *colWorld) read(c int) M {
	o := w.co[c]
	ev := M{"k": "op", "o": "read", "c": c}
	select {
	case <-o.col.Done():
		ev["done"] = true
	default:
		ev["done"] = false
	}
	ev["spans"] = w.fins(o.col.Spans())
	return ev
}

func (w *colWorld) step(r *rand.Rand) M {
	switch r.Intn(20) {
	case 0, 1, 2, 3:
		if r.Intn(4) > 0 {
			if p := w.pick(r, r.Intn(5) > 0); p > 0 {
				return w.start(1+r.Intn(3), p, "task", 0, 0)
			}
		}
		return w.start(1+r.Intn(3), 0, "task", 0, 0)
	case 4:
		kind := []string{"reset", "remote", "remote"}[r.Intn(3)]
		pid := int64(77)
		if x := w.pick(r, false); x > 0 && r.Intn(3) > 0 {
			pid = w.spans[x].s.Id()
		}
		return w.start(1+r.Intn(3), w.pick(r, true), kind, r.Intn(len(w.trs)), pid)
	case 5, 6, 7, 8:
		if s := w.pick(r, true); s > 0 {
			if w.spans[s].work != nil {
				return w.worked(s, []string{"ok", "ok", "ok", "panic"}[r.Intn(4)])
			}
			return w.end(s, []string{"ok", "err", "panic", "panicerr"}[r.Intn(4)], 1+r.Intn(4))
		}
	case 9, 10:
		if len(w.co) < w.cos {
			return w.newCol(r)
		}
	case 11:
		if c := w.pickCo(r, func(o *colObs) bool { return o.kind == "col" && o.unall == nil }); c > 0 && len(w.trs) > 1 {
			tr := 1 + r.Intn(len(w.trs)-1)
			if w.co[c].off[tr] == nil {
				w.co[c].off[tr] = w.trs[tr].ObserveSpans(w.co[c].col)
				return M{"k": "op", "o": "obs", "c": c, "tr": tr}
			}
			if r.Intn(3) == 0 {
				w.co[c].off[tr]()
				w.co[c].off[tr] = nil
				return M{"k": "op", "o": "unobs", "c": c, "tr": tr}
			}
		}
	case 12:
		if c := w.pickCo(r, func(o *colObs) bool { return o.kind == "col" }); c > 0 {
			if s := w.pick(r, r.Intn(4) > 0); s > 0 {
				w.co[c].col.ForceStart(w.spans[s].s)
				return M{"k": "op", "o": "force", "c": c, "s": s}
			}
		}
	case 13:
		if c := w.pickCo(r, func(o *colObs) bool { return o.kind == "col" }); c > 0 && r.Intn(3) == 0 {
			w.co[c].col.Stop()
			return M{"k": "op", "o": "stop", "c": c}
		}
	case 14:
		if c := w.pickCo(r, func(o *colObs) bool { return o.cancel != nil }); c > 0 && r.Intn(3) == 0 {
			w.co[c].cancel()
			return M{"k": "op", "o": "cancel", "c": c}
		}
	case 15:
		if c := w.pickCo(r, func(o *colObs) bool { return o.unall != nil }); c > 0 && r.Intn(4) == 0 {
			w.co[c].unall()
			w.co[c].unall = nil
			return M{"k": "op", "o": "unall", "c": c}
		}
	case 16:
		if p := w.pick(r, r.Intn(4) > 0); p > 0 && len(w.co) < w.cos {
			return w.work(p)
		}
	case 17:
		if c := w.pickCo(r, func(o *colObs) bool { return o.kind == "col" }); c > 0 {
			return w.read(c)
		}
	case 18:
		time.Sleep(time.Duration(1+r.Intn(50)) * w.unit)
	case 19:
		if c := w.pickCo(r, func(o *colObs) bool { return o.kind == "rec" }); c > 0 {
			return M{"k": "op", "o": "notes", "c": c, "notes": append([]any{}, w.co[c].rec.notes...)}
		}
		if r.Intn(8) == 0 {
			ran := false
			sp := collect.CollectSpans(context.Background(), func(ctx context.Context) {
				ran = monkit.SpanFromCtx(ctx) == nil
				var e func(*error)
				_ = e
			})
			return M{"k": "op", "o": "plainwork", "ran": ran, "spans": w.fins(sp)}
		}
	}
	return nil
}

func (w *colWorld) run(r *rand.Rand) (evs []M) {
	evs = []M{{"k": "h"}}
	do := func(f func() M) bool {
		var ev M
		if msg := try(func() { ev = f() }); msg != "" {
			evs = append(evs, M{"k": "x", "why": msg})
			return false
		}
		if ev == nil {
			return true
		}
		ev["rets"] = w.returned()
		evs = append(evs, ev)
		return true
	}
	reads := func() {
		for c, o := range w.co {
			if o != nil && o.kind == "col" {
				do(func() M { return w.read(c) })
			}
			if o != nil && o.kind == "rec" {
				do(func() M { return M{"k": "op", "o": "notes", "c": c, "notes": append([]any{}, o.rec.notes...)} })
			}
		}
	}
	w.unit = []time.Duration{time.Millisecond, time.Nanosecond, time.Microsecond, time.Hour}[r.Intn(4)]
	n, mostly := 15+r.Intn(45), 0
	if r.Intn(60) == 0 {
		// a larger one
		n, w.cos, mostly = 100+r.Intn(120), 20, 1+r.Intn(3)
		if r.Intn(2) == 0 {
			// and a large collection
			do(func() M { return w.start(1, 0, "task", 0, 0) })
			c := len(w.co)
			do(func() M {
				w.co = append(w.co, &colObs{kind: "col", off: map[int]func(){}, col: collect.NewSpanCollector(nil)})
				return M{"k": "op", "o": "new", "c": c, "all": false, "match": []any{}, "kind": "col"}
			})
			do(func() M {
				w.co[c].off[1] = w.trs[1].ObserveSpans(w.co[c].col)
				return M{"k": "op", "o": "obs", "c": c, "tr": 1}
			})
			do(func() M { w.co[c].col.ForceStart(w.spans[1].s); return M{"k": "op", "o": "force", "c": c, "s": 1} })
			deep, all := r.Intn(2) == 0, 20+r.Intn(20)
			for i := 1; i <= all; i++ {
				p := 1
				if deep {
					p = i
				}
				if !do(func() M { return w.start(1+r.Intn(3), p, "task", 0, 0) }) {
					return evs
				}
			}
			for i := all + 1; i > 0; i-- {
				if !do(func() M { return w.end(i, []string{"ok", "err", "panic"}[r.Intn(3)], 1+r.Intn(4)) }) {
					return evs
				}
			}
		}
	}
	for all := n; n > 0; n-- {
		if mostly > 0 && n > all/3 && r.Intn(3) > 0 {
			// first many spans: below any, below the last, below one
			p := []int{w.pick(r, true), len(w.spans) - 1, 1}[mostly-1]
			if p > 0 && p < len(w.spans) {
				if !do(func() M { return w.start(1+r.Intn(3), p, "task", 0, 0) }) {
					return evs
				}
				continue
			}
		}
		if !do(func() M { return w.step(r) }) {
			return evs
		}
	}
	reads()
	order := r.Perm(len(w.spans))
	for _, s := range order {
		if s > 0 && w.spans[s].live && w.spans[s].work != nil {
			do(func() M { return w.worked(s, "ok") })
		} else if s > 0 && w.spans[s].live && r.Intn(4) > 0 {
			do(func() M { return w.end(s, "ok", 0) })
		}
	}
	reads()
	for c, o := range w.co {
		if o != nil && o.cancel != nil {
			do(func() M { o.cancel(); return M{"k": "op", "o": "cancel", "c": c} })
		}
	}
	// Whatever ended must not be reachable any more from the registry and its traces.
	do(func() M {
		held := []any{}
		for i := 0; i < 3; i++ {
			runtime.GC()
			held = held[:0]
			for c, fs := range w.weak {
				if !w.co[c].over {
					continue
				}
				for _, f := range fs {
					if f() {
						held = append(held, c)
					}
				}
			}
			if len(held) == 0 {
				break
			}
		}
		return M{"k": "op", "o": "left", "held": held}
	})
	for _, s := range w.spans {
		if s != nil && s.live {
			s.exit(nil)
		}
	}
	// Nor the spans of collected callbacks, however they ended, once nothing observes.
	if len(w.gone) > 0 {
		for _, o := range w.co {
			if o == nil {
				continue
			}
			for _, off := range o.off {
				if off != nil {
					off()
				}
			}
			if o.unall != nil {
				o.unall()
			}
		}
		synctest.Wait()
		gone := w.gone
		w.spans, w.co, w.weak, w.starting = nil, nil, nil, nil
		held := []any{}
		for i := 0; i < 3; i++ {
			runtime.GC()
			held = held[:0]
			for _, f := range gone {
				if c, there := f(); there {
					held = append(held, c)
				}
			}
			if len(held) == 0 {
				break
			}
		}
		evs = append(evs, M{"k": "op", "o": "left", "held": held, "rets": []any{}})
	}
	runtime.KeepAlive(w)
	return evs
}

// doGen runs one operation of a program generated from the specification; nil if it
// cannot be done here.
func (w *colWorld) doGen(op M, line int) M {
	s := func(k string) int { return num(op[k]) }
	switch op["o"] {
	case "start":
		if s("par") > 0 && s("par") >= len(w.spans) {
			return nil
		}
		if op["announced"] != true {
			return w.start(s("f"), s("par"), "task", 0, 0)
		}
		if s("par") == 0 {
			return w.start(s("f"), 0, []string{"task", "reset"}[line%2], 0, 0)
		}
		// said to be below a span of another trace, with or without that span around
		return w.start(s("f"), []int{0, s("par")}[line%2], "remote", 0, w.spans[s("par")].s.Id())
	case "end":
		if s("s") >= len(w.spans) || !w.spans[s("s")].live {
			return nil
		}
		return w.end(s("s"), []string{"ok", "err", "panic", "panicerr"}[(line+s("s"))%4], 1+line%4)
	case "new":
		o := &colObs{off: map[int]func(){}, kind: "col"}
		w.co = append(w.co, o)
		set := map[*monkit.Func]bool{}
		ids := []any{}
		for _, f := range op["match"].([]any) {
			set[w.fns[num(f)]] = true
			ids = append(ids, num(f))
		}
		o.col = collect.NewSpanCollector(func(s *monkit.Span) bool { return set[s.Func()] })
		if op["all"] == true {
			o.unall = collect.ObserveAllTraces(w.reg, o.col)
		}
		return M{"k": "op", "o": "new", "c": 1, "kind": "col", "all": op["all"], "match": ids}
	}
	o := w.co[1]
	switch op["o"] {
	case "stop":
		o.col.Stop()
	case "force":
		if s("s") >= len(w.spans) {
			return nil
		}
		o.col.ForceStart(w.spans[s("s")].s)
	case "unall":
		if o.unall == nil {
			return nil
		}
		o.unall()
		o.unall = nil
	case "obs":
		if o.unall != nil || s("tr") >= len(w.trs) || o.off[s("tr")] != nil {
			return nil
		}
		o.off[s("tr")] = w.trs[s("tr")].ObserveSpans(o.col)
	case "unobs":
		if o.off[s("tr")] == nil {
			return nil
		}
		o.off[s("tr")]()
		o.off[s("tr")] = nil
	default:
		panic(op["o"])
	}
	ev := M{"k": "op"}
	for k, v := range op {
		ev[k] = v
	}
	return ev
}

// genCollector drives one collector from several goroutines.
func genCollector(r *rand.Rand, h *Hist) *Prog {
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	type sp struct {
		s       *monkit.Span
		par, tr int
	}
	spans := []*sp{nil}
	add := func(par int, fresh bool) {
		ctx := context.Background()
		x := &sp{par: par}
		if fresh {
			f.ResetTrace(&ctx)
		} else if par > 0 {
			ctx = monkit.ResetContextSpan(ctx)
			f.RemoteTrace(&ctx, spans[par].s.Id(), spans[par].s.Trace())
		} else {
			f.RemoteTrace(&ctx, 77, spans[1].s.Trace())
		}
		x.s = monkit.SpanFromCtx(ctx)
		x.tr = 1
		if fresh && len(spans) > 1 {
			x.tr = 2
		}
		spans = append(spans, x)
	}
	add(0, true)
	add(1, false)
	add(2, false)
	add([]int{0, 1, 2, 3}[r.Intn(4)], false)
	if r.Intn(3) == 0 {
		add(0, true)
	} else {
		add(r.Intn(3), false)
	}
	// half of the programs are about which span the collection begins with
	storm := r.Intn(2) == 0
	match := map[*monkit.Span]bool{}
	for i := 1; i < len(spans); i++ {
		if i == 1 || r.Intn(6) == 0 || (storm && r.Intn(3) > 0) {
			match[spans[i].s] = true
		}
	}
	c := collect.NewSpanCollector(func(s *monkit.Span) bool { return match[s] })
	ops := 0
	fin := map[int]bool{}
	errs := []error{nil, worldErrs[1], worldErrs[2]}
	start := func(i int) Op {
		return Op{Subs: []M{{"o": "begin", "s": i, "tr": spans[i].tr, "match": match[spans[i].s]}}, Run: func() []any { c.Start(spans[i].s); return one(0) }}
	}
	force := func(i int) Op {
		return Op{Subs: []M{{"o": "begin", "s": i, "tr": spans[i].tr, "match": true}}, Run: func() []any { c.ForceStart(spans[i].s); return one(0) }}
	}
	finish := func(i int) Op {
		ops++
		x := spans[i]
		e, p := r.Intn(3), r.Intn(4) == 0
		at := time.Unix(int64(1000+i), 0)
		return Op{Ord: true, Subs: []M{{"o": "look", "op": ops, "tr": x.tr}, {"o": "add", "op": ops, "s": i, "par": x.par, "e": e, "p": p}, {"o": "fin", "op": ops}, {"o": "sig", "op": ops}},
			Run: func() []any { c.Finish(x.s, errs[e], p, at); return []any{[]any{0}, []any{0}, []any{0}, []any{0}} }}
	}
	read := func() Op {
		return Op{Got: true, Subs: []M{{"o": "spans?"}}, Run: func() []any {
			out := []any{}
			for _, f := range c.Spans() {
				no := 999
				for i, x := range spans {
					if x != nil && x.s == f.Span && f.Finish.Equal(time.Unix(int64(1000+i), 0)) {
						no = i
					}
				}
				out = append(out, M{"s": no, "e": errCode(f.Err), "p": f.Panicked})
			}
			return []any{out}
		}}
	}
	done := func() Op {
		return Op{Subs: []M{{"o": "done?"}}, Run: func() []any {
			select {
			case <-c.Done():
				return one(1)
			default:
				return one(0)
			}
		}}
	}
	stop := func() Op {
		ops++
		return Op{Ord: true, Subs: []M{{"o": "cstop", "op": ops}, {"o": "sig", "op": ops}}, Run: func() []any { c.Stop(); return []any{[]any{0}, []any{0}} }}
	}
	rnd := func() Op {
		k := r.Intn(10)
		if storm && k > 3 && r.Intn(2) == 0 {
			k = r.Intn(4)
		}
		switch k {
		case 0, 1:
			return start(1 + r.Intn(len(spans)-1))
		case 2:
			return force(1 + r.Intn(len(spans)-1))
		case 3:
			return stop()
		case 4:
			return done()
		case 5:
			return read()
		}
		for k := 0; k < 10; k++ {
			if i := 1 + r.Intn(len(spans)-1); !fin[i] {
				fin[i] = true
				return finish(i)
			}
		}
		return read()
	}
	p := &Prog{Head: M{"k": "h"}}
	if !storm && r.Intn(4) > 0 {
		p.Pre = append(p.Pre, start(1))
	}
	for i := 2 + r.Intn(2); i > 0; i-- {
		var l []Op
		for j := 1 + r.Intn(3); j > 0; j-- {
			l = append(l, rnd())
		}
		p.Threads = append(p.Threads, l)
	}
	p.Final = append(p.Final, done(), read(), done(), read())
	if storm {
		for i := len(spans) - 1; i > 0; i-- {
			if !fin[i] {
				p.Final = append(p.Final, finish(i))
			}
		}
		p.Final = append(p.Final, done(), read(), stop(), done(), read())
	}
	return p
}

// lateCtx is cancelled once it was waited for long enough.
type lateCtx struct {
	context.Context
	over func() bool
	ch   chan struct{}
}

func (c *lateCtx) Done() <-chan struct{} {
	for !c.over() {
		zz.Gosched()
	}
	return c.ch
}

func (c *lateCtx) Err() error { return context.Canceled }

// genFind has several goroutines search and watch for spans while others start
// and end spans that match, in one trace or several.
func genFind(r *rand.Rand, h *Hist) *Prog {
	reg := monkit.NewRegistry()
	fn := reg.ScopeNamed("s").FuncNamed("f")
	other := reg.ScopeNamed("s").FuncNamed("g")
	bg := context.Background()
	rctx := bg
	rexit := other.Task(&rctx)
	var n, asked, work int // work: operations of the others that are not over
	count := func(s *monkit.Span) bool { asked++; return s.Func() == fn }
	tally := func(o string, want int, f func() int) Op {
		return Op{Subs: []M{{"o": o, "want": want}}, Run: func() []any { return one(f()) }}
	}
	search := func() Op {
		n++
		lim := r.Intn(40)
		ctx := &lateCtx{Context: bg, ch: make(chan struct{})}
		close(ctx.ch)
		polls := 0
		ctx.over = func() bool { polls++; return work == 0 || polls > lim }
		if r.Intn(3) > 0 {
			return tally("find", 1, func() int { collect.FindSpan(ctx, reg, count); return 1 })
		}
		return tally("watch", 1, func() int {
			spans, err := collect.WatchForSpans(ctx, reg, count)
			if err != nil && (err != context.Canceled || spans != nil) {
				return 2
			}
			if err == nil && (len(spans) == 0 || spans[0].Span.Func() != fn) {
				return 3
			}
			return 1
		})
	}
	span := func() Op {
		work++
		under := rctx
		if r.Intn(2) == 0 {
			under = bg
		}
		f := fn
		if r.Intn(5) == 0 {
			f = other
		}
		return tally("span", 1, func() int {
			defer func() { work-- }()
			ctx := under
			f.Task(&ctx)(nil)
			return 1
		})
	}
	p := &Prog{Head: M{"k": "h"}}
	for i := 1 + r.Intn(2); i > 0; i-- {
		p.Threads = append(p.Threads, []Op{search()})
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		l := []Op{span()}
		if r.Intn(2) == 0 {
			l = append(l, span())
		}
		p.Threads = append(p.Threads, l)
	}
	// once over, none of them looks at anything any more
	p.Final = append(p.Final, tally("left", 0, func() int {
		asked = 0
		for _, under := range []context.Context{rctx, bg} {
			ctx := under
			fn.Task(&ctx)(nil)
		}
		rexit(nil)
		return asked
	}))
	return p
}

func init() {
	reg("find.conc", concDriver(genFind, 40, 3, 1500))
	// programs generated by TLC from the specification
	reg("collect.gen", func(d *Drv) {
		inBubble(d, func() {
			genLines(d, func(line int, prog []M) {
				w := newColWorld()
				evs := []M{{"k": "h"}}
				ok := true
				do := func(f func() M) {
					var ev M
					if !ok {
						return
					}
					if msg := try(func() { ev = f() }); msg != "" {
						evs = append(evs, M{"k": "x", "why": msg})
						ok = false
					} else if ev != nil {
						ev["rets"] = []any{}
						evs = append(evs, ev)
					}
				}
				for _, op := range prog {
					do(func() M { return w.doGen(op, line) })
					if len(w.co) > 1 {
						do(func() M { return w.read(1) })
					}
					time.Sleep(w.unit)
				}
				for _, s := range w.spans {
					if s != nil && s.live {
						try(func() { s.exit(nil) })
					}
				}
				d.Emit(M{"line": line}, evs)
			})
		})
	})
	reg("collector.conc", concDriver(genCollector, 40, 3, 1500))
	reg("collect.seq", func(d *Drv) {
		inBubble(d, func() {
			for i := 0; i < d.N && !d.OverReal(); i++ {
				if i%d.Shards != d.Shard {
					continue
				}
				ps := d.Seed*1000000 + int64(i)
				r := rand.New(rand.NewSource(ps))
				d.Emit(M{"prog": ps}, newColWorld().run(r))
			}
		})
	})
}
