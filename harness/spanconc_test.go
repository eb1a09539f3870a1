package vh

import (
	"context"
	"math/rand"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	zz "github.com/spacemonkeygo/monkit/v3/zzvsched"
)

// cworld runs concurrent programs of span, observer and watcher operations and
// records calls, returns and notifications. Spans, traces, observers and ids are
// numbered in the order the harness meets them.
type cworld struct {
	h     *Hist
	reg   *monkit.Registry
	fns   []*monkit.Func
	spans []*cspan
	trs   []*monkit.Trace
	obs   []func()
	wats  []func()
	ids   map[int64]int
	cur   map[int]*copn // per goroutine
	nops  int
	pub   []int // traces that returned operations have shown
}

type cspan struct {
	s     *monkit.Span
	ctx   context.Context
	exit  func(*error)
	taken bool // somebody ends it or has ended it
	ready bool
	ret   context.Context
}

type copn struct {
	id    int
	sp    *cspan
	chain context.Context
}

func newCworld(h *Hist) *cworld {
	w := &cworld{h: h, reg: monkit.NewRegistry(), ids: map[int64]int{}, cur: map[int]*copn{}}
	sc := w.reg.ScopeNamed("s")
	w.fns = []*monkit.Func{nil, sc.FuncNamed("f1"), sc.FuncNamed("f2"), sc.FuncNamed("f3"), sc.FuncNamed("f4")}
	w.spans = []*cspan{nil}
	w.trs = []*monkit.Trace{nil}
	w.obs = []func(){nil}
	w.wats = []func(){nil}
	return w
}

func (w *cworld) idNo(id int64) int {
	if n, ok := w.ids[id]; ok {
		return n
	}
	w.ids[id] = len(w.ids) + 1
	return w.ids[id]
}

func (w *cworld) spanNo(s *monkit.Span) int {
	if s == nil {
		return 0
	}
	for i, x := range w.spans {
		if x != nil && x.s == s {
			return i
		}
	}
	return 999
}

func (w *cworld) traceNo(t *monkit.Trace) int {
	for i, x := range w.trs {
		if i > 0 && x == t {
			return i
		}
	}
	w.trs = append(w.trs, t)
	return len(w.trs) - 1
}

func (w *cworld) fnNo(f *monkit.Func) int {
	if f == nil {
		return 0
	}
	for i, x := range w.fns {
		if i > 0 && x == f {
			return i
		}
	}
	return 999
}

func (w *cworld) op(o string, params M, run func(c *copn) M) {
	w.nops++
	g := zz.Cur()
	c := &copn{id: w.nops}
	old := w.cur[g]
	w.cur[g] = c
	ev := M{"k": "c", "id": c.id, "o": o}
	for k, v := range params {
		ev[k] = v
	}
	w.h.Add(ev)
	var res M
	msg := try(func() { res = run(c) })
	w.cur[g] = old
	if msg != "" {
		w.h.Add(M{"k": "x", "why": o + ": " + msg})
		return
	}
	if t, ok := res["tr"].(int); ok {
		known := false
		for _, x := range w.pub {
			known = known || x == t
		}
		if !known {
			w.pub = append(w.pub, t)
		}
	}
	r := M{"k": "r", "id": c.id, "o": o}
	for k, v := range res {
		r[k] = v
	}
	w.h.Add(r)
}

type cobs struct {
	w       *cworld
	n, kind int
}

func (o *cobs) start(ctx context.Context, s *monkit.Span) context.Context {
	w := o.w
	c := w.cur[zz.Cur()]
	id, no, chain := 0, 999, true
	if c != nil && c.sp != nil {
		id = c.id
		if c.sp.s == nil {
			c.sp.s = s
		}
		no = w.spanNo(s)
		if o.kind != 0 {
			if c.chain != nil {
				chain = c.chain == ctx
			} else {
				chain = monkit.SpanFromCtx(ctx) == s
			}
		}
	}
	w.h.Add(M{"k": "n", "w": "S", "id": id, "n": o.n, "s": no, "chain": chain})
	if o.kind == 2 {
		ctx = context.WithValue(ctx, wkey(10+o.n), no)
	}
	if o.kind != 0 && c != nil && c.sp != nil {
		c.chain = ctx
		c.sp.ret = ctx
	}
	return ctx
}

func (o *cobs) finish(ctx context.Context, s *monkit.Span) {
	w := o.w
	c := w.cur[zz.Cur()]
	id := 0
	if c != nil {
		id = c.id
	}
	no := w.spanNo(s)
	chain := true
	if o.kind != 0 && no < 999 {
		chain = ctx == w.spans[no].ctx
	}
	w.h.Add(M{"k": "n", "w": "F", "id": id, "n": o.n, "s": no, "chain": chain})
}

type cobsPlain struct{ *cobs }

func (o cobsPlain) Start(s *monkit.Span) { o.start(nil, s) }
func (o cobsPlain) Finish(s *monkit.Span, err error, panicked bool, at time.Time) {
	o.finish(nil, s)
}

type cobsCtx struct{ *cobs }

func (o cobsCtx) Start(ctx context.Context, s *monkit.Span) context.Context { return o.start(ctx, s) }
func (o cobsCtx) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, at time.Time) {
	o.finish(ctx, s)
}

// start returns the number of the span.
func (w *cworld) start(f, p int, kind string, tr int) int {
	sp := &cspan{}
	w.spans = append(w.spans, sp)
	no := len(w.spans) - 1
	ctx := context.Background()
	if p > 0 {
		ctx = w.spans[p].ctx
	}
	w.op("start", M{"f": f, "p": p, "kind": kind, "tr": tr, "s": no}, func(c *copn) M {
		c.sp = sp
		fn := w.fns[f]
		switch kind {
		case "task":
			sp.exit = fn.Task(&ctx)
		case "reset":
			sp.exit = fn.ResetTrace(&ctx)
		case "remote":
			sp.exit = fn.RemoteTrace(&ctx, 77, w.trs[tr])
		}
		sp.ctx = ctx
		last := c.chain == nil || c.chain == ctx
		sp.s = monkit.SpanFromCtx(ctx)
		pid, ok := sp.s.ParentId()
		par := 0
		if ok {
			par = 999
			if pid == 77 && kind == "remote" {
				par = -1
			}
			for i, x := range w.spans {
				if x != nil && x.s != nil && x.s.Id() == pid {
					par = i
				}
			}
		}
		return M{"s": no, "tr": w.traceNo(sp.s.Trace()), "id2": w.idNo(sp.s.Id()), "tid": w.idNo(sp.s.Trace().Id()), "par": par,
			"f": w.fnNo(sp.s.Func()), "last": last}
	})
	sp.ready = sp.s != nil
	return no
}

func (w *cworld) end(s int, out int) {
	sp := w.spans[s]
	sp.taken = true
	w.op("end", M{"s": s}, func(c *copn) M {
		same, _ := finishWith(sp.exit, []string{"ok", "err", "panic"}[out], 1, 1)
		return M{"s": s, "same": same}
	})
}

func (w *cworld) list() {
	w.op("list", M{}, func(c *copn) M {
		roots, tree := []any{}, []any{}
		var walk func(s, parent *monkit.Span)
		walk = func(s, parent *monkit.Span) {
			tree = append(tree, []any{s, parent})
			if len(tree) > 500 {
				return
			}
			s.Children(func(c *monkit.Span) { walk(c, s) })
		}
		w.reg.RootSpans(func(s *monkit.Span) {
			roots = append(roots, s)
			walk(s, nil)
		})
		return M{"roots": roots, "tree": tree}
	})
}

func (w *cworld) all() {
	w.op("all", M{}, func(c *copn) M {
		all := []any{}
		w.reg.AllSpans(func(s *monkit.Span) { all = append(all, s) })
		return M{"all": all}
	})
}

func (w *cworld) orph(s int) {
	if !w.spans[s].ready {
		return
	}
	w.op("orph", M{"s": s}, func(c *copn) M { return M{"s": s, "v": w.spans[s].s.Orphaned()} })
}

func (w *cworld) count(t int) {
	w.op("count", M{"tr": t}, func(c *copn) M { return M{"tr": t, "v": w.trs[t].Spans()} })
}

func (w *cworld) observe(t, kind int) int {
	o := &cobs{w: w, n: len(w.obs), kind: kind}
	w.obs = append(w.obs, nil)
	w.op("obs", M{"n": o.n, "tr": t}, func(c *copn) M {
		if kind == 0 {
			w.obs[o.n] = w.trs[t].ObserveSpans(cobsPlain{o})
		} else {
			w.obs[o.n] = w.trs[t].ObserveSpansCtx(cobsCtx{o})
		}
		return M{"n": o.n}
	})
	return o.n
}

func (w *cworld) observeAll() int {
	o := &cobs{w: w, n: len(w.obs)}
	w.obs = append(w.obs, nil)
	w.op("obs", M{"n": o.n, "tr": 0}, func(c *copn) M {
		w.obs[o.n] = collect.ObserveAllTraces(w.reg, cobsPlain{o})
		return M{"n": o.n}
	})
	return o.n
}

func (w *cworld) unobserve(n int) {
	if w.obs[n] == nil {
		return
	}
	w.op("unobs", M{"n": n}, func(c *copn) M { w.obs[n](); return M{"n": n} })
}

func (w *cworld) watch() int {
	n := len(w.wats)
	w.wats = append(w.wats, nil)
	w.op("watch", M{"n": n}, func(c *copn) M {
		w.wats[n] = w.reg.ObserveTraces(func(t *monkit.Trace) {
			cc := w.cur[zz.Cur()]
			id := 0
			if cc != nil {
				id = cc.id
			}
			w.h.Add(M{"k": "n", "w": "W", "id": id, "n": n, "s": w.traceNo(t), "chain": true})
		})
		return M{"n": n}
	})
	return n
}

func (w *cworld) unwatch(n int) {
	if w.wats[n] == nil {
		return
	}
	w.op("unwatch", M{"n": n}, func(c *copn) M { w.wats[n](); return M{"n": n} })
}

func (w *cworld) parents(f int) {
	w.op("parents", M{"f": f}, func(c *copn) M {
		par := []any{}
		w.fns[f].Parents(func(x *monkit.Func) { par = append(par, w.fnNo(x)) })
		return M{"f": f, "par": par}
	})
}

// resolve replaces spans by their numbers, now that all have been met.
func (w *cworld) resolve(v any) any {
	switch v := v.(type) {
	case *monkit.Span:
		return w.spanNo(v)
	case []any:
		for i := range v {
			v[i] = w.resolve(v[i])
		}
	}
	return v
}

func (w *cworld) post() {
	for _, ev := range w.h.Ev {
		for _, k := range []string{"roots", "tree", "all"} {
			if v, ok := ev[k]; ok {
				ev[k] = w.resolve(v)
			}
		}
	}
}

// pickSpan picks a span that is started and (if live) not being ended by anyone.
func (w *cworld) pickSpan(k int, live bool) int {
	var c []int
	for i, s := range w.spans {
		if s != nil && s.ready && !(live && s.taken) {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return 0
	}
	return c[k%len(c)]
}

type cstep struct {
	o       string
	a, b, c int
}

// genCworld makes programs for one property; a step that finds nothing to work on
// is skipped.
func genCworld(prop string) Gen {
	type wt map[string]int
	focus := map[string]wt{
		"C03": {"child": 5, "root": 2, "end": 6, "list": 6, "all": 2, "count": 1},
		"C04": {"child": 6, "root": 1, "end": 7, "list": 3, "orph": 4},
		"C05": {"child": 5, "root": 3, "reset": 2, "remote": 2, "end": 2},
		"C07": {"child": 5, "obs": 5, "unobs": 6, "end": 5, "remote": 1},
		"C08": {"root": 4, "reset": 2, "remote": 2, "watch": 4, "unwatch": 5, "child": 1, "obs": 1, "end": 1},
		"C09": {"child": 4, "root": 4, "reset": 1, "remote": 1, "obsall": 4, "unobs": 3, "end": 5},
		"C19": {"child": 6, "root": 3, "reset": 1, "remote": 1, "parents": 4, "end": 1},
	}[prop]
	names := []string{"child", "root", "reset", "remote", "end", "list", "all", "count", "orph", "obs", "obsall", "unobs", "watch", "unwatch", "parents"}
	total := 0
	for _, n := range names {
		total += focus[n]
	}
	return func(r *rand.Rand, h *Hist) *Prog {
		w := newCworld(h)
		pickOp := func() string {
			x := r.Intn(total)
			for _, n := range names {
				x -= focus[n]
				if x < 0 {
					return n
				}
			}
			panic("")
		}
		nf := 4
		if prop == "C19" {
			nf = 3
		}
		var run func(s cstep)
		run = func(s cstep) {
			switch s.o {
			case "child":
				w.start(1+s.a%nf, w.pickSpan(s.b, s.c%3 > 0), "task", 0)
			case "root":
				w.start(1+s.a%nf, 0, "task", 0)
			case "reset":
				w.start(1+s.a%nf, w.pickSpan(s.b, true), "reset", 0)
			case "remote":
				if len(w.pub) > 0 {
					w.start(1+s.a%nf, w.pickSpan(s.b, true), "remote", w.pub[s.c%len(w.pub)])
				}
			case "end":
				if p := w.pickSpan(s.a, true); p > 0 {
					w.end(p, s.b%3)
				}
			case "list":
				w.list()
			case "all":
				w.all()
			case "count":
				if len(w.pub) > 0 {
					w.count(w.pub[s.a%len(w.pub)])
				}
			case "orph":
				if p := w.pickSpan(s.a, false); p > 0 {
					w.orph(p)
				}
			case "obs":
				if len(w.pub) > 0 {
					t := w.pub[0]
					if s.b%4 == 0 {
						t = w.pub[s.b%len(w.pub)]
					}
					w.observe(t, s.a%3)
				}
			case "obsall":
				w.observeAll()
			case "unobs":
				if len(w.obs) > 1 {
					w.unobserve(1 + s.a%(len(w.obs)-1))
				}
			case "watch":
				w.watch()
			case "unwatch":
				if len(w.wats) > 1 {
					w.unwatch(1 + s.a%(len(w.wats)-1))
				}
			case "parents":
				w.parents(1 + s.a%nf)
			}
		}
		step := func(o string) cstep { return cstep{o, r.Intn(1000), r.Intn(1000), r.Intn(1000)} }
		var pre []cstep
		switch prop {
		case "C03", "C04":
			pre = append(pre, step("root"))
			for i := r.Intn(3); i > 0; i-- {
				pre = append(pre, step("child"))
			}
		case "C05", "C19":
			for i := r.Intn(3); i > 0; i-- {
				pre = append(pre, step([]string{"root", "child"}[r.Intn(2)]))
			}
		case "C07":
			pre = append(pre, step("root"))
			for i := r.Intn(4); i > 0; i-- {
				pre = append(pre, step("obs"))
			}
			for i := r.Intn(2); i > 0; i-- {
				pre = append(pre, step("child"))
			}
		case "C09":
			for i := r.Intn(3); i > 0; i-- {
				pre = append(pre, step([]string{"root", "child", "obsall"}[r.Intn(3)]))
			}
		case "C08":
			for i := r.Intn(4); i > 0; i-- {
				pre = append(pre, step("watch"))
			}
			if r.Intn(2) == 0 {
				pre = append(pre, step("root"))
			}
		}
		var threads []func()
		for i := 2 + r.Intn(2); i > 0; i-- {
			var steps []cstep
			for j := 1 + r.Intn(3); j > 0; j-- {
				steps = append(steps, step(pickOp()))
			}
			threads = append(threads, func() {
				for _, s := range steps {
					run(s)
				}
			})
		}
		reads := func() {
			switch prop {
			case "C03":
				w.list()
				w.all()
				for t := 1; t < len(w.trs); t++ {
					w.count(t)
				}
			case "C04":
				for s := 1; s < len(w.spans); s++ {
					w.orph(s)
				}
				w.list()
			case "C19":
				for f := 1; f <= nf; f++ {
					w.parents(f)
				}
			}
		}
		after := step("child")
		endSeed := r.Int63()
		return &Prog{Head: M{"k": "h"}, Post: w.post,
			RawPre: func() {
				for _, s := range pre {
					run(s)
				}
			},
			RawThreads: threads,
			RawFinal: func() {
				reads()
				if prop == "C07" || prop == "C08" || prop == "C09" {
					// whatever happened, the lists must still work
					run(after)
					w.start(1, 0, "task", 0)
				}
				r := rand.New(rand.NewSource(endSeed))
				for _, s := range r.Perm(len(w.spans)) {
					if s > 0 && w.spans[s].ready && !w.spans[s].taken {
						w.end(s, r.Intn(3))
					}
				}
				reads()
			}}
	}
}

func init() {
	for _, p := range []string{"C03", "C04", "C05", "C07", "C08", "C09", "C19"} {
		reg("span.conc."+p, concDriver(genCworld(p), 40, 3, 1500))
	}
}
