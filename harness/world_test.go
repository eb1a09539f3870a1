package vh

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
)

// inBubble runs f in virtual time; the process ends with it.
func inBubble(d *Drv, f func()) {
	synctest.Test(d.T, func(t *testing.T) {
		f()
		d.close()
		os.Exit(0)
	})
}

type namedErr struct{ s string }

func (e *namedErr) Error() string        { return e.s }
func (e *namedErr) Name() (string, bool) { return "Custom", true }

type numberedErr struct{ s string }

func (e *numberedErr) Error() string        { return "numbered" }
func (e *numberedErr) Name() (string, bool) { return e.s, true }

var (
	worldErrs  = []error{nil, io.EOF, context.Canceled, errors.New("plain"), &namedErr{"named"}}
	worldNames = []string{"", "EOF", "Canceled", "System Error", "Custom"}
)

// worldNE is how many kinds of errors the specification tells apart.
const worldNE = 20

// worldNK is how many keys of a trace's values it knows, and worldNil the value nil.
const worldNK, worldNil = 36, 100

func init() {
	for i := len(worldErrs); i <= worldNE; i++ {
		n := fmt.Sprintf("Custom %d", i)
		worldErrs = append(worldErrs, &numberedErr{n})
		worldNames = append(worldNames, n)
	}
}

func errCode(err error) int {
	for i, e := range worldErrs {
		if e == err {
			return i
		}
	}
	return 99
}

type wkey int

type wspan struct {
	s    *monkit.Span
	exit func(*error)
	ctx  context.Context // the task's context, nil if it got none
	ret  context.Context // returned by the last ctx observer on start
	f    int
	live bool
}

// world runs programs against a fresh registry, and reads back everything the
// specification talks about.
type world struct {
	reg   *monkit.Registry
	scope *monkit.Scope
	fns   []*monkit.Func // 1-based
	tasks []monkit.Task  // scope.Task() per function, or nil
	spans []*wspan
	trs   []*monkit.Trace
	ctxs  []context.Context
	cans  []context.CancelFunc
	obs   []func() // cancels
	wats  []func()
	sos   []*wso
	notes []M
	base  time.Time
	ids   map[int64]bool
	fids  map[int64]bool
	cur   *wspan // span being started
	chain context.Context
	held  []heldAnn
	heldT []heldVals
	args  map[int][]interface{}
	clean []context.CancelFunc
	nf    int           // functions
	ne    int           // kinds of errors in use
	maxSp int           // spans
	ctxBy int           // how contexts are chosen: 0 recent, 1 the last, 2 always the same
	unit  time.Duration // of time in the specification
}

type wso struct {
	f    int
	exit func(*error)
	live bool
}
type heldAnn struct {
	got  []monkit.Annotation
	want []monkit.Annotation
}
type heldVals struct {
	got  map[interface{}]interface{}
	want map[interface{}]interface{}
}

const worldFns = 5

// Functions 4 and 5 are found by caller name.
func worldCaller4(w *world, ctx *context.Context, args ...interface{}) func(*error) {
	return w.tasks[4](ctx, args...)
}
func worldCaller5(w *world, ctx *context.Context, args ...interface{}) func(*error) {
	return w.tasks[5](ctx, args...)
}

func newWorld() *world {
	w := &world{reg: monkit.NewRegistry(), ids: map[int64]bool{}, fids: map[int64]bool{}, args: map[int][]interface{}{}}
	w.scope = w.reg.ScopeNamed("scope.one")
	w.nf, w.ne, w.maxSp, w.unit = worldFns, 4, 15, time.Millisecond
	two := w.reg.ScopeNamed("scope.two")
	w.fns = []*monkit.Func{nil, w.scope.FuncNamed("alpha"), w.scope.FuncNamed("beta", monkit.NewSeriesTag("k", "v")), two.FuncNamed("alpha"),
		w.scope.FuncNamed("worldCaller4"), w.scope.FuncNamed("worldCaller5")}
	w.tasks = make([]monkit.Task, worldFns+1)
	w.tasks[1] = w.scope.TaskNamed("alpha")
	w.tasks[2] = w.scope.TaskNamed("beta", monkit.NewSeriesTag("k", "v"))
	w.tasks[3] = two.TaskNamed("alpha")
	w.tasks[4] = w.scope.Task()
	w.tasks[5] = w.scope.Task()
	w.ctxs = []context.Context{nil, context.Background()}
	w.spans = []*wspan{nil}
	w.trs = []*monkit.Trace{nil}
	w.cans = []context.CancelFunc{nil}
	w.obs = []func(){nil}
	w.wats = []func(){nil}
	w.sos = []*wso{nil}
	var ctx context.Context
	exit := monkit.NewRegistry().ScopeNamed("base").FuncNamed("base").Task(&ctx)
	w.base = monkit.SpanFromCtx(ctx).Start()
	exit(nil)
	return w
}

// grow makes the world larger than most.
func (w *world) grow(r *rand.Rand) {
	w.nf, w.ne, w.maxSp, w.ctxBy = worldFns+8+r.Intn(32), worldNE, 20+r.Intn(70), r.Intn(3)
	for len(w.fns) <= w.nf {
		n := fmt.Sprintf("fn%d", len(w.fns))
		w.fns = append(w.fns, w.scope.FuncNamed(n))
		w.tasks = append(w.tasks, w.scope.TaskNamed(n))
	}
}

// rush begins a large world with much of one thing at a time.
func (w *world) rush(r *rand.Rand, prop string) (ops []M) {
	add := func(op M) { ops = append(ops, op) }
	f := 0 // any
	if r.Intn(2) == 0 {
		f = 1 + r.Intn(w.nf)
	}
	start := func(c int) {
		f := f
		if f == 0 {
			f = 1 + r.Intn(w.nf)
		}
		add(M{"o": "start", "kind": "task", "f": f, "c": c, "tr": 0, "pid": 0, "nargs": 0})
	}
	many := 18 + r.Intn(44)
	what := r.Intn(5)
	switch {
	case prop == "C07" && r.Intn(2) == 0:
		what = 2
	case prop == "C01" && r.Intn(2) == 0:
		what = 3
	case prop == "C20" && r.Intn(2) == 0:
		what = 4
	}
	switch what {
	case 0: // deep: each start adds a context
		for i := 0; i < many; i++ {
			start(1 + i)
		}
	case 1: // wide
		start(1)
		for i := 0; i < many; i++ {
			start(2)
		}
		if r.Intn(2) == 0 {
			add(M{"o": "end", "s": 1, "out": "ok", "e": 1, "pk": 0})
		}
	case 2:
		add(M{"o": "newtrace"})
		for i := 0; i < many; i++ {
			add(M{"o": "obs", "tr": 1, "kind": r.Intn(4)})
		}
		add(M{"o": "start", "kind": "remote", "f": 1, "c": 1, "tr": 1, "pid": 3, "nargs": 0})
		add(M{"o": "end", "s": 1, "out": "ok", "e": 1, "pk": 0})
	case 3:
		f = 1 + r.Intn(w.nf)
		for i, e := range r.Perm(worldNE) {
			add(M{"o": "observe", "f": f})
			add(M{"o": "observed", "n": i + 1, "out": "err", "e": 1 + e, "pk": 0})
		}
	case 4:
		add(M{"o": "newtrace"})
		for _, k := range r.Perm(worldNK) {
			add(M{"o": "tset", "tr": 1, "key": 1 + k, "v": 1 + r.Intn(worldNil)})
		}
	}
	w.maxSp += many
	return ops
}

func (w *world) ms(d time.Duration) any {
	if d%w.unit != 0 {
		return 999999
	}
	return int64(d / w.unit)
}

func (w *world) secs(v float64) any { return w.ms(time.Duration(v*1e9 + 0.5*sign(v))) }

func sign(v float64) float64 {
	if v < 0 {
		return -1
	}
	return 1
}

func (w *world) spanNo(s *monkit.Span) int {
	if s == nil {
		return 0
	}
	for i, x := range w.spans {
		if x != nil && x.s == s {
			return i
		}
	}
	return 999
}
func (w *world) traceNo(t *monkit.Trace) int {
	for i, x := range w.trs {
		if i > 0 && x == t {
			return i
		}
	}
	return 0
}
func (w *world) fnNo(f *monkit.Func) int {
	for i, x := range w.fns {
		if i > 0 && x == f {
			return i
		}
	}
	return 999
}

func (w *world) wraps(ctx context.Context) []any {
	out := []any{}
	for o := range w.obs {
		if o > 0 && ctx.Value(wkey(10+o)) != nil {
			out = append(out, o)
		}
	}
	return out
}

type wobs struct {
	w       *world
	n, kind int
}

func (o *wobs) start(s *monkit.Span, ctx context.Context) context.Context {
	w := o.w
	if w.cur.s == nil {
		w.cur.s = s
	}
	n := M{"k": "S", "o": o.n, "s": w.spanNo(s), "kind": o.kind, "chain": true}
	if o.kind != 0 {
		if w.chain != nil {
			n["chain"] = w.chain == ctx
		} else {
			n["chain"] = monkit.SpanFromCtx(ctx) == s
		}
	}
	w.notes = append(w.notes, n)
	switch o.kind {
	case 2:
		ctx = context.WithValue(ctx, wkey(10+o.n), w.spanNo(s))
	case 3:
		ctx = monkit.ResetContextSpan(ctx)
	}
	if o.kind != 0 {
		w.chain = ctx
		w.cur.ret = ctx
	}
	return ctx
}

func (o *wobs) finish(ctx context.Context, s *monkit.Span, err error, panicked bool, at time.Time) {
	w := o.w
	no := w.spanNo(s)
	ok := true
	if o.kind != 0 && no < 999 {
		sp := w.spans[no]
		switch {
		case sp.ctx != nil:
			ok = ctx == sp.ctx
		case sp.ret != nil:
			ok = ctx == sp.ret
		}
	}
	w.notes = append(w.notes, M{"k": "F", "o": o.n, "s": no, "kind": o.kind, "chain": ok,
		"err": errCode(err), "pan": panicked, "at": w.ms(at.Sub(w.base))})
}

type wobsPlain struct{ *wobs }

func (o wobsPlain) Start(s *monkit.Span) { o.start(s, nil) }
func (o wobsPlain) Finish(s *monkit.Span, err error, panicked bool, at time.Time) {
	o.finish(nil, s, err, panicked, at)
}

type wobsCtx struct{ *wobs }

func (o wobsCtx) Start(ctx context.Context, s *monkit.Span) context.Context { return o.start(s, ctx) }
func (o wobsCtx) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, at time.Time) {
	o.finish(ctx, s, err, panicked, at)
}

func (w *world) observe(t *monkit.Trace, kind int) {
	o := &wobs{w: w, n: len(w.obs), kind: kind}
	w.obs = append(w.obs, nil)
	if kind == 0 {
		w.obs[o.n] = t.ObserveSpans(wobsPlain{o})
	} else {
		w.obs[o.n] = t.ObserveSpansCtx(wobsCtx{o})
	}
}

func num(v any) int {
	switch v := v.(type) {
	case int:
		return v
	case int64:
		return int(v)
	case float64:
		return int(v)
	}
	panic(fmt.Sprintf("not a number: %#v", v))
}

func isTrue(v any) bool { b, _ := v.(bool); return b }

// panicValues are the things a monitored function may panic with.
type pstruct struct{ a, b int }

func panicWith(k int) (raise func(), same func(any) bool) {
	switch k % 6 {
	case 0:
		e := errors.New("boom")
		return func() { panic(e) }, func(r any) bool { return r == any(e) }
	case 1:
		return func() { panic("boom") }, func(r any) bool { return r == any("boom") }
	case 2:
		p := &pstruct{1, 2}
		return func() { panic(p) }, func(r any) bool { return r == any(p) }
	case 5:
		// cannot be compared
		return func() { panic([]int{3}) }, func(r any) bool { x, ok := r.([]int); return ok && len(x) == 1 && x[0] == 3 }
	case 3:
		var m map[string]int
		return func() { m["x"] = 1 }, func(r any) bool {
			e, ok := r.(error)
			return ok && strings.Contains(e.Error(), "nil map")
		}
	default:
		return func() { panic(pstruct{3, 4}) }, func(r any) bool { return r == any(pstruct{3, 4}) }
	}
}

// finishWith ends a call the way out says; same: it came back as it should;
// errsame: the caller's error is as it was.
func finishWith(exit func(*error), out string, code, pk int) (same, errsame bool) {
	err := worldErrs[code]
	if out == "ok" {
		err = nil
	}
	was := err
	switch out {
	case "ok":
		if pk%3 == 2 {
			same = try(func() { exit(nil) }) == ""
			return same, true
		}
		same = try(func() { exit(&err) }) == ""
	case "err":
		same = try(func() { exit(&err) }) == ""
	default:
		raise, is := panicWith(pk)
		if out == "panicerr" && pk%4 == 1 {
			// with the very error that is also the call's
			raise, is = func() { panic(err) }, func(r any) bool { return r == any(was) }
		}
		func() {
			defer func() {
				r := recover()
				same = r != nil && is(r)
			}()
			ep := &err
			if out == "panic" {
				err, was = nil, nil
				if pk%2 == 0 {
					ep = nil
				}
			}
			defer exit(ep)
			raise()
		}()
	}
	return same, err == was
}

func (w *world) do(op M) {
	w.notes = []M{}
	op["k"] = "op"
	res := M{}
	switch op["o"] {
	case "start":
		w.start(op, res)
	case "end":
		sp := w.spans[num(op["s"])]
		sp.live = false
		same, es := finishWith(sp.exit, op["out"].(string), num(op["e"]), num(op["pk"]))
		res["same"], res["errsame"] = same, es
	case "unwind":
		var ss []int
		for _, x := range op["ss"].([]any) {
			ss = append(ss, num(x))
		}
		raise, is := panicWith(num(op["pk"]))
		errs := make([]error, len(ss))
		var nest func(i int)
		nest = func(i int) {
			if i < 0 {
				raise()
				return
			}
			sp := w.spans[ss[i]]
			sp.live = false
			defer sp.exit(&errs[i])
			nest(i - 1)
		}
		same := false
		func() {
			defer func() { r := recover(); same = r != nil && is(r) }()
			nest(len(ss) - 1)
		}()
		es := true
		for _, e := range errs {
			es = es && e == nil
		}
		res["same"], res["errsame"] = same, es
	case "adv":
		time.Sleep(time.Duration(num(op["d"])) * w.unit)
	case "newtrace":
		id := monkit.NewId()
		w.trs = append(w.trs, monkit.NewTrace(id))
		w.ids[id] = true
	case "val":
		w.ctxs = append(w.ctxs, context.WithValue(w.ctxs[num(op["c"])], wkey(num(op["key"])), num(op["v"])))
	case "withcancel":
		c, cancel := context.WithCancel(w.ctxs[num(op["c"])])
		w.ctxs = append(w.ctxs, c)
		w.cans = append(w.cans, cancel)
	case "deadline":
		c, cancel := context.WithDeadline(w.ctxs[num(op["c"])], worldDeadline(num(op["d"])))
		w.clean = append(w.clean, cancel)
		w.ctxs = append(w.ctxs, c)
	case "detach":
		w.ctxs = append(w.ctxs, monkit.ResetContextSpan(w.ctxs[num(op["c"])]))
	case "cancel":
		w.cans[num(op["n"])]()
	case "obs":
		w.observe(w.trs[num(op["tr"])], num(op["kind"]))
	case "unobs":
		w.obs[num(op["n"])]()
	case "watch":
		n := len(w.wats)
		w.wats = append(w.wats, nil)
		auto := isTrue(op["auto"])
		w.wats[n] = w.reg.ObserveTraces(func(t *monkit.Trace) {
			no := w.traceNo(t)
			if no == 0 { // a new one, not seen otherwise yet
				w.trs = append(w.trs, t)
				no = len(w.trs) - 1
			}
			w.notes = append(w.notes, M{"k": "W", "o": n, "s": no})
			if auto {
				w.observe(t, 0)
			}
		})
	case "unwatch":
		w.wats[num(op["n"])]()
	case "observe":
		f := num(op["f"])
		w.sos = append(w.sos, &wso{f: f, exit: w.fns[f].Observe(), live: true})
	case "observed":
		so := w.sos[num(op["n"])]
		so.live = false
		same, es := finishWith(so.exit, op["out"].(string), num(op["e"]), num(op["pk"]))
		res["same"], res["errsame"] = same, es
	case "freset":
		w.fns[num(op["f"])].Reset()
	case "ann":
		w.spans[num(op["s"])].s.Annotate(fmt.Sprint(num(op["key"])), fmt.Sprint(num(op["v"])))
	case "tset":
		var v interface{} = num(op["v"])
		if v == worldNil {
			v = nil
		}
		w.trs[num(op["tr"])].Set(wkey(num(op["key"])), v)
	case "list":
		w.list(res)
	case "fstats":
		w.fstats(w.fns[num(op["f"])], res)
	case "parents":
		par := []any{}
		w.fns[num(op["f"])].Parents(func(f *monkit.Func) {
			if f == nil {
				par = append(par, 0)
			} else {
				par = append(par, w.fnNo(f))
			}
		})
		res["par"] = par
	case "anns":
		w.anns(w.spans[num(op["s"])].s, res)
	case "tget":
		w.tget(w.trs[num(op["tr"])], res)
	case "probe":
		w.probe(w.ctxs[num(op["c"])], res)
	default:
		panic(fmt.Sprintf("unknown operation %v", op))
	}
	op["res"] = res
	op["notes"] = w.notes
}

func worldDeadline(d int) time.Time {
	return time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(d) * time.Hour)
}

func (w *world) start(op, res M) {
	c, f := num(op["c"]), num(op["f"])
	fn := w.fns[f]
	var ctx context.Context
	var pc *context.Context
	switch {
	case c > 0:
		ctx = w.ctxs[c]
		pc = &ctx
	case c < 0:
		pc = &ctx
	}
	var before map[int64]bool
	if c == 0 {
		before = map[int64]bool{}
		w.reg.RootSpans(func(s *monkit.Span) { before[s.Id()] = true })
	}
	sp := &wspan{f: f, live: true}
	w.spans = append(w.spans, sp)
	w.cur, w.chain = sp, nil
	var args []interface{}
	for i := 0; i < num(op["nargs"]); i++ {
		args = append(args, i)
	}
	switch op["kind"] {
	case "task":
		sp.exit = fn.Task(pc, args...)
	case "named":
		switch f {
		case 4:
			sp.exit = worldCaller4(w, pc, args...)
		case 5:
			sp.exit = worldCaller5(w, pc, args...)
		default:
			sp.exit = w.tasks[f](pc, args...)
		}
	case "reset":
		sp.exit = fn.ResetTrace(pc, args...)
	case "remote":
		pid := int64(num(op["pid"]))
		if pid >= 2000000 {
			pid = w.spans[pid-2000000].s.Id()
		}
		sp.exit = fn.RemoteTrace(pc, pid, w.trs[num(op["tr"])], args...)
	}
	res["last"] = true
	res["unp"] = true
	if c != 0 {
		sp.ctx = ctx
		if w.chain != nil {
			res["last"] = ctx == w.chain
		}
		if sp.s == nil {
			sp.s = monkit.SpanFromCtx(ctx)
		}
		w.ctxs = append(w.ctxs, ctx)
		res["cs"] = w.spanNo(monkit.SpanFromCtx(ctx))
	} else {
		w.ctxs = append(w.ctxs, context.Background())
		res["cs"] = 0
		res["unp"] = monkit.SpanFromCtx(context.Background()) == nil
		if sp.s == nil {
			w.reg.RootSpans(func(s *monkit.Span) {
				if !before[s.Id()] {
					sp.s = s
				}
			})
		}
	}
	if sp.s == nil {
		res["tr"], res["f"], res["uniq"], res["root"], res["par"] = 999, 999, false, false, []any{9, 9}
		return
	}
	s := sp.s
	res["f"] = w.fnNo(s.Func())
	uniq := !w.ids[s.Id()]
	w.ids[s.Id()] = true
	no := w.traceNo(s.Trace())
	if no == 0 || (no == len(w.trs)-1 && !w.ids[s.Trace().Id()]) {
		if no == 0 {
			w.trs = append(w.trs, s.Trace())
			no = len(w.trs) - 1
		}
		if w.ids[s.Trace().Id()] {
			uniq = false
		}
		w.ids[s.Trace().Id()] = true
	}
	res["tr"] = no
	res["uniq"] = uniq
	pid, ok := s.ParentId()
	switch {
	case !ok:
		res["par"] = []any{0, 0}
	case pid >= 0 && pid < 1000000 && pid == int64(num(op["pid"])):
		res["par"] = []any{2, pid}
	default:
		p := 999
		for i, x := range w.spans {
			if x != nil && x.s != nil && x.s.Id() == pid {
				p = i
			}
		}
		res["par"] = []any{1, p}
	}
	root := false
	w.reg.RootSpans(func(x *monkit.Span) { root = root || x == s })
	res["root"] = root
}

// sharedRoots lists a span of the default registry, through the function for it.
func sharedRoots() bool {
	f := monkit.ScopeNamed("roots").FuncNamed("f")
	look := func() (out []*monkit.Span) {
		monkit.RootSpans(func(s *monkit.Span) {
			if s.Func() == f {
				out = append(out, s)
			}
		})
		return out
	}
	known := 0
	monkit.Funcs(func(g *monkit.Func) {
		if g == f {
			known++
		}
	})
	ctx := context.Background()
	exit := f.Task(&ctx)
	in := look()
	exit(nil)
	return known == 1 && len(in) == 1 && in[0] == monkit.SpanFromCtx(ctx) && len(look()) == 0
}

func (w *world) list(res M) {
	tree, roots, all := []any{}, []any{}, []any{}
	var walk func(s *monkit.Span, parent int)
	walk = func(s *monkit.Span, parent int) {
		no := w.spanNo(s)
		tree = append(tree, []any{no, parent})
		if len(tree) > 500 {
			return
		}
		s.Children(func(c *monkit.Span) { walk(c, no) })
	}
	w.reg.RootSpans(func(s *monkit.Span) {
		roots = append(roots, w.spanNo(s))
		walk(s, 0)
	})
	w.reg.AllSpans(func(s *monkit.Span) { all = append(all, w.spanNo(s)) })
	if len(w.spans)%8 == 7 && !sharedRoots() {
		roots = append(roots, 998)
	}
	counts := []any{}
	for _, t := range w.trs[1:] {
		counts = append(counts, t.Spans())
	}
	orph := []any{}
	for _, sp := range w.spans[1:] {
		orph = append(orph, sp.s.Orphaned())
	}
	res["tree"], res["roots"], res["all"], res["counts"], res["orph"] = tree, roots, all, counts, orph
}

func (w *world) dist(d *monkit.DurationDist) []any {
	return []any{d.Count, w.ms(d.Sum), w.ms(d.Low), w.ms(d.High), w.ms(d.Recent)}
}

func (w *world) fstats(f *monkit.Func, res M) {
	res["cur"], res["hw"], res["succ"], res["pan"] = f.Current(), f.Highwater(), f.Success(), f.Panics()
	byName := func(get func(string) int64) []any {
		out := []any{}
		for _, n := range worldNames[1:] {
			out = append(out, get(n))
		}
		return out
	}
	errs := f.Errors()
	other := 0
	for n := range errs {
		known := false
		for _, k := range worldNames[1:] {
			known = known || k == n
		}
		if !known {
			other++
		}
	}
	res["errs"] = byName(func(n string) int64 { return errs[n] })
	res["st"], res["ft"] = w.dist(f.SuccessTimes()), w.dist(f.FailureTimes())
	r := map[string]int64{}
	rerr := map[string]int64{}
	times := map[string]map[string]float64{"success": {}, "failure": {}}
	f.Stats(func(key monkit.SeriesKey, field string, val float64) {
		if kind := key.Tags.Get("kind"); kind != "" && times[kind] != nil && strings.HasSuffix(key.Measurement, "_times") {
			if _, dup := times[kind][field]; dup {
				other++
			}
			times[kind][field] = val
			return
		}
		if n := key.Tags.Get("error_name"); n != "" {
			if _, dup := rerr[n]; dup || field != "count" {
				other++
			}
			rerr[n] = int64(val)
			return
		}
		if _, dup := r[field]; dup {
			other++
		}
		r[field] = int64(val)
	})
	for n := range rerr {
		if _, ok := errs[n]; !ok {
			other++
		}
	}
	// the same goes for these
	errs["EOF"] += 7
	f.SuccessTimes().Insert(time.Hour)
	f.FailureTimes().Insert(time.Hour)
	res["other"] = other
	res["r"] = []any{r["current"], r["successes"], r["errors"], r["panics"], r["failures"], r["total"]}
	res["rhw"] = r["highwater"]
	res["rerrs"] = byName(func(n string) int64 { return rerr[n] })
	res["rt"] = []any{int64(times["success"]["count"]), int64(times["failure"]["count"]), w.secs(times["success"]["sum"]), w.secs(times["failure"]["sum"])}
}

func (w *world) anns(s *monkit.Span, res M) {
	got := s.Annotations()
	out := []any{}
	for _, a := range got {
		var k, v int
		fmt.Sscan(a.Name, &k)
		fmt.Sscan(a.Value, &v)
		out = append(out, []any{k, v})
	}
	// what is handed out is the caller's: it may add to it and write to it
	got = append(got, monkit.Annotation{Name: "caller's", Value: "own"})
	w.held = append(w.held, heldAnn{got: got, want: append([]monkit.Annotation(nil), got...)})
	for i, again := 0, s.Annotations(); i < len(again); i++ {
		again[i].Value = "scribbled"
	}
	stable := true
	for _, h := range w.held {
		if len(h.got) != len(h.want) {
			stable = false
		}
		for i := range h.got {
			stable = stable && h.got[i] == h.want[i]
		}
	}
	res["ann"], res["stable"] = out, stable
}

func (w *world) tget(t *monkit.Trace, res M) {
	vals, all := []any{}, []any{}
	m := t.GetAll()
	for k := 1; k <= worldNK; k++ {
		get := func(v any) any {
			if v == nil {
				return 0
			}
			return v
		}
		vals = append(vals, get(t.Get(wkey(k))))
		v, has := m[wkey(k)]
		if has && v == nil {
			v = worldNil
		}
		all = append(all, get(v))
	}
	want := map[interface{}]interface{}{}
	for k, v := range m {
		want[k] = v
	}
	w.heldT = append(w.heldT, heldVals{got: m, want: want})
	stable := true
	for _, h := range w.heldT {
		stable = stable && len(h.got) == len(h.want)
		for k, v := range h.want {
			stable = stable && h.got[k] == v
		}
	}
	// writing to a snapshot must not show in the trace
	for k := range m {
		m[k] = 7777
		want[k] = 7777
	}
	res["vals"], res["all"], res["stable"] = vals, all, stable
}

func (w *world) probe(ctx context.Context, res M) {
	res["span"] = w.spanNo(monkit.SpanFromCtx(ctx))
	kv := []any{}
	for k := 1; k <= 3; k++ {
		v := ctx.Value(wkey(k))
		if v == nil {
			v = 0
		}
		kv = append(kv, v)
	}
	res["kv"] = kv
	res["wraps"] = w.wraps(ctx)
	e := 0
	closed := false
	select {
	case <-ctx.Done():
		closed = true
	default:
	}
	if ctx.Err() == context.Canceled && closed {
		e = 1
	} else if ctx.Err() != nil || closed {
		e = 9
	}
	res["err"] = e
	dl, ok := ctx.Deadline()
	res["dl"] = 0
	if ok {
		res["dl"] = int(dl.Sub(worldDeadline(0)) / time.Hour)
	}
}

func (w *world) cleanup() {
	for _, c := range w.clean {
		c()
	}
	for i := range w.cans {
		if i > 0 {
			w.cans[i]()
		}
	}
}

// ---------------------------------------------------------------- generation

// worldReads change nothing: only where they are asked for.
var worldReads = map[string]bool{"list": true, "fstats": true, "parents": true, "anns": true, "tget": true, "probe": true}

// worldFocus weighs operations per property. Whatever else may happen does happen
// every now and then.
var worldFocus = map[string]map[string]int{
	"C01": {"start": 10, "end": 10, "unwind": 1, "adv": 4, "observe": 3, "observed": 3, "freset": 1, "fstats": 8, "obs": 1},
	"C02": {"start": 10, "end": 8, "unwind": 1, "observe": 4, "observed": 3, "freset": 3, "fstats": 10},
	"C03": {"start": 10, "end": 8, "unwind": 1, "detach": 1, "val": 1, "list": 8, "obs": 1, "newtrace": 1},
	"C04": {"start": 10, "end": 8, "unwind": 1, "val": 1, "list": 10, "obs": 1},
	"C05": {"start": 12, "end": 4, "val": 2, "withcancel": 1, "deadline": 1, "detach": 3, "newtrace": 2, "obs": 2, "watch": 1, "unwind": 1},
	"C06": {"start": 8, "end": 8, "unwind": 2, "val": 3, "withcancel": 3, "deadline": 2, "detach": 2, "cancel": 2, "probe": 10, "obs": 3, "unobs": 1, "adv": 2, "observe": 2, "observed": 2},
	"C07": {"start": 10, "end": 9, "unwind": 1, "obs": 8, "unobs": 6, "newtrace": 2, "watch": 1, "unwatch": 1, "adv": 1, "val": 1},
	"C08": {"start": 12, "end": 4, "watch": 6, "unwatch": 5, "newtrace": 2, "detach": 2, "obs": 1},
	"C19": {"start": 12, "end": 5, "observe": 2, "observed": 1, "parents": 8, "freset": 1, "detach": 1},
	"C20": {"start": 3, "end": 3, "ann": 10, "anns": 8, "tset": 8, "tget": 8, "newtrace": 2, "unwind": 1},
}

func (w *world) gen(r *rand.Rand, weights map[string]int, names []string, total int) M {
	live := []int{}
	for i, s := range w.spans {
		if s != nil && s.live && s.exit != nil {
			live = append(live, i)
		}
	}
	x := r.Intn(total)
	o := ""
	for _, n := range names {
		x -= weights[n]
		if x < 0 {
			o = n
			break
		}
	}
	outs := []string{"ok", "ok", "err", "err", "panic", "panicerr"}
	f := 1 + r.Intn(w.nf)
	ctx := func() int {
		// prefer recent contexts, so that trees get deep
		n := len(w.ctxs) - 1
		switch {
		case w.ctxBy == 1 && r.Intn(10) > 0:
			return n
		case w.ctxBy == 2 && r.Intn(10) > 0 && n > 2:
			return 3
		}
		if r.Intn(3) > 0 {
			k := 4
			if k > n {
				k = n
			}
			return n - r.Intn(k)
		}
		return 1 + r.Intn(n)
	}
	switch o {
	case "start":
		if len(w.spans) >= w.maxSp {
			return nil
		}
		op := M{"o": o, "kind": []string{"task", "task", "named", "task", "named", "reset", "remote"}[r.Intn(7)], "f": f, "c": ctx(), "tr": 0, "pid": 0, "nargs": r.Intn(3)}
		switch r.Intn(12) {
		case 0:
			op["c"] = 0
		case 1:
			op["c"] = -1
		}
		if op["kind"] == "remote" {
			op["pid"] = 1 + r.Intn(1000)
			switch r.Intn(6) {
			case 0:
				op["pid"] = 0
			case 1, 2:
				// a span of this very process
				if n := len(w.spans); n > 1 {
					op["pid"] = 2000000 + 1 + r.Intn(n-1)
				}
			}
			if r.Intn(4) > 0 {
				op["tr"] = r.Intn(len(w.trs))
			}
		}
		return op
	case "end":
		if len(live) == 0 {
			return nil
		}
		return M{"o": o, "s": live[r.Intn(len(live))], "out": outs[r.Intn(len(outs))], "e": 1 + r.Intn(w.ne), "pk": r.Intn(30)}
	case "unwind":
		if len(live) < 2 {
			return nil
		}
		r.Shuffle(len(live), func(i, j int) { live[i], live[j] = live[j], live[i] })
		ss := []any{}
		for _, s := range live[:2+r.Intn(2)%(len(live)-1)] {
			ss = append(ss, s)
		}
		return M{"o": o, "ss": ss, "pk": r.Intn(30)}
	case "adv":
		return M{"o": o, "d": []int{1, 3, 10, 250, 1500}[r.Intn(5)]}
	case "newtrace", "list":
		return M{"o": o}
	case "val":
		return M{"o": o, "c": ctx(), "key": 1 + r.Intn(3), "v": 1 + r.Intn(9)}
	case "withcancel", "detach", "probe":
		return M{"o": o, "c": ctx()}
	case "deadline":
		return M{"o": o, "c": ctx(), "d": 1 + r.Intn(20)}
	case "cancel":
		if len(w.cans) < 2 {
			return nil
		}
		return M{"o": o, "n": 1 + r.Intn(len(w.cans)-1)}
	case "obs":
		if len(w.trs) < 2 {
			return nil
		}
		t := 1 + r.Intn(len(w.trs)-1)
		if r.Intn(2) == 0 {
			t = len(w.trs) - 1
		}
		return M{"o": o, "tr": t, "kind": []int{0, 0, 1, 2, 2, 3}[r.Intn(6)]}
	case "unobs":
		if len(w.obs) < 2 {
			return nil
		}
		return M{"o": o, "n": 1 + r.Intn(len(w.obs)-1)}
	case "watch":
		if len(w.wats) > w.maxSp*6/10 {
			return nil
		}
		return M{"o": o, "auto": len(w.wats) == 1 && r.Intn(3) == 0}
	case "unwatch":
		if len(w.wats) < 2 {
			return nil
		}
		return M{"o": o, "n": 1 + r.Intn(len(w.wats)-1)}
	case "observe", "freset", "fstats", "parents":
		return M{"o": o, "f": f}
	case "observed":
		var l []int
		for i, s := range w.sos {
			if s != nil && s.live {
				l = append(l, i)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return M{"o": o, "n": l[r.Intn(len(l))], "out": outs[r.Intn(len(outs))], "e": 1 + r.Intn(w.ne), "pk": r.Intn(30)}
	case "ann", "anns":
		if len(w.spans) < 2 {
			return nil
		}
		return M{"o": o, "s": 1 + r.Intn(len(w.spans)-1), "key": 1 + r.Intn(5), "v": 1 + r.Intn(99)}
	case "tset", "tget":
		if len(w.trs) < 2 {
			return nil
		}
		return M{"o": o, "tr": 1 + r.Intn(len(w.trs)-1), "key": 1 + r.Intn(worldNK)%(3+8*(w.ne-4)), "v": 1 + r.Intn(worldNil)}
	}
	panic(o)
}

// finalReads ends a program with every read the property needs.
func (w *world) finalReads(prop string) []M {
	var out []M
	switch prop {
	case "C01", "C02":
		for f := 1; f <= w.nf; f++ {
			out = append(out, M{"o": "fstats", "f": f})
		}
	case "C03", "C04":
		out = append(out, M{"o": "list"})
	case "C06":
		for c := 1; c < len(w.ctxs); c++ {
			out = append(out, M{"o": "probe", "c": c})
		}
	case "C19":
		for f := 1; f <= w.nf; f++ {
			out = append(out, M{"o": "parents", "f": f})
		}
	case "C20":
		for s := 1; s < len(w.spans); s++ {
			out = append(out, M{"o": "anns", "s": s})
		}
		for t := 1; t < len(w.trs); t++ {
			out = append(out, M{"o": "tget", "tr": t})
		}
	}
	return out
}

func (w *world) endAll(r *rand.Rand) []M {
	var live []int
	for i, s := range w.spans {
		if s != nil && s.live && s.exit != nil {
			live = append(live, i)
		}
	}
	r.Shuffle(len(live), func(i, j int) { live[i], live[j] = live[j], live[i] })
	var out []M
	for _, s := range live {
		out = append(out, M{"o": "end", "s": s, "out": []string{"ok", "err", "panic"}[r.Intn(3)], "e": 1 + r.Intn(w.ne), "pk": r.Intn(30)})
	}
	return out
}

// slim drops what the property's check does not look at.
func slim(prop string, ev M) M {
	keepNotes := prop == "C06" || prop == "C07" || prop == "C08"
	if !keepNotes {
		ev["notes"] = []M{}
	}
	if res, ok := ev["res"].(M); ok && ev["o"] == "start" && prop != "C05" && prop != "C07" {
		for k := range res {
			delete(res, k)
		}
	}
	return ev
}

func init() {
	reg("world", func(d *Drv) {
		prop := d.Opt
		weights := map[string]int{}
		for n, x := range worldFocus[prop] {
			weights[n] = x
		}
		total := 0
		var names []string
		for _, n := range []string{"start", "end", "unwind", "adv", "newtrace", "val", "withcancel", "deadline", "detach", "cancel", "obs", "unobs", "watch", "unwatch",
			"observe", "observed", "freset", "ann", "tset", "list", "fstats", "parents", "anns", "tget", "probe"} {
			if worldReads[n] && weights[n] == 0 {
				continue
			}
			{
				names = append(names, n)
				weights[n] = 4*weights[n] + 1
				total += weights[n]
			}
		}
		inBubble(d, func() {
			for i := 0; i < d.N && !d.OverReal(); i++ {
				if i%d.Shards != d.Shard {
					continue
				}
				ps := d.Seed*1000000 + int64(i)
				r := rand.New(rand.NewSource(ps))
				w := newWorld()
				w.unit = []time.Duration{time.Millisecond, time.Millisecond, time.Nanosecond, time.Microsecond, time.Second, time.Hour}[r.Intn(6)]
				n := 12 + r.Intn(30)
				var first []M
				if i%80 == 77 {
					w.grow(r)
					n = 60 + r.Intn(120)
					first = w.rush(r, prop)
				}
				evs := []M{{"k": "h", "nf": w.nf}}
				run := func(op M) bool {
					if op == nil {
						return true
					}
					if msg := try(func() { w.do(op) }); msg != "" {
						evs = append(evs, M{"k": "x", "why": fmt.Sprintf("%v: %s", op["o"], msg)})
						return false
					}
					evs = append(evs, slim(prop, op))
					return true
				}
				ok := true
				for _, op := range first {
					ok = ok && run(op)
				}
				n += len(first)
				for len(evs) < n && ok {
					ok = run(w.gen(r, weights, names, total))
				}
				for _, op := range w.finalReads(prop) {
					ok = ok && run(op)
				}
				if ok {
					for _, op := range w.endAll(r) {
						ok = ok && run(op)
					}
					for _, op := range w.finalReads(prop) {
						ok = ok && run(op)
					}
				}
				w.cleanup()
				d.Emit(M{"prog": ps}, evs)
			}
		})
	})
	// programs generated by TLC from the specification
	reg("world.gen", func(d *Drv) {
		prop := d.Opt
		inBubble(d, func() {
			genLines(d, func(line int, prog []M) {
				w := newWorld()
				evs := []M{{"k": "h", "nf": worldFns}}
				ok := true
				run := func(op M) {
					if !ok {
						return
					}
					if msg := try(func() { w.do(op) }); msg != "" {
						evs = append(evs, M{"k": "x", "why": fmt.Sprintf("%v: %s", op["o"], msg)})
						ok = false
						return
					}
					evs = append(evs, slim(prop, op))
				}
				// every other program is read after each operation, so that every
				// state on the way is seen; the others only at their end
				step := line%2 == 0
				reads := func() {
					for _, op := range w.finalReads(prop) {
						if f, has := op["f"]; has && num(f) > 3 {
							continue
						}
						run(op)
					}
				}
				for _, op := range prog {
					run(op)
					if step && ok {
						reads()
					}
				}
				if ok && !step {
					reads()
				}
				w.cleanup()
				d.Emit(M{"line": line}, evs)
			})
		})
	})
}

// genLines hands over the programs generated by TLC that are this shard's.
func genLines(d *Drv, do func(line int, prog []M)) {
	f, err := os.Open(*fIn)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<26)
	for line := 1; sc.Scan(); line++ {
		if (line-1)%d.Shards != d.Shard {
			continue
		}
		var prog []M
		if err := json.Unmarshal(sc.Bytes(), &prog); err != nil {
			panic(err)
		}
		do(line, prog)
	}
}
