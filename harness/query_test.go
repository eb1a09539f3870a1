package vh

import (
	"context"
	"errors"
	"fmt"
	"html"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"testing/synctest"
	"time"
	"weak"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// qWriter is the client's end of a query.
type qWriter struct {
	mu     sync.Mutex
	held   []byte // written, not flushed
	got    []byte
	broken string
	flush  bool // needs flushing
}

var errQueryPipe = errors.New("the pipe is broken")

func (w *qWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	switch w.broken {
	case "err":
		return 0, errQueryPipe
	case "panic":
		panic(errQueryPipe)
	case "panics":
		panic(errQueryPipe.Error())
	}
	if w.flush {
		w.held = append(w.held, p...)
	} else {
		w.got = append(w.got, p...)
	}
	return len(p), nil
}

func (w *qWriter) push() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.got, w.held = append(w.got, w.held...), nil
}

func (w *qWriter) text() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return string(w.got)
}

// qHTTP buffers like net/http's response does.
type qHTTP struct {
	*qWriter
	hdr    http.Header
	status int
}

func (w *qHTTP) Header() http.Header { return w.hdr }
func (w *qHTTP) WriteHeader(c int)   { w.status = c }
func (w *qHTTP) Flush()              { w.push() }
func (w *qHTTP) FlushError() error   { w.push(); return nil }

type query struct {
	no   int
	kind string
	mode string
	w    *qWriter
	over bool
	t0   int
	dead func() bool // for what is only reachable from the query
}

type queryRet struct {
	q    int
	err  error
	pan  any
	done bool
}

type queryWorld struct {
	*colWorld
	r       *rand.Rand
	names   []string
	fn      []*monkit.Func
	qs      []*query
	ret     chan queryRet
	sampled map[int]bool
	cbs     []any
	hasCB   map[*monkit.Trace]bool
	pan     string
	now     int
}

func newQueryWorld(r *rand.Rand) *queryWorld {
	w := &queryWorld{colWorld: newColWorld(), r: r, ret: make(chan queryRet, 64), hasCB: map[*monkit.Trace]bool{}, cbs: []any{}}
	w.reg = monkit.NewRegistry()
	w.names = []string{"", "f1", "f2", "f10", "g.f1", "F1"}
	w.fns = make([]*monkit.Func, len(w.names))
	w.qs = []*query{nil}
	return w
}

func (w *queryWorld) know(f int) {
	if w.fns[f] == nil {
		w.fns[f] = w.reg.ScopeNamed("s").FuncNamed(w.names[f])
	}
}

func hexID(v int64) string { return fmt.Sprintf("%x", uint64(v)) }

var queryIDs = []int64{1, 0x1f, -1, -0x8000000000000000, 0xff, 0x1ff, 0x10}

func (w *queryWorld) span() M {
	r := w.r
	f := 1 + r.Intn(len(w.names)-1)
	w.know(f)
	p := 0
	kind := "task"
	tr := 0
	pid := int64(77)
	switch r.Intn(6) {
	case 0, 1, 2:
		p = w.pick(r, r.Intn(6) > 0)
	case 3:
	case 4:
		kind = "reset"
		p = w.pick(r, true)
	case 5:
		kind = "remote"
		if len(w.trs) > 1 && r.Intn(2) == 0 {
			tr = 1 + r.Intn(len(w.trs)-1)
		} else {
			t := monkit.NewTrace(queryIDs[r.Intn(len(queryIDs))])
			if r.Intn(2) == 0 {
				w.hasCB[t] = true
				t.Set(present.SampledCBKey, func(x *monkit.Trace) { w.cbs = append(w.cbs, w.traceNo(x)) })
			}
			tr = w.traceNo(t)
		}
		if x := w.pick(r, false); x > 0 && r.Intn(2) == 0 {
			pid = w.spans[x].s.Id()
		}
	}
	ev := w.start(f, p, kind, tr, pid)
	t := w.trs[ev["tr"].(int)]
	ev["tid"] = hexID(t.Id())
	ev["dec"] = i64(t.Id())
	ev["cb"] = w.hasCB[t]
	return ev
}

func (w *queryWorld) newQuery() M {
	r := w.r
	regex := []string{"", "f1", "^s\\.f1$", "f1$", ".", "g", "F", "f[12]$", "nope", "(", "s.f2", "F1|f2"}[r.Intn(12)]
	presel := []string{"", "", "true", "false", "false", "0", "maybe"}[r.Intn(7)]
	tid := ""
	if r.Intn(2) == 0 {
		tid = []string{"1", "1f", "1F", "ffffffffffffffff", "8000000000000000", "ff", "00ff", "10", "zz", "-1"}[r.Intn(10)]
	}
	kind := []string{"json", "svg", "remote", "viz"}[r.Intn(4)]
	mode := []string{"from", "from", "http", "direct"}[r.Intn(4)]
	if mode == "direct" && (kind == "remote" || kind == "viz") {
		kind = "json"
	}
	viz := ""
	if kind == "viz" {
		viz = []string{"example.com/v", "http://example.com/x?a=b", "https://e.org?argv=0&z=%26", "e.org/p?q=%22%27%3Cb%3E", "http://[::1"}[r.Intn(5)]
	}
	q := url.Values{}
	for k, v := range map[string]string{"regex": regex, "preselect": presel, "trace_id": tid, "viz": viz} {
		if v != "" {
			q.Set(k, v)
		}
	}
	re, err := regexp.Compile(regex)
	hit := []any{}
	if err == nil {
		for f, n := range w.names {
			if f > 0 && re.MatchString("s."+n) {
				hit = append(hit, f)
			}
		}
	}
	path := "/trace/" + map[string]string{"json": "json", "svg": "svg", "remote": "remote", "viz": "remote"}[kind]
	qu := &query{no: len(w.qs), kind: kind, mode: mode, w: &qWriter{}, t0: w.now}
	w.qs = append(w.qs, qu)
	ev := M{"k": "op", "o": "query", "q": qu.no, "kind": kind, "mode": mode, "regex": regex, "reok": err == nil, "re": hit, "presel": presel, "tid": tid, "res": "ok",
		"viz": viz, "vizok": true, "vizbase": "", "vizq": []any{}}
	if viz != "" {
		v := viz
		if !strings.HasPrefix(v, "http:") && !strings.HasPrefix(v, "https:") {
			v = "http://" + v
		}
		if u, err := url.Parse(v); err != nil {
			ev["vizok"] = false
		} else {
			ev["vizbase"], ev["vizq"] = vizParts(u)
		}
	}
	run := func(f func() error) {
		ret := w.ret
		no := qu.no
		go func() {
			defer func() {
				if p := recover(); p == errQueryPipe || p == errQueryPipe.Error() {
					// the client's own panic
					ret <- queryRet{q: no, err: errQueryPipe}
				} else if p != nil {
					ret <- queryRet{q: no, pan: fmt.Sprintf("%v in %s", p, repoFrames())}
				}
			}()
			ret <- queryRet{q: no, err: f()}
		}()
	}
	switch mode {
	case "direct":
		tok := &colTok{set: map[*monkit.Func]bool{}}
		for _, f := range hit {
			w.know(f.(int))
			tok.set[w.fns[f.(int)]] = true
		}
		wp := weak.Make(tok)
		qu.dead = func() bool { return wp.Value() == nil }
		m := func(s *monkit.Span) bool { return tok.set[s.Func()] }
		reg, out := w.reg, io.Writer(qu.w)
		if kind == "svg" {
			run(func() error { return present.TraceQuerySVG(reg, out, m) })
		} else {
			run(func() error { return present.TraceQueryJSON(reg, out, m) })
		}
	case "http":
		req := httptest.NewRequest("GET", "/", nil)
		req.URL.Path, req.URL.RawQuery = path, q.Encode()
		qu.w.flush = true
		hw := &qHTTP{qWriter: qu.w, hdr: http.Header{}}
		reg := w.reg
		run(func() error { present.HTTP(reg).ServeHTTP(hw, req); hw.push(); return nil })
		synctest.Wait()
		if hw.status != 0 {
			ev["res"] = fmt.Sprint(hw.status)
			qu.over = true
			<-w.ret
		}
	default:
		f, _, err := present.FromRequest(w.reg, path, q)
		if err != nil {
			ev["res"] = "error"
			qu.over = true
			if strings.HasPrefix(err.Error(), "Bad Request") {
				ev["res"] = "400"
			}
		} else {
			out := io.Writer(qu.w)
			run(func() error { return f(out) })
		}
	}
	synctest.Wait()
	return ev
}

func vizParts(u *url.URL) (string, []any) {
	c := *u
	c.RawQuery = ""
	out := []any{}
	for k, vs := range u.Query() {
		for _, v := range vs {
			out = append(out, []any{k, v})
		}
	}
	return c.String(), out
}

const vizHead = "<!DOCTYPE html>\n"

// body splits what a client received.
func (qu *query) body() (nl int, rest string) {
	s := qu.w.text()
	if qu.kind == "viz" {
		s = strings.TrimPrefix(s, vizHead)
	}
	rest = strings.TrimLeft(s, "\n")
	return len(s) - len(rest), rest
}

var vizURL = regexp.MustCompile(`<meta http-equiv="refresh" content="0;url=([^"]*)"`)

func (w *queryWorld) answer(x queryRet) M {
	qu := w.qs[x.q]
	qu.over = true
	e := M{"q": x.q, "err": "", "wf": "", "spans": []any{}, "ids": []any{}, "tid": "", "vizbase": "", "vizq": []any{}, "empty": false}
	if x.pan != nil {
		w.pan = fmt.Sprint("query panicked: ", x.pan)
		return e
	}
	switch {
	case x.err != nil && strings.Contains(x.err.Error(), errQueryPipe.Error()) || x.err == io.ErrShortWrite:
		e["err"] = "write"
	case x.err != nil:
		e["err"] = x.err.Error()
	}
	nl, rest := qu.body()
	e["nl"] = nl
	e["empty"] = rest == ""
	if x.err != nil || rest == "" {
		return e
	}
	switch qu.kind {
	case "json":
		d := M{}
		var l []jspan
		e["wf"] = jsonDoc([]byte(rest), &l)
		_ = d
		out := []any{}
		for _, s := range l {
			no := 999
			for i, y := range w.spans {
				if y != nil && y.s != nil && i64(y.s.Id()) == string(s.Id) {
					no = i
				}
			}
			code := 0
			for i, err := range worldErrs {
				if err != nil && err.Error() == s.Err {
					code = i
				}
			}
			at := 999999
			if v, err := s.Finish.Int64(); err == nil {
				if d := v - w.base.UnixNano(); d%1e6 == 0 {
					at = int(d / 1e6)
				}
			}
			out = append(out, M{"s": no, "e": code, "p": s.Panicked, "at": at})
		}
		e["spans"] = out
	case "svg":
		d := M{}
		e["wf"] = svgParse([]byte(rest), d)
		out := []any{}
		if l, ok := d["list"].([]any); ok {
			for _, s := range l {
				no := 999
				for i, y := range w.spans {
					if y != nil && y.s != nil && i64(y.s.Id()) == s.(M)["id"] {
						no = i
					}
				}
				out = append(out, no)
			}
		}
		e["ids"] = out
	case "remote", "viz":
		if m := vizURL.FindStringSubmatch(rest); m != nil && qu.kind == "viz" {
			e["nl"] = nl - 1 // the page begins with a line break
			if u, err := url.Parse(html.UnescapeString(m[1])); err == nil {
				e["vizbase"], e["vizq"] = vizParts(u)
			} else {
				e["wf"] = "broken redirect"
			}
			if !strings.HasPrefix(qu.w.text(), vizHead) || !strings.HasSuffix(strings.TrimSpace(rest), "</html>") {
				e["wf"] = "not a page"
			}
			break
		}
		var v struct {
			T *int64 `json:"trace_id"`
		}
		if why := jsonDoc([]byte(rest), &v); why != "" || v.T == nil {
			e["wf"] = "no trace id " + why
		} else {
			e["tid"] = i64(*v.T)
		}
	}
	return e
}

func (w *queryWorld) after(ev M) M {
	synctest.Wait()
	rets := []any{}
	for more := true; more; {
		select {
		case x := <-w.ret:
			rets = append(rets, w.answer(x))
		default:
			more = false
		}
	}
	qs := []any{}
	for _, q := range w.qs {
		if q != nil && !q.over {
			nl, rest := q.body()
			qs = append(qs, M{"q": q.no, "nl": nl, "clean": rest == ""})
		}
	}
	sampled := []any{}
	for i, t := range w.trs {
		if t != nil && t.Get(present.SampledKey) == true {
			sampled = append(sampled, i)
		}
	}
	ev["rets"], ev["qs"], ev["sampled"], ev["cbs"] = rets, qs, sampled, append([]any{}, w.cbs...)
	return ev
}

func (w *queryWorld) tick(d int) M {
	time.Sleep(time.Duration(d) * time.Second)
	w.now += d
	return M{"k": "op", "o": "tick", "d": d}
}

func (w *queryWorld) breakQ(no int, how string) M {
	w.qs[no].w.mu.Lock()
	w.qs[no].w.broken = how
	w.qs[no].w.mu.Unlock()
	return M{"k": "op", "o": "break", "q": no}
}

func (w *queryWorld) waiting() (out []int) {
	for _, q := range w.qs {
		if q != nil && !q.over && q.w.broken == "" {
			out = append(out, q.no)
		}
	}
	return
}

func (w *queryWorld) stepQ() M {
	// now and then at the very moment of a keep-alive
	rush := 0
	broken := false
	for _, q := range w.qs {
		broken = broken || q != nil && !q.over && q.w.broken != ""
	}
	if l := w.waiting(); len(l) > 0 && w.r.Intn(6) == 0 && !broken {
		rush = 30 - (w.now-w.qs[l[w.r.Intn(len(l))]].t0)%30
		w.tick(rush)
	}
	ev := w.stepOnce(rush > 0)
	if ev == nil && rush > 0 {
		ev = M{"k": "op", "o": "nop"}
	}
	if ev != nil {
		ev["rush"] = rush
	}
	return ev
}

func (w *queryWorld) stepOnce(rush bool) M {
	r := w.r
	k := r.Intn(20)
	if rush {
		k = r.Intn(12)
	}
	switch {
	case k < 7:
		return w.span()
	case k < 12:
		if s := w.pick(r, true); s > 0 {
			return w.end(s, []string{"ok", "err", "panic", "panicerr"}[r.Intn(4)], 1+r.Intn(4))
		}
	case k < 15:
		if len(w.qs) < 6 {
			return w.newQuery()
		}
	case k < 18:
		return w.tick([]int{1, 7, 15, 29, 30, 31, 45, 90}[r.Intn(8)])
	case k < 19:
		f := 1 + r.Intn(len(w.names)-1)
		w.know(f)
		return M{"k": "op", "o": "fn", "f": f}
	default:
		if l := w.waiting(); len(l) > 0 {
			return w.breakQ(l[r.Intn(len(l))], []string{"err", "err", "panic", "panics"}[r.Intn(4)])
		}
	}
	return nil
}

func (w *queryWorld) runQ() (evs []M) {
	r := w.r
	g0 := runtime.NumGoroutine()
	evs = []M{{"k": "h"}}
	do := func(f func() M) bool {
		var ev M
		if msg := try(func() {
			if ev = f(); ev != nil {
				if ev["rush"] == nil {
					ev["rush"] = 0
				}
				ev = w.after(ev)
			}
		}); msg != "" || w.pan != "" {
			evs = append(evs, M{"k": "x", "why": msg + w.pan})
			return false
		}
		if ev != nil {
			evs = append(evs, ev)
		}
		return true
	}
	for n := 10 + r.Intn(30); n > 0; n-- {
		if !do(w.stepQ) {
			return
		}
	}
	if r.Intn(2) == 0 {
		for _, q := range w.waiting() {
			if !do(func() M { return w.breakQ(q, "err") }) {
				return
			}
		}
		if !do(func() M { return w.tick(31) }) {
			return
		}
	}
	for _, s := range r.Perm(len(w.spans)) {
		if s > 0 && w.spans[s].live && r.Intn(8) > 0 {
			if !do(func() M { return w.end(s, "ok", 0) }) {
				return
			}
		}
	}
	for _, q := range w.waiting() {
		if !do(func() M { return w.breakQ(q, "err") }) {
			return
		}
	}
	if !do(func() M { return w.tick(31) }) {
		return
	}
	// forget everything but the registry and what still runs
	busy := map[*monkit.Trace]bool{}
	for i, s := range w.spans {
		if s == nil {
			continue
		}
		if s.live {
			busy[s.s.Trace()] = true
			// a running span holds its ancestors, in whatever trace
			for ctx := s.ctx; ctx != nil; {
				p := monkit.SpanFromCtx(ctx)
				if p == nil {
					break
				}
				busy[p.Trace()] = true
				ctx = p.Context
			}
		} else {
			w.spans[i] = nil
		}
	}
	wk := map[int]weak.Pointer[monkit.Trace]{}
	for i, t := range w.trs {
		if t != nil && !busy[t] {
			wk[i] = weak.Make(t)
		}
	}
	busy = nil
	w.trs, w.hasCB = nil, nil
	qs := w.qs
	dead := []func() bool{}
	for _, q := range qs {
		if q != nil && q.dead != nil {
			dead = append(dead, q.dead)
		}
	}
	qs, w.qs = nil, nil
	held := []any{}
	gor := 0
	for i := 0; i < 4; i++ {
		synctest.Wait()
		runtime.GC()
		held = held[:0]
		for i, p := range wk {
			if p.Value() != nil {
				held = append(held, i)
			}
		}
		for _, f := range dead {
			if !f() {
				held = append(held, 0)
			}
		}
		if gor = runtime.NumGoroutine() - g0; gor <= 0 && len(held) == 0 {
			break
		}
	}
	evs = append(evs, M{"k": "op", "o": "left", "rush": 0, "held": held, "gor": max(gor, 0), "rets": []any{}, "qs": []any{}, "sampled": []any{}, "cbs": []any{}})
	for _, s := range w.spans {
		if s != nil && s.live {
			s.exit(nil)
		}
	}
	runtime.KeepAlive(w.reg)
	return evs
}

var _ = context.Background

// burst has many traces match a query at once.
func queryBurst(r *rand.Rand) []M {
	regy := monkit.NewRegistry()
	f := regy.ScopeNamed("s").FuncNamed("f")
	kind := []string{"json", "remote", "remote"}[r.Intn(3)]
	run, _, err := present.FromRequest(regy, "/trace/"+kind, url.Values{"regex": {"f"}})
	if err != nil {
		return []M{{"k": "h"}, {"k": "x", "why": err.Error()}}
	}
	ctx0 := context.Background()
	exit0 := regy.ScopeNamed("s").FuncNamed("g").Task(&ctx0)
	var buf qWriter
	done := make(chan error, 1)
	go func() { done <- run(&buf) }()
	var traces []*monkit.Trace
	var cbs sync.Map
	var ncb int64
	var mu sync.Mutex
	e := M{"k": "op", "o": "burst", "kind": kind, "ended": true, "err": "", "sampled": []any{}, "cbs": []any{}, "ncb": 0, "ans": []any{}, "n": 0}
	// until the query observes and has its answer
	for begin := time.Now(); ; {
		var wg sync.WaitGroup
		gate := make(chan bool)
		for k := 0; k < 6; k++ {
			t := monkit.NewTrace(int64(len(traces) + 1))
			traces = append(traces, t)
			t.Set(present.SampledCBKey, func(t *monkit.Trace) {
				cbs.Store(t.Id(), true)
				mu.Lock()
				ncb++
				mu.Unlock()
			})
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				ctx := context.Background()
				exit := f.RemoteTrace(&ctx, 7, t)
				inner := ctx
				ex2 := f.Task(&inner)
				runtime.Gosched()
				ex2(nil)
				exit(nil)
			}()
		}
		close(gate)
		wg.Wait()
		select {
		case err := <-done:
			if err != nil {
				e["err"] = err.Error()
			}
		case <-time.After(100 * time.Microsecond):
			if time.Since(begin) < time.Minute {
				continue
			}
			e["ended"] = false
		}
		break
	}
	exit0(nil)
	text := buf.text()
	ans := []any{}
	switch kind {
	case "json":
		var l []jspan
		if why := jsonDoc([]byte(text), &l); why != "" {
			e["err"] = why
		}
		e["n"] = len(l)
		for _, s := range l {
			ans = append(ans, string(s.Trace.Id))
		}
	default:
		var v struct {
			T int64 `json:"trace_id"`
		}
		if why := jsonDoc([]byte(text), &v); why != "" {
			e["err"] = why
		}
		ans = append(ans, i64(v.T))
	}
	e["ans"] = ans
	sampled, called := []any{}, []any{}
	for _, t := range traces {
		if t.Get(present.SampledKey) == true {
			sampled = append(sampled, i64(t.Id()))
		}
		if _, ok := cbs.Load(t.Id()); ok {
			called = append(called, i64(t.Id()))
		}
	}
	e["sampled"], e["cbs"], e["ncb"] = sampled, called, int(ncb)
	return []M{{"k": "h"}, e}
}

func init() {
	reg("query.burst", func(d *Drv) {
		for i := 0; i < d.N && !d.Over(); i++ {
			d.Emit(M{"driver": "query.burst"}, queryBurst(d.R))
		}
	})
	reg("query.seq", func(d *Drv) {
		inBubble(d, func() {
			for i := 0; i < d.N && !d.OverReal(); i++ {
				if i%d.Shards != d.Shard {
					continue
				}
				ps := d.Seed*1000000 + int64(i)
				d.Emit(M{"driver": "query.seq", "seed": ps}, newQueryWorld(rand.New(rand.NewSource(ps))).runQ())
			}
		})
	})
}
