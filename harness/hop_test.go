package vh

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"
)

func nibbles(v int64) []any {
	out := make([]any, 16)
	for i := range out {
		out[i] = int(uint64(v) >> (60 - 4*i) & 15)
	}
	return out
}

func nibblesP(p *int64) []any {
	if p == nil {
		return []any{}
	}
	return nibbles(*p)
}

func randID(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return []int64{0, 1, -1, math.MinInt64, math.MaxInt64, 15, 16, 255, 1 << 31, 1 << 32, -1 << 31, 0x10}[r.Intn(12)]
	case 1:
		return int64(r.Intn(1000))
	case 2:
		return -int64(r.Intn(1000))
	case 3:
		return int64(1) << r.Intn(64)
	default:
		return int64(r.Uint64())
	}
}

func infoRes(i mhttp.TraceInfo) M {
	bag := []any{}
	for k, v := range i.Baggage {
		bag = append(bag, []any{codes(k), codes(v)})
	}
	// ids come together
	return M{"has": i.TraceId != nil && i.ParentId != nil, "tid": nibblesP(i.TraceId), "pid": nibblesP(i.ParentId), "sampled": i.Sampled, "bag": bag}
}

var hopKeys = []string{"k1", "k2", "K1", "k", "", "k1 ", "k3", "k4", "k5", "k6", "k-1", "k%31", "k1;k2", "k7", "k8", "k9", "k1", "k2", "K1", "k", "", "k1 "}

func hopHeaders(r *rand.Rand) (tp, ts, bg string) {
	hex := func() string {
		s := strconv.FormatUint(uint64(randID(r)), 16)
		switch r.Intn(8) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = strings.Repeat("0", r.Intn(20)) + s
		case 2:
			s = "" // not a number
		case 3:
			s = s + "fffffffff"
		case 4:
			s = []string{"g", "-1", "+1", "0x1", " 1", "1 ", "1_0", "é", ".", "1.0", "ffffffffffffffff", "10000000000000000", "00000000000000001"}[r.Intn(13)]
		}
		return s
	}
	version := []string{"00", "00", "00", "00", "0", "01", "ff", "", "000", "xx"}[r.Intn(10)]
	flags := []string{"01", "00", "1", "0", "3", "ff", "fe", "100", "101", "", "x", "02"}[r.Intn(12)]
	if r.Intn(2) == 0 {
		version, flags = "00", []string{"01", "00"}[r.Intn(2)]
	}
	parts := []string{version, hex(), hex(), flags}
	switch r.Intn(10) {
	case 0:
		parts = parts[:r.Intn(4)]
	case 1:
		parts = append(parts, "more")
	case 2:
		parts[r.Intn(4)] = ""
	}
	tp = strings.Join(parts, "-")
	if r.Intn(4) == 0 {
		tp = ""
	}
	ts = []string{"", "", "sampled=true", "sampled=true", "a=b,sampled=true", "sampled=false", "sampled", "sampled=true,x=y"}[r.Intn(8)]
	keys := hopKeys[r.Intn(len(hopKeys)-5):][:6]
	if r.Intn(2) == 0 {
		keys = hopKeys
	}
	n := r.Intn(4)
	if r.Intn(20) == 0 {
		n = r.Intn(25)
	}
	for ; n > 0; n-- {
		if bg != "" {
			bg += ","
		}
		bg += keys[r.Intn(len(keys))]
		if r.Intn(5) > 0 {
			bg += "=" + []string{"v", "w", "", "a=b", "é", "%41%2C", " v ", "v;p=1", "\"q\"", strings.Repeat("long", 20)}[r.Intn(10)]
		}
	}
	return
}

func hopAllowed(r *rand.Rand) (s []string, enc []any) {
	enc = []any{}
	for i, k := range []string{"k1", "k2", "k", "", "k3", "k4", "k5", "k%31", "k9", "k-1"} {
		if i < 4 && r.Intn(2) == 0 || i >= 4 && r.Intn(6) == 0 {
			s = append(s, k)
			enc = append(enc, codes(k))
		}
	}
	return
}

type hopCtxKey string

// hopObs adds to every context of a trace
type hopObs struct{}

func (hopObs) Start(ctx context.Context, s *monkit.Span) context.Context {
	return context.WithValue(ctx, hopCtxKey("obs"), s)
}
func (hopObs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
}

type hopRun struct {
	r     *rand.Rand
	ev    []M
	seen  []any
	reg   *monkit.Registry
	scope *monkit.Scope
	depth int
	taken []*monkit.Span
}

func (h *hopRun) add(m M) { m["k"] = "op"; h.ev = append(h.ev, m) }

// plainRW hides the Flusher.
type plainRW struct{ http.ResponseWriter }

// sent keeps the status code that was really given to the writer
type sentRW struct {
	*httptest.ResponseRecorder
	code int
}

func (s *sentRW) WriteHeader(c int) { s.code = c; s.ResponseRecorder.WriteHeader(c) }
func (s *sentRW) Write(p []byte) (int, error) {
	if s.code == 0 {
		s.code = 200
	}
	return s.ResponseRecorder.Write(p)
}

// hijackRW is both a Flusher and a Hijacker, as those of a server are.
type hijackRW struct{ *sentRW }

func (hijackRW) Hijack() (net.Conn, *bufio.ReadWriter, error) { return nil, nil, http.ErrNotSupported }

type hopServed struct {
	ev  M // fields of the event
	rec *httptest.ResponseRecorder
}

// serve runs a traced handler for a request whose headers are given; inner is called
// by the handler.
func (h *hopRun) serve(req *http.Request, inner func(ctx context.Context)) hopServed {
	r := h.r
	allowed, enc := hopAllowed(r)
	status := []int{200, 200, 201, 301, 404, 500, 503, 299, 418}[r.Intn(9)]
	how := r.Intn(5)
	flusher := r.Intn(2) == 0
	wantCB := r.Intn(2) == 0
	cb := 0
	mine := true
	cancelObs := h.reg.ObserveTraces(func(t *monkit.Trace) {
		if !mine {
			return // a later hop's
		}
		mine = false
		t.ObserveSpansCtx(hopObs{})
		if wantCB {
			t.Set(present.SampledCBKey, func(x *monkit.Trace) {
				if x == t {
					cb++
				} else {
					cb += 100
				}
			})
		}
	})
	defer cancelObs()
	rec := httptest.NewRecorder()
	sent := &sentRW{ResponseRecorder: rec}
	var w http.ResponseWriter = sent
	if !flusher {
		w = plainRW{sent}
	} else if r.Intn(2) == 0 {
		w = hijackRW{sent}
	}
	server := M{"runs": 0, "tid": []any{}, "pid": []any{}, "sid": []any{}, "sampled": false, "bag": []any{}, "ctx": false,
		"status": []any{}, "passed": 0, "uri": 0, "cb": 0, "told": []any{}}
	base, cancel := context.WithCancel(context.WithValue(req.Context(), hopCtxKey("base"), "b"))
	req = req.WithContext(base)
	runs, seen := 0, append([]any{}, h.seen...)
	body := []byte("hello")
	var span *monkit.Span
	handler := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		runs++
		ctx := q.Context()
		span = monkit.SpanFromCtx(ctx)
		tr := span.Trace()
		server["tid"], server["sid"] = nibbles(tr.Id()), nibbles(span.Id())
		if p, ok := span.ParentId(); ok {
			server["pid"] = nibbles(p)
		}
		s, _ := tr.Get(present.SampledKey).(bool)
		server["sampled"] = s
		obs, _ := ctx.Value(hopCtxKey("obs")).(*monkit.Span)
		_, isFlusher := w.(http.Flusher)
		ok := obs == span && ctx.Value(hopCtxKey("base")) == "b" && ctx.Err() == nil && isFlusher == flusher && q.Method == req.Method && q.URL == req.URL
		h.seen = append(h.seen, server["tid"])
		if inner != nil {
			inner(ctx)
		}
		w.Header().Set("X-Test", "1")
		switch how {
		case 0:
			if status != 200 {
				w.WriteHeader(status)
			}
		case 1:
			w.WriteHeader(status)
		case 2:
			if status != 200 {
				w.WriteHeader(status)
			}
			n, err := w.Write(body)
			ok = ok && n == len(body) && err == nil
		default:
			w.WriteHeader(status)
			w.Write(body[:2])
			if f, is := w.(http.Flusher); is {
				f.Flush()
			}
			w.Write(body[2:])
		}
		cancel()
		server["ctx"] = ok && ctx.Err() != nil
	})
	mhttp.TraceHandler(handler, h.scope, allowed...).ServeHTTP(w, req)
	cancel()
	server["runs"], server["cb"] = runs, cb
	server["passed"] = sent.code
	if sent.code == 0 {
		server["passed"] = 200
	}
	if rec.Header().Get("X-Test") != "1" || (how >= 2 && !bytes.Equal(rec.Body.Bytes(), body)) {
		server["passed"] = -1
	}
	if span != nil {
		bag, st, uri := []any{}, []any{}, 0
		for _, a := range span.Annotations() {
			switch a.Name {
			case "http.uri":
				if a.Value == req.RequestURI {
					uri++
				} else {
					uri = 100
				}
			case "http.responsecode":
				n, err := strconv.Atoi(a.Value)
				if err != nil {
					n = -1
				}
				st = append(st, n)
			default:
				bag = append(bag, []any{codes(a.Name), codes(a.Value)})
			}
		}
		server["bag"], server["status"], server["uri"] = bag, st, uri
	}
	ti, ci := rec.Header().Values("Trace-Id"), rec.Header().Values("Child-Id")
	if len(ti)+len(ci) > 0 {
		told := []any{}
		for _, x := range append(append([]string{}, ti...), ci...) {
			told = append(told, codes(x))
		}
		if len(told) != 2 {
			told = []any{[]any{}, []any{}}
		}
		server["told"] = told
	}
	hd := M{"tp": codes(req.Header.Get("traceparent")), "ts": codes(req.Header.Get("tracestate")), "bg": codes(req.Header.Get("baggage"))}
	return hopServed{ev: M{"server": server, "allowed": enc, "status": status, "cb": wantCB, "seen": seen, "h": hd}, rec: rec}
}

type clientFunc func(*http.Request) (*http.Response, error)

func (f clientFunc) Do(r *http.Request) (*http.Response, error) { return f(r) }

func clientOf(s *monkit.Span) M {
	sampled, _ := s.Trace().Get(present.SampledKey).(bool)
	c := M{"tid": nibbles(s.Trace().Id()), "sid": nibbles(s.Id()), "pid": []any{}, "sampled": sampled}
	if p, ok := s.ParentId(); ok {
		c["pid"] = nibbles(p)
	}
	return c
}

// hop makes a traced request that a traced handler answers.
func (h *hopRun) hop(ctx context.Context, chained bool) {
	h.depth++
	defer func() { h.depth-- }()
	r := h.r
	under := M{"tid": []any{}, "sampled": false}
	if chained {
		s := monkit.SpanFromCtx(ctx)
		x := clientOf(s)
		under = M{"tid": x["tid"], "sampled": x["sampled"]}
	}
	fail := r.Intn(8) == 0
	failure := errors.New("no connection")
	var served hopServed
	var client M
	var resp *http.Response
	var cspan *monkit.Span
	req := &http.Request{Method: []string{"GET", "POST"}[r.Intn(2)], URL: &url.URL{Scheme: "http", Host: "h", Path: "/x"}, Header: http.Header{}}
	wantURI := req.URL.String()
	if r.Intn(4) == 0 {
		req.Header.Set("baggage", "k1=v,k2=w")
	}
	got, err := mhttp.TraceRequest(ctx, h.scope, clientFunc(func(q *http.Request) (*http.Response, error) {
		// the span of the request is the running one of that name not seen before
		h.reg.AllSpans(func(s *monkit.Span) {
			if s.Func().ShortName() == req.Method && s.Func().Scope() == h.scope && !h.known(s) {
				cspan = s
			}
		})
		h.taken = append(h.taken, cspan)
		client = clientOf(cspan)
		if fail {
			return nil, failure
		}
		in := httptest.NewRequest(q.Method, q.URL.String(), nil)
		in.Header = q.Header.Clone()
		served = h.serve(in, func(c context.Context) {
			if h.depth < 4 && r.Intn(2) == 0 {
				h.hop(c, true)
			}
		})
		resp = &http.Response{StatusCode: served.ev["status"].(int), Body: io.NopCloser(strings.NewReader(""))}
		return resp, nil
	}), req)
	if client == nil {
		h.ev = append(h.ev, M{"k": "x", "why": "the client was not called"})
		return
	}
	ev := M{"o": "hop", "client": client, "chained": chained, "under": under, "failed": fail,
		"same": got == resp && (fail && err == failure || !fail && err == nil)}
	st, uri := []any{}, 0
	for _, a := range cspan.Annotations() {
		switch a.Name {
		case "http.uri":
			uri++
			if a.Value != wantURI {
				uri = 100
			}
		case "http.responsecode":
			n, _ := strconv.Atoi(a.Value)
			st = append(st, n)
		}
	}
	ev["cstatus"], ev["curi"] = st, uri
	if fail {
		served = hopServed{ev: M{"server": M{"runs": 0}, "status": 0, "seen": []any{}, "allowed": []any{}, "cb": false,
			"h": M{"tp": codes(req.Header.Get("traceparent")), "ts": codes(req.Header.Get("tracestate")), "bg": []any{}}}}
	}
	for k, v := range served.ev {
		ev[k] = v
	}
	h.add(ev)
}

func (h *hopRun) known(s *monkit.Span) bool {
	for _, x := range h.taken {
		if x == s {
			return true
		}
	}
	return false
}

func hopSeq(r *rand.Rand) []M {
	h := &hopRun{r: r, ev: []M{{"k": "h"}}, reg: monkit.NewRegistry()}
	h.scope = h.reg.ScopeNamed("web")
	msg := try(func() {
		for n := 3 + r.Intn(6); n > 0; n-- {
			switch r.Intn(6) {
			case 0, 1:
				tp, ts, bg := hopHeaders(r)
				al, enc := hopAllowed(r)
				hd := http.Header{}
				set := func(k, v string) {
					if v != "" {
						hd.Set(k, v)
					}
				}
				set("traceparent", tp)
				set("tracestate", ts)
				set("baggage", bg)
				res := mhttp.TraceInfoFromHeader(hd, al...)
				h.add(M{"o": "parse", "tp": codes(tp), "ts": codes(ts), "bg": codes(bg), "allowed": enc, "res": infoRes(res)})
			case 2:
				i := mhttp.TraceInfo{Sampled: r.Intn(2) == 0}
				a, b := randID(r), randID(r)
				if k := r.Intn(6); k < 4 {
					i.TraceId, i.ParentId = &a, &b
				} else if k == 4 {
					i.TraceId = &a
				} else if r.Intn(2) == 0 {
					i.ParentId = &b
				}
				bag := []any{}
				if r.Intn(2) == 0 {
					i.Baggage = map[string]string{}
					for _, k := range []string{"k1", "k2", "K1", "k", "k-1", "k3", "k4", "k5", "k9", "k%31"} {
						if r.Intn(3) == 0 {
							v := []string{"v", "w", "", "a=b", "k2=v", "\u00e9", " ", "%2C", "v;p=1", strings.Repeat("x", 100)}[r.Intn(10)]
							i.Baggage[k] = v
							bag = append(bag, []any{codes(k), codes(v)})
						}
					}
				}
				al, enc := hopAllowed(r)
				hd := http.Header{}
				i.SetHeader(hd)
				res := mhttp.TraceInfoFromHeader(hd, al...)
				h.add(M{"o": "rt", "info": M{"tid": nibblesP(i.TraceId), "pid": nibblesP(i.ParentId), "sampled": i.Sampled, "bag": bag}, "allowed": enc,
					"tp": codes(hd.Get("traceparent")), "ts": codes(hd.Get("tracestate")), "res": infoRes(res)})
			case 3:
				tp, ts, bg := hopHeaders(r)
				req := httptest.NewRequest("GET", "http://h/path?q=1", nil)
				for k, v := range map[string]string{"traceparent": tp, "tracestate": ts, "baggage": bg} {
					if v != "" {
						req.Header.Set(k, v)
					}
				}
				s := h.serve(req, func(c context.Context) {
					if r.Intn(2) == 0 {
						h.hop(c, true)
					}
				})
				s.ev["o"] = "serve"
				h.add(s.ev)
			default:
				// a client inside a task (or not), whose trace is sampled, not, or says something else
				ctx := context.Background()
				end := func(*error) {}
				switch r.Intn(4) {
				case 0:
				case 1:
					end = h.scope.FuncNamed("work").Task(&ctx)
				case 2:
					end = h.scope.FuncNamed("work").RemoteTrace(&ctx, randID(r), monkit.NewTrace(randID(r)))
				default:
					e1 := h.scope.FuncNamed("work").RemoteTrace(&ctx, randID(r), monkit.NewTrace(randID(r)))
					e2 := h.scope.FuncNamed("deeper").Task(&ctx)
					end = func(e *error) { e2(e); e1(e) }
				}
				if s := monkit.SpanFromCtx(ctx); s != nil {
					switch r.Intn(6) {
					case 0:
						s.Trace().Set(present.SampledKey, false)
					case 1:
						s.Trace().Set(present.SampledKey, "yes")
					case 2:
					default:
						s.Trace().Set(present.SampledKey, true)
					}
					h.seen = append(h.seen, nibbles(s.Trace().Id()))
					h.add(M{"o": "info", "client": clientOf(s), "res": infoRes(mhttp.TraceInfoFromSpan(s))})
				}
				h.hop(ctx, false)
				end(nil)
			}
		}
	})
	if msg != "" {
		h.ev = append(h.ev, M{"k": "x", "why": msg})
	}
	return h.ev
}

func init() {
	reg("hop.seq", func(d *Drv) {
		for i := 0; i < d.N && !d.Over(); i++ {
			d.Emit(M{}, hopSeq(d.R))
		}
	})
}
