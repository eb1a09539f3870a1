package vh

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"syscall"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
)

// errors of every kind the specification tells apart; fresh where identity may matter

type timeoutErr struct{ s string }

func (timeoutErr) Error() string   { return "timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return false }

type sliceErr []int

func (sliceErr) Error() string { return "slice" }

// selfErr names itself, or declines; it is otherwise of any kind
type selfErr struct {
	name  string
	claim bool
}

func (e selfErr) Error() string        { return "self" }
func (e selfErr) Name() (string, bool) { return e.name, e.claim }

type selfNetErr struct{ selfErr }

func (e selfNetErr) Timeout() bool   { return false }
func (e selfNetErr) Temporary() bool { return false }

// nilErr's method works on a nil pointer
type nilErr struct{ selfErr }

func (e *nilErr) Error() string        { return "nil" }
func (e *nilErr) Name() (string, bool) { return "nil pointer", true }

// almost named: other signatures do not count
type misErr struct{}

func (misErr) Error() string { return "mis" }
func (misErr) Name() string  { return "mis" }

type namedKind struct {
	kind  string
	err   error
	claim bool
	own   string
}

func errKinds(r *rand.Rand) []namedKind {
	own := []string{"own", "", "Own Error"}[r.Intn(3)]
	return []namedKind{
		{kind: "eof", err: io.EOF}, {kind: "ueof", err: io.ErrUnexpectedEOF}, {kind: "pipe", err: io.ErrClosedPipe},
		{kind: "noprog", err: io.ErrNoProgress}, {kind: "sbuf", err: io.ErrShortBuffer}, {kind: "swrite", err: io.ErrShortWrite},
		{kind: "cancel", err: context.Canceled}, {kind: "dead", err: context.DeadlineExceeded},
		{kind: "errno", err: syscall.ENOENT}, {kind: "errno0", err: syscall.Errno(0)},
		{kind: "unknet", err: net.UnknownNetworkError("x")}, {kind: "addr", err: &net.AddrError{}},
		{kind: "invaddr", err: net.InvalidAddrError("x")}, {kind: "op", err: &net.OpError{Op: "x", Err: io.EOF}},
		{kind: "parse", err: &net.ParseError{}}, {kind: "dns", err: &net.DNSError{}},
		{kind: "dnsconf", err: &net.DNSConfigError{Err: io.EOF}}, {kind: "net", err: timeoutErr{}}, {kind: "net", err: &timeoutErr{}},
		{kind: "plain", err: errors.New("plain")}, {kind: "plain", err: fmt.Errorf("wrapped: %w", io.EOF)},
		{kind: "plain", err: errors.New("EOF")}, {kind: "plain", err: sliceErr{1}}, {kind: "plain", err: misErr{}},
		{kind: "plain", err: os.NewSyscallError("x", syscall.ENOENT)},
		{kind: "plain", err: &os.PathError{Op: "x", Err: syscall.ENOENT}},
		{kind: "plain", err: selfErr{own, true}, claim: true, own: own}, {kind: "plain", err: selfErr{"no", false}},
		{kind: "net", err: selfNetErr{selfErr{own, true}}, claim: true, own: own}, {kind: "net", err: selfNetErr{selfErr{"no", false}}},
		{kind: "plain", err: (*nilErr)(nil), claim: true, own: "nil pointer"},
	}
}

// the handlers registered stay for good: those of earlier runs keep silent
var seqRun int

type seqHandler struct {
	claims map[int]bool
	js     M
	nest   int
	adds   *seqHandler
}

type errSeqWorld struct {
	run    int
	kinds  []namedKind
	asked  error
	fs, gs *monkit.FuncStats
	inside bool
	nested []any
	names  int
}

func same(a, b error) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b)
		}
	}()
	return a == b
}

func (w *errSeqWorld) newHandler(r *rand.Rand, depth int) *seqHandler {
	w.names++
	h := &seqHandler{claims: map[int]bool{}}
	claims := []any{}
	for i := range w.kinds {
		if r.Intn(6) == 0 {
			h.claims[i] = true
			claims = append(claims, i+1)
		}
	}
	name := fmt.Sprintf("h%d", w.names)
	if r.Intn(8) == 0 {
		name = ""
	}
	h.js = M{"claims": claims, "name": name, "nest": 0, "adds": []any{}}
	if r.Intn(4) == 0 {
		h.nest = 1 + r.Intn(len(w.kinds))
		h.js["nest"] = h.nest
	}
	if depth == 0 && r.Intn(8) == 0 {
		h.adds = w.newHandler(r, 1)
		h.js["adds"] = []any{h.adds.js}
	}
	return h
}

// diff returns the names whose counts grew.
func errDiff(fs *monkit.FuncStats, before map[string]int64) []any {
	out := []any{}
	for n, c := range fs.Errors() {
		for i := before[n]; i < c; i++ {
			out = append(out, n)
		}
	}
	return out
}

func (w *errSeqWorld) register(h *seqHandler) {
	monkit.AddErrorNameHandler(func(err error) (string, bool) {
		if w.run != seqRun {
			return "", false
		}
		x := -1
		for i, k := range w.kinds {
			if same(k.err, err) {
				x = i
				break
			}
		}
		if !w.inside {
			w.inside = true
			if h.nest > 0 {
				before := w.gs.Errors()
				e := w.kinds[h.nest-1].err
				w.gs.Observe()(&e)
				w.nested = append(w.nested, errDiff(w.gs, before)...)
			}
			if h.adds != nil {
				w.register(h.adds)
			}
			w.inside = false
		}
		return h.js["name"].(string), h.claims[x]
	})
}

func errNameSeq(d *Drv) {
	r := d.R
	seqRun++
	w := &errSeqWorld{run: seqRun, kinds: errKinds(r), fs: monkit.NewFuncStats(monkit.NewSeriesKey("f"))}
	w.gs = w.fs // a handler may use the very function that failed
	if r.Intn(2) == 0 {
		w.gs = monkit.NewFuncStats(monkit.NewSeriesKey("g"))
	}
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	if r.Intn(2) == 0 {
		w.fs = &f.FuncStats
		if r.Intn(2) == 0 {
			w.gs = w.fs
		}
	}
	evs := []M{{"k": "h"}}
	errs := []any{}
	for i, k := range w.kinds {
		errs = append(errs, M{"id": i + 1, "kind": k.kind, "claim": k.claim, "own": k.own})
	}
	evs = append(evs, M{"k": "op", "o": "errs", "errs": errs})
	done := make(chan bool)
	go func() {
		defer close(done)
		msg := try(func() {
			for j := 10 + r.Intn(30); j > 0; j-- {
				if r.Intn(6) == 0 && w.names < 8 {
					h := w.newHandler(r, 0)
					w.register(h)
					evs = append(evs, M{"k": "op", "o": "add", "h": h.js})
					continue
				}
				x := r.Intn(len(w.kinds))
				err := w.kinds[x].err
				w.nested = []any{}
				before := w.fs.Errors()
				gb := w.gs.Errors()
				_ = gb
				if w.fs == &f.FuncStats && r.Intn(2) == 0 {
					ctx := context.Background()
					f.Task(&ctx)(&err)
				} else {
					w.fs.Observe()(&err)
				}
				names := errDiff(w.fs, before)
				if w.gs == w.fs {
					for _, n := range w.nested {
						for i := range names {
							if names[i] == n {
								names = append(names[:i], names[i+1:]...)
								break
							}
						}
					}
				}
				evs = append(evs, M{"k": "op", "o": "fail", "x": x + 1, "names": names, "nested": w.nested})
			}
		})
		if msg != "" {
			evs = append(evs, M{"k": "x", "why": msg})
		}
	}()
	select {
	case <-done:
		d.Emit(M{}, evs)
	case <-time.After(30 * time.Second):
		d.Emit(M{}, []M{{"k": "h"}, {"k": "x", "why": "naming an error blocks for good"}})
		d.N = 0
	}
}

func init() {
	reg("errname.seq", func(d *Drv) {
		for i := 0; i < d.N && !d.Over(); i++ {
			if i%d.Shards == d.Shard {
				errNameSeq(d)
			}
		}
	})
}
