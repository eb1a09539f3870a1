package vh

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strings"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	zz "github.com/spacemonkeygo/monkit/v3/zzvsched"
)

// ---------------------------------------------------------------- functions

// funcObj drives one monitored function.
type funcObj struct {
	fs    *monkit.FuncStats
	f     *monkit.Func
	calls []*fcall
	ops   int
}

type fcall struct {
	exit  func(*error)
	ready bool
	taken bool
}

var funcErrs = []error{nil, io.EOF, context.Canceled}

func (o *funcObj) start(how int) []Op {
	c := &fcall{}
	o.calls = append(o.calls, c)
	o.ops++
	return []Op{{Ord: true, Subs: []M{{"o": "inc", "op": o.ops}, {"o": "raise", "op": o.ops}}, Run: func() []any {
		ctx := context.Background()
		switch how % 4 {
		case 0:
			c.exit = o.fs.Observe()
		case 1:
			c.exit = o.f.Task(&ctx)
		case 2:
			c.exit = o.f.ResetTrace(&ctx)
		default:
			c.exit = o.f.RemoteTrace(&ctx, 5, nil)
		}
		c.ready = true
		return []any{[]any{0}, []any{0}}
	}}}
}

func (o *funcObj) end(pick, how int) []Op {
	var c *fcall
	for i := range o.calls {
		x := o.calls[(i+pick)%len(o.calls)]
		if x.ready && !x.taken {
			c = x
			break
		}
	}
	if c == nil {
		return nil
	}
	c.taken = true
	e := 1 + how%2
	var subs []M
	out := ""
	switch how % 5 {
	case 0, 1:
		subs, out = []M{{"o": "dec"}, {"o": "ok"}}, "ok"
	case 2, 3:
		subs, out = []M{{"o": "dec"}, {"o": "err", "e": e}}, "err"
	default:
		subs, out = []M{{"o": "dec"}, {"o": "pan"}}, "panic"
	}
	return []Op{{Subs: subs, Run: func() []any {
		same, _ := finishWith(c.exit, out, e, 1)
		var res []any
		for range subs {
			v := 0
			if !same {
				v = 999999
			}
			res = append(res, []any{v})
		}
		return res
	}}}
}

func (o *funcObj) reset() []Op {
	o.ops++
	// two independent parts; the second is empty work
	var do func()
	do = func() { o.fs.Reset() }
	return []Op{
		{Ord: true, Subs: []M{{"o": "hw0"}, {"o": "load", "op": o.ops}, {"o": "raise", "op": o.ops}}, Run: func() []any {
			do()
			return []any{[]any{0}, []any{0}, []any{0}}
		}},
		{Subs: []M{{"o": "clear"}}, Run: func() []any { return []any{[]any{0}} }},
	}
}

func one(v ...any) []any { return []any{[]any(v)} }

func (o *funcObj) errs(m map[string]int64) []any {
	if int64(len(m)) > 2 {
		return []any{999999, len(m)}
	}
	return []any{m["EOF"], m["Canceled"]}
}

func (o *funcObj) read(k int) []Op {
	fs := o.fs
	switch k % 9 {
	case 0:
		return []Op{{Subs: []M{{"o": "cur?"}}, Run: func() []any { return one(fs.Current()) }}}
	case 1, 2:
		return []Op{{Subs: []M{{"o": "hw?"}}, Run: func() []any { return one(fs.Highwater()) }}}
	case 3:
		return []Op{{Subs: []M{{"o": "succ?"}}, Run: func() []any { return one(fs.Success()) }}}
	case 4:
		return []Op{{Subs: []M{{"o": "err?"}}, Run: func() []any { return []any{o.errs(fs.Errors())} }}}
	case 5:
		return []Op{{Subs: []M{{"o": "pan?"}}, Run: func() []any { return one(fs.Panics()) }}}
	case 6:
		return []Op{{Subs: []M{{"o": "st?"}}, Run: func() []any { return one(fs.SuccessTimes().Count) }}}
	case 7:
		return []Op{{Subs: []M{{"o": "ft?"}}, Run: func() []any { return one(fs.FailureTimes().Count) }}}
	default:
		return []Op{{Subs: []M{{"o": "cur?"}, {"o": "hw?"}, {"o": "err?"}, {"o": "st?"}, {"o": "ft?"}, {"o": "snap?"}}, Run: func() []any {
			v := map[string]int64{}
			errs := map[string]int64{}
			st, ft := int64(-1), int64(-1)
			fs.Stats(func(key monkit.SeriesKey, field string, val float64) {
				switch {
				case key.Tags.Get("error_name") != "":
					errs[key.Tags.Get("error_name")] = int64(val)
				case key.Tags.Get("kind") == "success":
					if field == "count" {
						st = int64(val)
					}
				case key.Tags.Get("kind") == "failure":
					if field == "count" {
						ft = int64(val)
					}
				default:
					if _, ok := v[field]; ok {
						v[field] = -777
						return
					}
					v[field] = int64(val)
				}
			})
			return []any{[]any{v["current"]}, []any{v["highwater"]}, o.errs(errs), []any{st}, []any{ft},
				[]any{v["successes"], v["errors"], v["panics"], v["failures"], v["total"]}}
		}}}
	}
}

// multi performs several operations that are called and return together.
func (h *Hist) multi(th int, ops []Op) {
	if len(ops) == 0 {
		return
	}
	if len(ops) == 1 {
		h.Do(th, ops[0])
		return
	}
	var ids []int
	var calls []M
	for _, op := range ops {
		h.ids++
		ids = append(ids, h.ids)
		calls = append(calls, M{"k": "c", "id": h.ids, "th": th, "subs": op.Subs, "ord": op.Ord, "known": false, "res": []any{}})
		h.Add(calls[len(calls)-1])
	}
	for i, op := range ops {
		var res []any
		msg := try(func() { res = op.Run() })
		if msg != "" {
			h.Add(M{"k": "p", "id": ids[i], "th": th, "msg": msg})
			return
		}
		calls[i]["known"], calls[i]["res"] = true, res
		defer h.Add(M{"k": "r", "id": ids[i], "th": th})
	}
}

// genFunc makes programs on one function. resets: with FuncStats.Reset.
func genFunc(wStart, wEnd, wRead, wReset int) Gen {
	return func(r *rand.Rand, h *Hist) *Prog {
		reg := monkit.NewRegistry()
		f := reg.ScopeNamed("s").FuncNamed("f")
		o := &funcObj{f: f, fs: &f.FuncStats}
		type st struct{ k, a, b int }
		step := func() st {
			x := r.Intn(wStart + wEnd + wRead + wReset)
			k := 3
			switch {
			case x < wStart:
				k = 0
			case x < wStart+wEnd:
				k = 1
			case x < wStart+wEnd+wRead:
				k = 2
			}
			return st{k, r.Intn(1000), r.Intn(1000)}
		}
		do := func(th int, s st) {
			switch s.k {
			case 0:
				h.multi(th, o.start(s.a))
			case 1:
				if len(o.calls) > 0 {
					h.multi(th, o.end(s.a, s.b))
				}
			case 2:
				h.multi(th, o.read(s.a))
			default:
				h.multi(th, o.reset())
			}
		}
		var pre []st
		for i := r.Intn(4); i > 0; i-- {
			pre = append(pre, st{0, r.Intn(1000), 0})
		}
		var ths []func()
		for i := 0; i < 2+r.Intn(2); i++ {
			var steps []st
			for j := 1 + r.Intn(3); j > 0; j-- {
				steps = append(steps, step())
			}
			th := i + 1
			ths = append(ths, func() {
				for _, s := range steps {
					do(th, s)
				}
			})
		}
		seed := r.Int63()
		return &Prog{Head: M{"k": "h"}, RawPre: func() {
			for _, s := range pre {
				do(0, s)
			}
		}, RawThreads: ths, RawFinal: func() {
			all := func() {
				for k := 0; k < 9; k++ {
					h.multi(0, o.read(k))
				}
			}
			all()
			r := rand.New(rand.NewSource(seed))
			for range o.calls {
				h.multi(0, o.end(r.Intn(10), r.Intn(10)))
			}
			all()
		}}
	}
}

// ---------------------------------------------------------------- trace values, annotations

func genVals(r *rand.Rand, h *Hist) *Prog {
	reg := monkit.NewRegistry()
	ctx := context.Background()
	reg.ScopeNamed("s").FuncNamed("f").Task(&ctx)
	s := monkit.SpanFromCtx(ctx)
	t := s.Trace()
	type held struct {
		got, want []monkit.Annotation
	}
	var hs []held
	var ms []heldVals
	n := 0
	mk := func() Op {
		n++
		v := n
		key := 1 + r.Intn(3)
		switch r.Intn(6) {
		case 0:
			return Op{Subs: []M{{"o": "set", "key": key, "v": v}}, Run: func() []any { t.Set(wkey(key), v); return one(0) }}
		case 1:
			return Op{Subs: []M{{"o": "get", "key": key}}, Run: func() []any {
				if x := t.Get(wkey(key)); x != nil {
					return one(x)
				}
				return one(0)
			}}
		case 2:
			return Op{Subs: []M{{"o": "all"}}, Run: func() []any {
				m := t.GetAll()
				want := map[interface{}]interface{}{}
				out := []any{0, 0, 0}
				for k, x := range m {
					want[k] = x
					out[int(k.(wkey))-1] = x
				}
				ms = append(ms, heldVals{m, want})
				return []any{out}
			}}
		case 3, 4:
			return Op{Subs: []M{{"o": "ann", "v": v}}, Run: func() []any { s.Annotate("n", fmt.Sprint(v)); return one(0) }}
		default:
			return Op{Subs: []M{{"o": "anns"}}, Run: func() []any {
				got := s.Annotations()
				out := []any{}
				for _, a := range got {
					x := 0
					fmt.Sscan(a.Value, &x)
					out = append(out, x)
				}
				hs = append(hs, held{got, append([]monkit.Annotation(nil), got...)})
				return []any{out}
			}}
		}
	}
	p := &Prog{Head: M{"k": "h"}}
	for i := r.Intn(3); i > 0; i-- {
		p.Pre = append(p.Pre, mk())
	}
	for i := 2 + r.Intn(2); i > 0; i-- {
		var ops []Op
		for j := 1 + r.Intn(3); j > 0; j-- {
			ops = append(ops, mk())
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Final = []Op{
		{Subs: []M{{"o": "anns"}}, Run: func() []any {
			out := []any{}
			for _, a := range s.Annotations() {
				x := 0
				fmt.Sscan(a.Value, &x)
				out = append(out, x)
			}
			return []any{out}
		}},
		{Subs: []M{{"o": "all"}}, Run: func() []any {
			out := []any{0, 0, 0}
			for k, x := range t.GetAll() {
				out[int(k.(wkey))-1] = x
			}
			return []any{out}
		}},
		{Subs: []M{{"o": "stable"}}, Run: func() []any {
			for _, x := range hs {
				for i := range x.got {
					if x.got[i] != x.want[i] {
						return one(0)
					}
				}
			}
			for _, x := range ms {
				if len(x.got) != len(x.want) {
					return one(0)
				}
				for k, v := range x.want {
					if x.got[k] != v {
						return one(0)
					}
				}
			}
			return one(1)
		}},
	}
	return p
}

// ---------------------------------------------------------------- scopes

// scopeObj asks a scope (or registry) for objects and numbers them.
type scopeObj struct {
	reg   *monkit.Registry
	s     *monkit.Scope
	nums  map[any]int
	fills map[string]string
	looks int    // lookups prepared
	pre   string // of scope names, in the registry all runs share
}

func newScopeObj() *scopeObj {
	r := monkit.NewRegistry()
	return &scopeObj{reg: r, s: r.ScopeNamed("s"), nums: map[any]int{}}
}

var sharedRuns int

// newSharedScopeObj is about the default registry and the functions for it.
func newSharedScopeObj() *scopeObj {
	sharedRuns++
	pre := fmt.Sprintf("run %d ", sharedRuns)
	return &scopeObj{reg: monkit.Default, s: monkit.ScopeNamed(pre + "s"), nums: map[any]int{}, pre: pre}
}

// byCaller asks for functions and scopes without naming them: the caller's name
// counts. Here the callers have names of their own.
func autoNamedA(s *monkit.Scope) *monkit.Func { return s.Func() }
func autoNamedB(s *monkit.Scope) *monkit.Func { return s.Func() }
func autoTaskC(s *monkit.Scope, tags ...monkit.SeriesTag) *monkit.Func {
	ctx := context.Background()
	s.Task(tags...)(&ctx)(nil)
	return monkit.SpanFromCtx(ctx).Func()
}
func autoTaskD(s *monkit.Scope, tags ...monkit.SeriesTag) *monkit.Func {
	t := s.Task(tags...)
	ctx := context.Background()
	t(&ctx)(nil)
	f := monkit.SpanFromCtx(ctx).Func()
	if t.Func() != f || monkit.Task(f.Task).Func() != f || monkit.Task(f.ResetTrace).Func() != f {
		return nil
	}
	return f
}
func autoPackageA(r *monkit.Registry) *monkit.Scope {
	if r == monkit.Default {
		return monkit.Package()
	}
	return r.Package()
}
func autoPackageB(r *monkit.Registry) *monkit.Scope { return r.Package() }

func (o *scopeObj) byCaller(which int, tags []monkit.SeriesTag) Op {
	name := []string{"autoNamedA", "autoNamedB", "autoTaskC", "autoTaskD"}[which%4]
	if which%4 < 2 {
		tags = nil
	}
	op := o.lookup("Func", name, tags)
	op.Run = func() []any {
		switch which % 4 {
		case 0:
			return one(o.num(autoNamedA(o.s)))
		case 1:
			return one(o.num(autoNamedB(o.s)))
		case 2:
			return one(o.num(autoTaskC(o.s, tags...)))
		}
		return one(o.num(autoTaskD(o.s, tags...)))
	}
	return op
}

func (o *scopeObj) num(x any) int {
	if n, ok := o.nums[x]; ok {
		return n
	}
	o.nums[x] = len(o.nums) + 1
	return o.nums[x]
}

var scopeKinds = []string{"Counter", "Meter", "IntVal", "FloatVal", "BoolVal", "StructVal", "DurationVal", "Timer", "Func", "DiffMeter", "Gauge", "Scope"}

// lookup: functions live in a name space of their own, and so do scopes.
func (o *scopeObj) lookup(kind, name string, tags []monkit.SeriesTag) Op {
	space := "m"
	if kind == "Func" {
		space = "f"
	} else if kind == "Scope" {
		space, tags = "s", nil
	} else if kind == "Gauge" {
		tags = nil
	}
	o.looks++
	viaTask := o.looks%3 == 0 // a function is also found through its task
	format := o.looks%2 == 0 && len(tags) == 0
	event := o.looks%4 == 0
	key := space + fmt.Sprintf(" %q", name)
	for _, t := range tags {
		key += fmt.Sprintf(" %q %q", t.Key, t.Val)
	}
	return Op{Got: true, Subs: []M{{"o": "get", "key": key, "kind": kind}}, Run: func() (res []any) {
		done := false
		defer func() {
			if !done {
				if r := recover(); r != nil {
					if _, isErr := r.(error); isErr {
						panic(r) // not a refusal
					}
				}
				res = one(-1)
			}
		}()
		n := 0
		switch kind {
		case "Counter":
			n = o.num(o.s.Counter(name, tags...))
		case "Meter":
			if event {
				o.s.Event(name, tags...)
			}
			n = o.num(o.s.Meter(name, tags...))
		case "IntVal":
			if format {
				n = o.num(o.s.IntValf("%s%.0d%s", name[:len(name)/2], 0, name[len(name)/2:]))
			} else {
				n = o.num(o.s.IntVal(name, tags...))
			}
		case "FloatVal":
			if format {
				n = o.num(o.s.FloatValf("%s%.0d%s", name[:len(name)/2], 0, name[len(name)/2:]))
			} else {
				n = o.num(o.s.FloatVal(name, tags...))
			}
		case "BoolVal":
			if format {
				n = o.num(o.s.BoolValf("%s%.0d%s", name[:len(name)/2], 0, name[len(name)/2:]))
			} else {
				n = o.num(o.s.BoolVal(name, tags...))
			}
		case "StructVal":
			n = o.num(o.s.StructVal(name, tags...))
		case "DurationVal":
			n = o.num(o.s.DurationVal(name, tags...))
		case "Timer":
			n = o.num(o.s.Timer(name, tags...))
		case "Func":
			if viaTask {
				n = o.num(o.s.TaskNamed(name, tags...).Func())
			} else {
				n = o.num(o.s.FuncNamed(name, tags...))
			}
		case "Scope":
			if o.pre != "" {
				n = o.num(monkit.ScopeNamed(o.pre + name))
			} else {
				n = o.num(o.reg.ScopeNamed(name))
			}
		case "DiffMeter":
			o.s.DiffMeter(name, nil, nil, tags...)
		case "Gauge":
			o.s.Gauge(name, func() float64 { return 1 })
		}
		done = true
		return one(n)
	}}
}

func (o *scopeObj) list(kind string) Op {
	return Op{Got: true, Subs: []M{{"o": "list", "kind": kind}}, Run: func() []any {
		out := []any{}
		if kind == "Func" {
			o.s.Funcs(func(f *monkit.Func) { out = append(out, o.num(f)) })
		} else {
			list := o.reg.Scopes
			if o.pre != "" {
				list = monkit.Scopes
			}
			list(func(s *monkit.Scope) {
				if strings.HasPrefix(s.Name(), o.pre) {
					out = append(out, o.num(s))
				}
			})
		}
		return []any{out}
	}}
}

func (o *scopeObj) prelude() Op { return o.lookup("Scope", "s", nil) }

func genScope(r *rand.Rand, h *Hist) *Prog {
	o := newScopeObj()
	kinds := []string{scopeKinds[r.Intn(11)], scopeKinds[r.Intn(11)], "Func", "Scope"}
	if kinds[0] == "DiffMeter" || kinds[0] == "Gauge" {
		kinds[0] = "Counter"
	}
	names := []string{"a", "b"}
	mk := func() Op {
		if r.Intn(7) == 0 {
			return o.list([]string{"Func", "Scope"}[r.Intn(2)])
		}
		var tags []monkit.SeriesTag
		if r.Intn(4) == 0 {
			tags = append(tags, monkit.NewSeriesTag("k", "v"))
		}
		k := kinds[0]
		if r.Intn(2) == 0 {
			k = kinds[r.Intn(len(kinds))]
		}
		return o.lookup(k, names[r.Intn(3)/2], tags)
	}
	p := &Prog{Head: M{"k": "h"}, Pre: []Op{o.prelude()}}
	for i := 2 + r.Intn(2); i > 0; i-- {
		var ops []Op
		for j := 1 + r.Intn(3); j > 0; j-- {
			ops = append(ops, mk())
		}
		p.Threads = append(p.Threads, ops)
	}
	for _, n := range names {
		p.Final = append(p.Final, o.lookup(kinds[0], n, nil), o.lookup(kinds[0], n, []monkit.SeriesTag{{Key: "k", Val: "v"}}))
	}
	p.Final = append(p.Final, o.list("Func"), o.list("Scope"))
	return p
}

// packages: the scope of the calling package is the same for all its functions, and
// is found by its name.
func (o *scopeObj) packages() Op {
	op := o.lookup("Scope", "\x00package", nil)
	op.Run = func() []any {
		a, b := autoPackageA(o.reg), autoPackageB(o.reg)
		if a != b || o.reg.ScopeNamed(a.Name()) != a || !strings.HasSuffix(a.Name(), "vh") {
			return one(-2)
		}
		return one(o.num(a))
	}
	return op
}

// names and tag lists made of pieces that look alike when joined carelessly
func scopeNames(r *rand.Rand) (string, []monkit.SeriesTag) {
	pieces := []string{"", "a", "b", ",", "=", ":", "\\", "func", "func:", "a,b=c", " ", "b=c", "a\\", ",a", "k"}
	word := func() string {
		s := ""
		for i := r.Intn(3); i >= 0; i-- {
			s += pieces[r.Intn(len(pieces))]
		}
		return s
	}
	var tags []monkit.SeriesTag
	for i := r.Intn(3); i > 0; i-- {
		tags = append(tags, monkit.NewSeriesTag(word(), word()))
	}
	return word(), tags
}

func init() {
	reg("scope.conc", concDriver(genScope, 40, 3, 1500))
	reg("scope.seq", func(d *Drv) {
		for i := 0; i < d.N && !d.Over(); i++ {
			o := newScopeObj()
			if d.R.Intn(4) == 0 {
				o = newSharedScopeObj()
			}
			h := &Hist{}
			h.Add(M{"k": "h"})
			h.Do(0, o.prelude())
			kind := func() string { return scopeKinds[d.R.Intn(len(scopeKinds))] }
			main := kind()
			type ask struct {
				name string
				tags []monkit.SeriesTag
			}
			var asked []ask
			// some names are long, or have many tags, and differ at the end only
			pad := ""
			var padTags []monkit.SeriesTag
			switch d.R.Intn(8) {
			case 0:
				pad = strings.Repeat("long/", 10+d.R.Intn(60))
			case 1:
				for k := 6 + d.R.Intn(30); k > 0; k-- {
					padTags = append(padTags, monkit.NewSeriesTag(fmt.Sprint("k", k), "v"))
				}
			}
			for j := 0; j < 30; j++ {
				k := main
				if d.R.Intn(4) == 0 {
					k = kind()
				}
				a := ask{}
				a.name, a.tags = scopeNames(d.R)
				a.name, a.tags = pad+a.name, append(append([]monkit.SeriesTag(nil), padTags...), a.tags...)
				if len(asked) > 0 && d.R.Intn(3) == 0 {
					a = asked[d.R.Intn(len(asked))]
				}
				asked = append(asked, a)
				if d.R.Intn(10) == 0 {
					var tags []monkit.SeriesTag
					if d.R.Intn(2) == 0 {
						tags = a.tags
					}
					which := d.R.Intn(4)
					h.Do(0, o.byCaller(which, tags))
					if d.R.Intn(2) == 0 {
						k, a = "Func", ask{[]string{"autoNamedA", "autoNamedB", "autoTaskC", "autoTaskD"}[which], tags}
					}
				}
				h.Do(0, o.lookup(k, a.name, a.tags))
			}
			// the registry's own package scope: one, whoever asks
			if o.pre == "" {
				h.Do(0, o.packages())
			}
			h.Do(0, o.list("Func"))
			h.Do(0, o.list("Scope"))
			if o.pre != "" {
				h.Do(0, o.packages())
			}
			d.Emit(M{}, h.Ev)
		}
		// every pair of (name, tags) over a small alphabet, one kind at a time: all
		// must be different objects
		words := []string{"", "a", ",", "=", ":", "\\"}
		var all []struct {
			n string
			t []monkit.SeriesTag
		}
		add := func(n string, t []monkit.SeriesTag) {
			all = append(all, struct {
				n string
				t []monkit.SeriesTag
			}{n, t})
		}
		for _, a := range words {
			for _, b := range words {
				add(a+"x"+b, nil)
				if a != "" || b != "" {
					add(a+b, nil)
				}
				for _, c := range words {
					add("n", []monkit.SeriesTag{{Key: a + b, Val: c}})
					add(a, []monkit.SeriesTag{{Key: b, Val: c}, {Key: "t", Val: ""}})
					add("a"+a+"b"+b+"c"+c, nil)
				}
			}
		}
		for _, kind := range []string{"Counter", "Func"} {
			o := newScopeObj()
			h := &Hist{}
			h.Add(M{"k": "h"})
			seen := map[string]bool{}
			for _, x := range all {
				op := o.lookup(kind, x.n, x.t)
				if k := op.Subs[0]["key"].(string); !seen[k] {
					seen[k] = true
					h.Do(0, op)
				}
			}
			d.Emit(M{}, h.Ev)
		}
	})
}

// ---------------------------------------------------------------- meters

type meterObj struct {
	m    [3]*monkit.Meter
	diff *monkit.DiffMeter
	ops  int
	// every amount is this many times the specification's, and every base total
	// given is this far off (only differences are looked at then)
	scale, far int64
}

func newMeterObj() *meterObj {
	o := &meterObj{scale: 1}
	o.m[1] = monkit.NewMeter(monkit.NewSeriesKey("m1"))
	o.m[2] = monkit.NewMeter(monkit.NewSeriesKey("m2"))
	o.diff = monkit.NewDiffMeter(monkit.NewSeriesKey("d"), o.m[1], o.m[2])
	return o
}

func statsOf(s monkit.StatSource) map[string]float64 {
	out := map[string]float64{}
	s.Stats(func(key monkit.SeriesKey, field string, val float64) {
		if _, ok := out[field]; ok {
			out["dup"] = 1
		}
		out[field] = val
	})
	return out
}

func (o *meterObj) op(k string, m, v int) Op {
	x := o.m[m]
	switch k {
	case "mark":
		return Op{Subs: []M{{"o": "mark", "m": m, "v": v}}, Run: func() []any {
			if v%2 == 0 {
				x.Mark(v * int(o.scale))
			} else {
				x.Mark64(int64(v) * o.scale)
			}
			return one(0)
		}}
	case "reset":
		return Op{Subs: []M{{"o": "reset", "m": m, "v": v}}, Run: func() []any { x.Reset(int64(v)*o.scale + o.far); return one(0) }}
	case "settotal":
		return Op{Subs: []M{{"o": "settotal", "m": m, "v": v}}, Run: func() []any { x.SetTotal(int64(v)*o.scale + o.far); return one(0) }}
	case "total":
		return Op{Subs: []M{{"o": "total?", "m": m}}, Run: func() []any {
			if v%2 == 0 {
				return one(scaledF(x.Total(), o.scale))
			}
			st := statsOf(x)
			if len(st) != 2 {
				return one(999999)
			}
			return one(scaledF(st["total"], o.scale))
		}}
	case "diff":
		o.ops++
		return Op{Got: true, Subs: []M{{"o": "half", "m": 1, "op": o.ops}, {"o": "half", "m": 2, "op": o.ops}}, Run: func() []any {
			st := statsOf(o.diff)
			v := scaledF(st["total"], o.scale)
			if len(st) != 2 {
				v = 999999
			}
			return []any{[]any{v}, []any{v}}
		}}
	}
	panic(k)
}

// fixDiff: both halves answer 0, while the specification sees the difference in got.
func fixDiff(h *Hist) {
	for _, ev := range h.Ev {
		if ev["k"] == "c" {
			if res, ok := ev["res"].([]any); ok && len(res) == 2 {
				ev["res"] = []any{[]any{0}, []any{0}}
			}
		}
	}
}

// The ticker keeps every meter there ever was, so the same two serve all runs.
var theMeters *meterObj

func genMeter(r *rand.Rand, h *Hist) *Prog {
	zz.Virtual = true
	if theMeters == nil {
		theMeters = newMeterObj()
		for zz.Sleepers() == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	o := theMeters
	o.m[1].Reset(0)
	o.m[2].Reset(0)
	rnd := func() Op {
		k := []string{"mark", "mark", "mark", "total", "total", "diff", "reset", "settotal"}[r.Intn(8)]
		return o.op(k, 1+r.Intn(2), 1+r.Intn(9))
	}
	p := &Prog{Head: M{"k": "h"}}
	p.Pre = append(p.Pre, o.op("mark", 1, 3))
	for i := r.Intn(30); i > 0; i-- {
		// fill the window
		p.Pre = append(p.Pre, o.tick())
		if r.Intn(3) > 0 {
			p.Pre = append(p.Pre, o.op("mark", 1+r.Intn(2), 1+r.Intn(9)))
		}
	}
	for i := 2 + r.Intn(2); i > 0; i-- {
		var ops []Op
		for j := 1 + r.Intn(3); j > 0; j-- {
			ops = append(ops, rnd())
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Threads = append(p.Threads, []Op{o.tick(), o.tick()}[:1+r.Intn(2)])
	for m := 1; m <= 2; m++ {
		p.Final = append(p.Final, o.op("total", m, 0), o.op("total", m, 1))
	}
	p.Final = append(p.Final, o.op("diff", 1, 0))
	p.Post = func() { fixDiff(h) }
	return p
}

// tick lets the ticker wake once.
func (o *meterObj) tick() Op {
	return Op{Subs: []M{{"o": "tick", "m": 1}, {"o": "tick", "m": 2}}, Run: func() []any {
		zz.Tick()
		return []any{[]any{0}, []any{0}}
	}}
}

// rational finds the fraction with the smallest denominator next to x.
func rational(x float64) []any {
	if x == 0 {
		return []any{0, 1}
	}
	s := int64(1)
	if x < 0 {
		s, x = -1, -x
	}
	p0, q0, p1, q1 := int64(0), int64(1), int64(1), int64(0)
	y := x
	for i := 0; i < 40; i++ {
		a := int64(math.Floor(y))
		p0, q0, p1, q1 = p1, q1, a*p1+p0, a*q1+q0
		if q1 > 2000000 {
			break
		}
		if math.Abs(float64(p1)/float64(q1)-x) < 1e-11*x {
			if p1 > 1000000 {
				break
			}
			return []any{s * p1, q1}
		}
		y = 1 / (y - float64(a))
	}
	return []any{999999, 7}
}

func init() {
	reg("meter.conc", func(d *Drv) {
		concDriver(genMeter, 30, 4, 800)(d)
	})
	reg("meter.seq", func(d *Drv) {
		inBubble(d, func() {
			// the specification's time is in quarters of a second
			const tick, quarter = 4 * 600, time.Second / 4
			monkit.NewMeter(monkit.NewSeriesKey("starts the ticker"))
			t0 := time.Now()
			off := func() int { return int(time.Since(t0) / quarter) }
			for i := 0; i < d.N && !d.OverReal(); i++ {
				o := newMeterObj()
				h := &Hist{}
				h.Add(M{"k": "h"})
				perQuarter := func(rate float64) []any { return rational(rate / 4 / float64(o.scale)) }
				switch d.R.Intn(4) {
				case 0:
					o.scale = 1 << (20 + d.R.Intn(25))
				case 1:
					o.far = 1 << 60
					h.Do(0, o.op("reset", 1, 3))
					h.Do(0, o.op("reset", 2, 0))
				}
				long := d.R.Intn(3)
				neg, haul := d.R.Intn(3) == 0, d.R.Intn(3) == 0
				steps := 40 + 60*long
				if haul {
					steps = 130
				}
				for j := 0; j < steps; j++ {
					what, mark := d.R.Intn(12), 1+d.R.Intn(2)
					// let many slices fill and drop
					hauling := haul && j < 3*30
					if hauling {
						what, mark = 2*(j%3), 1+j%3%2
					}
					switch what {
					case 0, 1, 2, 3:
						v := 1 + d.R.Intn(9)
						if neg && d.R.Intn(3) == 0 {
							v = -v
						}
						h.Do(0, o.op("mark", mark, v))
					case 4, 5, 6:
						adv := []int{1, 1, 2, 7, 29, 240, 1200, 2400, 2400, 2401, 2404, 4800, 4803, 19200}[d.R.Intn(14)]
						if hauling && (adv < tick || d.R.Intn(4) > 0) {
							adv = tick + d.R.Intn(2)*d.R.Intn(9)
						}
						if (off()+adv)%tick == 0 {
							adv++
						}
						for adv > 0 {
							next := tick - off()%tick
							if adv < next {
								time.Sleep(time.Duration(adv) * quarter)
								h.Do(0, Op{Subs: []M{{"o": "adv", "d": adv}}, Run: func() []any { return one(0) }})
								adv = 0
								break
							}
							time.Sleep(time.Duration(next)*quarter + time.Millisecond)
							time.Sleep(quarter - time.Millisecond)
							h.Do(0, Op{Subs: []M{{"o": "adv", "d": next}}, Run: func() []any { return one(0) }})
							h.Do(0, Op{Subs: []M{{"o": "tick", "m": 1}, {"o": "tick", "m": 2}}, Run: func() []any { return []any{[]any{0}, []any{0}} }})
							h.Do(0, Op{Subs: []M{{"o": "adv", "d": 1}}, Run: func() []any { return one(0) }})
							adv -= next + 1
						}
					case 7:
						h.Do(0, o.op("diff", 1, 0))
						h.Do(0, Op{Got: true, Subs: []M{{"o": "drate"}}, Run: func() []any { return []any{perQuarter(statsOf(o.diff)["rate"])} }})
					case 8:
						m := 1 + d.R.Intn(2)
						h.Do(0, Op{Got: true, Subs: []M{{"o": "rate", "m": m}}, Run: func() []any { return []any{perQuarter(o.m[m].Rate())} }})
					case 9:
						m := 1 + d.R.Intn(2)
						h.Do(0, Op{Got: true, Subs: []M{{"o": "rate", "m": m}}, Run: func() []any { return []any{perQuarter(statsOf(o.m[m])["rate"])} }})
					case 10:
						if o.far == 0 {
							h.Do(0, o.op("total", 1+d.R.Intn(2), d.R.Intn(2)))
						}
					default:
						switch d.R.Intn(6) {
						case 0:
							// together, so that the windows are equally old
							h.Do(0, o.op("reset", 1, d.R.Intn(50)-10))
							h.Do(0, o.op("reset", 2, d.R.Intn(50)-10))
						case 1:
							h.Do(0, o.op([]string{"reset", "settotal"}[d.R.Intn(2)], 1+d.R.Intn(2), d.R.Intn(50)))
						}
					}
				}
				for m := 1; m <= 2; m++ {
					m := m
					if o.far == 0 {
						h.Do(0, o.op("total", m, 0))
					}
					h.Do(0, Op{Got: true, Subs: []M{{"o": "rate", "m": m}}, Run: func() []any { return []any{perQuarter(o.m[m].Rate())} }})
				}
				h.Do(0, o.op("diff", 1, 0))
				fixDiff(h)
				d.Emit(M{}, h.Ev)
			}
		})
	})
}

// ---------------------------------------------------------------- values

type valObj struct {
	kind   string
	iv     *monkit.IntVal
	fv     *monkit.FloatVal
	dv     *monkit.DurationVal
	bv     *monkit.BoolVal
	tm     *monkit.Timer
	timers []*monkit.RunningTimer
}

func newValObj(kind string) *valObj {
	k := monkit.NewSeriesKey("v")
	return &valObj{kind: kind, iv: monkit.NewIntVal(k), fv: monkit.NewFloatVal(k), dv: monkit.NewDurationVal(k), bv: monkit.NewBoolVal(k), tm: monkit.NewTimer(k)}
}

// Values are multiples of 4 so that quartiles of integers are integers, and small
// enough for single precision; a duration unit is 2^24 ns.
const durUnit = 1 << 24

func sumOf(st map[string]float64, unit float64) []any {
	if st["dup"] != 0 {
		return []any{999999}
	}
	if st["count"] == 0 {
		if len(st) != 1 {
			return []any{999999}
		}
		return []any{0, 0, 0, 0, 0}
	}
	out := []any{int64(st["count"])}
	for _, f := range []string{"sum", "min", "max", "recent"} {
		v, ok := st[f]
		if !ok {
			return []any{999999}
		}
		q := math.Round(v / unit)
		if math.Abs(q*unit-v) > 1e-6*unit*(1+math.Abs(q)) {
			return []any{999999}
		}
		out = append(out, int64(q))
	}
	return out
}

func (o *valObj) stats() map[string]float64 {
	switch o.kind {
	case "int":
		return statsOf(o.iv)
	case "float":
		return statsOf(o.fv)
	default:
		return statsOf(o.dv)
	}
}

func (o *valObj) unit() float64 {
	switch o.kind {
	case "float":
		return 0.25
	case "dur":
		return durUnit / 1e9
	}
	return 1
}

func (o *valObj) observe(v int) {
	switch o.kind {
	case "int":
		o.iv.Observe(int64(v))
	case "float":
		o.fv.Observe(float64(v) / 4)
	default:
		o.dv.Observe(time.Duration(v) * durUnit)
	}
}

// quant returns 4 times the quantile, in units.
func (o *valObj) quant(k int) int64 {
	q := float64(k) / 4
	var v float64
	switch o.kind {
	case "int":
		v = float64(o.iv.Quantile(q)) * 4
	case "float":
		v = o.fv.Quantile(q) * 16
	default:
		v = float64(o.dv.Quantile(q)) * 4 / durUnit
	}
	if v != math.Trunc(v) {
		return 999999
	}
	return int64(v)
}

func (o *valObj) op(r *rand.Rand) Op {
	switch o.kind {
	case "bool":
		if r.Intn(2) == 0 {
			return Op{Subs: []M{{"o": "t?"}, {"o": "f?"}, {"o": "br?"}, {"o": "disp"}}, Got: true, Run: func() []any {
				st := statsOf(o.bv)
				if len(st) != 4 {
					return []any{[]any{999999}, []any{999999}, []any{999999}, []any{1, 2, 3}}
				}
				return []any{[]any{int(st["true"])}, []any{int(st["false"])}, []any{int(st["recent"])},
					[]any{int(st["disposition"]), int(st["true"]), int(st["false"])}}
			}}
		}
		v := r.Intn(2)
		return Op{Subs: []M{{"o": "tally", "v": v}, {"o": "brec", "v": v}}, Run: func() []any {
			o.bv.Observe(v == 1)
			return []any{[]any{0}, []any{0}}
		}}
	case "timer":
		switch r.Intn(4) {
		case 0:
			return Op{Subs: []M{{"o": "count"}}, Run: func() []any { return one(o.tm.Values().Count) }}
		case 1:
			return Op{Subs: []M{{"o": "count"}}, Run: func() []any { return one(int64(statsOf(o.tm)["count"])) }}
		default:
			k := r.Intn(len(o.timers))
			return Op{Subs: []M{{"o": "stop", "tm": k}}, Run: func() []any { o.timers[k].Stop(); return one(0) }}
		}
	}
	switch r.Intn(5) {
	case 0, 1, 2:
		v := 4 * (r.Intn(9) - 4)
		return Op{Subs: []M{{"o": "obs", "v": v}}, Run: func() []any { o.observe(v); return one(0) }}
	case 3:
		return Op{Subs: []M{{"o": "sum"}}, Run: func() []any { return []any{sumOf(o.stats(), o.unit())} }}
	default:
		k := r.Intn(7) - 1
		return Op{Got: true, Subs: []M{{"o": "quant", "q": k}}, Run: func() []any { return one(o.quant(k)) }}
	}
}

func genVal(r *rand.Rand, h *Hist) *Prog {
	o := newValObj([]string{"int", "float", "dur", "bool", "bool", "timer"}[r.Intn(6)])
	for i := 0; i < 3; i++ {
		o.timers = append(o.timers, o.tm.Start())
	}
	p := &Prog{Head: M{"k": "h"}}
	if r.Intn(2) == 0 {
		p.Pre = append(p.Pre, o.op(r))
	}
	for i := 2 + r.Intn(2); i > 0; i-- {
		var ops []Op
		for j := 1 + r.Intn(3); j > 0; j-- {
			ops = append(ops, o.op(r))
		}
		p.Threads = append(p.Threads, ops)
	}
	for i := 0; i < 6; i++ {
		p.Final = append(p.Final, o.op(r))
	}
	return p
}

// ---------------------------------------------------------------- deltas

type deltaObj struct {
	dts []*monkit.DeltaTransformer
}

var deltaKeys = []monkit.SeriesKey{
	monkit.NewSeriesKey("a"),
	monkit.NewSeriesKey("a").WithTag("t", "1"),
	monkit.NewSeriesKey("a").WithTag("t", "2"),
	monkit.NewSeriesKey("b").WithTag("t", "1"),
	monkit.NewSeriesKey("a,t=1"),
	monkit.NewSeriesKey("a").WithTag("t", `1\`).WithTag("u", "2"),
	monkit.NewSeriesKey("a").WithTag("t", "1,u=2"),
	monkit.NewSeriesKey("a").WithTag("t", "1").WithTag("u", "2"),
	monkit.NewSeriesKey("a").WithTag("", ""),
	monkit.NewSeriesKey(""),
}

func (o *deltaObj) op(d, key int, field string, v int) Op {
	out := []any{}
	cb := func(k monkit.SeriesKey, f string, val float64) {
		if k.String() != deltaKeys[key].String() {
			f = "otherkey"
		}
		out = append(out, []any{f, int64(val)})
	}
	sub := M{"o": "total", "d": d, "key": key, "v": v}
	if field != "total" {
		sub["o"], sub["field"] = "other", field
	}
	return Op{Subs: []M{sub}, Run: func() []any {
		k := deltaKeys[key]
		if v%2 == 0 { // equal content, different object
			all := k.Tags.All()
			k = monkit.NewSeriesKey(k.Measurement)
			for a, b := range all {
				k = k.WithTag(a, b)
			}
		}
		o.dts[d].Transform(cb)(k, field, float64(v))
		return []any{out}
	}}
}

func genDelta(r *rand.Rand, h *Hist) *Prog {
	o := &deltaObj{dts: []*monkit.DeltaTransformer{monkit.NewDeltaTransformer(), monkit.NewDeltaTransformer()}}
	mk := func() Op {
		f := "total"
		if r.Intn(8) == 0 {
			f = []string{"delta", "rate", "Total"}[r.Intn(3)]
		}
		return o.op(r.Intn(5)/4, r.Intn(2), f, r.Intn(20)-5)
	}
	p := &Prog{Head: M{"k": "h"}}
	if r.Intn(2) == 0 {
		p.Pre = append(p.Pre, mk())
	}
	for i := 2 + r.Intn(2); i > 0; i-- {
		var ops []Op
		for j := 1 + r.Intn(3); j > 0; j-- {
			ops = append(ops, mk())
		}
		p.Threads = append(p.Threads, ops)
	}
	for i := 0; i < 2; i++ {
		p.Final = append(p.Final, o.op(i, 0, "total", 50), o.op(i, 1, "total", 60))
	}
	return p
}

// ---------------------------------------------------------------- error names

type tokErr struct {
	run, x int
	own    string
}

func (e *tokErr) Error() string        { return fmt.Sprint("token ", e.x) }
func (e *tokErr) Name() (string, bool) { return e.own, e.own != "" }

var errRun int

func genErrName(r *rand.Rand, h *Hist) *Prog {
	errRun++
	run := errRun
	nh := 0
	mk := func() Op {
		if r.Intn(2) == 0 && nh < 5 {
			nh++
			name := fmt.Sprintf("h%d", nh)
			claims := []any{}
			set := map[int]bool{}
			for x := 1; x <= 3; x++ {
				if r.Intn(2) == 0 {
					claims = append(claims, x)
					set[x] = true
				}
			}
			return Op{Subs: []M{{"o": "add", "claims": claims, "name": name}}, Run: func() []any {
				monkit.AddErrorNameHandler(func(err error) (string, bool) {
					t, ok := err.(*tokErr)
					if !ok || t.run != run || !set[t.x] {
						return "", false
					}
					return name, true
				})
				return one("")
			}}
		}
		e := &tokErr{run: run, x: 1 + r.Intn(3)}
		if r.Intn(3) == 0 {
			e.own = "own"
		}
		fs := monkit.NewFuncStats(monkit.NewSeriesKey("f"))
		return Op{Subs: []M{{"o": "fail", "x": e.x, "own": e.own, "builtin": "System Error"}}, Run: func() []any {
			var err error = e
			fs.Observe()(&err)
			errs := fs.Errors()
			if len(errs) != 1 {
				return one(fmt.Sprint(errs))
			}
			for n, c := range errs {
				if c != 1 {
					return one(fmt.Sprint(errs))
				}
				return one(n)
			}
			return nil
		}}
	}
	p := &Prog{Head: M{"k": "h"}}
	for i := r.Intn(4); i > 0; i-- {
		p.Pre = append(p.Pre, mk())
	}
	for i := 2 + r.Intn(2); i > 0; i-- {
		var ops []Op
		for j := 1 + r.Intn(2); j > 0; j-- {
			ops = append(ops, mk())
		}
		p.Threads = append(p.Threads, ops)
	}
	nh = 9
	for i := 0; i < 3; i++ {
		p.Final = append(p.Final, mk())
	}
	return p
}

func init() {
	reg("func.conc.C01", concDriver(genFunc(5, 8, 4, 2), 40, 3, 1500))
	reg("func.conc.C02", concDriver(genFunc(8, 5, 5, 2), 40, 3, 1500))
	reg("vals.conc", concDriver(genVals, 40, 3, 1500))
	reg("val.conc", concDriver(genVal, 40, 3, 1500))
	reg("delta.conc", concDriver(genDelta, 40, 3, 1500))
	reg("errname.conc", concDriver(genErrName, 12, 3, 60))
	_ = errors.New
}
