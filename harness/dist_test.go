package vh

import (
	"math"
	"math/rand"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
)

// One distribution, value or timer, behind one interface. Values are whole numbers
// of a unit; single precision holds the small multiples used here exactly.
type dh struct {
	kind   string // int float dur intval floatval durval timer
	id     *monkit.IntDist
	fd     *monkit.FloatDist
	dd     *monkit.DurationDist
	iv     *monkit.IntVal
	fv     *monkit.FloatVal
	dv     *monkit.DurationVal
	tm     *monkit.Timer
	scale  int64 // of int kinds
	spread int
	exact  bool // scale is odd
}

func newDH(kind string, deep bool, r *rand.Rand) *dh {
	k := monkit.NewSeriesKey("v")
	h := &dh{kind: kind, scale: 1, spread: []int{2, 10, 400}[r.Intn(3)]}
	switch kind {
	case "int":
		h.id = monkit.NewIntDist(k)
	case "float":
		h.fd = monkit.NewFloatDist(k)
	case "dur":
		h.dd = monkit.NewDurationDist(k)
	case "intval":
		h.iv = monkit.NewIntVal(k)
	case "floatval":
		h.fv = monkit.NewFloatVal(k)
	case "durval":
		h.dv = monkit.NewDurationVal(k)
	case "timer":
		h.tm = monkit.NewTimer(k)
	}
	if (kind == "int" || kind == "intval") && r.Intn(2) == 0 {
		h.scale = 1 << 36
		if kind == "int" && !deep && r.Intn(2) == 0 {
			// sums of these need more digits than a float has
			h.scale, h.exact = 1<<45+1, true
		}
	}
	return h
}

func (h *dh) unit() float64 {
	switch h.kind {
	case "int", "intval":
		return float64(h.scale)
	case "float", "floatval":
		return 0.25
	}
	return durUnit
}

func (h *dh) whole() bool { return h.unit() == 1 }

func (h *dh) ins(v int) {
	switch h.kind {
	case "int":
		h.id.Insert(int64(v) * h.scale)
	case "float":
		h.fd.Insert(float64(v) / 4)
	case "dur":
		h.dd.Insert(time.Duration(v) * durUnit)
	case "intval":
		h.iv.Observe(int64(v) * h.scale)
	case "floatval":
		h.fv.Observe(float64(v) / 4)
	case "durval":
		h.dv.Observe(time.Duration(v) * durUnit)
	}
}

func (h *dh) quant(q float64) float64 {
	switch h.kind {
	case "int":
		return float64(h.id.Query(q))
	case "float":
		return h.fd.Query(q)
	case "dur":
		return float64(h.dd.Query(q))
	case "intval":
		return float64(h.iv.Quantile(q))
	case "floatval":
		return h.fv.Quantile(q)
	case "durval":
		return float64(h.dv.Quantile(q))
	}
	return float64(h.tm.Values().Query(q))
}

// in units, times m; exact unless near is set
func (h *dh) num(v, m float64, near bool) int64 {
	if v != 0 && math.Abs(v) < h.unit()/1e5 && !h.whole() && h.kind != "float" && h.kind != "floatval" {
		return 999999999 // less than any observation or average of them
	}
	x := v / h.unit() * m
	y := math.Round(x)
	tol := 1e-6
	if h.exact {
		tol = 0.02 // single precision
	}
	if math.IsNaN(x) || math.Abs(x) > 2e9 || (!near && math.Abs(x-y) > tol) {
		return 999999999
	}
	return int64(y)
}

func distSeq(d *Drv, deep bool) {
	r := d.R
	var hs []*dh
	type rtm struct {
		t *monkit.RunningTimer
		n int
	}
	var tms []rtm
	evs := []M{{"k": "h"}}
	ev := func(m M) { m["k"] = "op"; evs = append(evs, m) }
	kinds := []string{"int", "float", "dur", "intval", "floatval", "durval", "timer"}
	if deep {
		kinds = kinds[:6]
	}
	add := func(kind string) {
		hs = append(hs, newDH(kind, deep, r))
		ev(M{"o": "new", "kind": kind})
	}
	add(kinds[r.Intn(len(kinds))])
	direct := func() (out []int) {
		for i, h := range hs {
			if h.id != nil || h.fd != nil || h.dd != nil {
				out = append(out, i)
			}
		}
		return
	}
	next := 1000
	msg := try(func() {
		steps := 10 + r.Intn(50)
		if r.Intn(3) == 0 {
			steps = 60 + r.Intn(90)
		}
		for j := 0; j < steps; j++ {
			n := r.Intn(len(hs))
			h := hs[n]
			switch x := r.Intn(20); {
			case x < 9:
				if h.kind == "timer" {
					if len(tms) == 0 || r.Intn(3) == 0 {
						tms = append(tms, rtm{h.tm.Start(), n})
						ev(M{"o": "start", "n": n + 1})
						break
					}
					k := r.Intn(len(tms))
					switch r.Intn(4) {
					case 0:
						ev(M{"o": "elapsed", "tm": k + 1, "res": h.num(float64(tms[k].t.Elapsed()), 1, false)})
					case 1, 2:
						ev(M{"o": "stop", "tm": k + 1, "res": h.num(float64(tms[k].t.Stop()), 1, false)})
					default:
						a := r.Intn(6)
						time.Sleep(time.Duration(a) * durUnit)
						ev(M{"o": "adv", "d": a})
					}
					break
				}
				for k := 1 + r.Intn(6)*r.Intn(3); k > 0; k-- {
					v := r.Intn(2*h.spread+1) - h.spread
					h.ins(v)
					ev(M{"o": "ins", "n": n + 1, "v": v})
				}
			case x == 9:
				if len(hs) < 4 {
					add(kinds[r.Intn(len(kinds))])
				}
			case x == 10 || x == 11:
				if ds := direct(); len(ds) > 0 && len(hs) < 5 && r.Intn(2) == 0 {
					n := ds[r.Intn(len(ds))]
					o := hs[n]
					c := &dh{kind: o.kind, scale: o.scale, spread: o.spread, exact: o.exact}
					switch o.kind {
					case "int":
						c.id = o.id.Copy()
					case "float":
						c.fd = o.fd.Copy()
					case "dur":
						c.dd = o.dd.Copy()
					}
					hs = append(hs, c)
					ev(M{"o": "copy", "n": n + 1})
				} else if h.kind == "timer" && len(hs) < 5 {
					hs = append(hs, &dh{kind: "dur", scale: 1, spread: 10, dd: h.tm.Values()})
					ev(M{"o": "copy", "n": n + 1})
				}
			case x == 12:
				if ds := direct(); len(ds) > 0 && r.Intn(3) == 0 {
					n := ds[r.Intn(len(ds))]
					switch o := hs[n]; o.kind {
					case "int":
						o.id.Reset()
					case "float":
						o.fd.Reset()
					case "dur":
						o.dd.Reset()
					}
					ev(M{"o": "reset", "n": n + 1})
				}
			case x < 16:
				dd := []int{4, 16, 64}[r.Intn(3)]
				q := r.Intn(dd+3) - 1
				ev(M{"o": "quant", "n": n + 1, "q": q, "d": dd, "whole": h.whole(), "res": h.num(h.quant(float64(q)/float64(dd)), float64(dd), h.whole())})
			case x == 16:
				evs = append(evs, h.sum(n)...)
			case x == 17:
				if deep {
					break
				}
				evs = append(evs, h.avg(n)...)
			default:
				evs = append(evs, h.stats(n))
			}
			if deep && next < 12000 && r.Intn(12) == 0 && h.kind != "timer" {
				v, many := next, []int{200, 1500, 5000}[r.Intn(3)]
				next += many
				for k := 0; k < many; k++ {
					h.ins(v + k)
				}
				ev(M{"o": "bulk", "n": n + 1, "v": v, "many": many})
				var s []any
				for k := 0; k < 64; k++ {
					s = append(s, h.num(h.quant(float64(k)/63), 1, true))
				}
				if !h.whole() {
					ev(M{"o": "sample", "n": n + 1, "res": s})
				}
				if h.kind != "timer" {
					evs = append(evs, h.stats(n))
				}
			}
		}
		for n, h := range hs {
			evs = append(evs, h.sum(n)...)
			if !deep {
				evs = append(evs, h.avg(n)...)
			}
			evs = append(evs, h.stats(n))
		}
	})
	if msg != "" {
		evs = append(evs, M{"k": "x", "why": msg})
	}
	d.Emit(M{"deep": deep}, evs)
}

func (h *dh) sum(n int) []M {
	var v []any
	switch h.kind {
	case "int":
		v = []any{h.id.Count, scaled(h.id.Sum, h.scale), scaled(h.id.Low, h.scale), scaled(h.id.High, h.scale), scaled(h.id.Recent, h.scale)}
	case "float":
		v = []any{h.fd.Count, h.num(h.fd.Sum, 1, false), h.num(h.fd.Low, 1, false), h.num(h.fd.High, 1, false), h.num(h.fd.Recent, 1, false)}
	case "dur", "timer":
		x := h.dd
		if x == nil {
			x = h.tm.Values()
		}
		v = []any{x.Count, h.num(float64(x.Sum), 1, false), h.num(float64(x.Low), 1, false), h.num(float64(x.High), 1, false), h.num(float64(x.Recent), 1, false)}
	default:
		return nil
	}
	return []M{{"k": "op", "o": "sum", "n": n + 1, "res": v}}
}

func (h *dh) avg(n int) []M {
	var v []any
	switch h.kind {
	case "int":
		v = []any{h.num(float64(h.id.ReservoirAverage()), 1e4, true), h.num(float64(h.id.FullAverage()), 1e4, true)}
	case "float":
		v = []any{h.num(h.fd.ReservoirAverage(), 1e4, true), h.num(h.fd.FullAverage(), 1e4, true)}
	case "dur":
		v = []any{h.num(float64(h.dd.ReservoirAverage()), 1e4, true), h.num(float64(h.dd.FullAverage()), 1e4, true)}
	default:
		return nil
	}
	return []M{{"k": "op", "o": "avg", "n": n + 1, "whole": h.whole(), "res": v}}
}

func (h *dh) stats(n int) M {
	var src monkit.StatSource
	switch h.kind {
	case "int":
		src = h.id
	case "float":
		src = h.fd
	case "dur":
		src = h.dd
	case "intval":
		src = h.iv
	case "floatval":
		src = h.fv
	case "durval":
		src = h.dv
	default:
		src = h.tm
	}
	m := map[string]float64{}
	fields := []any{}
	src.Stats(func(key monkit.SeriesKey, field string, val float64) {
		if key.Measurement != "v" {
			field = "?" + key.Measurement
		}
		fields = append(fields, field)
		if h.unit() == durUnit && field != "count" {
			val *= 1e9
		}
		m[field] = val
	})
	e := M{"k": "op", "o": "stats", "n": n + 1, "fields": fields, "whole": h.whole(), "sum": []any{int64(m["count"])}, "qs": []any{}, "avg": 0}
	if m["count"] == 0 {
		return e
	}
	s := []any{int64(m["count"])}
	for _, f := range []string{"sum", "min", "max", "recent"} {
		s = append(s, h.num(m[f], 1, false))
	}
	var qs []any
	for _, f := range []string{"rmin", "r10", "r50", "r90", "r99", "rmax"} {
		qs = append(qs, h.num(m[f], 100, true))
	}
	e["sum"], e["qs"], e["avg"] = s, qs, h.num(m["ravg"], 1e4, true)
	return e
}

func init() {
	reg("dist.seq", func(d *Drv) {
		inBubble(d, func() {
			for i := 0; i < d.N && !d.OverReal(); i++ {
				if i%d.Shards == d.Shard {
					distSeq(d, i%40 == 7)
				}
			}
		})
	})
}
