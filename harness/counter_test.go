package vh

import (
	"math"
	"math/rand"

	monkit "github.com/spacemonkeygo/monkit/v3"
)

// scale keeps abstract numbers small while the code sees numbers beyond 32 bits.
func scaled(v, scale int64) any {
	if v%scale != 0 {
		return 999999
	}
	return v / scale
}

func scaledF(v float64, scale int64) any {
	if math.IsNaN(v) {
		return -88888
	}
	q := v / float64(scale)
	if q != math.Trunc(q) || math.Abs(q) > 1e6 {
		return 999999
	}
	return int64(q)
}

func counterOps(c *monkit.Counter, scale int64) func(kind string, v int64) Op {
	return func(kind string, v int64) Op {
		op := Op{Subs: []M{{"o": kind, "v": v}}}
		switch kind {
		case "inc":
			op.Run = func() []any { return []any{[]any{scaled(c.Inc(v*scale), scale)}} }
		case "dec":
			op.Run = func() []any { return []any{[]any{scaled(c.Dec(v*scale), scale)}} }
		case "set":
			op.Run = func() []any { return []any{[]any{scaled(c.Set(v*scale), scale)}} }
		case "high":
			op.Run = func() []any { return []any{[]any{scaled(c.High(), scale)}} }
		case "low":
			op.Run = func() []any { return []any{[]any{scaled(c.Low(), scale)}} }
		case "cur":
			op.Run = func() []any { return []any{[]any{scaled(c.Current(), scale)}} }
		case "reset":
			op.Run = func() []any {
				v, l, h := c.Reset()
				return []any{[]any{scaled(v, scale), scaled(l, scale), scaled(h, scale)}}
			}
		case "stats":
			op.Run = func() []any {
				m := map[string][]float64{}
				c.Stats(func(key monkit.SeriesKey, field string, val float64) { m[field] = append(m[field], val) })
				if len(m) != 3 || len(m["high"]) != 1 || len(m["low"]) != 1 || len(m["value"]) != 1 {
					return []any{[]any{777777, len(m)}}
				}
				return []any{[]any{scaledF(m["value"][0], scale), scaledF(m["low"][0], scale), scaledF(m["high"][0], scale)}}
			}
		}
		return op
	}
}

var counterKinds = []string{"inc", "dec", "set", "high", "low", "cur", "reset", "stats"}

func genCounter(r *rand.Rand, h *Hist) *Prog {
	c := monkit.NewCounter(monkit.NewSeriesKey("c"))
	mk := counterOps(c, 1)
	p := &Prog{Head: M{"k": "h"}}
	if r.Intn(2) == 0 {
		p.Pre = append(p.Pre, mk("set", int64(r.Intn(7)-3)))
	}
	nt := 2 + r.Intn(2)
	for i := 0; i < nt; i++ {
		var ops []Op
		for j := 0; j < 1+r.Intn(3); j++ {
			k := counterKinds[r.Intn(len(counterKinds))]
			if r.Intn(2) == 0 {
				k = counterKinds[r.Intn(3)]
			}
			ops = append(ops, mk(k, int64(r.Intn(7)-3)))
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Final = []Op{mk("stats", 0), mk("reset", 0), mk("stats", 0)}
	return p
}

func init() {
	reg("counter.conc", concDriver(genCounter, 40, 4, 3000))
	reg("counter.seq", func(d *Drv) {
		run := func(scale int64, seq []Op) {
			h := &Hist{}
			h.Add(M{"k": "h"})
			for _, op := range seq {
				h.Do(0, op)
			}
			d.Emit(M{"scale": scale}, h.Ev)
		}
		// exhaustive: every sequence of up to 4 updates over a small alphabet, each
		// followed by every read
		type a struct {
			k string
			v int64
		}
		alpha := []a{{"inc", 1}, {"inc", -2}, {"dec", 1}, {"dec", -3}, {"set", 0}, {"set", 2}, {"set", -2}, {"reset", 0}, {"inc", 0}}
		depth := 3
		if d.Opt == "deep" {
			depth = 4
		}
		var rec func(prefix []a)
		rec = func(prefix []a) {
			if len(prefix) > 0 {
				c := monkit.NewCounter(monkit.NewSeriesKey("c"))
				mk := counterOps(c, 1)
				var seq []Op
				for _, x := range prefix {
					seq = append(seq, mk(x.k, x.v))
				}
				for _, k := range []string{"high", "low", "cur", "stats", "reset", "stats", "low", "high"} {
					seq = append(seq, mk(k, 0))
				}
				run(1, seq)
			}
			if len(prefix) < depth {
				for _, x := range alpha {
					rec(append(append([]a(nil), prefix...), x))
				}
			}
		}
		rec(nil)
		for i := 0; i < d.N; i++ {
			c := monkit.NewCounter(monkit.NewSeriesKey("c"))
			scale := []int64{1, 1, 1 << 30, 1<<31 + 1, 1 << 33, 1 << 45, 3, 1<<58 + 1, 1<<58 + 1}[d.R.Intn(9)]
			mk := counterOps(c, scale)
			var seq []Op
			now := int64(0) // to stay within 64 bits
			for j := 0; j < 5+d.R.Intn(30); j++ {
				k := counterKinds[d.R.Intn(len(counterKinds))]
				if k == "reset" && d.R.Intn(2) == 0 {
					k = "inc"
				}
				v := int64(d.R.Intn(41) - 20)
				if scale > 1<<58 {
					v = int64(d.R.Intn(61) - 30)
					if (k == "inc" && (now+v > 30 || now+v < -30)) || (k == "dec" && (now-v > 30 || now-v < -30)) {
						k = "set"
					}
				}
				switch k {
				case "inc":
					now += v
				case "dec":
					now -= v
				case "set":
					now = v
				case "reset":
					now = 0
				}
				seq = append(seq, mk(k, v))
			}
			run(scale, seq)
		}
	})
}

func init() {
	reg("counter.race", func(d *Drv) {
		for i := 0; i < d.N && !d.Over(); i++ {
			c := monkit.NewCounter(monkit.NewSeriesKey("c"))
			const G, K = 6, 60
			hammer(G, func(g int, r *rand.Rand) {
				for k := 0; k < K; k++ {
					c.Inc(3)
					switch r.Intn(6) {
					case 0:
						c.High()
					case 1:
						c.Low()
					case 2:
						c.Current()
					case 3:
						c.Stats(func(monkit.SeriesKey, string, float64) {})
					case 4:
						c.Dec(1)
						c.Inc(1)
					}
					c.Dec(2)
				}
			}, d)
			// the extremes depend on the schedule: left to the controlled runs
			h := &Hist{}
			h.Add(M{"k": "h"})
			h.Do(0, Op{Subs: []M{{"o": "inc", "v": G * K}}, Run: func() []any { return []any{[]any{c.Current()}} }})
			h.Do(0, counterOps(c, 1)("cur", 0))
			d.Emit(M{}, h.Ev)
		}
	})
}

func init() {
	reg("counter.raceReset", func(d *Drv) {
		for i := 0; i < d.N && !d.Over(); i++ {
			c := monkit.NewCounter(monkit.NewSeriesKey("c"))
			hammer(4, func(g int, r *rand.Rand) {
				for k := 0; k < 40; k++ {
					c.Set(int64(k))
					c.Reset()
				}
			}, d)
		}
		d.Emit(M{}, []M{{"k": "h"}})
	})
}
