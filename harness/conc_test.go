package vh

import (
	"encoding/json"
	"fmt"
	"math/rand"

	zz "github.com/spacemonkeygo/monkit/v3/zzvsched"
)

// Op is one operation of a concurrent program: what the specification calls it
// (one or more effects, in order or not) and the code that performs it.
type Op struct {
	Subs []M
	Ord  bool
	Run  func() []any
	// Got operations show the specification their results with the call.
	Got bool
}

// Hist is the history being recorded. Under the controlled scheduler only one
// goroutine runs at a time, so no locking is needed.
type Hist struct {
	Ev  []M
	ids int
}

// Add appends an event.
func (h *Hist) Add(ev M) { h.Ev = append(h.Ev, ev) }

// Do performs an operation as a call and a return event.
func (h *Hist) Do(th int, op Op) {
	h.ids++
	id := h.ids
	call := M{"k": "c", "id": id, "th": th, "subs": op.Subs, "ord": op.Ord, "known": false, "res": []any{}}
	h.Add(call)
	var res []any
	msg := try(func() { res = op.Run() })
	if op.Got {
		for i := range op.Subs {
			if msg != "" {
				op.Subs[i]["got"] = []any{999999, 999999, 999999}
			} else {
				op.Subs[i]["got"] = res[i]
			}
		}
	}
	if msg != "" {
		h.Add(M{"k": "p", "id": id, "th": th, "msg": msg})
		return
	}
	call["known"], call["res"] = true, res
	h.Add(M{"k": "r", "id": id, "th": th})
}

// Prog is a small concurrent program.
type Prog struct {
	Pre     []Op // sequential, before
	Threads [][]Op
	Final   []Op // sequential, after
	// Raw programs record their own events.
	RawThreads []func()
	RawPre     func()
	RawFinal   func()
	Post       func() // once everything is recorded
	// Head is the first event of the trace (may be nil).
	Head M
}

// Gen makes a program (with fresh objects) from a random source.
type Gen func(r *rand.Rand, h *Hist) *Prog

func runProg(gen Gen, pseed int64, strat zz.Strategy) (h *Hist, res zz.Result) {
	h = &Hist{}
	p := gen(rand.New(rand.NewSource(pseed)), h)
	if p.Post != nil {
		defer p.Post()
	}
	if p.Head != nil {
		h.Ev = append([]M{p.Head}, h.Ev...)
	}
	for _, op := range p.Pre {
		h.Do(0, op)
	}
	if p.RawPre != nil {
		if msg := try(p.RawPre); msg != "" {
			h.Add(M{"k": "x", "why": msg})
		}
	}
	var ths []func()
	for i, ops := range p.Threads {
		i, ops := i, ops
		ths = append(ths, func() {
			for _, op := range ops {
				h.Do(i+1, op)
			}
		})
	}
	ths = append(ths, p.RawThreads...)
	res = zz.Run(strat, 60000, ths...)
	for id, pk := range res.Panics {
		h.Add(M{"k": "x", "why": fmt.Sprintf("panic in thread %d: %.200v", id, pk)})
	}
	if res.Why != "" {
		h.Add(M{"k": "x", "why": res.Why})
		return h, res
	}
	if len(res.Panics) > 0 {
		return h, res // locks may be left behind
	}
	for _, op := range p.Final {
		h.Do(0, op)
	}
	if p.RawFinal != nil {
		if msg := try(p.RawFinal); msg != "" {
			h.Add(M{"k": "x", "why": msg})
		}
	}
	return h, res
}

// concDriver explores schedules of generated programs. n is the number of
// programs; per of them random and PCT schedules, plus a bounded exhaustive
// enumeration of preemptions at synchronisation points for every dfsEvery'th.
func concDriver(gen Gen, per, dfsEvery, dfsCap int) func(d *Drv) {
	return func(d *Drv) {
		stuck := 0
		emit := func(pseed int64, how string, h *Hist, res zz.Result) {
			if res.Why == "stuck" {
				// blocked outside the scheduler's control: not a verdict
				stuck++
				d.Execs++
				return
			}
			d.Emit(M{"prog": pseed, "how": how, "steps": res.Steps}, h.Ev)
		}
		complete, dfsRuns, lost, sw := 0, 0, 0, 0
		for i := 0; i < d.N && !d.Over() && stuck < 3; i++ {
			if i%d.Shards != d.Shard {
				continue
			}
			pseed := d.Seed*100000 + int64(i)
			steps := 200
			for j := 0; j < per && stuck < 3; j++ {
				ss := pseed*1000 + int64(j)
				r := rand.New(rand.NewSource(ss))
				var st zz.Strategy
				how := ""
				switch j % 4 {
				case 0:
					st, how = &zz.Random{R: r, PStmt: 0.05, PSy: 0.4}, "random"
				case 1:
					st, how = zz.NewPCT(r, 1+r.Intn(3), steps), "pct"
				case 2:
					st, how = &zz.Random{R: r, PStmt: 0.3, PSy: 0.3}, "random"
				default:
					st, how = zz.NewPCT(r, 2+r.Intn(4), steps), "pct"
				}
				h, res := runProg(gen, pseed, st)
				if res.Steps > 20 {
					steps = res.Steps
				}
				sw += res.Switches
				emit(pseed, fmt.Sprintf("%s:%d", how, ss), h, res)
				if res.Why == "deadlock" || res.Why == "livelock" {
					d.Info["aborted"] = res.Why
					return // goroutines are left behind; enough to report
				}
			}
			if dfsEvery > 0 && (i/d.Shards)%dfsEvery == 0 && stuck < 3 {
				df := &zz.DFS{Bound: 2}
				k := 0
				for df.Next() {
					h, res := runProg(gen, pseed, df)
					emit(pseed, fmt.Sprintf("dfs:%d", k), h, res)
					k++
					if res.Why == "deadlock" || res.Why == "livelock" {
						d.Info["aborted"] = res.Why
						return
					}
					if df.Lost {
						lost++
						k = -1
						break
					}
					if k >= dfsCap || d.Over() || stuck >= 3 {
						k = -1
						break
					}
				}
				if k >= 0 {
					complete++
				}
				dfsRuns++
			}
		}
		d.Info["dfs_programs"] = dfsRuns
		d.Info["dfs_complete"] = complete
		d.Info["dfs_lost"] = lost
		d.Info["switches"] = sw
		d.Info["stuck"] = stuck
	}
}

func clone(v any) any {
	js, _ := json.Marshal(v)
	var out any
	json.Unmarshal(js, &out)
	return out
}
