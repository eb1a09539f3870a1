// Package zzvsched is a token-passing scheduler. When a Sched is active exactly
// one controlled goroutine runs at a time, and every scheduling point (one per
// statement of the instrumented code, one per sync or atomic operation) may hand
// the token to another one, as the active Strategy decides. When no Sched is
// active everything falls back to the real primitives.
//
// It is laid into /repo at build time through -overlay and never committed there.
package zzvsched

import (
	"math/rand"
	"runtime"
	"time"
)

type gstate int

const (
	runnable gstate = iota
	blocked
	finished
)

// G is one controlled goroutine.
type G struct {
	Id    int
	wake  chan struct{}
	state gstate
	on    interface{} // what it is blocked on
	prio  int
	last  int
	yield bool
	panik interface{}
}

// Kind of scheduling point.
const (
	KStmt = iota
	KSync
	KYield
	KBlock
)

// Strategy decides who runs next. cur may be nil or not runnable.
type Strategy interface {
	Pick(s *Sched, cur *G, kind int, run []*G) *G
}

// Sched is one controlled run.
type Sched struct {
	Gs       []*G
	cur      *G
	strat    Strategy
	Steps    int
	MaxSteps int
	done     chan string
	ended    bool
	Switches int
}

// S is the active scheduler. Only set while nothing else runs.
var S *Sched

type sleeper struct {
	d  time.Duration
	ch chan struct{}
	g  *G
}

var (
	// Virtual makes Sleep park until Tick is called (outside controlled runs it
	// otherwise sleeps for real).
	Virtual  bool
	sleepers []*sleeper
)

// P is a statement-level scheduling point.
func P() {
	if s := S; s != nil {
		s.point(KStmt)
	}
}

// Sync is a scheduling point before a synchronisation operation.
func Sync() {
	if s := S; s != nil {
		s.point(KSync)
	}
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if s := S; s != nil {
		s.point(KYield)
		return
	}
	runtime.Gosched()
}

func (s *Sched) runnables() []*G {
	out := make([]*G, 0, len(s.Gs))
	for _, g := range s.Gs {
		if g.state == runnable {
			out = append(out, g)
		}
	}
	return out
}

func (s *Sched) finish(why string) {
	if !s.ended {
		s.ended = true
		s.done <- why
	}
}

func (s *Sched) point(kind int) {
	g := s.cur
	s.Steps++
	if s.Steps > s.MaxSteps {
		s.finish("livelock")
		select {}
	}
	next := s.strat.Pick(s, g, kind, s.runnables())
	if next != g {
		s.Switches++
		s.cur = next
		next.wake <- struct{}{}
		<-g.wake
	}
}

// leave passes the token on from a goroutine that cannot run.
func (s *Sched) leave() {
	run := s.runnables()
	if len(run) == 0 {
		for _, g := range s.Gs {
			if g.state == blocked {
				s.finish("deadlock")
				return
			}
		}
		s.finish("")
		return
	}
	next := s.strat.Pick(s, nil, KBlock, run)
	s.cur = next
	next.wake <- struct{}{}
}

// Cur is the number of the running controlled goroutine, -1 outside runs.
func Cur() int {
	if s := S; s != nil {
		return s.cur.Id
	}
	return -1
}

// Block parks the current goroutine until Wake(on).
func Block(on interface{}) {
	s := S
	g := s.cur
	g.state, g.on = blocked, on
	s.leave()
	<-g.wake
}

// Wake makes everything blocked on 'on' runnable.
func Wake(on interface{}) {
	for _, g := range S.Gs {
		if g.state == blocked && g.on == on {
			g.state, g.on = runnable, nil
		}
	}
}

func (s *Sched) spawn(f func()) *G {
	g := &G{Id: len(s.Gs), wake: make(chan struct{}, 1)}
	s.Gs = append(s.Gs, g)
	go func() {
		<-g.wake
		defer func() {
			if r := recover(); r != nil {
				g.panik = r
			}
			g.state = finished
			s.leave()
		}()
		f()
	}()
	return g
}

// Go replaces the go statement.
func Go(f func()) {
	if s := S; s != nil {
		s.spawn(f)
		s.point(KSync)
		return
	}
	go f()
}

// Go1 replaces a go statement with one argument.
func Go1[A any](f func(A), a A) { Go(func() { f(a) }) }

// Go2 replaces a go statement with two arguments.
func Go2[A, B any](f func(A, B), a A, b B) { Go(func() { f(a, b) }) }

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		if !Virtual {
			time.Sleep(d)
			return
		}
		sl := &sleeper{d: d, ch: make(chan struct{})}
		sleepers = append(sleepers, sl)
		<-sl.ch
		return
	}
	g := s.cur
	sl := &sleeper{d: d, ch: make(chan struct{})}
	sleepers = append(sleepers, sl)
	g.state = finished
	Wake(sl)
	Wake(g)
	s.leave()
	<-sl.ch
}

// Sleepers says how many goroutines sleep in virtual time.
func Sleepers() int { return len(sleepers) }

// Tick wakes everything that sleeps in virtual time and returns once all of it
// sleeps again (or has ended). Inside a controlled run the woken goroutines become
// controlled for that while.
func Tick() {
	s := S
	old := sleepers
	sleepers = nil
	if s == nil {
		for _, sl := range old {
			close(sl.ch)
		}
		for i := 0; i < 1000 && len(sleepers) < len(old); i++ {
			runtime.Gosched()
			if i > 100 {
				time.Sleep(100 * time.Microsecond)
			}
		}
		return
	}
	var gs []*G
	for _, sl := range old {
		g := &G{Id: len(s.Gs), wake: make(chan struct{}, 1)}
		s.Gs = append(s.Gs, g)
		gs = append(gs, g)
		sl := sl
		go func() { <-g.wake; close(sl.ch) }()
	}
	for _, g := range gs {
		for g.state != finished {
			Block(g)
		}
	}
}

// Result of a controlled run.
type Result struct {
	Why      string // "", "deadlock", "livelock", "stuck"
	Steps    int
	Switches int
	Panics   map[int]interface{}
}

// Run runs the threads under the strategy.
func Run(strat Strategy, maxSteps int, threads ...func()) Result {
	s := &Sched{strat: strat, MaxSteps: maxSteps, done: make(chan string, 1)}
	for _, f := range threads {
		s.spawn(f)
	}
	S = s
	first := strat.Pick(s, nil, KBlock, s.runnables())
	s.cur = first
	first.wake <- struct{}{}
	var why string
	timer := time.NewTimer(20 * time.Second)
	select {
	case why = <-s.done:
		timer.Stop()
	case <-timer.C:
		why = "stuck"
	}
	S = nil
	res := Result{Why: why, Steps: s.Steps, Switches: s.Switches, Panics: map[int]interface{}{}}
	if why == "" {
		for _, g := range s.Gs {
			if g.panik != nil {
				res.Panics[g.Id] = g.panik
			}
		}
	}
	return res
}

// Random switches with probability 1/N at statements and M times that at syncs.
type Random struct {
	R          *rand.Rand
	PStmt, PSy float64
}

// Pick implements Strategy.
func (r *Random) Pick(s *Sched, cur *G, kind int, run []*G) *G {
	p := r.PStmt
	switch kind {
	case KSync:
		p = r.PSy
	case KYield, KBlock:
		p = 1
	}
	if cur != nil && len(run) > 0 {
		if len(run) == 1 {
			return run[0]
		}
		if r.R.Float64() >= p {
			return cur
		}
		for {
			g := run[r.R.Intn(len(run))]
			if g != cur {
				return g
			}
		}
	}
	return run[r.R.Intn(len(run))]
}

// PCT is the probabilistic concurrency testing scheduler.
type PCT struct {
	R      *rand.Rand
	Change map[int]bool // steps at which the running thread drops to the bottom
	low    int
}

// NewPCT makes one with d change points among k steps.
func NewPCT(r *rand.Rand, d, k int) *PCT {
	p := &PCT{R: r, Change: map[int]bool{}}
	for i := 0; i < d; i++ {
		p.Change[1+r.Intn(k)] = true
	}
	return p
}

// Pick implements Strategy.
func (p *PCT) Pick(s *Sched, cur *G, kind int, run []*G) *G {
	for _, g := range s.Gs {
		if g.prio == 0 {
			g.prio = 1000 + p.R.Intn(1000000)
		}
	}
	if cur != nil && (kind == KYield || p.Change[s.Steps]) {
		p.low--
		cur.prio = p.low
	}
	best := run[0]
	for _, g := range run[1:] {
		if g.prio > best.prio {
			best = g
		}
	}
	return best
}

// DFS enumerates all schedules with at most Bound preemptions, where only
// synchronisation operations are preemption points.
type DFS struct {
	Bound   int
	All     bool // statements are preemption points, too
	stack   []dchoice
	pos     int
	used    int
	started bool
	Lost    bool // a schedule did not replay
}

type dchoice struct {
	n, pick int
	costly  bool // picks other than 0 are preemptions
}

// Next prepares the next run; false when the space is exhausted.
func (d *DFS) Next() bool {
	d.pos, d.used = 0, 0
	if !d.started {
		d.started = true
		return true
	}
	for len(d.stack) > 0 {
		top := &d.stack[len(d.stack)-1]
		if top.pick+1 < top.n {
			top.pick++
			return true
		}
		d.stack = d.stack[:len(d.stack)-1]
	}
	return false
}

// Pick implements Strategy.
func (d *DFS) Pick(s *Sched, cur *G, kind int, run []*G) *G {
	if len(run) == 1 {
		return run[0]
	}
	if cur != nil && kind == KStmt && !d.All {
		return cur
	}
	opts := run
	costly := false
	if cur != nil && kind == KYield {
		// be fair to whoever the yielding goroutine waits for
		var next *G
		cur.last = s.Steps
		for _, g := range run {
			if g != cur && (next == nil || g.last < next.last) {
				next = g
			}
		}
		next.last = s.Steps
		return next
	}
	if cur != nil {
		opts = make([]*G, 0, len(run))
		costly = true
		opts = append(opts, cur)
		for _, g := range run {
			if g != cur {
				opts = append(opts, g)
			}
		}
	}
	if costly && d.used >= d.Bound {
		return cur
	}
	if d.pos == len(d.stack) {
		d.stack = append(d.stack, dchoice{n: len(opts), costly: costly})
	}
	c := d.stack[d.pos]
	d.pos++
	if c.pick >= len(opts) {
		// the program does not repeat itself: the enumeration is off
		d.Lost = true
		return opts[0]
	}
	if c.costly && c.pick > 0 {
		d.used++
	}
	return opts[c.pick]
}
