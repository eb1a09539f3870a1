// Package vh drives the real monkit code and records what it does, as JSON
// traces that TLC checks against the specifications in /verif/spec.
package vh

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"
)

var (
	fDriver = flag.String("vh.driver", "", "driver name")
	fSeed   = flag.Int64("vh.seed", 1, "seed")
	fN      = flag.Int("vh.n", 100, "amount of work")
	fOut    = flag.String("vh.out", "", "output file")
	fOpt    = flag.String("vh.opt", "", "driver specific option")
	fCap    = flag.Int("vh.cap", 60, "time cap in seconds")
	fIn     = flag.String("vh.in", "", "input file")
	fShard  = flag.Int("vh.shard", 0, "shard")
	fShards = flag.Int("vh.shards", 1, "number of shards")
)

// M is a JSON object.
type M = map[string]any

// Drv is a running driver.
type Drv struct {
	T        *testing.T
	R        *rand.Rand
	Seed     int64
	N        int
	Opt      string
	Deadline time.Time
	Shard    int
	Shards   int

	w       *bufio.Writer
	f       *os.File
	seen    map[string]bool
	Traces  int // written
	Execs   int // executed, before removing duplicates
	Events  int
	Samples []string
	Info    M
}

var drivers = map[string]func(d *Drv){}

func reg(name string, f func(d *Drv)) {
	if drivers[name] != nil {
		panic("duplicate driver " + name)
	}
	drivers[name] = f
}

// Emit writes one trace unless the same one was written before.
func (d *Drv) Emit(meta M, evs []M) {
	d.Execs++
	js, err := json.Marshal(evs)
	if err != nil {
		panic(fmt.Sprintf("%v: %#v", err, evs))
	}
	key := string(js)
	if d.seen[key] {
		return
	}
	d.seen[key] = true
	d.Traces++
	d.Events += len(evs)
	mj, err := json.Marshal(meta)
	if err != nil {
		panic(err)
	}
	if len(evs) == 0 {
		panic("empty trace")
	}
	line := fmt.Sprintf(`{"meta":%s,"ev":%s}`, mj, js)
	d.w.WriteString(line)
	d.w.WriteByte('\n')
	if len(d.Samples) < 2 && len(line) < 3000 {
		d.Samples = append(d.Samples, line)
	}
}

// Over says whether the time cap is reached.
func (d *Drv) Over() bool { return time.Now().After(d.Deadline) }

// OverReal is Over for use in a bubble of virtual time.
func (d *Drv) OverReal() bool { return overReal.Load() }

var overReal atomic.Bool

func (d *Drv) close() {
	d.w.Flush()
	d.f.Close()
	sum := M{"traces": d.Traces, "execs": d.Execs, "events": d.Events, "samples": d.Samples, "info": d.Info}
	js, _ := json.Marshal(sum)
	os.WriteFile(*fOut+".sum", js, 0o644)
}

func TestDrive(t *testing.T) {
	f := drivers[*fDriver]
	if f == nil {
		var names []string
		for n := range drivers {
			names = append(names, n)
		}
		sort.Strings(names)
		t.Fatalf("no driver %q: %s", *fDriver, strings.Join(names, " "))
	}
	out, err := os.Create(*fOut)
	if err != nil {
		t.Fatal(err)
	}
	d := &Drv{T: t, R: rand.New(rand.NewSource(*fSeed*1000003 + int64(*fShard))), Seed: *fSeed, N: *fN, Opt: *fOpt,
		Deadline: time.Now().Add(time.Duration(*fCap) * time.Second),
		Shard:    *fShard, Shards: *fShards,
		w: bufio.NewWriterSize(out, 1<<20), f: out, seen: map[string]bool{}, Info: M{}}
	time.AfterFunc(time.Duration(*fCap)*time.Second, func() { overReal.Store(true) })
	f(d)
	d.close()
	// goroutines of the code under test (the meter ticker) never end
	os.Exit(0)
}

// repoFrames returns the repository functions on the stack of a panic being
// recovered, innermost first.
func repoFrames() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "github.com/spacemonkeygo/monkit/v3") && !strings.Contains(l, "zzvsched") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, l[strings.LastIndex(l, "/")+1:])
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, "<")
}

// try runs f and returns a description of its panic, if any.
func try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
			if len(msg) > 200 {
				msg = msg[:200]
			}
			if fr := repoFrames(); fr != "" {
				msg += " in " + fr
			}
		}
	}()
	f()
	return ""
}

func init() { runtime.LockOSThread(); runtime.UnlockOSThread() }
