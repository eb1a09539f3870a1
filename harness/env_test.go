package vh

import (
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/environment"
)

// The environment sources. Collections happen only when the driver asks for them.

type envRow struct {
	name, field string
	val         float64
}

func envRows(src monkit.StatSource) (rows []envRow) {
	src.Stats(func(key monkit.SeriesKey, field string, val float64) {
		rows = append(rows, envRow{key.Measurement, field, val})
	})
	return rows
}

// envGet returns every value reported for a field.
func envGet(rows []envRow, name, field string, scale float64) []any {
	out := []any{}
	for _, r := range rows {
		if r.name == name && r.field == field {
			v := math.Round(r.val * scale)
			if math.IsNaN(v) || math.Abs(v) > 2e9 {
				v = -777
			}
			out = append(out, int64(v))
		}
	}
	return out
}

func gcShown(rows []envRow) []any {
	out := envGet(rows, "runtime_gcstats", "count", 1)
	if len(out) != 1 {
		return []any{-1, len(out)}
	}
	for _, f := range []string{"sum", "min", "max", "recent"} {
		v := envGet(rows, "runtime_gcstats", f, 1e9)
		if out[0] == int64(0) && len(v) == 0 {
			v = []any{0}
		}
		out = append(out, v...)
	}
	return out
}

// crc32 of the running binary, in two halves
func halves(v uint32) []any { return []any{int(v >> 16), int(v & 0xffff)} }

func selfCRC() []any {
	fh, err := os.Open("/proc/self/exe")
	if err != nil {
		return []any{}
	}
	defer fh.Close()
	c := crc32.NewIEEE()
	if _, err := io.Copy(c, fh); err != nil {
		return []any{}
	}
	return halves(c.Sum32())
}

func shownCRC(rows []envRow) []any {
	out := []any{}
	for _, r := range rows {
		if r.name == "process" && r.field == "crc" {
			out = append(out, halves(uint32(r.val))...)
		}
	}
	return out
}

func gcNow() (n int64, pause int64) {
	var s debug.GCStats
	debug.ReadGCStats(&s)
	if len(s.Pause) > 0 {
		pause = int64(s.Pause[0])
	}
	return s.NumGC, pause
}

var ownCRC []any

func envHead() M {
	if ownCRC == nil {
		ownCRC = selfCRC()
	}
	n, p := gcNow()
	return M{"k": "h", "gc": n, "pause": p, "crc": ownCRC}
}

type envObj struct{ srcs []monkit.StatSource }

func newEnvObj() *envObj {
	o := &envObj{}
	for i := 0; i < 3; i++ {
		o.srcs = append(o.srcs, environment.Runtime())
	}
	return o
}

func (o *envObj) op(kind string, i int) Op {
	switch kind {
	case "gc":
		return Op{Subs: []M{{"o": "gc"}}, Got: true, Run: func() []any {
			runtime.GC()
			_, p := gcNow()
			return []any{[]any{p}}
		}}
	case "rt":
		return Op{Subs: []M{{"o": "numgc?"}, {"o": "gcs", "src": i + 1}}, Ord: true, Run: func() []any {
			rows := envRows(o.srcs[i])
			return []any{envGet(rows, "runtime_memstats", "NumGC", 1), gcShown(rows)}
		}}
	default:
		return Op{Subs: []M{{"o": "control?"}, {"o": "crc?"}, {"o": "up"}}, Ord: false, Got: true, Run: func() []any {
			rows := envRows(environment.Process())
			up := envGet(rows, "process", "uptime", 1e6)
			if len(up) != 1 {
				up = []any{-1}
			}
			return []any{envGet(rows, "process", "control", 1), shownCRC(rows), up}
		}}
	}
}

func genEnv(r *rand.Rand, h *Hist) *Prog {
	o := newEnvObj()
	p := &Prog{Head: envHead()}
	if r.Intn(2) == 0 {
		p.Pre = append(p.Pre, o.op("rt", 0))
	}
	gcs := r.Intn(2)
	for i := 2 + r.Intn(2); i > 0; i-- {
		var ops []Op
		for j := 1 + r.Intn(2); j > 0; j-- {
			switch x := r.Intn(8); {
			case x < 1+gcs:
				ops = append(ops, o.op("gc", 0))
			case x < 4:
				ops = append(ops, o.op("proc", 0))
			default:
				ops = append(ops, o.op("rt", r.Intn(5)/4))
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Final = []Op{o.op("rt", 0), o.op("rt", 1), o.op("gc", 0), o.op("rt", 0), o.op("rt", 2), o.op("proc", 0)}
	return p
}

func settleGoroutines() {
	last, same := 0, 0
	for i := 0; i < 2000 && same < 8; i++ {
		nap := syscall.Timespec{Nsec: 50e3}
		_ = syscall.Nanosleep(&nap, nil)
		if n := runtime.NumGoroutine(); n == last {
			same++
		} else {
			last, same = n, 0
		}
	}
}

func countFDs() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(es)
}

// the fields of /proc/self/stat and /proc/self/statm that stay as they are
// (=), those that only grow (<), and those that come and go (~)
var procFields = map[string]map[string]struct {
	at  int
	how string
}{
	"stat": {"Pid": {0, "="}, "Ppid": {3, "="}, "Pgrp": {4, "="}, "Session": {5, "="}, "TtyNr": {6, "="}, "Minflt": {9, "<"}, "Cminflt": {10, "<"},
		"Majflt": {11, "<"}, "Cmajflt": {12, "<"}, "Utime": {13, "<"}, "Stime": {14, "<"}, "Cutime": {15, "<"}, "Cstime": {16, "<"}, "Priority": {17, "="},
		"Nice": {18, "="}, "Starttime": {21, "="}, "Rsslim": {24, "="}, "Startcode": {25, "="}, "Endcode": {26, "="}, "Startstack": {27, "="},
		"ExitSignal": {37, "="}, "Tpgid": {7, "="}, "Itrealvalue": {20, "="}, "RtPriority": {39, "="}, "Policy": {40, "="}, "Sigignore": {32, "="}, "Sigcatch": {33, "="},
		"Vsize": {22, "~"}, "Rss": {23, "~"}, "NumThreads": {19, "~"}},
	"statm": {"Text": {3, "="}, "Lib": {4, "="}, "Dt": {6, "="}, "Size": {0, "~"}, "Resident": {1, "~"}, "Share": {2, "~"}, "Data": {5, "~"}},
}

func procNow(what string) map[string]float64 {
	data, err := os.ReadFile("/proc/self/" + what)
	if err != nil {
		return nil
	}
	f := strings.Fields(string(data))
	if what == "stat" && strings.Contains(string(data), " (") {
		// the command's name may contain anything
		i := strings.LastIndex(string(data), ")")
		f = append([]string{f[0], "comm"}, strings.Fields(string(data)[i+1:])...)
	}
	out := map[string]float64{}
	for name, d := range procFields[what] {
		if d.at < len(f) {
			if v, err := strconv.ParseFloat(f[d.at], 64); err == nil {
				out[name] = v
			}
		}
	}
	return out
}

func memNow() map[string]float64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return map[string]float64{"TotalAlloc": float64(m.TotalAlloc), "Mallocs": float64(m.Mallocs), "Frees": float64(m.Frees),
		"NumGC": float64(m.NumGC), "NumForcedGC": float64(m.NumForcedGC), "PauseTotalNs": float64(m.PauseTotalNs), "LastGC": float64(m.LastGC)}
}

func envClamp(v float64) int {
	switch {
	case v > 1e9:
		return 1e9
	case v < -1e9:
		return -1e9
	}
	return int(v)
}

// envNumbers reads a source between two readings of the real numbers.
func envNumbers(what string) M {
	name, src, now := "proc_"+what, environment.Proc(), func() map[string]float64 { return procNow(what) }
	if what == "mem" {
		name, src, now = "runtime_memstats", environment.Runtime(), memNow
	}
	a := now()
	rows := envRows(src)
	b := now()
	got := map[string][]float64{}
	for _, r := range rows {
		if r.name == name {
			got[r.field] = append(got[r.field], r.val)
		}
	}
	same, grows := []any{}, []any{}
	for f, lo := range a {
		v := got[f]
		if len(v) != 1 {
			same = append(same, []any{f, "once", strconv.Itoa(len(v)) + " times"})
			continue
		}
		if what != "mem" && procFields[what][f].how == "~" {
			// comes and goes, but not by much
			if lo > 0 && b[f] > 0 && (v[0] < math.Min(lo, b[f])/3 || v[0] > math.Max(lo, b[f])*3) {
				same = append(same, []any{f, fmt.Sprint("about ", lo), fmt.Sprint(v[0])})
			}
		} else if what != "mem" && procFields[what][f].how == "=" {
			if lo == b[f] {
				same = append(same, []any{f, strconv.FormatFloat(lo, 'g', -1, 64), strconv.FormatFloat(v[0], 'g', -1, 64)})
			}
		} else {
			grows = append(grows, []any{f, envClamp(b[f] - lo), envClamp(v[0] - lo)})
		}
	}
	return M{"k": "op", "o": "numbers", "what": what, "same": same, "grows": grows}
}

var envStart = time.Now()

func init() {
	reg("env.conc", func(d *Drv) {
		debug.SetGCPercent(-1)
		concDriver(genEnv, 24, 4, 400)(d)
	})
	reg("env.seq", func(d *Drv) {
		debug.SetGCPercent(-1)
		countFDs()
		for i := 0; i < d.N && !d.Over(); i++ {
			if i%d.Shards != d.Shard {
				continue
			}
			envSeq(d)
		}
	})
	reg("env.race", func(d *Drv) {
		debug.SetGCPercent(-1)
		for i := 0; i < d.N && !d.Over(); i++ {
			o := newEnvObj()
			if i%4 == 3 {
				// through the registry, whose runtime source everyone shares
				g := monkit.NewRegistry()
				environment.Register(g)
				o.srcs[0] = g
			}
			head := envHead()
			before := gcShown(envRows(o.srcs[0]))[0]
			gcs := 0
			counts := make([][]any, 5)
			crcs := make([][]any, 5)
			hammer(5, func(g int, r *rand.Rand) {
				for k := 0; k < 12; k++ {
					if g == 0 && k%3 == 1 {
						runtime.GC()
						gcs++
					}
					counts[g] = append(counts[g], gcShown(envRows(o.srcs[0]))[0])
					crcs[g] = shownCRC(envRows(environment.Process()))
				}
			}, d)
			final := gcShown(envRows(o.srcs[0]))[0]
			d.Emit(M{"i": i}, []M{head, {"k": "op", "o": "hammer", "before": before, "final": final, "gcs": gcs, "counts": counts, "crcs": crcs}})
		}
	})
}

// how often the environment was registered with the default registry
var envDefaults int

func envSeq(d *Drv) {
	r := d.R
	o := newEnvObj()
	g := monkit.NewRegistry()
	evs := []M{envHead()}
	dflt := r.Intn(5) == 0 // the default registry, which every history shares
	var all monkit.StatSource = g
	evs[0]["regs"] = 0
	if dflt {
		g, all = nil, monkit.StatSourceFunc(monkit.Stats)
		evs[0]["regs"] = envDefaults
	}
	var files []*os.File
	stop := make(chan bool)
	defer func() {
		close(stop)
		for _, f := range files {
			f.Close()
		}
	}()
	do := func(op Op) {
		var res []any
		if msg := try(func() { res = op.Run() }); msg != "" {
			evs = append(evs, M{"k": "x", "why": msg})
			return
		}
		for i := range op.Subs {
			op.Subs[i]["got"] = res[i]
		}
		evs = append(evs, M{"k": "env", "subs": op.Subs})
	}
	rt, osrc, psrc, rsrc := environment.Runtime(), environment.OS(), environment.Proc(), environment.Rusage()
	for j := 6 + r.Intn(14); j > 0; j-- {
		switch r.Intn(17) {
		case 16:
			// the process's name may be anything
			name := []string{"a b", "x) R 1", "((", "a\nb c", ") S 2 3", "plain", "  ", "\t(1) 9"}[r.Intn(8)]
			if os.WriteFile("/proc/self/comm", []byte(name), 0) == nil {
				evs = append(evs, M{"k": "op", "o": "renamed", "name": strconv.Quote(name)}, envNumbers("stat"))
			}
		case 13, 14, 15:
			evs = append(evs, envNumbers([]string{"stat", "statm", "mem"}[r.Intn(3)]))
		case 0, 1:
			for k := 1 + r.Intn(3); k > 0; k-- {
				do(o.op("gc", 0))
			}
		case 2, 3, 4:
			do(o.op("rt", r.Intn(3)))
		case 5:
			do(o.op("proc", 0))
		case 6:
			for k := r.Intn(9); k > 0; k-- {
				go func() { <-stop }()
			}
			// the runtime's own count is off while goroutines are ending, so
			// wait for those of earlier runs
			var lo, hi int
			var res []any
			for try := 0; try < 3; try++ {
				settleGoroutines()
				lo = runtime.NumGoroutine()
				res = envGet(envRows(rt), "goroutines", "count", 1)
				if hi = runtime.NumGoroutine(); hi < lo {
					lo, hi = hi, lo
				}
				if lo == hi && len(res) == 1 && res[0] == int64(lo) {
					break
				}
			}
			evs = append(evs, M{"k": "op", "o": "goroutines", "lo": lo, "hi": hi, "res": res})
		case 7:
			for k := r.Intn(4); k > 0; k-- {
				if f, err := os.Open("/dev/null"); err == nil {
					files = append(files, f)
				}
			}
			if len(files) > 0 && r.Intn(3) == 0 {
				files[0].Close()
				files = files[1:]
			}
			a := countFDs()
			res := envGet(envRows(osrc), "fds", "count", 1)
			if a > 0 && a == countFDs() {
				evs = append(evs, M{"k": "op", "o": "fds", "want": a, "res": res})
			}
		case 8:
			rows := envRows(psrc)
			res := append(envGet(rows, "proc_stat", "Pid", 1), envGet(rows, "proc_stat", "Ppid", 1)...)
			evs = append(evs, M{"k": "op", "o": "proc", "want": []any{os.Getpid(), os.Getppid()}, "res": res})
		case 9:
			rows := envRows(rsrc)
			res := envGet(rows, "rusage", "Maxrss", 1)
			if len(res) == 1 {
				res = []any{1, res[0]}
			} else {
				res = []any{len(res), 0}
			}
			evs = append(evs, M{"k": "op", "o": "rusage", "least": 1000, "res": res})
		case 10:
			environment.Register(g)
			if dflt {
				envDefaults++
			}
			evs = append(evs, M{"k": "op", "o": "register"})
		case 11:
			names := []any{}
			prev := ""
			seen := map[string]bool{}
			for _, row := range envRows(all) {
				// a source starts again when its first field comes round again
				if k := row.name + "\x00" + row.field; row.name != prev || seen[k] {
					names = append(names, row.name)
					seen = map[string]bool{}
				}
				prev = row.name
				seen[row.name+"\x00"+row.field] = true
			}
			evs = append(evs, M{"k": "op", "o": "registered", "names": names})
		case 12:
			if r.Intn(4) == 0 {
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			}
			call := time.Since(envStart).Microseconds()
			up := envGet(envRows(environment.Process()), "process", "uptime", 1e6)
			ret := time.Since(envStart).Microseconds()
			if len(up) != 1 {
				up = []any{-999999}
			}
			evs = append(evs, M{"k": "op", "o": "clock", "call": call, "ret": ret, "up": up[0]})
		}
	}
	d.Emit(M{"pid": strconv.Itoa(os.Getpid())}, evs)
}
