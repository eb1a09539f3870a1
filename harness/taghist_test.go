package vh

import (
	"math/rand"
	"sync"

	monkit "github.com/spacemonkeygo/monkit/v3"
)

func codes(s string) []any {
	out := make([]any, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = int(s[i])
	}
	return out
}

type tagHist struct {
	ev   []M
	sets []*monkit.TagSet
	keys []monkit.SeriesKey
	mu   *sync.Mutex
}

func newTagHist() *tagHist {
	return &tagHist{ev: []M{{"k": "h"}}, sets: []*monkit.TagSet{nil}}
}

func tagWord(r *rand.Rand) string {
	alpha := []string{"a", "b", "c", "A", ",", "=", " ", "\\", "\"", "\n", "\xff", "é", "\x00", ":"}
	n := r.Intn(4)
	if r.Intn(50) == 0 {
		n = r.Intn(80)
	}
	s := ""
	for ; n > 0; n-- {
		s += alpha[r.Intn(len(alpha))]
	}
	return s
}

func tagPick(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return []string{"a", "b", "ab", "a,", ""}[r.Intn(5)]
	}
	return tagWord(r)
}

func codePairs(tags []monkit.SeriesTag) []any {
	out := []any{}
	for _, t := range tags {
		out = append(out, []any{codes(t.Key), codes(t.Val)})
	}
	return out
}

func mapPairs(m map[string]string) []any {
	out := []any{}
	for k, v := range m {
		out = append(out, []any{codes(k), codes(v)})
	}
	return out
}

func (h *tagHist) lock() {
	if h.mu != nil {
		h.mu.Lock()
	}
}
func (h *tagHist) unlock() {
	if h.mu != nil {
		h.mu.Unlock()
	}
}

func (h *tagHist) add(ev M) {
	ev["k"] = "op"
	h.lock()
	h.ev = append(h.ev, ev)
	h.unlock()
}

func (h *tagHist) addSet(ev M, s *monkit.TagSet) {
	h.lock()
	ev["id"] = len(h.sets)
	ev["k"] = "op"
	h.sets = append(h.sets, s)
	h.ev = append(h.ev, ev)
	h.unlock()
}

func (h *tagHist) addKey(ev M, k monkit.SeriesKey) {
	h.lock()
	ev["id"] = len(h.keys) + 1
	ev["k"] = "op"
	h.keys = append(h.keys, k)
	h.ev = append(h.ev, ev)
	h.unlock()
}

func (h *tagHist) derive(r *rand.Rand) {
	h.lock()
	of := r.Intn(len(h.sets))
	if r.Intn(3) == 0 {
		of = len(h.sets) - 1
	}
	s := h.sets[of]
	nk := len(h.keys)
	h.unlock()
	switch r.Intn(7) {
	case 0:
		k, v := tagPick(r), tagWord(r)
		h.addSet(M{"o": "set", "of": of, "tags": codePairs([]monkit.SeriesTag{{Key: k, Val: v}})}, s.Set(k, v))
	case 1:
		var tags []monkit.SeriesTag
		n := r.Intn(4)
		if r.Intn(40) == 0 {
			n = 10 + r.Intn(30)
		}
		for ; n > 0; n-- {
			tags = append(tags, monkit.NewSeriesTag(tagPick(r), tagWord(r)))
		}
		ev := M{"o": "settags", "of": of, "tags": codePairs(tags)}
		set := s.SetTags(tags...)
		for i := range tags {
			tags[i] = monkit.NewSeriesTag("changed", "later")
		}
		h.addSet(ev, set)
	case 2:
		kvs := map[string]string{}
		many := r.Intn(4)
		if r.Intn(40) == 0 {
			many = 10 + r.Intn(30)
		}
		for ; many > 0; many-- {
			kvs[tagPick(r)] = tagWord(r)
		}
		if len(kvs) == 0 && r.Intn(2) == 0 {
			kvs = nil
		}
		ev := M{"o": "setall", "of": of, "tags": mapPairs(kvs)}
		n := s.SetAll(kvs)
		if kvs != nil {
			kvs["changed"] = "later"
			for k := range kvs {
				kvs[k] = "x"
			}
		}
		h.addSet(ev, n)
	case 3:
		m := tagWord(r)
		h.addKey(M{"o": "key", "m": codes(m)}, monkit.NewSeriesKey(m))
	case 4:
		m := tagWord(r)
		h.addKey(M{"o": "ktags", "m": codes(m), "of": of}, monkit.SeriesKey{Measurement: m, Tags: s})
	default:
		if nk == 0 {
			return
		}
		i := r.Intn(nk)
		h.lock()
		k := h.keys[i]
		h.unlock()
		if r.Intn(2) == 0 {
			a, b := tagPick(r), tagWord(r)
			h.addKey(M{"o": "with", "of": i + 1, "tags": codePairs([]monkit.SeriesTag{{Key: a, Val: b}})}, k.WithTag(a, b))
			return
		}
		var tags []monkit.SeriesTag
		n := r.Intn(4)
		if r.Intn(40) == 0 {
			n = 10 + r.Intn(30)
		}
		for ; n > 0; n-- {
			tags = append(tags, monkit.NewSeriesTag(tagPick(r), tagWord(r)))
		}
		ev := M{"o": "withs", "of": i + 1, "tags": codePairs(tags)}
		set := k.WithTags(tags...)
		for i := range tags {
			tags[i].Val = "changed"
		}
		h.addKey(ev, set)
	}
}

func (h *tagHist) readSet(of, how int, r *rand.Rand) {
	h.lock()
	s := h.sets[of]
	h.unlock()
	switch how {
	case 0:
		h.add(M{"o": "str", "of": of, "got": codes(s.String())})
	case 1:
		h.add(M{"o": "all", "of": of, "got": mapPairs(s.All()), "len": s.Len()})
	default:
		k := tagPick(r)
		h.add(M{"o": "get", "of": of, "key": codes(k), "got": codes(s.Get(k))})
	}
}

func (h *tagHist) readKey(i, how int, r *rand.Rand) {
	h.lock()
	k := h.keys[i]
	h.unlock()
	switch how {
	case 0:
		h.add(M{"o": "kstr", "of": i + 1, "got": codes(k.String())})
	case 1:
		f := tagWord(r)
		h.add(M{"o": "kfield", "of": i + 1, "f": codes(f), "got": codes(k.WithField(f))})
	default:
		h.add(M{"o": "kall", "of": i + 1, "m": codes(k.Measurement), "got": mapPairs(k.Tags.All())})
	}
}

func (h *tagHist) read(r *rand.Rand) {
	h.lock()
	ns, nk := len(h.sets), len(h.keys)
	h.unlock()
	if nk == 0 || r.Intn(2) == 0 {
		h.readSet(r.Intn(ns), r.Intn(3), r)
	} else {
		h.readKey(r.Intn(nk), r.Intn(3), r)
	}
}

func (h *tagHist) collect(r *rand.Rand) {
	if len(h.keys) == 0 {
		return
	}
	rows := []any{}
	type row struct {
		key int
		f   string
		v   int
	}
	var rs []row
	for n := r.Intn(6); n > 0; n-- {
		x := row{r.Intn(len(h.keys)), tagPick(r), r.Intn(100)}
		rs = append(rs, x)
		rows = append(rows, M{"key": x.key + 1, "f": codes(x.f), "v": x.v})
	}
	got := []any{}
	for k, v := range monkit.Collect(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
		for _, x := range rs {
			cb(h.keys[x.key], x.f, float64(x.v))
		}
	})) {
		got = append(got, []any{codes(k), int(v)})
	}
	h.add(M{"o": "collect", "rows": rows, "got": got})
}

func (h *tagHist) finish(r *rand.Rand) {
	for i := range h.sets {
		h.readSet(i, 0, r)
		h.readSet(i, 1, r)
	}
	for i := range h.keys {
		h.readKey(i, 0, r)
		h.readKey(i, 2, r)
	}
}

func genTags(r *rand.Rand, hist *Hist) *Prog {
	h := newTagHist()
	p := &Prog{}
	p.RawPre = func() {
		for n := 1 + r.Intn(4); n > 0; n-- {
			h.derive(r)
		}
	}
	for i := 2 + r.Intn(2); i > 0; i-- {
		r := rand.New(rand.NewSource(r.Int63()))
		p.RawThreads = append(p.RawThreads, func() {
			for j := 1 + r.Intn(3); j > 0; j-- {
				if r.Intn(3) == 0 {
					h.derive(r)
				} else {
					h.read(r)
				}
			}
		})
	}
	p.RawFinal = func() {
		h.finish(r)
	}
	p.Post = func() { hist.Ev = append(append([]M{}, h.ev...), hist.Ev...) }
	return p
}

func init() {
	reg("tags.seq", func(d *Drv) {
		for i := 0; i < d.N && !d.Over(); i++ {
			h := newTagHist()
			msg := try(func() {
				for n := 3 + d.R.Intn(20); n > 0; n-- {
					switch d.R.Intn(5) {
					case 0, 1:
						h.read(d.R)
					case 2:
						if d.R.Intn(3) == 0 {
							h.collect(d.R)
						}
					default:
						h.derive(d.R)
					}
				}
				h.finish(d.R)
			})
			if msg != "" {
				h.ev = append(h.ev, M{"k": "x", "why": msg})
			}
			d.Emit(M{}, h.ev)
		}
	})
	reg("tags.conc", concDriver(genTags, 16, 4, 300))
	reg("tags.race", func(d *Drv) {
		for i := 0; i < d.N && !d.Over(); i++ {
			h := newTagHist()
			for j := 0; j < 6; j++ {
				h.derive(d.R)
			}
			// unsynchronised use of what exists, and then the same as recorded reads
			sets, keys := h.sets, h.keys
			hammer(6, func(g int, r *rand.Rand) {
				for k := 0; k < 10; k++ {
					s := sets[r.Intn(len(sets))]
					_ = s.String()
					_ = s.Set("a", "b").String()
					_ = s.All()
					_ = s.SetTags(monkit.NewSeriesTag("x", "y")).Len()
					if len(keys) > 0 {
						_ = keys[r.Intn(len(keys))].WithTag("q", "w").String()
						_ = keys[r.Intn(len(keys))].WithField("f")
					}
				}
			}, d)
			h.finish(d.R)
			d.Emit(M{}, h.ev)
		}
	})
}
