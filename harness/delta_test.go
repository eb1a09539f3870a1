package vh

import (
	"fmt"
	"math"
	"strings"

	monkit "github.com/spacemonkeygo/monkit/v3"
)

// Delta transformers over long sequences of reports, through a bare callback, a
// transformed source, a registry view, and copies of equal keys. A row is one effect;
// what came out between it and the next is its result.

var deltaSeqKeys = func() []monkit.SeriesKey {
	ks := append([]monkit.SeriesKey{}, deltaKeys...)
	return append(ks,
		monkit.NewSeriesKey("a").WithTag("u", "2").WithTag("t", "9"),
		monkit.NewSeriesKey("a").WithTag("t", "9"),
		monkit.NewSeriesKey("a").WithTag("t", ""),
		monkit.NewSeriesKey("a").WithTag("", "t"),
		monkit.NewSeriesKey("a t"),
		monkit.NewSeriesKey("a=t"),
		monkit.NewSeriesKey("a").WithTag("t=1", ""),
		monkit.NewSeriesKey("a").WithTag("T", "1"),
		monkit.NewSeriesKey("a total"),
		monkit.NewSeriesKey(`a" map["t":"1"`),
		// these two render alike
		monkit.NewSeriesKey("b").WithTag(`t\`, `u=v`),
		monkit.NewSeriesKey("b").WithTag(`t=u\`, `v`),
	)
}()

type deltaRow struct {
	key   int
	field string
	v     int
}

func deltaSeq(d *Drv) {
	r := d.R
	scale := []float64{1, 0.125, 1 << 40}[r.Intn(3)]
	dts := []*monkit.DeltaTransformer{monkit.NewDeltaTransformer(), monkit.NewDeltaTransformer(), monkit.NewDeltaTransformer()}
	deltaSeqKeys := deltaSeqKeys
	nkeys, njs, nrows := 2+r.Intn(5), 3+r.Intn(9), 4
	if r.Intn(40) == 0 {
		// many series
		deltaSeqKeys = append([]monkit.SeriesKey{}, deltaSeqKeys...)
		for i := 0; i < 100; i++ {
			k := monkit.NewSeriesKey("m"+strings.Repeat("x", i%7)).WithTag("i", fmt.Sprint(i))
			for j := 0; j < i%5; j++ {
				k = k.WithTag(fmt.Sprint("t", j), strings.Repeat("v", i%11))
			}
			deltaSeqKeys = append(deltaSeqKeys, k)
		}
		nkeys, njs, nrows = len(deltaSeqKeys), 10+r.Intn(20), 20
	}
	keys := r.Perm(len(deltaSeqKeys))[:nkeys]
	if r.Intn(8) == 0 {
		for i, k := range deltaSeqKeys {
			if k.Measurement == "b" && len(k.Tags.All()) == 1 {
				keys[i%2] = i
			}
		}
	}
	scoped := map[int]bool{}
	num := func(v float64) any {
		if math.IsNaN(v) {
			return "NaN"
		}
		return int64(math.Round(v / scale))
	}
	h := &Hist{}
	h.Add(M{"k": "h"})
	for j := njs; j > 0; j-- {
		dt := r.Intn(5) / 2
		how := r.Intn(3)
		var rows []deltaRow
		var subs []M
		for k := 1 + r.Intn(nrows); k > 0; k-- {
			row := deltaRow{keys[r.Intn(len(keys))], "total", r.Intn(2000) - 300}
			if r.Intn(5) == 0 {
				row.field = []string{"delta", "rate", "Total", "", "total ", "totals"}[r.Intn(6)]
			}
			rows = append(rows, row)
			id := row.key
			if how == 2 { // the view adds the scope to every key
				id += 1000
			}
			sub := M{"o": "total", "d": dt, "key": id, "v": row.v}
			if row.field != "total" {
				sub["o"], sub["field"] = "other", row.field
			}
			subs = append(subs, sub)
		}
		scoped[how] = true
		h.Do(0, Op{Subs: subs, Ord: true, Run: func() []any {
			var res []any
			out := []any{}
			cur := -1
			flush := func() {
				if cur >= 0 {
					res = append(res, out)
				} else if len(out) > 0 {
					out = append(out, "early")
				}
				out = []any{}
			}
			sink := func(k monkit.SeriesKey, f string, val float64) {
				if cur < 0 {
					out = append(out, []any{"early", 0})
					return
				}
				want := deltaSeqKeys[rows[cur].key]
				if how == 2 {
					want = want.WithTag("scope", "sc")
				}
				if k.Measurement != want.Measurement || fmt.Sprintf("%q", k.Tags.All()) != fmt.Sprintf("%q", want.Tags.All()) {
					f = "otherkey"
				}
				out = append(out, []any{f, num(val)})
			}
			src := monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
				for i, row := range rows {
					flush()
					cur = i
					k := deltaSeqKeys[row.key]
					if r.Intn(2) == 0 { // equal content, different object
						all := k.Tags.All()
						k = monkit.NewSeriesKey(k.Measurement)
						for a, b := range all {
							k = k.WithTag(a, b)
						}
					}
					cb(k, row.field, float64(row.v)*scale)
				}
			})
			switch how {
			case 0:
				cb := dts[dt].Transform(sink)
				src(cb)
			case 1:
				monkit.TransformStatSource(src, dts[dt]).Stats(sink)
			default:
				g := monkit.NewRegistry()
				g.ScopeNamed("sc").Chain(src)
				g.WithTransformers(dts[dt]).Stats(sink)
			}
			flush()
			for len(res) < len(rows) {
				res = append(res, []any{})
			}
			return res
		}})
	}
	d.Emit(M{"scale": scale}, h.Ev)
}

func init() {
	reg("delta.seq", func(d *Drv) {
		for i := 0; i < d.N && !d.Over(); i++ {
			if i%d.Shards == d.Shard {
				deltaSeq(d)
			}
		}
	})
}
