From d7f0dd432e53cf130c5290ae6cc428af6c2fdebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:37 +0000
Subject: [PATCH 01/21] fix: write trace and parent ids to the traceparent
 header as unsigned hex

Negative ids were written as "-<hex>", which the receiving side splits at
the dash and rejects.
---
 http/info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/info.go b/http/info.go
index 58c4e95..ec192db 100644
--- a/http/info.go
+++ b/http/info.go
@@ -153,7 +153,7 @@ func (r TraceInfo) SetHeader(header HeaderSetter) {
 		sampled = traceSampled
 	}
 	if r.TraceId != nil && r.ParentId != nil {
-		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", *r.TraceId, *r.ParentId, int(sampled)))
+		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", uint64(*r.TraceId), uint64(*r.ParentId), int(sampled)))
 	} else if r.Sampled {
 		header.Set(traceStateHeader, orphanSampling)
 	}
-- 
2.43.0


From 62711c4338125c1e9e8300d1c0a1d2b2d648806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:39 +0000
Subject: [PATCH 02/21] fix: pass the full task context to traced http handlers

The bare span was passed on, dropping whatever span observers had added to
the context.
---
 http/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index 861304d..f257889 100644
--- a/http/server.go
+++ b/http/server.go
@@ -66,7 +66,7 @@ func (t traceHandler) ServeHTTP(writer http.ResponseWriter, request *http.Reques
 		writer.Header().Set(traceIDHeader, fmt.Sprintf("%x", s.Trace().Id()))
 		writer.Header().Set(childIDHeader, fmt.Sprintf("%x", s.Id()))
 	}
-	t.handler.ServeHTTP(wrapped, request.WithContext(s))
+	t.handler.ServeHTTP(wrapped, request.WithContext(ctx))
 
 	s.Annotate("http.responsecode", fmt.Sprint(statusCode()))
 }
-- 
2.43.0


From 7249dcdba2e1daf4b210a0777be355bea2d6c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:41 +0000
Subject: [PATCH 03/21] fix: CollectSpans stops observing the trace when it
 returns

---
 collect/ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect/ctx.go b/collect/ctx.go
index ae58acc..1fbe60b 100644
--- a/collect/ctx.go
+++ b/collect/ctx.go
@@ -58,7 +58,7 @@ func CollectSpans(ctx context.Context, work func(ctx context.Context)) (
 	}
 	collector := NewSpanCollector(nil)
 	defer collector.Stop()
-	s.Trace().ObserveSpans(collector)
+	defer s.Trace().ObserveSpans(collector)()
 	f := s.Func()
 	newF := f.Scope().FuncNamed(fmt.Sprintf("%s-TRACED", f.ShortName()))
 	func() {
-- 
2.43.0


From 16c08131050ca937a709e5de9865f45af242f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:43 +0000
Subject: [PATCH 04/21] fix: StatsJSON reports non-finite values as null
 instead of aborting

An empty Counter reports NaN for high and low, which encoding/json refuses,
so the document was cut off in the middle.
---
 present/stats.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/present/stats.go b/present/stats.go
index e9e315a..f48a876 100644
--- a/present/stats.go
+++ b/present/stats.go
@@ -17,6 +17,7 @@ package present
 import (
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -41,7 +42,16 @@ func StatsText(r *monkit.Registry, w io.Writer) (err error) {
 func StatsJSON(r *monkit.Registry, w io.Writer) (err error) {
 	lw := newListWriter(w)
 	r.Stats(func(key monkit.SeriesKey, field string, val float64) {
-		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, val})
+		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, jsonNumber(val)})
 	})
 	return lw.done()
 }
+
+// jsonNumber returns val in a form encoding/json accepts. JSON has no
+// representation for NaN or infinities, so those become null.
+func jsonNumber(val float64) interface{} {
+	if math.IsNaN(val) || math.IsInf(val, 0) {
+		return nil
+	}
+	return val
+}
-- 
2.43.0


From 2e383070685ae9a2955920e2c96f18b6d97228d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:44 +0000
Subject: [PATCH 05/21] fix: count each garbage collection pause at most once

lastNumGC was never updated, so every stats read added the latest pause
again, and concurrent reads raced on the distribution.
---
 environment/runtime.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/environment/runtime.go b/environment/runtime.go
index 4b6dfe4..8dd8cf7 100644
--- a/environment/runtime.go
+++ b/environment/runtime.go
@@ -20,6 +20,7 @@ package environment
 import (
 	"runtime"
 	"runtime/debug"
+	"sync"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -31,6 +32,7 @@ import (
 func Runtime() monkit.StatSource {
 	durDist := monkit.NewDurationDist(monkit.NewSeriesKey("runtime_gcstats"))
 	lastNumGC := int64(0)
+	var mtx sync.Mutex // protects durDist and lastNumGC
 
 	return monkit.StatSourceFunc(func(cb func(key monkit.SeriesKey, field string, val float64)) {
 		cb(monkit.NewSeriesKey("goroutines"), "count", float64(runtime.NumGoroutine()))
@@ -42,12 +44,16 @@ func Runtime() monkit.StatSource {
 		}
 
 		{
+			mtx.Lock()
 			var stats debug.GCStats
 			debug.ReadGCStats(&stats)
 			if lastNumGC != stats.NumGC && len(stats.Pause) > 0 {
 				durDist.Insert(stats.Pause[0])
+				lastNumGC = stats.NumGC
 			}
-			durDist.Stats(cb)
+			gcStats := durDist.Copy()
+			mtx.Unlock()
+			gcStats.Stats(cb)
 		}
 	})
 }
-- 
2.43.0


From 5890d8371622cf8f2f336c805c354d63fe76a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:47 +0000
Subject: [PATCH 06/21] fix: struct stats skip nil pointers instead of
 panicking

---
 struct.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 241b715..142f030 100644
--- a/struct.go
+++ b/struct.go
@@ -32,6 +32,9 @@ func (emptyStatSource) Stats(cb func(key SeriesKey, field string, val float64))
 // across all float64-castable and bool-castable fields of the struct.
 func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	val := deref(reflect.ValueOf(structData))
+	if !val.IsValid() {
+		return emptyStatSource{}
+	}
 
 	typ := val.Type()
 	if typ.Kind() != reflect.Struct {
@@ -42,6 +45,9 @@ func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	nextField:
 		for i := 0; i < typ.NumField(); i++ {
 			field := deref(val.Field(i))
+			if !field.IsValid() {
+				continue
+			}
 			field_type := field.Type()
 
 			parts := strings.Split(typ.Field(i).Tag.Get("monkit"), ",")
@@ -70,9 +76,10 @@ func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	})
 }
 
-// if val is a pointer, deref until it isn't
+// if val is a pointer, deref until it isn't. a nil pointer yields the zero
+// (invalid) Value.
 func deref(val reflect.Value) reflect.Value {
-	for val.Type().Kind() == reflect.Ptr {
+	for val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
 	return val
-- 
2.43.0


From 23cd12b5485d704e17191acd1d66b909a0d7cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:49 +0000
Subject: [PATCH 07/21] fix: make the cached string form of a TagSet safe for
 concurrent use

---
 tags.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tags.go b/tags.go
index d52bcaf..3f2650f 100644
--- a/tags.go
+++ b/tags.go
@@ -17,6 +17,7 @@ package monkit
 import (
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 // SeriesTag is a key/value pair. When used with a measurement name, each set
@@ -33,7 +34,7 @@ func NewSeriesTag(key, val string) SeriesTag {
 // TagSet is an immutible collection of tag, value pairs.
 type TagSet struct {
 	all map[string]string
-	str string // cached string form
+	str atomic.Value // cached string form (string)
 }
 
 // Get returns the value associated with the key.
@@ -99,12 +100,14 @@ func (t *TagSet) String() string {
 	if t == nil {
 		return ""
 	}
-	if t.str == "" {
-		var builder strings.Builder
-		t.writeTags(&builder)
-		t.str = builder.String()
+	if str, ok := t.str.Load().(string); ok {
+		return str
 	}
-	return t.str
+	var builder strings.Builder
+	t.writeTags(&builder)
+	str := builder.String()
+	t.str.Store(str)
+	return str
 }
 
 // writeTags writes the tags in the tag set to the builder.
-- 
2.43.0


From 4163ee264190008e713764c4febf7067ab05a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:51 +0000
Subject: [PATCH 08/21] fix: never share a metric between different names or
 tags

Names and tags containing separator characters could produce the same table
key, giving two different series one object (or a spurious panic).
---
 scope.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/scope.go b/scope.go
index fba109d..0ac1e0e 100644
--- a/scope.go
+++ b/scope.go
@@ -67,6 +67,9 @@ func (s *Scope) newSource(name string, constructor func() StatSource) (
 	return ss
 }
 
+// sourceName returns the key of a source in the scope's table. Separators that
+// occur within a component are escaped, so different combinations of namespace,
+// name, and tags never share a key.
 func sourceName(namespace, name string, tags []SeriesTag) string {
 	var sourceNameSize int
 	sourceNameSize += len(namespace) + len(name) + len(tags)*2
@@ -76,16 +79,30 @@ func sourceName(namespace, name string, tags []SeriesTag) string {
 	var sourceName strings.Builder
 	sourceName.Grow(sourceNameSize)
 	sourceName.WriteString(namespace)
-	sourceName.WriteString(name)
+	writeSourceNamePart(&sourceName, name)
 	for _, tag := range tags {
 		sourceName.WriteByte(',')
-		sourceName.WriteString(tag.Key)
+		writeSourceNamePart(&sourceName, tag.Key)
 		sourceName.WriteByte('=')
-		sourceName.WriteString(tag.Val)
+		writeSourceNamePart(&sourceName, tag.Val)
 	}
 	return sourceName.String()
 }
 
+func writeSourceNamePart(builder *strings.Builder, part string) {
+	if !strings.ContainsAny(part, `\:,=`) {
+		builder.WriteString(part)
+		return
+	}
+	for i := 0; i < len(part); i++ {
+		switch part[i] {
+		case '\\', ':', ',', '=':
+			builder.WriteByte('\\')
+		}
+		builder.WriteByte(part[i])
+	}
+}
+
 // FuncNamed retrieves or creates a Func named using the given name and
 // SeriesTags. See Func() for automatic name determination.
 //
@@ -268,14 +285,15 @@ func (s *Scope) Gauge(name string, cb func() float64) {
 	s.mtx.Lock()
 	defer s.mtx.Unlock()
 
-	if source, exists := s.sources[name]; exists {
+	key := sourceName("", name, nil)
+	if source, exists := s.sources[key]; exists {
 		if _, ok := source.(gauge); !ok {
 			panic(fmt.Sprintf("%s already used for another stats source: %#v",
 				name, source))
 		}
 	}
 
-	s.sources[name] = gauge{StatSource: StatSourceFunc(
+	s.sources[key] = gauge{StatSource: StatSourceFunc(
 		func(scb func(key SeriesKey, field string, value float64)) {
 			scb(NewSeriesKey(name), "value", cb())
 		}),
-- 
2.43.0


From 32a85fc61e7216c9383d976a14abc855e5409286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:54 +0000
Subject: [PATCH 09/21] fix: quantiles of a reset distribution no longer report
 a stale value

---
 distgen.go.m4 | 3 +++
 durdist.go    | 3 +++
 floatdist.go  | 3 +++
 intdist.go    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 28e2889..c9840fa 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -129,6 +129,9 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 		rlen = int(d.Count)
 	}
 
+	if rlen == 0 {
+		return 0
+	}
 	if rlen < 2 {
 		return _TYPE_`(d.reservoir[0])'
 	}
diff --git a/durdist.go b/durdist.go
index 4d2a281..1d58109 100644
--- a/durdist.go
+++ b/durdist.go
@@ -129,6 +129,9 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 		rlen = int(d.Count)
 	}
 
+	if rlen == 0 {
+		return 0
+	}
 	if rlen < 2 {
 		return time.Duration(d.reservoir[0])
 	}
diff --git a/floatdist.go b/floatdist.go
index 359eaa6..9124399 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -128,6 +128,9 @@ func (d *FloatDist) Query(quantile float64) float64 {
 		rlen = int(d.Count)
 	}
 
+	if rlen == 0 {
+		return 0
+	}
 	if rlen < 2 {
 		return float64(d.reservoir[0])
 	}
diff --git a/intdist.go b/intdist.go
index 07817ac..c4a809e 100644
--- a/intdist.go
+++ b/intdist.go
@@ -128,6 +128,9 @@ func (d *IntDist) Query(quantile float64) int64 {
 		rlen = int(d.Count)
 	}
 
+	if rlen == 0 {
+		return 0
+	}
 	if rlen < 2 {
 		return int64(d.reservoir[0])
 	}
-- 
2.43.0


From 2de37c42d3fadd919aef75ad6817593d046847c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:56 +0000
Subject: [PATCH 10/21] fix: resetting FuncStats keeps running calls in the
 current count

Current was zeroed while calls were in flight and went negative once they
ended.
---
 funcstats.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/funcstats.go b/funcstats.go
index 0d24efc..6ec6ea1 100644
--- a/funcstats.go
+++ b/funcstats.go
@@ -61,10 +61,11 @@ func NewFuncStats(key SeriesKey) (f *FuncStats) {
 	return f
 }
 
-// Reset resets all recorded data.
+// Reset resets all recorded data. Calls that are still running stay counted in
+// Current, and Highwater starts over from there.
 func (f *FuncStats) Reset() {
-	atomic.StoreInt64(&f.current, 0)
 	atomic.StoreInt64(&f.highwater, 0)
+	f.raiseHighwater(atomic.LoadInt64(&f.current))
 	f.parentsAndMutex.Lock()
 	f.errors = make(map[string]int64, len(f.errors))
 	f.panics = 0
@@ -75,7 +76,10 @@ func (f *FuncStats) Reset() {
 
 func (f *FuncStats) start(parent *Func) {
 	f.parentsAndMutex.Add(parent)
-	current := atomic.AddInt64(&f.current, 1)
+	f.raiseHighwater(atomic.AddInt64(&f.current, 1))
+}
+
+func (f *FuncStats) raiseHighwater(current int64) {
 	for {
 		highwater := atomic.LoadInt64(&f.highwater)
 		if current <= highwater ||
-- 
2.43.0


From cd1e6dc4e6fb97bbe7e96e386ef33cb68ebb5d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:58 +0000
Subject: [PATCH 11/21] fix: call error name handlers without holding the
 FuncStats mutex

A handler that used the same monitored function deadlocked.
---
 funcstats.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/funcstats.go b/funcstats.go
index 6ec6ea1..adeaf3a 100644
--- a/funcstats.go
+++ b/funcstats.go
@@ -91,6 +91,12 @@ func (f *FuncStats) raiseHighwater(current int64) {
 
 func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 	atomic.AddInt64(&f.current, -1)
+	var errname string
+	if err != nil && !panicked {
+		// error name handlers are user code, so don't call them with the mutex
+		// held.
+		errname = getErrorName(err)
+	}
 	f.parentsAndMutex.Lock()
 	if panicked {
 		f.panics += 1
@@ -104,7 +110,7 @@ func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 		return
 	}
 	f.failureTimes.Insert(duration)
-	f.errors[getErrorName(err)] += 1
+	f.errors[errname] += 1
 	f.parentsAndMutex.Unlock()
 }
 
-- 
2.43.0


From e3ba642d7705e5ea4cbf9f8fb4cfacdde04a4c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:00 +0000
Subject: [PATCH 12/21] fix: SpansToSVG no longer divides by zero for spans of
 zero length

---
 present/trace.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index dcbc720..18b770c 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -270,8 +270,11 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 	graphHeight := (barHeight+barSep)*maxRow + 20
 
 	timeToX := func(t time.Time) int {
-		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) /
-			(maxEnd.UnixNano() - minStart.UnixNano()))
+		total := maxEnd.UnixNano() - minStart.UnixNano()
+		if total <= 0 {
+			return 0
+		}
+		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) / total)
 	}
 
 	max := func(x, y int) int {
-- 
2.43.0


From 70fc4f9b872d7e625f301ddbb55436bd0313317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:22 +0000
Subject: [PATCH 13/21] fix: DeltaTransformer never mixes different series

The rendered key it used does not escape backslashes, so two series could
share one last total.
---
 transform.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transform.go b/transform.go
index bab08c4..43b7b9a 100644
--- a/transform.go
+++ b/transform.go
@@ -15,6 +15,7 @@
 package monkit
 
 import (
+	"fmt"
 	"sync"
 )
 
@@ -65,7 +66,9 @@ func (dt *DeltaTransformer) Transform(cb func(SeriesKey, string, float64)) func(
 			return
 		}
 
-		mapIndex := key.WithField(field)
+		// not key.WithField, which can be the same for different series when
+		// they contain backslashes.
+		mapIndex := fmt.Sprintf("%q %q", key.Measurement, key.Tags.All())
 
 		dt.mtx.Lock()
 		lastTotal, found := dt.lastTotals[mapIndex]
-- 
2.43.0


From 3e3a320b4056fb571664694e925bf1313fb16237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:24 +0000
Subject: [PATCH 14/21] fix: send trace query keep-alives right away

They were held in the response buffer, so they neither kept the connection
alive nor noticed that the client had gone, and the query kept watching
forever.
---
 present/path.go  |  7 +++----
 present/trace.go |  3 +--
 present/utils.go | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/present/path.go b/present/path.go
index 29f7198..5dfa8af 100644
--- a/present/path.go
+++ b/present/path.go
@@ -91,12 +91,12 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 		// wrap all functions with buffering
 		unbuffered := f
 		f = func(w io.Writer) (err error) {
-			buf := bufio.NewWriter(w)
+			buf := bufferedWriter{Writer: bufio.NewWriter(w), w: w}
 			err = unbuffered(buf)
 			if err != nil {
 				return err
 			}
-			err = buf.Flush()
+			err = buf.Writer.Flush()
 			return err
 		}
 	}()
@@ -225,8 +225,7 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 				}
 
 				ctx, stop := keepAlive(context.TODO(), func(context.Context) error {
-					_, err := w.Write([]byte("\n"))
-					return err
+					return writeKeepalive(w, []byte("\n"))
 				})
 				defer stop()
 
diff --git a/present/trace.go b/present/trace.go
index 18b770c..f0a52ea 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -433,8 +433,7 @@ func watchForSpansWithKeepalive(ctx context.Context, reg *monkit.Registry, w io.
 	spans []*collect.FinishedSpan, writeErr error) {
 
 	ctx, stop := keepAlive(ctx, func(context.Context) error {
-		_, err := w.Write(keepalive)
-		return err
+		return writeKeepalive(w, keepalive)
 	})
 	defer stop()
 
diff --git a/present/utils.go b/present/utils.go
index a2d3d7d..5fb8a07 100644
--- a/present/utils.go
+++ b/present/utils.go
@@ -15,8 +15,11 @@
 package present
 
 import (
+	"bufio"
 	"context"
 	"fmt"
+	"io"
+	"net/http"
 	"sync"
 	"time"
 )
@@ -100,3 +103,35 @@ func catchPanics(cb func(context.Context) error) func(context.Context) error {
 		return cb(ctx)
 	}
 }
+
+// bufferedWriter buffers writes to w, and makes sure a flush makes it all the
+// way out if w buffers, too.
+type bufferedWriter struct {
+	*bufio.Writer
+	w io.Writer
+}
+
+func (b bufferedWriter) Flush() error {
+	if err := b.Writer.Flush(); err != nil {
+		return err
+	}
+	switch f := b.w.(type) {
+	case interface{ FlushError() error }:
+		return f.FlushError()
+	case http.Flusher:
+		f.Flush()
+	}
+	return nil
+}
+
+// writeKeepalive writes data to w right away, even if w is buffered. Otherwise
+// it would neither keep anything alive nor notice that w is broken.
+func writeKeepalive(w io.Writer, data []byte) error {
+	if _, err := w.Write(data); err != nil {
+		return err
+	}
+	if b, ok := w.(bufferedWriter); ok {
+		return b.Flush()
+	}
+	return nil
+}
-- 
2.43.0


From fe25275615efa29cd02bc1dbc503af97d9b003b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:25 +0000
Subject: [PATCH 15/21] fix: quotes in function names and arguments broke the
 tooltip scripts of SVG traces

---
 present/trace.go | 72 +++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index f0a52ea..52597b6 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -17,7 +17,9 @@ package present
 import (
 	"bytes"
 	"context"
+	"encoding/json"
 	"encoding/xml"
+	"fmt"
 	"io"
 	"strings"
 	"text/template"
@@ -130,7 +132,7 @@ var (
 `))
 
 	svgFunc = template.Must(template.New("func").Parse(`
-  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.FuncName}}({{.FuncArgs}}) Duration:{{.FuncDuration}} Started:{{.FuncStartDuration}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
+  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', {{.Tooltip}});" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
     <clipPath id="clip-{{.SpanId}}"><rect x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}"/></clipPath>
     <rect id="rect-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}" fill="{{.SpanColor}}"/>
     <text id="text-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.TextTop}}" fill="rgb(0,0,0)" font-size="{{.FontSize}}" clip-path="url(#clip-{{.SpanId}})">{{.FuncName}}({{.FuncArgs}}) ({{.FuncDuration}})</text>
@@ -306,40 +308,54 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 		}
 
 		templateVals := struct {
-			SpanId            int64
-			SpanLeft          int
-			SpanTop           int
-			SpanWidth         int
-			SpanHeight        int
-			SpanColor         string
-			TextTop           int
-			FontSize          int
-			FuncName          string
-			FuncArgs          string
-			FuncDuration      string
-			FuncStartDuration string
-			SpanMid           int
+			SpanId       int64
+			SpanLeft     int
+			SpanTop      int
+			SpanWidth    int
+			SpanHeight   int
+			SpanColor    string
+			TextTop      int
+			FontSize     int
+			FuncName     string
+			FuncArgs     string
+			FuncDuration string
+			Tooltip      string
+			SpanMid      int
 
 			ParentId   int64
 			ParentLeft int
 			ParentMid  int
 		}{
-			SpanId:            s.Span.Id(),
-			SpanLeft:          timeToX(s.Span.Start()),
-			SpanTop:           id * (barHeight + barSep),
-			SpanWidth:         max(timeToX(s.Finish)-timeToX(s.Span.Start()), 1),
-			SpanHeight:        barHeight,
-			SpanColor:         color,
-			TextTop:           (id+1)*(barHeight+barSep) - barSep - fontOffset,
-			FontSize:          fontSize,
-			FuncName:          s.Span.Func().FullName(),
-			FuncArgs:          strings.Join(s.Span.Args(), " "),
-			FuncDuration:      s.Finish.Sub(s.Span.Start()).String(),
-			FuncStartDuration: s.Span.Start().Sub(earliestTime).String(),
-			SpanMid:           id*(barHeight+barSep) + barHeight/2,
+			SpanId:       s.Span.Id(),
+			SpanLeft:     timeToX(s.Span.Start()),
+			SpanTop:      id * (barHeight + barSep),
+			SpanWidth:    max(timeToX(s.Finish)-timeToX(s.Span.Start()), 1),
+			SpanHeight:   barHeight,
+			SpanColor:    color,
+			TextTop:      (id+1)*(barHeight+barSep) - barSep - fontOffset,
+			FontSize:     fontSize,
+			FuncName:     s.Span.Func().FullName(),
+			FuncArgs:     strings.Join(s.Span.Args(), " "),
+			FuncDuration: s.Finish.Sub(s.Span.Start()).String(),
+			SpanMid:      id*(barHeight+barSep) + barHeight/2,
+		}
+
+		// the tooltip is a script string inside of an attribute
+		tooltip, err := json.Marshal(fmt.Sprintf("%s(%s) Duration:%s Started:%s",
+			templateVals.FuncName, templateVals.FuncArgs, templateVals.FuncDuration,
+			s.Span.Start().Sub(earliestTime)))
+		if err != nil {
+			return err
 		}
 
 		var buf bytes.Buffer
+		err = xml.EscapeText(&buf, tooltip)
+		if err != nil {
+			return err
+		}
+		templateVals.Tooltip = buf.String()
+
+		buf.Reset()
 		err = xml.EscapeText(&buf, []byte(templateVals.FuncName))
 		if err != nil {
 			return err
@@ -364,7 +380,7 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 			templateVals.ParentMid = barHeight/2 + row*(barHeight+barSep)
 		}
 
-		err := svgFunc.Execute(w, templateVals)
+		err = svgFunc.Execute(w, templateVals)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From b393b5b3432e14640ded106b09093e3bb90e17d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:26 +0000
Subject: [PATCH 16/21] fix: coordinates overflowed in SVG traces of more than
 89 days

---
 present/trace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/present/trace.go b/present/trace.go
index 52597b6..1b5b316 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -276,7 +276,8 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 		if total <= 0 {
 			return 0
 		}
-		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) / total)
+		// float64 because the product doesn't fit an int64 for traces of months
+		return int(float64(t.UnixNano()-minStart.UnixNano()) / float64(total) * graphWidth)
 	}
 
 	max := func(x, y int) int {
-- 
2.43.0


From a6fbe3fa9008070eb477b5a24f875609d004e713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:20 +0000
Subject: [PATCH 17/21] fix: FuncsText forgot an error from writing a
 function's parents

---
 present/funcs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/present/funcs.go b/present/funcs.go
index 131fb2f..9ccae75 100644
--- a/present/funcs.go
+++ b/present/funcs.go
@@ -153,6 +153,9 @@ func FuncsText(r *monkit.Registry, w io.Writer) (err error) {
 				}
 			}
 		})
+		if err != nil {
+			return
+		}
 		var err_out bytes.Buffer
 		total_errors := int64(0)
 		for errname, count := range f.Errors() {
-- 
2.43.0


From 3bd2d480f2f57f3b2fa9ed3f7a6cfbd4c5174088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:01 +0000
Subject: [PATCH 18/21] fix: trace drawings hid spans behind one another

A row of siblings was reused once the previous sibling and its own children had finished, although a deeper descendant may still be running: its bar was then drawn over, or under, that of the next sibling's descendants. A span's rows are now taken until its last descendant finishes.
---
 present/trace.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index 1b5b316..befd413 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -159,10 +159,6 @@ func computeSpanTree(spans []*collect.FinishedSpan) map[int64]*spanInformation {
 		}
 		out[id].Span = span
 
-		if span.Finish.After(out[id].LargestTime) {
-			out[id].LargestTime = span.Finish
-		}
-
 		if pid, ok := span.Span.ParentId(); ok {
 			out[id].Parent = pid
 
@@ -170,10 +166,15 @@ func computeSpanTree(spans []*collect.FinishedSpan) map[int64]*spanInformation {
 				out[pid] = new(spanInformation)
 			}
 			out[pid].Children = append(out[pid].Children, id)
-
-			if span.Finish.After(out[pid].LargestTime) {
-				out[pid].LargestTime = span.Finish
-			}
+		}
+	}
+	for _, span := range spans {
+		// a span's rows are taken until the last of its descendants finishes,
+		// which may outlive everything in between
+		si := out[span.Span.Id()]
+		for si != nil && span.Finish.After(si.LargestTime) {
+			si.LargestTime = span.Finish
+			si = out[si.Parent]
 		}
 	}
 	return out
-- 
2.43.0


From 83fa03777c130d65de6ab0724b4b30096af935fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:08 +0000
Subject: [PATCH 19/21] fix: asking for a name as another kind read the metric
 behind its lock

The panic message formatted the existing source with %#v, reading its fields (and maps) while other goroutines may be updating it.
---
 scope.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/scope.go b/scope.go
index 0ac1e0e..6a6dee2 100644
--- a/scope.go
+++ b/scope.go
@@ -115,7 +115,7 @@ func (s *Scope) FuncNamed(name string, tags ...SeriesTag) *Func {
 	})
 	f, ok := source.(*Func)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return f
@@ -143,7 +143,7 @@ func (s *Scope) Meter(name string, tags ...SeriesTag) *Meter {
 	})
 	m, ok := source.(*Meter)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -162,7 +162,7 @@ func (s *Scope) DiffMeter(name string, m1, m2 *Meter, tags ...SeriesTag) {
 		return NewDiffMeter(NewSeriesKey(name).WithTags(tags...), m1, m2)
 	})
 	if _, ok := source.(*DiffMeter); !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 }
@@ -174,7 +174,7 @@ func (s *Scope) IntVal(name string, tags ...SeriesTag) *IntVal {
 	})
 	m, ok := source.(*IntVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -193,7 +193,7 @@ func (s *Scope) FloatVal(name string, tags ...SeriesTag) *FloatVal {
 	})
 	m, ok := source.(*FloatVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -212,7 +212,7 @@ func (s *Scope) BoolVal(name string, tags ...SeriesTag) *BoolVal {
 	})
 	m, ok := source.(*BoolVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -231,7 +231,7 @@ func (s *Scope) StructVal(name string, tags ...SeriesTag) *StructVal {
 	})
 	m, ok := source.(*StructVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -244,7 +244,7 @@ func (s *Scope) DurationVal(name string, tags ...SeriesTag) *DurationVal {
 	})
 	m, ok := source.(*DurationVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -257,7 +257,7 @@ func (s *Scope) Timer(name string, tags ...SeriesTag) *Timer {
 	})
 	m, ok := source.(*Timer)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -270,7 +270,7 @@ func (s *Scope) Counter(name string, tags ...SeriesTag) *Counter {
 	})
 	m, ok := source.(*Counter)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -288,7 +288,7 @@ func (s *Scope) Gauge(name string, cb func() float64) {
 	key := sourceName("", name, nil)
 	if source, exists := s.sources[key]; exists {
 		if _, ok := source.(gauge); !ok {
-			panic(fmt.Sprintf("%s already used for another stats source: %#v",
+			panic(fmt.Sprintf("%s already used for another stats source: %T",
 				name, source))
 		}
 	}
-- 
2.43.0


From a6231ac297ae45524723668a308cde3e97260030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:20 +0000
Subject: [PATCH 20/21] fix: Package called from an inlined function gave the
 scope "unknown"

---
 callers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/callers.go b/callers.go
index e9cec27..2646af0 100644
--- a/callers.go
+++ b/callers.go
@@ -25,10 +25,10 @@ func callerPackage(frames int) string {
 		return "unknown"
 	}
 	frame, _ := runtime.CallersFrames(pc[:]).Next()
-	if frame.Func == nil {
+	if frame.Function == "" {
 		return "unknown"
 	}
-	slash_pieces := strings.Split(frame.Func.Name(), "/")
+	slash_pieces := strings.Split(frame.Function, "/")
 	dot_pieces := strings.SplitN(slash_pieces[len(slash_pieces)-1], ".", 2)
 	return strings.Join(slash_pieces[:len(slash_pieces)-1], "/") + "/" + dot_pieces[0]
 }
-- 
2.43.0


From 6fdfb0253e13506e600d081e7d7438eb7af82fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:50 +0000
Subject: [PATCH 21/21] fix: process statistics were missing for processes
 whose name contains a space

---
 environment/proc_linux.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/environment/proc_linux.go b/environment/proc_linux.go
index 25cdcaf..3f8e5b5 100644
--- a/environment/proc_linux.go
+++ b/environment/proc_linux.go
@@ -17,6 +17,7 @@ package environment
 import (
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -87,9 +88,17 @@ func readProcSelfStat(s *procSelfStat) error {
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Sscanf(string(data), "%d %s %c %d %d %d %d %d %d %d %d "+
+	// the command's name is in parentheses, but may itself contain spaces,
+	// line breaks and parentheses.
+	line := string(data)
+	start, end := strings.Index(line, "("), strings.LastIndex(line, ")")
+	if start < 0 || end < start {
+		return fmt.Errorf("unexpected /proc/self/stat: %q", line)
+	}
+	s.Comm = line[start : end+1]
+	_, err = fmt.Sscanf(line[:start]+line[end+1:], "%d %c %d %d %d %d %d %d %d %d "+
 		"%d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d "+
-		"%d %d %d %d %d %d %d %d %d %d", &s.Pid, &s.Comm, &s.State, &s.Ppid,
+		"%d %d %d %d %d %d %d %d %d %d", &s.Pid, &s.State, &s.Ppid,
 		&s.Pgrp, &s.Session, &s.TtyNr, &s.Tpgid, &s.Flags, &s.Minflt, &s.Cminflt,
 		&s.Majflt, &s.Cmajflt, &s.Utime, &s.Stime, &s.Cutime, &s.Cstime,
 		&s.Priority, &s.Nice, &s.NumThreads, &s.Itrealvalue, &s.Starttime,
-- 
2.43.0

