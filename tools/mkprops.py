#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "Every monitored call is counted exactly once, with its duration",
 "For every monitored function, the current count equals the number of its calls that have started and not yet ended, and every ended call adds exactly one to exactly one of: successes, the count of its error's name, or panics. Its duration is recorded exactly once, in the success times if it succeeded and in the failure times otherwise, and a stats report always satisfies total = successes + errors + panics. This holds however many calls run concurrently and whichever way a call is started.",
 ["schedules", "histories"], "every history of starts and ends (plain, reset-trace, remote-trace, unparented and stand-alone observations; ok / error / panic outcomes), every interleaving of concurrent calls and readers",
 "No existing test asserts any function statistic; TestLateObserver only counts observer calls on one goroutine.",
 ["ctx.go", "funcstats.go", "func.go"],
 [("one start/end pair per span", "ctx.go:newSpan"), ("outcome classification under one lock", "funcstats.go:end"), ("snapshot under one lock", "funcstats.go:Stats")],
 ["Func.Current/Success/Errors/Panics/SuccessTimes/FailureTimes", "FuncStats.Stats"],
 [("current, errors, panics, successTimes, failureTimes", "per-function accounting", "funcstats.go")])
prop("C02", "Highwater is exactly the peak number of concurrent calls",
 "A monitored function's highwater is the largest value its current count has reached since construction or since its statistics were reset: it never decreases otherwise, never exceeds the real peak of overlapping calls, and is never below the current count once a start has returned. Resetting statistics while calls are running leaves the current count exact and restarts the highwater from it.",
 ["schedules", "histories"], "every interleaving of starts, ends and reads, and every history with resets",
 "No test reads Highwater; the lost-update window between increment and publication needs a specific interleaving.",
 ["funcstats.go"], [("compare-and-swap maximum", "funcstats.go:start"), ("reset", "funcstats.go:Reset")],
 ["Func.Highwater", "FuncStats.Stats"], [("current/highwater", "running count and its peak", "funcstats.go")])
prop("C03", "Listing live spans shows exactly the running spans, once each",
 "Whenever no start or end is in progress, walking the live spans of a registry reports every running span exactly once, below its running parent or else at top level, and reports no span that has ended; a trace's span count equals the number of its running spans. A listing taken while spans start and end never contains a span that had already ended before it began and never omits a span that was running throughout, with all its ancestors up to top level. Nothing is left behind once all spans have ended.",
 ["schedules", "histories"], "every tree shape, every end order and every interleaving of starts, ends and listings",
 "Existing tests list root spans once, on one goroutine, with properly nested ends.",
 ["ctx.go", "span.go", "spanbag.go", "registry.go", "trace.go"],
 [("child bag under span lock", "span.go:addChild/removeChild"), ("root set", "registry.go:rootSpanStart/rootSpanEnd")],
 ["Registry.RootSpans", "Registry.AllSpans", "Span.Children", "Trace.Spans"])
prop("C04", "A span that outlives its parent becomes an orphan until it ends",
 "A span whose parent ends while it is running, or that is started under an already ended parent, is marked orphaned and listed at top level from the time that end (or start) returns until the span itself ends, and is then removed. A span that ends no later than its parent is never marked orphaned.",
 ["schedules", "histories"], "every interleaving of a parent's end with its children's starts and ends",
 "No test creates an orphan; the protocol has two parties (the ending parent and the starting or ending child) racing on two locks.",
 ["ctx.go", "span.go", "registry.go"], [("done flag and orphan marking under span lock", "span.go:addChild/orphan, ctx.go exit closure"), ("orphan set", "registry.go:orphanedSpan/orphanEnd")],
 ["Span.Orphaned", "Registry.RootSpans"])
prop("C05", "The context decides a new span's trace and parent",
 "A task started with a context carrying a span joins that span's trace as its child; with a context carrying none (nil, plain, or detached) it starts a new trace as a root. Starting with a reset trace always gives a fresh trace and no parent, and a remote trace gives exactly the supplied trace and parent id and no local parent. Span, trace and function ids are unique within the process, and the caller's context variable is replaced by one carrying the new span.",
 ["inputs", "histories", "schedules"], "every way of deriving contexts (nesting, values, cancellation, detaching, observers that wrap) and of starting a span",
 "Existing tests use two or three fixed nestings; none derives contexts, detaches them, or combines them with remote or reset traces.",
 ["ctx.go", "span.go", "id.go"], [("parent and trace selection", "ctx.go:newSpan"), ("context detaching", "ctx.go:resetContext"), ("id sequence", "id.go:NewId")],
 ["SpanFromCtx", "Span.ParentId", "Span.Trace", "Span.Id", "Registry.RootSpans"])
prop("C06", "Monitoring never changes what the monitored code does",
 "Ending a monitored call re-raises a panic with the identical value and otherwise returns normally, leaving the caller's error untouched; it never swallows a panic and never invents one. The context a task hands back behaves as the one it was given (values, cancellation, deadline) apart from the span it carries, and every observer is told the same error, panic status and finish time.",
 ["inputs", "histories"], "every outcome (ok, error, nil error pointer, panic with any value), with and without observers, nested panics, every context",
 "No test panics through a task or compares contexts.",
 ["ctx.go", "span.go", "funcstats.go"], [("recover and re-panic", "ctx.go exit closure, funcstats.go:Observe"), ("context delegation", "span.go:Value")],
 ["exit function returned by tasks and Observe", "context.Context methods of the span"])
prop("C07", "Span observers see every span of their trace while registered",
 "An observer registered on a trace is told exactly once of the start, and exactly once of the finish, of every span of that trace that starts (respectively finishes) while it is registered, and of no start or finish that was over before registration began or that began after cancellation returned. Registering or cancelling one observer, at any moment and in any order, never affects another. A context returned by an observer on start is the one the task and all later observers see.",
 ["schedules", "histories"], "every interleaving of registrations, cancellations, span starts and finishes on one trace",
 "TestLateObserver registers one observer and never cancels; the list is lock-free on one side and locked on the other.",
 ["trace.go", "ctx.go", "cas_unsafe.go", "cas_safe.go"], [("lock-free observer list", "trace.go:ObserveSpansCtx/removeObserverFrom"), ("notification walk", "ctx.go:spanObserverTuple")],
 ["SpanObserver.Start/Finish", "SpanCtxObserver.Start/Finish", "cancel function"])
prop("C08", "Trace observers see every new trace while registered",
 "A registered trace observer is called exactly once for each trace that starts (including each trace reset or joined remotely) while it is registered, before that trace's first span is reported to span observers, and for no trace that starts after its cancellation has returned. Observers registered at the same time do not affect each other, in whatever order they come and go.",
 ["schedules", "histories"], "every history and interleaving of registrations, cancellations and new traces",
 "One test registers one callback on one goroutine and never cancels it.",
 ["registry.go", "ctx.go", "cas_unsafe.go", "cas_safe.go"], [("watcher snapshot pointer", "registry.go:updateWatcher/observeTrace"), ("notification before first span", "ctx.go:newSpan/ResetTrace/RemoteTrace")],
 ["ObserveTraces callback and cancel"])
prop("C09", "A span collection is the finished subtree of its trigger, exactly",
 "A collection begins with the first span that matches (or is forced), ignores every other trace, and is complete as soon as the trigger span finishes: it then holds the trigger and every span of the trace that finished in between and is connected to the trigger through spans that also finished, once each, with its own error, panic status and finish time. The done signal is given exactly once, on completion or stop, and nothing is added afterwards; cancelling or finishing a watch leaves no observer behind.",
 ["schedules", "histories"], "every span tree, finish order, choice of trigger, moment of stop or cancellation, and interleaving of finishing spans",
 "Package collect has no tests at all.",
 ["collect/collect.go", "collect/ctx.go", "collect/trace.go"], [("trigger cell", "collect/collect.go:Start/ForceStart/Stop"), ("append under lock, gated on completion", "collect/collect.go:Finish"), ("registration on present and future traces", "collect/trace.go")],
 ["SpanCollector.Done/Spans", "WatchForSpans", "CollectSpans", "FindSpan", "ObserveAllTraces"])
prop("C10", "One metric object per scope, name and tag list, and never two",
 "Asking a scope for a metric or function by name and tags returns the same object every time, however many goroutines ask at once, and different names or tag lists always get different objects. Asking for an existing name as another kind of metric panics and changes nothing. Asking a registry for a scope by name likewise always yields the same scope, and everything registered stays listed. A function or scope asked for without a name is that of the calling function or package.",
 ["schedules", "inputs", "histories"], "every name and tag list (including separators), every kind of metric, every interleaving of first lookups",
 "No test looks a metric up twice or concurrently, nor uses names containing separator characters.",
 ["scope.go", "registry.go"], [("double-checked registration", "scope.go:newSource"), ("source naming", "scope.go:sourceName"), ("scope table", "registry.go:ScopeNamed")],
 ["Scope.Counter/Meter/IntVal/FloatVal/BoolVal/StructVal/DurationVal/Timer/FuncNamed/Gauge/DiffMeter", "Registry.ScopeNamed/Scopes/Funcs"])
prop("C11", "Counters are atomic and remember exact extremes",
 "Every counter operation takes effect atomically and returns exactly what its contract says: an increment or decrement the new value, a set the former value, a reset the triple it cleared. High and low are the extremes of the values taken since construction or the last reset, starting from the first value taken, and a stats report shows one consistent moment (NaN extremes when empty).",
 ["schedules", "histories", "inputs"], "every sequence and interleaving of increments, decrements, sets, resets and reads, with any deltas",
 "Counters have no tests.", ["counter.go"], [("mutex-protected update", "counter.go:set/Inc/Set/Reset")],
 ["Counter methods", "Counter.Stats"])
prop("C12", "Meters lose no event and rate over the right window",
 "A meter's total is its base total plus every amount marked, unaffected by the passage of time; resetting makes the total exactly the given value. Its rate is the amount marked in the retained window divided by that window's age, where the window drops its oldest slice only on a periodic tick that follows new events. A difference meter reports exactly the difference of its two meters.",
 ["histories", "schedules", "inputs"], "every sequence of marks, resets, totals and elapsed ticks (more than a full window), and every interleaving of marks with a tick",
 "Meters have no tests, and a tick takes ten minutes of real time.", ["meter.go", "monotime/monotime.go"],
 [("ring of slices, fold on tick", "meter.go:tick"), ("single-lock snapshot", "meter.go:stats"), ("ticker", "meter.go:ticker")],
 ["Meter.Total/Rate/Stats", "DiffMeter.Stats"])
prop("C13", "Value summaries are exact, and quantiles are of real observations",
 "For int, float, duration and boolean values and timers, the count, sum, minimum, maximum and most recent value are exactly those of the observations made since construction or reset, whatever the concurrency; stopping a timer twice counts once. Quantiles interpolate a sorted sample of the observations (held in single precision): all of them while no more than the reservoir size (64) has been observed; beyond that a sample that keeps being renewed, each observation in it at most once, so that quantiles are monotone and lie within the observed range. An empty or reset summary reports no stale value, and a copy is independent of its original.",
 ["histories", "inputs", "schedules"], "every sequence of observations, resets, copies and queries, before, at and beyond reservoir size; every interleaving of observers and readers",
 "No test exercises any distribution.", ["intdist.go", "floatdist.go", "durdist.go", "distgen.go.m4", "dist.go", "val.go", "timer.go"],
 [("insert", "intdist.go:Insert"), ("reservoir", "intdist.go:Query/Reset/Copy"), ("locking wrappers", "val.go, timer.go")],
 ["IntDist/FloatDist/DurationDist fields and Query", "IntVal/FloatVal/DurationVal/BoolVal/Timer Stats"])
prop("C14", "A stats report contains every registered source exactly once",
 "A registry's stats report visits every scope and every source registered in it (metrics, functions, the last gauge given for a name, and every chained source) exactly once, in the order of scope names, each series carrying its own tags plus its scope's name. Struct sources report every numeric and boolean field, nested and through non-nil pointers, except ignored ones, without failing on nil pointers. Transformers given to a registry view or source are applied to every value in that view only.",
 ["histories", "inputs", "configurations"], "every set of scopes, sources, gauges, chains, struct shapes and transformer stacks",
 "One test checks one struct; none checks a registry or scope report.", ["registry.go", "scope.go", "stats.go", "struct.go", "transform.go", "val.go"],
 [("source enumeration", "scope.go:Stats"), ("transformer composition", "registry.go:Stats, transform.go:TransformStatSource"), ("reflection walk", "struct.go")],
 ["Registry.Stats", "Scope.Stats", "Collect", "StructVal.Stats", "WithTransformers"])
prop("C15", "Tag sets are immutable and render canonically",
 "No operation ever changes an existing tag set or series key: setting tags yields a new one holding the old tags overlaid with the new ones, later duplicates winning. Rendering depends only on the content: tags sorted by key, with commas, equals signs and spaces escaped (commas and spaces in measurements), independent of how the set was built, of earlier renderings and of concurrent use.",
 ["inputs", "histories", "schedules"], "every tag content, every derivation order and sharing, concurrent rendering",
 "The existing fuzz test checks content only, on one goroutine, and never renders twice or checks escaping.", ["tags.go", "stats.go"],
 [("copy on write", "tags.go:SetTags/SetAll"), ("rendering and its cache", "tags.go:String/writeTags/writeTag")],
 ["TagSet.Get/All/Len/String", "SeriesKey.String/WithField/WithTag/WithTags"])
prop("C16", "Errors are named by the documented precedence",
 "An error's name is the answer of the most recently added handler that claims it, else the error's own name if it names itself, else the built-in name for its kind, else the generic name. A handler, once its registration has returned, is consulted for every later failure, no registration is ever lost, and handlers may themselves use monitored functions without blocking.",
 ["inputs", "histories", "schedules"], "every stack of handlers, every kind of error, concurrent registrations and failures",
 "Error names have no tests.", ["error_names.go", "error_names_net.go", "error_names_syscall.go", "funcstats.go"],
 [("copy-on-append handler list", "error_names.go:AddErrorNameHandler"), ("precedence chain", "error_names.go:getErrorName")],
 ["Func.Errors", "AddErrorNameHandler"])
prop("C17", "Trace identity and sampling survive an HTTP hop",
 "Whatever trace information is written to request headers is read back unchanged on the other side: trace id, parent id, sampled flag and allowed baggage, or sampling alone when there is no trace; malformed trace headers yield no trace information. A traced handler runs under the caller's trace and parent with the sampled flag set accordingly, admits only allowed baggage, passes on the full task context, and records the status code the handler set (200 if none); only sampled traces are propagated by a traced client.",
 ["inputs", "configurations"], "every trace and parent id (full 64-bit range), flag, baggage set, allow-list, malformed header, and multi-hop chain",
 "Existing tests use three small ids and one hop.", ["http/info.go", "http/client.go", "http/server.go", "http/http.go"],
 [("header encode/decode", "http/info.go:SetHeader/TraceInfoFromHeader"), ("client", "http/client.go"), ("server", "http/server.go")],
 ["TraceInfoFromHeader", "TraceInfo.SetHeader", "TraceRequest", "TraceHandler", "Wrap"])
prop("C18", "Presented reports are well formed and agree with the registry",
 "Every supported path yields a complete, well-formed document that lists exactly the registry's live spans (with parent, trace, orphan flag, arguments and annotations), functions (with counts, errors, callers) or stats, whatever characters, values or durations they contain, including non-finite numbers and spans of zero length or of months. Finished spans are listed and drawn likewise, each on its own place. If the document cannot be written, that error is returned. Unknown paths are reported as not found and invalid queries as bad requests.",
 ["inputs", "histories"], "every registry content and every request path and query",
 "Package present has no tests.", ["present/path.go", "present/json.go", "present/spans.go", "present/funcs.go", "present/stats.go", "present/trace.go", "present/dot.go", "present/http.go"],
 [("routing", "present/path.go:FromRequest"), ("list writer", "present/json.go"), ("renderers", "present/spans.go, funcs.go, stats.go, trace.go")],
 ["HTTP handler", "FromRequest", "SpansJSON/Text/Dot", "FuncsJSON/Text/Dot", "StatsJSON/Text", "SpansToSVG/SpansToJSON"])
prop("C19", "The call graph records exactly the callers seen",
 "A monitored function's callers are exactly the distinct functions of the parent spans under which it has been started, plus an entry marker if and only if it has been started without a local parent, each listed once. A caller is listed once the start has returned, under any concurrency, and is never lost or invented.",
 ["schedules", "histories"], "every set and order of callers, every interleaving of first calls from different callers",
 "No test reads callers; the set has a lock-free fast path.", ["funcset.go", "funcstats.go", "ctx.go", "cas_unsafe.go", "cas_safe.go"],
 [("single-element fast path plus locked map", "funcset.go:Add/Iterate")], ["Func.Parents"])
prop("C20", "Span annotations and trace values are never lost or torn",
 "Annotations added to a span are all kept, in the order added, and a list already handed out never changes. A trace's key/value store behaves as one atomic map: a read returns the last value set before it, and a bulk read is an independent snapshot of one moment.",
 ["schedules", "histories"], "every interleaving of writers and readers", "No test writes or reads annotations or trace values concurrently.",
 ["span.go", "trace.go"], [("append and copy under span lock", "span.go:Annotate/Annotations"), ("map under trace lock", "trace.go:Get/Set/GetAll")],
 ["Span.Annotate/Annotations", "Trace.Set/Get/GetAll"])
prop("C21", "Delta reporting telescopes exactly, per series and per output",
 "A delta transformer passes every value through unchanged and, for each series' total after the first seen, adds one delta equal to the difference from the previous total of that very series, so the deltas of a series always sum to its last total minus its first. Series differing in any tag or measurement, and different transformers, never mix.",
 ["histories", "inputs", "schedules"], "every sequence of reports over any set of series, including decreases, and concurrent reports",
 "Transformers have no tests.", ["transform.go", "stats.go", "tags.go"], [("last totals table", "transform.go:DeltaTransformer")],
 ["DeltaTransformer.Transform", "TransformStatSource", "Registry.WithTransformers"])
prop("C22", "A trace query waits for, reports, and releases exactly one match",
 "A trace query answers with the trace of the first span, started after the query, that satisfies all its selectors (name expression, preselected or not, and hexadecimal trace id), and with nothing else; until then it only sends keep-alives. When the trigger finishes, or the keep-alive cannot be written, the query ends (with that error) and stops observing; invalid selectors are refused.",
 ["histories", "inputs", "fault_sequences"], "every selector combination, every order of matching and non-matching spans before and after the query, write failures at any keep-alive",
 "No test issues a trace query; keep-alives take 30 s of real time.", ["present/path.go", "present/trace.go", "present/utils.go", "collect/ctx.go"],
 [("selector construction", "present/path.go:FromRequest"), ("keep-alive", "present/utils.go:keepAlive"), ("watch", "collect/ctx.go")],
 ["/trace/json", "/trace/svg", "/trace/remote", "TraceQueryJSON", "TraceQuerySVG"])
prop("C23", "Environment sources report each garbage collection at most once",
 "However often and however concurrently stats are read, each garbage-collection pause summary gains exactly one observation, the newest collection's pause, when a collection has completed since it was last read, and none otherwise, so no collection is observed twice. The environment sources always report the process control value once, the binary's checksum, the same every time, and the uptime, which never decreases and follows the clock; the numbers of goroutines and open descriptors and the process figures they report are the real ones, and each registered source is reported once per registration.",
 ["histories", "schedules"], "every sequence and interleaving of collections and stats reads",
 "Environment tests only open two files.", ["environment/runtime.go", "environment/process.go"],
 [("last collection seen", "environment/runtime.go"), ("checksum cache", "environment/process.go")],
 ["environment.Runtime().Stats", "environment.Process().Stats", "environment.Register"])
prop("C24", "Callbacks may use monkit freely",
 "Whatever calls the user's code (listings of spans, scopes, functions and callers, reports, gauges and other sources, transformers, span and trace observers, collection matchers, writers of presented documents) holds nothing meanwhile: from inside a callback every monkit operation, on the same objects too and nested to any depth, completes and takes effect exactly as it would outside. The interrupted call then goes on: it hands over everything that was there throughout exactly once, and nothing twice or that never was there.",
 ["histories", "inputs"], "every nesting of operations inside callbacks",
 "No test's callback uses monkit.", ["registry.go", "scope.go", "span.go", "trace.go", "val.go", "timer.go", "counter.go", "meter.go", "funcstats.go", "funcset.go", "transform.go", "collect/collect.go", "present/stats.go", "present/spans.go", "present/funcs.go"],
 [("copy under the lock, call back after it", "registry.go:RootSpans/Scopes, scope.go:Stats/Funcs, span.go:Children, funcset.go:Iterate, val.go, timer.go"), ("observer list walked without a lock", "trace.go:getObserver"), ("watcher snapshot", "registry.go:observeTrace")],
 ["every method that takes a callback"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
