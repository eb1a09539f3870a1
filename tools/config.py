"""What each property's check runs. (quick, thorough) pairs."""

def lin(driver, obj, n, build="instr", **kw):
    return dict(driver=driver, build=build, n=n, spec="LinTrace", consts={"Object": '"%s"' % obj}, **kw)

PROPS = {}

PROPS["C11"] = dict(
    note="Every sequence of up to 3 (thorough: 4) updates and every explored interleaving of small concurrent programs (random, PCT and all schedules with at most two preemptions) is linearizable with respect to the Counter specification; data races are looked for with the race detector. Assumes Go's memory model and that rescheduling at statements and synchronisation operations covers what matters.",
    runs=[
        lin("counter.conc", "counter", (160, 6000), shards=(2, 8)),
        lin("counter.seq", "counter", (300, 5000), build="plain", opt=("", "deep")),
        lin("counter.race", "counter", (20, 400), build="race"),
        lin("counter.raceReset", "counter", (5, 100), build="race"),
    ],
    design=[],
)

def world(p, n=(3000, 100000)):
    return dict(driver="world", build="plain", n=n, shards=(1, 4), opt=p, spec="MonkitTrace", consts={"Prop": '"%s"' % p})

def spanconc(p, n=(60, 3000), **kw):
    return dict(dict(driver="span.conc." + p, build="instr", n=n, shards=(4, 8), spec="SpanConc", consts={"Prop": '"%s"' % p}), **kw)

for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C19", "C20"):
    PROPS[_p] = dict(note="", runs=[world(_p)])
for _p in ("C03", "C04", "C05", "C07", "C08", "C19"):
    PROPS[_p]["runs"].append(spanconc(_p))

PROPS["C01"]["runs"].append(lin("func.conc.C01", "func", (60, 3000), shards=(4, 8)))
PROPS["C02"]["runs"].append(lin("func.conc.C02", "func", (60, 3000), shards=(4, 8)))
PROPS["C20"]["runs"].append(lin("vals.conc", "vals", (60, 3000), shards=(4, 8)))
PROPS["C10"] = dict(note="", runs=[lin("scope.conc", "scope", (60, 3000), shards=(4, 8)),
    lin("scope.seq", "scope", (150, 5000), build="plain")])
PROPS["C12"] = dict(note="", runs=[lin("meter.conc", "meter", (36, 1500), shards=(4, 8)),
    lin("meter.seq", "meter", (150, 5000), build="plain")])
PROPS["C13"] = dict(note="", runs=[lin("val.conc", "val", (60, 3000), shards=(4, 8)),
    dict(driver="dist.seq", build="plain", n=(400, 20000), shards=(4, 8), spec="DistTrace", consts={})])
PROPS["C16"] = dict(note="", runs=[lin("errname.conc", "errname", (40, 600), shards=(8, 8)),
    dict(driver="errname.seq", build="plain", n=(400, 6000), shards=(4, 8), spec="ErrNamesTrace", consts={})])
PROPS["C21"] = dict(note="", runs=[lin("delta.conc", "delta", (60, 3000), shards=(4, 8)),
    lin("delta.seq", "delta", (800, 40000), build="plain", shards=(2, 8))])
PROPS["C09"] = dict(note="", runs=[dict(driver="collect.seq", build="plain", n=(1500, 40000), shards=(4, 8), spec="CollectTrace", consts={}),
    lin("collector.conc", "collector", (48, 2500), shards=(4, 8)), lin("find.conc", "tally", (24, 1500), shards=(4, 8)), spanconc("C09", (40, 2000))])

PROPS["C14"] = dict(note="", runs=[dict(driver="report.seq", build="plain", n=(340, 12000), shards=(4, 8), spec="ReportTrace", consts={}),
    lin("report.conc", "report", (60, 3000), shards=(4, 8))])
PROPS["C15"] = dict(note="", runs=[dict(driver="tags." + d, build=b, n=n, shards=(4, 8), spec="TagsTrace", consts={})
    for d, b, n in (("seq", "plain", (600, 30000)), ("conc", "instr", (40, 2000)), ("race", "race", (20, 1000)))])
PROPS["C17"] = dict(note="", runs=[dict(driver="hop.seq", build="plain", n=(500, 30000), shards=(4, 8), spec="HopTrace", consts={})])

PROPS["C18"] = dict(note="", runs=[dict(driver="present.seq", build="plain", n=(1600, 40000), shards=(4, 8), spec="PresentTrace", consts={})])
PROPS["C22"] = dict(note="", runs=[dict(driver="query.seq", build="plain", n=(800, 40000), shards=(4, 8), spec="QueryTrace", consts={}),
    dict(driver="query.seq", build="race", n=(120, 4000), shards=(2, 8), spec="QueryTrace", consts={}),
    dict(driver="query.burst", build="race", n=(300, 10000), spec="QueryTrace", consts={}),
    dict(driver="query.burst", build="plain", n=(1000, 30000), spec="QueryTrace", consts={})])
PROPS["C23"] = dict(note="", runs=[lin("env.conc", "env", (40, 1500), shards=(4, 8)),
    dict(driver="env.seq", build="plain", n=(400, 20000), shards=(2, 8), spec="EnvTrace", consts={}),
    dict(driver="env.race", build="race", n=(30, 1000), spec="EnvTrace", consts={})])

PROPS["C24"] = dict(note="", runs=[dict(driver="callback.seq", build="plain", n=(3000, 100000), shards=(4, 8), spec="CallbackTrace", consts={})])

# the variant without unsafe pointers
for _p in ("C07", "C08"):
    PROPS[_p]["runs"].append(spanconc(_p, (16, 1000), build="ae", shards=(2, 8)))
PROPS["C19"]["runs"].append(spanconc("C19", (16, 1000), build="ae", shards=(2, 8)))
PROPS["C09"]["runs"].append(lin("collector.conc", "collector", (12, 800), shards=(2, 8), build="ae"))

# unsynchronised use on all processors, under the race detector
for _p in ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C16", "C19", "C20", "C21"):
    PROPS[_p]["runs"].append(lin("hammer." + _p, "tally", (20, 1000), build="race"))

# the specification as a bounded state machine: the property is checked on it, and
# every transition of it becomes a program that is run on the real code
def _S(*x):
    return "{" + ", ".join('"%s"' % i for i in x) + "}"

_MC = dict(
    C01=dict(Kinds=_S("start", "end", "observe", "observed", "adv", "freset"), Outs=_S("ok", "err", "panic"), MaxSp=2, MaxSo=1, MaxNow=2, Depth=(5, 7)),
    C02=dict(Kinds=_S("start", "end", "observe", "observed", "freset"), MaxSp=3, MaxSo=2, Depth=(6, 8)),
    C03=dict(Kinds=_S("start", "end"), StartKinds=_S("task", "reset", "remote"), NF=1, MaxSp=4, MaxTr=2, Depth=(6, 7)),
    C04=dict(Kinds=_S("start", "end"), StartKinds=_S("task", "remote"), NF=1, MaxSp=(4, 5), MaxTr=2, Depth=(6, 8)),
    C05=dict(Kinds=_S("start", "end", "detach", "newtrace"), StartKinds=_S("task", "named", "reset", "remote"), Depth=(4, 5)),
    C06=dict(Kinds=_S("start", "end", "val", "withcancel", "deadline", "detach", "cancel"), NF=1, MaxSp=2, MaxCtx=5, Depth=(4, 6)),
    C07=dict(Kinds=_S("start", "end", "obs", "unobs", "newtrace"), StartKinds=_S("task", "remote"), NF=1, MaxSp=(2, 3), MaxObs=(2, 3), MaxTr=2, Depth=(6, 7)),
    C08=dict(Kinds=_S("start", "end", "watch", "unwatch", "newtrace", "auto"), StartKinds=_S("task", "reset", "remote"), NF=1, MaxWat=2, Depth=(5, 6)),
    C19=dict(Kinds=_S("start", "end", "observe", "freset", "detach"), StartKinds=_S("task", "named", "reset"), NF=(2, 3), MaxSp=4, MaxSo=1, Depth=(4, 5)),
    C20=dict(Kinds=_S("start", "end", "ann", "tset", "newtrace"), NF=1, MaxSp=2, MaxTr=2, Depth=(5, 6)),
)
for _p, _k in _MC.items():
    _c = dict(StartKinds=_S("task"), Outs=_S("ok"), NF=2, MaxSp=3, MaxTr=3, MaxCtx=5, MaxObs=0, MaxWat=0, MaxSo=0, MaxNow=0)
    _c.update(_k)
    _inv = "P" + _p[1:]
    PROPS[_p].setdefault("design", []).append(dict(module="MonkitMC", consts=dict(_c, Emit="FALSE"),
        **({"properties": [_inv]} if _p in ("C06", "C08", "C20") else {"invariants": [_inv]})))
    PROPS[_p]["generate"] = {"world": dict(module="MonkitMC", consts=dict(_c, Emit="TRUE"), view="World", max=(4000, 400000))}
    PROPS[_p]["runs"].append(dict(driver="world.gen", gen="world", build="plain", n=0, shards=(2, 8), opt=_p, spec="MonkitTrace", consts={"Prop": '"%s"' % _p}))

# the other specifications as bounded state machines, the property stated over their
# histories
def _D(p, module, inv, **kw):
    props = kw.pop("properties", ())
    PROPS[p].setdefault("design", []).append(dict(module=module, consts=kw, invariants=inv, properties=props))

for _p, _o, _d in (("C10", "scope", (4, 5)), ("C11", "counter", (4, 6)), ("C12", "meter", (5, 7)), ("C13", "val", (5, 7)),
                   ("C16", "errname", (5, 6)), ("C21", "delta", (4, 5))):
    _D(_p, "ObjMC", ["P" + _p[1:]], Object='"%s"' % _o, Depth=_d, Emit="FALSE", **({"MSlices": "<- FewSlices"} if _o == "meter" else {}))
_D("C09", "CollectMC", ["P09"], properties=["Stays"], Depth=(6, 7), MaxSp=(3, 4), MaxTr=2, Emit="FALSE")
PROPS["C09"]["generate"] = {"collect": dict(module="CollectMC", consts=dict(Depth=(7, 9), MaxSp=3, MaxTr=2, Emit="TRUE"), view="World", max=(6000, 200000))}
PROPS["C09"]["runs"].append(dict(driver="collect.gen", gen="collect", build="plain", n=0, shards=(2, 8), spec="CollectTrace", consts={}))
_D("C14", "ReportMC", ["P14"], Depth=(4, 5))
_D("C15", "TagsMC", ["P15"], properties=["Immutable"], Depth=(2, 3), Emit="FALSE")
_D("C17", "HopMC", ["P17", "OneTrace"], MaxHops=(2, 3))
_D("C18", "PresentMC", ["P18"], MaxSp=(3, 4))
_D("C22", "QueryMC", ["P22", "Marks"], Depth=(5, 6), MaxSp=3, MaxQ=2)
_D("C23", "EnvMC", ["P23"], Depth=(5, 6))
_D("C24", "CallbackMC", ["P24", "Free"], properties=["AllReturn"], Strategy='"snapshot"', MaxNest=(3, 4), MaxOps=(4, 6), Things="{2, 3, 4}")

_W = "Random sequential histories of the real registry, each operation with its full observable result, are replayed by TLC through the Monkit specification and must be exactly what it allows; the property is checked on that specification as a bounded state machine, every transition of which is also run on the real code as a program"
_C = "; concurrent histories under a controlled scheduler (random, PCT and all schedules with at most two preemptions of small programs) are judged by a specification of what every overlap may show"
_L = "; concurrent histories under a controlled scheduler (random, PCT and all schedules with at most two preemptions of small programs) must be linearizable with respect to the sequential specification"
_A = ". Bounded: program sizes and number of histories; assumes Go's memory model and that rescheduling at statements and synchronisation operations covers what matters."
for _p, _n in dict(C01=_W + _L, C02=_W + _L, C03=_W + _C, C04=_W + _C, C05=_W + _C, C06=_W, C07=_W + _C, C08=_W + _C,
    C09="Sequential histories in virtual time and concurrent ones under a controlled scheduler are checked against the Collector specification",
    C10="Sequential and concurrent histories of lookups" + _L, C12="Sequential histories in virtual time and concurrent ones" + _L,
    C14="Random histories of registering sources of every kind, views and chains, each report compared row for row with the Report specification; reports during registration" + _L,
    C15="Random histories of deriving and rendering tag sets and series keys, sequential and concurrent, checked against the Tags specification, and data races looked for with the race detector",
    C17="Random headers, ids, clients and handlers, in chains of several hops: everything read, written, sent and served is compared with the Hop specification, which parses the header bytes itself",
    C18="Random registries (odd characters, orphans, remote parents, panics, non-finite values, any duration) and requests: every document is parsed and compared with the registry's content through the Present specification, and written again to a writer that fails",
    C22="Random histories in virtual time of queries with every kind of selector and answer, spans in several traces, ticks and clients that go away: every answer, keep-alive, mark and return is compared with the Query specification, and that nothing keeps observing or running",
    C13="Histories of values and timers" + _L, C16="Histories of registrations and failures" + _L, C19=_W + _C, C20=_W + _L,
    C23="Histories of collections, reports of every environment source, registrations, and changes of what they describe" + _L,
    C24="Random nestings, up to four calls deep, of everything that calls back and of everything else, judged by a specification of open calls, what they must hand over, and what took effect",
    C21="Histories of transformer calls" + _L).items():
    PROPS[_p]["note"] = _n + ("" if _n.startswith(_W) else "; the property is also checked on the specification as a bounded state machine") + _A
