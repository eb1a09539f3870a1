#!/usr/bin/env python3
"""Decides one property: builds the harness from /repo's current tree, records what
the real code does, and has TLC check it (and the design models) against the
specifications in /verif/spec.

  check.py C11            quick or thorough as VERIF_TIER says
  check.py C11 --replay F check one recorded history again
"""
import concurrent.futures, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")   # the variable is for trying out changes in scratch copies
sys.path.insert(0, os.path.join(VERIF, "tools"))
JAVA = ["java", "-XX:+UseParallelGC"]
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class Broken(Exception):
    """The check itself failed: no verdict."""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOWORK="off")
    e.pop("GODEBUG", None)
    return e

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="vh-%s-" % prop)
        self.builds = {}
        self.notes = []
        self.info = []
        self.states = self.transitions = self.traces = self.execs = self.events = 0
        self.design = []
        self.samples = []
        self.violations = []   # (reason, replay dict)
        self.lock = threading.Lock()
        self.known = []

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

# ---------------------------------------------------------------- building

_build_lock = threading.Lock()

def prepare_overlays(c):
    env = goenv()
    instr = os.path.join(c.work, "instr.bin")
    r = subprocess.run(["go", "build", "-o", instr, "./cmd/instr"], cwd=VERIF + "/harness", env=env, capture_output=True, text=True)
    if r.returncode:
        raise Broken("instr does not build:\n" + r.stderr)
    for kind, args in (("plain", ["-plain"]), ("instr", [".", "collect", "environment"])):
        out = os.path.join(c.work, kind)
        os.makedirs(out)
        r = subprocess.run([instr, "-repo", REPO, "-out", out, "-sched", VERIF + "/harness/zzvsched"] + args, capture_output=True, text=True)
        if r.returncode:
            raise Broken("instr failed:\n" + r.stderr)
        if r.stderr.strip():
            c.notes.append(r.stderr.strip())

def build(c, kind):
    """kind: instr | plain | race | ae (appengine tag, instrumented)."""
    out = os.path.join(c.work, "vh-" + kind)
    args = ["go", "test", "-c", "-vet=off", "-o", out]
    if REPO != "/repo":
        mod = os.path.join(c.work, "go.%s.mod" % kind)
        open(mod, "w").write(open(VERIF + "/harness/go.mod").read().replace("=> /repo", "=> " + REPO))
        args += ["-modfile", mod]
    ov = "instr" if kind in ("instr", "ae") else "plain"
    args += ["-overlay", os.path.join(c.work, ov, "overlay.json")]
    if kind == "race":
        args += ["-race"]
    if kind in ("ae", "plainae"):
        args += ["-tags", "appengine"]
    r = subprocess.run(args + ["."], cwd=VERIF + "/harness", env=goenv(), capture_output=True, text=True)
    if r.returncode:
        if kind in ("instr", "ae"):
            # the instrumenter cannot cope with this tree: do without it
            c.notes.append("instrumented build failed, using the plain one: " + r.stderr[:500])
            args[args.index("-overlay") + 1] = os.path.join(c.work, "plain", "overlay.json")
            r = subprocess.run(args + ["."], cwd=VERIF + "/harness", env=goenv(), capture_output=True, text=True)
        if r.returncode:
            raise Broken("harness (%s) does not build against %s:\n%s" % (kind, REPO, r.stderr))
    return out

# ---------------------------------------------------------------- driving

FRAME = re.compile(r"^(github\.com/spacemonkeygo/monkit/v3[^\s(]*\.[^\s]*)\(", re.M)

def repo_frames(text):
    return [f for f in FRAME.findall(text) if "zzvsched" not in f]

def parse_races(text):
    out = []
    for rep in text.split("WARNING: DATA RACE")[1:]:
        rep = rep.split("==================")[0]
        parts = re.split(r"\n\s*\n", rep)
        acc = [p for p in parts if re.search(r"(Read|Write|read|write) (at|of)", p)]
        # the accesses themselves: innermost frame of each of the two stacks
        tops = []
        for p in acc[:2]:
            fr = re.findall(r"^  (\S.*)\(\)$", p, re.M)
            # standard library frames (map access, bufio, ...): what called them made the access
            fr = [f for f in fr if "spacemonkeygo/monkit" in f or f.startswith("vh")]
            tops.append(fr[0] if fr else "?")
        if any("spacemonkeygo/monkit" in t for t in tops):
            out.append("data race: " + " / ".join(t.replace("github.com/spacemonkeygo/", "") for t in tops))
        elif tops:
            out.append(None)
    return out

def stuck_at(text):
    """A SIGQUIT dump: where in the code under test, or else in the driver, is it?"""
    at = []
    for g in re.split(r"\n\n(?=goroutine )", text):
        fr = repo_frames(g)
        if fr and not ("ticker" in g and "sleep" in g):
            at.append(fr[0].split("/")[-1])
    if not at:
        at = re.findall(r"^(vh\.\S+?)\(", text, re.M)
    return ", ".join(sorted(set(at))[:6]) or "?"

def dump_deadlock(text):
    """A SIGQUIT dump: is the code under test blocked for good?"""
    hits = []
    for g in re.split(r"\n\n(?=goroutine )", text):
        m = re.match(r"goroutine \d+[^\[]*\[([^\]]*)\]", g.strip())
        if not m or not repo_frames(g):
            continue
        st = m.group(1)
        if "ticker" in g and "sleep" in st:
            continue
        if re.match(r"(sync\.(RW)?Mutex\.(R)?Lock|semacquire|sync\.WaitGroup\.Wait)", st):
            hits.append(repo_frames(g)[0])
        else:
            return None      # something in the code under test may still run
    return hits and "blocked for good in " + ", ".join(h.split("/")[-1] for h in hits) or None

def drive(c, kind, driver, n, seed, opt, shard, shards, cap, inp=""):
    exe = c.builds[kind]
    out = os.path.join(c.work, "%s.%s.%s.%d.ndjson" % (driver, kind, opt, shard))
    args = [exe, "-test.run", "^TestDrive$", "-test.timeout", "0", "-vh.driver", driver, "-vh.seed", str(seed), "-vh.n", str(n),
            "-vh.out", out, "-vh.opt", opt, "-vh.shard", str(shard), "-vh.shards", str(shards), "-vh.cap", str(cap), "-vh.in", inp]
    env = goenv()
    env.pop("GOFLAGS")
    if kind == "race":
        env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3"
    elif kind in ("instr", "ae"):
        env["GOMAXPROCS"] = "1" if shards > 1 else "2"
    wd = os.path.join(c.work, "cwd-%s-%s-%d" % (driver, kind, shard))
    os.makedirs(wd, exist_ok=True)
    err = open(out + ".err", "w+")
    p = subprocess.Popen(args, cwd=wd, env=env, stdout=err, stderr=subprocess.STDOUT, start_new_session=True)
    timed_out = False
    try:
        p.wait(timeout=cap * 2 + 60)
    except subprocess.TimeoutExpired:
        timed_out = True
        p.send_signal(signal.SIGQUIT)
        try:
            p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
    err.seek(0)
    text = err.read()
    extra = []
    where = "%s (%s build, seed %d, shard %d/%d)" % (driver, kind, seed, shard, shards)
    if kind == "race":
        races = parse_races(text)
        for r in sorted(set(x for x in races if x)):
            extra.append(r)
        if races and not extra:
            raise Broken("%s: data race outside the code under test:\n%s" % (where, text[:4000]))
    crashed = p.returncode != 0
    if timed_out:
        # drivers stop themselves at their cap; one that is still there after
        # twice that and a minute waits for something that never happens
        extra.append(dump_deadlock(text) or "never ends: " + stuck_at(text))
    elif crashed:
        m = re.search(r"^(fatal error: .*|panic: .*)$", text, re.M)
        first = text[m.start():] if m else ""
        g = re.search(r"^goroutine .*?(?=\n\ngoroutine |\Z)", first, re.M | re.S)
        fr = repo_frames(g.group(0)) if g else []
        if m and fr and not text.startswith("no driver"):
            extra.append("crash: %s in %s" % (m.group(1)[:200], fr[0].split("/")[-1]))
        elif m and m.group(1).startswith("panic: ") and "zzvsched: " not in m.group(1) and re.search(r"^(vh\.|\t.*/harness/)", g.group(0) if g else "", re.M):
            # the driver was given something it cannot use (nil, too few, ...)
            extra.append("unusable result: %s" % m.group(1)[:200])
        else:
            raise Broken("%s: driver died (%s)\n%s" % (where, p.returncode, text[:6000]))
    if extra:
        with open(out, "a") as f:
            for e in extra:
                f.write(json.dumps({"meta": {"driver": driver, "kind": kind, "seed": seed}, "ev": [{"k": "h"}, {"k": "x", "why": e}]}) + "\n")
    try:
        s = json.load(open(out + ".sum"))
    except FileNotFoundError:
        s = {"traces": 0, "execs": 0, "events": 0, "samples": [], "info": {}}
    s["traces"] += len(extra)
    with c.lock:
        c.execs += s["execs"]
        c.info.append({"driver": driver, "build": kind, "shard": shard, "traces": s["traces"], "execs": s["execs"], "events": s["events"], **(s["info"] or {})})
    return out, s

# ---------------------------------------------------------------- TLC

def run_tlc(c, module, cfg_text, env_extra, tag, workers, heap, timeout, extra_args=()):
    d = os.path.join(c.work, "tlc-" + tag)
    os.makedirs(d)
    cfg = os.path.join(d, module + ".cfg")
    open(cfg, "w").write(cfg_text)
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    env.update(env_extra)
    cmd = JAVA + ["-Xmx" + heap, "-Xss32m", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", d + "/md", "-noGenerateSpecTE",
           "-config", cfg, *extra_args, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on %s (%s)" % (module, tag))
    out = r.stdout + r.stderr
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "") if False else out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    shutil.rmtree(d + "/md", ignore_errors=True)
    return out, gen, dist

def cfg(spec="Spec", invariants=(), constants=None, extra=""):
    t = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    for i in invariants:
        t += "INVARIANT %s\n" % i
    for k, v in (constants or {}).items():
        # a value, or a definition that replaces another
        t += "CONSTANT %s %s\n" % (k, v) if str(v).startswith("<-") else "CONSTANT %s = %s\n" % (k, v)
    return t + extra

def tla_last_state(out):
    st = re.split(r"\nState \d+: ", out)
    return st[-1].split("\n\n")[0] if len(st) > 1 else ""

def field(state, name):
    m = re.search(r"/\\ %s = (.*?)(?=\n/\\ |\Z)" % name, state, re.S)
    return m.group(1).strip() if m else None

def check_traces(c, module, constants, path, tag, workers, heap, timeout):
    n = sum(1 for _ in open(path))
    if n == 0:
        return
    out, gen, dist = run_tlc(c, module, cfg(invariants=["Conforms"], constants=constants), {"VH_TRACES": path}, tag, workers, heap, timeout)
    with c.lock:
        c.states += dist; c.transitions += gen
    if "No error has been found" in out:
        if dist < n:
            raise Broken("TLC saw fewer states than traces (%d < %d)" % (dist, n))
        with c.lock:
            c.traces += n
        return
    st, strange = tla_last_state(out), None
    if "Invariant Conforms is violated" not in out:
        if not field(st, "t") or re.search(r"OutOfMemory|StackOverflow|Java heap", out):
            raise Broken("TLC failed on %s:\n%s" % (tag, out[-5000:]))
        # what was observed after this state is nothing the specification has a word for
        m = re.search(r"The exception was an? [\w.]*\n?:? ?((?:.*\n){1,3})", out) or re.search(r"^Error: (.*)", out, re.M)
        strange = "means nothing to the specification: " + " ".join(m.group(1).split() if m else "?")[:200]
    if not st:
        # initial state violation
        st = out[out.find("Invariant Conforms is violated"):]
    t, l, bad = field(st, "t"), field(st, "l"), strange or field(st, "bad")
    line = None
    with open(path) as f:
        for i, x in enumerate(f, 1):
            if t and i == int(t):
                line = json.loads(x)
    with c.lock:
        c.traces += n - 1
        c.violations.append((bad or "rejected", {"property": c.prop, "module": module, "constants": constants,
            "reason": bad, "event": l, "trace": line, "tlc_state": st[:20000]}))

def split_file(path, per, work, tag):
    """Splits an ndjson file into parts of about per lines."""
    parts, f, k = [], None, 0
    with open(path) as src:
        for i, line in enumerate(src):
            if i % per == 0:
                if f: f.close()
                p = os.path.join(work, "%s.part%d.ndjson" % (tag, k)); k += 1
                f = open(p, "w"); parts.append(p)
            f.write(line)
    if f: f.close()
    return parts

# ---------------------------------------------------------------- main

def run(prop, tier, seed):
    from config import PROPS
    conf = PROPS[prop]
    t0 = time.time()
    c = Ctx(prop, tier, seed)
    ti = 0 if tier == "quick" else 1
    pick = lambda v: v[ti] if isinstance(v, (list, tuple)) else v
    try:
        prepare_overlays(c)
        kinds = sorted({r["build"] for r in conf["runs"]})
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fb = {k: ex.submit(build, c, k) for k in kinds}
            # design models meanwhile
            fd = [ex.submit(design, c, i, m, ti) for i, m in enumerate(conf.get("design", []))]
            # and programs generated from the specification
            fg = {k: ex.submit(generate, c, k, g, ti) for k, g in conf.get("generate", {}).items()}
            for k, f in fb.items():
                c.builds[k] = f.result()
            for f in fd:
                f.result()
            inputs = {k: f.result() for k, f in fg.items()}
        jobs = []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for r in conf["runs"]:
                if r.get("thorough_only") and ti == 0:
                    continue
                sh = pick(r.get("shards", 1))
                for s in range(sh):
                    jobs.append((r, ex.submit(drive, c, r["build"], r["driver"], pick(r["n"]), seed, str(pick(r.get("opt", ""))), s, sh, pick(r.get("cap", (60, 900))), inputs.get(r.get("gen"), ""))))
            byspec = {}
            for r, f in jobs:
                path, s = f.result()
                key = (r["spec"], tuple(sorted(r.get("consts", {}).items())))
                byspec.setdefault(key, []).append(path)
                if len(c.samples) < 6:
                    c.samples += [x[:1500] for x in (s["samples"] or [])[:1]]
        # gather, remove duplicates across shards, split
        tasks = []
        for k, (key, paths) in enumerate(byspec.items()):
            allp = os.path.join(c.work, "all%d.ndjson" % k)
            seen = set()
            with open(allp, "w") as o:
                for p in paths:
                    for line in open(p):
                        h = hash(line[line.find('"ev":'):])
                        if h not in seen:
                            seen.add(h); o.write(line)
            per = conf.get("per", 2500)
            for j, part in enumerate(split_file(allp, per, c.work, "k%d" % k)):
                tasks.append((key, part, "%d-%d" % (k, j)))
        c.events = sum(i["events"] for i in c.info)
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(check_traces, c, key[0], dict(key[1]), part, tag, 2, "4g", 3000) for key, part, tag in tasks]
            for f in fs:
                f.result()
        rc = report(c, conf, t0)
    finally:
        c.cleanup()
    return rc

def design(c, i, m, ti):
    """Checks a design model exhaustively. A failure here is a broken model, not a
    verdict on the code."""
    pick = lambda v: v[ti] if isinstance(v, (list, tuple)) else v
    consts = {k: pick(v) for k, v in m.get("consts", {}).items()}
    text = cfg(m.get("spec", "Spec"), m.get("invariants", ()), consts,
               "".join("PROPERTY %s\n" % p for p in m.get("properties", ())) +
               "".join("CONSTRAINT %s\n" % p for p in m.get("constraints", ())) +
               "".join("SYMMETRY %s\n" % p for p in m.get("symmetry", ())) +
               "".join("VIEW %s\n" % p for p in m.get("view", ())))
    out, gen, dist = run_tlc(c, m["module"], text, {}, "design%d" % i, m.get("workers", 4), "6g", 3000)
    if "No error has been found" not in out:
        raise Broken("design model %s fails:\n%s" % (m["module"], out[-6000:]))
    with c.lock:
        c.states += dist; c.transitions += gen
        c.design.append({"module": m["module"], "constants": consts, "states": dist, "transitions": gen,
                         "invariants": list(m.get("invariants", ())), "properties": list(m.get("properties", ()))})

def generate(c, name, g, ti):
    """Has TLC enumerate the bounded specification and print every transition as a
    program; keeps the programs that are not prefixes of others."""
    pick = lambda v: v[ti] if isinstance(v, (list, tuple)) else v
    consts = {k: pick(v) for k, v in g["consts"].items()}
    text = cfg("Spec", (), consts, "VIEW %s\n" % g["view"])
    out, gen, dist = run_tlc(c, g["module"], text, {}, "gen-" + name, 4, "8g", 3000)
    if "No error has been found" not in out:
        raise Broken("generation from %s fails:\n%s" % (g["module"], out[-4000:]))
    progs = []
    for line in out.splitlines():
        if line.startswith('"PROG '):
            progs.append(json.loads(line)[5:])
    # a program's prefixes sort right before it, up to the closing bracket
    progs = sorted(set(x[:-1] for x in progs))
    keep = [x for i, x in enumerate(progs) if i + 1 == len(progs) or not progs[i + 1].startswith(x + ",")]
    rnd = random.Random(c.seed)
    total = len(keep)
    if total > pick(g["max"]):
        keep = rnd.sample(keep, pick(g["max"]))
    path = os.path.join(c.work, "gen-%s.ndjson" % name)
    with open(path, "w") as f:
        for x in keep:
            ops = json.loads(x + "]")
            for o in ops:
                if o["o"] in ("end", "observed"):
                    o["pk"] = rnd.randrange(30)
                    o["e"] = 1 + rnd.randrange(4)
                elif o["o"] == "start":
                    o["nargs"] = rnd.randrange(3)
            f.write(json.dumps(ops) + "\n")
    with c.lock:
        c.states += dist; c.transitions += gen
        c.design.append({"module": g["module"], "constants": consts, "states": dist, "transitions": gen,
                         "programs_generated": total, "programs_run": len(keep)})
    return path

def report(c, conf, t0):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    ev = {"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
          "coverage": {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
                       "executions_of_the_implementation": c.execs, "events_checked": c.events,
                       "design_models": c.design, "drivers": c.info, "samples": c.samples[:6] or ["none"], "notes": c.notes},
          "assumptions": conf.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": len(c.violations)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", c.prop + ".json"), "w"), indent=1)
    if not c.violations:
        log("%s: held; %d traces, %d states, %.1fs" % (c.prop, c.traces, c.states, time.time() - t0))
        return 0
    for k, (why, rep) in enumerate(c.violations[:5]):
        p = os.path.join(VERIF, "replays", "%s-%d.json" % (c.prop, k))
        json.dump(rep, open(p, "w"), indent=1)
        log("%s: %s" % (c.prop, why))
        print("VIOLATION property=%s replay=%s" % (c.prop, p), flush=True)
    return 1

def replay(prop, path):
    rep = json.load(open(path))
    c = Ctx(prop, "quick", 1)
    try:
        p = os.path.join(c.work, "r.ndjson")
        open(p, "w").write(json.dumps(rep["trace"]) + "\n")
        check_traces(c, rep["module"], rep["constants"], p, "replay", 1, "2g", 600)
        for why, r in c.violations:
            print(why); print(r["tlc_state"])
        return 1 if c.violations else 0
    finally:
        c.cleanup()

if __name__ == "__main__":
    prop = sys.argv[1]
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            sys.exit(replay(prop, sys.argv[3]))
        sys.exit(run(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))))
    except Broken as e:
        log("CHECK BROKEN: %s" % e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
