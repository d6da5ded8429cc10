"""Machinery shared by the checks: building the harness, running TLC, recording and validating
traces.  Every job returns a Result; nothing here decides a property except TLC."""
import fcntl, glob, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
WORK = os.path.join(VERIF, "work")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BLS_R = "52435875175126190479447740508185965837690552500527637822603658699938581184513"
BIN = os.path.join(TARGET, "release", "gsv")
CLS = os.path.join(TARGET, "classes")


class ToolError(Exception):
    pass


def sh(cmd, env=None, timeout=None, cwd=None, out=None):
    """run in its own process group; (rc, output); rc None on timeout"""
    e = dict(os.environ)
    e.update(env or {})
    f = open(out, "w+") if out else tempfile.TemporaryFile("w+", errors="replace")
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=cwd, start_new_session=True)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = None
    f.seek(0)
    s = f.read()
    f.close()
    return rc, s


def build():
    """(re)build harness and library from /repo's current working tree"""
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".gsv-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # time stamps of /repo say nothing in a copied sandbox: always recompile the library
        for d in glob.glob(os.path.join(TARGET, "release", ".fingerprint", "groth-sahai-*")) + glob.glob(
                os.path.join(TARGET, "release", ".fingerprint", "gsv-*")):
            shutil.rmtree(d)
        rc, out = sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=HARNESS,
                     env={"CARGO_TARGET_DIR": TARGET, "RUSTFLAGS": ""}, timeout=800)
        if rc != 0:
            raise ToolError("the harness does not build against /repo:\n" + out[-3000:])
        cl, src = os.path.join(CLS, "GF.class"), os.path.join(SPEC, "big", "GF.java")
        if not os.path.exists(cl) or os.path.getmtime(cl) < os.path.getmtime(src):
            os.makedirs(CLS, exist_ok=True)
            rc, out = sh(["javac", "-cp", TLA, "-d", CLS, os.path.join(SPEC, "big", "GF.java")], timeout=120)
            if rc != 0:
                raise ToolError("javac: " + out[-2000:])


class Ctx:
    """one run of one check"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=WORK)
        self.lock = threading.Lock()
        self.n = 0
        self.t0 = time.time()
        self.findings = set()     # places of known findings met

    def path(self, name):
        with self.lock:
            self.n += 1
            d = os.path.join(self.dir, "%03d-%s" % (self.n, name))
        return d

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def isbig(inst):
    return inst in ("bls", "clear")


def order(inst):
    return '"%s"' % BLS_R if isbig(inst) else inst[3:].split("c")[0]


def lib(inst):
    return "big" if isbig(inst) else "int"


def tlc(cx, module, cfg=None, consts=None, big=False, env=None, workers=1, mem="1g", timeout=900, extra=()):
    """(rc, log).  cfg text: the module's committed configuration with constants replaced."""
    d = cx.path("tlc-" + module)
    os.makedirs(d)
    text = open(os.path.join(SPEC, (cfg or module) + ".cfg")).read()
    for k, v in (consts or {}).items():
        text, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s) = .*$" % re.escape(k), lambda m: "%s = %s" % (m.group(1), v), text)
        if n != 1:
            raise ToolError("constant %s of %s" % (k, module))
    c = os.path.join(d, module + ".cfg")
    open(c, "w").write(text)
    l = "big" if big else "int"
    cp = (CLS + ":" if big else "") + TLA
    gc = ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, workers)]
    cmd = ["java", "-Xmx" + mem, "-Xss64m"] + gc + ["-XX:TieredStopAtLevel=4", "-cp", cp,
           "-DTLA-Library=%s:%s" % (os.path.join(SPEC, l), SPEC), "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", c] + list(extra) + [
           os.path.join(SPEC, module + ".tla")]
    tmp = os.path.join(d, "tmp")
    os.makedirs(tmp)
    e = {"JAVA_TOOL_OPTIONS": "", "TMPDIR": tmp}
    cmd.insert(1, "-Djava.io.tmpdir=" + tmp)
    e.update(env or {})
    rc, log = sh(cmd, env=e, timeout=timeout, cwd=d)
    if rc is None:
        raise ToolError("TLC timed out on %s (%s s)" % (module, timeout))
    shutil.rmtree(d, ignore_errors=True)
    return rc, "\n".join(x for x in log.splitlines() if not re.match(r"^(Parsing|Semantic|Linting|Loading|Picked up)", x))


def counts(log):
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states", log)
    if m:
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    m = re.search(r"The number of states generated: ([\d,]+)", log)
    return (int(m.group(1).replace(",", "")),) * 2 if m else (0, 0)


class Result:
    def __init__(self, name, **kw):
        self.name = name
        self.states = self.transitions = 0
        self.events = self.traces = 0
        self.samples = []
        self.violation = None     # text
        self.replay = None        # dict
        self.trace = None
        self.exhaustive = False
        self.stats = {}
        self.__dict__.update(kw)


def mc(cx, module, name=None, **kw):
    """model checking of the specification itself: independent of /repo, so a failure is an error
    of the machinery, not of the code"""
    t = time.time()
    rc, log = tlc(cx, module, **kw)
    if rc != 0:
        raise ToolError("%s: TLC exit %s\n%s" % (module, rc, log[-3000:]))
    g, d = counts(log)
    return Result(name or module, states=d, transitions=g, exhaustive=True, secs=round(time.time() - t, 1))


HUNG = []  # calls that did not return in this run: there is a violation already, others need not wait as long


def record(cx, scen, inst, seed, n, threads=1, args=None, timeout=None):
    """run the harness; (trace path, None) or (path, reason of abnormal end)"""
    timeout = timeout or (60 if HUNG else 300 if cx.quick else 900)
    out = cx.path("%s-%s.ndjson" % (scen, inst))
    cmd = [BIN, scen, "--inst", inst, "--seed", str(seed), "--n", str(n), "--out", out, "--threads", str(threads)]
    cmd += ["%s=%s" % kv for kv in (args or {}).items()]
    rc, log = sh(cmd, timeout=timeout)
    if rc is None:
        HUNG.append(scen)
    if rc == 0 and "DONE" in log:
        return out, None, cmd
    if rc == 4:
        # every call whose refusal is a specified outcome is guarded in the harness: any other panic
        # means that a call which had to succeed did not
        return out, "a call that the specification allows only to succeed panicked: " + log.strip()[-600:], cmd
    if rc == 3 or rc == 101:
        raise ToolError("harness: %s\n%s" % (" ".join(cmd), log[-2000:]))
    return out, ("the library did not return within %d s" % timeout if rc is None else "the process died (status %s): %s" % (rc, log[-400:])), cmd


def lines(path):
    with open(path) as f:
        return sum(1 for _ in f)


def line(path, k):
    with open(path) as f:
        for i, l in enumerate(f, 1):
            if i == k:
                return l.strip()
    return ""


EVAL = re.compile(r"Attempted to|evaluated to a non-boolean|is not a function|out of bounds|The exception was a|TLC threw|was not in the domain|non-enumerable|couldn't")


def validate(cx, module, trace, inst, consts=None, timeout=900, cfg=None):
    """(ok, line number or 0, explanation, (generated, distinct))"""
    c = {} if module == "TraceFreshBig" else {"P": order(inst)}
    if module in ("TraceCase", "TraceHostile"):
        c["Known"] = "{%s}" % ", ".join('"%s"' % k["site"] for k in known(cx.prop))
    c.update(consts or {})
    rc, log = tlc(cx, module, cfg=cfg, consts=c, big=isbig(inst), env={"TRACE": trace}, timeout=timeout, mem="2g")
    st = counts(log)
    with cx.lock:
        cx.findings.update(re.findall(r'<<"FINDING", "([^"]*)">>', log))
    if rc == 0:
        return True, 0, "", st
    if "DRIVER" in log:
        raise ToolError("%s: the driver left the domain of the contract\n%s" % (module, log[-2500:]))
    m = re.search(r'<<"REJECTED", (\d+)>>', log)
    notes = " ".join(x for x in log.splitlines() if x.startswith("<<") and "REJECTED" not in x)[:400]
    if m:
        return False, int(m.group(1)), "no step of the specification explains this event " + notes, st
    if "OutOfMemory" in log or "StackOverflow" in log or "Parse Error" in log or "ConfigFileException" in log:
        raise ToolError("%s\n%s" % (module, log[-2500:]))
    if EVAL.search(log):
        ms = re.findall(r"(?m)^State (\d+):", log)
        k = int(ms[-1]) if ms else 0
        e = re.search(r"(?s)Error: .{0,600}", log)
        return False, k, "the recorded value is outside the domain of the specification: " + (e.group(0) if e else ""), st
    raise ToolError("%s: TLC exit %s\n%s" % (module, rc, log[-3000:]))


def known(prop):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def sample(trace, k=2):
    out = []
    with open(trace) as f:
        for i, l in enumerate(f):
            if i >= 60:
                break
            if len(l) < 1500 and i % 7 == 1:
                out.append(json.loads(l))
            if len(out) >= k:
                break
    return out


def bad(cx, r, cmd, module, inst, k, why, trace, consts=None, offset=0):
    r.violation = why
    r.replay = {"property": cx.prop, "harness": cmd[1:], "spec": module, "instance": inst, "constants": consts or {},
                "line": k, "event": None, "why": why}
    for a in cmd:
        if a.startswith("ops=") and os.path.exists(a[4:]) and os.path.getsize(a[4:]) < 5 << 20:
            r.replay["ops"] = open(a[4:]).read()
    if trace and os.path.exists(trace) and k:
        l = line(trace, k + offset)
        try:
            r.replay["event"] = json.loads(l)
        except Exception:
            r.replay["event"] = l[:5000]
    if trace and os.path.exists(trace) and os.path.getsize(trace) < 20 << 20:
        r.trace = trace
    return r


def cut(cx, r, cmd, module, inst, died, trace, consts=None, cfg=None):
    """a recording that ended early: the first event the specification rejects, if there is one"""
    if module.startswith("Trace") and "Fresh" not in module and os.path.exists(trace) and os.path.getsize(trace):
        try:
            ok, k, why, _ = validate(cx, module, trace, inst, consts, cfg=cfg)
            if not ok:
                return bad(cx, r, cmd, module, inst, k, why + "; later: " + died, trace, consts)
        except ToolError:
            pass
    return bad(cx, r, cmd, module, inst, 0, died, None, consts)


def conform(cx, scen, inst, n, module="TraceCase", seed=0, threads=1, args=None, consts=None, cfg=None, post=None, name=None, min_events=1):
    """record a scenario and have TLC validate it"""
    t = time.time()
    s = cx.seed * 1000003 + seed
    r = Result(name or "%s/%s" % (scen, inst))
    trace, died, cmd = record(cx, scen, inst, s, n, threads, args)
    if died:
        return cut(cx, r, cmd, module, inst, died, trace, consts, cfg)
    r.events = lines(trace)
    if r.events < min_events:
        raise ToolError("%s recorded %d events only" % (scen, r.events))
    ok, k, why, (g, d) = validate(cx, module, trace, inst, consts, cfg=cfg)
    r.transitions, r.states, r.traces = g, d, 1
    if not ok:
        return bad(cx, r, cmd, module, inst, k, why, trace, consts)
    r.samples = sample(trace)
    if post:
        post(trace, r)
    os.unlink(trace)
    r.secs = round(time.time() - t, 1)
    return r


def expect(cx, scen, n, seed=0, threads=1, args=None):
    """BLS12-381: TLC writes what the contracts require, the harness realises and compares"""
    t = time.time()
    inst = "bls"
    r = Result("%s/%s (exact)" % (scen, inst))
    trace, died, cmd = record(cx, scen, inst, cx.seed * 1000003 + seed, n, threads, args)
    if died:
        return bad(cx, r, cmd, "Expect", inst, 0, died, None)
    r.events = lines(trace)
    exp = cx.path("exp.ndjson")
    rc, log = tlc(cx, "Expect", consts={"P": order(inst)}, big=True, env={"TRACE": trace, "OUT": exp}, mem="2g")
    if rc != 0:
        if EVAL.search(log) and "OutOfMemory" not in log:
            ms = re.findall(r"(?m)^State (\d+):", log)
            return bad(cx, r, cmd, "Expect", inst, int(ms[-1]) if ms else 0, "the recorded value is outside the domain of the specification", trace)
        raise ToolError("Expect\n" + log[-3000:])
    g, d = counts(log)
    r.transitions, r.states, r.traces = g, d, 1
    out = cx.path("cmp.ndjson")
    rc, log = sh([BIN, "compare", "--inst", inst, "--out", out, "trace=" + trace, "exp=" + exp], timeout=600)
    if rc != 0:
        raise ToolError("compare: " + log[-1000:])
    if lines(out):
        k = json.loads(line(out, 1))["line"]
        bad(cx, r, cmd, "Expect", inst, k, "the result is not the one the contract requires", trace)
        r.replay["expected"] = json.loads(line(exp, k))
        return r
    r.samples = sample(trace, 1)
    os.unlink(trace)
    r.secs = round(time.time() - t, 1)
    return r


HSIZE = dict(NReg=3, NEq=3, NPrf=3, MaxVals=3, MaxLen=7)


def genhist(cx, inst, num, seed, profile, depth=40, size=HSIZE):
    """histories of calls: behaviours of GSSystem chosen by TLC's simulator"""
    rc, log = tlc(cx, "GenHist", consts=dict(size, P=order(inst), Profile='"%s"' % profile, Depth=depth), big=isbig(inst),
                  mem="2g", extra=["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(cx.seed * 7919 + seed)])
    if rc != 0:
        raise ToolError("GenHist\n" + log[-3000:])
    hs = [json.loads(json.loads(l)[5:]) for l in log.splitlines() if l.startswith('"HIST ')]
    if len(hs) < num * 0.6:
        raise ToolError("GenHist gave %d of %d histories" % (len(hs), num))
    p = cx.path("hist.json")
    with open(p, "w") as f:
        for h in hs:
            f.write(json.dumps(h) + "\n")
    return p, hs, counts(log)


def forced(cx, np, nr, nc, k, w, seed, limit=10 ** 9, workers=0):
    """the schedule specification is checked, and its orders of completion forced on the products"""
    t = time.time()
    r = Result("Par %dx(%dx%d) inner %d, %d workers" % (np, nr, nc, k, w))
    rc, log = tlc(cx, "Par", consts={"NP": np, "NR": nr, "NC": nc, "K": k, "W": w}, workers=2, mem="2g", timeout=3600)
    if rc != 0:
        raise ToolError("Par\n" + log[-3000:])
    orders = sorted({json.loads(l)[6:] for l in log.splitlines() if l.startswith('"ORDER ')})
    if not orders:
        raise ToolError("Par gave no orders")
    random.Random(seed).shuffle(orders)
    orders = orders[:limit]
    p = cx.path("orders.json")
    open(p, "w").write("\n".join(orders) + "\n")
    (g, d) = counts(log)

    def post(trace, res):
        hit = n = 0
        for l in open(trace):
            e = json.loads(l)
            n += 1
            hit += e["hit"]
        res.stats = {"orders": len(orders), "products": n, "forced_as_specified": hit}
    res = conform(cx, "forced", "toy10007", 1, seed=seed, threads=1, args={"ops": p, "workers": workers}, post=post, name=r.name)
    res.states += d
    res.transitions += g
    res.secs = round(time.time() - t, 1)
    return res


def replay_hist(cx, inst, num, seed, profile, depth=40, threads=1, **size):
    t = time.time()
    size = dict(HSIZE, **size)
    r = Result("histories %s/%s %s" % (profile, inst, " ".join("%s=%d" % kv for kv in size.items())))
    p, hs, (g0, _) = genhist(cx, inst, num, seed, profile, depth, size)
    s = cx.seed * 1000003 + seed
    consts = {"Exact": "FALSE" if inst == "bls" else "TRUE"}
    consts.update({k: size[k] for k in ("NReg", "NEq", "NPrf")})
    trace, died, cmd = record(cx, "hist", inst, s, 1, threads, {"ops": p, "nreg": size["NReg"], "neq": size["NEq"], "nprf": size["NPrf"]})
    r.events = lines(trace)
    ok, k, why, (g, d) = validate(cx, "TraceHist", trace, inst, consts)
    if ok and died:
        return bad(cx, r, cmd, "TraceHist", inst, 0, died, None, consts)
    r.transitions, r.states, r.traces = g + g0, d + g0, len(hs)
    if not ok:
        bad(cx, r, cmd, "TraceHist", inst, k, why, trace, consts)
        # the history up to the call that cannot be explained
        h = []
        with open(trace) as f:
            for i, l in enumerate(f, 1):
                e = json.loads(l)
                if e["op"] == "reset":
                    h = []
                for f in ("obs", "st", "res", "msg"):
                    e.pop(f, None)
                if i > k:
                    break
                if e["op"] != "reset":
                    h.append(e)
        r.replay["history"] = h
        return r
    c = {}
    for e in open(trace):
        e = json.loads(e)
        key = e["op"] + ("=" + e["res"] if e["op"] in ("prove", "verify", "cap") else "")
        c[key] = c.get(key, 0) + 1
    r.stats = c
    r.samples = [[{k: v for k, v in o.items() if k in ("op", "side", "reg", "dst", "src", "how", "er", "xr", "yr", "pr", "what", "comp")} for o in hs[0]]]
    os.unlink(trace)
    r.secs = round(time.time() - t, 1)
    return r


def memo(cx, inst, n, seed, contexts, args=None):
    """the same cases in several processes, contexts and orders: one trace"""
    t = time.time()
    s = cx.seed * 1000003 + seed
    r = Result("memo/%s" % inst)
    joined = cx.path("memo-%s.ndjson" % inst)
    cmds = []
    with open(joined, "w") as o:
        for k, (c, th) in enumerate(contexts):
            trace, died, cmd = record(cx, "memo", inst, s, n, 1 if c != "conc" else th, dict(args or {}, ctx=c, order=k + 1, t=th))
            cmds.append(cmd[1:])
            if died:
                return bad(cx, r, cmd, "TraceMemo", inst, 0, died, None)
            with open(trace) as f:
                shutil.copyfileobj(f, o)
            os.unlink(trace)
    r.events = lines(joined)
    ok, k, why, (g, d) = validate(cx, "TraceMemo", joined, inst)
    r.transitions, r.states, r.traces = g, d, len(contexts)
    if not ok:
        bad(cx, r, cmds and [BIN] + cmds[0], "TraceMemo", inst, k, why, joined)
        r.replay["contexts"] = cmds
        return r
    r.samples = sample(joined)
    r.stats = {"contexts": ["%s/%d" % c for c in contexts]}
    os.unlink(joined)
    r.secs = round(time.time() - t, 1)
    return r


def rerun(rec):
    """repeat a recorded violation on the current tree; the Result"""
    cx = Ctx(rec["property"], "quick", 1)
    try:
        cmd = [BIN] + rec["harness"]
        sets = rec.get("contexts") or [rec["harness"]]
        ops = None
        if rec.get("history") or rec.get("ops"):
            ops = cx.path("ops")
            # a single history is enough, but the commitments' randomness depends on those before it
            open(ops, "w").write(rec.get("ops") or json.dumps(rec["history"]) + "\n")
        trace = cx.path("replay.ndjson")
        r = Result("replay")
        died = None
        with open(trace, "w") as o:
            for h in sets:
                out = cx.path("part.ndjson")
                cmd = [BIN] + [("ops=" + ops if a.startswith("ops=") else a) for a in h]
                cmd[cmd.index("--out") + 1] = out
                rc, log = sh(cmd, timeout=400)
                if os.path.exists(out):
                    with open(out) as f:
                        shutil.copyfileobj(f, o)
                if rc != 0:
                    died = "abnormal end (%s): %s" % (rc, log[-300:])
        if rec["spec"] == "Expect":
            exp = cx.path("exp.ndjson")
            rc, log = tlc(cx, "Expect", consts={"P": order("bls")}, big=True, env={"TRACE": trace, "OUT": exp}, mem="2g")
            out = cx.path("cmp.ndjson")
            sh([BIN, "compare", "--inst", "bls", "--out", out, "trace=" + trace, "exp=" + exp], timeout=600)
            ok, k, why = (rc == 0 and lines(out) == 0), (json.loads(line(out, 1))["line"] if lines(out) else 0), "not what the contract requires"
        else:
            ok, k, why, _ = validate(cx, rec["spec"], trace, rec["instance"], rec.get("constants"))
        if ok and not died:
            return r
        return bad(cx, r, cmd, rec["spec"], rec["instance"], k, died or why, trace)
    finally:
        cx.done()


def run_all(jobs, width=8):
    """jobs: list of thunks -> Results; a ToolError of one job is raised after all have run"""
    res, errs = [], []
    with ThreadPoolExecutor(width) as ex:
        for f in [ex.submit(j) for j in jobs]:
            try:
                res.append(f.result())
            except ToolError as e:
                errs.append(e)
    return res, errs
