"""Check driver: builds harnesses from /repo's current sources, runs the solver
engines (CBMC / symx), replays counterexamples natively, writes evidence."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUILD = os.path.join(VERIF, "build")

# configuration of the default build (see /repo/_build/default/Makefile DEFS)
DEFS = ["-DHAVE_STDINT_H=1", "-DHAVE_CLOCK_GETTIME=1", "-DHAVE_SNPRINTF=1", "-DHAVE_VSNPRINTF=1",
        "-DHAVE_VA_COPY=1", "-DHAVE_GETRANDOM=1", "-DHAVE_ZLIB=1",
        "-DLIBXMPP_VERSION_MAJOR=0", "-DLIBXMPP_VERSION_MINOR=14"]
INCS = ["-I" + REPO, "-I" + REPO + "/src", "-I" + VERIF + "/vlib", "-I" + VERIF + "/harness",
        "-I" + VERIF + "/models"]


class Harness:
    def __init__(self, name, main, repo=(), extra=(), defs=(), engine="cbmc", unwind=None,
                 unwindset=(), flags=(), timeout=600, bounds="", tier="quick", mem_gb=12,
                 native_extra=None, known=None, native_libs=(), max_violations=1, leak=False,
                 undef=(), opt="-O1", shards=1, validate=12, note="", allow_nobody=(), weak_reach=False):
        self.name, self.main, self.engine = name, main, engine
        self.repo = [r if isinstance(r, tuple) else (r, ()) for r in repo]
        self.extra, self.defs = list(extra), list(defs)
        self.unwind, self.unwindset, self.flags = unwind, list(unwindset), list(flags)
        self.timeout, self.bounds, self.tier, self.mem_gb = timeout, bounds, tier, mem_gb
        self.native_extra, self.native_libs = native_extra, list(native_libs)
        self.known = known or []
        self.leak, self.undef, self.opt, self.shards, self.validate = leak, undef, opt, shards, validate
        self.weak_reach = weak_reach
        self.note, self.allow_nobody = note, set(allow_nobody)


def sh(cmd, timeout=None, cwd=None, env=None, mem_gb=None, stdout=None):
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=pre)
    PROCS.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        PROCS.discard(p)
        return p.returncode, (o or b"").decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -99, (o or b"").decode("utf-8", "replace"), "TIMEOUT\n" + e.decode("utf-8", "replace")


import threading
STOP = threading.Event()      # set at the deadline, or some time after a violation has been confirmed
PROCS = set()
DEADLINE = float(os.environ.get("VF_DEADLINE", "840" if TIER == "quick" else "1e9"))
AFTER_VIOLATION = float(os.environ.get("VF_AFTER_VIOLATION", "20"))


def stop_all():
    STOP.set()
    for p in list(PROCS):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


class CheckError(Exception):
    pass


def src_list(h, native=False):
    out = []
    for f, d in h.repo:
        out.append((os.path.join(REPO, f), list(d)))
    for f in h.extra:
        d = []
        if isinstance(f, tuple):
            f, d = f[0], list(f[1])
        out.append((os.path.join(VERIF, f), d))
    out.append((os.path.join(VERIF, h.main), []))
    return out


# ---------------------------------------------------------------- native replay
def native_build(h, wd):
    exe = os.path.join(wd, "replay")
    objs = []
    for i, (f, d) in enumerate(src_list(h) + [(VERIF + "/vlib/native.c", [])]):
        if f.endswith("cbmc_libc.c") or f.endswith("symx_libc.c"):
            continue
        o = os.path.join(wd, "n%d.o" % i)
        cmd = ["gcc", "-g", "-O1", "-w", "-std=gnu99", "-fsanitize=address,undefined", "-fno-sanitize=shift,signed-integer-overflow,alignment,object-size",
               "-fno-sanitize-recover=all", "-DVF_NATIVE", "-U_FORTIFY_SOURCE", "-fno-builtin-printf"] + DEFS + INCS + h.defs + d + ["-c", f, "-o", o]
        rc, so, se = sh(cmd, 180)
        if rc:
            raise CheckError("native build failed: %s\n%s" % (" ".join(cmd), se[-3000:]))
        objs.append(o)
    rc, so, se = sh(["gcc", "-fsanitize=address,undefined", "-o", exe] + objs + h.native_libs, 180)
    if rc:
        raise CheckError("native link failed: " + se[-3000:])
    return exe


def native_run(exe, values, wd, tag="r", timeout=20, leak=False):
    vf = os.path.join(wd, tag + ".values")
    of = os.path.join(wd, tag + ".out")
    with open(vf, "w") as fh:
        fh.write("\n".join(str(v) for v in values) + "\n")
    env = dict(os.environ, VF_VALUES=vf, VF_OUT=of,
               ASAN_OPTIONS="detect_leaks=%d:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190" % (1 if leak else 0),
               UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=1")
    rc, so, se = sh([exe], timeout, env=env, cwd=wd)
    out = open(of).read() if os.path.exists(of) else ""
    kind = "ok"
    if rc == -99:
        kind = "hang"
    elif rc == 10 or "FAIL " in out:
        kind = "fail"
    elif rc == 4:
        kind = "assume"
    elif rc == 3:
        kind = "novalues"
    elif rc != 0:
        kind = "crash"
    return kind, rc, out, se


# ---------------------------------------------------------------- CBMC
def cbmc_compile(h, wd):
    objs = []
    for i, (f, d) in enumerate(src_list(h)):
        o = os.path.join(wd, "g%d.gb" % i)
        cmd = ["goto-cc", "-std=gnu99", "-DVF_CBMC"] + DEFS + INCS + h.defs + d + ["-c", f, "-o", o]
        rc, so, se = sh(cmd, 180)
        if rc:
            raise CheckError("goto-cc failed: %s\n%s%s" % (" ".join(cmd), so[-3000:], se[-3000:]))
        objs.append(o)
    gb = os.path.join(wd, "all.gb")
    rc, so, se = sh(["goto-cc", "-o", gb] + objs + ["--function", "vf_main"], 180)
    if rc:
        raise CheckError("goto link failed: " + so[-3000:] + se[-3000:])
    return gb


def repo_functions(gb, wd):
    rc, so, se = sh(["goto-instrument", "--reachable-call-graph", gb], 120)
    names = set(re.findall(r"[\w$]+", " ".join(l for l in so.splitlines() if "->" in l)))
    return filter_repo_functions(names)


_defs_cache = None


def filter_repo_functions(names):
    global _defs_cache
    if _defs_cache is None:
        _defs_cache = {}
        sd = os.path.join(REPO, "src")
        for f in sorted(os.listdir(sd)):
            if f.endswith(".c"):
                t = open(os.path.join(sd, f), errors="replace").read()
                for m in re.finditer(r"^(?:[A-Za-z_][\w \*]*?[ \*])?\**(\w+)\([^;]*?\)\s*\{", t, re.M):
                    _defs_cache.setdefault(m.group(1), f)
    return sorted("%s:%s" % (_defs_cache[n], n) for n in names if n in _defs_cache)


def run_cbmc(h, wd):
    res = dict(name=h.name, engine="cbmc", status="error", bounds=h.bounds, failures=[], queries=0,
               solver_s=0.0, steps=0, vccs=0, reach=0, functions=[])
    t0 = time.time()
    gb = cbmc_compile(h, wd)
    res["functions"] = repo_functions(gb, wd)
    cmd = ["cbmc", gb, "--function", "vf_main", "--json-ui", "--trace", "--no-standard-checks", "--bounds-check",
           "--pointer-check", "--div-by-zero-check", "--unwinding-assertions", "--no-malloc-may-fail",
           "--drop-unused-functions", "--no-built-in-assertions", "--slice-formula"]
    cmd.remove("--no-built-in-assertions")
    cmd.remove("--slice-formula")
    if h.unwind:
        cmd += ["--unwind", str(h.unwind)]
    if h.unwindset:
        cmd += ["--unwindset", ",".join(h.unwindset)]
    cmd += h.flags
    res["cmd"] = " ".join(cmd)
    of = os.path.join(wd, "cbmc.json")
    with open(of, "w") as fh:
        rc, so, se = sh(cmd, h.timeout, mem_gb=h.mem_gb, stdout=fh)
    res["wall_s"] = round(time.time() - t0, 2)
    if rc == -99:
        res["status"] = "timeout"
        return res
    try:
        doc = json.load(open(of))
    except Exception as e:
        res["detail"] = "unparsable cbmc output rc=%s %s" % (rc, se[-500:])
        return res
    results = None
    nobody = set()
    for item in doc:
        if "messageText" in item:
            m = item["messageText"]
            g = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
            if g:
                res["vccs"] += int(g.group(1)); res["queries"] += int(g.group(2))
            g = re.search(r"Runtime (?:Solver|decision procedure): ([\d.e+-]+)s", m)
            if g and "Solver" in m:
                res["solver_s"] += float(g.group(1))
            g = re.search(r"size of program expression: (\d+) steps", m)
            if g:
                res["steps"] += int(g.group(1))
            g = re.search(r"no body for (?:callee|function) (\S+)", m)
            if g and g.group(1) not in h.allow_nobody:
                nobody.add(g.group(1))
            if item.get("messageType") == "ERROR":
                res["detail"] = m
        if "result" in item:
            results = item["result"]
    if results is None:
        res["detail"] = res.get("detail", "") + " no result; rc=%s %s" % (rc, se[-300:])
        return res
    reach_total = reach_ok = 0
    unwind_fail = False
    for r in results:
        d = r.get("description", "")
        if d.startswith("REACH:"):
            reach_total += 1
            if r["status"] == "FAILURE":
                reach_ok += 1
            continue
        if r["status"] == "SUCCESS":
            continue
        if r["status"] != "FAILURE":
            res["detail"] = "property %s status %s" % (r.get("property"), r["status"])
            return res
        if "unwinding assertion" in d or ".unwind." in r.get("property", ""):
            unwind_fail = True
            res["detail"] = "unwinding bound too small at %s" % r.get("property")
            continue
        vals = []
        loc = None
        for s in r.get("trace", []):
            if s.get("stepType") == "assignment" and s.get("lhs") == "vf_nd_last" and not s.get("hidden_x"):
                v = s["value"]
                if "binary" in v:
                    vals.append(int(v["binary"], 2))
                else:
                    vals.append(int(re.sub(r"[^\d-]", "", v.get("data", "0")) or 0))
            if s.get("stepType") == "failure":
                sl = s.get("sourceLocation", {})
                loc = "%s:%s" % (sl.get("file"), sl.get("line"))
        # first assignment is the static initialisation of vf_nd_last
        vals = vals[1:] if vals else vals
        res["failures"].append(dict(what=d[3:] if d.startswith("VF:") else d, prop=r.get("property"), loc=loc, values=vals))
    res["reach"] = reach_ok
    if res["failures"]:
        res["status"] = "fail"
    elif nobody:
        res["status"] = "incomplete"
        res["detail"] = "functions without a body: " + " ".join(sorted(nobody))
    elif unwind_fail:
        res["status"] = "inconclusive"
    elif reach_ok == 0 or (reach_ok < reach_total and not h.weak_reach):
        res["status"] = "vacuous"
        res["detail"] = "reachability witnesses %d/%d" % (reach_ok, reach_total)
    else:
        res["status"] = "ok"
    return res


# ---------------------------------------------------------------- symx
def run_symx(h, wd):
    from . import symx
    return symx.run(h, wd)


def run_harness(h, top):
    if STOP.is_set():
        return dict(name=h.name, engine=h.engine, status="cancelled", failures=[], bounds=h.bounds)
    wd = tempfile.mkdtemp(prefix=h.name + ".", dir=top)
    try:
        r = run_cbmc(h, wd) if h.engine == "cbmc" else run_symx(h, wd)
    except CheckError as e:
        r = dict(name=h.name, engine=h.engine, status="error", detail=str(e), failures=[], bounds=h.bounds,
                 functions=[], queries=0, solver_s=0, steps=0, reach=0)
    r["wd"] = wd
    if STOP.is_set() and r["status"] != "fail" and r["status"] != "ok":
        r["status"] = "cancelled"
    if r["status"] == "fail" and r["engine"] == "cbmc":
        confirm(h, r, wd)
    return r


def confirm(h, r, wd):
    """replay each counterexample against the real code, natively"""
    try:
        exe = native_build(h, wd)
    except CheckError as e:
        r["status"] = "error"
        r["detail"] = str(e)
        return
    for f in r["failures"]:
        kind, rc, out, se = native_run(exe, f["values"], wd, leak=h.leak)
        f["replay"] = kind
        f["replay_out"] = (out[-1500:] + "\n" + se[-2500:])
        f["confirmed"] = kind in ("fail", "crash", "hang")
    if not any(f["confirmed"] for f in r["failures"]):
        r["status"] = "unconfirmed"
        r["detail"] = "counterexample did not reproduce natively: " + "; ".join(
            "%s (%s)" % (f["what"], f["replay"]) for f in r["failures"][:3])


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return dict(findings=[], fixed=[])


def match_known(known, hname, what):
    return next((k for k in known if re.fullmatch(k["harness"], hname) and re.search(k["match"], what)), None)


def main(prop, harnesses, level="model_checking", assumptions=(), samples=(), trusted=(), extra_cov=None,
         workers=None):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    top = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=os.environ.get("VF_TMP", BUILD))
    hs = [h for h in harnesses if TIER == "thorough" or h.tier == "quick"]
    if os.environ.get("VF_TIMEOUT"):
        for h in hs:
            h.timeout = int(os.environ["VF_TIMEOUT"])
    only = os.environ.get("VF_ONLY")
    if only:
        hs = [h for h in hs if re.search(only, h.name)]
    known = [k for k in load_known().get("findings", []) if k["property"] == prop]
    rcode = 0
    viol = 0
    results = []

    def show(r):
        results.append(r)
        print("[%s] %-40s %-12s %6.1fs %s" % (prop, r["name"], r["status"], r.get("wall_s", 0) or 0,
                                            r.get("detail", "")[:1500] if r["status"] not in ("ok",) else ""), flush=True)
    try:
        # longest first
        with cf.ThreadPoolExecutor(max_workers=workers or 8) as ex:
            futs = {ex.submit(run_harness, h, top): h for h in hs}
            tviol = None
            pend = set(futs)
            while pend:
                done, pend = cf.wait(pend, timeout=2, return_when=cf.FIRST_COMPLETED)
                el = time.time() - t0
                if not STOP.is_set() and (el > DEADLINE or (tviol and time.time() - tviol > AFTER_VIOLATION)):
                    stop_all()
                for fu in done:
                    r = fu.result()
                    if r["status"] == "fail" and not tviol:
                        if any(f.get("confirmed") and not match_known(known, r["name"], f["what"]) for f in r["failures"]):
                            tviol = time.time()
                    show(r)
        results.sort(key=lambda r: r["name"])
        confirmed = []
        for r in results:
            if r["status"] == "fail":
                for f in r["failures"]:
                    if f.get("confirmed"):
                        confirmed.append((r, f))
            elif (r["status"] == "cancelled" or (r["status"] == "incomplete" and r.get("detail") == "incomplete: time limit")) and any(x["status"] == "ok" for x in results):
                print("note: %s not explored within the time limit" % r["name"])   # recorded as not exhaustive in the evidence
            elif r["status"] != "ok":
                rcode = 2
        hits = {}
        for r, f in confirmed:
            k = match_known(known, r["name"], f["what"])
            if k is not None:
                hits[k["id"]] = k
                continue
            viol += 1
            p = os.path.join(VERIF, "evidence", "replay-%s-%s-%d.txt" % (prop, r["name"], viol))
            with open(p, "w") as fh:
                fh.write("property %s\nharness %s\nfails: %s\nat %s\nvalues (in order of vf_nd calls):\n%s\n\nnative replay: %s\n%s\n" % (
                    prop, r["name"], f["what"], f.get("loc"), " ".join(map(str, f["values"])), f["replay"], f["replay_out"]))
            print("violation detail: %s: %s at %s (native replay: %s)" % (r["name"], f["what"], f.get("loc"), f["replay"]))
            print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
        for k in known:
            if k["id"] in hits:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
            elif any(re.fullmatch(k["harness"], h.name) for h in hs):
                print("note: known finding %s did not show up on this tree" % k["id"])
        if viol:
            rcode = 1
        write_evidence(prop, level, results, assumptions, samples, trusted, time.time() - t0, viol, extra_cov)
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(top, ignore_errors=True)
    sys.exit(rcode)


def write_evidence(prop, level, results, assumptions, samples, trusted, wall, viol, extra_cov):
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    cov = dict(
        states=sum(int(r.get("paths", 0) or 0) for r in results) + sum(int(r.get("vccs", 0)) for r in results),
        transitions=sum(int(r.get("steps", 0)) for r in results),
        traces_validated_against_impl=sum(int(r.get("validated", 0)) for r in results),
        samples=[s for r in results for s in r.get("samples", [])][:8] or list(samples) or
                ["harness %s: %s" % (r["name"], r.get("bounds", "")) for r in results][:4],
        explanation="states = symbolic paths explored to completion (symx) plus verification conditions generated (CBMC); "
                    "transitions = symbolically executed program steps; every verdict is an SMT/SAT query over all values within the stated bounds",
        functions_encoded=funcs,
        queries_discharged=sum(int(r.get("queries", 0)) for r in results),
        solver_seconds=round(sum(float(r.get("solver_s", 0)) for r in results), 3),
        reachability_witnesses=sum(int(r.get("reach", 0)) for r in results),
        harnesses=[{k: r.get(k) for k in ("name", "engine", "status", "bounds", "queries", "solver_s", "steps", "paths",
                                          "forks", "vccs", "reach", "validated", "wall_s", "detail", "note") if r.get(k) not in (None, "")}
                   for r in results],
        exhaustive=all(r["status"] in ("ok", "fail") for r in results))
    if extra_cov:
        cov.update(extra_cov)
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=list(assumptions), wall_s=round(wall, 2), violations=viol)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
