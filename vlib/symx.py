"""symx engine runner: clang -> bitcode -> symbolic execution -> replay."""
import json, os, re, subprocess, time
from . import core


def build_bc(h, wd):
    eng = os.path.join(core.BUILD, "symx")
    rc, so, se = core.sh(["bash", os.path.join(core.VERIF, "symx", "build.sh")], 600)
    if rc:
        raise core.CheckError("symx engine build failed: " + se[-2000:])
    bcs = []
    srcs = core.src_list(h) + [(core.VERIF + "/models/symx_libc.c", ["-fno-builtin"])]
    for i, (f, d) in enumerate(srcs):
        if f.endswith("cbmc_rt.c"):
            continue
        o = os.path.join(wd, "s%d.bc" % i)
        cmd = ["clang-18" if os.path.exists("/usr/bin/clang-18") else "clang", "-std=gnu99", "-w", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only",
               "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-DVF_SYMX", "-fwrapv", "-emit-llvm"] + core.DEFS + core.INCS + h.defs + d + ["-c", f, "-o", o]
        rc, so, se = core.sh(cmd, 180)
        if rc:
            raise core.CheckError("clang failed: %s\n%s" % (" ".join(cmd), se[-3000:]))
        bcs.append(o)
    # library models come last and are only pulled in where the symbol is undefined
    allbc, optbc = os.path.join(wd, "all0.bc"), os.path.join(wd, "all.bc")
    rc, so, se = core.sh(["llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else "llvm-link", "-o", allbc] + bcs, 120)
    if rc:
        raise core.CheckError("llvm-link failed: " + se[-3000:])
    rc, so, se = core.sh(["opt-18" if os.path.exists("/usr/bin/opt-18") else "opt", "-passes=sroa,early-cse,simplifycfg", "-o", optbc, allbc], 120)
    if rc:
        raise core.CheckError("opt failed: " + se[-3000:])
    return eng, optbc


def _pre():
    import resource
    os.setsid()
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except (ValueError, OSError):
        pass


def run(h, wd):
    t0 = time.time()
    res = dict(name=h.name, engine="symx", status="error", bounds=h.bounds, failures=[], queries=0, solver_s=0.0,
               steps=0, paths=0, forks=0, reach=0, functions=[], samples=[], validated=0, note=h.note)
    eng, bc = build_bc(h, wd)
    n = h.shards
    procs = []
    for i in range(n):
        out = os.path.join(wd, "symx%d.json" % i)
        cmd = [eng, bc, "-o", out, "--time", str(h.timeout), "--shard", "%d/%d" % (i, n), "--samples", str(max(2, h.validate // n)),
               "--seed", str(core.SEED + i)] + h.flags
        procs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=_pre)))
    core.PROCS.update(p for _, p in procs)
    docs = []
    for out, p in procs:
        try:
            _, se = p.communicate(timeout=h.timeout + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            res["status"] = "timeout"
            res["wall_s"] = round(time.time() - t0, 2)
            return res
        if p.returncode or not os.path.exists(out):
            res["detail"] = "engine rc=%s %s" % (p.returncode, se.decode("utf-8", "replace")[-1500:])
            res["wall_s"] = round(time.time() - t0, 2)
            return res
        docs.append(json.load(open(out)))
    core.PROCS.difference_update(p for _, p in procs)
    funcs = set()
    samples = []
    complete = True
    reach = {}
    fails = {}
    for i, d in enumerate(docs):
        funcs |= set(d["functions"])
        for k in ("paths", "forks", "steps", "queries"):
            res[k] += d[k]
        res["queries"] += d["cache_hits"] * 0
        res["solver_s"] += d["solver_s"]
        for k, v in d["reach"].items():
            reach[k] = reach.get(k, 0) + v
        if not d["complete"]:
            complete = False
            res["detail"] = "incomplete: " + d["why"]
        samples += d["samples"]
        for f in d["failures"]:
            fails.setdefault((f["kind"], f["what"], f["loc"] if f["kind"] != "check" else ""), f)
        res["checks"] = res.get("checks", 0) + d["checks"]
    res["solver_s"] = round(res["solver_s"], 3)
    res["functions"] = core.filter_repo_functions(funcs)
    res["reach"] = len(reach)
    exe = None
    try:
        exe = core.native_build(h, wd)
    except core.CheckError as e:
        res["status"] = "error"
        res["detail"] = str(e)
        res["wall_s"] = round(time.time() - t0, 2)
        return res
    for key, f in sorted(fails.items()):
        kind, rc, out, se = core.native_run(exe, f["values"], wd, leak=h.leak)
        what = f["what"] if f["kind"] == "check" else "%s: %s in %s" % (f["kind"], f["what"], f["stack"].split(" < ")[0] if f["stack"] else "?")
        res["failures"].append(dict(what=what, loc=f["loc"], stack=f["stack"], values=f["values"], replay=kind, count=f["count"],
                                    replay_out=out[-1500:] + "\n" + se[-3000:] + "\nstack: " + f["stack"],
                                    confirmed=kind in ("fail", "crash", "hang")))
    bad = []
    for i, s in enumerate(samples):
        kind, rc, out, se = core.native_run(exe, s["values"], wd, tag="v%d" % i, leak=h.leak)
        notes = [m.groups() for m in re.finditer(r"^NOTE (\S+) (\d+)$", out, re.M)]
        exp = [(a, str(b)) for a, b in s["notes"]]
        if kind != "ok" or notes != exp:
            j = next((k for k in range(max(len(notes), len(exp))) if k >= len(notes) or k >= len(exp) or notes[k] != exp[k]), -1)
            bad.append("path %s: native %s rc=%s, notes differ at %d: engine %s native %s %s" % (
                s["values"][:40], kind, rc, j, exp[j:j + 3], notes[j:j + 3], (out[-200:] + se[-1200:]) if kind != "ok" else ""))
            if kind in ("fail", "crash", "hang") and not any(x["confirmed"] for x in res["failures"]):
                # the engine explored this path without complaint but the real build fails: the real code decides
                res["failures"].append(dict(what="native execution of an explored path fails: " + kind + " " + (re.search(r"FAIL .*|ERROR: AddressSanitizer: \S+|runtime error: .*", out + se) or [""])[0],
                                            loc="", stack="", values=s["values"], replay=kind, count=1, replay_out=out[-1500:] + se[-3000:], confirmed=True))
        else:
            res["validated"] += 1
    res["samples"] = [dict(harness=h.name, inputs=s["values"][:60], observations=s["notes"][:20]) for s in samples[:2]]
    res["wall_s"] = round(time.time() - t0, 2)
    conf = [f for f in res["failures"] if f["confirmed"]]
    if conf:
        res["status"] = "fail"
    elif res["failures"]:
        res["status"] = "unconfirmed"
        res["detail"] = "counterexample did not reproduce: " + "; ".join("%s at %s (%s) stack %s values %s %s" % (f["what"], f["loc"], f["replay"], f["stack"][:300], f["values"][:60], f["replay_out"][:600]) for f in res["failures"][:3])
    elif bad:
        res["status"] = "mismatch"
        res["detail"] = "engine/native mismatch: " + "; ".join(bad[:2])
    elif not complete:
        res["status"] = "incomplete"
    elif not reach:
        res["status"] = "vacuous"
    else:
        res["status"] = "ok"
    return res
