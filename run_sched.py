"""C25 and C33: exploration of schedules (crate sched), one pinned process per core."""
import json, os, shutil, signal, subprocess, time, glob, re

NP = 8


def build(d, feats, bins, instrument):
    """builds the schedule explorers; the crate under test is instrumented when `instrument`"""
    name = "sched" + ("-" + feats.replace(",", "") if feats else "") + ("" if instrument else "-plain")
    e = d.env()
    e["CARGO_TARGET_DIR"] = d.target_dir(name)
    if instrument:
        e["RUSTC_WRAPPER"] = os.path.join(d.V, "sched", "wrap.sh")
    cmd = ["cargo", "build", "--offline", "--release", "--no-default-features"]
    if feats:
        cmd += ["--features", feats]
    for b in bins:
        cmd += ["--bin", b]
    d.forget(name)
    r = d.sh(cmd, cwd=os.path.join(d.V, "sched"), env=e)
    if r.returncode != 0 and re.search(r"(os error|failed to (lock|open|write)|signal: 9)", r.stdout):
        time.sleep(3)
        d.forget(name)
        r = d.sh(cmd, cwd=os.path.join(d.V, "sched"), env=e)
    return name, r.returncode == 0, r.stdout


def explore(d, pid, name, binname, only, timeout, tag):
    """runs NP processes and merges their reports"""
    np = 1 if only else NP
    ps = []
    ctr = os.path.join(d.WORK, "%s-%s.ctr" % (pid, tag))
    with open(ctr, "wb") as f:
        f.write(bytes(4096))
    for i in range(np):
        out = os.path.join(d.WORK, "%s-%s-%d.json" % (pid, tag, i))
        for f in (out, out + ".crash"):
            if os.path.exists(f):
                os.remove(f)
        e = d.env()
        e.update({"VH_CONFIG": tag, "VH_WORK": d.WORK, "VH_THREADS": "1", "VH_SHARD": "%d/%d" % (i, np)})
        if only:
            e["VH_ONLY"] = only
        else:
            e["VH_COUNTER"] = ctr
        lf = open(os.path.join(d.WORK, "%s-%s-%d.log" % (pid, tag, i)), "w")
        ps.append((out, lf, subprocess.Popen([os.path.join(d.target_dir(name), "release", binname), out],
                                             stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=d.WORK, start_new_session=True)))
    end = time.time() + timeout
    rep = {"cases": 0, "transitions": 0, "validated": 0, "states": 0, "groups": {}, "samples": [], "violations": [], "nviol": 0, "extra": {}}
    err = None
    for i, (out, lf, p) in enumerate(ps):
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            for _, _, q in ps:
                if q.poll() is None:
                    os.killpg(q.pid, signal.SIGKILL)
                    q.wait()
            return None, "timeout after %d s" % timeout
        lf.close()
        r = None
        if os.path.exists(out):
            try:
                r = json.load(open(out))
            except ValueError:
                r = None
        if r is None or rc not in (0, 1):
            line = ""
            if os.path.exists(out + ".crash"):
                ls = open(out + ".crash").read().strip().splitlines()
                line = ls[-1] if ls else ""
            if rc == 77 or rc < 0:
                m = re.search(r"task=(\d+) case=(\d+) group=(.*?) desc=(.*)$", line)
                key = "%s#%s#%s" % (m.group(3), m.group(1), m.group(2)) if m else "?"
                rep["violations"].append({"key": key, "what": (m.group(4) if m else line) or key,
                                          "got": "the process crashed (status %s: memory error or abort) while executing this case" % rc})
                rep["nviol"] += 1
            else:
                err = "explorer %d ended with status %s\n%s" % (i, rc, open(lf.name).read()[-1500:])
            continue
        for k in ("cases", "transitions", "validated", "states", "nviol"):
            rep[k] += r.get(k, 0)
        for g, v in r.get("groups", {}).items():
            if g in rep["groups"]:
                rep["groups"][g]["cases"] += v["cases"]
            else:
                rep["groups"][g] = v
        rep["samples"] += r.get("samples", [])
        rep["violations"] += r.get("violations", [])
        for k, v in r.get("extra", {}).items():
            rep["extra"]["%s (process %d)" % (k, i)] = v
    return rep, err


def run(pid, P, tier, only, onlycfg, d):
    tmo = 840 if tier == "quick" else 8 * 3600
    reps = []
    if pid == "C25":
        ref = os.path.join(d.WORK, "c25-ref")
        shutil.rmtree(ref, ignore_errors=True)
        os.makedirs(ref)
        try:
            name, ok, log = build(d, "", ["c25"], False)
            if not ok:
                print(log[-4000:])
                print("ERROR: build without features failed")
                return 2
            rep, err = explore(d, pid, name, "c25", None, tmo, "sequential")
            if err:
                print("ERROR: C25 [sequential]: %s" % err)
                return 2
            name, ok, log = build(d, "simd,parallel", ["c25"], True)
            if not ok:
                return broken(log, "parallel")
            rep2, err = explore(d, pid, name, "c25", only, tmo, "parallel")
            if err:
                print("ERROR: C25 [parallel]: %s" % err)
                return 2
            return [("sequential", rep), ("parallel", rep2)]
        finally:
            shutil.rmtree(ref, ignore_errors=True)
    for tag, feats in (("simd", "simd"), ("none", ""), ("simdpar", "simd,parallel")):
        if onlycfg and onlycfg != tag:
            continue
        name, ok, log = build(d, feats, ["c33"], True)
        if not ok:
            if tag == "simdpar":
                r = broken(log, tag)
                return r if isinstance(r, int) else reps + r
            print(log[-4000:])
            return 2
        rep, err = explore(d, pid, name, "c33", only, tmo, tag)
        if err:
            print("ERROR: C33 [%s]: %s" % (tag, err))
            return 2
        reps.append((tag, rep))
    return reps


def broken(log, cfg):
    if "could not compile `imgproc-rs`" not in log:
        print(log[-4000:])
        return 2
    return [(cfg, {"cases": 1, "transitions": 0, "validated": 0, "states": 1, "groups": {}, "samples": [], "nviol": 1,
                   "violations": [{"key": "build", "what": "the crate built with feature configuration '%s'" % cfg,
                                   "got": "does not compile in this configuration although it does without features: " + " ".join(l for l in log.splitlines() if l.startswith("error"))[:600]}]})]


def setup(pid, P, d):
    todo = [("", ["c25"], False), ("simd,parallel", ["c25"], True)] if pid == "C25" else [("simd", ["c33"], True), ("", ["c33"], True), ("simd,parallel", ["c33"], True)]
    for feats, bins, ins in todo:
        name, ok, log = build(d, feats, bins, ins)
        print(name, bins, "ok" if ok else log[-2000:])
        if not ok and not feats:
            return 2
    return 0
