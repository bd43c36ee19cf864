#!/usr/bin/env python3
"""Driver: decides one property by exhaustive exploration of the code in /repo.

  check.py C06                 run the check (VERIF_TIER=quick|thorough)
  check.py C06 --only KEY      explore only the case KEY (group#task#case) - used for replay
  check.py --setup             build everything once
"""
import json, os, re, shutil, subprocess, sys, time, glob, signal

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(V, "work")
EVID = os.path.join(V, "evidence")

CONFIGS = {
    # name -> (crate dir, cargo features)
    "simd": ("harness", "simd"),
    "none": ("harness", ""),
    "parallel": ("harness", "parallel"),
    "simdpar": ("harness", "simd,parallel"),
    "rel": ("harness", "simd"),  # as shipped: wrapping arithmetic, no debug assertions
}
CONFIG_ENV = {"rel": {"CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "false", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "false"}}

from props import PROPS  # property id -> description of its check


def env():
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def target_dir(cfg):
    return os.path.join(V, "target", cfg)


def forget(cfg):
    """make cargo rebuild the crate under test whatever its mtimes say"""
    for d in glob.glob(os.path.join(target_dir(cfg), "*", ".fingerprint", "imgproc-rs-*")):
        shutil.rmtree(d, ignore_errors=True)


def build(cfg, bins, jobs=None):
    crate, feats = CONFIGS[cfg]
    e = env()
    e["CARGO_TARGET_DIR"] = target_dir(cfg)
    e.update(CONFIG_ENV.get(cfg, {}))
    cmd = ["cargo", "build", "--offline", "--release", "--no-default-features"]
    if feats:
        cmd += ["--features", feats]
    for b in bins:
        cmd += ["--bin", b]
    forget(cfg)
    r = sh(cmd, cwd=os.path.join(V, crate), env=e)
    if r.returncode != 0 and re.search(r"(os error|failed to (lock|open|write)|signal: 9)", r.stdout):
        time.sleep(3)
        forget(cfg)
        r = sh(cmd, cwd=os.path.join(V, crate), env=e)
    return r.returncode == 0, r.stdout


def run_bin(pid, cfg, only, timeout, extra=None, tag=None):
    tag = tag or cfg
    out = os.path.join(WORK, "%s-%s.json" % (pid, tag))
    for f in (out, out + ".crash"):
        if os.path.exists(f):
            os.remove(f)
    e = env()
    e["VH_CONFIG"] = tag
    e.update(extra or {})
    e["VH_WORK"] = WORK
    e["VH_KNOWN"] = "\x1e".join(f["match"] + "\x1f" + f["got"] for f in known(pid))
    if only:
        e["VH_ONLY"] = only
    log = os.path.join(WORK, "%s-%s.log" % (pid, tag))
    with open(log, "w") as lf:
        p = subprocess.Popen([os.path.join(target_dir(cfg), "release", pid.lower()), out],
                             stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=WORK, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None, "timeout after %d s" % timeout
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
    if rc == 77:  # crash of the code under test, attributed to the case in flight
        line = ""
        if os.path.exists(out + ".crash"):
            line = open(out + ".crash").read().strip().splitlines()[-1:]
            line = line[0] if line else ""
        m = re.search(r"task=(\d+) case=(\d+) group=(.*?) desc=(.*)$", line)
        key = "%s#%s#%s" % (m.group(3), m.group(1), m.group(2)) if m else "?"
        sig = re.search(r"sig=(\d+)", line)
        rep = rep or {"cases": 0, "transitions": 0, "validated": 0, "states": 0, "groups": {}, "samples": [],
                      "violations": [], "nviol": 0, "extra": {}}
        rep["violations"].append({"key": key, "what": (m.group(4) if m else line) or ("case " + key),
                                  "got": "the process crashed with signal %s (memory error or abort) while executing this case"
                                         % (sig.group(1) if sig else "?")})
        rep["nviol"] = rep.get("nviol", 0) + 1
        return rep, None
    if rep is None or rc not in (0, 1):
        tail = open(log).read()[-2000:]
        return None, "explorer ended with status %s\n%s" % (rc, tail)
    return rep, None


def known(pid):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]


def main():
    if "--setup" in sys.argv:
        return setup()
    pid = sys.argv[1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    onlycfg = sys.argv[sys.argv.index("--config") + 1] if "--config" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    for d in glob.glob(os.path.join(WORK, "%s-*" % pid.lower())):
        if os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)
    t0 = time.time()
    P = PROPS[pid]
    tot = dict(cases=0, transitions=0, validated=0, states=0)
    groups, samples, viols, extra = {}, [], [], {}
    nviol = 0
    if "runner" in P:
        import importlib
        mod = importlib.import_module(P["runner"])
        reps = mod.run(pid, P, tier, only, onlycfg, sys.modules[__name__])
    else:
        reps = []
        for cfg in P["configs"]:
            if onlycfg and cfg != onlycfg:
                continue
            ok, log = build(cfg, [pid.lower()])
            if not ok:
                print(log[-4000:])
                print("ERROR: build of configuration %s failed" % cfg)
                return 2
            rep, err = run_bin(pid, cfg, only, 860 if tier == "quick" else 6 * 3600)
            if err:
                print("ERROR: %s [%s]: %s" % (pid, cfg, err))
                return 2
            reps.append((cfg, rep))
    if isinstance(reps, int):
        return reps
    for cfg, rep in reps:
        for k in tot:
            tot[k] += rep.get(k, 0)
        for g, v in rep.get("groups", {}).items():
            groups["%s/%s" % (cfg, g)] = v
        samples += ["[%s] %s" % (cfg, s) for s in rep.get("samples", [])]
        for k, v in rep.get("extra", {}).items():
            extra["%s/%s" % (cfg, k)] = v
        for v in rep.get("violations", []):
            v["config"] = cfg
            viols.append(v)
        nviol += rep.get("nviol", 0)
    new = viols
    nknown = sum(rep.get("nknown", 0) for _, rep in reps)
    for f in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    cov = {
        "states": tot["states"],
        "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["validated"],
        "samples": [s[:400] for s in samples[:24]],
        "explored_cases": tot["cases"],
        "spaces": groups,
        "exhaustive": not only,
        "rule": P.get("rule", "every case of every listed space is executed on the real code and its result compared with the reference model; "
                "states = distinct (inputs, arguments) and result images by fingerprint in a bitstate table (lower bound); "
                "transitions = calls into the crate under test; traces_validated = executions whose observed result equals the model's"),
    }
    if extra:
        cov["notes"] = extra
    if nknown:
        cov["known_finding_cases"] = nknown
    if only is None and onlycfg is None:
        ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
              "level": "model_checking", "coverage": cov,
              "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            cov["spaces"] = {k: v for k, v in list(groups.items())[:60]}
            s = json.dumps(ev, indent=1)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            f.write(s + "\n")
    if new:
        v = new[0]
        path = os.path.join(EVID, "replays", "%s.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "violations": new[:20], "total": nviol,
                       "replay": "cd /verif && VERIF_TIER=%s python3 check.py %s --config %s --only '%s'" % (tier, pid, v["config"], v["key"])}, f, indent=1)
        for v in new[:5]:
            print("  [%s] %s: %s -> %s" % (v["config"], v["key"], v["what"][:300], v["got"][:400]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (pid, tot["states"], tot["transitions"], tot["validated"], time.time() - t0))
    return 0


def setup():
    os.makedirs(WORK, exist_ok=True)
    need = {}
    for pid, P in PROPS.items():
        for c in P.get("configs", []):
            need.setdefault(c, []).append(pid.lower())
    for cfg, bins in need.items():
        ok, log = build(cfg, bins)
        print(cfg, "ok" if ok else log[-3000:])
        if not ok:
            return 2
    for pid, P in PROPS.items():
        if "runner" in P:
            import importlib
            mod = importlib.import_module(P["runner"])
            if hasattr(mod, "setup"):
                rc = mod.setup(pid, P, sys.modules[__name__])
                if rc:
                    return rc
    return 0


if __name__ == "__main__":
    sys.path.insert(0, V)
    sys.exit(main())
