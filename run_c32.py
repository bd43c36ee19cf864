"""C32: outcomes of the plain configuration are recorded, every other configuration is compared with them."""
import os, shutil

# (tag, build configuration, worker threads)
RUNS = [("simd", "simd", None), ("simdpar-t3", "simdpar", 3), ("simdpar-t1", "simdpar", 1), ("simdpar-t8", "simdpar", 8),
        ("parallel-t2", "parallel", 2), ("parallel-t7", "parallel", 7), ("parallel-t16", "parallel", 16)]
MORE = [("simdpar-t5", "simdpar", 5), ("simdpar-t32", "simdpar", 32), ("parallel-t1", "parallel", 1), ("parallel-t4", "parallel", 4), ("parallel-t13", "parallel", 13)]


def broken(cfg, log):
    return [(cfg, {"cases": 1, "transitions": 0, "validated": 0, "states": 1, "groups": {}, "samples": [], "nviol": 1,
                   "violations": [{"key": "build", "what": "the crate built with feature configuration '%s'" % cfg,
                                   "got": "does not compile in this configuration although it does without features: " + " ".join(l for l in log.splitlines() if l.startswith("error"))[:600]}]})]


def run(pid, P, tier, only, onlycfg, d):
    ref = os.path.join(d.WORK, "c32-ref")
    shutil.rmtree(ref, ignore_errors=True)
    os.makedirs(ref)
    try:
        ok, log = d.build("none", ["c32"])
        if not ok:
            print(log[-4000:])
            print("ERROR: build of configuration none failed")
            return 2
        reps = []
        tmo = 860 if tier == "quick" else 6 * 3600
        rep, err = d.run_bin(pid, "none", only, tmo)
        if err:
            print("ERROR: C32 [none]: %s" % err)
            return 2
        reps.append(("none", rep))
        built = {}
        for tag, cfg, nt in RUNS + (MORE if tier == "thorough" else []):
            if onlycfg and tag != onlycfg:
                continue
            if cfg not in built:
                ok, log = d.build(cfg, ["c32"])
                built[cfg] = ok
                if not ok:
                    if "could not compile `imgproc-rs`" not in log:
                        print(log[-4000:])
                        return 2
                    reps += broken(cfg, log)
            if not built[cfg]:
                continue
            rep, err = d.run_bin(pid, cfg, only, tmo, {"RAYON_NUM_THREADS": str(nt)} if nt else {}, tag)
            if err:
                print("ERROR: C32 [%s]: %s" % (tag, err))
                return 2
            reps.append((tag, rep))
        return reps
    finally:
        shutil.rmtree(ref, ignore_errors=True)


def setup(pid, P, d):
    for cfg in ("none", "simd", "parallel", "simdpar"):
        ok, log = d.build(cfg, ["c32"])
        print(cfg, "c32", "ok" if ok else log[-2000:])
        if not ok and cfg == "none":
            return 2
    return 0
