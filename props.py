"""Per-property check configuration."""
PROPS = {
    "C01": {"configs": ["simd", "rel"]},
    "C02": {"configs": ["simd"]},
    "C03": {"configs": ["simd", "rel"]},
    "C04": {"configs": ["simd"]},
    "C05": {"configs": ["simd", "parallel", "rel"]},
    "C06": {"configs": ["simd", "none"]},
    "C07": {"configs": ["simd", "none"]},
    "C08": {"configs": ["simd", "none"]},
    "C09": {"configs": ["simd"]},
    "C10": {"configs": ["simd"]},
    "C11": {"configs": ["simd"]},
    "C12": {"configs": ["simd"]},
    "C13": {"configs": ["simd", "rel", "parallel"]},
    "C14": {"configs": ["simd", "parallel"]},
    "C15": {"configs": ["simd", "parallel"]},
    "C16": {"configs": ["simd", "parallel"]},
    "C17": {"configs": ["simd", "parallel"]},
    "C18": {"configs": ["simd", "parallel"]},
    "C19": {"configs": ["simd"]},
    "C20": {"configs": ["simd"]},
    "C21": {"configs": ["simd", "parallel"]},
    "C22": {"configs": ["simd"]},
    "C23": {"configs": ["simd"]},
    "C24": {"configs": ["simd", "parallel"]},
    "C26": {"configs": ["simd", "parallel", "rel"]},
    "C27": {"configs": ["simd"]},
    "C28": {"configs": ["simd"]},
    "C29": {"configs": ["simd", "parallel"]},
    "C30": {"configs": ["simd"]},
    "C31": {"configs": ["simd"]},
    "C32": {"runner": "run_c32",
            "technique": "differential explicit-state exploration: every operation of the alphabet on every enumerated input, executed under every feature configuration and pool size, outcomes compared with the recorded default-configuration outcomes"},
    "C25": {"runner": "run_sched",
            "technique": "stateless model checking of the implementation: systematic exploration of all schedules within preemption/stealing bounds under a controlled scheduler (real code, real rayon adaptors), with vector-clock conflict detection, against the sequential build",
            "note": "Sequentially consistent interleavings at basic-block/conflicting-access granularity, within the preemption and steal bounds in the evidence; weak memory orders are not modelled."},
    "C33": {"runner": "run_sched",
            "technique": "stateless model checking of the implementation: all interleavings of concurrent callers within a preemption bound under a controlled scheduler, with vector-clock conflict detection, against sequential outcomes",
            "note": "Sequentially consistent interleavings at basic-block/conflicting-access granularity, within the preemption bound in the evidence; weak memory orders are not modelled."},
}
