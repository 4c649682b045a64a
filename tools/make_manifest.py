"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
TECH = {
    "C01": T + "seeded Gibbs histories with interruptions and chosen draws; tree invariants after every step",
    "C02": T + "seeded Gibbs histories and simulated multi-worker fits; predictions against a thresholds-only reference",
    "C03": T + "seeded Gibbs histories with interruptions; residual seen by every node against a reference",
    "C04": T + "seeded Gibbs histories with interruptions; every cached statistic recomputed",
    "C05": T + "recorded samples fingerprinted and re-read after sampling on, refits, failures, copies and pickling",
    "C06": T + "simulated worker pools (processes and threads) under a seeded scheduler; bitwise comparison with each chain alone",
    "C07": T + "simulated worker pools with chosen random streams after random histories; draw attribution",
    "C08": T + "simulated worker pools running many data sets; attribution against single runs",
    "C09": T + "recorded step history of the sampler against the promised schedule, with interruptions",
    "C10": T + "faults in workers, transport, output and the waiting caller; all-or-nothing and recovery oracle",
    "C11": T + "interruptions at draws, steps and logging; validity and residual oracle in the continuation",
    "C12": T + "random process histories with failures, then bitwise comparison with a fresh process",
    "C13": T + "step-budgeted runs on degenerate data with adversarial draws; progress and no absorbing state",
    "C14": T + "simulator-chosen uniform draws on both sides of the reference acceptance threshold",
    "C15": T + "simulator-chosen normal draws and generator states; stored values against the reference posterior",
    "C16": T + "concurrent readers preempted at source lines and interrupted; reference prediction",
    "C17": T + "seeded Gibbs histories; full before/after comparison around every proposal",
    "C18": T + "proposals drawn at states reached by seeded histories; legality and frequency tests",
    "C19": T + "fits, refits and failures in base model, chains and workers; reference composition",
    "C20": T + "interleaved fits, failures, utilities and in-place changes of the caller's arrays",
    "C21": T + "selectors fitted by simulated worker pools with failures; proportions, null models, thresholds and support recomputed",
    "C22": T + "fits, failed refits and copies in simulated pools; every diagnostic against the chains run alone",
    "C23": T + "builds and simulated multi-worker fits after interruptions and failures; initial trees against greedy least squares",
}
NOTE = ("Seeded exploration, not proof: the property held in every simulated run of the batch, over the states, schedules and faults "
        "counted in the evidence file. ")
EXTRA = {
    "gibbs": "Trusts numpy, scikit-learn and the reference in bartsim/ref.py. Interruptions arrive at draws, between steps or by "
             "abandoning a sweep.",
    "est": "Worker processes and threads are simulated (joblib backends of the harness; Parallel, cloudpickle and everything above "
           "are real); threads are preempted at source lines and draws only. Each chain has its own random stream.",
}
GIBBS = {"C01", "C03", "C04", "C09", "C11", "C13", "C14", "C15", "C17", "C18"}
NA = {}
checks = []
for pid in sorted(TECH):
    cmd = "/opt/venv/bin/python check.py %s --tier " % pid
    checks.append({"property": pid, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "technique": TECH[pid],
                   "level": "exploration", "level_note": NOTE + EXTRA["gibbs" if pid in GIBBS else "est"]})
doc = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
       "notes": "No hooks in /repo: every seam is one the code already has (numpy.random, time, sys.stdout, joblib backends, sampler "
                "objects passed to constructors). Checks import bartpy from /repo's working tree on every run. A violation's replay "
                "file is replayed with: check.py <id> --replay <file>. KNOWN_FINDINGS.txt lists the defects found and fixed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
