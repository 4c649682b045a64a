#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--seed N] [--runs N] [--start N] [--workers N]"""
import argparse
import os
import sys

HASHSEED = "0"
if os.environ.get("PYTHONHASHSEED") != HASHSEED and os.environ.get("BARTSIM_KEEP_HASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = HASHSEED
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="write the digest of every run to this file")
    a = ap.parse_args()
    from bartsim import env
    from bartsim import sim
    sim.install_seams()
    env.load()
    from bartsim import props, runner
    prop = props.get(a.property)
    if a.replay:
        return runner.replay(prop, a.replay)
    if a.digests:
        rows = []
        for i, res in runner.batch(prop, a.seed, a.tier, list(range(a.start, a.start + (a.runs or 50))), a.workers,
                                   env.real_monotonic() + 3600, False):
            rows.append("%d %s %s %d" % (i, res["status"], res["digest"], res["events"]))
        with open(a.digests, "w") as f:
            f.write("\n".join(sorted(rows, key=lambda s: int(s.split()[0]))) + "\n")
        return 0
    return runner.main(prop, a.tier, a.seed, a.workers, a.runs, a.start, a.seconds, a.keep_going)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
