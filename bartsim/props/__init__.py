"""One module per property."""
import importlib

IDS = ["C%02d" % i for i in range(1, 24)]


def get(pid):
    pid = pid.upper()
    if pid not in IDS:
        raise SystemExit("unknown property %s" % pid)
    mod = importlib.import_module("bartsim.props." + pid.lower())
    mod.ID = pid
    return mod
