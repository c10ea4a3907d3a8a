"""check runner:  run.py <property>   (VERIF_TIER, VERIF_SEED in the environment)"""
import importlib, sys, os, traceback, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")
from common import *

MODS = ["chk_of", "chk_nsmb", "chk_cut", "chk_utils", "chk_noise", "chk_iv", "chk_didv", "chk_sim", "chk_nonlin", "chk_inputs", "chk_plots"]


def find(pid):
    for m in MODS:
        if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), m + ".py")):
            continue
        mod = importlib.import_module(m)
        if pid in mod.CHECKS:
            return mod.CHECKS[pid]
    raise SystemExit("no check for " + pid)


def main():
    pid = sys.argv[1]
    t0 = time.time()
    rep = Report(pid)
    try:
        find(pid)(rep)
    except MachineryError:
        traceback.print_exc()
        sys.exit(3)
    except Exception as ex:
        # the recorder met results it cannot even interpret
        traceback.print_exc()
        rep.broken("driving the real code", "%s: %s" % (type(ex).__name__, ex))
    rep.finish(t0)


if __name__ == "__main__":
    main()
