"""check.py ID: runs the check of one property."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
LEVEL = {}
def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2: vlib.TIER = sys.argv[2]
    mod = importlib.import_module("checks." + pid.lower())
    rep = vlib.Report(pid, getattr(mod, "LEVEL", "model-based"))
    try:
        mod.run(rep, vlib.TIER)
    except vlib.CheckError as e:
        print("check %s could not be carried out: %s" % (pid, e))
        return 2 if not rep.viol else rep.finish()
    return rep.finish()
if __name__ == "__main__":
    sys.exit(main())
