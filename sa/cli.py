"""python3 -m sa.cli PROPERTY [--tier quick|thorough]"""
import os
import sys
import traceback

sys.setrecursionlimit(20000)
from . import model, report, rules_sim, rules_prty, rules_net
from .registry import REG


class Context:
    def __init__(self, prog):
        self.prog = prog
        self._sim = None

    @property
    def sim(self):
        if self._sim is None:
            self._sim = rules_sim.Ctx(self.prog)
            self._sim.sims.update(rules_prty.sims())
            self._sim.sims.update(rules_net.sims())
        return self._sim


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("SA_REPO", "/repo")
    if "--repo" in argv:
        repo = argv[argv.index("--repo") + 1]
    spec = REG[pid]
    rep = report.Report(pid)
    try:
        prog = model.Program(repo)
        spec["run"](Context(prog), rep, tier)
    except Exception:
        traceback.print_exc()
        print(f"{pid}: the analysis could not be carried out")
        return 2
    if rep.held == 0 and not rep.violations:
        for k, m in rep.undecided.items():
            print("  undecided:", k, m)
        print(f"{pid}: nothing could be analysed")
        return 2
    ev = os.environ.get("SA_EVIDENCE", root)
    return report.finish(rep, root, tier, seed, "other", spec["explanation"], spec["assumptions"], None, evroot=ev)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
