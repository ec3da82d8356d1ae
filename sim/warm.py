"""Process start-up: install the simulated solver, import the code under test
from VERIF_REPO, compile its JIT functions, freeze the heap, so that every run
can be a cheap fork."""
import gc
import os
import sys
import warnings


def load():
    repo = os.environ.get("VERIF_REPO", "/repo")
    if sys.path[0] != repo:
        sys.path.insert(0, repo)
    warnings.simplefilter("ignore")
    from . import mosek_node
    mosek_node.install()
    import tqdm
    tqdm.tqdm.monitor_interval = 0        # no monitor thread
    import inflation
    got = os.path.realpath(os.path.dirname(os.path.dirname(
        inflation.__file__)))
    if got != os.path.realpath(repo):
        raise RuntimeError(f"imported {got}, not {repo}")
    return inflation


def warm(lp=True, sdp=True):
    """Run each kind of operation once; failures here are left for the runs
    to find."""
    from . import scen
    from inflation import InflationLP, InflationSDP
    import logging
    logging.disable(logging.CRITICAL)
    if lp:
        for name in ("bil21_m", "tri221"):
            try:
                p = InflationLP(scen.problem(scen.CAT[name]))
                p.set_distribution(scen.noise(scen.CAT[name]))
                p.solve(dualise=False)
                p.solve(feas_as_optim=True)
                p.certificate_as_probs()
            except Exception:                        # noqa: BLE001
                pass
    if sdp:
        for name, col in (("tri211", "npa1"), ("bell", "local1"),
                          ("bil21", "physical2")):
            try:
                s = InflationSDP(scen.problem(scen.CAT[name]))
                s.generate_relaxation(col)
                s.set_distribution(scen.noise(scen.CAT[name]))
                s.solve(dualise=False)
                s.solve(feas_as_optim=True)
            except Exception:                        # noqa: BLE001
                pass
    gc.collect()
    gc.freeze()
