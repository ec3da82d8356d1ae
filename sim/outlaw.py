"""Distributions that a scenario should refuse, and marginals of arbitrary
arrays (independent of the code under test)."""
import itertools

import numpy as np

from . import lab, scen


def correlated(sc, seed):
    """Shared randomness across all parties: a mixture of few deterministic
    points, ignoring the settings."""
    g = np.random.default_rng(seed)
    k = int(g.integers(2, 4))
    w = g.random(k) + .2
    w /= w.sum()
    P = np.zeros(scen.shape(sc))
    n = len(sc["out"])
    for i in range(k):
        a = tuple(int(g.integers(0, o)) if g.random() < .3 else
                  min(i, o - 1) for o in sc["out"])
        P[a + (slice(None),) * n] += w[i]
    return P


def array(sc, seed):
    g = np.random.default_rng(seed)
    n = len(sc["out"])
    P = g.random(scen.shape(sc)) ** 2
    return P / P.sum(axis=tuple(range(n)), keepdims=True)


def stronger(sc, seed):
    """A realisation of the same graph with stronger sources."""
    g = np.random.default_rng(seed)
    s2 = dict(sc, cl=[], nil=[], cil=list(sc["cil"]) + list(sc["nil"]))
    st = lab.Structure(s2)
    styles = ["chsh", "ghz", "quantum"]
    if not s2["cil"]:
        styles += ["ns", "ns", "ns"]
    if sum(len(st.holders[s]) for s in st.sources) > 6:
        styles = ["ns"] if "ns" in styles else ["hidden"]
    return lab.Model(s2, seed, styles[int(g.integers(len(styles)))]
                     ).distribution()


def ghz(sc, seed):
    """All parties output the same bit."""
    P = np.zeros(scen.shape(sc))
    n = len(sc["out"])
    for b in (0, 1):
        P[(b,) * n + (slice(None),) * n] = .5
    return P


KINDS = {"correlated": correlated, "array": array, "stronger": stronger,
         "ghz": ghz}


def make(sc, spec):
    P = KINDS[spec["kind"]](sc, spec["seed"])
    v = spec.get("v", 1.0)
    return v * P + (1 - v) * scen.noise(sc)


def atom_value(st, P, rows):
    """Value in P of a knowable factor given by its operator rows
    [party, copies.., setting, outcome]."""
    a, x = [None] * st.n, [0] * st.n
    for r in rows:
        i, e = int(r[0]) - 1, int(r[-2])
        a[i] = int(r[-1])
        x[i], par = st.uneff(i, e)
    for r in rows:                      # parents must be there and agree
        i = int(r[0]) - 1
        _, par = st.uneff(i, int(r[-2]))
        for j, o in par.items():
            if a[j] is None:
                raise KeyError("not closed under parents")
            if a[j] != o:
                raise KeyError("do-conditional")
    # parties left out must not be ancestors of those present; their own
    # setting is irrelevant, so 0 will do
    idx = tuple(slice(None) if v is None else v for v in a) + tuple(x)
    return float(np.sum(P[idx]))


def mon_value(st, P, mon):
    v = 1.0
    for f in mon.factors:
        v *= atom_value(st, P, f.as_2d_array)
    return v
