"""Catalogue of causal scenarios the simulator draws from.

Every entry is plain data.  `lp`/`sdp` say which relaxations are cheap enough
to simulate many times; `cols` lists SDP generating sets of suitable size.
"""
import numpy as np

BELL = {"L": ["A", "B"]}
GL3 = {"L": ["A", "B", "C"]}
BILOC = {"l": ["A", "B"], "m": ["B", "C"]}
TRI = {"a": ["B", "C"], "b": ["A", "C"], "c": ["A", "B"]}
INSTR = {"U": ["A", "B"], "A": ["B"]}
INSTR3 = {"U": ["A", "B"], "V": ["B", "C"], "A": ["B"], "B": ["C"]}
EVANS = {"U": ["A", "B"], "V": ["B", "C"], "B": ["A", "C"]}
UC = {"U": ["A", "B"], "V": ["C"], "A": ["C"]}
FRONT = {"U": ["A", "C"], "V": ["B"], "A": ["B"], "B": ["C"]}
LAT1 = {"l": ["A", "N"], "N": ["B", "C"]}
LAT2 = {"l": ["A", "N"], "m": ["N", "C"], "N": ["B"]}
LAT3 = {"l": ["A", "N"], "m": ["N", "C"], "N": ["B", "D"]}
STAR = {"l": ["A", "D"], "m": ["B", "D"], "n": ["C", "D"]}
LINE4 = {"l": ["A", "B"], "m": ["B", "C"], "n": ["C", "D"]}


def _s(dag, out, st, lev, cl=(), cil=(), nil=(), lp=True, cols=("npa1",),
       supp=False):
    return {"dag": dag, "out": list(out), "set": list(st), "lev": list(lev),
            "cl": cl if isinstance(cl, str) else list(cl), "cil": list(cil),
            "nil": list(nil), "lp": lp, "cols": list(cols)}


N1, N2, L1, P1, P2 = "npa1", "npa2", "local1", "physical1", "physical2"
CAT = {
    # one copy of every source: NPA / no-signalling / local polytope
    "bell": _s(BELL, (2, 2), (2, 2), [1], cols=(N1, N2, L1, P2)),
    "bell_c": _s(BELL, (2, 2), (2, 2), [1], "all", cols=(N1, L1)),
    "bell3_c": _s(BELL, (2, 3), (2, 2), [1], "all"),
    "bell32": _s(BELL, (3, 2), (2, 2), [1], cols=(N1, L1)),
    "bell_32s": _s(BELL, (2, 2), (3, 2), [1], cols=(N1, L1)),
    "gl3": _s(GL3, (2, 2, 2), (2, 2, 1), [1], cols=(N1,)),
    "gl3_c": _s(GL3, (2, 2, 2), (2, 1, 1), [1], "all"),
    # symmetric copies
    "bell_l2": _s(BELL, (2, 2), (2, 2), [2], cols=(N1,)),
    # products of operators that do not commute, several times
    "mono_l2": _s({"h": ["A"]}, (2,), (2,), [2], cols=(N1, N2)),
    "bell21_l2": _s(BELL, (2, 2), (2, 1), [2], cols=(N1,)),
    "bell11_l2": _s(BELL, (2, 2), (1, 1), [2], cols=(N1, P2)),
    "bell11_l3": _s(BELL, (2, 2), (1, 1), [3], cols=(N1,)),
    "bell11_l2_c": _s(BELL, (2, 3), (1, 1), [2], "all"),
    # networks
    "bil11": _s(BILOC, (2, 2, 2), (2, 1, 2), [1, 1], cols=(N1, L1)),
    "bil11_c": _s(BILOC, (2, 2, 2), (2, 1, 2), [1, 1], "all"),
    "bil21": _s(BILOC, (2, 2, 2), (1, 1, 1), [2, 1], cols=(N1, P2)),
    "bil21_m": _s(BILOC, (2, 2, 2), (2, 1, 1), [2, 1], ["l"]),
    "bil21_m2": _s(BILOC, (2, 2, 2), (1, 1, 1), [2, 1], ["m"]),
    "bil22": _s(BILOC, (2, 2, 2), (1, 1, 1), [2, 2], cols=(N1,)),
    "bil22_s": _s(BILOC, (2, 2, 2), (2, 1, 1), [2, 2]),
    "bil22_c": _s(BILOC, (2, 2, 2), (1, 1, 1), [2, 2], "all"),
    "bil22_o3": _s(BILOC, (2, 3, 2), (1, 1, 1), [2, 2]),
    "bil31": _s(BILOC, (2, 2, 2), (1, 1, 1), [3, 1]),
    "tri111": _s(TRI, (2, 2, 2), (1, 1, 1), [1, 1, 1], cols=(N1, L1)),
    "tri211": _s(TRI, (2, 2, 2), (1, 1, 1), [2, 1, 1], cols=(N1, P2)),
    "tri121_c": _s(TRI, (2, 2, 2), (1, 1, 1), [1, 2, 1], "all"),
    "tri211_m": _s(TRI, (2, 2, 2), (1, 1, 1), [2, 1, 1], ["a"]),
    "tri211_m2": _s(TRI, (2, 2, 2), (1, 1, 1), [2, 1, 1], ["b"]),
    "tri221": _s(TRI, (2, 2, 2), (1, 1, 1), [2, 2, 1], cols=(N1,)),
    "tri221_o3": _s(TRI, (2, 2, 3), (1, 1, 1), [2, 2, 1], cols=(N1,)),
    "tri222": _s(TRI, (2, 2, 2), (1, 1, 1), [2, 2, 2], cols=(N1,)),
    "star2111": _s(STAR, (2, 2, 2, 2), (1, 1, 1, 1), [2, 1, 1]),
    "line211": _s(LINE4, (2, 2, 2, 2), (1, 1, 1, 1), [2, 1, 1]),
    "line121": _s(LINE4, (2, 2, 2, 2), (1, 1, 1, 1), [1, 2, 1]),
    # visible-to-visible edges
    "instr_c": _s(INSTR, (2, 2), (2, 1), [1], "all"),
    "instr": _s(INSTR, (2, 2), (3, 1), [1], cols=(N1, L1)),
    "instr3o": _s(INSTR, (3, 2), (2, 1), [1], cols=(N1,)),
    "instr_l2": _s(INSTR, (2, 2), (1, 1), [2]),
    "instr3": _s(INSTR3, (2, 2, 2), (1, 1, 1), [1, 1], cols=(N1,)),
    "evans": _s(EVANS, (2, 2, 2), (1, 1, 1), [1, 1]),
    "uc": _s(UC, (2, 2, 2), (1, 1, 1), [1, 1]),
    "front_c": _s(FRONT, (2, 2, 2), (1, 1, 1), [1, 1], "all"),
    # intermediate latents
    "lat1": _s(LAT1, (2, 2, 2), (2, 1, 1), [1], [], ["N"]),
    "lat1_q": _s(LAT1, (2, 2, 2), (2, 2, 1), [1], [], [], ["N"]),
    "lat1_2": _s(LAT1, (2, 2, 2), (1, 1, 1), [2], [], ["N"]),
    # (a classical latent whose quantum sources have copies: see the known
    # findings; here its sources are classical)
    "lat2": _s(LAT2, (2, 2, 2), (1, 1, 1), [2, 1], "all", ["N"]),
    "lat2_q": _s(LAT2, (2, 2, 2), (2, 1, 2), [2, 1], [], [], ["N"]),
    "lat3_q": _s(LAT3, (2, 2, 2, 2), (1, 1, 1, 1), [2, 1], [], [], ["N"]),
    # only for known findings: never drawn
    "lat2x": _s(LAT2, (2, 4, 2), (2, 1, 2), [2, 1], [], ["N"], lp=False,
                cols=()),
}
LP = [k for k, v in CAT.items() if v["lp"]]
SDP = [(k, c) for k, v in CAT.items() for c in v["cols"]]


def problem(sc, **over):
    """A fresh InflationProblem for a scenario dict."""
    from inflation import InflationProblem
    kw = dict(dag={k: list(v) for k, v in sc["dag"].items()},
              outcomes_per_party=list(sc["out"]),
              settings_per_party=list(sc["set"]),
              inflation_level_per_source=list(sc["lev"]),
              classical_sources=(sc["cl"] if isinstance(sc["cl"], str)
                                 else list(sc["cl"])))
    if sc["cil"]:
        kw["classical_intermediate_latents"] = list(sc["cil"])
    if sc["nil"]:
        kw["nonclassical_intermediate_latents"] = list(sc["nil"])
    if sc.get("order"):
        kw["order"] = list(sc["order"])
    kw.update(over)
    return InflationProblem(**kw)


def parties(sc):
    lat = set(sc["cil"]) | set(sc["nil"])
    names = {c for v in sc["dag"].values() for c in v} - lat
    if sc.get("order"):
        return list(sc["order"])
    return sorted(names)


def is_network(sc):
    return not (set(sc["dag"]) & set(parties(sc)))


def shape(sc):
    return tuple(sc["out"]) + tuple(sc["set"])


def noise(sc):
    """The uniform distribution."""
    P = np.ones(shape(sc))
    return P / np.prod(sc["out"])


def get(x):
    """A scenario by catalogue name, or the scenario itself."""
    return CAT[x] if isinstance(x, str) else x


def label(x):
    return x if isinstance(x, str) else "random"


def rand(rng, ptype="lp"):
    """A random scenario of suitable size (decided without the code under
    test)."""
    from . import ref
    while True:
        n = rng.choice([1, 2, 2, 3, 3, 3, 4])
        names = ["A", "B", "C", "D"][:n]
        kids = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            k = rng.randint(1, min(n, 3))
            kids.append(sorted(rng.sample(names, k)))
        for p in names:
            if not any(p in k for k in kids):
                kids.append([p])
        if len(kids) > 4:
            continue
        dag = {f"h{j}": k for j, k in enumerate(kids)}
        if rng.random() < .3 and n > 1:
            top = rng.sample(names, n)
            for a in range(n):
                for b in range(a + 1, n):
                    if rng.random() < .4:
                        dag.setdefault(top[a], []).append(top[b])
        sources = [s for s in dag if s.startswith("h")]
        lev = [rng.choice([1, 1, 1, 2, 2, 3]) for _ in sources]
        c = rng.random()
        cl = "all" if c < .25 else [] if c < .65 else \
            [s for s in sources if rng.random() < .5]
        classical = lambda s: cl == "all" or s in cl
        cil, nil = [], []
        if rng.random() < .12:
            par = rng.sample(sources, rng.randint(1, min(2, len(sources))))
            quantum = any(not classical(s) for s in par)
            one = all(lev[sources.index(s)] == 1 for s in par)
            which = rng.choice(["c", "q"])
            if which == "q" and not quantum or \
                    which == "c" and quantum and not one:
                continue
            for s in par:
                dag[s] = dag[s] + ["N"]
            dag["N"] = sorted(rng.sample(names, rng.randint(1, min(2, n))))
            (cil if which == "c" else nil).append("N")
        items = list(dag.items())
        rng.shuffle(items)
        dag = dict(items)
        src2 = [s for s in dag if s.startswith("h")]
        lev = [lev[sources.index(s)] for s in src2]
        out = [rng.choice([2, 2, 2, 2, 3]) for _ in names]
        st = [rng.choice([1, 1, 1, 2, 2, 3]) for _ in names]
        sc = _s(dag, out, st, lev, cl, cil, nil)
        if rng.random() < .15:
            sc["order"] = rng.sample(names, n)
        try:
            r = ref.LPRef(sc, size_only=True)
        except ref.TooLarge:
            continue
        ops = sum(r.card)
        if ops > (36 if ptype == "lp" else 18):
            continue
        return sc


def draw(rng, ptype, pool=None, p=.35):
    """(scenario, columns): from the catalogue or random."""
    if rng.random() < p:
        from . import ref, refsdp
        while True:
            sc = rand(rng, ptype)
            if ptype == "lp":
                return sc, None
            col = rng.choice([N1, N1, N1, N2, N2, L1, P1, P2])
            try:
                r = refsdp.SDPRef(sc, col)
            except ref.TooLarge:
                continue
            if col == N2 and len(r.keys) > 120:
                continue
            return sc, col
    if ptype == "lp":
        return rng.choice(pool or LP), None
    return rng.choice(pool or SDP)


def columns(name, pool):
    """Generating sets of a scenario small enough to simulate."""
    if isinstance(name, str):
        return [c for c in CAT[name]["cols"] if (name, c) in pool]
    from . import ref, refsdp
    out = []
    for col in (N1, N2, L1, P1, P2):
        try:
            r = refsdp.SDPRef(name, col)
        except ref.TooLarge:
            continue
        if col == N2 and len(r.keys) > 120:
            continue
        out.append(col)
    return out
